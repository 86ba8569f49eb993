#!/bin/bash
# Builds the library from the current directory (host-only, with stand-in camp headers) and runs demo.cpp against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/umpire-demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/inc/umpire" "$work/o" "$work/run"
sed -E -e 's/^#cmakedefine +('"${DEMO_OPTIONS:+$DEMO_OPTIONS|}UMPIRE_ENABLE_LOGGING|UMPIRE_ENABLE_FILE_RESOURCE|UMPIRE_ENABLE_IPC_SHARED_MEMORY"')\b.*/#define \1/' \
    -e 's/^#cmakedefine.*//' -e 's/@UMPIRE_VERSION_RC@//' -e 's/@[A-Za-z_]+@/0/g' "$repo/src/umpire/config.hpp.in" > "$work/inc/umpire/config.hpp"
flags="-std=c++17 -w -g -O0 ${DEMO_FLAGS:-} -DUMPIRE_DISABLE_ALLOCATIONMAP_DEBUG -I$repo/src -I$repo/src/tpl -I$work/inc -I$here/stub"
find "$repo/src/umpire" -name '*.cpp' | grep -Ev '/(Cuda|Hip|Sycl|OpenMPTarget)[^/]*$|/[^/]*('"${DEMO_LEAVE_OUT-[Nn]uma|sqlite|}"'quest)[^/]*$|/(DeviceAllocator|device_allocator)[^/]*$' | sort > "$work/list"
{ cat "$work/list"; echo "$here/demo.cpp"; } | awk '{print NR, $0}' | xargs -P 8 -L 1 sh -c 'g++ '"$flags"' -c "$1" -o '"$work"'/o/$0.o' || { echo "demo: build failed"; exit 3; }
for c in "$repo"/src/tpl/umpire/judy/*.c; do gcc -w -g ${DEMO_FLAGS:-} -I"$repo/src" -I"$repo/src/tpl" -I"$work/inc" -c "$c" -o "$work/o/$(basename "$c").o" || exit 3; done
g++ ${DEMO_FLAGS:-} -o "$work/demo" "$work"/o/*.o -lfmt -lpthread -ldl -lrt ${DEMO_LINK:-} || exit 3
cd "$work/run" && timeout 120 "$work/demo"
rc=$?
echo "demo exit $rc"
exit $rc
