#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specs in seeds/*.py (each: BUGS = [dict(id, property, needs, breaks, edits, demo)])."""
import difflib, glob, importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools", "seed_template")
HEAD = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <thread>
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/FixedMallocPool.hpp"
#define CHECK(x) do { if (!(x)) { std::printf("demo: line %d: %s does not hold\\n", __LINE__, #x); std::exit(1); } } while (0)
using umpire::Allocator;
'''


def main():
    want = sys.argv[1:]
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            if want and b["id"] not in want:
                continue
            out = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(T, out)
            diff = ""
            files = {}
            for path, old, new in b["edits"]:
                text = files.get(path) or open(os.path.join(os.environ.get("MUT_REPO", "/repo"), path)).read()
                n = text.count(old)
                if n != 1:
                    raise SystemExit("%s: %d matches in %s for\n%s" % (b["id"], n, path, old))
                files[path] = text.replace(old, new)
            for path, text in files.items():
                a = open(os.path.join(os.environ.get("MUT_REPO", "/repo"), path)).read()
                diff += "".join(difflib.unified_diff(a.splitlines(True), text.splitlines(True), "a/" + path, "b/" + path))
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.cpp"), "w").write((HEAD if not b.get("nohead") else "") + b["demo"])
            if b.get("sh"):
                s = open(os.path.join(out, "demo.sh")).read()
                open(os.path.join(out, "demo.sh"), "w").write(s.replace("#!/bin/bash\n", "#!/bin/bash\n" + b["sh"] + "\n", 1))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            print("wrote", b["id"])


main()
