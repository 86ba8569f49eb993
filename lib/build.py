"""Builds /repo's current sources plus a harness, with a content-addressed object cache.

An object is reused only when the command line, the source and every header it included (recorded by -MD)
hash to what they hashed to when it was built; modification times are never consulted.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

EXCLUDE = re.compile(r"^(Cuda|Hip|Sycl|OpenMPTarget)|quest|^DeviceAllocator|^device_allocator")
OPTIONAL = [(re.compile(r"[Nn]uma"), "UMPIRE_ENABLE_NUMA"), (re.compile(r"sqlite"), "UMPIRE_ENABLE_SQLITE_EXPERIMENTAL")]

COMMON_DEFS = ["UMPIRE_ENABLE_LOGGING", "UMPIRE_ENABLE_FILE_RESOURCE", "UMPIRE_ENABLE_IPC_SHARED_MEMORY"]

SAN_ASAN = ["-fsanitize=address,bounds,null,return,unreachable,shift,signed-integer-overflow,integer-divide-by-zero,"
            "bool,enum,vla-bound,builtin", "-fno-sanitize-recover=all"]
COV = ["-fsanitize-coverage=trace-pc-guard"]

CONFIGS = {
    # name: (config.hpp defines, compile flags for /repo, flags for harness and link)
    "asan": (COMMON_DEFS, ["-O1", "-g1"] + SAN_ASAN + COV, ["-O1", "-g1"] + SAN_ASAN),
    "poison": (COMMON_DEFS + ["UMPIRE_ENABLE_ASAN"], ["-O1", "-g1"] + SAN_ASAN + COV, ["-O1", "-g1"] + SAN_ASAN),
    "tsan": (COMMON_DEFS, ["-O1", "-g1", "-fsanitize=thread"], ["-O1", "-g1", "-fsanitize=thread"]),
    "numa": (COMMON_DEFS + ["UMPIRE_ENABLE_NUMA"], ["-O1", "-g1"] + SAN_ASAN + COV, ["-O1", "-g1"] + SAN_ASAN),
    "trace": (COMMON_DEFS + ["UMPIRE_ENABLE_BACKTRACE", "UMPIRE_ENABLE_BACKTRACE_SYMBOLS"], ["-O1", "-g1", "-fno-optimize-sibling-calls"] + SAN_ASAN + COV,
              ["-O1", "-g1", "-fno-optimize-sibling-calls", "-rdynamic"] + SAN_ASAN),
    "sqlite": (COMMON_DEFS + ["UMPIRE_ENABLE_SQLITE_EXPERIMENTAL"], ["-O1", "-g1"] + SAN_ASAN + COV, ["-O1", "-g1"] + SAN_ASAN),
    "plain": (COMMON_DEFS, ["-O1", "-g1"] + COV, ["-O1", "-g1"]),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


_hash_memo = {}


def fhash(path):
    h = _hash_memo.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_memo[path] = h
    return h


_tool_memo = {}


def tool_id(cc):
    if cc not in _tool_memo:
        _tool_memo[cc] = sh([cc, "--version"]).stdout
    return _tool_memo[cc]


def gen_config(defs):
    """config.hpp from /repo's template, the way configure_file() would write it."""
    src = os.path.join(REPO, "src/umpire/config.hpp.in")
    text = open(src, encoding="utf-8", errors="replace").read()
    m = re.search(r"project\(Umpire[^)]*VERSION ([0-9.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    ver = (m.group(1) if m else "0.0.0").split(".") + ["0", "0"]

    def cd(mm):
        name = mm.group(1)
        return "#define %s" % name if name in defs else "/* #undef %s */" % name

    text = re.sub(r"^#cmakedefine\s+(\w+).*$", cd, text, flags=re.M)
    for k, v in (("Umpire_VERSION_MAJOR", ver[0]), ("Umpire_VERSION_MINOR", ver[1]), ("Umpire_VERSION_PATCH", ver[2]),
                 ("UMPIRE_VERSION_RC", "")):
        text = text.replace("@%s@" % k, v)
    d = os.path.join(CACHE, "cfg", hashlib.sha256(text.encode()).hexdigest()[:16], "umpire")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.hpp")
    if not os.path.exists(p) or open(p).read() != text:
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(text)
        os.rename(tmp, p)
    return os.path.dirname(d)


def parse_deps(path):
    text = open(path, errors="replace").read().replace("\\\n", " ")
    text = text.split(":", 1)[1]
    out = []
    for tok in re.split(r"(?<!\\)\s+", text.strip()):
        if tok:
            out.append(tok.replace("\\ ", " "))
    return out


def compile_one(cc, flags, src, tag=""):
    key = hashlib.sha256(json.dumps([cc, tool_id(cc), flags, src, tag]).encode()).hexdigest()[:32]
    d = os.path.join(CACHE, "obj", key[:2])
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, key)
    man = base + ".json"
    if os.path.exists(man):
        try:
            entries = json.load(open(man))
        except ValueError:
            entries = []
        for e in entries:
            if all(fhash(p) == h for p, h in e["deps"].items()) and os.path.exists(e["obj"]):
                return e["obj"], False
    else:
        entries = []
    tmp = "%s.%d.tmp.o" % (base, os.getpid())
    dep = tmp + ".d"
    r = sh([cc] + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp])
    if r.returncode:
        raise BuildError("compiling %s\n%s" % (src, r.stdout[-6000:]))
    deps = {p: fhash(p) for p in parse_deps(dep) if not p.startswith("/usr/")}
    os.unlink(dep)
    oh = hashlib.sha256(json.dumps(sorted(deps.items())).encode()).hexdigest()[:16]
    obj = "%s-%s.o" % (base, oh)
    os.rename(tmp, obj)
    entries = [e for e in entries if e["obj"] != obj and os.path.exists(e["obj"])][-3:] + [{"deps": deps, "obj": obj}]
    with open(man + ".%d" % os.getpid(), "w") as f:
        json.dump(entries, f)
    os.rename(man + ".%d" % os.getpid(), man)
    return obj, True


def lib_sources(util_only=False, tools=False, defs=()):
    src = os.path.join(REPO, "src/umpire")
    out = []
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp") and not EXCLUDE.search(f) and all(d in defs or not r.search(f) for r, d in OPTIONAL):
                out.append(os.path.join(root, f))
    if util_only:
        out = [p for p in out if os.path.dirname(p).endswith("/util")]
    if tools:
        for p in sorted(glob.glob(os.path.join(REPO, "tools/replay/*.cpp"))):
            if os.path.basename(p) not in ("replay.cpp", "replaydiff.cpp"):
                out.append(p)
    csrc = sorted(glob.glob(os.path.join(REPO, "src/tpl/umpire/judy/*.c")))
    return out, csrc


def build(config, harness, out_name, tools=False, extra_main=None, jobs=8, extra_link=()):
    """Returns the path of the linked harness binary. `harness` is a list of sources in /verif/harness;
    extra_main, when given, replaces them by sources of /repo (the replay tools)."""
    _hash_memo.clear()
    defs, cflags, hflags = CONFIGS[config]
    cfg = gen_config(defs)
    cpp, c = lib_sources(tools=tools, defs=defs)
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/tpl"), "-I" + cfg,
           "-I" + os.path.join(VERIF, "shim")]
    cxx = "clang++"
    work = []
    for s in cpp:
        work.append((cxx, ["-std=c++14", "-w", "-fPIC", "-DUMPIRE_DISABLE_ALLOCATIONMAP_DEBUG"] + cflags + inc, s))
    for s in c:
        work.append(("clang", ["-std=c99", "-w", "-fPIC"] + cflags + inc, s))
    if extra_main:
        for s in extra_main:
            work.append((cxx, ["-std=c++14", "-w"] + cflags + inc, s))
    for s in harness:
        work.append((cxx, ["-std=c++17", "-w", "-I" + os.path.join(VERIF, "harness")] + hflags + inc,
                     os.path.join(VERIF, "harness", s)))
    objs = [None] * len(work)
    built = 0
    errors = []
    # big ones first
    order = sorted(range(len(work)), key=lambda i: -os.path.getsize(work[i][2]))
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(compile_one, *work[i]): i for i in order}
        for f in cf.as_completed(futs):
            try:
                objs[futs[f]], fresh = f.result()
                built += fresh
            except BuildError as e:
                errors.append(str(e))
    if errors:
        raise BuildError("\n".join(errors[:3]))
    lk = hashlib.sha256(json.dumps([objs, hflags, list(extra_link)]).encode()).hexdigest()[:24]
    bdir = os.path.join(CACHE, "bin")
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, "%s-%s" % (out_name, lk))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(bdir, out_name + "-*")):
            try:
                os.unlink(old)
            except OSError:
                pass
        tmp = exe + ".%d" % os.getpid()
        # objects of /repo go into one response list; unused sections may be dropped
        r = sh([cxx] + hflags + ["-o", tmp] + objs + list(extra_link) +
               ["-lfmt", "-lpthread", "-ldl", "-lrt"])
        if r.returncode:
            raise BuildError("linking\n" + r.stdout[-6000:])
        os.rename(tmp, exe)
    return exe, built, len(work)


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2:], "manual"), time.time() - t)
