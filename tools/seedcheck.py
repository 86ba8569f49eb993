#!/usr/bin/env python3
"""Validates planted bugs in scratch copies: seedcheck.py [--checks] [--thorough] ID...

For each: the patch applies, the stable build and tests pass, the demo passes without and fails with the patch and,
with --checks, which checks (by default the bug's own property) report it.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not ids:
        ids = sorted(os.listdir(os.path.join(V, "seeded")))
    bad = 0
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        sc = "/tmp/seed-%s" % i
        shutil.rmtree(sc, ignore_errors=True)
        sh("mkdir %s && cd %s && git archive HEAD | tar x -C %s" % (sc, os.environ.get("MUT_REPO", "/repo"), sc))
        res = []
        try:
            if "--checks-only" not in sys.argv:
                r = sh("bash %s/demo.sh" % d, cwd=sc)
                if r.returncode:
                    res.append("DEMO FAILS ON CLEAN TREE: " + r.stdout[-1500:])
            a = sh("git init -q . 2>/dev/null; git apply %s/patch.diff" % d, cwd=sc)
            if a.returncode:
                res.append("DOES NOT APPLY " + a.stdout)
            elif "--checks-only" not in sys.argv:
                r = sh("bash %s/demo.sh" % d, cwd=sc)
                res.append("demo exit %d: %s" % (r.returncode, r.stdout.strip()[-300:]))
                if r.returncode == 0:
                    res.append("DEMO PASSES WITH THE PATCH")
                b = sh("cmake -S /opt/vp/umpire -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DUMPIRE_ROOT=%s && ninja -C _build" % sc, cwd=sc)
                if b.returncode:
                    res.append("BUILD FAILS " + b.stdout[-1500:])
                else:
                    for f in sorted(os.listdir(sc + "/_build")):
                        p = os.path.join(sc, "_build", f)
                        if os.path.isfile(p) and os.access(p, os.X_OK) and "test" in f and not f.endswith((".so", ".a", ".ninja")):
                            t = sh(p, cwd=sc + "/_build")
                            if t.returncode:
                                res.append("TEST FAILS %s: %s" % (f, t.stdout[-500:]))
            if "--checks" in sys.argv or "--checks-only" in sys.argv:
                props = [meta["property"]] + [a[2:] for a in sys.argv if a.startswith("--C")]
                for p in props:
                    tier = "thorough" if "--thorough" in sys.argv else "quick"
                    r = sh("VERIF_REPO=%s VERIF_TIER=%s python3 run.py %s" % (sc, tier, p), cwd=V)
                    line = [l for l in r.stdout.splitlines() if l.startswith("--- ")]
                    res.append("%s -> exit %d %s" % (p, r.returncode, line[0][:200] if line else r.stdout[-300:]))
                    if r.returncode != 1:
                        res.append("MISSED")
        finally:
            shutil.rmtree(sc, ignore_errors=True)
        print("%-28s %s" % (i, "\n    ".join(res)), flush=True)


main()
