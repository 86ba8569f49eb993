#!/usr/bin/env python3
"""Runs checks against quick mutants: mut.py FILE.py [ID...]. FILE defines M = [(id, [props], [(path, old, new[, count])])].

Works in a scratch clone of /repo at /tmp/mut; nothing in /repo changes.
"""
import json, os, runpy, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("MUT_DIR", "/tmp/mut")
REPO = os.environ.get("MUT_REPO", "/repo")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


M = runpy.run_path(sys.argv[1])["M"]
only = set(a for a in sys.argv[2:] if not a.startswith("-"))
if not os.path.isdir(SC):
    sh("git clone -q %s %s" % (REPO, SC))
sh("git -C %s fetch -q %s HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq" % (SC, REPO, SC, SC))
for m in M:
    i, props, edits = m[:3]
    if only and i not in only:
        continue
    sh("git -C %s checkout -q -f ." % SC)
    bad = ""
    for e in edits:
        f = os.path.join(SC, e[0])
        s = open(f).read()
        want = e[3] if len(e) > 3 else 1
        if s.count(e[1]) != want:
            bad = "EDIT %s: %d matches" % (e[1][:60], s.count(e[1]))
            break
        open(f, "w").write(s.replace(e[1], e[2]))
    if bad:
        print("%-30s %s" % (i, bad), flush=True)
        continue
    for p in props:
        t = time.time()
        r = sh("VERIF_REPO=%s VERIF_TIER=quick VERIF_SEED=1 python3 run.py %s" % (SC, p), cwd=V)
        line = [l for l in r.stdout.splitlines() if l.startswith("--- ")]
        v = {0: "MISSED", 1: "caught"}.get(r.returncode, "exit %d" % r.returncode)
        if r.returncode not in (0, 1):
            line = [r.stdout[-600:]]
        print("%-30s %s %-7s %4.0fs %s" % (i, p, v, time.time() - t, line[0][:230] if line else ""), flush=True)
sh("git -C %s checkout -q -f ." % SC)
