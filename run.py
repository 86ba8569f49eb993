#!/usr/bin/env python3
"""Runs the check of one property.

    run.py C01 [--tier quick|thorough]      generate cases, decide the property, write evidence/C01.json
    run.py C01 --replay FILE                re-run one saved failing case with symbolised sanitizer output
    run.py --setup                          check the toolchain

Exit status: 0 the property held on everything explored, 1 VIOLATION, 2 the check itself could not run.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B          # noqa: E402
from props import PROPS    # noqa: E402


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out


def env_for(symbolize):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("UMPIRE_") or k.startswith("RC_"):
            del env[k]
    env["ASAN_OPTIONS"] = "symbolize=%d" % symbolize
    env["UBSAN_OPTIONS"] = "symbolize=%d" % symbolize
    env["TSAN_OPTIONS"] = "symbolize=%d" % symbolize
    env["LC_ALL"] = "C"
    return env


def run_part(exe, part, seed, tier, tmp, deadline, idx):
    out = os.path.join(tmp, "out%d.json" % idx)
    cases = part[tier]
    wall = min(part.get("wall_" + tier, 200 if tier == "quick" else 1500), max(20, deadline - time.time()))
    cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--wall", str(int(wall)), "--out", out, "--tmp", tmp,
           "--workers", str(part.get("workers", 8)), "--shrink-wall", str(part.get("shrink_wall", 40))]
    if part.get("suite"):
        cmd += ["--suite", part["suite"]]
    if part.get("confirm"):
        cmd += ["--confirm", str(part["confirm"])]
    if part.get("tries"):
        cmd += ["--tries", str(part["tries"])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       env=env_for(0), cwd=tmp)
    if not os.path.exists(out):
        raise RuntimeError("harness wrote no result: exit %s\n%s" % (r.returncode, r.stdout[-3000:]))
    return json.load(open(out))


def replay_file(pid, part, fail, exe):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.replay" % (pid, fail["stream"], abs(hash(tuple(fail["tape"]))) % 10**8))
    with open(path, "w") as f:
        f.write("property %s\n" % pid)
        f.write("part %s\n" % part["name"])
        f.write("stream %s\n" % fail["stream"])
        f.write("tape %s\n" % " ".join(str(x) for x in fail["tape"]))
        f.write("# kind: %s\n" % fail["kind"])
        for line in fail["msg"].splitlines():
            f.write("# %s\n" % line)
        f.write("# --- history that fails (shrunk) ---\n")
        for line in fail["trace"].splitlines():
            f.write("# %s\n" % line)
    return path


def clean_shm(tmp):
    """Shared memory segments of cases that were killed."""
    tag = "".join(ch for ch in os.path.basename(tmp) if ch.isalnum())
    try:
        for f in os.listdir("/dev/shm"):
            if f.startswith("SHARED::uv") and tag in f:
                os.unlink("/dev/shm/" + f)
    except OSError:
        pass


def main():
    if "--setup" in sys.argv:
        for t in ("clang++", "clang"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        print("ok")
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    rep = None
    for i, a in enumerate(args):
        if a == "--tier":
            tier = args[i + 1]
        if a == "--replay":
            rep = os.path.abspath(args[i + 1])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = PROPS[pid]
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 5400)

    if rep:
        name = None
        for line in open(rep):
            if line.startswith("part "):
                name = line.split()[1]
        part = next((p for p in prop["parts"] if p["name"] == name), prop["parts"][0])
        exe, _, _ = B.build(part.get("config", "asan"), part["src"], part["bin"], **part.get("build", {}))
        cmd = [exe, "--replay", rep] + (["--suite", part["suite"]] if part.get("suite") else [])
        tmp = tempfile.mkdtemp(prefix="umpire-verif-replay-")
        try:
            return subprocess.run(cmd, env=env_for(1), cwd=tmp).returncode
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    tmp = tempfile.mkdtemp(prefix="umpire-verif-%s-" % pid)
    results, violations, notes = [], [], []
    known_hit = []
    try:
        for idx, part in enumerate(prop["parts"]):
            if part.get("only") and part["only"] != tier:
                continue
            exe, built, total = B.build(part.get("config", "asan"), part["src"], part["bin"], **part.get("build", {}))
            # saved reproductions of known findings: reported, never counted as violations
            for k in known_findings(pid):
                if k.get("part") != part["name"]:
                    continue
                rf = os.path.join(tmp, "known.replay")
                with open(rf, "w") as f:
                    f.write("stream %s\ntape %s\n" % (k["stream"], " ".join(str(x) for x in k["tape"])))
                cmd = [exe, "--replay", rf] + (["--suite", part["suite"]] if part.get("suite") else [])
                r = subprocess.run(cmd, env=env_for(0), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   errors="replace", cwd=tmp)
                if r.returncode == 1 and ("FAIL kind=" + k["kind"]) in r.stdout:
                    known_hit.append(k)
            seeds = [seed] if tier == "quick" else [seed, seed + 1000, seed + 2000]
            for s in seeds:
                tb = time.time()
                res = run_part(exe, part, s, tier, tmp, deadline, idx)
                res["part"] = part["name"]
                res["seed"] = s
                res["build_s"] = 0
                results.append((part, res))
                print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d operations, %d/%d edges, %.1fs" % (
                    pid, part["name"], s, res["evaluations"], res["distinct_nontrivial"], res["operations"],
                    res["edges_covered"], res["edges_total"], time.time() - tb), flush=True)
                if res.get("failure"):
                    path = replay_file(pid, part, res["failure"], exe)
                    violations.append((part, res["failure"], path))
                    break
                if time.time() > deadline - 30:
                    break
            if violations:
                break
    except B.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        clean_shm(tmp)

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": prop["level"],
        "coverage": {
            "evaluations": sum(r["evaluations"] for _, r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for _, r in results),
            "rule": " | ".join(sorted({"%s/%s: %s" % (p["name"], n, s["rule"]) for p, r in results
                                       for n, s in r["streams"].items()})),
            "samples": [x for _, r in results for x in r["samples"]][:5],
            "operations": sum(r["operations"] for _, r in results),
            "mutated_from_corpus": sum(r["mutated_from_corpus"] for _, r in results),
            "inconclusive_cases": sum(r["inconclusive"] for _, r in results),
            "unconfirmed_failures": sum(r["unconfirmed"] for _, r in results),
            "edges_covered": max(r["edges_covered"] for _, r in results),
            "edges_total": max(r["edges_total"] for _, r in results),
            "parts": [{"part": r["part"], "seed": r["seed"], "evaluations": r["evaluations"],
                       "distinct_nontrivial": r["distinct_nontrivial"], "streams": r["streams"],
                       "labels": r["labels"], "wall_s": r["wall_s"]} for _, r in results],
        },
        "wall_s": round(time.time() - t0, 1),
        "assumptions": prop.get("assumptions", []),
        "violations": len(violations),
        "violation_details": [{"kind": f["kind"], "message": f["msg"][:2000], "replay": path}
                              for _, f, path in violations],
        "known_findings": [k["what"] for k in known_hit],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for part, f, path in violations:
        print("--- %s: %s" % (f["kind"], f["msg"][:3000]))
        print("--- shrunk history:\n%s" % f["trace"][-3000:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # an error of the check, not a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
