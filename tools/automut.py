#!/usr/bin/env python3
"""Random mutants of the library against the checks: automut.py SEED COUNT [PATH-SUBSTRING...]

Each mutant changes one original line (operator, constant, condition, deleted statement). Those that do not compile or
fail the stable tests are dropped; the others go to the quick checks of the properties anchored in the file until one
reports them. Works in a scratch clone; prints one line per mutant, SURVIVED ones with the diff.
"""
import glob, json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("MUT_DIR", "/tmp/automut")
REPO = os.environ.get("MUT_REPO", "/repo")
BASE = "662b123"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def props_for():
    m = {}
    for l in open(os.path.join(V, "properties.jsonl")):
        d = json.loads(l)
        for f in json.dumps(d).replace('"', " ").replace(",", " ").replace(":", " ").split():
            f = f.rstrip(".;")
            if f.startswith(("src/", "tools/")):
                m.setdefault(f, [])
                if d["id"] not in m[f]:
                    m[f].append(d["id"])
    return m


SWAP = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" + ", " - "),
        (" - ", " + "), ("++", "--"), ("--", "++"), ("+=", "-="), ("-=", "+="), ("true", "false"), ("false", "true"),
        (" + 1", ""), (" - 1", ""), ("{0}", "{1}"), ("nullptr)", "nullptr + 0)"), ("std::max", "std::min"), ("std::min", "std::max"),
        (".first", ".second"), ("rbegin", "begin"), ("lower_bound", "upper_bound"), (" * ", " + "), ("& ", "| ")]
SKIP = re.compile(r"UMPIRE_LOG|UMPIRE_ERROR|UMPIRE_ASSERT|fmt::format|^\s*//|^\s*#|^\s*\*|include|namespace|template|static_assert|^\s*[{}]+;?\s*$|<<|noexcept|^\s*:|override|std::string& name|^\s*catch")
DEAD = re.compile(r"#\s*if.*(CUDA|HIP|SYCL|OPENMP|UMAP|MPI|DEVICE|WIN|_MSC|MACH|DEBUG|VALGRIND|CONST)")


def live_lines(text):
    out, depth, dead = set(), 0, 0
    for n, l in enumerate(text.splitlines()):
        s = l.strip()
        if s.startswith("#if"):
            depth += 1
            if not dead and DEAD.search(s) and "!defined" not in s:
                dead = depth
        elif s.startswith("#e") and not s.startswith("#endif"):
            if dead == depth:
                dead = 0
        elif s.startswith("#endif"):
            if dead == depth:
                dead = 0
            depth -= 1
        elif not dead:
            out.add(n)
    return out


def mutants(path, text, orig):
    lines = text.splitlines()
    live = live_lines(text)
    res = []
    for n in sorted(live):
        l = lines[n]
        if SKIP.search(l) or not l.strip() or l not in orig:
            continue
        for a, b in SWAP:
            for m in re.finditer(re.escape(a), l):
                if a in ("==", "!=", "<=", ">=") or a[0] == " " or a not in ("&&",) or True:
                    k = m.start()
                    if "//" in l[:k] or "/*" in l[:k]:
                        continue
                    if a in ("<=", ">=") and l[k - 1:k] in "<>":
                        continue
                    if a == "--" or a == "++" or True:
                        res.append((n, l[:k] + b + l[m.end():]))
        m = re.match(r"^(\s*)(if|while) \((.*)\)( \{)?$", l)
        if m:
            res.append((n, "%s%s (!(%s))%s" % (m.group(1), m.group(2), m.group(3), m.group(4) or "")))
            if m.group(2) == "if":
                res.append((n, "%sif ((%s) && false)%s" % (m.group(1), m.group(3), m.group(4) or "")))
        if re.match(r"^\s+[A-Za-z_*(][^=(]*(=|\(|\+\+|--|\+=|-=).*;$", l) and not re.match(r"^\s*(return|const|auto|throw|std::size_t|void|int|char|for|bool|unsigned|using|friend|static|struct|else)\b", l):
            res.append((n, re.match(r"^\s*", l).group(0) + ";"))
        m = re.match(r"^(\s+)return (.*);$", l)
        if m and re.match(r"^[a-z_A-Z0-9.>()-]+$", m.group(2)) and "true" not in l and "false" not in l and "nullptr" not in l:
            pass
    return [(n, x) for n, x in res if x != lines[n]]


def main():
    rnd = random.Random(int(sys.argv[1]))
    count = int(sys.argv[2])
    pats = sys.argv[3:]
    if not os.path.isdir(SC):
        sh("git clone -q %s %s" % (REPO, SC))
    sh("git -C %s fetch -q %s HEAD && git -C %s checkout -q -f FETCH_HEAD" % (SC, REPO, SC))
    pf = props_for()
    used = set()  # every file the harnesses compile, as the compiler's dependency files say
    for d in glob.glob(os.path.join(V, ".cache", "obj", "*", "*.json")):
        used.update(re.findall(r'/(src/(?:umpire|tpl/umpire)/[^"]+|tools/[^"]+)"', open(d, errors="replace").read()))
    for f in used:
        if os.path.isfile(os.path.join(SC, f)):
            pf.setdefault(f, [])
    cand = []
    for f in sorted(pf):
        p = os.path.join(SC, f)
        if not os.path.isfile(p) or (pats and not any(x in f for x in pats)):
            continue
        orig = set(sh("git -C %s show %s:%s" % (SC, BASE, f)).stdout.splitlines())
        text = open(p).read()
        ms = mutants(f, text, orig)
        for n, x in ms:
            cand.append((f, n, x))
    by = {}
    for c in cand:
        by.setdefault(c[0], []).append(c)
    print("%d mutants in %d files" % (len(cand), len(by)), flush=True)
    done = set()
    b0 = "cmake -S /opt/vp/umpire -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DUMPIRE_ROOT=%s > /dev/null && ninja -C _build" % SC
    k = 0
    while k < count and len(done) < len(cand):
        f = rnd.choice(sorted(by)) if rnd.random() < 0.5 else rnd.choice(cand)[0]
        m = rnd.choice(by[f])
        if m in done:
            continue
        done.add(m)
        f, n, new = m
        p = os.path.join(SC, f)
        sh("git -C %s checkout -q -f ." % SC)
        lines = open(p).read().splitlines(True)
        old = lines[n].rstrip("\n")
        lines[n] = new + "\n"
        open(p, "w").write("".join(lines))
        tag = "%s:%d" % (f, n + 1)
        tested = f.startswith(("src/umpire/util/", "src/tpl/", "src/umpire/event/"))  # all the stable tests compile
        if tested:
            r = sh("timeout 300 sh -c '%s'" % b0, cwd=SC)
            if r.returncode:
                continue
        bad = False
        for t in sorted(os.listdir(SC + "/_build")) if tested else []:
            q = os.path.join(SC, "_build", t)
            if os.path.isfile(q) and os.access(q, os.X_OK) and "test" in t and not t.endswith((".so", ".a", ".ninja")):
                if sh("timeout 20 " + q, cwd=SC + "/_build").returncode:
                    bad = True
                    break
        if bad:
            continue
        k += 1
        hit = ""
        t0 = time.time()
        tried = []
        rest = [] if pf[f] or f.startswith("tools/") else ["C%02d" % i for i in range(1, 35)]
        for c in pf[f] + rest + (["C20"] if f.startswith("tools/") and not pf[f] else []):
            tried.append(c)
            r = sh("VERIF_REPO=%s VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 run.py %s" % (SC, c), cwd=V)
            if r.returncode == 1:
                line = [x for x in r.stdout.splitlines() if x.startswith("--- ")]
                hit = c + " " + (line[0][:110] if line else "?")
                break
            if r.returncode:
                tried[-1] += "(rc%d)" % r.returncode
                if len(tried) == 1:
                    bad = True  # most likely it does not compile
                    break
        if bad:
            k -= 1
            continue
        print("%-9s %-50s %4ds %s" % ("caught" if hit else "SURVIVED", tag, time.time() - t0, hit or " ".join(tried)), flush=True)
        print("    - %s\n    + %s" % (old.strip(), new.strip()), flush=True)


main()
