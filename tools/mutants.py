#!/usr/bin/env python3
"""mutants.py COVERAGE_DIR OUT N SEED [ID...]: measures the checks.  For each property, N random small changes (an
operator, a constant, a deleted statement) of lines its check reaches (see coverage.py) are made in a scratch copy of the
repository, and the check is run on each.  What survives goes to OUT/<ID>.txt, to be looked at: it is a change without effect on
the property, or a gap."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VF_REPO", "/repo")
PAR = int(os.environ.get("MUT_PAR", "2"))
RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+= ", " = "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\(!", "("),
         (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\bi\b", "j"), (r"\bj\b", "i"),
         (r"\bif \((?!.*\{.*\})", "if (!("), (r"rows\(\)", "cols()"), (r"cols\(\)", "rows()"), (r"\.first", ".second"),
         (r"\.second", ".first"), (r"push_back", "clear(); //"), (r"PsimagLite::conj\(|\bconj\(", "("), (r" % ", " / "), (r"\+\+;$", ";")]
DEL = re.compile(r"^\s*(?!return\b|throw\b|typedef|using|const |auto |static |enum|case|default|break|template|delete )[A-Za-z_][\w\.\->\[\]\(\)\*:]*( [\-+*/|&]?= .*|\(.*\)|\+\+|--);\s*$")


def mutants(path, lines, hit, rng, n):
    c = []
    for k in hit:
        t = lines[k - 1]
        if re.match(r"\s*(//|/?\*|#)", t) or "assert(" in t or "std::cerr" in t or "err(" in t:
            continue
        if DEL.match(t) and t.count("(") == t.count(")"):
            c.append((k, re.match(r"\s*", t).group() + ";"))
        for a, b in RULES:
            for m in re.finditer(a, t):
                if t[:m.start()].count('"') % 2 or "//" in t[:m.start()]:
                    continue
                x = t[:m.start()] + b + t[m.end():]
                if b == "if (!(":
                    if not re.search(r"\)\s*\{?$", t) or t.count("(") != t.count(")"):
                        continue
                    x = re.sub(r"\)(\s*\{?)$", r"))\1", x)
                c.append((k, x))
    return [(path, k, x) for k, x in c]


def main():
    cov, out, n, seed = sys.argv[1:5]
    os.makedirs(out, exist_ok=True)
    os.makedirs(out + "/models", exist_ok=True)
    props = [json.loads(x) for x in open(V + "/properties.jsonl")]
    for w in range(PAR):
        d = "%s/w%d" % (out, w)
        subprocess.run(["rm", "-rf", d], check=True)
        os.makedirs(d)
        subprocess.run("git -C %s archive HEAD | tar x -C %s" % (R, d), shell=True, check=True)
    free = list(range(PAR))
    for p in props:
        i = p["id"]
        if sys.argv[5:] and i not in sys.argv[5:]:
            continue
        rng = random.Random(i + seed)
        c = json.load(open("%s/%s.json" % (cov, i)))
        ms = []
        for f in p["anchors"]["files"]:
            if f.endswith((".h", ".cpp")):
                h = [int(k) for k, v in c.get(f, {}).items() if v]
                ms += mutants(f, open(os.path.join(R, f)).read().split("\n"), h, rng, n)
        rng.shuffle(ms)
        # at most one per line
        seen, pick = set(), []
        for m in ms:
            if m[:2] not in seen:
                seen.add(m[:2])
                pick.append(m)
        pick = pick[:int(n)]

        def run(m):
            w = free.pop()
            d = "%s/w%d" % (out, w)
            path = os.path.join(d, m[0])
            old = open(path).read()
            ls = old.split("\n")
            was = ls[m[1] - 1]
            ls[m[1] - 1] = m[2]
            open(path, "w").write("\n".join(ls))
            try:
                q = subprocess.run([sys.executable, "run.py", i], cwd=V, capture_output=True, text=True, timeout=600, errors="replace",
                                   env=dict(os.environ, VF_REPO=d, VF_MODELCACHE=out + "/models", VF_NOEVIDENCE="1"))
                rc, tail = q.returncode, q.stdout[-300:]
            except subprocess.TimeoutExpired:
                rc, tail = -1, "timeout"
            open(path, "w").write(old)
            free.append(w)
            return m, was, rc, tail
        res = {}
        with cf.ThreadPoolExecutor(PAR) as ex, open("%s/%s.txt" % (out, i), "w") as o:
            for m, was, rc, tail in ex.map(run, pick):
                k = {0: "survived", 1: "killed", 2: "no answer"}.get(rc, "timeout")
                if rc == 2 and "does not compile" in tail or rc == 2 and "error:" in tail:
                    k = "does not compile"
                res[k] = res.get(k, 0) + 1
                if k in ("survived", "no answer", "timeout"):
                    o.write("%s %s:%d\n-%s\n+%s\n" % (k, m[0], m[1], was.strip(), m[2].strip()))
                    if k != "survived":
                        o.write("   " + tail[-200:].replace("\n", " ") + "\n")
                    o.flush()
            o.write(json.dumps(res) + "\n")
        print(i, res, flush=True)


main()
