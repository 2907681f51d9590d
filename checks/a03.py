"""Ainur.tla specifies the expansion of references in an input program as recursion over its text, and the
native functions that look values up in a file; MCAinur.tla shows for all programs of a few statements that
the expansion succeeds exactly when no name refers to itself, directly or through others, and every name is
declared, and that no reference remains.  Those programs, random chains, cycles and diamonds of references
at every place of a value, and functions over generated files run in the real interpreter; TLC checks
acceptance, every expanded text, and every value of a function."""
from vf.core import *
from checks import ainur_gen as ag
DRIVERS = [ag.DRV]


def models(ctx):
    return [dict(module="MCAinur", cfg=ag.EMITCFG % ((2, 3)[ctx.thorough], 0, "Accepted LastWins NothingLeft"), workers=6)]


def groups(ctx):
    rng = ctx.rng
    ss = []
    tx = lambda c: "".join(map(chr, c))
    em = [x["p"] for x in ctx.emitted["MCAinur"] if "p" in x]
    em = [p for p in em if any(92 in s.get("v", []) for s in p)]
    rng.shuffle(em)
    cur = [{"e": "S"}]
    for p in em[:ctx.n(700, 8000)]:
        st = [tuple([s["k"]] + [tx(s[q]) for q in ("ty", "name", "v") if q in s]) for s in p]
        cur.append(ag.prog(rng, st))
        ok, names = plausible(st)
        if ok:
            cur += [ag.rd(n, "s", "s") for n in names] + [{"e": "map"}]
        if len(cur) > 40:
            ss.append(cur)
            cur = [{"e": "S"}]
    ss.append(cur)
    for _ in range(ctx.n(250, 3000)):
        n = rng.randint(2, 9)
        names = rng.sample(["m", "mm", "x", "y", "a_b", "_n", "abc", "A1", "Q9_", "k", "kk", "T", "u", "zeta"], n)
        order = list(names)
        rng.shuffle(order)
        st, later = [], []
        acyclic = rng.random() < .75
        for i, nm in enumerate(order):
            pool = order[:i] if acyclic else order
            v = ""
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                v += rng.choice(["", "", "a", "1", " ", ",", "x=", ".", "-", "(", "z ", "\n"])
                if pool and rng.random() < .7:
                    v += "\\" + rng.choice(pool)
                    if rng.random() < .6:
                        v += rng.choice([",", " ", ".", "-", ")", "]", "%t"])
            if rng.random() < .05:
                v += "\\" + rng.choice(["nosuch", "", "-"])
            v = v.strip() or "5"
            if rng.random() < .3:
                v = '"' + v + '"'
            ty = rng.choice(["string", "real", "string!", "macro", "int!"])
            if rng.random() < .6:
                st.append(("init", ty, nm, v))
            else:
                st.append(("decl", ty, nm))
                later.append(("set", nm, v))
        rng.shuffle(st)
        st += later
        s = [{"e": "S"}, ag.prog(rng, st)]
        ok, _ = plausible(st)
        if ok:
            s += [ag.rd(x, "s", "s") for x in names] + [{"e": "map"}, {"e": "unused"}]
        ss.append(s)
    # long chains, and many references to one name
    for _ in range(ctx.n(8, 60)):
        n = rng.randint(13, 26)
        names = ["q" + "abcdefghijklmnopqrstuvwxyz"[i] for i in range(n)]
        st = []
        for i, nm in enumerate(names):
            v = rng.choice(["", "a", "1."]) if i else "z"
            if i:
                v += "\\" + (names[i - 1] if rng.random() < .8 else rng.choice(names[:i])) + rng.choice(["", "", "", ",", " b"])
            st.append(("init", rng.choice(["string", "real", "macro"]), nm, v))
        st.append(("init", "string", "all", "".join("\\" + rng.choice(names[:4]) + rng.choice([",", "-", " "]) for _ in range(rng.randint(13, 20))) + "e"))
        rng.shuffle(st)
        ss.append([{"e": "S"}, ag.prog(rng, st)] + [ag.rd(x, "s", "s") for x in names[:3] + names[-2:] + ["all"]] + [{"e": "map"}, {"e": "unused"}])
    # vectors and matrices of references
    for _ in range(ctx.n(40, 400)):
        nums = [("init", "real", "c" + "abcdef"[i], ag.ftext(rng)) for i in range(rng.randint(1, 5))]
        ref = lambda: "\\" + rng.choice(nums)[2] if rng.random() < .7 else ag.ftext(rng)
        st = nums + [("init", "vector", "V", "[" + ",".join(ref() for _ in range(rng.randint(1, 5))) + "]"),
                     ("init", "matrix", "M", "[[%s, %s],[%s,\n%s]]" % (ref(), ref(), ref(), ref())), ("init", "real", "r", ref()),
                     ("init", "vector", "W", "[%s i %s, %s i%s]" % (ref(), ref(), ref(), ref())), ("init", "vector", "E", "[%s,...x%d]" % (ref(), rng.randint(1, 5)))]
        rng.shuffle(st)
        ss.append([{"e": "S"}, ag.prog(rng, st), ag.rd("V", "v", "d"), ag.rd("M", "m", "d"), ag.rd("r", "s", "d"), ag.rd("W", "v", "z"), ag.rd("E", "v", "d", rng.randint(0, 3)),
                   ag.rd("V", "s", "s")])
    # functions
    for _ in range(ctx.n(80, 900)):
        s = [{"e": "S"}]
        cols = rng.randint(1, 4)
        comma = rng.random() < .4
        nrow = rng.randint(0, 6)
        q = lambda: rng.choice(["%d" % rng.randint(-20, 20), "%d.%d" % (rng.randint(0, 9), rng.randint(0, 999)), "-0.5", ".25", "1e1"])
        rows = [[q() for _ in range(cols)] for _ in range(nrow)]
        fine = rng.random() < .3     # numbers of many digits, very small or large: compared as text
        if fine:
            for r in rows:
                r[rng.randrange(cols)] = rng.choice(["0.000001", "1e-7", "-2.5e-9", "3.14159265358979", "123456789.125", "0.0001234567", "1e15", "2.5E20", "99999999999999", "-0.0", "100", "1200.50", "00.70",
                                                     "%d.%09d" % (rng.randint(0, 99999), rng.randint(0, 10 ** 9 - 1)), "%de%d" % (rng.randint(1, 99999), rng.randint(-20, 20))])
        if rng.random() < .15 and rows:
            rng.choice(rows).pop()
        if rng.random() < .05 and rows:
            rng.choice(rows)[:1] = ["word"]
        lines = []
        for r in rows:
            lines.append(("," if comma else rng.choice([" ", "  "])).join(r))
            if rng.random() < .15:
                lines.append(rng.choice(["", "  ", "\t", " \t "]))
        pad = rng.randint(2000, 5000) if rng.random() < .1 and not comma else 0
        s.append({"e": "file", "name": "f.txt", "lines": lines, "pad": pad})
        cx, cy = rng.randint(0, max(0, cols - 1)), rng.randint(0, max(0, cols - 1))
        if rng.random() < .1:
            cy = cols
        args = '"f.txt"'
        if comma or rng.random() < .5:
            args += ",comma" if comma else ",space"
            if rng.random() < .8:
                args += ",%d" % cx
                if rng.random() < .8:
                    args += ",%d" % cy
        if rng.random() < .05:
            args = rng.choice(['"g.txt"', '"f.txt",tab', '"f.txt",space,0,1,2', '"f.txt",space,x', ""])
        xs = [(r[min(cx, len(r) - 1)] if r else "1") for r in rows] + [q(), "7"]
        st = [("init", "function", "fun", "\\AinurFromFile(%s)" % args)]
        if args == "":
            st = [("init", "function", "fun", "\\AinurFromFile")]
        k = 0
        for x in rng.sample(xs, min(3, len(xs))):
            st.append(("init", "real", "r%d" % k, "\\fun(%s)" % x))
            k += 1
        st.append(("init", "string", "t", "\\fun(%t)"))
        listed = "," not in args
        if listed:       # functions inside vectors and matrices
            f = lambda: "\\fun(%s)" % rng.choice(xs) if rng.random() < .6 else q()
            c = rng.randint(1, 3)
            st += [("init", "vector", "V", "[" + ", ".join(f() for _ in range(rng.randint(1, 4))) + "]"),
                   ("init", "matrix", "M", "[" + ",".join("[" + ", ".join(f() for _ in range(c)) + "]" for _ in range(rng.randint(1, 3))) + "]")]
        if rng.random() < .5:
            st.append(("init", "real", "indirect", "\\r0"))
        rng.shuffle(st)
        s.append(ag.prog(rng, st))
        colx = 0 if args.count(",") < 2 else cx
        coly = 1 if args.count(",") < 3 else cy
        isnum = lambda w: w != "word"
        good = args.startswith('"f.txt"') and "tab" not in args and args.count(",") < 4 and "x" not in args[7:] \
            and all(len(r) > max(colx, coly) and isnum(r[colx]) and isnum(r[coly]) for r in rows)
        if good:
            s += [ag.rd("r%d" % i, "s", "s" if fine else rng.choice("ddsi" if rng.random() < .2 else "dds")) for i in range(k)] + [ag.rd("t", "s", "s")]
            if any(x[2] == "indirect" for x in st):
                s.append(ag.rd("indirect", "s", "s" if fine else "d"))
            if listed:
                s += [ag.rd("V", "v", "s" if fine else rng.choice("ddz"), rng.randint(0, 2)), ag.rd("M", "m", "s" if fine else rng.choice("ddz"))]
            for x in rng.sample(xs, min(2, len(xs))):
                s.append({"e": "resolve", "t": "(%s)(%s)" % (args, x)})
            s += [{"e": "resolve", "t": "plain"}, {"e": "resolve", "t": '("other.txt")(3)'}]
        ss.append(s)
    return [dict(driver="ainur", trace="TraceAinur", sessions=ss)]


def plausible(st):
    """whether the program looks acceptable (so that reads after it make sense), and its names"""
    import re
    v = {}
    for s in st:
        if s[0] == "set":
            if s[1] not in v:
                return False, []
            v[s[1]] = s[2]
        else:
            if s[2] in v:
                return False, []
            v[s[2]] = s[3] if s[0] == "init" else ""
    refs = {k: re.findall(r"\\([A-Za-z0-9_]*)", t) for k, t in v.items()}
    state = {}

    def visit(k):
        if k not in refs or state.get(k) == 1:
            return False
        if state.get(k) == 2:
            return True
        state[k] = 1
        r = all([visit(q) for q in refs[k]])
        state[k] = 2
        return r
    return all(visit(k) for k in sorted(v)), sorted(v)
