"""Strings.tla specifies splitting, replacing, file names, number recognition and conversion, and option lists;
MCStrings.tla scans from position to position as the code does, and TLC shows for all short texts and patterns
that it delivers exactly that and loses nothing.  All those inputs and random ones go through the real functions
and the option classes in every mode, and TLC judges each answer."""
from vf.core import *
import re
DRIVERS = [Driver("strings", "strings.cpp")]


def models(ctx):
    return [dict(module="MCStrings", cfg="SPECIFICATION Spec\nCONSTANTS MaxText = %d\nINVARIANTS Agree NothingLost Emit\n" % (6, 8)[ctx.thorough], workers=6)]


OPT = ["none", "twositedmrg", "a", "ab", "b", "A", "x=1", "a b", "useComplex"]


def number(rng):
    s = rng.choice(["%d", "+%d", "-%d", "%d.", ".%d", "%d.5", "-%d.25", "%de1", "%de-1", "%d.5e2", "-.5e%d"]) % rng.choice([0, 1, 7, 12, 345])
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        q = rng.randint(0, len(s))
        s = s[:q] + rng.choice(["", "+", "-", ".", "e", "E", "1", "x", " ", "0"]) + s[q + rng.randint(0, 1):]
    return s


def tame(s):
    m = re.fullmatch(r"[+-]?(\d*)\.?(\d*)([eE]([+-]?\d+))?", s)
    if not m:
        return not re.search(r"\d{9}", s)
    e = int(m.group(4) or 0)
    return len(m.group(1)) + max(e, 0) <= 5 and len(m.group(2)) - e <= 3 and abs(e) < 5


def groups(ctx):
    rng = ctx.rng
    ops = []
    em = ctx.emitted["MCStrings"]
    rng.shuffle(em)
    def T(x):
        return "".join(map(chr, x))
    for x in em[:ctx.n(7000, 10 ** 9)]:
        if x["m"] == "split":
            ops.append({"e": "split", "s": T(x["s"]), "ds": T(x["a"]), "had": rng.choice([[], [], ["z"], ["", "q"]])})
        else:
            ops.append({"e": "replace", "s": T(x["s"]), "from": T(x["a"]), "to": T(x["b"])})
    for _ in range(ctx.n(5000, 80000)):
        k = rng.randrange(8)
        if k == 0:
            ops.append({"e": "split", "s": "".join(rng.choice("ab, ;\n.:") for _ in range(rng.randint(0, 30) if rng.random() < .95 else rng.choice([100, 257, 400]))), "ds": rng.choice([" ", ",", ", ", ";:", "\n ", ",,", "b"]), "had": []})
        elif k == 1:
            al = rng.choice(["ab", "aab", "abc.", "@x"])
            long = rng.random() < .05
            w = lambda n: "".join(rng.choice(al) for _ in range(rng.randint(0, n) if not long or n < 25 else rng.choice([100, 130, 260])))
            ops.append({"e": "replace", "s": w(25), "from": w(4), "to": w(5)})
            l = "".join(rng.choice(al) for _ in range(rng.randint(1, 3)))
            isint = rng.random() < .4
            v = str(rng.randint(0, 120)) if isint else "".join(rng.choice(al) for _ in range(rng.randint(0, len(l) - 1))) if rng.random() < .6 else rng.choice(["Z", "", "ZZZZ"])
            ops.append({"e": "subst", "s": w(25), "label": l, "to": v, "number": isint})
        elif k == 2:
            ops.append({"e": "base", "s": "".join(rng.choice(["a", "/", ".", "dir", "x.txt", "//", "~"]) for _ in range(rng.randint(0, 7) if rng.random() < .95 else rng.choice([30, 70])))})
        elif k in (3, 4, 5):
            s = number(rng)
            ops.append({"e": "isnum", "s": s})
            if tame(s):
                ops.append({"e": "atof", "s": s})
                ops.append({"e": "atoi", "s": s})
        elif k == 6:
            ops.append({"e": "bits", "n": rng.choice([rng.randint(0, 20), rng.randint(0, 2 ** 31 - 2), 2 ** rng.randint(0, 30), 2 ** rng.randint(1, 30) - 1])})
        else:
            ops.append({"e": "div", "a": rng.randint(0, 60), "b": rng.randint(0, 12)})
    ss = [[{"e": "S"}] + ops[q:q + 25] for q in range(0, len(ops), 25)]
    for _ in range(ctx.n(700, 8000)):
        given = rng.choice([",", ",", ",,"]).join(rng.choice(OPT) for _ in range(rng.randint(0, 4) if rng.random() < .94 else rng.choice([9, 14, 17, 33]))) + rng.choice(["", "", ","])
        s = [{"e": "S"}]
        for _ in range(rng.randint(1, 2)):
            s.append({"e": "opts", "mode": rng.choice([0, 1, 2, 2]), "known": rng.sample(OPT, rng.randint(0, len(OPT))) if rng.random() < .6 else OPT, "given": given})
            s += [{"e": "isset", "o": rng.choice(OPT + ["", "ne", "aa", given])} for _ in range(rng.randint(2, 7))]
        ss.append(s)
    return [dict(driver="strings", trace="TraceStrings", sessions=ss)]
