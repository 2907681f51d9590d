"""Labels.tla specifies operator labels, site brackets and bra or ket specifications; MCLabels.tla scans each
character once and TLC shows for all short texts that the scanners accept and deliver exactly that.  All those
texts, longer random ones and damaged ones go through the real parsers, and TLC judges refusal and every part."""
from vf.core import *
DRIVERS = [Driver("labels", "labels.cpp", flags=["-include", "PsimagLite.h"])]


def models(ctx):
    return [dict(module="MCLabels", cfg="SPECIFICATION Spec\nCONSTANTS MaxText = %d\nINVARIANTS OpAgree SiteAgree VecAgree Emit\n" % (5, 6)[ctx.thorough], workers=6)]


def n(rng):
    return rng.choice(["", "0", "7", "12", "007", "3456", str(rng.randint(0, 99999999))])


def make(rng):
    k = rng.randrange(4)
    name = rng.choice(["c", "sz", "n", "splus", "A_b", "", "c'", "d?", "o p", "identity"]) if rng.random() < .95 else "".join(rng.choice("abcxyz_N+") for _ in range(rng.choice([15, 16, 17, 31, 40, 64, 100])))
    if k == 0:
        s = name + rng.choice(["", "?" + n(rng), "?" + n(rng)]) + rng.choice(["", "'", "'", "''"])
    elif k == 1:
        s = name + rng.choice(["", "?1", "'"]) + rng.choice(["", "[" + n(rng) + "]", "[" + n(rng) + "]", "(" + n(rng) + ")"]) + rng.choice(["", "'", "x", "[2]"])
    elif k == 2:
        s = n(rng)
    else:
        b = rng.choice(["gs", "time", "P" + n(rng), "Q" + n(rng), "R" + n(rng), "X" + n(rng), "P" + n(rng) + "X" + n(rng), "Q" + n(rng) + "X" + n(rng), "R1X2", "g", "Z3", ""])
        s = rng.choice(["%s", "|%s>", "<%s|", "|%s>", "<%s|", "|%s", "%s>", "<%s>", "|%s|", "|<%s|>", "<|%s>|"]) % b
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        q = rng.randint(0, len(s))
        s = s[:q] + rng.choice(["", "", "?", "'", "[", "]", "1", "P", "X", "|", ">", "<", " ", "-", "(", "gs"]) + s[q + rng.randint(0, 1):]
    return k, s


def groups(ctx):
    rng = ctx.rng
    ops = []

    def put(k, s):
        import re
        if re.search(r"\d{9}", s):
            return
        if k == 0:
            ops.append({"e": "op", "s": s})
        elif k == 1:
            b, c = rng.choice(["[]", "[]", "()", "<>"])
            ops.append({"e": "site", "s": s, "b": ord(b), "c": ord(c)})
        elif k == 2:
            ops.append({"e": "num", "s": s})
        else:
            ops.append({"e": "vec", "s": s})
    em = ctx.emitted["MCLabels"]
    rng.shuffle(em)
    for x in em[:ctx.n(9000, 10 ** 9)]:
        t = "".join(map(chr, x["t"]))
        k = {"op": 0, "site": 1, "vec": 3}[x["m"]]
        if k == 1:
            ops.append({"e": "site", "s": t, "b": 91, "c": 93})
        else:
            put(k, t)
            if k == 3 and rng.random() < .3:
                put(k, rng.choice(["|%s>", "<%s|"]) % t)
    for _ in range(ctx.n(6000, 100000)):
        k, s = make(rng)
        put(k if rng.random() < .8 else rng.randrange(4), s)
    return [dict(driver="labels", trace="TraceLabels", sessions=[[{"e": "S"}] + ops[q:q + 20] for q in range(0, len(ops), 20)])]
