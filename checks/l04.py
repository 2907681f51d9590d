"""Params.tla says which of an input's labels sets a solver's parameter: its own number's, else that of the next lower number that
has one, else the one without a number, else the default. MCParams.tla runs the search label by label over all files of one setting
up to a bound and shows that it ends, finds that value, that solvers between two settings do as the lower and that later ones do not
matter. Those files and random ones with every parameter, many numbers and several prefixes, as label=value texts and as input programs
(with declared names that have no value), are read by the real InputNg and TLC checks every parameter of every solver."""
from vf.core import *
DRIVERS = [Driver("params", "params.cpp", lib=["Ainur/AinurSpirit.cpp", "Ainur/AinurConvert.cpp", "Io/TypeToH5.cpp"], libs=HDF5, opt="-O0")]
INTS = ["Steps", "MinSteps", "StepsForEnergyConvergence", "EigsForStop", "NoSaveLanczosVectors"]
REALS = ["OneOverA", "B", "Energy"]
NAMES = INTS + REALS + ["Eps", "Options"]
TYPES = dict([(n, "integer") for n in INTS] + [(n, "real") for n in REALS + ["Eps"]] + [("Options", "string")])


def models(ctx):
    return [dict(module="MCParams", workers=4, cfg="""SPECIFICATION Spec
CONSTANTS MaxNum = %d
INVARIANTS Right Inherits Later
PROPERTY Ends
""" % (5, 8)[ctx.thorough])]


def value(rng, n):
    """(text, value as it is recorded)"""
    if n == "NoSaveLanczosVectors":
        v = rng.choice([0, 1, 1, 2, 7])
        return str(v), v
    if n in INTS:
        v = rng.choice([0, 1, 2, 3, 10, 199, 201, rng.randint(0, 2000000)])
        return str(v), v
    if n == "Eps":
        v = rng.randint(1, 999)
        return rng.choice(["%de-12", "%dE-12", "%d.0e-12"]) % v, v
    if n == "Options":
        t = rng.choice(["none", "reortho", "lanczosdebug", "a,b", "x1", "Fast_2"])
        return t, t
    v = rng.choice([0, 1000, -2500, rng.randint(-99999, 99999)])
    return ("%d.%03d" % (abs(v) // 1000, abs(v) % 1000) if v >= 0 else "-%d.%03d" % (-v // 1000, -v % 1000)), v


def file(rng, slots, ainur, how):
    """slots: (prefix, number, name)"""
    ent, t = [], []
    for p, i, n in slots:
        lab = p + ("" if i < 0 else str(i)) + n
        tx, v = value(rng, n)
        if ainur:
            q = '"%s"' % tx if n == "Options" else tx
            w = rng.random()
            if w < .15:
                t.append("%s %s;" % (TYPES[n], lab))
                v = None
            elif w < .3:
                t.append("%s %s;\n%s=%s;" % (TYPES[n], lab, lab, q))
            else:
                t.append("%s %s = %s;" % (TYPES[n], lab, q))
        else:
            t.append(lab + "=" + tx)
        ent.append([p, i, Tag(n), v if v is not None else 0, 0 if v is None else 1])
    rng.shuffle(t)
    if not t:
        t = ["integer zero=0;" if ainur else "Zero=0"]
    return {"e": "file", "text": ("##Ainur1.0\n" if ainur else "") + "\n".join(t) + "\n", "how": how, "_ent": ent}


def get(rng, p, ind):
    return {"e": "get", "prefix": p, "ind": ind, "how": int(ind < 0 and rng.random() < .5)}


def layout(rng):
    ainur = int(rng.random() < .5)
    return ainur, rng.choice([0, 1, 2]) if ainur else rng.choice([0, 2])


def groups(ctx):
    rng = ctx.rng
    em = ctx.emitted["MCParams"]
    rng.shuffle(em)
    ss = []
    for x in em[:ctx.n(250, 4000)]:
        n = rng.choice(NAMES)
        a, h = layout(rng)
        ss.append([{"e": "S"}, file(rng, [("Lanczos", i, n) for i in x["file"]], a, h), get(rng, "Lanczos", x["ind"])] + [get(rng, "Lanczos", rng.randint(-1, 6)) for _ in range(2)])
    for _ in range(ctx.n(120, 2500)):
        pre = rng.choice([["Lanczos"], ["Lanczos", "Tridiag"], ["L", "L2", "L1"], ["CF_x", "Q"]])
        top = rng.choice([1, 3, 9, 12, 25])
        slots = set()
        for n in NAMES:
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                slots.add((rng.choice(pre), rng.choice([-1, 0, rng.randint(0, top), rng.randint(0, top)]), n))
        lab, sl = set(), []
        for p, i, n in sorted(slots):
            l = p + ("" if i < 0 else str(i)) + n
            if l not in lab and not (p in ("L2", "L1") and len(pre) == 3 and False):
                lab.add(l)
                sl.append((p, i, n))
        # the same label with another prefix and number
        if pre[0] == "L":
            sl = [(p, i, n) for p, i, n in sl if p == "L"]
            pre = ["L"]
        a, h = layout(rng)
        s = [{"e": "S"}, file(rng, sl, a, h)]
        for _ in range(rng.randint(3, 10)):
            s.append(get(rng, rng.choice(pre + ["other"]) if rng.random() < .9 else pre[0][:-1], rng.choice([-1, 0, 1, rng.randint(0, top + 3), 300])))
        s.append({"e": "none"})
        ss.append(s)
    return [dict(driver="params", trace="TraceParams", sessions=ss)]
