"""Bisect.tla is the halving search on piecewise linear functions in exact binary fractions and Akima's interpolation in
exact rational arithmetic. MCBisect.tla shows, for every small function, interval and order of its ends, that the signs
at the ends stay different, that the search ends, and that it finds a root whenever the steps allowed are enough;
MCAkima.tla that the interpolation goes through its points and reproduces lines and parabolas. All those functions and
point sets and random larger ones run in the real classes and TLC checks what they return or refuse."""
from vf.core import *
DRIVERS = [Driver("k01", "k01.cpp", lib=["Concurrency.cpp", "PsimagLite.cpp", "Mpi.cpp", "MemResolv.cpp", "ProgressIndicator.cpp", "Io/TypeToH5.cpp"], libs=HDF5)]
S = {"e": "S"}


def models(ctx):
    return [dict(module="MCBisect", workers=3, cfg="""SPECIFICATION Spec
CONSTANTS Pts = %d MaxV = 2 MaxN = %d Tol = 64 EmitMod = TRUE
INVARIANTS Signs Halves Inside Promise
PROPERTY Ends
""" % ((4, 6), (5, 8))[ctx.thorough]),
            dict(module="MCAkima", workers=3, cfg="""SPECIFICATION Spec
CONSTANTS MaxPts = %d MaxV = 2 EmitMod = TRUE
INVARIANTS Through Lines Parabolas
""" % (4, 5)[ctx.thorough])]


def root(rng, f, a, b):
    return {"e": "root", "f": list(f), "a": a, "b": b, "n": rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 10, 12]), "tol": rng.choice([0, 1, 2, 8, 64, 100, 256, 1024, 3000])}


def groups(ctx):
    rng = ctx.rng
    ops = []
    em = list(ctx.emitted["MCBisect"])
    rng.shuffle(em)
    for x in em[:ctx.n(1500, 10 ** 6)]:
        ops.append(root(rng, x["f"], x["a"], x["b"]))
    for _ in range(ctx.n(400, 5000)):
        n = rng.randint(2, 10)
        f = [rng.randint(-8, 8) for _ in range(n)]
        if rng.random() < .4:
            f.sort(reverse=rng.random() < .5)
        a, b = rng.sample(range(n), 2)
        ops.append(root(rng, f, a, b))
    ak = list(ctx.emitted["MCAkima"])
    rng.shuffle(ak)
    for x in ak[:ctx.n(700, 20000)]:
        ops.append({"e": "akima", "p": x["x"], "s": x["s"]})
    for _ in range(ctx.n(300, 4000)):
        k = rng.randint(1, 9)
        x = [rng.randint(-5, 5)]
        u = rng.choice([0, 1, 2, 3])
        for _ in range(k - 1):
            x.append(x[-1] + (u or rng.randint(1, 3)))
        s = [rng.randint(-6, 6) for _ in x]
        if rng.random() < .3:
            c = [rng.randint(-1, 1), rng.randint(-2, 2), rng.randint(-3, 3)]
            s = [c[0] * y * y + c[1] * y + c[2] for y in x]
        if max(map(abs, s)) > 60:
            continue
        if rng.random() < .04:
            s = s[:-1]
        ops.append({"e": "akima", "p": x, "s": s})
    for _ in range(ctx.n(30, 300)):
        k = rng.randint(13, 60)
        u = rng.choice([0, 1, 2])
        x = [rng.randint(-40, 5)]
        for _ in range(k - 1):
            x.append(x[-1] + (u or rng.randint(1, 3)))
        ops.append({"e": "akima", "p": x, "s": [rng.randint(-6, 6) for _ in x] if rng.random() < .6 else [max(-60, min(60, 2 * y - 3)) for y in x]})
        f = [rng.randint(-8, 8) for _ in range(k)]
        if rng.random() < .5:
            f.sort(reverse=rng.random() < .5)
        a, b = rng.sample(range(k), 2)
        ops.append(root(rng, f, a, b))
    rng.shuffle(ops)
    return [dict(driver="k01", trace="TraceK01", sessions=[[S] + ops[k:k + 25] for k in range(0, len(ops), 25)])]
