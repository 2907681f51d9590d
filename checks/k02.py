"""Chebyshev.tla defines the polynomials, the moments of a Hermitian integer matrix from its exact levels, the damping
kernels and the sums. MCChebyshev.tla runs the recursion of vectors in exact arithmetic for all small matrices and start
vectors and shows that the moments taken from neighbouring vectors are those of the levels, and the doubling and
composition laws of the polynomials. All those matrices and random larger ones run in the real solver (all of its 800
moments are compared), given moments are summed with all kernels and cutoffs, directly and from a file, and TLC checks
every value and point."""
from vf.core import *
from checks import lanczos_gen as lg
DRIVERS = [Driver("k02", "k02.cpp", lib=lg.CORE + ["Matrix.cpp", "TridiagonalMatrix.cpp", "ProgressIndicator.cpp", "Io/TypeToH5.cpp"], libs=HDF5 + ["-llapack", "-lblas"])]
S = {"e": "S"}


def models(ctx):
    c = """SPECIFICATION Spec
CONSTANTS N = %d MaxD = %d Cx = %s Steps = %d
INVARIANTS Moments Poly Kernels Emit
"""
    r = [dict(module="MCChebyshev", workers=4, cfg=c % (2, 2, "TRUE", 2))]
    if ctx.thorough:
        r.append(dict(module="MCChebyshev", name="three", workers=4, cfg=c % (3, 1, "FALSE", 1)))
    return r


def mu(rng, v, d, x):
    ds = sorted(set(d))
    for _ in range(20):
        a = rng.choice([1, 2, 2, 2, 4])
        b = rng.randint(ds[0] - 2, ds[-1] + 2)
        if all(abs(q - b) <= a and (2 * (q - b)) % a == 0 for q in ds):
            return {"e": "mu", "z": int(any(c for _, c in v + x) or rng.random() < .3), "v": [list(q) for q in v], "d": list(d),
                    "init": [list(q) for q in x], "b": b, "a": a, "times": rng.choice([1, 1, 1, 2])}
    return None


def plot(rng):
    a = rng.choice([1, 1, 2])
    kind = rng.randint(0, 2)
    half = rng.random() < .6
    if kind == 0:
        cut = rng.choice([1, 2, 3, 5] + ([11] if half else []))
    else:
        cut = rng.randint(1, 6)
    n = rng.choice([cut, cut + rng.randint(0, 5)])
    given = cut if n != cut or rng.random() < .5 else rng.choice([0, cut + 3])
    step = 2 * a if half else rng.choice([1, 2, 3]) * a
    b = rng.randint(-6, 6)
    eg = rng.randint(-4, 4)
    x0 = rng.choice([-3, -2, -1, 0]) * (2 * a if half else a) * (1 if half else 2)
    w1 = x0 + b - eg
    w2 = w1 + rng.choice([0, 1, step, -step]) + rng.randint(0, 8) * step
    return {"e": "plot", "mu": [rng.randint(-3, 3) for _ in range(n)], "a": a, "b": b, "Eg": eg, "w1": w1, "w2": w2, "dw": step,
            "kind": kind, "cut": given, "lam": cut, "file": int(rng.random() < .4), "old": rng.choice([0, 0, 0, rng.randint(1, 9)])}


def groups(ctx):
    rng = ctx.rng
    ops = []
    for m in range(0, 14):
        for p in range(-3, 4):
            for q in (1, 2, 4):
                if abs(4 * p) ** m < 2 ** 28 and (4 if q == 4 else 2 * q) ** m < 2 ** 28 and (2 * max(abs(p), q)) ** m < 2 ** 28:
                    for kind in range(3):
                        ops.append({"e": "T", "m": m, "p": p, "q": q, "kind": kind, "scale": q ** m})
                    if m < 9 and abs(p) <= 1 and q <= 2:
                        ops.append({"e": "T", "m": m, "p": p, "q": q, "kind": 3, "scale": q ** m})
    for _ in range(ctx.n(400, 4000)):
        ops.append({"e": "T", "m": rng.choice([rng.randint(0, 40), rng.randint(0, 1000)]), "p": rng.randint(-2, 2), "q": 2, "kind": rng.randint(0, 2), "scale": 2})
    em = []
    for k in ctx.emitted:
        em += ctx.emitted[k]
    rng.shuffle(em)
    k = 0
    for e in em:
        if k >= ctx.n(500, 6000):
            break
        if len(set(e["d"])) > 1 and any(a or b for a, b in e["x"]):
            o = mu(rng, e["v"], e["d"], e["x"])
            if o:
                ops.append(o)
                k += 1
    for _ in range(ctx.n(150, 2000)):
        n = rng.randint(2, 6)
        cx = rng.random() < .4
        ent = [[1, 0], [-1, 0], [0, 0]] + ([[0, 1], [0, -1]] if cx else [])
        v = [rng.choice(ent) for _ in range(n)]
        if not any(a or b for a, b in v):
            v[0] = [1, 0]
        c = rng.randint(-30, 30)
        d = [c + rng.randint(-2, 2) for _ in range(n)]
        if len(set(d)) < 2:
            d[0] = c - 1
            d[1] = c + 1
        x = [[rng.randint(-2, 2), rng.randint(-1, 1) if cx else 0] for _ in range(n)]
        if not any(a or b for a, b in x):
            x[0] = [1, 0]
        s = sum(a * a + b * b for a, b in v)
        if sum(a * a + b * b for a, b in x) ** 2 * s * s > 9000:
            continue
        o = mu(rng, v, d, x)
        if o:
            ops.append(o)
    for _ in range(ctx.n(900, 12000)):
        ops.append(plot(rng))
    rng.shuffle(ops)
    return [dict(driver="k02", trace="TraceK02", sessions=[[S] + ops[i:i + 10] for i in range(0, len(ops), 10)])]
