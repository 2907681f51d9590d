"""Spectral.tla defines determinant, adjugate, functions of Hermitian integer matrices with known spectrum, and the
equations that eigenvectors, inverses, singular value decompositions and spectra of general matrices fulfil, in exact
(Gaussian) integers; MCSpectral.tla shows for all small matrices that these definitions agree with each other.  All
those matrices and random larger ones go through the real wrappers in single and double, real and complex precision,
and TLC checks every result against the equations; shapes and arguments they cannot handle must be refused."""
from vf.core import *
from checks import lanczos_gen as lg
DRIVERS = [Driver("l02", "l02.cpp", lib=["Concurrency.cpp", "PsimagLite.cpp", "Mpi.cpp", "Matrix.cpp", "TridiagonalMatrix.cpp", "Io/TypeToH5.cpp", "MemResolv.cpp"], libs=HDF5 + ["-llapack", "-lblas"])]
S = {"e": "S"}


def models(ctx):
    c = """SPECIFICATION Spec
CONSTANTS MaxR = %d MaxC = %d Cx = %s EmitMod = TRUE
INVARIANTS AdjIsInverse Singular DetOfAdjoint Functions
"""
    return [dict(name="real", module="MCSpectral", workers=3, cfg=c % (2, (2, 3)[ctx.thorough], "FALSE")),
            dict(name="complex", module="MCSpectral", workers=3, cfg=c % (2, 2, "TRUE"))]


def arg(m):
    return {"rows": len(m), "cols": len(m[0]) if m else 0, "a": [list(e) for row in m for e in row]}


def small(x):
    return [[tuple(e) for e in row] for row in x["a"]]


def rand(rng, r, c, cx, hi=3):
    z = rng.choice([0, 0, .3, .6])
    e = lambda: (0, 0) if rng.random() < z else (rng.randint(-hi, hi), rng.randint(-hi, hi) if cx else 0)
    return [[e() for _ in range(c)] for _ in range(r)]


def is_cx(m):
    return any(e[1] for row in m for e in row)


def typ(rng, cx):
    return rng.choice([2, 2, 3] if cx else [0, 0, 1, 2, 3])


def svd(rng, m):
    name = rng.choice(["gesdd", "gesdd", "gesvd"])
    job = rng.choice("AS")
    if rng.random() < .03:
        name, job = rng.choice([("other", "A"), ("gesdd", "N"), ("gesdd", "O"), ("gesvd", "a")])
    return {"e": "svd", "t": typ(rng, is_cx(m)), "name": Tag(name), "job": Tag(job), **arg(m)}


def inv(rng, m):
    return {"e": "inv", "t": typ(rng, is_cx(m)), **arg(m)}


def unimodular(rng, n, cx):
    """a matrix and its inverse: steps of elimination undone in the opposite order"""
    one = lambda: [[(int(i == j), 0) for j in range(n)] for i in range(n)]
    mul = lambda x, y: (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    a, b = one(), one()
    for _ in range(3 * n):
        i, j = rng.sample(range(n), 2)
        if rng.random() < .2:
            a[i], a[j] = a[j], a[i]
            for r in b:
                r[i], r[j] = r[j], r[i]
            continue
        z = (rng.choice([1, -1]), 0) if not cx or rng.random() < .5 else rng.choice([(0, 1), (0, -1), (1, 1)])
        na = [(x[0] + q[0], x[1] + q[1]) for x, q in zip(a[i], [mul(z, y) for y in a[j]])]
        nb = [(r[j][0] - mul(z, r[i])[0], r[j][1] - mul(z, r[i])[1]) for r in b]
        if max(abs(c) for e in na + nb for c in e) <= 12:
            a[i] = na
            for r, e in zip(b, nb):
                r[j] = e
    return a, b


def hermitian(rng, top=9):
    while True:
        n, cx, v, d = lg.random_system(rng)
        if (n <= 9 if top == 9 else 9 < n <= top) and max(map(abs, d)) <= 12:
            break
    t = typ(rng, cx)
    if rng.random() < .7:
        return {"e": "diag", "t": t, "v": v, "d": d, "opt": Tag(rng.choice("VVN"))}
    if t < 2:
        d = [rng.randint(-3, 4) for _ in d]
    return {"e": "exp", "t": t, "v": v, "d": d}


def bad(rng):
    w = rng.choice(["diag", "diagN", "exp", "inv"])
    r, c = rng.randint(0, 4), rng.randint(0, 4)
    if r == c:
        c += 1
    return {"e": "bad", "t": rng.randrange(4), "what": Tag(w), "r": r, "c": c}


def unitriangular(rng, n, cx):
    """a product of two, of determinant 1"""
    low = [[(1, 0) if i == j else (rng.randint(-1, 1), 0) if i > j else (0, 0) for j in range(n)] for i in range(n)]
    up = [[(1, 0) if i == j else (rng.randint(-1, 1), rng.randint(-1, 1) if cx else 0) if i < j else (0, 0) for j in range(n)] for i in range(n)]
    return [[(sum(low[i][k][0] * up[k][j][0] for k in range(n)), sum(low[i][k][0] * up[k][j][1] for k in range(n))) for j in range(n)] for i in range(n)]


def groups(ctx):
    rng = ctx.rng
    em = [small(x) for x in ctx.emitted["real"] + ctx.emitted["complex"]]
    rng.shuffle(em)
    ops = []
    for m in em[:ctx.n(700, 10 ** 6)]:
        ops.append(svd(rng, m))
        if len(m) == len(m[0]):
            ops.append(inv(rng, m))
            if rng.random() < .5:
                ops.append({"e": "geev", **arg(m)})
        elif rng.random() < .2:
            ops.append(inv(rng, m))
    for _ in range(ctx.n(500, 6000)):
        cx = rng.random() < .4
        r, c = rng.randint(1, 6), rng.randint(1, 6)
        w = rng.random()
        if w < .25:
            ops.append(svd(rng, rand(rng, r, c, cx)))
        elif w < .4:
            n = rng.randint(1, 5)
            m = unitriangular(rng, n, cx) if rng.random() < .5 else rand(rng, min(n, 4), min(n, 4), cx, 2)
            if rng.random() < .1:
                for j in range(len(m)):
                    m[-1][j] = (0, 0)
            ops.append(inv(rng, m))
        elif w < .5:
            n = rng.randint(1, 3)
            ops.append({"e": "geev", **arg(rand(rng, n, n, cx, 2))})
        elif w < .55:
            ops.append(bad(rng))
        else:
            ops.append(hermitian(rng))
    for _ in range(ctx.n(40, 500)):
        w = rng.random()
        if w < .4:
            r, c = rng.randint(7, 16), rng.randint(1, 16)
            cx = rng.random() < .4
            m = rand(rng, *rng.choice([(r, c), (c, r)]), cx, 1)
            ops.append(svd(rng, m))
        elif w < .7:
            n = rng.randint(6, 20)
            cx = rng.random() < .4
            a, b = unimodular(rng, n, cx)
            ops.append(dict(inv(rng, a), t=2 if cx else rng.choice([0, 2]), _inv=[list(e) for row in b for e in row]))
        else:
            o = None
            while not o or o["e"] != "diag":
                o = hermitian(rng, rng.randint(10, 20))
            ops.append(o)
    for _ in range(ctx.n(60, 900)):
        t = rng.randrange(2)
        n = rng.randint(1, 6) if rng.random() < .9 else rng.randint(13, 20)
        e = lambda: [rng.randint(-4, 4), 0] if rng.random() < .8 else [0, 0]
        ops.append({"e": "tri", "t": t, "a": [[e()[0], 0] for _ in range(n)], "b": [e() for _ in range(n)], "set": rng.randrange(2),
                    "n": rng.choice([0, n, rng.randint(1, n)]), "used": rng.choice([0, n, rng.randint(1, n + 2)])})
    rng.shuffle(ops)
    return [dict(driver="l02", trace="TraceL02", sessions=[[S] + ops[k:k + 12] for k in range(0, len(ops), 12)])]
