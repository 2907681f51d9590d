"""Matrices, start vectors and solvers for the Lanczos checks."""
from vf.core import *
CORE = ["Concurrency.cpp", "PsimagLite.cpp", "Mpi.cpp", "MemResolv.cpp"]
DRV = Driver("lanczos", "lanczos.cpp", lib=CORE + ["Matrix.cpp", "TridiagonalMatrix.cpp", "ProgressIndicator.cpp", "Io/TypeToH5.cpp"], libs=HDF5 + ["-llapack", "-lblas"])


def model(ctx, name, n, maxd, cx):
    return dict(name=name, module="MCLanczos", workers=3, cfg="""SPECIFICATION Spec
CONSTANTS N = %d MaxD = %d Cx = %s EmitMod = TRUE
INVARIANTS Orthogonal ThreeTerms Steps Spans Moments
""" % (n, maxd, "TRUE" if cx else "FALSE"))


def reset(v, d, cx=None):
    v = [list(q) for q in v]
    if cx is None:
        cx = True
    return {"e": "S", "c": int(cx), "v": v, "d": list(d)}


def solver(rng, n, steps=None, tol=None, lota=1):
    if rng.random() < .75:
        steps = steps or 200
    return {"e": "solver", "steps": steps or rng.randint(1, n + 1), "min": rng.choice([4, 4, 1, 0, 7]), "tol": rng.choice([0, 1, 1, 2]) if tol is None else tol, "lota": lota,
            "re": int(rng.random() < .5), "eigs": rng.choice([1, 1, 2, 3, 0]) if tol != 0 else 1}


def one(rng, x, k):
    return {"e": "one", "init": [list(q) for q in x], "k": k, "fill": int(rng.random() < .3)}


def random_system(rng):
    cx = rng.random() < .4
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, rng.randint(1, 30)])
    ent = [[1, 0], [-1, 0], [1, 0], [0, 0]] + ([[0, 1], [0, -1], [1, 1]] if cx else [])
    v = [rng.choice(ent) for _ in range(n)]
    if not any(a or b for a, b in v):
        v[0] = [1, 0]
    kind = rng.random()
    if n > 8 and rng.random() < .6:
        d = [rng.choice(c) for c in [rng.sample(range(-20, 21), rng.randint(1, 7))] for _ in range(n)]
    elif kind < .3:
        d = [rng.randint(-3, 3) for _ in range(n)]
    elif kind < .6:
        d = rng.sample(range(-n - 5, n + 6), n)
    elif kind < .8:
        c = rng.randint(-5, 5)
        d = [c + rng.choice([0, 0, 0, 1, 7]) for _ in range(n)]
    else:
        d = [rng.randint(-20, 20) for _ in range(n)]
    return n, cx, v, d


def start(rng, n, cx, v, d):
    x = [[rng.randint(-3, 3), rng.randint(-3, 3) if cx else 0] for _ in range(n)]
    if rng.random() < .25:
        x = [q if rng.random() < .4 else [0, 0] for q in x]
    if rng.random() < .15:
        # an eigenvector or the sum of two
        s = sum(a * a + b * b for a, b in v)
        x = [[0, 0] for _ in range(n)]
        for j in rng.sample(range(n), min(n, rng.randint(1, 2))):
            for i in range(n):
                re = v[i][0] * v[j][0] + v[i][1] * v[j][1]
                im = v[i][1] * v[j][0] - v[i][0] * v[j][1]
                x[i][0] += (s if i == j else 0) - 2 * re
                x[i][1] += -2 * im
    if not any(a or b for a, b in x):
        x[rng.randrange(n)] = [1, 0]
    return x
