"""Resolvent.tla gives the spectral function of a Hermitian integer matrix exactly: a pole for every level the start
vector reaches, as strong as its part in it; MCLanczos.tla shows that these have the moments <x|H^m|x> of the matrix and
that the recursion spans them.  The matrices and start vectors of all those behaviours, and random larger ones, go
through the real decomposition and continued fraction, at single frequencies, plots of real and Matsubara frequencies,
sums of several and files; TLC computes what every value must be.  The eigenvalues of tridiagonal integer matrices are
checked with Sturm sequences."""
from vf.core import *
from checks import lanczos_gen as lg
DRIVERS = [lg.DRV]


def models(ctx):
    return [lg.model(ctx, "real", 3, (1, 2)[ctx.thorough], False), lg.model(ctx, "complex", 2, 1 + ctx.thorough, True)]


def freqs(rng):
    a = rng.randint(-8, 6)
    return dict(a=a, b=a + rng.choice([0, 1, 2, 3, 5, 7, -2, rng.randint(0, 12)]), c=rng.choice([1, 1, 2, 3]), d=rng.randint(1, 3),
                beta=rng.randint(1, 3), nm=rng.choice([0, 0, 0, 1, 2, 5]))


def session(rng, v, d, xs, cx=None):
    s = [lg.reset(v, d, cx), {"e": "solver", "steps": 200, "min": 4, "tol": 0, "lota": 1, "re": 1, "eigs": 1}]
    kinds = []
    for x in xs:
        kind = rng.choice([0, 0, 1, 1, 2])
        s.append({"e": "cf", "init": [list(q) for q in x], "off": rng.randint(-4, 4), "w": rng.choice([1, 1, 2, 3, -1, 0]), "sgn": rng.choice([1, -1]), "set": kind})
        kinds.append(kind == 2)
    for _ in range(rng.randint(2, 5)):
        w = rng.random()
        i = rng.randrange(len(xs))
        if w < .35:
            s.append({"e": "at", "i": i, "zr": rng.randint(-6, 6), "zi": rng.choice([1, 1, 2, -1, 0, 3]), "off": rng.randint(-5, 5), "sgn": rng.choice([1, -1])})
        elif w < .6:
            s.append(dict({"e": "plot", "i": i}, **freqs(rng)))
        else:
            same = [q for q in range(len(xs)) if kinds[q] == kinds[i]]
            ids = [rng.choice(same) for _ in range(rng.choice([1, 1, 2, 3, 0]))]
            s.append(dict({"e": "coll", "ids": ids}, **freqs(rng), file=int(rng.random() < .6), times=rng.choice([1, 1, 1, 2, 3])))
    return s


def tri(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4])
    m = 4 if n < 4 else 2
    a = [rng.randint(-m, m) for _ in range(n)]
    b = [rng.randint(-m, m) for _ in range(n)]
    return {"e": "tri", "a": a, "b": b, "nn": rng.choice([0, 0, n, rng.randint(1, n)])}


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = ctx.emitted["real"] + ctx.emitted["complex"]
    rng.shuffle(em)
    for x in em[:ctx.n(500, 10 ** 6)]:
        ss.append(session(rng, x["v"], x["d"], [x["x"]]))
    for _ in range(ctx.n(300, 4000)):
        while True:
            n, cx, v, d = lg.random_system(rng)
            if n <= 8 and max(map(abs, d)) <= 20:
                break
        ss.append(session(rng, v, d, [lg.start(rng, n, cx, v, d) for _ in range(rng.randint(1, 3))], cx))
        ss[-1] += [tri(rng) for _ in range(rng.randint(0, 2))]
    return [dict(driver="lanczos", trace="TraceL03", sessions=ss)]
