"""Numerics.tla gives, in whole numbers, the solutions of linear systems that are polynomials in time (a method of order
4 must follow them exactly), the factor of one step of any linear system, the normal equations of linear prediction,
and thermal factors. MCNumerics takes the classic steps on every small system and shows that they stay on the solution,
that sequences with a recurrence are given its coefficients and that no other combination fits better. Those systems
and sequences, random ones, and thermal factors over the whole range run on the real classes; TLC recomputes every
value."""
from vf.core import *
DRIVERS = [Driver("k03", "k03.cpp", lib=["Concurrency.cpp", "PsimagLite.cpp", "Mpi.cpp", "MemResolv.cpp"], libs=["-llapack", "-lblas"])]
S = {"e": "S"}


def models(ctx):
    return [dict(module="MCNumerics", workers=4, cfg="""SPECIFICATION Spec
CONSTANTS N = %d Top = %d Full = %s
INVARIANTS OnSolution Factor Recurrence Best Thermal Emitted
""" % ((2, 1, "FALSE"), (3, 1, "TRUE"))[ctx.thorough])]


def z(x, y=0):
    return [x, y]


def rk(m, c, y0, t0, b, n, ex, cx=0, e="rk"):
    return {"e": e, "cx": cx, "m": m, "c": c, "y0": y0, "t0": t0, "b": b, "n": n, "ex": ex}


def nilpotent(rng, n, cx, mx):
    """strictly triangular in a shuffled order"""
    p = list(range(n))
    rng.shuffle(p)
    m = [[z(0) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < .7:
                m[p[i]][p[j]] = z(rng.randint(-mx, mx), rng.randint(-mx, mx) * cx)
    return m


def random_rk(rng):
    cx = int(rng.random() < .4)
    n = rng.choice([1, 1, 2, 3, 3, 4])
    q = rng.randint(-1, 4 - n)                      # degree of g; the solution has degree n + q at most
    m = nilpotent(rng, n, cx, 2)
    vec = lambda: [z(rng.randint(-3, 3), rng.randint(-2, 2) * cx) for _ in range(n)]
    c = [vec() for _ in range(q + 1)]
    b = rng.choice([1, 1, 2, 4])
    return rk(m, c, vec(), rng.randint(-3, 3), b, rng.choice([0, 1, 2, 5, 10]), rng.randint(0, 4), cx)


def random_step(rng):
    cx = int(rng.random() < .4)
    n = rng.randint(1, 3)
    m = [[z(rng.randint(-1, 1), rng.randint(-1, 1) * cx) for _ in range(n)] for _ in range(n)]
    b, steps = rng.choice([(1, 3), (1, 2), (2, 2)])
    return rk(m, [], [z(rng.randint(-2, 2), rng.randint(-2, 2) * cx) for _ in range(n)], rng.randint(-2, 2), b, steps, rng.randint(0, 4), cx, "rkstep")


def lp(y, p, q, two=(), p2=0):
    return {"e": "lp", "y": list(y), "two": list(two), "p": p, "p2": p2, "q": q}


def random_lp(rng):
    def some(k):
        if rng.random() < .5:
            return [rng.randint(-4, 4) for _ in range(k)]
        co = [rng.randint(-1, 1) for _ in range(rng.randint(1, 3))]
        s = [rng.randint(-3, 3) for _ in range(k)]
        for i in range(len(co), k):
            s[i] = max(-8, min(8, sum(c * s[i - 1 - j] for j, c in enumerate(co))))
        return s
    n = rng.randint(1, 5)
    k = 2 * n - int(rng.random() < .08)
    p = rng.choice([1, 1, 2, 2, 3]) if rng.random() < .8 else rng.randint(0, n + 2)
    p = min(p, 3) if p <= n else p
    two, p2 = [], 0
    if rng.random() < .25:
        n2 = rng.randint(1, 6)
        two = some(2 * n2 - int(rng.random() < .1))
        p2 = rng.choice([1, 1, 2, 2, 3, n2 + 1, 0])
    return lp(some(k), p, rng.randint(0, 3), two, p2)


def groups(ctx):
    rng = ctx.rng
    ops = []
    em = list(ctx.emitted["MCNumerics"])
    rng.shuffle(em)
    for h in em[:ctx.n(2500, 10 ** 6)]:
        if h["e"] == "rk":
            ops.append(rk(h["m"]["a"], h["c"], h["y0"], h["t0"], rng.choice([1, 2]), rng.randint(1, 4), rng.randint(0, 4), rng.randrange(2)))
        else:
            ops.append(lp(h["y"], h["p"], rng.randint(1, 3)))
    for _ in range(ctx.n(600, 6000)):
        ops.append(random_rk(rng))
        ops.append(random_step(rng))
        ops.append(random_lp(rng))
    for _ in range(ctx.n(40, 400)):
        o = random_rk(rng)
        o["n"], o["b"] = rng.choice([(13, 4), (17, 8), (32, 8), (40, 16), (64, 16)])
        ops.append(o)
    ops += [{"e": "fermi", "k": k} for k in range(-120, 121)]
    return [dict(driver="k03", trace="TraceK03", sessions=[[S] + ops[k:k + 25] for k in range(0, len(ops), 25)])]
