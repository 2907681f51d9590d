"""Lanczos.tla gives Hermitian integer matrices with their exact eigenvalues and eigenvectors, the levels that a
start vector reaches and its part in each; MCLanczos.tla runs the recursion in exact arithmetic for all small
matrices and start vectors and shows that three terms are enough, that it ends after one step per level and that the
vectors then span the eigenstates.  The same matrices and random larger ones, real and complex, with degenerate
eigenvalues, start vectors that miss some, excited states, step limits and reused solvers run in the real solver;
TLC checks every energy, vector and decomposition."""
from vf.core import *
from checks import lanczos_gen as lg
DRIVERS = [lg.DRV]


def models(ctx):
    return [lg.model(ctx, "real", 3, (2, 3)[ctx.thorough], False), lg.model(ctx, "complex", 2, 2, True)]


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = ctx.emitted["real"] + ctx.emitted["complex"]
    rng.shuffle(em)
    for x in em[:ctx.n(450, 10 ** 6)]:
        s = [lg.reset(x["v"], x["d"]), lg.solver(rng, len(x["d"]))]
        for k in range(rng.randint(1, 3)):
            s.append(lg.one(rng, x["x"], k))
        s += [{"e": "all", "init": [list(q) for q in x["x"]], "k": rng.randint(0, 2), "nz": rng.randint(0, 4)}, {"e": "dec", "init": [list(q) for q in x["x"]]}]
        ss.append(s)
    for _ in range(ctx.n(260, 4000)):
        n, cx, v, d = lg.random_system(rng)
        s = [lg.reset(v, d, cx), lg.solver(rng, n)]
        small = len(d) <= 6 and sum(a * a + b * b for a, b in v) <= 6
        for _ in range(rng.randint(2, 6)):
            x = lg.start(rng, n, cx, v, d)
            w = rng.random()
            if w < .1:
                if rng.random() < .3:
                    s.append(lg.solver(rng, n, lota=0))
                s.append(lg.solver(rng, n))
            elif w < .16:
                x = x + [[1, 0]] if rng.random() < .5 else x[:-1]
            k = rng.choice([0, 0, 0, 1, 2, rng.randint(0, n)])
            w = rng.random()
            if small and w < .3:
                s.append({"e": "dec", "init": x})
            elif w < .75:
                s.append(lg.one(rng, x, k))
            else:
                s.append({"e": "all", "init": x, "k": k, "nz": rng.randint(0, min(n, 4))})
        ss.append(s)
    # long runs in which a few eigenvalues converge early
    for _ in range(ctx.n(16, 150)):
        n = rng.randint(14, 26)
        cx = rng.random() < .6
        v = [rng.choice([[1, 0], [0, 1], [-1, 0], [1, 1]] if cx else [[1, 0], [-1, 0], [0, 0], [2, 0]]) for _ in range(n)]
        v[0] = [1, 0]
        d = rng.sample(range(-20, 21), n)
        for j in rng.sample(range(n), rng.randint(0, 3)):
            d[j] = rng.choice([-500, 300, 90, 1000])
        s = [lg.reset(v, d, cx), dict(lg.solver(rng, n, 200, 0), re=1)]
        for _ in range(rng.randint(1, 2)):
            s.append({"e": "basis", "init": lg.start(rng, n, cx, v, d) if rng.random() < .3 else [[rng.choice([1, -2, 3]), rng.choice([0, 1, -1]) if cx else 0] for _ in range(n)]})
        ss.append(s)
    # large matrices
    for _ in range(ctx.n(4, 40)):
        n = rng.choice([40, 64, 65, 100, 130])
        cx = rng.random() < .5
        v = [rng.choice([[1, 0], [0, 1], [0, 0]] if cx else [[1, 0], [-1, 0], [0, 0]]) for _ in range(n)]
        v[0] = [1, 0]
        c = rng.sample(range(-20, 21), rng.choice([3, 6, 12, 20]))
        d = [rng.choice(c) for _ in range(n)]
        s = [lg.reset(v, d, cx), dict(lg.solver(rng, n, 200, 0), re=1)]
        for k in range(2):
            x = [[rng.choice([1, -1, 2, 0]), rng.choice([0, 1]) if cx else 0] for _ in range(n)]
            s.append(lg.one(rng, x, 0) if k else {"e": "all", "init": x, "k": 0, "nz": 2})
        ss.append(s)
    return [dict(driver="lanczos", trace="TraceL01", sessions=ss)]
