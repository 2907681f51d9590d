"""Analysis.tla states integrals of polynomials in five settings, minima of quadratic forms, the laws of the gamma
function and linear prediction without its growing parts, all in whole numbers; MCAnalysis shows for all small ones
that integrals add up, that nothing is lower than the minimum and that sequences obey the recurrence of their roots.
Those and random ones run through the classes that use the GSL, many on one object, and TLC recomputes every answer;
the same calls in a build without the GSL must all be refused."""
from vf.core import *
DRIVERS = [Driver("k04", "k04.cpp", defs=("USE_PTHREADS", "USE_BOOST", "USE_GSL"), libs=["-lgsl", "-lgslcblas", "-llapack", "-lblas"]),
           Driver("k04n", "k04.cpp", libs=["-llapack", "-lblas"])]


def models(ctx):
    return [dict(module="MCAnalysis", workers=4, cfg="""SPECIFICATION Spec
CONSTANTS Top = %d Box = %d
INVARIANTS Additive Inverts Lowest Obeys Stays Steps Emitted
""" % ((1, 2), (2, 3))[ctx.thorough])]


def integ(kind, c, s, unit, calls):
    return {"e": "integ", "kind": kind, "c": list(c), "s": s, "unit": unit, "calls": calls}


def random_integ(rng):
    kind = rng.choice([0, 0, 0, 1, 1, 2, 3, 4])
    c = [rng.randint(-5, 5) for _ in range(rng.randint(1, 6))]
    pts = lambda: [rng.randint(-4, 4), rng.randint(-4, 4)]
    inner = lambda s: sorted(rng.sample(range(-4, 5), rng.randint(2, 5)))
    calls, s, unit = [], 0, 60
    for _ in range(rng.randint(1, 5)):
        if kind == 0:
            calls.append([0, rng.randint(1, 6), pts()] if rng.random() < .6 else [1, 0, inner(0)])
        elif kind == 1:
            if rng.random() < .4:
                a = sorted(rng.sample(range(-4, 5), 2))
                calls.append([0, rng.randint(1, 6), a])
            else:
                a = sorted(rng.sample(range(-4, 5), rng.randint(2, 5)))
                calls.append([1, 0, a])
        elif kind == 2:
            unit = 60 * 4096
            calls.append([2, 0, [rng.choice([1, 2, 4])]])
        elif kind == 3:
            unit = 1
            calls.append([2, 0, [0]])
        else:
            unit = 8
            calls.append([3, 0, []])
    if kind == 1:
        s = rng.randint(-3, 3)
        for q in calls:
            if q[0] == 1 and q[2][0] < s < q[2][-1] and s not in q[2]:
                q[2] = sorted(q[2] + [s])
    if kind == 3:
        s = rng.randint(-5, 5)
        for q in calls:
            q[2] = [s]
    return integ(kind, c, s, unit, calls)


def search(rng, a, m, starts, most=None):
    r = [{"e": "new", "a": a, "m": m, "c": rng.randint(-9, 9), "most": most if most is not None else rng.choice([1000, 1000, 1000, 1, 3, 10, 20, 60, 0]),
          "verbose": int(rng.random() < .2)}]
    for v in starts:
        r.append({"e": "min", "how": rng.randrange(2), "save": rng.choice([0, 0, 1, 3]), "start": v, "off": 0})
    return r


def close_search(rng):
    """starts within a step or two of the minimum"""
    n = rng.randint(1, 2)
    m = [rng.randint(-9, 9) for _ in range(n)]
    k = rng.randint(1, 4)
    s = search(rng, [[k if i == j else 0 for j in range(n)] for i in range(n)], m, [m] * 4, 1000)
    for op in s[1:]:
        op["off"] = rng.choice([1, -1, 2, -3])
    return s


def random_search(rng):
    n = rng.randint(1, 4)
    b = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)]
    a = [[sum(q[i] * q[j] for q in b) + (rng.randint(1, 3) if i == j else 0) for j in range(n)] for i in range(n)]
    # off-diagonal entries come in pairs already: b^T b is symmetric
    m = [rng.randint(-9, 9) for _ in range(n)]
    starts = [m[:] if rng.random() < .12 else [rng.randint(-9, 9) for _ in range(n)] for _ in range(rng.randint(1, 5))]
    return search(rng, a, m, starts)


def lp2(j, y=None, q=None):
    p = len(j["h"]) + 2 * len(j["c"])
    return {"e": "lp2", "u": j["u"], "y": list(y or j["y"]), "p": p, "q": p if q is None else q, "_h": list(j["h"]), "_c": [list(x) for x in j["c"]]}


def groups(ctx):
    rng = ctx.rng
    em = list(ctx.emitted["MCAnalysis"])
    rng.shuffle(em)
    ops, runs = [], []
    for j in em[:ctx.n(1200, 10 ** 6)]:
        if j["e"] == "integ":
            ops.append(integ(0, j["c"], 0, 60, [[0, rng.randint(1, 6), [j["a"], j["b"]]], [1, 0, sorted({j["a"], j["m"], j["b"]})], [0, rng.randint(1, 6), [j["b"], j["a"]]]]))
        elif j["e"] == "bowl":
            runs.append(search(rng, j["a"], j["m"], [j["start"], j["m"], j["start"]][:rng.randint(1, 3)]))
        else:
            ops.append(lp2(j))
    for _ in range(ctx.n(500, 5000)):
        ops.append(random_integ(rng))
        runs.append(random_search(rng) if rng.random() < .8 else close_search(rng))
    for j in [x for x in em if x["e"] == "lp2"][:ctx.n(60, 600)]:
        k = len(j["h"]) + 2 * len(j["c"])
        if rng.random() < .7:
            ops.append(lp2(j, q=rng.choice([x for x in (0, 1, 2, 3, 4, 7) if x != k])))
        else:
            ops.append(lp2(j, j["y"][:-1]))
    for a in range(-12, 40):
        for b in sorted({0, rng.randint(1, 9), -rng.randint(1, 9), rng.randint(-20, 20)}):
            if not (b == 0 and a <= 0 and a % 2 == 0):
                ops.append({"e": "gamma", "a": a, "b": b})
    for _ in range(ctx.n(40, 400)):
        a = rng.randint(1, 60)
        ops.append({"e": "ci", "a": a, "b": rng.randint(1, 60)})
    rng.shuffle(ops)
    s = lambda g: {"e": "S", "_gsl": g}
    ss = [[s(1)] + ops[k:k + 25] for k in range(0, len(ops), 25)]
    flat = [sum(runs[k:k + 8], []) for k in range(0, len(runs), 8)]
    none = [[s(0)] + rng.sample(ops, 20) for _ in range(6)] + [[s(0)] + x[:20] for x in rng.sample(flat, 3)]
    return [dict(driver="k04", trace="TraceK04", sessions=ss + [[s(1)] + x for x in flat]),
            dict(driver="k04n", trace="TraceK04", sessions=none)]
