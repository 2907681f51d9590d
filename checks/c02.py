"""
Balancer.tla specifies the assignments of the three balancers (uneven last block, sorted weights to the least
loaded thread) and MCBalancer.tla shows for all weight vectors and thread counts in the bounds that they partition
the tasks, that the greedy step is least loaded and that block sizes differ by the rounding only.  All those and
random larger ones run in the real classes, several times over, and TLC checks every task of every thread.
"""
from vf.core import *
DRIVERS = [Driver("c02", "c02.cpp", lib=["PsimagLite.cpp"])]
S = {"e": "S"}


def models(ctx):
    c = """SPECIFICATION Spec
CONSTANTS MaxTasks = %d MaxThreads = %d MaxWeight = %d
INVARIANTS DonePartition DoneGreedy DoneBalanced
PROPERTY Ends
"""
    return [dict(module="MCBalancer", cfg=c % ((4, 3, 2), (5, 4, 2))[ctx.thorough], workers=4)]


def groups(ctx):
    rng = ctx.rng
    ops = []
    for n in range(0, ctx.n(40, 120)):
        for t in range(1, ctx.n(14, 30)):
            ops.append({"e": "default", "kind": rng.randrange(2), "n": n, "t": t})
    for _ in range(ctx.n(100, 600)):
        ops.append({"e": "default", "kind": rng.randrange(2), "n": rng.randint(40, 400), "t": rng.randint(1, 64)})
    for w, t in sorted({(tuple(a), b) for a, b in ctx.emitted["MCBalancer"]}):
        ops.append({"e": "weights", "w": list(w), "t": t})
    for n in range(0, 14):
        for t in range(1, 9):
            ops.append({"e": "even", "n": n, "t": t})
    for _ in range(ctx.n(500, 4000)):
        n = rng.randint(0, 24)
        hi = rng.choice([1, 3, 10, 100000])
        ops.append({"e": "weights", "w": [rng.randint(0, hi) for _ in range(n)], "t": rng.randint(1, 9)})
    for _ in range(ctx.n(16, 300)):
        n = rng.choice([25, 33, 64, 65, 100])
        hi = rng.choice([1, 3, 10, 100000])
        ops.append({"e": "weights", "w": [rng.randint(0, hi) for _ in range(n)], "t": rng.choice([2, 9, 12, 16, 17, 33, 40, n - 1, n, n + 1])})
        ops.append({"e": "even", "n": rng.randint(14, 80), "t": rng.randint(1, 40)})
    rng.shuffle(ops)
    return [dict(driver="c02", trace="TraceC02", sessions=[[S] + ops[k:k + 50] for k in range(0, len(ops), 50)])]
