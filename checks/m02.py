"""MCProcesses takes a loop shared among processes step by step in every interleaving: every order number runs once and none
leaves before all have. In the real InterNode class, run as 1 to 4 processes with one of them slowed down and in three
ways of grouping them, TLC judges which order numbers each process ran, in which order and under which rank, and that
each process, when its loop returned, saw every one done (through memory they share)."""
from vf.core import *
from vf import mpi
from checks.m01 import DRIVERS, models, first, grouped
RETRIES = 2


def loop(rng, np, c, a, n):
    how = rng.choice([0, 0, 1, 2]) if np else 0
    if how == 2:
        a = 0
    return {"e": "loop", "how": how, "comm": c, "a": a, "b": a + n, "slow": rng.randrange(-1, max(np, 1)),
            "w": [rng.randint(0, 9) for _ in range(n)] if how == 2 else []}


def groups(ctx):
    rng = ctx.rng
    r = []
    for np in (0, 1, 2, 3, 4):
        ops = []
        for n in range(0, 26):
            for c in ((0, 1, 2) if np else (0,)):
                ops.append(loop(rng, np, c, rng.choice([0, 0, 1, 7, 100]), n))
        for _ in range(ctx.n(20 if np < 2 else 200, 50 if np < 2 else 2500)):
            ops.append(loop(rng, np, rng.choice([0, 1, 2]) if np else 0, rng.randint(0, 60), rng.choice([0, 1, 2, 3, 5, 8, 13, 24, 40, 90])))
        ops += [{"e": "id", "comm": c} for c in ((0, 1, 2) if np else (0,))]
        rng.shuffle(ops)
        r.append(grouped(np, [[first(np)] + ops[k:k + 12] for k in range(0, len(ops), 12)]))
    return r
