"""
Enumerations.tla gives every sequence by its defining property (sorted permutations, the next arrangement in order,
bit sets in increasing order, mixed-radix digits, ranges); MCEnumerations.tla steps through them and shows that each
step is the least next one and that all are visited.  Those collections and random longer ones, with repeated values
and used destinations, run in the real classes, step by step, and TLC checks each state.
"""
import itertools
from vf.core import *
DRIVERS = [Driver("e01", "e01.cpp", lib=["PsimagLite.cpp"])]
S = {"e": "S"}


def models(ctx):
    c = "SPECIFICATION Spec\nCONSTANTS MaxVal = %d MaxLen = %d\nINVARIANTS Ordered Members Everything\nPROPERTY StepIsLeast\n"
    return [dict(module="MCEnumerations", cfg=c % ((2, 4), (3, 5))[ctx.thorough])]


def groups(ctx):
    ss, rng = [], ctx.rng
    # every walk of the specification, stepped through the real object and beyond its end
    for orig, n in ctx.emitted["MCEnumerations"]:
        if not orig:
            continue
        ss.append([S, {"e": "perm", "v": orig}] + [{"e": "inc"}] * (n + 1))
    for _ in range(ctx.n(20, 200)):
        v = [rng.choice([0, 1, 3, 7, 100000]) for _ in range(rng.randint(5, 7) if rng.random() < .8 else rng.choice([9, 12, 17, 20]))]
        ss.append([S, {"e": "perm", "v": v}] + [{"e": "inc"}] * rng.randint(20, 60))
    one = [S]
    for n in range(0, 5):
        for v in itertools.product(range(3), repeat=n):
            one.append({"e": "sort", "type": rng.randrange(4), "v": list(v), "n": n})
    ss.append(one)
    one = [S]
    for _ in range(ctx.n(300, 3000)):
        t = rng.randrange(4)
        n = rng.randint(1, 40) if rng.random() < .96 else rng.choice([64, 65, 100, 128, 129, 200])
        lo = -50 if t in (1, 2) else 0
        v = [rng.randint(lo, rng.choice([3, 50, 2000000])) for _ in range(n)]
        k = n if rng.random() < .6 else rng.randint(1, n)
        one.append({"e": "sort", "type": t, "v": v, "n": k})
    ss.append(one)
    for n in (257, 400, 1000, 1025, 3000):
        v = [rng.randint(0, rng.choice([9, 2000000])) for _ in range(n)]
        ss.append([S, {"e": "sort", "type": rng.randrange(4), "v": v, "n": n}])
    one = [S]
    for parts in range(1, ctx.n(5, 6)):
        for tot in range(0, ctx.n(6, 9)):
            one.append({"e": "sum", "parts": parts, "total": tot})
            for k in (-1, 0, 1, 2, 5, 20):
                one.append({"e": "sumsel", "parts": parts, "total": tot, "idx": k})
    for parts, tot in ((1, 17), (1, 300), (2, 9), (2, 33), (3, 10), (3, 13), (4, 9), (7, 3), (10, 2), (20, 1)):
        one.append({"e": "sum", "parts": parts, "total": tot})
        one.append({"e": "sumsel", "parts": parts, "total": tot, "idx": rng.randint(0, 30)})
    ss.append(one)
    one = [S]
    for n in list(range(1, 9)) + [1000, 65536]:
        for ind in list(range(0, 30)) + [rng.randint(0, 10**9) for _ in range(10)]:
            one.append({"e": "unpack", "n": n, "ind": ind})
    for _ in range(100):
        n, m = rng.randint(1, 6), rng.randint(1, 6)
        p = list(range(n * m))
        rng.shuffle(p)
        one.append({"e": "pack", "n": n, "a": rng.randrange(n), "b": rng.randrange(m), "perm": p})
    for k in range(64):
        w = [0, 0, 0, 0]
        w[3 - k // 16] = 1 << (k % 16)
        one.append({"e": "bits", "w": w})
        x = (1 << (k + 1)) - 1
        one.append({"e": "bits", "w": [(x >> 48) & 65535, (x >> 32) & 65535, (x >> 16) & 65535, x & 65535]})
    for _ in range(ctx.n(300, 3000)):
        one.append({"e": "bits", "w": [rng.choice([0, 65535, rng.randrange(65536)]) for _ in range(4)]})
    for k in range(30):
        for w in (2**k - 1, 2**k, 2**k + 1):
            one.append({"e": "log2", "w": w})
    for a in range(0, 25):
        for b in range(1, 9):
            one.append({"e": "idiv", "a": a, "b": b})
    for k in range(1, len(one), 200):
        ss.append([S] + one[k:k + 200])
    return [dict(driver="e01", trace="TraceE01", sessions=ss)]
