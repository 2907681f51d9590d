"""Crs.tla defines the external products and the block embedding entry by entry (Kronecker product of
exact matrices, sign vector, basis permutation); MCCrs.tla shows the mixed-product and permutation
laws for all small pairs.  The real functions run on every enumerated pair with random signs and
permutations in both orders and on random larger matrices; TLC compares every entry."""
from vf.core import *
from checks import sparse_gen as sg
from checks.s01 import DRIVERS, crs_model, enumerated
KINDS = ["create"] * 6 + ["likethis"] * 2 + ["empty", "diag"] + ["ext1"] * 5 + ["ext2"] * 7 + ["ext1bad"] + ["block"] * 5


def models(ctx):
    return crs_model(ctx, (2, "0, 2", 8), (2, "0, 1, 2, 3", 7))


def groups(ctx):
    rng = ctx.rng

    def tens(ar, ac, br, bc):
        r = []
        if ar == ac and br == bc:
            n = ar * br
            for order in (0, 1):
                perm = list(range(n))
                rng.shuffle(perm)
                r.append({"e": "ext2", "d": 2, "a": 0, "b": 1, "sg": [rng.choice([1, -1]) for _ in range(ar if order else br)], "order": order, "perm": perm})
                r.append({"e": "ext1", "d": 3, "a": 0, "nout": br, "sg": [rng.choice([1, -1]) for _ in range(br)], "order": order, "perm": perm})
            r.append({"e": "block", "d": 2, "b": 0, "off": rng.randint(0, n - ar)})
        return r
    ss = [s for s in enumerated(ctx, tens) if len(s) > 3]
    rng.shuffle(ss)
    ss = ss[:ctx.n(500, 6000)]
    ss += [sg.history(rng, k % 2 == 1, rng.randint(12, 30), KINDS, rng.choice([2, 3, 4, 5])) for k in range(ctx.n(200, 3000))]
    ss += [sg.history(rng, k % 2 == 1, rng.randint(8, 12), KINDS, big=rng.sample([2, 3, 5, 8, 9, 10, 17, 40], 3)) for k in range(ctx.n(10, 60))]
    ss += [sg.bigtensor(rng, k % 2 == 1) for k in range(ctx.n(4, 40))]
    return [dict(driver="sparse", trace="TraceS03", sessions=ss)]
