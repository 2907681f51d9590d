"""Gemm.tla states the result element by element on the raw column-major storage and the tiled
design; MCGemm.tla shows for all sizes up to the bounds that the tiles cover every element exactly
once under every interleaving of the workers.  The real driver runs all small shapes and random
larger ones with padded storage, every transposition, number type, block size and thread count,
and TLC computes the exact result for each."""
from vf.core import *
DRIVERS = [Driver("c03", "c03.cpp", lib=["PsimagLite.cpp", "Concurrency.cpp", "Matrix.cpp"], libs=["-llapack", "-lblas"])]
S = {"e": "S"}
RETRIES = 10


def models(ctx):
    c = """SPECIFICATION Spec
CONSTANTS MaxM = %d MaxN = %d MaxNb = %d MaxT = %d
INVARIANTS AtMostOnce ExactlyOnce NoTwoTiles NoEmptyTile
PROPERTY Ends
"""
    return [dict(module="MCGemm", cfg=c % ((4, 3, 3, 3), (6, 4, 4, 3))[ctx.thorough], workers=4)]


def one(rng, m, n, k, nb, nt, ty, ta=None, tb=None, mag=4):
    z = ty in ("z", "c")
    ta = ta or rng.choice("NnTtCc")
    tb = tb or rng.choice("NnTtCc")

    def v(lo=-mag, hi=mag):
        return [rng.randint(lo, hi), rng.randint(lo, hi) if z else 0]
    ra, ca = (m, k) if ta in "Nn" else (k, m)
    rb, cb = (k, n) if tb in "Nn" else (n, k)
    lda = max(1, ra) + rng.choice([0, 0, 1, 3])
    ldb = max(1, rb) + rng.choice([0, 0, 1, 2])
    ldc = max(1, m) + rng.choice([0, 0, 1, 2])
    return {"e": "gemm", "ty": Tag(ty), "nb": nb, "nt": nt, "ta": ord(ta), "tb": ord(tb), "m": m, "n": n, "k": k,
            "alpha": rng.choice([[1, 0], [2, 0], [0, 0], v()]), "beta": rng.choice([[0, 0], [1, 0], [-1, 0], v()]),
            "lda": lda, "ldb": ldb, "ldc": ldc, "a": [v() for _ in range(lda * ca)], "b": [v() for _ in range(ldb * cb)],
            "c": [v() for _ in range(ldc * n)], "dbg": rng.random() < .1}


def groups(ctx):
    rng = ctx.rng
    ops = []
    for m in range(1, 6):
        for n in range(1, 6):
            for nb in range(0, 4):
                for _ in range(ctx.n(1, 4)):
                    ops.append(one(rng, m, n, rng.randint(1, 3), nb, rng.randint(1, 5), rng.choice("dzfc")))
    for ta in "NnTtCc":
        for tb in "NnTtCc":
            for ty in "dz":
                ops.append(one(rng, rng.randint(3, 7), rng.randint(3, 7), rng.randint(1, 4), 2, 3, ty, ta, tb))
    for _ in range(ctx.n(150, 2000)):
        ops.append(one(rng, rng.randint(1, 14), rng.randint(1, 14), rng.randint(0, 4), rng.randint(0, 15), rng.randint(1, 9), rng.choice("dzfc")))
    for _ in range(ctx.n(8, 60)):
        ops.append(one(rng, rng.randint(20, 45), rng.randint(20, 45), 2, rng.randint(3, 25), rng.randint(1, 12), rng.choice("dz")))
    for _ in range(ctx.n(4, 30)):
        ops.append(one(rng, rng.randint(1, 100), rng.randint(1, 100), rng.randint(1, 2), rng.choice([2, 3, 5, 16, 33, 64, 65]), rng.choice([1, 13, 16, 20]), rng.choice("dz")))
        ops.append(one(rng, rng.randint(1, 9), rng.randint(1, 9), rng.choice([17, 33, 64, 65, 100]), rng.randint(0, 9), rng.randint(1, 4), rng.choice("dzfc")))
    rng.shuffle(ops)
    return [dict(driver="c03", trace="TraceC03", sessions=[[S] + ops[k:k + 10] for k in range(0, len(ops), 10)], per=60)]
