"""Crs.tla specifies the representation, its meaning as a dense matrix over exact Gaussian integers,
the algorithms on it and a machine of four registers; MCCrs.tla shows for all pairs of small matrices
that the algorithms give what dense algebra prescribes.  Histories of constructions and operations
(every one of the enumerated pairs, and random ones over real and complex entries) run on the real
class, and TLC compares all four registers and every returned vector, matrix and predicate with the
machine after each operation."""
from vf.core import *
from checks import sparse_gen as sg
DRIVERS = [Driver("sparse", "sparse.cpp", lib=["Io/TypeToH5.cpp"], libs=HDF5)]
KINDS = ["create"] * 4 + ["likethis"] * 4 + ["diag", "copy", "copyctor", "swap", "empty", "clear"] + ["mul"] * 4 + ["dag"] * 2 + ["plus"] * 3 + \
    ["pluseq"] * 2 + ["plusseq"] * 2 + ["plussmul"] * 2 + ["scaled"] * 2 + ["scale", "conj"] + ["sum"] * 3 + ["mtc"] * 2 + ["todense"] * 2 + \
    ["mvp"] * 3 + ["mv"] * 2 + ["pred"] * 5 + ["eq"] * 2


def crs_model(ctx, quick, thorough):
    c = """SPECIFICATION Spec
CONSTANTS MaxD = %d Vals = {%s} EmitEvery = %d
INVARIANTS RoundTrip MulRight DagRight PlusRight Laws TensorLaws
"""
    return [dict(module="MCCrs", cfg=c % (thorough if ctx.thorough else quick), workers=4)]


def models(ctx):
    return crs_model(ctx, (2, "0, 1, 2", 8), (2, "0, 1, 2, 3", 7))


def enumerated(ctx, full):
    """sessions over every emitted pair (small shapes), all binary operations that fit"""
    out = []
    for x in ctx.emitted["MCCrs"]:
        ar, ac, br, bc = x["ar"], x["ac"], x["br"], x["bc"]
        s = [{"e": "S", "z": int(any(v[1] for v in x["a"] + x["b"]))},
             {"e": "dense", "d": 0, "rows": ar, "cols": ac, "a": x["a"]}, {"e": "fromfull", "d": 1, "rows": br, "cols": bc, "a": x["b"]}]
        for f in full(ar, ac, br, bc):
            s.append(f)
        out.append(s)
    return out


def binary(ar, ac, br, bc):
    r = [{"e": "pred", "a": 0}, {"e": "dag", "d": 2, "a": 0}]
    if ac == br:
        r += [{"e": "mul", "d": 2, "a": 0, "b": 1, "how": 0}]
    if ac == bc:
        r += [{"e": "mtc", "a": 0, "b": 1}]
    if (ar, ac) == (br, bc):
        r += [{"e": "plus", "d": 3, "a": 0, "s": [1, 0], "b": 1, "t": [-1, 0]}, {"e": "sum", "d": 2, "w": [0, 1, 0], "f": [[1, 0], [1, 0], [-1, 0]]}]
    if ar == ac and br == bc and ar == br:
        r += [{"e": "plussmul", "d": 3, "s": [2, 0], "a": 0, "b": 1}, {"e": "pluseq", "d": 0, "a": 1}, {"e": "pred", "a": 0}]
    return r


def groups(ctx):
    rng = ctx.rng
    en = enumerated(ctx, binary)
    rng.shuffle(en)
    ss = en[:ctx.n(900, 8000)]
    ss += [sg.history(rng, k % 2 == 1, rng.randint(12, 40), KINDS, rng.choice([2, 3, 4, 4, 6])) for k in range(ctx.n(240, 3000))]
    ss += [sg.history(rng, k % 2 == 1, rng.randint(8, 14), KINDS, big=rng.sample([10, 13, 16, 17, 20, 24, 32, 33, 40, 66], 2)) for k in range(ctx.n(10, 60))]
    ss += [sg.special(rng, k % 2 == 1) for k in range(ctx.n(8, 60))]
    for _ in range(ctx.n(60, 600)):
        s = [{"e": "S", "z": 0}]
        for _ in range(4):
            n = rng.choice([1, 2, 3, 5, 8])
            s.append({"e": "sample", "n": n, "seed": rng.randint(0, 10 ** 6), "nz": rng.choice([0, 1, 2, n, 2 * n, rng.randint(0, n * n)]), "top": rng.choice([1, 2, 9, 100]),
                      "vx": [rng.randint(-5, 5) for _ in range(n)], "vy": [rng.randint(-5, 5) for _ in range(n)]})
        ss.append(s)
    return [dict(driver="sparse", trace="TraceS01", sessions=ss)]
