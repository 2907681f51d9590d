"""Crs.tla states well-formedness of the three arrays; MCCrs.tla shows for all small matrices that the
algorithms keep it.  In histories of real operations every register's arrays are judged by TLC after
each operation, and matrices written to text streams (several in a row) and to HDF5 files (new and
overwritten names) must come back the same whatever the destination held before."""
from vf.core import *
from checks import sparse_gen as sg
from checks.s01 import DRIVERS, crs_model, enumerated, binary
KINDS = ["create"] * 3 + ["likethis"] * 2 + ["diag", "copy", "swap", "empty", "empty", "clear", "clear"] + ["mul"] * 3 + ["dag"] * 2 + ["plus"] * 2 + \
    ["pluseq", "plusseq", "plussmul", "scaled", "scale", "conj", "sum", "sum", "block", "ext1", "ext2"] + ["text"] * 6 + ["hw"] * 3 + ["hr"] * 4 + ["eq"] * 2


def models(ctx):
    return crs_model(ctx, (2, "0, 2", 8), (2, "0, 1, 2, 3", 7))


def groups(ctx):
    rng = ctx.rng
    en = enumerated(ctx, binary)
    rng.shuffle(en)
    for s in en:
        s.append({"e": "text", "from": [0, 2], "to": [1, 3]})
    ss = en[:ctx.n(500, 5000)]
    ss += [sg.history(rng, k % 2 == 1, rng.randint(12, 40), KINDS, rng.choice([2, 3, 4]), empties=True) for k in range(ctx.n(300, 3000))]
    ss += [sg.history(rng, k % 2 == 1, rng.randint(8, 14), KINDS, big=rng.sample([2, 10, 16, 17, 33, 40, 70], 2), empties=True) for k in range(ctx.n(10, 60))]
    ss += [sg.special(rng, k % 2 == 1, text=True) for k in range(ctx.n(4, 40))] + [sg.bigtensor(rng, k % 2 == 1) for k in range(ctx.n(2, 30))]
    return [dict(driver="sparse", trace="TraceS02", sessions=ss)]
