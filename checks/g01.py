"""Lattice.tla draws each lattice bond by bond; MCLattice.tla shows for all small sizes, leg counts, distances and
periodicities that the drawing is a simple graph, that the index arithmetic of the code computes it, that bonds
get distinct numbers below the number of couplings, honeycomb and bath sites have the right neighbours, and shifts
and mirrors preserve neighbours.  Every such lattice and random larger ones are built through the real Geometry
and TLC compares all pairs: connected, direction, number, and every shift and mirror."""
from vf.core import *
from checks.geo_gen import *
DRIVERS = [Driver("geometry", "geometry.cpp", libs=HDF5, lib=["Concurrency.cpp", "PsimagLite.cpp", "Mpi.cpp", "MemResolv.cpp", "Io/TypeToH5.cpp"])]


def models(ctx):
    return [dict(module="MCLattice", cfg="SPECIFICATION Spec\nCONSTANTS MaxL = %d\nINVARIANTS ArithmeticAgrees Graph OwnNumber HoneycombDegree BathDegree Symmetries Emit\n" % (10, 16)[ctx.thorough], workers=6)]


def moves(rng, p):
    o = []
    for _ in range(rng.randint(1, 3)):
        o.append({"e": "move", "t": 0, "dir": rng.randint(0, 1) if p["kind"] == "ladder" else 0, "amount": rng.randint(0, 2 * p["L"])})
    return o + [{"e": "refl", "t": 0}, {"e": "len", "t": 0, "d": rng.randint(0, 1) if p["kind"] == "ladder" else 0}]


def broken(rng):
    p = pick(rng)
    k = rng.randrange(5)
    if k == 0:
        p = base(kind=rng.choice(["ladder", "ladderx"]), leg=rng.randint(0, 6), L=rng.randint(1, 16), px=rng.randint(0, 1), py=rng.choice([-1, 0, 1]), const=1)
        if p["leg"] == 2:
            p["py"] = 0
    elif k == 1:
        p = base(kind="ladderbath", leg=rng.randint(1, 3), b=rng.randint(0, 3), L=rng.randint(1, 20), const=1, px=rng.randint(0, 1))
    elif k == 2:
        p["kind"] = rng.choice(["chainEx", "square", "Ladder", ""])
        p["const"] = 1
    elif k == 3:
        p["orb"] = 0
        p["const"] = 1
    else:
        p = base(kind="Honeycomb", ly=4, L=8, py=rng.choice([-1, 0]), const=1)
    return p


def groups(ctx):
    rng = ctx.rng
    em = [x for x in ctx.emitted["MCLattice"] if x["kind"] != "split"]
    rng.shuffle(em)
    ss = []
    for x in em[:ctx.n(900, 10 ** 9)]:
        p = base(**{k: x[k] for k in ("kind", "L", "leg", "px", "py", "d", "b", "ly")})
        if p["kind"].endswith("chain") and p["d"] >= p["L"]:
            p["const"] = 1
        if p["kind"] == "star" and p["L"] < 2:
            continue
        if not numbered(p):
            p["const"] = 1
        if p["kind"] == "ktwoniffour":
            p["orb"] = 2
        ss.append([{"e": "S"}, mk(rng, [p])] + (looks(p) if not p["const"] or not numbered(p) else [{"e": "graph", "t": 0, "want": 1}]) + moves(rng, p))
    for _ in range(ctx.n(500, 6000)):
        p = pick(rng, ctx.thorough or rng.random() < .1)
        s = [{"e": "S"}, mk(rng, [p])] + looks(p) + moves(rng, p)
        ss.append(s)
    for _ in range(ctx.n(150, 1500)):
        p = broken(rng)
        fill(rng, p, 0)
        ss.append([{"e": "S"}, mk(rng, [p], filled=True), {"e": "graph", "t": 0, "want": 0}])
    return [dict(driver="geometry", trace="TraceLattice", sessions=ss)]
