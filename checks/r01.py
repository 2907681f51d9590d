"""Twister.tla gives the generators bit by bit: seeding, generations and tempering of the Mersenne twister, the C
library's shared 48-bit generator, the minimal standard one, and the check digits of run identifiers. MCTwister.tla
shows that its arithmetic on half words is that of whole numbers and that draws from a generator depend on nothing but
its own seed and position, over all interleavings of draws, reseeding and copying of two generators. All those
interleavings and long random histories, across the ends of generations, run on the real generators, and identifiers
are made for chosen processes and times; TLC checks every number."""
from vf.core import *
DRIVERS = [Driver("r01", "r01.cpp", lib=["Concurrency.cpp", "PsimagLite.cpp", "Mpi.cpp", "MersenneTwister.cpp", "MemResolv.cpp", "Io/TypeToH5.cpp"], libs=HDF5)]
S = {"e": "S"}


def few_ones(rng, want, lim=4000):
    """a seed with which the identifier counts so many one bits: only to choose inputs, nothing is judged by it"""
    import random
    for _ in range(lim):
        seed = rng.randrange(1, 2 ** 32)
        st = [seed]
        for i in range(1, 624):
            st.append((1812433253 * (st[-1] ^ (st[-1] >> 30)) + i) & 0xffffffff)
        g = random.Random()
        g.setstate((3, tuple(st) + (624,), None))
        r, b, c = (g.getrandbits(32) for _ in range(3))
        if bin((((seed - r) & 0xffffffff) ^ b) ^ c).count("1") == want:
            return [seed >> 16, seed & 65535]
    return word(rng)


def models(ctx):
    return [dict(module="MCTwister", workers=4, cfg="""SPECIFICATION Spec
CONSTANTS MaxLen = %d MaxOps = %d
INVARIANTS Independent Arith Streams Schrage BitCount
""" % ((700, 4), (2000, 5))[ctx.thorough])]


def word(rng):
    x = rng.choice([0, 1, 2 ** 32 - 1, 5489, rng.randrange(2 ** 32), rng.randrange(2 ** 32), rng.randrange(1000)])
    return [x >> 16, x & 65535]


def draw(rng, id, n=None):
    if n is None:
        n = rng.choice([1, 2, 5, 10, rng.randint(1, 40)])
    return {"e": "draw", "id": id, "n": n, "real": int(rng.random() < .4)}


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = list(ctx.emitted["MCTwister"])
    rng.shuffle(em)
    for h in em[:ctx.n(300, 10 ** 6)]:
        sd = [word(rng), word(rng)]
        s = [S, {"e": "new", "id": 0, "s": sd[0]}, {"e": "new", "id": 1, "s": sd[0]}]
        for o in h:
            if o in ("da", "db"):
                s.append(draw(rng, "ab".index(o[1])))
            elif o == "copy":
                s.append({"e": "copy", "id": 0, "to": 1})
            else:
                s.append({"e": "seed", "id": "ab".index(o[1]), "s": sd[int(o[2]) - 1]})
        s += [draw(rng, 0), draw(rng, 1)]
        ss.append(s)
    for _ in range(ctx.n(60, 600)):
        s = [S]
        ids = list(range(rng.randint(1, 3)))
        for i in ids:
            if rng.random() < .5:
                s.append({"e": "new", "id": i, "s": word(rng)})
            else:
                n = rng.randint(1, 6)
                s.append({"e": "rank", "id": i, "s": word(rng), "rank": rng.randrange(n), "np": n})
        for _ in range(rng.randint(3, 9)):
            w = rng.random()
            i = rng.choice(ids)
            if w < .1:
                s.append({"e": "seed", "id": i, "s": word(rng)})
            elif w < .2:
                s.append({"e": "copy", "id": i, "to": rng.choice(ids)})
            else:
                s.append(draw(rng, i, rng.choice([None, 623, 624, 625, 617, 1248, rng.randint(1, 1400)])))
        ss.append(s)
    for _ in range(ctx.n(60, 600)):
        s = [S]
        ids = []
        for _ in range(rng.randint(3, 12)):
            w = rng.random()
            if not ids or w < .25:
                i = rng.randrange(3)
                n = rng.randint(1, 5)
                s.append({"e": "n48", "id": i, "s": word(rng), "rank": rng.randrange(n), "n": n})
                ids.append(i)
            elif w < .35:
                s.append({"e": "s48", "id": rng.choice(ids), "v": rng.randint(0, 10 ** 6)})
            else:
                s.append({"e": "d48", "id": rng.choice(ids), "n": rng.randint(1, 8), "old": int(rng.random() < .3)})
        ss.append(s)
    for _ in range(ctx.n(40, 400)):
        s = [S]
        for i in range(2):
            s.append({"e": "newm", "id": i, "s": rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31 - 2, rng.randrange(2 ** 31), rng.randrange(1000)])})
        for _ in range(rng.randint(2, 6)):
            s.append({"e": "drawm", "id": rng.randrange(2), "n": rng.randint(1, 30)})
        ss.append(s)
    for _ in range(ctx.n(40, 400)):
        s = [S]
        for _ in range(30):
            w = rng.random()
            if w < .08:
                s.append({"e": "runid", "kind": 1, "s": few_ones(rng, rng.choice([9, 10, 10, 11]))})
            elif w < .75:
                s.append({"e": "runid", "kind": int(rng.random() < .8), "s": word(rng)})
            else:
                x = rng.choice([rng.randrange(2 ** 64), rng.randrange(2 ** 32), 2 ** rng.randrange(64), 2 ** rng.randrange(65) - 1, rng.randrange(300)])
                s.append({"e": "bits", "w": str(x)})
        ss.append(s)
    return [dict(driver="r01", trace="TraceR01", sessions=ss)]
