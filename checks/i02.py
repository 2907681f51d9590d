"""Store.tla says what every kind of value (numbers of every width byte by byte, strings, pairs, vectors,
nested vectors, vectors of pairs, matrices, stacks, enumerations) reads back as; BoolPack.tla specifies
the packing of booleans, and MCBoolPack.tla shows that unpacking inverts it for every list in the bounds
and every length.  All those lists, and random values of every kind in every length class, are written
and read through both handles on the real store, into used destinations, and TLC compares the bytes."""
from vf.core import *
from checks import store_gen as sg
DRIVERS = [sg.DRV]


def models(ctx):
    return [dict(module="MCBoolPack", cfg="""SPECIFICATION Spec
CONSTANTS MaxBits = %d MaxLen = %d
INVARIANTS UnpacksBack InverseBig Lengths
""" % ((9, 300), (13, 1100))[ctx.thorough], workers=4)]


def groups(ctx):
    rng = ctx.rng
    ss = []

    def session(vals, again=False):
        """each value under its own name, read through the writer, then from the closed file"""
        s = [{"e": "S", "fork": 0}, {"e": "open", "f": Tag("f0"), "mode": Tag("trunc"), "via": 0}]
        names = []
        for n, (k, a) in enumerate(vals):
            p = ("n%d" % n,)
            if again and k in sg.PLAIN + sg.GROUPED + list(sg.VSIZES):
                s.append(sg.put(p, k, sg.value(rng, k), 0, rng.randrange(2)))
                s.append(sg.put(p, k, a, 1, rng.randrange(2)))
            else:
                s.append(sg.put(p, k, a, int(k not in sg.ONCE and rng.random() < .3), rng.randrange(2)))
            names.append((p, k))
            if rng.random() < .4:
                s.append(sg.read(rng, p, k))
        s += [{"e": "close", "how": rng.randrange(2)}, {"e": "open", "f": Tag("f0"), "mode": Tag("read"), "via": rng.randrange(2)}]
        rng.shuffle(names)
        for p, k in names:
            s.append(sg.read(rng, p, k))
            if rng.random() < .3:
                s.append(sg.read(rng, p, rng.choice([q for q in sg.PLAIN if q != "vb"])))
            if sg.clash(rng, k):
                s.append(sg.read(rng, p, sg.clash(rng, k)))
            for a, b in (("vd", "vz"), ("vf", "vzf"), ("vz", "vd"), ("vzf", "vf")):
                if k == a:
                    s.append(sg.read(rng, p, b))
        return s + [{"e": "close", "how": 0}]
    em = ctx.emitted["MCBoolPack"]
    for i in range(0, len(em), 40):
        ss.append(session([("vb", [[b] for b in x]) for x in em[i:i + 40]]))
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 4095, 4096] + ctx.n([rng.randint(65536, 66000)], [65535, 65536, 65537, 131073]):
        w = rng.random()
        bits = [[1] for _ in range(n)] if w < .2 else [[rng.randint(0, 1)] for _ in range(n)]
        ss.append(session([("vb", bits), ("vvb", [sum(bits[:n % 90], [])] * (n % 3))]))
    for k in sg.ALL:
        for _ in range(ctx.n(3, 25)):
            lens = [1, 2, rng.randint(3, 20), rng.randint(20, 60)] + ([0] if k not in ("str",) else [0])
            ss.append(session([(k, sg.value(rng, k, n)) for n in lens], rng.random() < .5))
    # many elements
    for k in ["str"] + sorted(sg.VSIZES) + ["vp", "ve", "vb"]:
        for n in rng.sample([100, 128, 200, 256, 257, 400, 700, 1000, 1025], ctx.n(1, 5)):
            ss.append(session([(k, [[rng.randint(0, 1)] for _ in range(n)] if k == "vb" else sg.value(rng, k, n))], rng.random() < .5))
    # lists of objects that grow and shrink when they are replaced
    for _ in range(ctx.n(40, 400)):
        p = rng.choice([("a",), ("g", "x")])
        s = [{"e": "S", "fork": 0}, {"e": "open", "f": Tag("f0"), "mode": Tag("trunc"), "via": 0}, {"e": "group", "p": [Tag("g")]}]
        k = rng.choice(["vm", "vm", "m"])
        s.append(sg.put(p, k, sg.value(rng, k, rng.randint(0, 4)), 0, 0))
        for _ in range(rng.randint(1, 5)):
            w = rng.random()
            if w < .2:
                s += [{"e": "close", "how": rng.randrange(2)}, {"e": "open", "f": Tag("f0"), "mode": Tag("rdw"), "via": rng.randrange(2)}]
            v = sg.value(rng, k, rng.randint(0, 4))
            s.append(sg.put(p, k, v, 1, 0) if rng.random() < .3 else {"e": "over", "p": [Tag(x) for x in p], "k": Tag(k), "a": v})
            s.append(sg.read(rng, p, k))
        s += [{"e": "close", "how": rng.randrange(2)}, {"e": "open", "f": Tag("f0"), "mode": Tag("read"), "via": rng.randrange(2)}, sg.read(rng, p, k)]
        ss.append(s)
    # many names in one file
    ss.append(session([(k, sg.value(rng, k)) for k in (rng.choice(sg.ALL) for _ in range(ctx.n(60, 200)))], True))
    for _ in range(ctx.n(60, 800)):
        ss.append(session([(k, sg.value(rng, k)) for k in (rng.choice(sg.ALL) for _ in range(rng.randint(3, 15)))], rng.random() < .4))
    return [dict(driver="store", trace="TraceStore", sessions=ss)]
