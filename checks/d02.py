"""TextIO.tla specifies the printed form of vectors, pair lists, nested vectors, stacks and matrices as
tokens and a reader for them; MCTextIO.tla shows for all sequences of small values that the stream is a
queue (every value is self-delimiting and reads back as it was).  The enumerated values and random
histories of prints and reads over one stream (used destinations, empty shapes, fed text with other
blanks, reads past the end, binary and file forms) run on the real operators and TLC checks every
token written and every value read."""
from vf.core import *
DRIVERS = [Driver("d02", "d02.cpp", lib=["Io/TypeToH5.cpp"], libs=HDF5)]


def models(ctx):
    c = """SPECIFICATION Spec
CONSTANTS MaxPut = %d
INVARIANTS Empty Emit
"""
    return [dict(module="MCTextIO", cfg=c % (2, 3)[ctx.thorough], workers=4)]


def num(q):
    s = "%d" % (abs(q) // 4) + ["", ".25", ".5", ".75"][abs(q) % 4]
    return "-" + s if q < 0 else s


def toks(k, t, r, c, a):
    w = [str(len(a))] if k == "v" else [str(r), str(c)]
    for e in a:
        w += {"i": lambda: [str(e[0])], "d": lambda: [num(e[0])], "z": lambda: ["(%s,%s)" % (num(e[0]), num(e[1]))],
              "s": lambda: ["".join(map(chr, e))], "p": lambda: [str(e[0]), str(e[1])], "v": lambda: [str(len(e))] + [str(y) for y in e]}[t]()
    return w


def groups(ctx):
    rng = ctx.rng

    def entry(t, small=False):
        q = lambda: rng.choice([0, rng.randint(-9, 9), rng.randint(-20, 20) if small else rng.randint(-3999, 3999), 4 * rng.randint(-99999, 99999) if not small else 0])
        if t == "i":
            return [rng.choice([0, rng.randint(-9, 9), rng.randint(-10**6, 10**6)])]
        if t == "d":
            return [q()]
        if t == "z":
            return [q(), q()]
        if t == "s":
            return [rng.randint(33, 126) for _ in range(rng.randint(1, 5) if rng.random() < .98 else rng.choice([16, 40, 70, 130]))]
        if t == "p":
            return [rng.randint(0, 20), rng.randint(0, 10**6)]
        return [rng.randint(-99, 99) for _ in range(rng.randint(0, 3))]

    def value(k, small=False):
        if k == "m":
            t = rng.choice("dz")
            r, c = (rng.randint(0, 4), rng.randint(0, 4)) if rng.random() < .97 else rng.choice([(1, 20), (12, 12), (17, 3), (3, 33), (65, 1)])
            return (k, t, r, c, [entry(t, small) for _ in range(r * c)])
        t = rng.choice("iidzspv")
        return (k, t, 0, 0, [entry(t) for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, 12)]) if rng.random() < .96 else rng.choice([16, 33, 65, 100, 260]))])

    def op(e, v, **kw):
        k, t, r, c, a = v
        return {"e": e, "k": Tag(k), "t": Tag(t), "rows": r, "cols": c, "a": a, **kw}

    def get(v, stack):
        k, t, r, c, a = v
        if k == "m":
            rr = rng.choice([0, r]) if r else 0
            cc = rng.choice([c, rng.randint(1, 3)]) if rr else 0
        else:
            rr, cc = rng.randint(0, 4), 0
        return {"e": "get", "k": Tag(k), "t": Tag(t), "rows": rr, "cols": cc, "stack": int(stack)}
    ss = []
    for x in ctx.emitted["MCTextIO"]:
        v = (x["x"]["k"], x["t"], x["x"].get("r", 0), x["x"].get("c", 0), x["x"]["a"])
        ss.append([{"e": "S"}, op("put", v, stack=0), op("put", v, stack=int(v[1] == "i" and v[0] == "v")), get(v, 0), get(v, v[1] == "i" and v[0] == "v")])
    for _ in range(ctx.n(300, 4000)):
        s = [{"e": "S"}]
        fifo = []
        for _ in range(rng.randint(5, 30)):
            w = rng.random()
            if w < .4:
                v = value(rng.choice("vm"))
                stack = v[1] == "i" and rng.random() < .5
                s.append(op("put", v, stack=int(stack)))
                fifo.append((v, stack))
            elif w < .5:
                v = value(rng.choice("vm"))
                s.append({"e": "feed", "w": toks(*v), "sep": [rng.choice([" ", "\n", "\t  ", "\n\n "]) for _ in range(3)]})
                fifo.append((v, False))
            elif w < .55:
                v = value("m", True)
                s.append(op("putchop", v, eps=rng.choice([0, 1, 2, 5])))
                fifo.append((v, False))
            elif w < .85:
                if fifo:
                    v, stack = fifo.pop(0)
                    s.append(get(v, stack or (v[0] == "v" and v[1] == "i" and rng.random() < .3)))
            elif w < .97:
                v = value("m", rng.random() < .6)
                e = rng.choice(["mfile", "fd", "math", "nonz", "sym"])
                if e in ("nonz", "sym") and rng.random() < .6:      # few different values, up to sign and conjugate
                    p = [[0], [0], [4], [-4], [9]] if v[1] == "d" else [[0, 0], [0, 0], [4, 2], [4, -2], [-4, 2], [-4, -2], [0, 5], [5, 0]]
                    v = v[:4] + ([rng.choice(p) for _ in v[4]],)
                if e == "nonz" and v[2] > v[3]:
                    continue
                s.append(op(e, v, **({"pre": rng.randint(0, 3)} if e == "fd" else {})))
            else:
                t = rng.choice("idz")
                s.append({"e": "vprint", "t": Tag(t), "a": [entry(t) for _ in range(rng.randint(0, 4))], "name": rng.choice(["v", "long name", "x[0]"]).replace(" ", "_")})
        while fifo:
            v, stack = fifo.pop(0)
            s.append(get(v, stack))
        if rng.random() < .3:
            s.append(get(value(rng.choice("vm")), False))
        ss.append(s)
    # every form with many rows, columns or entries
    for _ in range(ctx.n(3, 30)):
        for r, c in ((rng.randint(13, 18), rng.randint(1, 3)), (rng.randint(1, 3), rng.randint(13, 18)), (rng.randint(13, 16),) * 2):
            s = [{"e": "S"}]
            for t in "dz":
                v = ("m", t, r, c, [entry(t, True) for _ in range(r * c)])
                for e in ("mfile", "fd", "math", "nonz", "sym"):
                    if e == "nonz" and r > c or e == "sym" and t == "z":
                        continue
                    w = v
                    if e == "sym":                  # few different values
                        w = ("m", t, r, c, [rng.choice([[0], [4], [-8], [2]]) for _ in range(r * c)])
                    s.append(op(e, w, **({"pre": rng.randint(0, 3)} if e == "fd" else {})))
                s += [op("put", v, stack=0), get(v, False), op("putchop", v, eps=1), get(v, False)]
            for t in "idz":
                s.append({"e": "vprint", "t": Tag(t), "a": [entry(t) for _ in range(rng.randint(13, 20))], "name": "v"})
            for t in "idzspv":
                v = ("v", t, 0, 0, [entry(t) for _ in range(rng.randint(13, 40))])
                st = t == "i" and rng.random() < .5
                s += [op("put", v, stack=int(st)), get(v, st)]
            ss.append(s)
    # more than 25 different values
    for n in (25, 26, 27):
        s = [{"e": "S"}]
        a = [[4 * (i + 1) * (-1) ** i] for i in range(n)] + [[-4]]
        s.append(op("sym", ("m", "d", 1, n + 1, a)))
        ss.append(s)
    return [dict(driver="d02", trace="TraceD02", sessions=ss)]
