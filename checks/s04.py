"""SparseAcc.tla specifies the row accumulators and the sparse vector by the pairs they hold and the
dense vector these mean; MCSparseAcc.tla shows for every sequence of additions in the bounds that the
sort-and-merge design gives each index once, in order, with its sum.  Every enumerated sequence and
random histories (several rows through one accumulator, small caches, cancelling values, chunks,
partitions) run on the real classes and TLC compares what they hold and return after each call."""
from vf.core import *
DRIVERS = [Driver("s04", "s04.cpp", lib=["Io/TypeToH5.cpp"], libs=HDF5)]


def models(ctx):
    c = """SPECIFICATION Spec
CONSTANTS MaxLen = %d NIdx = %d
INVARIANTS WalkIsMerged Once SameMeaning NormIsReal
"""
    return [dict(module="MCSparseAcc", cfg=c % ((3, 3), (4, 3))[ctx.thorough], workers=4)]


def groups(ctx):
    rng = ctx.rng
    ss = []
    for ps in ctx.emitted["MCSparseAcc"]:
        kind, cache = rng.randrange(2), rng.randint(0, 3)
        s = [{"e": "S", "z": 1, "kind": kind, "cache": cache, "cols": 3}]
        s += [{"e": "add", "i": p[0], "s": p[1]} for p in ps] + [{"e": "fin"}]
        s += [{"e": "vnew", "d": 0, "len": 3}] + [{"e": "vadd", "d": 0, "i": p[0], "s": p[1]} for p in ps] + [{"e": "vsort", "d": 0}]
        ss.append(s)
    for k in range(ctx.n(150, 2000)):
        z, kind = rng.randrange(2), rng.randrange(2)
        n = rng.randint(1, 8) if k % 10 else rng.choice([17, 40, 70])

        def val():
            return [rng.randint(-3, 3), rng.randint(-3, 3) if z else 0]
        s = [{"e": "S", "z": z, "kind": kind, "cache": rng.choice([0, 1, 2, 3, 8, 50, 16, 33]), "cols": n}]
        for _ in range(rng.randint(1, 4)):
            for _ in range(rng.randint(0, 10) if n < 9 else rng.choice([12, 20, 40, 60])):
                s.append({"e": "add", "i": rng.randrange(n), "s": val()})
            y = [val() for _ in range(n)]
            w = rng.choice(["fin", "fin", "fin", "mvp", "finy"])
            if w == "mvp":
                s.append({"e": "mvp", "y": y})
                if rng.random() < .5:
                    s.append({"e": "add", "i": rng.randrange(n), "s": val()})
                s.append({"e": "fin"})
            elif w == "finy" and kind == 0:
                s.append({"e": "finy", "y": y})
            else:
                s.append({"e": "fin"})
        ss.append(s)
    for k in range(ctx.n(250, 3000)):
        z = rng.randrange(2)
        n = rng.randint(1, 7) if k % 16 else rng.choice([12, 17, 33, 40])

        def val(zero=.2):
            return [0, 0] if rng.random() < zero else [rng.randint(-3, 3), rng.randint(-3, 3) if z else 0]
        s = [{"e": "S", "z": z, "kind": 0, "cache": 1, "cols": 1}]
        # python keeps which vectors are sorted, their length, the pairs, and a bound on the entries
        vec = [[False, 0, [], 0] for _ in range(3)]

        def comp(ps):
            o = {}
            for i, v in ps:
                a = o.get(i, (0, 0))
                o[i] = (a[0] + v[0], a[1] + v[1])
            return [(i, v) for i, v in sorted(o.items()) if v != (0, 0)]
        for d in range(3):
            if rng.random() < .5:
                v = [val(.4) for _ in range(n)]
                s.append({"e": "vfrom", "d": d, "v": v})
                vec[d] = [False, n, [(i, tuple(x)) for i, x in enumerate(v) if x != [0, 0]], 0]
            else:
                s.append({"e": "vnew", "d": d, "len": n})
                vec[d] = [False, n, [], 0]
        for _ in range(rng.randint(8, 30)):
            d, a = rng.randrange(3), rng.randrange(3)
            k = rng.choice(["vadd"] * 6 + ["vsort"] * 5 + ["vsub", "vsub", "vscale", "vscaled", "vcopy", "vclear", "vchunk", "vresize", "vfrom"] +
                           ["veq"] * 3 + ["vdot"] * 3 + ["vone"] + ["vtochunk"] * 3 + ["vpart"] * 3)
            D, A = vec[d], vec[a]
            small = all(abs(x) < 50 for v in vec for _, y in v[2] for x in y)
            if k == "vadd":
                i, v = rng.randrange(n), val()
                s.append({"e": k, "d": d, "i": i, "s": v})
                D[0] = False
                D[2] = D[2] + [(i, tuple(v))]
            elif k == "vsort":
                s.append({"e": k, "d": d})
                D[0], D[2] = True, comp(D[2])
            elif k == "vsub" and d != a and len(D[2]) < 30:
                s.append({"e": k, "d": d, "a": a})
                D[0], D[2] = False, D[2] + [(i, (-v[0], -v[1])) for i, v in A[2]]
            elif k in ("vscale", "vscaled") and small:
                f = val()
                if k == "vscale":
                    a, A = d, D
                new = [(i, (v[0] * f[0] - v[1] * f[1], v[0] * f[1] + v[1] * f[0])) for i, v in A[2]]
                if f == [0, 0]:
                    continue    # zeros stored: sorted vectors would hold them
                s.append({"e": "vscale", "d": d, "s": f} if k == "vscale" else {"e": k, "d": d, "a": a, "s": f})
                vec[d] = [A[0], A[1], new, 0]
            elif k == "vcopy":
                s.append({"e": k, "d": d, "a": a})
                vec[d] = [A[0], A[1], list(A[2]), 0]
            elif k == "vclear":
                s.append({"e": k, "d": d})
                vec[d] = [False, D[1], [], 0]
            elif k == "vresize":
                s.append({"e": k, "d": d, "len": n})
                vec[d] = [False, n, [], 0]
            elif k == "vfrom":
                v = [val(.4) for _ in range(n)]
                s.append({"e": k, "d": d, "v": v})
                vec[d] = [False, n, [(i, tuple(x)) for i, x in enumerate(v) if x != [0, 0]], 0]
            elif k == "vchunk":
                m = rng.randint(0, n)
                off = rng.randint(0, n - m)
                v = [val(.4) for _ in range(m)]
                s.append({"e": k, "d": d, "v": v, "off": off, "total": n})
                vec[d] = [False, n, [(i + off, tuple(x)) for i, x in enumerate(v)], 0]
            elif k in ("veq", "vdot") and (A[0] and D[0]) and small:
                s.append({"e": k, "a": d, "b": a})
            elif k == "vone" and A[0]:
                s.append({"e": k, "a": a})
            elif k == "vtochunk" and A[0] and A[2]:
                lo, hi = A[2][0][0], A[2][-1][0]
                if rng.random() < .6:
                    i0 = rng.randint(0, lo)
                    s.append({"e": k, "a": a, "i0": i0, "total": rng.randint(hi - i0 + 1, n - i0), "test": rng.randrange(2), "old": rng.randint(0, n)})
                else:
                    s.append({"e": k, "a": a, "i0": rng.randint(0, n - 1), "total": rng.randint(0, n), "test": 1, "old": 0})
            elif k == "vpart" and A[0] and A[2]:
                cuts = sorted(rng.sample(range(1, n), rng.randint(0, n - 1))) if n > 1 else []
                s.append({"e": k, "a": a, "chunk": rng.randrange(2), "parts": [0] + cuts + [n], "old": rng.choice([0, 3, rng.randint(0, n)])})
        ss.append(s)
    # few entries in a long vector
    for _ in range(ctx.n(8, 60)):
        n = rng.choice([40, 100, 257, 400])
        s = [{"e": "S", "z": rng.randrange(2), "kind": 0, "cache": 1, "cols": 1}, {"e": "vnew", "d": 0, "len": n}]
        ii = sorted(rng.sample(range(n), rng.randint(1, 3)))
        s += [{"e": "vadd", "d": 0, "i": i, "s": [rng.randint(1, 5), 0]} for i in rng.sample(ii, len(ii))] + [{"e": "vsort", "d": 0}]
        i0 = rng.randint(0, ii[0])
        s.append({"e": "vtochunk", "a": 0, "i0": i0, "total": rng.randint(max(ii[-1], n - 5) - i0 + 1, n - i0), "test": rng.randrange(2), "old": n})
        s.append({"e": "vpart", "a": 0, "chunk": 1, "parts": [0] + sorted(rng.sample(range(1, n), rng.randint(0, 30))) + [n], "old": n})
        s.append({"e": "vpart", "a": 0, "chunk": 1, "parts": [0, n], "old": n})
        ss.append(s)
        # many entries: copies, equal but for the last ones, taken off, copied into chunks
        n = rng.choice([30, 60])
        v = [[rng.choice([1, -1, 2, 3]), 0] if rng.random() < .8 else [0, 0] for _ in range(n)]
        w = [x[:] for x in v]
        i = rng.randrange(n - 8, n)
        w[i][0] += rng.choice([0, 1])
        s = [{"e": "S", "z": rng.randrange(2), "kind": 0, "cache": 1, "cols": 1}, {"e": "vfrom", "d": 0, "v": v}, {"e": "vfrom", "d": 1, "v": w}]
        s += [{"e": "vsort", "d": 0}, {"e": "vsort", "d": 1}, {"e": "veq", "a": 0, "b": 1}, {"e": "vdot", "a": 0, "b": 1}]
        s += [{"e": "vtochunk", "a": 0, "i0": 0, "total": n, "test": 1, "old": rng.choice([0, n])}, {"e": "vscale", "d": 1, "s": [2, 0]},
              {"e": "vsub", "d": 1, "a": 0}, {"e": "vsort", "d": 1}, {"e": "vdot", "a": 0, "b": 1}]
        ss.append(s)
    return [dict(driver="s04", trace="TraceS04", sessions=ss)]
