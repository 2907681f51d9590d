"""DenseLA.tla specifies column-major storage, every operation and lazy expression over exact Gaussian
integers and a machine of three matrix and three vector registers; MCDense.tla shows for all pairs of
small matrices that the design on the storage gives the meaning and that the algebraic laws hold.
Every enumerated pair goes through all operations that fit, and random histories over real and complex
registers (aliased operands, refused shapes, views) run on the real classes; TLC compares all registers
and every returned value after each call."""
from vf.core import *
from checks import sparse_gen as sg
DRIVERS = [Driver("d01", "d01.cpp", lib=["Io/TypeToH5.cpp"], libs=HDF5)]
MOPS = ["sA", "As", "A+B", "A-B", "A+sB", "sA+B", "s(A+B)", "s(A-B)", "AB", "sAB", "ctorAB", "ctorsAB", "ctors(A+B)", "+=sA", "+=As", "+=A", "-=A",
        "*=s", "conj", "setTo", "identity", "dag", "dagf", "trans", "AhB", "AtB", "outer", "rotate", "copy", "clear"]
VOPS = ["sv", "vs", "s(tv)", "v+w", "v+sw", "sw+v", "s(v+w)", "sum4", "v-w", "v-sw", "s(v-w)", "v-sw+tx", "+=v", "-=v", "+=sv", "-=sv", "*=s", "rsv", "isv", "r+=sv", "r*=s", "copy"]


def models(ctx):
    c = """SPECIFICATION Spec
CONSTANTS MaxD = 2 Vals = {%s} EmitUpTo = %d
INVARIANTS Storage Elementwise Widen Laws
"""
    return [dict(module="MCDense", cfg=c % (("0, 2", 8), ("0, 1, 2", 8))[ctx.thorough], workers=4)]


class Gen:
    def __init__(self, rng, z, maxd, big=()):
        self.rng, self.z, self.maxd, self.big = rng, z, maxd, big
        self.m = [(0, 0, 0)] * 3
        self.v = [(0, 0)] * 3
        self.ops = [{"e": "S", "z": int(z)}]

    def val(self):
        return sg.val(self.rng, self.z)

    def mset(self, d, r, c):
        m = sg.mat(self.rng, r, c, self.z)
        self.ops.append({"e": "mset", "d": d, "rows": r, "cols": c, "a": sg.flat(m)})
        self.m[d] = (r, c, 5)

    def mop(self, k, d, a, b, s):
        """appends the operation if it fits; s real for the scaled constructors"""
        D, A, B = self.m[d], self.m[a], self.m[b]
        sb = 2 * (abs(s[0]) + abs(s[1]))
        lim = 20000
        same = A[:2] == B[:2]
        ne = A[0] and A[1]
        if k in ("A+B", "A-B", "A+sB", "sA+B", "s(A+B)", "s(A-B)", "ctors(A+B)"):
            if not same:
                return False
            new = (A[0], A[1], (1 + sb) * (A[2] + B[2]))
        elif k in ("AB", "sAB", "ctorAB", "ctorsAB"):
            if A[1] != B[0]:
                return False
            new = (A[0], B[1], 2 * max(1, sb) * A[1] * A[2] * B[2])
        elif k in ("AhB", "AtB"):
            if A[0] != B[0]:
                return False
            new = (A[1], B[1], 2 * A[0] * A[2] * B[2])
        elif k in ("+=sA", "+=As"):
            if D[0] * D[1] == 0:
                if not ne:
                    return False
                new = (A[0], A[1], sb * A[2])
            elif D[:2] == A[:2]:
                new = (D[0], D[1], D[2] + sb * A[2])
            elif D[0] * D[1] != A[0] * A[1]:
                new = D
            else:
                return False
        elif k in ("+=A", "-=A"):
            if D[:2] != A[:2]:
                return False
            new = (D[0], D[1], D[2] + A[2])
        elif k == "*=s":
            new = (D[0], D[1], sb * D[2])
        elif k in ("sA", "As"):
            new = (A[0], A[1], sb * A[2])
        elif k in ("conj",):
            new = D
        elif k == "setTo":
            new = (D[0], D[1], 5)
        elif k == "identity":
            new = D if D[0] != D[1] else (D[0], D[1], 1)
        elif k in ("dag", "trans"):
            if d == a:
                return False
            new = D if D[0] > 0 and D[0] != A[1] else (A[1], A[0], A[2])
        elif k == "dagf":
            new = (A[1], A[0], A[2])
        elif k == "outer":
            if d in (a, b) or A[0] * B[0] > (45 if self.big else 9) or A[1] * B[1] > (45 if self.big else 9):
                return False
            new = D if D[0] > 0 and D[0] != A[0] * B[0] else (A[0] * B[0], A[1] * B[1], 2 * A[2] * B[2])
        elif k == "rotate":
            if d == a or D[0] != D[1] or D[0] == 0 or A[0] != D[0] or A[1] == 0:
                return False
            new = (A[1], A[1], 8 * D[0] * D[0] * A[2] * A[2] * D[2])
        elif k == "copy":
            new = A
        elif k == "clear":
            new = (0, 0, 0)
        if new[2] > lim:
            return False
        self.m[d] = new
        self.ops.append({"e": "mop", "k": Tag(k), "d": d, "a": a, "b": b, "s": s})
        return True

    def step(self):
        rng = self.rng
        k = rng.choice(["mset"] * 4 + ["turn"] + ["mlike"] * 3 + ["mop"] * 24 + ["mdata", "mresize", "mresizev", "mswap", "mput", "mget", "viewv", "minfo", "minfo", "minfo"] +
                       ["toreal"] + ["vset"] * 4 + ["vlike"] * 2 + ["vop"] * 16 + ["muldiv", "Av", "Av", "vA", "vA", "vvv", "dot", "dot", "vinfo"])
        d, a, b, c = (rng.randrange(3) for _ in range(4))
        D, A = self.m[d], self.m[a]
        dim = lambda lo=1: rng.choice(self.big) if self.big else rng.randint(lo, self.maxd)
        s = self.val() if rng.random() < .7 else rng.choice([[1, 0], [-1, 0], [0, 0]])
        ap = self.ops.append
        if k == "mset":
            r = dim()
            self.mset(d, r, rng.choice([r, dim(), 1]))
        elif k == "turn" and a != d:        # a square one and a transform with more or fewer columns
            r = dim()
            self.mset(d, r, r)
            self.mset(a, r, dim())
            self.mop("rotate", d, a, b, s)
        elif k == "mlike" and A[0] and A[1]:
            self.mset(d, A[0], A[1]) if rng.random() < .6 else self.mset(d, A[1], dim())
        elif k == "mop":
            for _ in range(6):
                k2 = rng.choice(MOPS)
                if k2 == "clear" and rng.random() < .7:
                    continue
                s2 = [s[0], 0] if k2 in ("ctorsAB",) else s
                if self.mop(k2, d, a, b, s2):
                    break
        elif k == "mdata":
            r, cc = dim(), dim()
            n = r * cc + rng.choice([0, 0, 0, 1, -1])
            ap({"e": k, "d": d, "rows": r, "cols": cc, "a": [self.val() for _ in range(n)]})
            if n >= r * cc:
                self.m[d] = (r, cc, 6)
        elif k == "mresize":
            r, cc = rng.choice([D[0], D[0], dim()]), dim(0)
            ap({"e": k, "d": d, "rows": r, "cols": cc})
            if not (D[0] > 0 and D[0] != r):
                self.m[d] = (r, cc, D[2])
        elif k == "mresizev":
            r = D[0] if D[0] * D[1] else dim()
            cc = dim()
            ap({"e": k, "d": d, "rows": r, "cols": cc, "s": s})
            self.m[d] = (r, cc, max(D[2], 6))
        elif k == "mswap":
            ap({"e": k, "d": d, "a": a})
            self.m[d], self.m[a] = self.m[a], self.m[d]
        elif k in ("mput", "mget") and D[0] and D[1]:
            i, j = rng.randrange(D[0]), rng.randrange(D[1])
            if k == "mput":
                ap({"e": k, "d": d, "i": i, "j": j, "s": s, "view": rng.randrange(2)})
                self.m[d] = (D[0], D[1], max(D[2], 6))
            else:
                ap({"e": k, "a": d, "i": i, "j": j, "view": rng.randrange(2)})
        elif k == "viewv" and self.v[d][0] > 1:
            n = self.v[d][0]
            r = rng.randint(1, n)
            cc = rng.randint(1, n // r)
            off = rng.randint(0, n - r * cc)
            ap({"e": k, "d": d, "rows": r, "cols": cc, "off": off, "i": rng.randrange(r), "j": rng.randrange(cc), "s": s})
            self.v[d] = (n, max(self.v[d][1], 6))
        elif k == "minfo" and A[2] < 1500:
            ap({"e": k, "a": a, "b": b})
        elif k == "toreal" and self.z:
            r, cc = dim(), dim()
            ap({"e": k, "d": d, "rows": r, "cols": cc, "a": sg.flat(sg.mat(rng, r, cc, False))})
            self.m[d] = (r, cc, 6)
        elif k in ("vset", "vlike"):
            n = self.v[a][0] if k == "vlike" else rng.choice([dim() if self.big else rng.randint(0, 6), A[0], A[1]])
            ap({"e": "vset", "d": d, "v0": [self.val() for _ in range(n)]})
            self.v[d] = (n, 6)
        elif k == "vop":
            for _ in range(5):
                k2 = rng.choice(VOPS)
                t, p, q = self.val(), self.val(), self.val()
                V = self.v
                need = {"v+w": [b], "v+sw": [b], "sw+v": [b], "s(v+w)": [b], "sum4": [b, c, d], "v-w": [b], "v-sw": [b], "s(v-w)": [b], "v-sw+tx": [b, c],
                        "+=v": [d], "-=v": [d], "+=sv": [d], "-=sv": [d], "r+=sv": [d]}.get(k2, [])
                if k2 in ("*=s", "r*=s"):
                    n, bb = V[d][0], 12 * V[d][1]
                else:
                    if any(V[q2][0] != V[a][0] for q2 in need):
                        continue
                    n, bb = V[a][0], 12 * sum(V[q2][1] for q2 in [a] + need) * (12 if k2 == "s(tv)" else 1)
                if bb > 20000:
                    continue
                ap({"e": "vop", "k": Tag(k2), "d": d, "a": a, "b": b, "c": c, "s": s, "t": t, "p": p, "q": q})
                V[d] = (n, bb)
                break
        elif k == "muldiv" and self.v[d][1] < 500 and s != [0, 0]:
            s = [s[0] or s[1], 0]
            for k2 in ("*=s", "/=s"):
                ap({"e": "vop", "k": Tag(k2), "d": d, "a": d, "b": d, "c": d, "s": s, "t": s, "p": s, "q": s})
        elif k in ("Av", "vA"):
            n = A[1] if k == "Av" else A[0]
            w = [q for q in range(3) if self.v[q][0] == n and q != d]
            if w and A[0] and A[1]:
                b = rng.choice(w)
                bb = 2 * n * A[2] * self.v[b][1]
                if bb < 20000:
                    ap({"e": k, "d": d, "a": a, "b": b})
                    self.v[d] = (A[0] if k == "Av" else A[1], bb)
        elif k == "vvv" and self.v[b][0] and self.v[b][1] < 2000:
            n = self.v[b][0]
            if n < 6 or self.big:
                ap({"e": k, "rows": n, "cols": n, "a": sg.flat(sg.mat(rng, n, n, self.z)), "b": b})
        elif k == "dot" and self.v[a][1] < 1000 and self.v[b][1] < 1000:
            ap({"e": k, "a": a, "b": b})
        elif k == "vinfo" and self.v[a][1] < 1000:
            ap({"e": k, "a": a, "s": s})


def large(rng, z):
    """every operation on registers of 13 and more rows and columns, with values that stay small"""
    n, m = rng.sample([13, 14, 15, 17], 2)
    g = Gen(rng, z, 6, [13])
    one = lambda: [rng.choice([1, -1, 2]), rng.choice([0, 1]) if z else 0]

    def put(d, r, c, dense=True):
        g.ops.append({"e": "mset", "d": d, "rows": r, "cols": c, "a": [one() if dense or rng.random() < .3 else [0, 0] for _ in range(r * c)]})
        g.m[d] = (r, c, 3)
    for k in rng.sample(MOPS, len(MOPS)):
        if k in ("rotate", "clear"):
            continue
        put(0, n, m)
        if k in ("A+B", "A-B", "A+sB", "sA+B", "s(A+B)", "s(A-B)", "ctors(A+B)"):
            put(1, n, m)
        elif k in ("AB", "sAB", "ctorAB", "ctorsAB"):
            put(1, m, n)
        elif k in ("AhB", "AtB"):
            put(1, n, m)
        elif k == "outer":
            put(1, *rng.choice([(1, 2), (2, 1)]))
        if k in ("+=sA", "+=As", "+=A", "-=A", "*=s", "conj", "setTo"):
            put(2, n, m)
        elif k == "identity":
            put(2, n, n)
        elif g.m[2][0]:
            g.mop("clear", 2, 0, 0, [1, 0])
        g.mop(k, 2, 0, 1, [rng.choice([2, -1]), 0])
    for kind in rng.sample(["herm", "anti", "id", "zero"], 2):   # nearly so, but for a late entry
        a = [[[0, 0] for _ in range(n)] for _ in range(n)]
        s = -1 if kind == "anti" else 1
        for i in range(n):
            for j in range(i + 1):
                if kind == "id" and i == j:
                    a[i][j] = [1, 0]
                elif kind in ("herm", "anti") and rng.random() < .4:
                    x = one()
                    x = x if i != j else [x[0], 0] if s == 1 else [0, x[1]]
                    a[i][j], a[j][i] = x, [s * x[0], -s * x[1]] if i != j else x
        if rng.random() < .6:
            i, j = rng.randint(12, n - 1), rng.choice([rng.randrange(12), rng.randint(12, n - 1)])
            i, j = rng.choice([(i, j), (j, i)])
            a[i][j] = [a[i][j][0] + 1, a[i][j][1]]
        g.ops.append({"e": "mset", "d": 0, "rows": n, "cols": n, "a": sg.flat(a)})
        g.m[0] = (n, n, 5)
        g.ops.append({"e": "minfo", "a": 0, "b": 0})
    b = rng.choice([n, m])
    for k in rng.sample(VOPS, len(VOPS)):
        for d in range(3):
            g.ops.append({"e": "vset", "d": d, "v0": [one() for _ in range(b)]})
        g.ops.append({"e": "vop", "k": Tag(k), "d": rng.randrange(3), "a": 0, "b": 1, "c": 2, "s": one(), "t": one(), "p": one(), "q": one()})
    for k in ("Av", "vA"):
        put(0, n, m)
        g.ops.append({"e": "vset", "d": 0, "v0": [one() for _ in range(m if k == "Av" else n)]})
        g.ops.append({"e": k, "d": 1, "a": 0, "b": 0})
    g.ops.append({"e": "vset", "d": 0, "v0": [one() for _ in range(n)]})
    g.ops.append({"e": "vset", "d": 1, "v0": [one() for _ in range(n)]})
    g.ops += [{"e": "vvv", "rows": n, "cols": n, "a": [one() for _ in range(n * n)], "b": 0}, {"e": "dot", "a": 0, "b": 1}, {"e": "vinfo", "a": 0, "s": [2, 0]}]
    return g.ops


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = ctx.emitted["MCDense"]
    rng.shuffle(em)
    for x in em[:ctx.n(500, 6000)]:
        z = any(v[1] for v in x["a"] + x["b"])
        g = Gen(rng, z, 3)
        for d, r, c, k in ((0, x["ar"], x["ac"], "a"), (1, x["br"], x["bc"], "b")):
            g.ops.append({"e": "mset", "d": d, "rows": r, "cols": c, "a": x[k]})
            g.m[d] = (r, c, 2)
        g.ops.append({"e": "minfo", "a": 0, "b": 1})
        for k in MOPS:
            if k not in ("clear", "rotate") and not k.startswith(("+=", "-=", "*=", "conj", "setTo", "identity")):
                if k in ("dag", "trans", "outer"):
                    g.mop("clear", 2, 0, 0, [1, 0])
                g.mop(k, 2, 0, 1, [2, 0])
        ss.append(g.ops)
    for k in range(ctx.n(220, 3000)):
        g = Gen(rng, k % 2 == 1, rng.choice([2, 3, 4, 6]))
        n = rng.randint(20, 50)
        while len(g.ops) < n:
            g.step()
        ss.append(g.ops)
    for k in range(ctx.n(12, 100)):                  # a few large ones
        g = Gen(rng, k % 2 == 1, 6, rng.sample([1, 9, 12, 16, 17, 20, 33, 40], 2))
        while len(g.ops) < 14:
            g.step()
        ss.append(g.ops)
    ss += [large(rng, k % 2 == 1) for k in range(ctx.n(4, 40))]
    return [dict(driver="d01", trace="TraceD01", sessions=ss)]
