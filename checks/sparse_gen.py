"""Random and enumerated histories of sparse-matrix operations (scripts for harness/sparse.cpp)."""
LIM = 20000


def val(rng, z, mag=3):
    return [rng.randint(-mag, mag), rng.randint(-mag, mag) if z else 0]


def mat(rng, r, c, z, kind=None):
    kind = kind or rng.choice(["any", "any", "sparse", "sparse", "herm", "anti", "diag", "id", "zero"])
    if r != c and kind in ("herm", "anti", "diag", "id"):
        kind = "sparse"
    m = [[[0, 0] for _ in range(c)] for _ in range(r)]
    for i in range(r):
        for j in range(c):
            if kind == "any" or (kind == "sparse" and rng.random() < .4) or (kind == "diag" and i == j):
                m[i][j] = val(rng, z)
            if kind == "id" and i == j:
                m[i][j] = [1, 0]
            if kind in ("herm", "anti") and i >= j and rng.random() < .7:
                x = val(rng, z)
                s = 1 if kind == "herm" else -1
                if i == j:
                    x = [x[0], 0] if s == 1 else [0, x[1]]
                m[i][j] = x
                m[j][i] = [s * x[0], -s * x[1]] if i != j else x
    if kind in ("herm", "id", "anti") and rng.random() < .3 and r:   # nearly so
        m[rng.randrange(r)][rng.randrange(c)] = val(rng, z)
    if rng.random() < .3 and r > 1:                    # an empty row or column
        if rng.random() < .5:
            m[rng.choice([0, r - 1, rng.randrange(r)])] = [[0, 0] for _ in range(c)]
        elif c:
            k = rng.randrange(c)
            for row in m:
                row[k] = [0, 0]
    return m


def wide(rng, r, c, z):
    """a large matrix: a few entries, many of them late, some rows full"""
    m = [[[0, 0] for _ in range(c)] for _ in range(r)]
    herm = r == c and rng.random() < .3
    for _ in range(rng.choice([r, 2 * r, 3 * r])):
        i, j = rng.randrange(r), rng.randrange(c)
        if rng.random() < .3:
            i, j = r - 1 - rng.randrange(min(r, 3)), c - 1 - rng.randrange(min(c, 3))
        m[i][j] = val(rng, z, 2)
    if rng.random() < .5:
        i = rng.randrange(r)
        m[i] = [val(rng, z, 2) for _ in range(c)]
    if herm:
        for i in range(r):
            m[i][i][1] = 0
            for j in range(i):
                m[i][j] = [m[j][i][0], -m[j][i][1]]
    return m


def flat(m):
    return [x for row in m for x in row]


def entries(rng, m, shuffle_cols=True, zeros=.1):
    rr, cc, vv = [], [], []
    for i, row in enumerate(m):
        cols = [j for j in range(len(row)) if row[j] != [0, 0] or rng.random() < zeros]
        if shuffle_cols:
            rng.shuffle(cols)
        for j in cols:
            rr.append(i)
            cc.append(j)
            vv.append(row[j])
    return rr, cc, vv


def bound(m):
    return max([abs(x[0]) + abs(x[1]) for x in flat(m)] + [0])


def build(d, m, rng):
    rr, cc, vv = entries(rng, m)
    r, c = len(m), len(m[0])
    if rng.random() < .5:
        return {"e": "build", "d": d, "rows": r, "cols": c, "how": rng.randrange(3), "rr": rr, "cc": cc, "vv": vv}
    return {"e": rng.choice(["dense", "fromfull"]), "d": d, "rows": r, "cols": c, "a": flat(m)}


def special(rng, z, text=False):
    """large matrices that are hermitian, antihermitian, diagonal, the identity, zero or equal but for
    an entry in a late row or column; sums of many matrices with full rows; large external products"""
    n = rng.choice([13, 14, 17, 20, 33])
    ops = [{"e": "S", "z": int(z)}]

    def struct(kind):
        m = [[[0, 0] for _ in range(n)] for _ in range(n)]
        for i in range(n):
            if kind in ("diag", "id"):
                m[i][i] = val(rng, z) if kind == "diag" else [1, 0]
            if kind in ("herm", "anti"):
                s = 1 if kind == "herm" else -1
                for j in range(i + 1):
                    if rng.random() < .3:
                        x = val(rng, z)
                        if i == j:
                            x = [x[0], 0] if s == 1 else [0, x[1]]
                        m[i][j] = x
                        m[j][i] = [s * x[0], -s * x[1]] if i != j else x
        if rng.random() < .5:                       # spoilt, late
            i, j = n - 1 - rng.randrange(max(1, n - 12)), rng.randrange(n)
            if rng.random() < .5:
                i, j = j, i
            m[i][j] = [m[i][j][0] + rng.choice([1, -2]), m[i][j][1]]
        return m
    for kind in rng.sample(["herm", "anti", "diag", "id", "zero", "herm", "anti"], 3):
        m = struct(kind)
        ops.append(build(0, m, rng))
        ops.append({"e": "pred", "a": 0})
        k = [i for i in range(n) for j in range(n) if m[i][j] != [0, 0]]
        m2 = [[x[:] for x in row] for row in m]
        if k and rng.random() < .6:
            i = k[-1]
            j = max(q for q in range(n) if m2[i][q] != [0, 0])
            m2[i][j] = [m2[i][j][0] + 1, m2[i][j][1]]
        ops += [build(1, m2, rng), {"e": "eq", "a": 0, "b": 1}, {"e": "todense", "a": 1, "how": rng.randrange(2)}]
    ops += [{"e": "diag", "d": 1, "n": n, "s": val(rng, z)}, {"e": "pred", "a": 1}, {"e": "todense", "a": 1, "how": 0}]
    full = [[val(rng, z, 2) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        if rng.random() < .7:
            full[i] = [[0, 0] for _ in range(n)] if rng.random() < .5 else [val(rng, z, 2) if rng.random() < .3 else [0, 0] for _ in range(n)]
    full[n - 1] = [[rng.choice([-2, -1, 1, 2]), 0] for _ in range(n)]
    ops.append(build(2, full, rng))
    w = [rng.choice([0, 1, 2]) for _ in range(rng.choice([1, 2, 13, 15, 18]))]
    ops.append({"e": "sum", "d": 3, "w": w, "f": [[rng.choice([1, -1, 2]), 0] for _ in w]})
    ops.append({"e": "plus", "d": 3, "a": 2, "s": [1, 0], "b": 0, "t": [rng.choice([1, -1]), 0]})
    if text:
        ops.append({"e": "text", "from": [2], "to": [3]})
    return ops


def bigtensor(rng, z):
    """external products with large factors, many copies and large blocks"""
    ops = [{"e": "S", "z": int(z)}]
    for a, b in ((rng.choice([13, 14, 17]), rng.choice([2, 3])), (rng.choice([2, 3]), rng.choice([13, 14, 17]))):
        for d, n in ((0, a), (1, b)):
            m = wide(rng, n, n, z)
            if rng.random() < .6:                   # one full row
                m[rng.randrange(n)] = [[rng.choice([1, -1, 2]), 0] for _ in range(n)]
            ops.append(build(d, m, rng))
        n = a * b
        for order in (0, 1):
            perm = list(range(n))
            rng.random() < .8 and rng.shuffle(perm)
            ops.append({"e": "ext2", "d": 2, "a": 0, "b": 1, "sg": [rng.choice([1, -1]) for _ in range(a if order else b)], "order": order, "perm": perm})
            ops.append({"e": "ext1", "d": 3, "a": 0, "nout": b, "sg": [rng.choice([1, -1]) for _ in range(b)], "order": order, "perm": perm})
        ops.append({"e": "block", "d": 2, "b": 0, "off": rng.randint(0, n - a)})
    return ops


class Gen:
    def __init__(self, rng, z, maxd=4, empties=False, big=()):
        self.rng, self.z, self.maxd, self.emp, self.big = rng, z, maxd, empties, big
        self.reg = [(0, 0, 0)] * 4
        self.ops = [{"e": "S", "z": int(z)}]
        self.names = set()

    def put(self, op, d=None, shape=None):
        self.ops.append(op)
        if d is not None:
            self.reg[d] = shape

    def dim(self):
        return self.rng.choice(self.big) if self.big else self.rng.randint(1, self.maxd)

    def create(self, d, r=None, c=None, kind=None):
        rng = self.rng
        r = r or self.dim()
        c = c or (r if rng.random() < .6 else self.dim())
        m = wide(rng, r, c, self.z) if self.big else mat(rng, r, c, self.z, kind)
        how = rng.choice(["dense", "fromfull", "trip", "build"])
        if how == "trip" and r != c:
            how = "build"
        if how in ("dense", "fromfull"):
            op = {"e": how, "d": d, "rows": r, "cols": c, "a": flat(m)}
        else:
            rr, cc, vv = entries(rng, m)
            if how == "trip":
                k = list(range(len(rr)))
                rng.shuffle(k)
                rr, cc, vv = [rr[i] for i in k], [cc[i] for i in k], [vv[i] for i in k]
                op = {"e": "trip", "d": d, "n": r, "rr": rr, "cc": cc, "vv": vv}
            else:
                op = {"e": "build", "d": d, "rows": r, "cols": c, "how": rng.randrange(3), "rr": rr, "cc": cc, "vv": vv}
        self.put(op, d, (r, c, bound(m)))

    def pairs(self, f):
        return [(a, b) for a in range(4) for b in range(4) if f(self.reg[a], self.reg[b])]

    def step(self, kinds):
        rng, reg = self.rng, self.reg
        k = rng.choice(kinds)
        d, a = rng.randrange(4), rng.randrange(4)
        A = reg[a]
        s, t = val(rng, self.z), val(rng, self.z)
        if rng.random() < .3:
            s = rng.choice([[1, 0], [-1, 0], [0, 0]])
        sb = abs(s[0]) + abs(s[1])
        if k == "create":
            self.create(d)
        elif k == "likethis":     # same shape as another, so that they can be combined
            if A[0] and A[1]:
                self.create(d, A[0], A[1])
        elif k == "clear":
            self.put({"e": "clear", "d": d}, d, (0, 0, 0))
        elif k == "empty":
            r, c = rng.randint(0 if self.emp else 1, self.maxd), rng.randint(0 if self.emp else 1, self.maxd)
            self.put({"e": "empty", "d": d, "rows": r, "cols": c, "how": rng.randrange(2)}, d, (r, c, 0))
        elif k == "diag":
            n = self.dim()
            v = rng.choice([[1, 0], [0, 0], s])
            self.put({"e": "diag", "d": d, "n": n, "s": v}, d, (n, n, 3))
        elif k in ("copy", "copyctor"):
            self.put({"e": k, "d": d, "a": a}, d, A)
        elif k == "swap":
            self.ops.append({"e": "swap", "d": d, "a": a})
            reg[d], reg[a] = reg[a], reg[d]
        elif k == "mul":
            p = self.pairs(lambda x, y: x[0] and x[1] and y[1] and x[1] == y[0] and 2 * x[1] * x[2] * y[2] < LIM)
            if p:
                a, b = rng.choice(p)
                self.put({"e": "mul", "d": d, "a": a, "b": b, "how": rng.randrange(2)}, d,
                         (reg[a][0], reg[b][1], 2 * reg[a][1] * reg[a][2] * reg[b][2]))
        elif k == "dag":
            self.put({"e": "dag", "d": d, "a": a}, d, (A[1], A[0], A[2]))
        elif k == "plus":
            p = self.pairs(lambda x, y: x[0] and x[1] and y[0] and y[1] and x[0] >= y[0] and x[1] >= y[1] and x[2] < LIM and y[2] < LIM)
            if p:
                a, b = rng.choice(p)
                if a == b and rng.random() < .5:
                    t = [-s[0], -s[1]]
                self.put({"e": "plus", "d": d, "a": a, "s": s, "b": b, "t": t}, d, (reg[a][0], reg[a][1], 6 * (reg[a][2] + reg[b][2])))
        elif k in ("pluseq", "plusseq"):
            p = self.pairs(lambda x, y: x[0] and x[0] == x[1] and y[0] and y[0] == y[1] and x[2] + y[2] < LIM)
            if p:
                d, a = rng.choice(p)
                n = max(reg[d][0], reg[a][0])
                if k == "pluseq":
                    self.put({"e": k, "d": d, "a": a}, d, (n, n, reg[d][2] + reg[a][2]))
                else:
                    self.put({"e": k, "d": d, "s": s, "a": a}, d, (n, n, reg[d][2] + 2 * sb * reg[a][2]))
        elif k == "plussmul":
            p = self.pairs(lambda x, y: x[0] and x[1] and x[0] == y[1] and y[0] == x[1] and 2 * x[1] * x[2] * y[2] < LIM)
            q = [e for e in range(4) if reg[e][0] and reg[e][0] == reg[e][1] and reg[e][2] < LIM]
            if p and q:
                a, b = rng.choice(p)
                d = rng.choice(q)
                n = max(reg[d][0], reg[a][0])
                self.put({"e": k, "d": d, "s": s, "a": a, "b": b}, d, (n, n, reg[d][2] + 4 * sb * reg[a][1] * reg[a][2] * reg[b][2]))
        elif k == "scaled":
            if A[2] < LIM:
                self.put({"e": k, "d": d, "s": s, "a": a, "how": rng.randrange(2)}, d, (A[0], A[1], 2 * sb * A[2]))
        elif k == "scale":
            if reg[d][2] < LIM:
                self.put({"e": k, "d": d, "s": s}, d, (reg[d][0], reg[d][1], 2 * sb * reg[d][2]))
        elif k == "sum":
            w = [q for q in range(4) if reg[q][0] and reg[q][1] and reg[q][2] < LIM]
            if w:
                w = [rng.choice(w) for _ in range(rng.randint(1, 4))]
                f = [val(rng, self.z, 2) for _ in w]
                self.put({"e": "sum", "d": d, "w": w, "f": f}, d,
                         (max(reg[q][0] for q in w), max(reg[q][1] for q in w), sum(4 * reg[q][2] for q in w)))
        elif k == "conj":
            self.put({"e": k, "d": d}, d, reg[d])
        elif k == "mtc":
            p = self.pairs(lambda x, y: x[0] and x[1] and y[0] and x[1] == y[1] and 2 * x[1] * x[2] * y[2] < 1000000)
            if p:
                a, b = rng.choice(p)
                self.put({"e": k, "a": a, "b": b})
        elif k == "todense":
            self.put({"e": k, "a": a, "how": rng.randrange(2)})
        elif k in ("mvp", "mv"):
            q = [e for e in range(4) if reg[e][0] and reg[e][1] and (k == "mv" or reg[e][0] == reg[e][1]) and reg[e][2] < 1000000]
            if q:
                a = rng.choice(q)
                x = [val(rng, self.z) for _ in range(reg[a][0] if k == "mvp" else rng.randint(0, 5))]
                y = [val(rng, self.z) for _ in range(reg[a][1])]
                self.put({"e": k, "a": a, "vx": x, "vy": y})
        elif k == "pred":
            if A[2] < 1000:
                self.put({"e": k, "a": a})
        elif k == "eq":
            b = rng.randrange(4)
            if rng.random() < .5 and A[0] and A[1]:   # two alike, or alike but for rows or columns of zeros
                m = mat(rng, A[0], A[1], self.z)
                rr, cc, vv = entries(rng, m)
                a, b = rng.sample(range(4), 2)
                mr, mc = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (0, 1)])
                if vv and rng.random() < .2:
                    mr, mc = 0, 0
                    q = rng.randrange(len(vv))
                    v2 = vv[:q] + [[vv[q][0] + 1, vv[q][1]]] + vv[q + 1:]
                else:
                    v2 = vv
                for d, r, c, v in ((a, A[0], A[1], vv), (b, A[0] + mr, A[1] + mc, v2)):
                    self.put({"e": "build", "d": d, "rows": r, "cols": c, "how": rng.randrange(3), "rr": rr, "cc": cc, "vv": v}, d, (r, c, bound(m) + 1))
            self.put({"e": k, "a": a, "b": b})
        elif k == "block":
            p = [q for q in self.pairs(lambda x, y: x[0] and x[1] and y[0] and y[1] and y[0] <= x[0] and y[1] <= x[1]) if q[0] != q[1]]
            if p:
                d, b = rng.choice(p)
                off = rng.randint(0, min(reg[d][0] - reg[b][0], reg[d][1] - reg[b][1]))
                self.put({"e": k, "d": d, "b": b, "off": off}, d, (reg[d][0], reg[d][1], reg[b][2]))
        elif k in ("ext1", "ext1bad"):
            q = [e for e in range(4) if reg[e][0] and (reg[e][0] == reg[e][1] if k == "ext1" else reg[e][0] != reg[e][1] and reg[e][1])]
            if q:
                a = rng.choice(q)
                nout = rng.randint(1, 3) if rng.random() < .8 else rng.randint(4, 6)
                n = nout * reg[a][0]
                if n <= (16 if not self.big else 120):
                    perm = list(range(n))
                    rng.random() < .8 and rng.shuffle(perm)
                    self.put({"e": "ext1", "d": d, "a": a, "nout": nout, "sg": [rng.choice([1, -1]) for _ in range(nout)], "order": rng.randrange(2), "perm": perm},
                             d if k == "ext1" else None, (n, n, reg[a][2]))
        elif k == "ext2":
            p = self.pairs(lambda x, y: x[0] and y[0] and x[0] == x[1] and y[0] == y[1] and x[0] * y[0] <= (12 if not self.big else 120) and 2 * x[2] * y[2] < LIM)
            if p:
                a, b = rng.choice(p)
                n = reg[a][0] * reg[b][0]
                perm = list(range(n))
                rng.random() < .8 and rng.shuffle(perm)
                order = rng.randrange(2)
                self.put({"e": k, "d": d, "a": a, "b": b, "sg": [rng.choice([1, -1]) for _ in range(reg[a][0] if order else reg[b][0])], "order": order, "perm": perm},
                         d, (n, n, 2 * reg[a][2] * reg[b][2]))
        elif k == "text":
            n = rng.randint(1, 3)
            fr = [rng.randrange(4) for _ in range(n)]
            to = rng.sample(range(4), n)
            new = [reg[q] for q in fr]
            self.put({"e": k, "from": fr, "to": to})
            for q, x in zip(to, new):
                reg[q] = x
        elif k == "hw":
            from vf.core import Tag
            name = rng.choice(["m", "Mat", "x1"])
            mode = rng.randint(1, 2) if name in self.names else 0
            self.names.add(name)
            self.files[name] = A
            self.put({"e": k, "a": a, "name": Tag(name), "mode": mode})
        elif k == "hr":
            from vf.core import Tag
            if self.names:
                name = rng.choice(sorted(self.names))
                self.put({"e": k, "d": d, "name": Tag(name)}, d, self.files[name])
    files = None


def history(rng, z, n, kinds, maxd=4, empties=False, big=()):
    g = Gen(rng, z, maxd, empties, big)
    g.files = {}
    for d in rng.sample(range(4), 2):
        g.create(d)
    while len(g.ops) < n:
        g.step(kinds)
    return g.ops
