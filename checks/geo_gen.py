"""Inputs for the geometry driver: parameter records of Lattice.tla and the labels the code reads."""
from vf.core import Tag


def dirs(p):
    return {"ladder": 2, "ladderx": 4, "ktwoniffour": 4, "ladderbath": 3, "Honeycomb": 3}.get(p["kind"], 1)


def per(p):
    return p["py"] == 1 and p["leg"] != 2


def size(p, k):
    """how many couplings to offer for a direction (the specification says how many it takes)"""
    def lad(L):
        l = max(p["leg"], 1)
        if k == 0:
            return L if p["px"] == 1 else max(L - l, 0)
        return L if per(p) else L - L // l
    if p["const"]:
        return 1
    if p["kind"] in ("chain", "longchain"):
        return p["L"] if p["px"] == 1 else max(p["L"] - p["d"], 0)
    if p["kind"] == "star":
        return p["L"] - 1
    if p["kind"] == "ladderbath":
        c = p["L"] // (1 + p["b"])
        return p["b"] * c if k == 2 else lad(c)
    if p["kind"] == "ladderx" and k > 1:
        return p["L"] - p["leg"]
    return lad(p["L"])


def base(**kw):
    p = {"kind": "chain", "L": 4, "leg": 1, "px": 0, "py": 0, "d": 1, "b": 0, "ly": 1, "sgn": 1, "orb": 1, "const": 0, "junk": 0}
    p.update(kw)
    return p


def fill(rng, p, cplx):
    """couplings for p"""
    def z():
        return [rng.randint(-9, 9), rng.randint(-9, 9) if cplx else 0]
    o = p["orb"]
    if p["kind"] in ("LongRange", "General"):
        n = p["L"] * o
        t = rng.choice(["u", "full", "sparse"])
        p["data"] = [[[[z() if (t == "full" or (i < j and (t == "u" or rng.random() < .4))) else [0, 0] for j in range(n)] for i in range(n)]]]
    else:
        p["data"] = [[[[z() for _ in range(o)] for _ in range(o)] for _ in range(max(size(p, k), 1 if o > 1 else 0))] for k in range(dirs(p))]


def num(z, cplx):
    return "(%d,%d)" % tuple(z) if cplx else str(z[0])


def labels(rng, ps, cplx, version, form=None):
    out = [["TotalNumberOfSites", str(ps[0]["L"])], ["NumberOfTerms", str(len(ps))]]
    for t, p in enumerate(ps):
        pre = "gt%d:" % t if len(ps) > 1 else ""
        l = []
        if p["orb"] != 1 or p["kind"] in ("LongRange", "General") or rng.random() < .5:
            l.append(["DegreesOfFreedom", str(p["orb"])])
        l += [["GeometryKind", p["kind"]], ["GeometryOptions", "ConstantValues" if p["const"] else "none"]]
        if p["kind"] in ("chain", "longchain", "ladder", "ladderx", "ladderbath", "Honeycomb"):
            if p["px"] == 1 or rng.random() < .5:
                l.append(["IsPeriodicX", str(p["px"])])
            if p["py"] != -1 and p["kind"] not in ("chain", "longchain") and not (p["py"] == 0 and p["leg"] <= 2 and p["kind"] != "Honeycomb" and rng.random() < .6):
                l.append(["IsPeriodicY", str(p["py"])])
        if p["kind"].startswith("ladder"):
            l.append(["LadderLeg", str(p["leg"])])
        if p["kind"] == "ladderbath":
            l.append(["BathSitesPerSite", str(p["b"])])
        if p["kind"] == "Honeycomb":
            l.append(["HoneycombLy", str(p["ly"])])
        if p["kind"] == "ktwoniffour":
            l.append(["SignChange", str(p["sgn"])])
        if p["kind"] in ("chain", "longchain") and (p["d"] != 1 or rng.random() < .5):
            l.append(["LongChainDistance", str(p["d"])])
        if p["kind"] in ("LongRange", "General"):
            m = p["data"][0][0]
            n = len(m)
            if form == "compact":
                l[[x[0] for x in l].index("GeometryOptions")][1] = "compact"
                rows = [([i // p["orb"], i % p["orb"], j // p["orb"], j % p["orb"]] if p["orb"] > 1 else [i, j], m[i][j]) for i in range(n) for j in range(n) if m[i][j] != [0, 0]]
                rng.shuffle(rows)
                txt = [[num([a, 0], cplx) for a in r[0]] + [num(r[1], cplx)] for r in rows]
                if p.get("junk") and txt:
                    # a site or orbital that is not a whole number
                    r = rng.randrange(len(txt))
                    k = rng.randrange(len(rows[r][0]))
                    a = rows[r][0][k]
                    txt[r][k] = "(%d,%d)" % (a, rng.choice([1, -1])) if cplx and rng.random() < .7 else ("(%d.5,0)" if cplx else "%d.5") % a
                else:
                    p["junk"] = 0
                l.append(["Connectors", " ".join([str(len(rows)), "5" if p["orb"] > 1 else "3"] + [" ".join(r) for r in txt])])
            elif form == "entangler":
                l.append(["GeometryEntangler", str(m[0][1][0])])
            else:
                l.append(["Connectors", " ".join([str(n), str(len(m[0]) if m else 0)] + [num(z, cplx) for r in m for z in r])])
            l.append(["GeometryMaxConnections", str(rng.randint(0, 5))])
        else:
            for k, d in enumerate(p["data"]):
                lab = "dir%d:Connectors" % k
                if p["orb"] == 1:
                    l.append([lab, " ".join([str(len(d))] + [num(m[0][0], cplx) for m in d])])
                else:
                    for q, m in enumerate(d):
                        l.append([lab + (str(q) if version > 2 and len(d) > 1 else ""), " ".join(["%d %d" % (len(m), len(m[0]) if m else 0)] + [num(z, cplx) for r in m for z in r])])
        out += [[pre + a, b] for a, b in l]
    return [w for x in out for w in x]


def mk(rng, ps, cplx=0, version=None, form=None, filled=False):
    if not filled:
        for p in ps:
            fill(rng, p, cplx)
    v = rng.choice([1, 3]) if version is None else version
    return {"e": "mk", "cplx": cplx, "ver": v, "labels": labels(rng, ps, cplx, v, form), "_p": [dict(p, kind=Tag(p["kind"])) for p in ps]}


def numbered(p):
    return p["kind"] in ("chain", "longchain", "ladder", "ladderbath", "star") or (p["kind"] == "ladderx" and p["leg"] == 2)


def pick(rng, big=False):
    """a lattice, most of the time a sound one"""
    k = rng.choice(["chain", "longchain", "ladder", "ladder", "ladderx", "ladderbath", "star", "Honeycomb", "ktwoniffour", "LongRange", "General"])
    p = base(kind=k, px=rng.randint(0, 1), py=rng.randint(0, 1), const=rng.randint(0, 1))
    m = 2 if big else 1
    if k in ("chain", "longchain", "star", "ktwoniffour", "LongRange", "General"):
        p["L"] = rng.randint(1 if k != "star" else 2, (8 if "R" in k or k == "General" else 14) * m)
        if k.endswith("chain"):
            p["d"] = rng.randint(1, p["L"] - 1) if p["L"] > 1 and rng.random() < .6 else 1
        if p["L"] == 1 and k.endswith("chain"):
            p["px"] = 0
    elif k == "Honeycomb":
        p["ly"] = rng.choice([2, 4, 4, 6, 8, 12])
        p["L"] = p["ly"] * rng.randint(1, 4 * m)
    else:
        p["leg"] = rng.choice([1, 2, 2, 3, 4, 5]) if k != "ladderx" or rng.random() < .4 else 2
        p["b"] = rng.randint(0, 3) if k == "ladderbath" else 0
        p["L"] = p["leg"] * rng.randint(1, 6 * m) * (1 + p["b"])
        if p["leg"] == 2 and rng.random() < .8:
            p["py"] = 0
    if k == "ktwoniffour":
        p["orb"] = rng.choice([2, 2, 1])
        p["sgn"] = rng.choice([1, -1])
        p["L"] = max(p["L"], 2)
    if not numbered(p) and k not in ("LongRange", "General"):
        p["const"] = 1
    if k in ("LongRange", "General"):
        p["const"] = 0
    return p


def looks(p):
    """the operations to look at the graph of a one-term geometry"""
    want = 0 if p["kind"] == "ladderx" and p["leg"] != 2 else 2 if numbered(p) else 1
    return [{"e": "graph", "t": 0, "want": want}]
