"""Lattice.tla says which coupling of the input belongs to each pair of sites and orbitals (bond number, direction,
conjugate transpose for swapped sites, signs, general tables), how a growing lattice is coupled, and how sites are
split; MCLattice.tla shows that the code's walk through the sites lists each once, in that order.  Random coupling
tables (real and complex, one or several orbitals and terms, one value or one per bond, general, compact and
entangler tables) on all kinds of lattices and every split are run through the real Geometry and judged by TLC."""
from vf.core import *
from checks.geo_gen import *
DRIVERS = [Driver("geometry", "geometry.cpp", libs=HDF5, lib=["Concurrency.cpp", "PsimagLite.cpp", "Mpi.cpp", "MemResolv.cpp", "Io/TypeToH5.cpp"])]


def models(ctx):
    return [dict(module="MCLattice", cfg="SPECIFICATION Spec\nCONSTANTS MaxL = %d\nINVARIANTS SplitAgrees EverySiteOnce OwnNumber Emit\n" % (10, 18)[ctx.thorough], workers=6)]


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = [x for x in ctx.emitted["MCLattice"] if x["kind"] == "split"]
    rng.shuffle(em)
    by = {}
    for x in em:
        by.setdefault(x["L"], []).append({"e": "split", "n": x["n"], "all": x["all"]})
    for L in range(11, ctx.n(40, 120)):
        by[L] = [{"e": "split", "n": rng.randint(1, max(1, L // 3)) if rng.random() < .3 else rng.choice([d for d in range(1, L + 1) if L % d == 0]), "all": rng.randint(0, 1)} for _ in range(6)]
    for L, o in sorted(by.items()):
        for q in range(0, len(o), 8):
            p = base(kind=rng.choice(["chain", "star"]) if L > 1 else "chain", L=L, const=1)
            kinds = []
            for _ in range(4):
                kinds.append({"e": "kind", "smax": rng.randint(0, L - 1), "i": rng.randint(0, L - 1), "j": rng.randint(0, L - 1)})
            ss.append([{"e": "S"}, mk(rng, [p])] + o[q:q + 8] + kinds)
    for _ in range(ctx.n(900, 15000)):
        cplx = rng.randint(0, 1)
        nt = rng.choice([1, 1, 1, 2, 3])
        p = pick(rng, ctx.thorough and rng.random() < .2)
        if p["kind"] == "ladderx" and p["leg"] != 2:
            continue
        if p["orb"] == 1 and p["kind"] != "ktwoniffour":
            p["orb"] = rng.choice([1, 1, 2, 3])
        form = None
        if p["kind"] in ("LongRange", "General"):
            form = rng.choice([None, None, "compact", "entangler"]) if nt == 1 and p["L"] * p["orb"] > 1 else None
        ps = [p]
        for _ in range(400):
            if len(ps) == nt:
                break
            q = pick(rng)
            if q["L"] == p["L"] and (q["kind"] != "ladderx" or q["leg"] == 2):
                ps.append(q)
        rng.shuffle(ps)
        for q in ps:
            fill(rng, q, cplx)
        if form == "entangler":
            n, v = p["L"] * p["orb"], rng.randint(-9, 9)
            p["data"] = [[[[[v, 0] if i < j else [0, 0] for j in range(n)] for i in range(n)]]]
        if form == "compact" and rng.random() < .15:
            p["junk"] = 1
        bad = False
        if rng.random() < .08 and form is None:
            q = rng.choice(ps)
            if q["kind"] in ("LongRange", "General"):
                m = rng.randint(1, 3) * q["orb"]
                q["data"][0][0] = [r + [[0, 0]] * m for r in q["data"][0][0]] + [[[0, 0]] * (len(q["data"][0][0]) + m)] * m
                bad = len(q["data"][0][0]) // q["L"] != q["orb"]
                if not bad:
                    fill(rng, q, cplx)
            elif q["orb"] == 1:
                d = rng.choice(q["data"])
                if d and rng.random() < .5:
                    d.pop()
                else:
                    d.append([[[rng.randint(-9, 9), 0]]])
            else:
                d = rng.choice(q["data"])
                m = rng.randrange(len(d))
                d[m] = [r + [[1, 0]] for r in d[m]] if rng.random() < .5 else d[m] + [[[1, 0]] * len(d[m][0])]
        s = [{"e": "S"}, mk(rng, ps, cplx, form=form, filled=True)]
        for t in range(len(ps)):
            s.append({"e": "vals", "t": t})
        if not any(q["kind"] == "ladderx" and q["leg"] != 2 for q in ps) and len(ps) == 1:
            s += looks(p)
        else:
            s.append({"e": "graph", "t": rng.randrange(len(ps)), "want": 0})
        if rng.random() < .2:
            s.append({"e": "show"})
        for _ in range(3):
            t = rng.randrange(len(ps))
            q = ps[t]
            L = q["L"]
            far = lambda: (lambda a: {"e": "grow", "t": t, "smax": a, "emin": rng.randint(a + 1, L - 1)})(rng.randint(0, L - 2))
            if (q["kind"] in ("chain", "longchain") and q["px"] == 0 or q["kind"] in ("LongRange", "General", "star")) and L > 2:
                s.append(far())
            elif q["kind"] == "ladder" and q["px"] == 0 and q["leg"] == 2 and L > 2:
                smax = rng.randint(0, L // 2 - 1)
                s.append({"e": "grow", "t": t, "smax": smax, "emin": L - 1 - smax})
            elif q["kind"] == "ladder" and q["px"] == 0 and L // q["leg"] > 1 and q["leg"] > 2:
                # whole columns
                k = rng.randint(1, L // q["leg"] // 2)
                s.append({"e": "grow", "t": t, "smax": k * q["leg"] - 1, "emin": L - q["leg"] * rng.randint(1, L // q["leg"] - k)})
            elif q["kind"] == "ladderx" and q["px"] == 0 and q["leg"] == 2 and L > 4:
                smax = rng.randint(1, L // 2 - 1)
                s.append({"e": "grow", "t": t, "smax": smax, "emin": L - 1 - smax})
            elif q["kind"] == "ladderbath" and q["px"] == 0 and q["leg"] == 2:
                c = L // (1 + q["b"])
                first = c // 2 * q["b"]
                if c > 2 and c % 2 == 0:
                    smax = rng.randint(0, c // 2 - 1)
                    s.append({"e": "grow", "t": t, "smax": first + smax, "emin": first + c - 1 - smax})
        if rng.random() < .1:
            s.append({"e": "dca", "orb": rng.choice([4, 4, 3]), "a": rng.randint(0, 9), "b": rng.randint(0, 9)})
        ss.append(s)
    return [dict(driver="geometry", trace="TraceLattice", sessions=ss)]
