"""Ainur.tla specifies which number, string, vector or matrix a text of an input program is (signs, points,
exponents, complex numbers, brackets, ellipsis); MCAinur.tla shows for all short texts over brackets, digits
and dots that blanks do not matter, that an accepted matrix is a rectangle and that a vector in brackets is
a matrix of one row.  All those texts and random well-formed and damaged ones in every layout are read as
every type by the real code, into used destinations, and TLC checks every element or refusal."""
from vf.core import *
import re
from checks import ainur_gen as ag
DRIVERS = [ag.DRV]


def models(ctx):
    return [dict(module="MCAinur", cfg=ag.EMITCFG % (0, (4, 5)[ctx.thorough], "BlanksFree Rectangle OneRow"), workers=6)]


def reads(rng, name, n=None):
    r = [ag.rd(name, "s", k) for k in "ids"] + [ag.rd(name, "v", k, rng.choice([0, 0, 1, 3])) for k in "idzs"] + [ag.rd(name, "m", k, 0) for k in "dzs"]
    return r if n is None else rng.sample(r, n)


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = ["".join(map(chr, x["t"])) for x in ctx.emitted["MCAinur"] if "t" in x]
    em = [t for t in em if t.strip()]
    rng.shuffle(em)
    # texts that might be lists first
    em.sort(key=lambda t: not (t.strip()[0] == "[" and t.strip()[-1] == "]"))
    lists = [t for t in em if t.strip()[0] == "[" and t.strip()[-1] == "]"]
    rest = [t for t in em if t not in set(lists)] if len(em) < 6000 else em[len(lists):]
    pick = lists[:ctx.n(500, 3000)] + rest[:ctx.n(300, 3000)]

    def sess(texts, nr=None, extra=()):
        st = [("init", "real", "v" + "abcdefghij"[i % 10] + str(i), t) for i, t in enumerate(texts)]
        s = [{"e": "S"}, ag.prog(rng, st)]
        for i, t in enumerate(texts):
            s += reads(rng, st[i][2], nr)
            if "-" not in t:
                s += [ag.rd(st[i][2], "s", "u"), ag.rd(st[i][2], "v", "u", rng.choice([0, 2]))]
        return s
    for i in range(0, len(pick), 10):
        ss.append(sess(pick[i:i + 10], ctx.n(5, None) if not ctx.thorough else None))

    def el(k):
        return {"i": lambda: str(rng.randint(-50, 999)), "u": lambda: str(rng.randint(0, 999)), "d": lambda: ag.ftext(rng), "z": lambda: ag.ctext(rng),
                "s": lambda: rng.choice(["abc", '"q"', "a b", "7", "x-y"])}[k]()

    def bl():
        return rng.choice(["", "", "", " ", "\n", " \t", "\n\n  "])

    def lst(es):
        return "[" + bl() + ("," + bl()).join(e + bl() for e in es) + "]" + ""
    for _ in range(ctx.n(160, 2500)):
        texts = []
        s = [{"e": "S"}]
        sp = []
        for i in range(rng.randint(1, 6)):
            k = rng.choice("iudzs")
            w = rng.random()
            had = rng.choice([0, 0, 1, 2, 5])
            if w < .25:
                t, sh = el(k if k != "z" else "d"), "s"
            elif w < .55:
                t, sh = lst([el(k) for _ in range(rng.choice([1, 2, 3, rng.randint(1, 12)]))]), "v"
            elif w < .58:
                # dots only stand for repetition after exactly one element
                t, sh = lst([el(k) for _ in range(rng.choice([0, 2, 2, 3]))] + [rng.choice(["...", "...x3", "...x", "...y2"])] + ([el(k)] if rng.random() < .3 else [])), "v"
            elif w < .7:
                t, sh = lst([el(k), "..." if rng.random() < .5 else "...x" + str(rng.choice([0, 1, 2, 3, 10, 40]))]), "v"
            else:
                k = rng.choice("dzs")
                r, c = rng.randint(1, 4), rng.randint(1, 4)
                rows = [[el(k) for _ in range(c)] for _ in range(r)]
                if rng.random() < .2:
                    rng.choice(rows).append("1")
                if rng.random() < .1:
                    r, rows = 2, []
                t, sh = "[" + bl() + ("," + bl()).join(lst(x) + bl() for x in rows) + "]", "m"
                # a matrix that has rows keeps their number, or becomes empty
                had = rng.choice([0, r])
            if rng.random() < .25:
                # damage
                had = 0 if sh == "m" else had
                j = rng.randrange(len(t))
                t = rng.choice([t[:j] + t[j + 1:], t[:j] + rng.choice("[],.x-1") + t[j:], t.replace("[", "(", 1), t + "]" if False else t[:-1], rng.choice(ag.BADNUM)])
                if not t.strip() or "..." in t or re.search(r"\.\d{4}", t):
                    continue
            if k in "sz" and sh == "s" and k == "z":
                k = "d"
            sp.append((t, sh, k, had))
        if not sp:
            continue
        st = [("init", rng.choice(ag.TYPES), "v%d" % i, x[0]) for i, x in enumerate(sp)]
        s.append(ag.prog(rng, st))
        for i, (t, sh, k, had) in enumerate(sp):
            if k == "u" and "-" in t:
                k = "i"
            s.append(ag.rd("v%d" % i, sh, k, had))
            s += reads(rng, "v%d" % i, rng.randint(0, 3))
        ss.append(s)
    # long lists
    for _ in range(ctx.n(8, 60)):
        st, rs = [], []
        for i in range(rng.randint(1, 3)):
            k = rng.choice("iudzs")
            if rng.random() < .65:
                n = rng.choice([13, 16, 17, 30, 33, 60, 99])
                w = rng.random()
                t = lst([el(k) for _ in range(n)]) if w < .6 else lst([el(k), "...x%d" % rng.choice([99, 100, 128, 250, 1000])]) if w < .8 else lst([el(k), "..."])
                rs += [ag.rd("v%d" % i, "v", "i" if k == "u" and "-" in t else k, rng.choice([0, 1, 20, 200]))]
            else:
                k = rng.choice("dzs")
                r, c = rng.choice([(1, 20), (13, 2), (6, 6), (17, 1), (2, 15)])
                t = "[" + bl() + ("," + bl()).join(lst([el(k) for _ in range(c)]) + bl() for _ in range(r)) + "]"
                rs += [ag.rd("v%d" % i, "m", k, rng.choice([0, r]))]
            st.append(("init", rng.choice(ag.TYPES), "v%d" % i, t))
        ss.append([{"e": "S"}, ag.prog(rng, st)] + rs)
    for r, c in [(13, 1), (14, 3), (20, 2)] + [(rng.randint(13, 40), rng.randint(1, 4)) for _ in range(ctx.n(3, 30))]:
        k = rng.choice("dzs")
        rows = [lst([el(k) for _ in range(c)]) + bl() for _ in range(r)]
        if rng.random() < .2:
            rows[rng.randint(12, r - 1)] = lst([el(k) for _ in range(c + 1)])
        t = "[" + bl() + ("," + bl()).join(rows) + "]"
        ss.append([{"e": "S"}, ag.prog(rng, [("init", rng.choice(ag.TYPES), "m", t), ("init", rng.choice(ag.TYPES), "v", lst([el("i"), "..."]))]),
                   ag.rd("m", "m", k, rng.choice([0, r])), ag.rd("v", "v", "i", rng.choice([13, 14, 20, 100]))])
    for t in ag.BADNUM + ["[%s]" % b for b in ag.BADNUM if "," not in b] + ["[[%s]]" % b for b in ag.BADNUM if "," not in b]:
        ss.append(sess([t]))
    return [dict(driver="ainur", trace="TraceAinur", sessions=ss)]
