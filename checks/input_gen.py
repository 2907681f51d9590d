"""Texts in the label=value format and readers of them, for N01 and N02."""
from vf.core import *
from checks.ainur_gen import ftext
DRV = Driver("input", "input.cpp", lib=["Ainur/AinurSpirit.cpp", "Ainur/AinurConvert.cpp", "Io/TypeToH5.cpp"], libs=HDF5, opt="-O0")
LABELS = ["x", "y", "Model", "TSPTau", "a1", "a", "U_v", "n(0)x", "Sites", "hubbardU", "dir0", "gt;", "x2"]
TEXTS = ["Hubbard", "a=b", "1.5", "-2", "12", "0", "fast,slow", "f/g.txt", "3.25", "\"q\"", "x", "(1,2)", "+7", "1e2", "7x", "x=", "7"]


def cnum(rng):
    return rng.choice([ftext(rng), ftext(rng), "(%s,%s)" % (ftext(rng), ftext(rng)),
                       rng.choice(["(1,2)3", "(1,2))", "((1,2)", "(1)", "(1,2", "1,2)", "(,1)", "(1,)", "()", "(1,2,3)"]) if rng.random() < .1 else "(1,-2)"])


def lnum(rng, kind):
    return {"i": lambda: str(rng.randint(-20, 99)), "d": lambda: ftext(rng), "z": lambda: cnum(rng),
            "s": lambda: rng.choice([ftext(rng), "1ab", "3:4", "(x)", "-"])}[kind]()


def bl(rng):
    return rng.choice([" ", " ", " ", "  ", "\t", " \t ", "\n", "\n\n", " \n", " # c\n", "#c=1\n", "\n# x 2 1 2\n", "\n \n"])


def eol(rng):
    return rng.choice(["\n", "\n", "\n", "\n\n", " \n", " # c\n", "# y=3\n", "\n# c\n#\n", "\t\n", " ", "  "])


def stmt(rng, labels):
    """(text, ends only at the end of a line)"""
    lab = rng.choice(labels)
    w = rng.random()
    if w < .5:
        v = rng.choice(TEXTS) if rng.random() < .5 else ftext(rng)
        return lab + "=" + ("" if rng.random() < .8 else bl(rng)) + v, False
    if w < .85:
        n = rng.choice([1, 1, 2, 2, 3, 5, rng.randint(1, 15)]) if rng.random() < .97 else rng.choice([17, 33, 65, 100, 130])
        k = rng.choice("iiddzs")
        cnt = n + (rng.choice([1, -1, 3]) if rng.random() < .05 else 0)
        return lab + bl(rng) + str(cnt) + "".join(bl(rng) + lnum(rng, k) for _ in range(n)), False
    if w < .93:
        a, b = rng.choice(["A", "B", "x"]), rng.choice(["", "C", "x"])
        return "!%s$i%s%s%s" % (a, b, rng.choice([" ", " ", "\t", "  "]), rng.choice([" ", "  ", "\t"]).join(rng.choice(["1", "2.5", "abc", "7", "k=v"]) for _ in range(rng.randint(1, 12)))) + rng.choice(["", "", " ", " # c"]), True
    r, c = rng.randint(1, 3), rng.randint(1, 4)
    k = rng.choice("dz")
    n = r * c + rng.choice([0, 0, 0, 1, -1])
    return rng.choice(["Mat", "Mat2"]) + bl(rng) + "%d%s%d" % (r, bl(rng), c) + "".join(bl(rng) + lnum(rng, k) for _ in range(n)), False


def text(rng, labels, n):
    t = rng.choice(["", "", "\n", "# head\n", " ", "\t\n"])
    for i in range(n):
        s, line = stmt(rng, labels)
        if line and t and t[-1] != "\n":
            t += "\n"
        t += s
        if i + 1 < n or rng.random() < .6:
            t += rng.choice(["\n", "\n", " # e\n"]) if line else eol(rng)
    return t


KNOWN = LABELS + ["Mat", "Mat2"] + ["%s%d%s" % (a, i, b) for a in ("A", "B", "x", "") for i in range(13) for b in ("", "C", "x")]
LAX = ["Mat", "Mat2"]


def parse(rng, t, known=None, lax=None):
    return {"e": "parse", "text": t, "known": KNOWN if known is None else known, "lax": LAX if lax is None else lax, "file": rng.random() < .5}


def line(rng, lab, k="s", clean=True, force=False):
    return {"e": "line", "label": lab + rng.choice(["", "=", "="]), "k": Tag(k), "clean": clean, "force": force}


def lst(rng, lab, k):
    return {"e": "list", "label": lab + rng.choice(["", ""]), "k": Tag(k)}


def mat(rng, lab, k):
    return {"e": "mat", "label": lab, "k": Tag(k)}


def rread(lab):
    return {"e": "rread", "label": lab, "_k": Tag("u"), "_clean": 1, "_force": 0}


def damage(rng, t):
    if not t:
        return t
    j = rng.randrange(len(t))
    return rng.choice([t[:j] + t[j + 1:], t[:j] + rng.choice([" ", "\n", "#", "z", "7", " 7 ", "!"]) + t[j:], t[:j]])


def sane(t):
    """equal signs in odd places are not part of the format"""
    if t.startswith("##"):
        return False
    ws = []
    for l in t.split("\n"):
        if l.startswith("!"):
            r = l.split("#")[0].split(None, 1)
            if len(l) < 2 or not (l[1].isalpha() or l[1] == "_"):
                return False
            ws += ["Q=" + x for x in (r[1].split() if len(r) > 1 else [])]
        else:
            ws += l.split("#")[0].replace("\t", " ").split(" ")
    ws = [w for w in ws if w]
    num = lambda c: c in "0123456789:.+-(),"
    for i, w in enumerate(ws):
        if w[0] == "=":
            return False
        p = w.find("=")
        after = i > 0 and ws[i - 1].find("=") == len(ws[i - 1]) - 1 and len(ws[i - 1]) > 0 and "=" in ws[i - 1]
        if p > 0 and not (not num(w[0]) or after):
            return False
        if 0 < p < len(w) - 1 and w[p + 1] == "=":
            return False
        if i and p > 0 and "=" not in ws[i - 1] and not num(ws[i - 1][0]):
            return False
    return "@" not in t and "\r" not in t
