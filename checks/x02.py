"""Prefix.tla specifies which texts are expressions, their tree and its exact value over rational and complex
numbers; MCPrefix.tla reads token by token and TLC shows for all short texts that it builds the tree whose
listing by levels was read, with the specified value.  All those texts and random trees of any shape, with
damage, for int, unsigned, real and complex numbers, go through the real tree builder, and TLC judges value or
refusal; literals of complex numbers are also judged on their own."""
from vf.core import *
from checks import expr_gen as eg
from math import lcm
import re
DRIVERS = [Driver("predicate", "predicate.cpp")]
DRV = DRIVERS[0]


def models(ctx):
    return [dict(module="MCPrefix", cfg="SPECIFICATION Spec\nCONSTANTS MaxTokens = %d\nINVARIANTS Agree ByLevels Values Emit\n" % (5, 7)[ctx.thorough], workers=6)]


def ev(ty, toks, den=1):
    return {"e": "eval", "t": Tag(ty), "den": den, "toks": toks}


def damage(rng, toks):
    toks = list(toks)
    k = rng.randrange(5)
    q = rng.randrange(len(toks))
    if k == 0:
        del toks[q]
    elif k == 1:
        toks = toks[:q]
    elif k == 2:
        toks[q] = rng.choice(["x", "++", "tan", "1.2.3", "--1", "", "3x", "=", "1e", "i2", "e", ".", "+ 1"])
    elif k == 3:
        toks = toks + [rng.choice(["1", "+", "junk", "?"])]
    else:
        toks[q] = rng.choice(["+", "*", "?"])
    return toks


LITS = ["1", "-1", "2i", "-2i", "+2i", "i", "-i", "+i", "3+2i", "3-2i", "-3-2i", "-3+2i", "3+-2i", "3+i", "3-i", "0.5-0.25i", "1e1-5e-1i", "1.5e+1+2i",
        "", "+", "-", "x", "3+", "3-", "3+2", "2i3", "2i+3i", "2i+3", "1+2i+3i", "--1", "3++2i", "3--2i", "-+3", "1 ", " 1", "1,2", "(1,2)", "3+2ii", "e", "1e", ".", ".i", "+-i", "+-1", "0-0i", "2.i", ".5i"]


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = ctx.emitted["MCPrefix"]
    rng.shuffle(em)
    cur = []

    def put(op):
        cur.append(op)
        if len(cur) >= 20:
            ss.append([{"e": "S"}] + cur)
            cur.clear()
    for x in em[:ctx.n(4000, 60000)]:
        t = ["".join(map(chr, c)) for c in x["t"]]
        if "sin" in t[:]:
            t = [{"sin": "-"}.get(c, c) for c in t]
        tr = None
        for ty in "iudz":
            if ty == "i" or rng.random() < .3:
                v = parse(t, ty)
                if v is None:
                    put(ev(ty, t))
                elif v != "bad":
                    put(ev(ty, t, lcm(v[0].denominator, v[1].denominator)))
    for _ in range(ctx.n(9000, 120000)):
        ty = rng.choice("iuddzz")
        deep = rng.random() < .05
        t = eg.tree(rng, ty, rng.choice([5, 6, 7, 9]), ops=["+", "-", "+", "-", "?", "*"]) if deep else eg.tree(rng, ty, rng.choice([1, 2, 2, 3, 3, 4]))
        toks = eg.levels(t)
        if len(toks) > (110 if deep else 25):
            continue
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            toks = damage(rng, toks) if toks else toks
        v = parse(toks, ty)
        if v == "bad":
            continue
        put(ev(ty, toks, 1 if v is None else lcm(v[0].denominator, v[1].denominator)))
    for s in LITS:
        put({"e": "lit", "s": s})
    for _ in range(ctx.n(1500, 20000)):
        s = eg.leaf(rng, "z")
        for _ in range(rng.choice([0, 1, 1, 2])):
            q = rng.randint(0, len(s))
            s = s[:q] + rng.choice(["+", "-", "i", "1", ".", "", ""]) + s[q + rng.randint(0, 1):]
        if not re.search(r"\.\d{4}|\d{5}", s):
            put({"e": "lit", "s": s})
    if cur:
        ss.append([{"e": "S"}] + cur)
    return [dict(driver="predicate", trace="TracePrefix", sessions=ss)]


def parse(toks, ty):
    """the value, None if it is no expression, 'bad' if outside the range of the specification"""
    need, n = 1, 0
    while need and n < len(toks):
        need += eg.AR.get(toks[n], 0) - 1
        n += 1
    if need:
        return None
    k = 1
    kids = []
    for q in range(n):
        a = eg.AR.get(toks[q], 0)
        kids.append(range(k, k + a))
        k += a

    def build(q):
        return (toks[q],) + tuple(build(c) for c in kids[q]) if kids[q] else toks[q]
    try:
        return eg.ev(build(0), ty)
    except eg.Bad:
        return "bad"
    except Exception:
        return None
