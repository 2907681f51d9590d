"""Canonical.tla specifies which texts are sums of products, and their exact value over items that are square
matrices; MCCanonical.tla reads character by character as the code does, and TLC shows for all short texts that
it refuses exactly the others, finds the terms, and that the value is the ordinary one for numbers.  All those
texts and random expressions (real and complex scalars anywhere, parenthesised prefix expressions, non-commuting
matrices, items of different sizes, old results, damage) are evaluated by the real classes and judged by TLC."""
from vf.core import *
from checks import expr_gen as eg
from checks.x02 import parse
from fractions import Fraction as F
import re
DRIVERS = [Driver("canonical", "canonical.cpp")]
CH = ["{97, 98, 50, 42, 43, 40, 41, 45}", "{97, 50, 42, 43, 40, 41, 45, 58}"]


def models(ctx):
    # letters: a b 2 * + ( ) - and a 2 * + ( ) - :
    return [dict(module="MCCanonical", cfg="SPECIFICATION Spec\nCONSTANTS MaxText = %d\nChars = %s\nINVARIANTS Agree Numbers Emit\n" % ((4, 6)[ctx.thorough], CH[0]), workers=6),
            dict(module="MCCanonical", cfg="SPECIFICATION Spec\nCONSTANTS MaxText = %d\nChars = %s\nINVARIANTS Agree Numbers Emit\n" % ((4, 5)[ctx.thorough], CH[1]), workers=6)]


def mat(rng, n, ty):
    return [[rng.choice([0, 0, 1, -1, 2, 1, -2]), rng.choice([0, 0, 1, -1]) if ty == "z" else 0] for _ in range(n * n)]


NAMES = ["a", "b", "sz", "c?0'", "n[1]", "H", "x2", "ab", "splus", "i2"]


def scalar(rng, ty):
    k = rng.random()
    if k < .4:
        return rng.choice(["2", "3", "-1", "0.5", "-2", "1.5", "1.", "0", ".5", "+2"])
    if k < .55 and ty == "z":
        return rng.choice(["i", "2i", "0.5i", "-1i", "1i"])
    if k < .6:
        return rng.choice(["i", "2i", "(?:1:2:pi)", "(*:0:pi)", "1e1", "2x", "3i2", "-i"])
    while True:
        t = eg.tree(rng, ty, rng.choice([0, 0, 1, 1, 2]), (), ["+", "-", "*", "/", "?", "+", "*"])
        if rng.random() < .05:
            t = ("?", "1", t, "pi") if t != "pi" else t
        s = ":".join(eg.levels(t))
        if "-" in s[1:] and rng.random() < .9:
            continue
        return "(" + s + ")"


def term(rng, ty, names):
    f = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 2, 3, 0 if rng.random() < .3 else 1]))]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        f.insert(rng.randint(0, len(f)), scalar(rng, ty))
    return "*".join(f)


def damage(rng, s):
    q = rng.randint(0, len(s))
    if rng.random() < .5:
        return s[:q] + s[q + 1:]
    return s[:q] + rng.choice(["+", "*", "(", ")", "-", "a", "2", ":", "i"]) + s[q:]


def fits(s, ty, lim=64):
    """every scalar lies in the specification's range and the denominators of each term divide lim"""
    for t in re.split(r"\+(?![^()]*\))", s):
        den, mag = F(1), F(1)
        for f in re.split(r"\*(?![^()]*\))", t):
            m = re.fullmatch(r"\(([^()]*)\)", f)
            if m:
                v = parse([x for x in m.group(1).replace("pi", "3").split(":") if x], ty)
            else:
                v = None
                if re.fullmatch(r"[-+]?[\d.]+i?", f):
                    if re.search(r"\.\d{4}|\d{5}", f):
                        return False
                    try:
                        v = (F(f.rstrip("i")), F(0))
                    except ValueError:
                        v = None
            for b in re.findall(r"\(([^()]*)\)", f):
                if parse([x for x in b.replace("pi", "3").split(":") if x], ty) == "bad":
                    return False
            if v == "bad":
                return False
            if v:
                import math
                d = math.lcm(v[0].denominator, v[1].denominator)
                den *= d
                mag *= max(1, abs(v[0]) + abs(v[1])) * d
        if lim % den or mag > 20000:
            return False
    return True


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = ["".join(map(chr, x["t"])) for x in ctx.emitted["MCCanonical"]]
    good = ["".join(map(chr, x["t"])) for x in ctx.emitted["MCCanonical"] if x["ok"]]
    rng.shuffle(em)
    rng.shuffle(good)
    texts = em[:ctx.n(1500, 12000)] + good[:ctx.n(1500, 12000)]

    def let(n, size, ty):
        return {"e": "let", "name": n, "n": size, "m": mat(rng, size, ty)}

    def canon(ty, s, n):
        return {"e": "canon", "t": Tag(ty), "s": s, "n": n, "m": mat(rng, n, ty), "den": 64}
    for q in range(0, len(texts), 12):
        n = rng.choice([1, 2, 2])
        ss.append([{"e": "S"}, let("a", n, "d"), let("b", n, "d")] + [canon(rng.choice("ddz"), s, n) for s in texts[q:q + 12] if fits(s, "d") and fits(s, "z")])
    for _ in range(ctx.n(1500, 25000)):
        ty = rng.choice("dz")
        n = rng.choice([1, 2, 2, 2, 3])
        names = rng.sample(NAMES, rng.randint(1, 4) if rng.random() < .9 else len(NAMES))
        s = [{"e": "S"}] + [let(x, n if rng.random() < .97 else 1 + n % 3, ty) for x in names]
        for _ in range(rng.randint(2, 8)):
            t = "+".join(term(rng, ty, names) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]) if rng.random() < .96 else rng.choice([9, 13, 18, 33])))
            for _ in range(0 if "pi" in t else rng.choice([0, 0, 0, 1, 2])):
                t = damage(rng, t)
            if "@" in t or not fits(t, ty):
                continue
            s.append(canon(ty, t, n if rng.random() < .96 else rng.choice([0, 1, 2, 3])))
            if rng.random() < .1:
                s.append(let(rng.choice(names), n, ty))
        ss.append(s)
    ss.append([{"e": "S"}, {"e": "pi"}])
    return [dict(driver="canonical", trace="TraceCanonical", sessions=ss)]
