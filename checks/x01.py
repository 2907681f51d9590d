"""Predicate.tla specifies the formula a text spells (alternatives, conjunctions, comparisons, settings, variables
as whole words) and its logical value; MCPredicate.tla reads character by character and evaluates with early stop,
and TLC shows for all short texts and all truth values of the comparisons that both agree with the formula.  All
those texts and random formulas with prefix expressions, up to four variables, other separators, settings and
damage go through the real classes at many variable values, and TLC judges refusal and every truth value."""
from vf.core import *
from checks import expr_gen as eg
from fractions import Fraction as F
import re
DRIVERS = [Driver("predicate", "predicate.cpp")]
CH = {0: "{108, 49, 60, 61, 38, 44}", 1: "{108, 49, 37, 33, 61, 62, 38, 44}"}


def models(ctx):
    # the letters: l 1 < = & , and l 1 % ! = > & ,
    return [dict(module="MCPredicate", cfg="SPECIFICATION Spec\nCONSTANTS MaxText = %d\nChars = %s\nINVARIANTS Agree Logic Decided Emit\n" % ((5, 7)[ctx.thorough], CH[0]), workers=6),
            dict(module="MCPredicate", cfg="SPECIFICATION Spec\nCONSTANTS MaxText = %d\nChars = %s\nINVARIANTS Agree Logic Decided Emit\n" % ((4, 6)[ctx.thorough], CH[1]), workers=6)]


def pred(s, o=",", a="&", spec=False):
    return {"e": "pred", "s": s, "or": o, "and": a, "spec": spec}


NAMES = ["l", "c", "t", "x1", "site", "e", "lo", "ll", "o", "s_t", "n", "L"]
OPS = ["==", "!=", "<", ">", "<=", ">=", "%%"]


def num(rng, ty):
    if ty == "d":
        return rng.choice([rng.randint(-6, 12) * 1000, rng.randint(-20, 30) * 250, rng.randint(-4, 6) * 500, 125])
    return rng.randint(0 if ty == "u" else -7, 14) * 1000


def val(m, ty):
    if ty != "d":
        return str(m // 1000)
    s = "%.3f" % (m / 1000)
    return s.rstrip("0").rstrip(".")


def word(s, env, ty):
    return re.sub(r"[A-Za-z0-9_]+", lambda w: val(env[w.group()], ty) if w.group() in env else w.group(), s)


def safe(text, env, ty, o=",", a="&"):
    """True unless a side leaves the range in which exact and machine arithmetic agree (the specification's domain)"""
    from checks.x02 import parse
    for c in re.split("[%s]" % re.escape(o + a), text):
        m = re.match(r"(.*?)(==|!=|<=|>=|%%|<|>)(.*)", c, re.S)
        if not m or c.startswith("@"):
            continue
        for s in (m.group(1), m.group(3)):
            toks = [t for t in word(s, env, ty).split(":") if t]
            if any(re.search(r"\d{6}|\.\d{4}|e[+-]?\d\d", t) for t in toks):
                return False
            if ty == "u" and any(t[0] in "-+" and len(t) > 1 for t in toks):
                return False
            if ty in "iu" and any(re.search(r"[.e]", t) and t not in eg.AR for t in toks):
                return False
            v = parse(toks, ty)
            if v == "bad":
                return False
            if v and v[0].denominator & (v[0].denominator - 1):
                return False
    return True


def side(rng, ty, names):
    if rng.random() < .05:
        names = [rng.choice(["-", "-", "+"]) + n for n in names]
    t = eg.tree(rng, ty, rng.choice([0, 0, 0, 0, 1, 1, 2]), names, ["+", "-", "*", "+", "-", "*", "%", "/", "?"])
    if rng.random() < .1:
        t = (rng.choice(["cos", "exp"]), "0") if rng.random() < .5 else ("log", "1")
    return ":".join(eg.levels(t))


def simple(rng, ty, names):
    r = str(rng.randint(1, 5)) if rng.random() < .5 else side(rng, ty, names)
    o = rng.choice(OPS)
    l = rng.choice(names) if rng.random() < .6 else side(rng, ty, names)
    return l + o + r


def damage(rng, s):
    q = rng.randint(0, len(s))
    k = rng.randrange(4)
    if k == 0:
        return s[:q] + s[q + 1:]
    if k == 1:
        return s[:q] + rng.choice(["<", "=", "==", "&", ",", ":", "l", "%%", "!", "@", "-", " ", "1"]) + s[q:]
    if k == 2:
        return s[:q]
    return s[q:]


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = ["".join(map(chr, x["t"])) for x in ctx.emitted["MCPredicate"]]
    rng.shuffle(em)
    good = [t for t in em if re.search(r"(==|!=|<|>|%%)", t)]
    for t in em[:ctx.n(800, 8000)] + good[:ctx.n(1200, 12000)]:
        s = [{"e": "S"}, pred(t)]
        for v in (0, 1, 2):
            for ty in "iud":
                if (ty == "i" or rng.random() < .2) and safe(t, {"l": v * 1000}, ty):
                    s.append({"e": "is", "t": Tag(ty), "n": ["l"], "v0": [v * 1000]})
        ss.append(s)
    for _ in range(ctx.n(2500, 40000)):
        ty = rng.choice("iuudd")
        names = rng.sample(NAMES, rng.randint(1, 4))
        o, a = rng.choice([(",", "&")] * 5 + [(";", "&"), ("|", "&"), (",", "^"), (";,", "&")])
        many = rng.choice([0] * 30 + [6, 12])
        alts = [rng.choice(a).join(simple(rng, ty, names) for _ in range(rng.choice([1, 1, 2, 2, 3]) if not many else rng.randint(1, many))) for _ in range(rng.choice([1, 1, 2, 3]) if not many else rng.randint(3, many))]
        spec = rng.random() < .15
        if rng.random() < (.6 if spec else .03):
            alts.insert(rng.randint(0, len(alts)), rng.choice(["@x=1", "@", "@M", "@a<b", "@l==1&l==2"]))
        t = rng.choice(o).join(alts)
        for _ in range(rng.choice([0, 0, 0, 0, 1, 2])):
            t = damage(rng, t)
        s = [{"e": "S"}, pred(t, o, a, spec)]
        for _ in range(rng.randint(2, 7)):
            u = ty if rng.random() < .8 else rng.choice("iud")
            env = {n: num(rng, u) for n in names}
            if safe(t, env, u, o, a):
                order = rng.sample(names, len(names))
                s.append({"e": "is", "t": Tag(u), "n": order, "v0": [env[n] for n in order]})
        ss.append(s)
    return [dict(driver="predicate", trace="TracePredicate", sessions=ss)]
