"""Generator of prefix expressions (used by X01 and X02); its evaluation only chooses denominators and filters."""
from fractions import Fraction as F
import re
AR = {"+": 2, "-": 2, "*": 2, "/": 2, "%": 2, "sin": 1, "cos": 1, "log": 1, "exp": 1, "?": 3}


class Bad(Exception):
    pass


def levels(t):
    """level-by-level tokens of a tree (op, kids...) or literal"""
    out, level = [], [t]
    while level:
        nxt = []
        for x in level:
            if isinstance(x, tuple):
                out.append(x[0])
                nxt += x[1:]
            else:
                out.append(x)
        level = nxt
    return out


def lit(s, ty):
    m = re.fullmatch(r"()(\+?-?)([\d.]*)i", s) or re.fullmatch(r"([+-]?[\d.]+(?:e[+-]?\d+)?)(?:(\+-?|-)([\d.]*)i)?", s)
    if ty == "z" and not m:
        raise ValueError
    if ty == "z":
        im = 0
        if m.group(2) is not None:
            im = F(m.group(3) or 1) * (-1 if "-" in m.group(2) else 1)
        return (F(m.group(1) or 0), F(im))
    return (F(s), F(0))


def ev(t, ty, exact=True, lim=2000):
    """value of a tree as a pair of Fractions; Bad when it leaves the range the specification can compute in"""
    if not isinstance(t, tuple):
        r = lit(t, ty)
    else:
        v = [ev(x, ty, exact, lim) for x in t[1:]]
        o = t[0]
        if o in "+-":
            g = 1 if o == "+" else -1
            r = (v[0][0] + g * v[1][0], v[0][1] + g * v[1][1])
        elif o == "*":
            (a, b), (c, d) = v
            r = (a * c - b * d, a * d + b * c)
        elif o == "/":
            (a, b), (c, d) = v
            n = c * c + d * d
            if abs(n - F(1, 10 ** 6)) < F(1, 10 ** 8):
                raise Bad
            if n < F(1, 10 ** 6):
                if d:
                    raise Bad
                r = v[0]
            elif ty in "iu":
                q = abs(a) // abs(c)
                r = (q if (a < 0) == (c < 0) else -q, F(0))
            else:
                r = ((a * c + b * d) / n, (b * c - a * d) / n)
        elif o == "%":
            if ty == "z":
                raise Bad
            x, y = abs(v[0][0]) // 1, abs(v[1][0]) // 1
            r = (F(x % y if y else x), F(0))
        elif o == "?":
            (a, b) = v[0]
            if ty == "z" and (a or b) and a * a + b * b < 2:
                raise Bad
            r = v[1] if abs(a) >= 1 or b else v[2]
        else:
            if v[0] != ((1, 0) if o == "log" else (0, 0)):
                raise Bad
            r = (F(0), F(0)) if o in ("sin", "log") else (F(1), F(0))
    if ty == "z":
        lim = 60
    if any(abs(x.numerator) > lim or x.denominator > lim for x in map(F, r)) or (ty == "u" and r[0] < 0):
        raise Bad
    return (F(r[0]), F(r[1]))


def leaf(rng, ty, names=()):
    if names and rng.random() < .45:
        return rng.choice(names)
    k = rng.random()
    if ty == "u":
        return str(rng.randint(0, 12))
    if ty == "i":
        return str(rng.randint(-9, 12)) if k < .9 else "+%d" % rng.randint(0, 9)
    if ty == "d" and k < .04:
        return rng.choice(["0.02", "0.01", "-0.005", "0.002", "1e-2", "5e-3", "0.001"])
    if ty == "z" and k < .04:
        return rng.choice(["0.02", "0.02i", "-0.02i", "-0.02"])
    if ty == "d":
        return rng.choice([str(rng.randint(-9, 12)), "%.1f" % rng.choice([.5, 1.5, -2.5, 3.5]), "%.2f" % rng.choice([.25, -.75, 1.25]), "1e1", "5e-1", "0", "0.5", "+2", ".5", "2."])
    a, b = rng.randint(-4, 5), rng.randint(-4, 5)
    return rng.choice(["%d" % a, "%d%+di" % (a, b), "%di" % b, "%d+-%di" % (a, abs(b)), "0.5%+di" % b, "%d%+.1fi" % (a, b / 2), "i", "-i", "%d+i" % a, "+%di" % abs(b)])


def tree(rng, ty, depth, names=(), ops=None):
    if depth == 0 or rng.random() < .2:
        return leaf(rng, ty, names)
    o = rng.choice(ops or ["+", "-", "*", "/", "+", "-", "*", "%", "?", rng.choice(["sin", "cos", "log", "exp"])])
    if o in ("sin", "cos", "exp", "log"):
        return (o, "1" if o == "log" else "0")
    return (o,) + tuple(tree(rng, ty, depth - 1, names, ops) for _ in range(AR[o]))
