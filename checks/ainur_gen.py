"""Input programs for A01, A02 and A03."""
from vf.core import *
DRV = Driver("ainur", "ainur.cpp", lib=["Ainur/AinurSpirit.cpp", "Ainur/AinurConvert.cpp", "Io/TypeToH5.cpp"], libs=HDF5, opt="-O0")
EMITCFG = """SPECIFICATION Spec
CONSTANTS MaxStmts = %d MaxText = %d
INVARIANTS %s Emit
"""


def ws(rng, must=False):
    s = rng.choice(["", "", "", " ", "  ", "\t", "\n", " \n ", " # note; x=1\n", "\n#\n"])
    return s if s or not must else " "


def render(rng, stmts):
    """the text of a program; stmts: ("decl", ty, name) ("init", ty, name, v) ("set", name, v) ("bad", text)"""
    t = ws(rng)
    for i, s in enumerate(stmts):
        b = lambda: rng.choice(["", "", " ", "\t", "\n"])
        sep = rng.choice([" ", " ", "  ", "\t", "\n"])
        if s[0] == "decl":
            t += s[1] + sep + s[2] + b()
        elif s[0] == "init":
            t += s[1] + sep + s[2] + b() + "=" + b() + s[3] + b()
        elif s[0] == "set":
            t += s[1] + b() + "=" + b() + s[2] + b()
        else:
            t += s[1]
        if i + 1 < len(stmts):
            t += ";" + ws(rng)
    if not stmts:
        return t
    return t + rng.choice([";", ";", ";\n", "; ", "", ";\n# end\n"]) if stmts[-1][0] != "bad" else t + rng.choice([";", "", ";\n"])


def prog(rng, stmts):
    return {"e": "prog", "text": render(rng, stmts), "_st": [[Tag(s[0])] + (list(s[1:]) if s[0] != "bad" else []) for s in stmts]}


def rd(name, shape, k, had=0):
    return {"e": "rd", "name": name, "shape": Tag(shape), "k": Tag(k), "had": had}


def ftext(rng, small=False):
    """a number with few digits"""
    w = rng.random()
    if w < .35:
        return str(rng.randint(-99, 999))
    s = "%s%d.%s" % (rng.choice(["", "", "-", "+"]), rng.randint(0, 999), "".join(rng.choice("0123456789") for _ in range(rng.randint(0, 3))))
    if w > .9:
        s = rng.choice(["1e2", "-2.5e1", "3E0", ".5", "5.", "12.5e-1", "7e+1", "-.25"])
    return s


def ctext(rng):
    return rng.choice([ftext(rng), "i", "-i", ftext(rng) + "i" + ftext(rng), "i" + ftext(rng), "%s i %s" % (ftext(rng), ftext(rng))])


BADNUM = ["abc", "1.2.3", "--1", "1-2", "e", "1e", "+", "x1", "1,2", "0x10", "inf", "...", "1 i", "2i", "i i", "3.0.i2", "1e2e3"]
NAMES = ["x", "y", "abc", "a_b", "_n", "__T1", "dir0:Connectors", "Model", "n2", "TSP_Tau", "A"]
TYPES = ["int", "integer", "real", "string", "vector", "matrix", "vector.integer", "matrix.real", "function", "int!", "real!", "string!", "q"]
