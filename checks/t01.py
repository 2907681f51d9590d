"""PsiTag.tla specifies what a build configuration file says, line by line (modes, blocks, deletion, escapes), what
several files give one after the other, and how texts and flavors are put together from tags; MCPsiTag.tla writes every
short sequence of changes in every layout and shows that each file says exactly its changes, and that putting together
is refused exactly for missing names and names that lead back to themselves. All those files and random ones, damaged
ones among them, are read by the real scripts, and TLC checks every tag, text and refusal."""
import re
from vf.core import *
DRIVERS = [Driver("t01", "t01.cpp", lib=[])]
DRIVERS[0].lib = []
S = {"e": "S"}
ENV = {"VF_SCRIPTS": REPO + "/scripts", "VF_PSITAG": VERIF + "/harness/psitag.pl"}


def models(ctx):
    return [dict(module="MCPsiTag", workers=6, cfg="""SPECIFICATION Spec
CONSTANTS MaxChanges = 2 EmitMod = %d
INVARIANTS Same Parts Together Closed Emit
""" % (97, 7)[ctx.thorough])]


NAMES = ["a", "b", "flavor x", "flavor y z", "default flavor", "group  g", "dependency A1", "t_9", "default compiler", "#d", "e#"]
MODES = ["=", "+=", "=?", "=!", "-=", "-=!"]


def name(rng):
    n = rng.choice(NAMES)
    if rng.random() < .2:
        n = n.replace(" ", rng.choice(["  ", " \t", "\t ", "   "]))
    return n


def body(rng):
    r = rng.random()
    if r < .3:
        return rng.choice(["", " "]) + "<" + rng.choice(["", " ", "  "]) + name(rng) + rng.choice(["", " "])
    if r < .4:
        return rng.choice(["\\<a", "  \\(x", "y\\", "x)\\ ", "\\\\<b", "z \\\\", "\\", "CPPFLAGS += -DX \\\\", "(a", "a\\ b"])
    if r < .5:
        return ""
    return rng.choice(["x", "y", "LDFLAGS = -lz", "CPPFLAGS += -DU=1", "# no comment", "x y ", "}", "a=b", "g++ -O3", "yx"])


def change(rng):
    n = name(rng)
    m = rng.choice(MODES[:2] + MODES)
    h = rng.choice(["", " ", "\t"]) + n + rng.choice(["", " ", "  ", "\t", " \t"]) + m + rng.choice([" ", "  ", " \t"])
    r = rng.random()
    if r < .12:
        return n + rng.choice(["=", " = ", " =\t"]) + "()" + rng.choice(["", " "]) + "\n"
    if r < .55:
        b = body(rng)
        return h + b + "\n"
    if r < .65:
        return h + "(" + body(rng) + ")" + rng.choice(["", "  "]) + "\n"
    k = rng.randint(0, 4)
    t = h + "(" + rng.choice(["", "", "", " ", body(rng)]) + "\n"
    for q in range(k):
        t += body(rng) + "\n"
    if rng.random() < .6:
        return t + rng.choice(["", " "]) + ")" + rng.choice(["", " "]) + "\n"
    return t + rng.choice(["x", "< a", "last y "]) + ")\n"


def damage(rng, t):
    p = rng.randrange(len(t) + 1)
    r = rng.random()
    if r < .4:
        return t[:p] + rng.choice("()=+!?-<&* \n#\\}") + t[p:]
    if r < .7:
        return t[:p] + t[p + rng.randint(1, 3):]
    return t[:p]


def fine(t):
    """leaves out what is not specified: names that are blank or the number 0, and tabs between words"""
    for l in t.split("\n"):
        head = re.split(r"[=+?!\-<&*]", l)[0]
        ref = l.strip(" \t")[1:].strip(" \t") if l.strip(" \t").startswith("<") else "r"
        if l.strip(" \t") and (head.strip(" \t") in ("", "0") or "\t" in head.strip(" \t")):
            if not l.strip(" \t").startswith(("<", "=", "-", "+", "?", "!", "&", "*")) or head:
                if head:
                    return False
        if ref in ("", "0"):
            return False
    return True


def afile(rng):
    while True:
        t = "".join(change(rng) if rng.random() < .85 else rng.choice(["# c = d\n", "\n", " \t\n", "#\n"]) for _ in range(rng.randint(1, 7)))
        if rng.random() < .3:
            t = damage(rng, t)
        if rng.random() < .2 and t.endswith("\n"):
            t = t[:-1]
        if fine(t):
            return t


def ops_for(rng, files):
    ops = [{"e": "tags", "files": files}]
    if rng.random() < .6:
        s = "".join(body(rng) + "\n" for _ in range(rng.randint(1, 3)))
        if fine(s):
            ops.append({"e": "text", "files": files, "s": s})
    if rng.random() < .6:
        ops.append({"e": "flavor", "files": files, "name": rng.choice(["", "", "x", "y z", "w"])})
    return ops


def chain(rng):
    """flavors made of groups made of parts, some in circles"""
    n = rng.randint(2, 6)
    names = ["flavor x"] + ["g%d" % q for q in range(n)]
    t = rng.choice(["", "default flavor = x\n"])
    order = names[:]
    rng.shuffle(order)
    back = rng.random() < .3
    for q in order:
        i = names.index(q)
        t += q + " = (\n"
        for _ in range(rng.randint(0, 3)):
            t += rng.choice(["V%d = 1" % rng.randint(0, 9), "\\<no", "W = \\\\"]) + "\n"
            later = names[i + 1:] if not back or rng.random() < .8 else names
            if later:
                t += "< " + rng.choice(later) + "\n"
        t += ")\n"
    return t


def groups(ctx):
    rng = ctx.rng
    ops = []
    em = list(ctx.emitted["MCPsiTag"])
    rng.shuffle(em)
    for x in em[:ctx.n(700, 8000)]:
        f = stoks(x["f"])
        ops += [{"e": "tags", "files": [f]}]
        if rng.random() < .3:
            ops += [{"e": "text", "files": [f], "s": rng.choice(["<a\n", "< b  b\nx\n<a", "\\<a\\\n"])}]
    for _ in range(ctx.n(500, 8000)):
        ops += ops_for(rng, [afile(rng) for _ in range(rng.choice([1, 1, 2, 3]))])
    for _ in range(ctx.n(80, 1500)):
        ops += ops_for(rng, [chain(rng)])[:1] + [{"e": "flavor", "files": [chain(rng)], "name": rng.choice(["", "x"])}]
    # long files: many changes, and one of many lines
    for _ in range(ctx.n(12, 150)):
        t = ""
        while not t or not fine(t):
            t = "".join(change(rng) for _ in range(rng.randint(15, 40)))
            if rng.random() < .5:
                t += "a = (\n" + "".join(body(rng) + "\n" for _ in range(rng.randint(15, 40))) + ")\n"
        ops += ops_for(rng, [t])
    for _ in range(ctx.n(6, 60)):
        n = rng.randint(15, 40)
        t = "flavor x = (\n<g0\n)\n"
        for i in rng.sample(range(n), n):
            t += "g%d = (\nV%d = 1\n%s)\n" % (i, i, "< g%d\n" % (i + 1) if i + 1 < n else "")
        ops.append({"e": "flavor", "files": [t], "name": "x"})
        ops.append({"e": "flavor", "files": ["a += l%d\n" % i for i in range(n)] + ["flavor x = (\n< a\n)\n"], "name": "x"})
    for _ in range(ctx.n(10, 60)):
        f = lambda: rng.choice(["../x/My.psiTag", "a.psiTag", "b c.psiTag", "x"])
        ops.append({"e": "conf", "base": f(), "given": rng.choice([[], [], [f()]]), "env": rng.choice([[], [""], [f()], [f()]])})
    real = [open(REPO + "/examples/ConfigBase.psiTag").read()]
    for fl in re.findall(r"^flavor (\S+)", real[0], re.M) + ["", "nonsense"]:
        ops.append({"e": "flavor", "files": real + [rng.choice(["", "dependency HDF5 = ( )\n", "default flavor = debug\n"])], "name": fl})
    rng.shuffle(ops)
    return [dict(driver="t01", trace="TraceT01", sessions=[[S] + ops[i:i + 5] for i in range(0, len(ops), 5)], secs=20, env=ENV)]
