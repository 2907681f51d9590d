"""InputAinur.tla adds to Ainur.tla what an input file is: when its text is a program, what its list lines stand for, and which
names a label means. MCInputAinur.tla goes through all short texts letter by letter. Those texts, and files with random
programs (list lines, imported declarations, all layouts of Ainur.tla) are read by the real InputNg, from a file or from a
text, and TLC checks the text that runs, acceptance, the map of names, and every value read with readline and read."""
from vf.core import *
from checks import ainur_gen as ag
DRIVERS = [Driver("ainurin", "ainurin.cpp", lib=["Ainur/AinurSpirit.cpp", "Ainur/AinurConvert.cpp", "Io/TypeToH5.cpp"], libs=HDF5, opt="-O0")]
S = {"e": "S"}


def models(ctx):
    c = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Prog = %s\nINVARIANTS Same Kept Emit\n"
    n = (4, 6)[ctx.thorough]
    return [dict(module="MCInputAinur", name="prog", workers=3, cfg=c % (n, "TRUE")), dict(module="MCInputAinur", name="plain", workers=3, cfg=c % (n, "FALSE"))]


def lists(rng, dec):
    """a list line: (text, statement), and the names it needs"""
    a, b = rng.choice(["x", "dir", "A", "", "v_"]), rng.choice(["", "b", ":c", "_z"])
    if a == "":
        a = "n"
    n = rng.randint(1, 4)
    vs = [rng.choice([str(rng.randint(-99, 99)), ag.ftext(rng), "word", "[1,2,3]", "[[1,2],[3,4]]", '"q"']) for _ in range(n)]
    t = "!%s$i%s%s%s" % (a, b, rng.choice([" ", "\t", "  "]), "".join(v + rng.choice([" ", "  ", "\t"]) for v in vs))
    if rng.random() < .3:
        t = t.rstrip() + rng.choice(["", " ", " # three values", "#"])
    return t, [Tag("many"), a, b, vs], ["%s%d%s" % (a, q, b) for q in range(n)]


def value(rng):
    return rng.choice([str(rng.randint(-9, 999)), ag.ftext(rng), '"some text"', "plain", "[1,2, 3]", "[[1,2],\n[3,4]]", "[2.5,...]", "[1, ...x4]", "[i, 2i3]", '[a, "b c"]'])


def case(rng):
    st, dec, t = [], [], ""
    imp, ist = "", []
    names = rng.sample(ag.NAMES, rng.randint(1, 5))
    if rng.random() < .5:
        k = rng.randint(1, len(names))
        for nm in names[:k]:
            q = ("decl", rng.choice(ag.TYPES), nm)
            ist.append(q)
            imp += "%s %s;%s" % (q[1], nm, rng.choice(["", " ", "\n"]))
        for nm in names[:k]:
            if rng.random() < .7:
                st.append(("set", nm, value(rng)))
        names = names[k:]
    for nm in names:
        st.append(("decl", rng.choice(ag.TYPES), nm) if rng.random() < .3 else ("init", rng.choice(ag.TYPES), nm, value(rng)))
    decl = [s[2] for s in ist] + [s[2] for s in st if s[0] in ("decl", "init")]
    have = set(decl)
    out = [[Tag(s[0])] + list(s[1:]) for s in ist + st]
    body = ag.render(rng, st)
    while st and not (body.rstrip().endswith(";") or body.endswith("# end\n")):
        body = ag.render(rng, st)
    body += "\n"
    bad = rng.random() < .08
    for _ in range(rng.choice([0, 1, 1, 2])):
        l, m, need = lists(rng, decl)
        d = ""
        for nm in need:
            if nm not in have and (not bad or rng.random() < .5):
                ty = rng.choice(["real", "integer", "vector", "string", "real!"])
                d += "%s %s;%s" % (ty, nm, rng.choice([" ", "\n"]))
                out.append([Tag("decl"), ty, nm])
                have.add(nm)
                decl.append(nm)
        body += d + "\n" + l + "\n"
        out.append(m)
    if rng.random() < .08:
        body += "\n" + rng.choice(["!x$j 1 2", "!x 1 2", "!x$i", "!x$", "!", "!$i "]) + "\n"
        # the specification sees it in the text
    if rng.random() < .06:
        b = rng.choice(["3x=4", "=3", "x y z=3", "int", "}", "(a)=2"])
        body += "\n" + b + ";\n"
        out.append([Tag("bad")])
    return "##Ainur1.0" + rng.choice(["\n", " and a note\n", "\n\n"]) + body, imp, out, decl


def reads(rng, decl, neg):
    s = []
    for _ in range(rng.randint(3, 12)):
        nm = rng.choice(decl + ["nope"])
        w = rng.random()
        if w < .6:
            s.append(ag.rd(nm + rng.choice(["", "="]), "s", rng.choice("iids" if neg else "iuds"), rng.randint(0, 1)))
        elif w < .8:
            s.append(ag.rd(nm, "v", rng.choice("idzs"), rng.randint(0, 3)))
        elif w < .9:
            s.append(ag.rd(nm, "m", rng.choice("dzs"), 0))
        else:
            s.append({"e": "unused"})
    return s + [{"e": "unused"}]


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = [x["text"] for k in sorted(ctx.emitted) for x in ctx.emitted[k] if "text" in x]
    rng.shuffle(em)
    em = em[:ctx.n(1500, 20000)]
    # texts that are not programs are parsed as labels: only what they write out is looked at, so the
    # texts of programs only
    pr = ["".join(map(chr, t)) for t in em if t[:2] == [35, 35]]
    ss += [[S] + [{"e": "text", "text": t} for t in pr[i:i + 30]] for i in range(0, len(pr), 30)]
    for _ in range(ctx.n(700, 8000)):
        s = [S]
        for _ in range(rng.randint(1, 2)):
            t, imp, st, decl = case(rng)
            s.append({"e": "prog", "text": t, "imp": imp, "file": rng.randint(0, 2), "_st": st})
            neg = "-" in t
            if len(s) == 2 or rng.random() < .7:
                s += reads(rng, decl, neg)
        ss.append(s)
    return [dict(driver="ainurin", trace="TraceA04", sessions=ss)]
