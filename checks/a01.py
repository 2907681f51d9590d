"""Ainur.tla specifies running an input program (declarations, assignments, references) and reading from
it; MCAinur.tla explores all programs of a few statements and shows that they are accepted exactly when
everything is declared once and before use, and that the last assignment wins.  All those programs, and
random ones in every layout (blanks, comments, missing final semicolon, names with underscores and
colons, syntax errors), run in the real interpreter, followed by random reads; TLC checks acceptance,
every value read, the names listed as unused and the name/value map at every point of the history."""
from vf.core import *
from checks import ainur_gen as ag
DRIVERS = [ag.DRV]
SPECIAL = ";\\"  # end of a statement, reference


def models(ctx):
    return [dict(module="MCAinur", cfg=ag.EMITCFG % ((2, 3)[ctx.thorough], 0, "Accepted LastWins NothingLeft"), workers=6)]


def after(rng, names, n):
    """a history of reads"""
    s = []
    for _ in range(n):
        x = rng.random()
        nm = rng.choice(names)
        if x < .5:
            s.append(ag.rd(nm, "s", rng.choice("iuds"), 0))
        elif x < .65:
            s.append(ag.rd(nm, "v", rng.choice("idzs"), rng.randint(0, 3)))
        elif x < .75:
            s.append(ag.rd(nm, "m", rng.choice("dzs"), 0))
        elif x < .9:
            s.append({"e": "unused"})
        else:
            s.append({"e": "map"})
    return s + [{"e": "unused"}, {"e": "map"}]


def settle(s):
    """unsigned reads only from programs without negative numbers"""
    neg = any("-" in str(q[-1]) for o in s if o["e"] == "prog" for q in o["_st"])
    return [dict(o, k=Tag("i")) if neg and o["e"] == "rd" and o["k"] == "u" else o for o in s]


def groups(ctx):
    rng = ctx.rng
    ss = []
    tx = lambda c: "".join(map(chr, c))
    em = [x["p"] for x in ctx.emitted["MCAinur"] if "p" in x]
    rng.shuffle(em)
    cur = [{"e": "S"}]
    for p in em[:ctx.n(700, 8000)]:
        st = [tuple([s["k"]] + [tx(s[q]) for q in ("ty", "name", "v") if q in s]) for s in p]
        ok = model_ok(st)
        cur.append(ag.prog(rng, st))
        if ok:
            cur += [ag.rd(n, "s", k) for n in "xy" for k in rng.sample("is", 1)] + [{"e": "unused"}, {"e": "map"}]
        if len(cur) > 60:
            ss.append(cur)
            cur = [{"e": "S"}]
    ss.append(cur)
    for _ in range(ctx.n(250, 3000)):
        s = [{"e": "S"}]
        for _ in range(rng.randint(1, 3)):
            names = rng.sample(ag.NAMES, rng.randint(1, 6))
            st, dec = [], []
            fault = rng.random() < .2
            for nm in names:
                st.append(("decl", rng.choice(ag.TYPES), nm) if rng.random() < .5 else ("init", rng.choice(ag.TYPES), nm, val(rng)))
                dec.append(nm)
                while rng.random() < .4:
                    st.append(("set", rng.choice(dec), val(rng)))
            if fault:
                w = rng.randrange(5)
                k = rng.randint(0, len(st))
                if w == 0:
                    st.insert(k, ("set", "zz", "1"))
                elif w == 1:
                    st.append(("decl", "int", rng.choice(dec)))
                elif w == 2:
                    st.insert(0, ("set", names[-1], "1"))
                elif w == 3:
                    st.insert(k, ("bad", rng.choice(["3x=4", "=3", "x y z=3", "int", "}", "int 3", "x=", "(a)=2", "3"])))
                else:
                    st.append(("init", "real", "AinurFromFile", "3"))
            s.append(ag.prog(rng, st))
            if model_ok(st):
                s += after(rng, names + ["nope"], rng.randint(2, 12))
        ss.append(settle(s))
    # programs of many statements, long names and values
    for _ in range(ctx.n(6, 40)):
        names = []
        while len(names) < rng.randint(15, 60):
            nm = rng.choice(["", "", "_", "__"]) + rng.choice("abcxyzTUV") + "".join(rng.choice("abcxyzTUV_:019") for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 70])))
            if nm not in names:
                names.append(nm)
        st, dec = [], []
        for nm in names:
            st.append(("decl", rng.choice(ag.TYPES), nm) if rng.random() < .4 else ("init", rng.choice(ag.TYPES), nm, val(rng) if rng.random() < .9 else "w" * rng.randint(20, 150)))
            dec.append(nm)
            while rng.random() < .4:
                st.append(("set", rng.choice(dec), val(rng)))
        s = [{"e": "S"}, ag.prog(rng, st)] + after(rng, names + ["nope"], 25)
        ss.append(settle(s))
    # the only names not used are late ones
    for _ in range(ctx.n(6, 40)):
        names = ["v%d" % i for i in range(rng.randint(14, 40))]
        rng.shuffle(names)
        s = [{"e": "S"}, ag.prog(rng, [("init", "int!", nm, str(rng.randint(0, 99))) for nm in names])]
        keep = set(rng.sample(names[12:], rng.choice([0, 1, 1, 2])))
        s += [ag.rd(nm, "s", "i") for nm in names if nm not in keep] + [{"e": "unused"}]
        for nm in sorted(keep):
            s += [ag.rd(nm, "s", "i"), {"e": "unused"}]
        ss.append(s)
    # every character, in a value and outside one
    for q in range(1, 256):
        ch = chr(q)
        ok = 33 <= q <= 126 and q != 96 or ch in " \t\n\r"
        t = 'string s = "a%sb"' % ch
        s = [{"e": "S"}]
        if not ok:
            s.append(ag.prog(rng, [("decl", "int", "n"), ("bad", rng.choice([t, "x" + ch + "=3", "n=" + ch, ch, 'string s="%s"' % ch, 'string s="%sb"' % ch]))]))
        elif ch not in SPECIAL:
            s += [ag.prog(rng, [("init", "string", "s", '"a%sb"' % ch), ("decl", "int", "n"), ("set", "n", "1")]), ag.rd("s", "s", "s"), ag.rd("n", "s", "i")]
        ss.append(s)
    return [dict(driver="ainur", trace="TraceAinur", sessions=ss)]


def val(rng):
    return rng.choice([str(rng.randint(-9, 999)), ag.ftext(rng), '"some text"', "plain", "[1,2, 3]", "[[1,2],\n[3,4]]", "[2.5,...]", "[1, ...x4]", '""'])


def model_ok(st):
    """whether it is worth reading from the program (the specification decides whether it is accepted)"""
    dec, v = set(), {}
    for s in st:
        if s[0] == "bad":
            return False
        if s[0] == "set":
            if s[1] not in dec:
                return False
            v[s[1]] = s[2]
        else:
            if s[2] in dec:
                return False
            dec.add(s[2])
            if s[0] == "init":
                v[s[2]] = s[3]
    return "AinurFromFile" not in dec and all("\\" not in x for x in v.values())
