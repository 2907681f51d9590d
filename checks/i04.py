"""LabelFile.tla specifies a labelled file as words and a position, and every search (first, next, k-th,
last), read, count and rewind as transitions; MCLabelFile.tla shows for all short files and histories that
level k is k+1 times next, that last is the highest level, and that rewinding starts again.  The enumerated
histories and random longer ones (files written by the library in all its ways and files with other
blanks; every kind of value; used destinations) run on the real reader and TLC checks every answer and,
through the words that remain, every position."""
from vf.core import *
from checks.d02 import toks, num
DRIVERS = [Driver("i04", "i04.cpp", lib=["Io/TypeToH5.cpp"], libs=HDF5)]


def models(ctx):
    return [dict(module="MCLabelFile", cfg="""SPECIFICATION Spec
CONSTANTS MaxWords = %d MaxOps = %d
INVARIANTS Levels Finals OneAhead RewindRestores Inside Emit
""" % ((3, 2), (4, 2))[ctx.thorough], workers=4)]


SC = {"x=": "i", "xy=": "i", "E=": "d", "#E=": "d", "z=": "z", "name=": "s", "names=": "s"}
VE = {"V": ("v", "i"), "V2": ("v", "i"), "W": ("v", "d"), "#Wx": ("v", "d"), "C": ("v", "z"), "Words": ("v", "s"), "P": ("v", "p"),
      "N": ("v", "v"), "M": ("m", "d"), "Mz": ("m", "z"), "K": ("t", "i")}
VE["Mz"] = ("m", "d")
VE["Z"] = ("m", "z")


def groups(ctx):
    rng = ctx.rng

    def entry(t):
        if t == "i":
            return [rng.choice([0, rng.randint(-9, 9), rng.randint(-10**6, 10**6)])]
        q = lambda: rng.choice([0, rng.randint(-9, 9), rng.randint(-3999, 3999)])
        return {"d": lambda: [q()], "z": lambda: [q(), q()], "s": lambda: [rng.randint(97, 122) for _ in range(rng.randint(1, 5))],
                "p": lambda: [rng.randint(0, 20), rng.randint(0, 999)], "v": lambda: [rng.randint(-99, 99) for _ in range(rng.randint(0, 3))]}[t]()

    def value(k, t):
        if k == "m":
            r, c = rng.randint(0, 3), rng.randint(0, 3)
            return r, c, [entry(t) for _ in range(r * c)]
        return 0, 0, [entry(t) for _ in range(rng.choice([0, 1, 2, rng.randint(0, 9)]))]

    def etext(t, e):
        return toks("v", t, 0, 0, [e])[1]

    def searches(n, sc, ve):
        s = []
        for _ in range(n):
            x = rng.random()
            lv = rng.choice([0, 0, 0, 1, 2, -1, -1, rng.randint(0, 5)])
            if x < .4:
                l = rng.choice(sc)
                if rng.random() < .05:
                    l, t = "missing=", "i"
                else:
                    t = SC[l]
                    if rng.random() < .15:
                        t = "s"
                s.append({"e": "rl", "s": l, "level": lv, "t": Tag(t)})
            elif x < .72:
                l = rng.choice(ve)
                k, t = VE[l]
                s.append({"e": "rv", "s": l, "level": lv, "k": Tag(k), "t": Tag(t), "pre": 0 if k == "m" else rng.randint(0, 5)})
            elif x < .84:
                s.append({"e": "adv", "s": rng.choice(sc + ve + ["Q", "x", "#"]), "level": lv})
            elif x < .88:
                s.append({"e": "count", "s": rng.choice(sc + ve + ["Q", "x", "#"])})
            elif x < .96:
                s.append({"e": "rewind"})
            elif x < .98:
                s.append({"e": "reopen"})
            else:
                s.append({"e": "rest"})
        return s + [{"e": "rest"}]
    ss = []
    em = ctx.emitted["MCLabelFile"]
    seen = {}
    for x in em:
        seen.setdefault(tuple(map(tuple, x["w"])), []).append(x["ops"])
    for w in sorted(seen):
        text = b""
        for q in w:
            text += bytes(q) + rng.choice([b" ", b"\n"])
        if rng.random() < .5:
            text = text.rstrip()
        base = [{"e": "S"}, {"e": "file", "text": text.decode("latin1")}]
        run = list(base)
        ops = seen[w]
        rng.shuffle(ops)
        for o in ops[:ctx.n(14, 10 ** 6)]:
            run.append({"e": "iopen", "how": rng.randrange(2)})
            for a in o:
                s = "".join(map(chr, a["s"]))
                if a["op"] == "rl":
                    run.append({"e": "rl", "s": s, "level": a["l"], "t": Tag("i")})
                elif a["op"] == "rv":
                    run.append({"e": "rv", "s": s, "level": a["l"], "k": Tag("v"), "t": Tag("i"), "pre": rng.randint(0, 3)})
                elif a["op"] == "adv":
                    run.append({"e": "adv", "s": s, "level": a["l"]})
                else:
                    run.append({"e": "rewind"})
            run.append({"e": "rest"})
        ss.append(run)
    for _ in range(ctx.n(250, 3000)):
        sc = rng.sample(sorted(SC), rng.randint(1, 4))
        ve = rng.sample(sorted(VE), rng.randint(1, 4))
        s = [{"e": "S"}]
        if rng.random() < .5:
            s.append({"e": "oopen", "how": rng.randrange(3)})
            for _ in range(rng.randint(0, 14)):
                x = rng.random()
                if x < .4:
                    l = rng.choice([q for q in sc if SC[q] != "s"] or ["x="])
                    s.append({"e": "wsc", "label": l[:-1], "t": Tag(SC[l]), "v": entry(SC[l])})
                elif x < .8:
                    l = rng.choice(ve)
                    k, t = VE[l]
                    r, c, a = value(k, t)
                    s.append({"e": "wv", "label": l, "k": Tag(k), "t": Tag(t), "rows": r, "cols": c, "a": a})
                elif x < .95:
                    l = rng.choice(sc)
                    s.append({"e": "line", "s": l + etext(SC[l], entry(SC[l])) + rng.choice(["", " # note", " done 7"]), "how": rng.randrange(3)})
                else:
                    s += [{"e": "oclose", "how": 1}, {"e": "oopen", "how": rng.choice([2, 2, 2, 1])}]
            s.append({"e": "oclose", "how": rng.randrange(2)})
        else:
            t = rng.choice(["", "\n", "# text\n", " "])
            for _ in range(rng.randint(0, 14)):
                if rng.random() < .5:
                    l = rng.choice(sc)
                    t += l + etext(SC[l], entry(SC[l])) + rng.choice(["\n", "\n\n", " ", "\t", "\r\n"])
                elif rng.random() < .8:
                    l = rng.choice(ve)
                    k, ty = VE[l]
                    r, c, a = value(k, ty)
                    for w in [l] + toks("m" if k == "m" else "v", ty, r, c, a):
                        t += w + rng.choice(["\n", " ", "   ", "\n\n", "\t"])
                else:
                    t += rng.choice(["text ", "-- ", "12 ", "\n"])
            if rng.random() < .4:
                t = t.rstrip()
            s.append({"e": "file", "text": t})
        s.append({"e": "iopen", "how": rng.randrange(2)})
        ss.append(s + searches(rng.randint(3, 14), sc, ve))
    for k in range(ctx.n(4, 20)):                     # a label met very often
        n = rng.choice([99, 100, 101, 128, 200, 256, 257, 300, 400])
        t = ""
        for i in range(n):
            t += "x=%d%s" % (rng.randint(-99, 99), rng.choice(["\n", "\n", " ", "\nc 1\n"]))
        s = [{"e": "S"}, {"e": "file", "text": t}, {"e": "iopen", "how": k % 2}, {"e": "count", "s": "x="}]
        for lv in [-1, 0, n - 1, rng.randint(90, n - 1), n, 3]:
            s.append({"e": "rl", "s": "x=", "level": lv, "t": Tag("i")})
            if rng.random() < .5:
                s.append({"e": "rewind"})
        ss.append(s + [{"e": "rewind"}, {"e": "count", "s": "x"}, {"e": "count", "s": "c"}])
    return [dict(driver="i04", trace="TraceI04", sessions=ss)]
