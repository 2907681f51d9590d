"""InputText.tla specifies the reader: each label keeps its values in the order of the text, a read takes the
first and uses it up while another follows, and what a value is as a number, list, matrix or map.  TLC checks
for all short inputs and all interleavings of reads of two labels as values and lists (MCInputText) that the
n-th read yields the n-th value or the last.  Those histories and random ones over every type are run on the
real reader and TLC judges every read."""
from vf.core import *
from checks import input_gen as ig
DRIVERS = [ig.DRV]


def models(ctx):
    return [dict(module="MCInputText", cfg="SPECIFICATION Spec\nCONSTANTS MaxText = 0 MaxEntries = %d MaxReads = %d\nINVARIANTS InOrder EmitReads\n" % ((4, 5), (5, 6))[ctx.thorough], workers=6)]


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = list(ctx.emitted["MCInputText"])
    rng.shuffle(em)
    for x in em[:ctx.n(2500, 15000)]:
        t = ""
        for e in x["es"]:
            l = chr(e["l"][0])
            v = chr(e["v"][0][0])
            t += (l + "=" + v if e["k"] == "s" else l + " 1 " + v) + ig.eol(rng)
        s = [{"e": "S"}, ig.parse(rng, t, ["a", "b"], [])]
        for h in x["h"]:
            s.append(ig.line(rng, chr(h[1][0]), rng.choice("suild")) if h[0] == "s" else ig.lst(rng, chr(h[1][0]), rng.choice("siduz")))
        ss.append(s + [{"e": "map"}])
    # labels repeated more often than there are digits
    for _ in range(ctx.n(40, 400)):
        labels = rng.sample(ig.LABELS, 2)
        t, n, left = "", rng.randint(9, 26), []
        for i in range(n):
            l = rng.choice(labels[:1] * 5 + labels)
            k = rng.random() < (.1, .9)[n % 2]
            t += "%s=%d" % (l, i) if k else "%s 2 %d %d" % (l, i, i + 1)
            t += ig.eol(rng)
            left.append((l, k))
        if not ig.sane(t):
            continue
        s = [{"e": "S"}, ig.parse(rng, t)]
        if rng.random() < .5:
            rng.shuffle(left)
        s += [ig.line(rng, l, rng.choice("sidl")) if k else ig.lst(rng, l, rng.choice("sidz")) for l, k in left + left[:2]]
        ss.append(s + [{"e": "map"}])
    for _ in range(ctx.n(600, 8000)):
        labels = rng.sample(ig.LABELS, rng.randint(1, 3))
        t = ig.text(rng, labels + (["f[1]", "f[ab]", "ff[1]", "g[2]"] if rng.random() < .2 else []), rng.randint(2, 12) if rng.random() < .97 else rng.choice([20, 40]))
        fs = "f[" in t
        if not ig.sane(t) or any(t.count(k + "=") > 1 for k in ("f[1]", "f[ab]", "g[2]")):
            continue
        s = [{"e": "S"}, ig.parse(rng, t, ig.KNOWN + ["f[1]", "f[ab]", "ff[1]", "g[2]"])]
        u = [] if "-" in t else ["u"]
        for _ in range(rng.randint(3, 20)):
            l = rng.choice(labels + labels + ["Mat", "nope", "A0", "x1"])
            w = rng.random()
            if w < .5:
                k = rng.choice(["s", "s", "i", "d", "l"] + u)
                s.append(ig.line(rng, l, k, k != "s" or rng.random() < .85, k == "s" and rng.random() < .15))
            elif w < .8:
                s.append(ig.lst(rng, l, rng.choice(["s", "i", "d", "z"] + u)))
            elif w < .9:
                s.append(ig.mat(rng, rng.choice(["Mat", "Mat2", l]), rng.choice("dz")))
            elif u and w < .93:
                s.append(ig.rread(l))
            elif fs:
                s.append({"e": "rmap", "label": rng.choice(["f", "g", "ff", "h"])})
            else:
                s.append({"e": "map"})
        if any(o.get("force") and not o.get("clean") for o in s):
            for o in s:
                if o.get("force"):
                    o["clean"] = True
        ss.append(s)
    return [dict(driver="input", trace="TraceInputText", sessions=ss)]
