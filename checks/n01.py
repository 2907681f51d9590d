"""InputText.tla specifies what a label=value text contains, word by word (comments, replacement lines,
counted lists, the application's checker); MCInputText.tla runs a character-by-character parser machine over
all short texts and TLC shows that it ends with exactly that, whatever the layout.  All those texts and random
ones (every layout, comments anywhere, damaged, with and without final newline, from memory and from files)
go through the real parser, and TLC judges acceptance and every label and value stored."""
from vf.core import *
from checks import input_gen as ig
DRIVERS = [ig.DRV]


def models(ctx):
    return [dict(module="MCInputText", cfg="SPECIFICATION Spec\nCONSTANTS MaxText = %d MaxEntries = 0 MaxReads = 0\nINVARIANTS Agree LayoutFree NothingElse Emit\n" % (5, 6)[ctx.thorough], workers=6)]


def everything(rng, labels):
    s = [{"e": "map"}]
    for l in labels:
        s.append(ig.lst(rng, l, "s"))
        if rng.random() < .3:
            s.append(ig.lst(rng, l, "s"))
    return s + [{"e": "map"}]


def groups(ctx):
    rng = ctx.rng
    ss = []
    em = ["".join(map(chr, x["t"])) for x in ctx.emitted["MCInputText"] if x["t"][:2] != [35, 35]]
    rng.shuffle(em)
    for t in em[:ctx.n(1500, 12000)]:
        ss.append([{"e": "S"}, ig.parse(rng, t, ["a", "aa", "a1", "b"], ["aa"])] + everything(rng, ["a", "aa", "a1", "b"]))
    for _ in range(ctx.n(700, 8000)):
        labels = rng.sample(ig.LABELS, rng.randint(1, 5))
        t = ig.text(rng, labels, rng.randint(1, 8) if rng.random() < .97 else rng.choice([17, 33, 65]))
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            t = ig.damage(rng, t)
        if not ig.sane(t):
            continue
        known = ig.KNOWN if rng.random() < .85 else rng.sample(ig.KNOWN, len(ig.KNOWN) * 3 // 4)
        ss.append([{"e": "S"}, ig.parse(rng, t, known)] + everything(rng, labels + ["Mat", "Mat2"]))
    return [dict(driver="input", trace="TraceInputText", sessions=ss)]

