"""Store.tla specifies what is in a file after its writer died (nothing readable before the first flush or
close, everything up to the last one after it); MCStore.tla explores every short history with a crash
after any operation and shows that a closed file is complete, one whose writer died early is refused and
a flushed one keeps what was flushed.  The enumerated histories and longer random ones run with a writer in a
process of its own that is killed (or exits without closing) at that point; TLC checks what a reader gets."""
from vf.core import *
from checks import store_gen as sg
from checks.i01 import history
DRIVERS = [sg.DRV]


def models(ctx):
    c = """SPECIFICATION Spec
CONSTANTS MaxLen = %d EmitLen = %d Crash = TRUE
INVARIANTS ClosedComplete DeadRefused TornSure LastWins Members
"""
    return [dict(module="MCStore", cfg=c % ((4, 4), (5, 5))[ctx.thorough], workers=6)]


def groups(ctx):
    rng = ctx.rng
    em = [x for x in ctx.emitted["MCStore"] if any(o["e"] == "kill" for o in x)]
    rng.shuffle(em)
    ss = [s for s in (history(rng, x, 1) for x in em[:ctx.n(500, 6000)]) if s]
    # a crash after every operation of one history
    for _ in range(ctx.n(12, 150)):
        base = sg.Session(rng, rng.choice([["int", "vd", "vi", "vz", "m", "str"], sg.ALL]), 1)
        base.open("f0", "trunc")
        n = rng.randint(6, 16)
        while len(base.ops) < n + 2:
            h, st = base.h, dict(base.st)
            base.one()
            if not base.h or base.ops[-1]["e"] in ("kill", "close"):
                if base.ops[-1]["e"] in ("kill", "close"):
                    base.ops.pop()
                base.h, base.st = h, st
        for cut in range(2, len(base.ops) + 1):
            s = base.ops[:cut] + [{"e": "kill", "how": 0}, {"e": "open", "f": Tag("f0"), "mode": Tag("read"), "via": 0}]
            if any(o["e"] == "flush" for o in s):
                s += [sg.read(rng, p, k) for (f, p), ks in sorted(base.wrote.items()) for k in sg.safe(ks)]
            ss.append(s)
    # a finished file whose mark is damaged
    for k in list(range(0, 256, ctx.n(7, 1))) + [169, 171, 255]:
        if k == 170:
            continue
        s = [{"e": "S", "fork": 0}, {"e": "open", "f": Tag("f0"), "mode": Tag(rng.choice(["trunc", "excl"])), "via": 0}, sg.put(("a",), "int", sg.value(rng, "int"), 0, 0),
             {"e": "close", "how": rng.randrange(2)}]
        if rng.random() < .3:
            s += [{"e": "open", "f": Tag("f0"), "mode": Tag("read"), "via": rng.randrange(2)}, sg.read(rng, ("a",), "int"), {"e": "close", "how": 0}]
        ss.append(s + [{"e": "tamper", "f": Tag("f0"), "how": k}, {"e": "open", "f": Tag("f0"), "mode": Tag("read"), "via": rng.randrange(2)}])
    for k in range(ctx.n(150, 2500)):
        s = sg.Session(rng, rng.choice([["int", "dbl", "vi", "vd", "vz", "str"], sg.ALL]), 1)
        for _ in range(rng.randint(8, 35)):
            s.one()
        ss.append(s.readall())
    return [dict(driver="store", trace="TraceStore", sessions=[sg.settle(s) for s in ss])]
