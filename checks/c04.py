"""Settings.tla: settings in force, mode, storage slots, disabled labels as one state machine.
MCSettings.tla enumerates every history of changes up to a depth; each is replayed on the real
library with everything read back after every step, and random longer histories with real loops
(thread numbers seen, stack size of the threads) are judged by TLC."""
from vf.core import *
DRIVERS = [Driver("pth", "c04.cpp", lib=["PsimagLite.cpp", "Concurrency.cpp"], libs=["-llapack", "-lblas"]),
           Driver("ser", "c04.cpp", lib=["PsimagLite.cpp", "Concurrency.cpp"], libs=["-llapack", "-lblas"], defs=["USE_BOOST"])]
RETRIES = 8


def models(ctx):
    c = 'SPECIFICATION Spec\nCONSTANTS Depth = %d Labels = {"a", "ab"}\nINVARIANTS NoCollision OnlyIfAsked\nPROPERTY Monotone\n'
    return [dict(module="MCSettings", cfg=c % (3, 4)[ctx.thorough])]


def readback(rng):
    r = [{"e": "get"}]
    for lb in ("a", "ab"):
        r += [{"e": "misdis", "lb": lb}, {"e": "lis", "lb": lb},
              {"e": "mneed", "lb": lb, "rank": rng.randint(0, 5), "block": rng.randint(0, 9), "total": rng.randint(0, 20)}]
    return r


def groups(ctx):
    rng = ctx.rng
    ss = []
    hists = ctx.emitted["MCSettings"]
    if len(hists) > ctx.n(700, 6000):
        hists = rng.sample(hists, ctx.n(700, 6000))
    for h in hists:
        s = [{"e": "S", "_pth": 1}]
        for op in h:
            k = op[0]
            if k == "ctor":
                s.append({"e": "ctor", "n": op[1]})
            elif k == "set":
                s.append({"e": "set", "np": op[1], "np2": op[2], "aff": op[1] - 1, "stack": 1048576 * op[2]})
            elif k == "mode":
                s.append({"e": "mode", "m": op[1]})
            elif k == "dis":
                s.append({"e": "mdis", "lb": op[1]})
            else:
                s.append({"e": "ldis", "lb": op[1]})
            s += readback(rng)
        ss.append(s)
    labels = ["", "a", "ab", "b", "x y", "A", "aa", "label"]
    for _ in range(ctx.n(120, 1500)):
        s = [{"e": "S", "_pth": 1}]
        mode, np = 0, 1
        for _ in range(rng.randint(3, 25)):
            c = rng.random()
            if c < .15:
                np = rng.choice([1, 2, 3, 4, 6, 8, 11])
                s.append({"e": "ctor", "n": np})
                mode = 1
            elif c < .35:
                np = rng.choice([1, 2, 3, 4, 5, 8])
                s.append({"e": "set", "np": np, "np2": rng.choice([1, 2, 3]), "aff": rng.choice([0, 0, 1]),
                          "stack": rng.choice([0, 0, 1 << 20, 1 << 24, 3 << 22, 1 << 26])})
            elif c < .45:
                mode = rng.randint(0, 3)
                s.append({"e": "mode", "m": mode})
            elif c < .55:
                s.append({"e": "slots", "np": 1 if mode == 0 else rng.randint(1, 9)})
            elif c < .75:
                n = rng.choice([0, 1, np, 2 * np, 3 * np, rng.randint(0, 20)])
                s.append({"e": "loop", "kind": Tag(rng.choice(["ng", "p2"])), "n": n})
            elif c < .8:
                s.append({"e": "get"})
            else:
                lb = rng.choice(labels)
                k = rng.choice(["mdis", "misdis", "mneed", "ldis", "lis", "misdis", "lis"])
                o = {"e": k, "lb": lb}
                if k == "mneed":
                    o.update(rank=rng.randint(0, 9), block=rng.randint(0, 9), total=rng.randint(0, 30))
                s.append(o)
        ss.append(s)
    ser = []
    for n in (1, 2, 4):
        for np, np2 in ((1, 1), (2, 1), (1, 2), (3, 3)):
            ser.append([{"e": "S", "_pth": 0}, {"e": "ctor", "n": n}, {"e": "get"}, {"e": "slots", "np": 1},
                        {"e": "set", "np": 1, "np2": 1, "aff": 0, "stack": 0}, {"e": "get"},
                        {"e": "loop", "kind": Tag("ng"), "n": 5}, {"e": "loop", "kind": Tag("p2"), "n": 4},
                        {"e": "set", "np": np, "np2": np2, "aff": 0, "stack": 0}, {"e": "get"}])
    return [dict(driver="pth", trace="TraceC04", sessions=ss), dict(driver="ser", trace="TraceC04", sessions=ser, shards=1)]
