"""Store.tla specifies files, the handle on one of them and every write, overwrite and read as
transitions; MCStore.tla explores every short history next to its log and shows that the contents are
what the log means (last write wins, no write without overwrite takes effect, members need their group).
Every enumerated history and random longer ones over two files and all kinds of values run on the real
store, and TLC checks every open, write and read against the specification."""
from vf.core import *
from checks import store_gen as sg
DRIVERS = [sg.DRV]


def models(ctx):
    c = """SPECIFICATION Spec
CONSTANTS MaxLen = %d EmitLen = %d Crash = FALSE
INVARIANTS ClosedComplete LastWins Members
"""
    return [dict(module="MCStore", cfg=c % ((4, 4), (5, 5))[ctx.thorough], workers=6)]


def history(rng, x, fork):
    """the operations of an emitted history, and reads of all its names in both states"""
    V = {1: [1, 0, 0, 0], 2: [0] * 6 + [0xf0, 0x3f]}
    ops = [{"e": "S", "fork": fork}]
    tag = lambda p: [Tag(q) for q in p]
    busy, st = False, "none"
    synced = False
    for o in x:
        if o["e"] == "open":
            ops.append({"e": "open", "f": Tag("f0"), "mode": Tag(o["mode"]), "via": rng.randrange(2)})
            if st in ("bad", "torn") and o["mode"] != "trunc":
                return None
            if o["mode"] == "trunc" or (o["mode"] == "excl") == (st == "none"):
                busy, synced = True, o["mode"] == "rdw"
        elif o["e"] == "put":
            ops.append(sg.put(o["p"], o["v"]["k"], [V[b] for b in o["v"]["a"]], o["mode"], rng.randrange(2)))
        elif o["e"] == "group":
            ops.append({"e": "group", "p": tag(o["p"])})
        elif o["e"] == "flush":
            ops.append({"e": "flush"})
            synced = True
        else:
            ops.append({"e": o["e"], "how": rng.randrange(2)})
            st = "ok" if o["e"] == "close" else "torn" if synced else "bad"
            busy = False
    reads = [sg.read(rng, p, k) for p in (("a",), ("g", "x")) for k in ("int", "vd")] + [sg.read(rng, ("g",), "int")]
    if busy:
        ops += reads + [{"e": "close", "how": rng.randrange(2)}]
        st = "ok"
    ops.append({"e": "open", "f": Tag("f0"), "mode": Tag("read"), "via": rng.randrange(2)})
    if st in ("ok", "torn"):
        ops += reads
    return ops


def groups(ctx):
    rng = ctx.rng
    em = ctx.emitted["MCStore"]
    rng.shuffle(em)
    ss = [history(rng, x, 0) for x in em[:ctx.n(700, 8000)]]
    simple = ["int", "dbl", "vi", "vd", "vz", "vb", "str", "enum", "vf"]
    for k in range(ctx.n(250, 4000)):
        s = sg.Session(rng, rng.choice([simple, simple + ["m", "pair", "vv"], sg.ALL, sg.GROUPED + ["vd", "vi", "vz"]]))
        for _ in range(rng.randint(10, 45)):
            s.one()
        ss.append(s.readall())
    # long histories
    for k in range(ctx.n(6, 60)):
        s = sg.Session(rng, rng.choice([simple, sg.ALL, sg.GROUPED + ["vd", "vi", "vz"]]))
        for _ in range(rng.randint(100, 200)):
            s.one()
        ss.append(s.readall())
    return [dict(driver="store", trace="TraceStore", sessions=ss)]
