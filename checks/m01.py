"""Processes.tla states what each process holds after a broadcast, a reduction, a gathering of elements and messages
received in any order, in three ways of grouping the processes; MCProcesses runs the gathering and the shared loop
message by message in every interleaving, with and without buffering, and shows that they end, that nothing is mixed up
or left over and that none leaves a loop before all its work is done. The real code runs as 1 to 4 processes (Open MPI),
and in a build without MPI; TLC judges what every process saw."""
from vf.core import *
from vf import mpi

LIBS = ["-llapack", "-lblas"]
DRIVERS = [Driver("procs", "procs.cpp", defs=("USE_PTHREADS", "USE_BOOST", "USE_MPI", "OMPI_SKIP_MPICXX"), libs=LIBS + HDF5 + ["-lmpi"],
                  flags=["-I/usr/lib/x86_64-linux-gnu/openmpi/include"]),
           Driver("proc1", "procs.cpp", libs=LIBS + HDF5)]
RETRIES = 2


def models(ctx):
    return [dict(module="MCProcesses", workers=4, cfg="""SPECIFICATION Spec
CONSTANTS MaxNp = %d MaxN = %d
INVARIANTS Right Nothing Barrier Shared Emitted
PROPERTY Ends
""" % ((3, 5), (4, 6))[ctx.thorough])]


def ints(rng, n, lo=-50, hi=50):
    return [rng.randint(lo, hi) for _ in range(n)]


def upto(rng, k, far=(13, 17, 64, 100, 257, 700)):
    """mostly few, now and then many"""
    return rng.randint(0, k) if rng.random() < .97 else rng.choice(far)


def value(rng, t, like=None):
    """a value of type t as lists of integers; like: one whose shape is to be kept"""
    lo = 0 if "l" in t else -50
    if t in ("i", "l", "d"):
        return [ints(rng, 1, lo)]
    if t == "pd":
        return [ints(rng, 2)]
    if t in ("vi", "vl", "vd"):
        return [ints(rng, len(like[0]) if like else upto(rng, 7), lo)]
    if t == "vc":
        return [ints(rng, len(like[0]) if like else 2 * upto(rng, 5))]
    if t in ("vvl", "vvd"):
        return [ints(rng, upto(rng, 5), lo) for _ in range(len(like) if like is not None else rng.randint(0, 4))]
    cx = 2 if t[-1] == "c" else 1
    if t in ("md", "mc"):
        r, c = like[0] if like else (1 + upto(rng, 3, (12, 15)), 1 + upto(rng, 3, (13, 17)))
        return [[r, c], ints(rng, r * c * cx)]
    if t in ("vmd", "vmc"):
        return sum([value(rng, t[1:]) for _ in range(len(like) // 2 if like is not None else rng.randint(0, 3))], [])
    r, c = 1 + upto(rng, 3, (12, 15, 40)), 1 + upto(rng, 3, (13, 17, 30))
    p, j, v = [0], [], []
    for _ in range(r):
        cols = sorted(rng.sample(range(c), rng.randint(0, c)))
        j += cols
        p.append(len(j))
    v = [rng.choice([-1, 1]) * rng.randint(1, 9) for _ in range(len(j) * cx)]
    return [[r, c], p, j, v]


BC = ["i", "l", "d", "vi", "vl", "vd", "vc", "vvl", "vvd", "pd", "md", "mc", "vmd", "vmc", "sd", "sc"]
P2P = ["i", "l", "d", "vi", "vl", "vd", "vc", "pd", "md", "mc", "sd", "sc"]
GATHER = ["i", "d", "vd", "vi", "pd", "md", "mc", "sd", "sc"]


def group(np, c):
    """the smallest group of the communicator"""
    return max(np, 1) if c < 2 else max(np // 2, 1)


def op(rng, np):
    n1 = max(np, 1)
    c = rng.choice([0, 0, 1, 2]) if np else 0
    root = rng.randrange(group(np, c))
    e = rng.choice(["bcast"] * 4 + ["reduce"] * 3 + ["gather"] * 3 + (["p2p"] * 3 if np > 1 else []) + ["id", "file", "progress"])
    if e == "file":
        return {"e": e, "closing": rng.randrange(2), "todo": [[k, ints(rng, rng.randint(1, 4) if k == 1 else 1)] for k in [rng.randrange(4) for _ in range(rng.randint(1, 5))]]}
    if e == "progress":
        return {"e": e, "how": rng.randrange(3), "n": rng.randint(0, 3)}
    if e == "id":
        return {"e": e, "comm": c}
    if e == "bcast":
        t = rng.choice(BC)
        if t[0] == "s":
            c, root = 0, 0
        first = value(rng, t)
        return {"e": e, "t": Tag(t), "comm": c, "root": root, "data": [first] + [value(rng, t, first if t[:2] in ("vv", "vm") else None) for _ in range(n1 - 1)]}
    if e == "reduce":
        t = rng.choice(["vi", "vl", "vd", "vc", "i", "l", "d", "md", "mc"])
        allr = 1 if t in ("i", "l", "d", "md", "mc") else rng.randrange(2)
        o = 0 if t[-1] == "c" or not np else rng.choice([0, 0, 1, 2, 3])
        first = value(rng, t)
        return {"e": e, "t": Tag(t), "all": allr, "op": o, "comm": c, "root": root, "data": [first] + [value(rng, t, first) for _ in range(n1 - 1)],
                "_fixed": 1 if t[0] == "m" else 0}
    if e == "gather":
        return gather(rng, np, c, root, rng.randint(0, 9))
    m = group(np, c)
    if m < 2:
        c, m = 0, np
    items = []
    for k in range(rng.randint(1, 6)):
        t = rng.choice(P2P)
        s, d = rng.sample(range(m), 2)
        # a long message waits for its receiver: all are sent before any is received
        one = lambda: next(v for v in iter(lambda: value(rng, t), None) if sum(map(len, v)) < 150)
        items.append([Tag(t), s, d, 1000 + 2 * k + 1 if t == "pd" else 10 * k + 1, one(), one()])
    order = list(range(len(items)))
    rng.shuffle(order)
    return {"e": e, "comm": c, "items": items, "order": order}


def gather(rng, np, c, root, n, pair=None):
    t = rng.choice(GATHER) if pair is None else "pd" if pair else rng.choice([x for x in GATHER if x != "pd"])
    return {"e": "gather", "t": Tag(t), "comm": c, "root": root, "data": [[value(rng, t) for _ in range(n)] for _ in range(max(np, 1))]}



def grouped(np, ss):
    return dict(driver="procs" if np else "proc1", trace="TraceM01", sessions=ss, runner=mpi.drive, env={"VF_NP": str(np)}, shards=1 if np > 2 else 2, secs=20)


def first(np):
    # both keys are needed: the driver's own count and the specification's
    return {"e": "S", "n": max(np, 1), "_np": np}


def groups(ctx):
    rng = ctx.rng
    r = []
    for np in (0, 1, 2, 3, 4):
        ops = [gather(rng, np, 0, j["root"], j["n"], j["pair"]) for j in ctx.emitted["MCProcesses"] if j["kind"] == "gather" and j["np"] == np]
        ops += [op(rng, np) for _ in range(ctx.n(20 if np < 2 else 900, 50 if np < 2 else 5000))]
        rng.shuffle(ops)
        r.append(grouped(np, [[first(np)] + ops[k:k + 12] for k in range(0, len(ops), 12)]))
    return r
