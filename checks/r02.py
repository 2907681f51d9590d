"""Progress.tla is the state of what a process has written, and where: standard output or the file it was sent to, the
signal-toggled buffer and its file, timed sections. MCProgress.tla runs through every short sequence of actions and
shows that nothing is lost, duplicated, out of place or written by other threads. Each of those sequences and long
random ones run in a process of their own with the real classes, and TLC compares everything they left behind:
standard output and error, both files, the buffer file, what was in the file while the process ran, and what was
refused."""
from vf.core import *
DRIVERS = [Driver("r02", "r02.cpp", lib=["Concurrency.cpp", "PsimagLite.cpp", "Mpi.cpp", "MemResolv.cpp", "ProgressIndicator.cpp", "Io/TypeToH5.cpp"], libs=HDF5)]
S = {"e": "S"}


def models(ctx):
    return [dict(module="MCProgress", workers=4, cfg="""SPECIFICATION Spec
CONSTANTS MaxOps = %d EmitMod = TRUE
INVARIANTS Same Lines Times Silent Kept Stops
PROPERTY Monotone
""" % (3, 4)[ctx.thorough])]


def run(rng, acts, inds, texts):
    return {"e": "run", "old": int(rng.random() < .5), "acts": [list(a) for a in acts], "inds": [[Tag(c), t] for c, t in inds], "texts": [Tag(t) for t in texts]}


def random_run(rng):
    callers = ["Main", "LanczosSolver", "x", "Io::In"]
    inds = [(rng.choice(callers), rng.choice([0, 0, 0, 1, 2])) for _ in range(rng.randint(1, 3))]
    texts = ["".join(rng.choice("abcdefgh:=") for _ in range(rng.choice([1, 2, 5, 12, 30] * 4 + [70, 130, 300]))) for _ in range(rng.randint(1, 4))]
    acts = []
    w = [8, 8, 4, 6, 5, 2, 1, 2, 2, 2, 3, 2, 1, 3, 1, 2, 3]
    if rng.random() < .4:
        acts.append([6, rng.randrange(2), rng.randrange(4)])
    for _ in range(rng.randint(1, 25) if rng.random() < .97 else rng.choice([70, 140])):
        c = rng.choices(range(1, 18), w)[0]
        a = rng.randrange(2) if c == 6 else rng.randint(1, 30) if c == 4 else rng.choice([1, 2, 3, 4, 8, 17]) if c == 16 else rng.randrange(4) if c in (11, 12, 15) else rng.randrange(len(inds))
        b = rng.randrange(4) if c == 6 else rng.randrange(len(texts))
        acts.append([c, a, b])
    return run(rng, acts, inds, texts)


def status_session(rng):
    """a status file that changes, and one reader of it"""
    labels = ["VmPeak:", "VmSize:", "VmHWM:", "Name:", "Threads:", "Vm", "kB"]

    def text():
        t = "".join(l + rng.choice(["\t", " ", "   ", "\t  ", ""]) + rng.choice(["%d kB" % rng.randint(0, 10 ** 7), "x", "a b  c ", "1"]) + "\n" for l in rng.sample(labels[:5], rng.randint(0, 5)))
        for _ in range(rng.choice([0, 0, 0, 30])):
            t += "F%d:\t%d\n" % (rng.randint(0, 99), rng.randint(0, 999))
        return t[:-1] if t and rng.random() < .3 else t
    s = [S, {"e": "status", "s": text()} if rng.random() < .9 else {"e": "nostatus"}, {"e": "usage"}]
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        if r < .2:
            s.append({"e": "status", "s": text()} if rng.random() < .8 else {"e": "nostatus"})
        elif r < .35:
            s.append({"e": "update"})
        elif r < .4:
            s.append({"e": "usage"})
        elif r < .5:
            s.append({"e": "times", "t": [y for _ in range(3) for y in (rng.randint(0, 9999), 1000 * rng.randint(0, 999))]})
        else:
            s.append({"e": "entry", "l": rng.choice(labels)})
    return s


def env_session(rng):
    """what a run says of itself, and the environment it sets"""
    names = ["VF_A", "VF_AB", "VF_OTHER"]
    s = [S]
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if r < .15:
            s.append({"e": "info", "app": rng.choice(["DMRG++", "x", "a b", "FreeFermions 2"]), "twice": rng.random() < .5})
        elif r < .6:
            s.append({"e": "env", "n": rng.choice(names) if rng.random() < .9 else rng.choice(["", "VF_A=", "=", "V=F"]), "v": rng.choice(["", "1", "a b", "x=y", "long" * 20, "/p:/q"])})
        else:
            s.append({"e": "getenv", "n": rng.choice(names)})
    return s


def groups(ctx):
    rng = ctx.rng
    ops = []
    em = list(ctx.emitted["MCProgress"])
    rng.shuffle(em)
    for h in em[:ctx.n(900, 10 ** 6)]:
        op = run(rng, h, [("Main", 0), ("Other", 1)], ["alpha", "b"])
        ops.append(op)
    for _ in range(ctx.n(500, 5000)):
        ops.append(random_run(rng))
    return [dict(driver="r02", trace="TraceR02", sessions=[env_session(rng) for _ in range(ctx.n(25, 300))] + [status_session(rng) for _ in range(ctx.n(40, 600))] + [[S] + ops[k:k + 20] for k in range(0, len(ops), 20)])]
