"""ParallelLoop.tla states what may be observed of a loop; MCParallelLoop.tla is the design
(creator, workers, balancer, joins) model-checked for up to 4 tasks and 3 threads (6 and 4
thorough) over every interleaving.  Every schedule of begins and ends of the emitted
configurations is forced on the real threads of every loop class, random larger loops run
freely with random naps, and TLC checks every recorded event."""
from vf.core import *
DRIVERS = [Driver("pth", "c01.cpp", lib=["PsimagLite.cpp", "Concurrency.cpp"]),
           Driver("ser", "c01.cpp", lib=["PsimagLite.cpp", "Concurrency.cpp"], defs=["USE_BOOST"]),
           Driver("omp", "c01.cpp", lib=["PsimagLite.cpp", "Concurrency.cpp"], defs=["USE_BOOST"], flags=["-fopenmp"])]
for d in DRIVERS:
    d.libs = ["-llapack", "-lblas"]
S = {"e": "S"}
RETRIES = 15


def models(ctx):
    base = "CONSTANTS Configs <- %s Kind = \"%s\" Emit = %s\nINVARIANTS NeverBad AllOnce QuietAfterReturn\n"
    ms = []
    for kind, c in (("default", "C4" if ctx.thorough else "C1"), ("over", "C1"), ("any", "C1")):
        ms.append(dict(module="MCParallelLoop", name="loop_" + kind, workers=2,
                       cfg="SPECIFICATION Spec\nPROPERTY Finishes\n" + base % (c, kind, "FALSE")))
    ms.append(dict(module="MCParallelLoop", name="emit_default", cfg="SPECIFICATION EmitSpec\n" + base % ("C2", "default", "TRUE")))
    ms.append(dict(module="MCParallelLoop", name="emit_any", cfg="SPECIFICATION EmitSpec\n" + base % ("C3", "any", "TRUE")))
    return ms


def mk(kind, t, serial=0, aff=0, stack=0):
    return {"e": "mk", "kind": Tag(kind), "serial": serial, "t": t, "aff": aff, "stack": stack}


def loop(n, t, start=0, w=None, tab=None, sched=(), naps=0):
    return {"e": "loop", "n": n, "start": start, "t": t, "w": w if w is not None else [1] * n,
            "tab": tab or [], "sched": list(sched), "naps": naps}


def groups(ctx):
    rng = ctx.rng
    ss = []
    K = ("ng", "p2")
    emd = ctx.emitted["emit_default"]
    ema = ctx.emitted["emit_any"]
    ncap = ctx.n(350, 5000)
    if len(emd) > ncap:
        emd = rng.sample(emd, ncap)
    if len(ema) > ncap:
        ema = rng.sample(ema, ncap)

    def sched(h):
        return [x for k, t, i in h if k < 2 for x in (k, i)]
    for n, t, sh, h in emd:
        for k in K:
            ss.append([S, mk(k, t), loop(n, t, sched=sched(h)), loop(n, t, sched=sched(h))])
    for n, t, sh, h in ema:
        k = rng.choice(("ngt", "p2t"))
        ss.append([S, mk(k, t), loop(n, t, tab=sh, sched=sched(h))])
    # free runs, several loops of different sizes with one engine
    for _ in range(ctx.n(250, 3000)):
        t = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 12]) if rng.random() < .94 else rng.choice([13, 16, 17, 24, 33, 70])
        k = rng.choice(("ng", "ngw", "ngb", "ngt", "p2", "p2w", "p2t", "inter"))
        s = [S, mk(k, 1 if k == "inter" else t, aff=rng.random() < .2 and k[0] == "n",
                   stack=rng.choice([0, 0, 0, 1 << 20, 100]))]
        tt = 1 if k == "inter" else t
        for _ in range(rng.randint(1, 4)):
            n = rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 40)] + ([t - 1, t, t + 1, 3 * t] if t > 12 else []))
            if rng.random() < .01:
                n = rng.randint(100, 300)
            use = min(n, tt)
            tab = [[] for _ in range(tt)]
            for i in rng.sample(range(n), n):
                tab[rng.randrange(use)].append(i)
            w = [rng.randint(0, rng.choice([1, 4, 50])) for _ in range(n)]
            s.append(loop(n, tt, start=rng.choice([0, 0, 1, 5, 1000]) if k in ("p2", "p2w", "p2t", "inter") else 0,
                          w=w, tab=tab, naps=rng.choice([0, 0, 50, 300])))
        ss.append(s)
    for _ in range(ctx.n(4, 30)):
        k = rng.choice(("ng", "ngw", "p2", "p2w"))
        t, n = rng.choice([(2, 2001), (2, 3001), (3, 3002), (7, 1500), (4, 1025)])
        ss.append([S, mk(k, t), loop(n, t, w=[1] * n)])
    for _ in range(ctx.n(40, 400)):
        t, t2 = rng.randint(1, 4), rng.randint(1, 3)
        n, m = rng.randint(0, 6), rng.randint(0, 6)
        ss.append([S, {"e": "nest", "n": n, "t": t, "m": m, "t2": t2, "sched": [], "naps": rng.choice([0, 100])}])
    ser = []
    for n in range(0, 12):
        for k in ("ng", "ngw", "ngb", "ngt", "p2", "inter"):
            st = rng.choice([0, 3, 17]) if k in ("p2", "inter") else 0
            ser.append([S, mk(k, 1, serial=1), loop(n, 1, start=st, w=[rng.randint(0, 3) for _ in range(n)], tab=[list(range(n))])])
    for t in (2, 3, 8):
        for k in ("ng", "ngw", "ngt", "p2"):
            ser.append([S, mk(k, t, serial=1)])
    ser += [[S, {"e": "nest", "n": n, "t": 1, "m": m, "t2": 1, "sched": [], "naps": 0}] for n in range(4) for m in range(4)]
    omp = []
    for _ in range(ctx.n(60, 500)):
        t = rng.randint(1, 8)
        s = [S, mk("p2", t)]
        for _ in range(3):
            s.append(loop(rng.randint(0, 30), t, start=rng.choice([0, 4]), naps=rng.choice([0, 100])))
        omp.append(s)
    return [dict(driver="pth", trace="TraceC01", sessions=ss, secs=20), dict(driver="ser", trace="TraceC01", sessions=ser, shards=1),
            dict(driver="omp", trace="TraceC01", sessions=omp, shards=2, env={"OMP_DYNAMIC": "false"})]
