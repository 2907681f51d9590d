"""BuildFile.tla specifies what a written build file does: which objects, programs and libraries a build makes from
which files, what changed files make out of date, and what cleaning removes; MCBuildFile.tla explores every short
history of a project and shows that a build leaves everything newer than what it comes from, that another one has
nothing to do, that nothing is made without need, and that cleaning leaves what was given. Those histories and random
ones are played with the files the real scripts write, real make and a compiler that records what it is asked for, and
TLC checks every compilation, linking, flag, order and file."""
import os
from vf.core import *
DRIVERS = [Driver("t02", "t02.cpp", lib=[])]
DRIVERS[0].lib = []
ENV = {"VF_SCRIPTS": REPO + "/scripts", "VF_BUILDFILE": VERIF + "/harness/buildfile.pl", "MAKEFLAGS": "", "MAKEFILES": ""}
PSI = "@libpsimaglite.a"


def models(ctx):
    return [dict(module="MCBuildFile", workers=3, name="MCBuildFile%d" % k, cfg="""SPECIFICATION Spec
CONSTANTS MaxSteps = %d EmitMod = %d Kind = %d
INVARIANTS Fresh Twice Whole Gone Emit
PROPERTY Needed
""" % ((5, 6)[ctx.thorough], (47, 41)[ctx.thorough], k)) for k in (0, 2)]


def tags(x):
    """the same with names as TLA+ strings"""
    return Tag(x) if isinstance(x, str) else [tags(y) for y in x] if isinstance(x, list) else {k: tags(v) for k, v in x.items()} if isinstance(x, dict) else x


def file(f, inc=()):
    return {"e": "file", "f": f, "inc": list(inc), "_n": Tag(f), "_i": tags(list(inc))}


def rm(f):
    return {"e": "rm", "f": f, "_n": Tag(f)}


def write(rng, d, old=False):
    """d: the programs and flags asked for -> the record"""
    cx = [rng.choice(["-O%d" % rng.randint(0, 3), "-DA=%d" % rng.randint(0, 9), "-g", "-Iinc", "-DU"]) for _ in range(rng.randint(0, 3))]
    ld = ["-l" + rng.choice(["m", "pthread", "blas"]) for _ in range(rng.randint(0, 2))]
    cadd = ["-DE%d" % rng.randint(0, 9) for _ in range(rng.randint(0, 2))]
    ladd = ["-L" + rng.choice(["here", "/there"]) for _ in range(rng.randint(0, 1))]
    path = rng.choice([None, "", "./", "../src/"])
    k = d["kind"]
    conf = "CXX = TOP/cxx\nSTRIP_COMMAND = TOP/strip\nCPPFLAGS = %s\nLDFLAGS = %s\n" % (" ".join(cx), " ".join(ld))
    l = ["kind\t%d" % k, "set\tcode\tthing"]

    def opt(key, v, always=False):
        if v or always or rng.random() < .3:
            l.append("set\t%s\t%s" % (key, v))
    opt("additional", " ".join(d["extra"]), k == 2)
    opt("additional2", " ".join(d["gone"]), k == 2)
    more = d["more"][:]
    if k == 0 and len(more) > 1:
        opt("additional4", more.pop())
    opt("additional3", " ".join(more))
    if k == 2:
        libs = (["-lpsimaglite"] if d["psi"] else []) + ld
        rng.shuffle(libs)
        l += ["set\tlibs\t" + " ".join(libs), "set\tcxx\tTOP/cxx", "set\tcppflags\t" + " ".join(cx), "set\tstrip\tTOP/strip"]
        ld = libs
        path = ""
    else:
        if path is not None:
            l.append("set\tpath\t" + path)
        path = path or ""
    if k == 0:
        opt("CPPFLAGS", " ".join(cadd))
        opt("LDFLAGS", " ".join(ladd))
        if d["psi"]:
            l.append("set\tneedsPsimagLiteLib\t1")
        elif rng.random() < .4:
            l.append("set\tneedsPsimagLiteLib\t0")
    for q in d["drv"]:
        if q["plain"]:
            l.append("drv\t" + q["name"])
        else:
            l.append("\t".join(["drvh", q["name"], "1" if q["aux"] else rng.choice(["-", "0"]), " ".join(q["objs"]) if q["objs"] != [q["name"] + ".o"] or rng.random() < .5 else "-",
                                q["link"][2:] or rng.choice(["-", ""])]))
    dd = dict(kind=k, psi=int(d["psi"]), extra=d["extra"], gone=d["gone"], more=d["more"], cf=cx, lf=ld, cadd=cadd, ladd=ladd, path=path,
              drv=[{a: q[a] for a in ("name", "aux", "objs", "lib", "link")} for q in d["drv"]])
    return {"e": "write", "lines": l, "conf": conf, "_d": tags(dd)}


def make(rng, g):
    return {"e": "make", "g": g, "_n": Tag(g), "jobs": rng.choice([1, 1, 1, 4])}


def plain(n, k, psi):
    return dict(name=n, plain=True, aux=0, objs=[n + ".o"], lib=PSI if k == 0 and psi else "", link="-lpsimaglite" if k == 0 and psi else "")


def project(rng):
    k = rng.choice([0, 0, 1, 2])
    psi = rng.random() < .6 if k != 1 else False
    names = rng.sample(["main", "b2", "c_x", "dmrg", "e-f", "observe", "toolbox", "z"], rng.randint(1, 5))
    drv = []
    for n in names:
        if k == 2 or rng.random() < .4:
            drv.append(plain(n, k, psi))
        else:
            lib = rng.choice(["", "", "zed", "dmrgpp"])
            drv.append(dict(name=n, plain=False, aux=int(rng.random() < .3), objs=[n + ".o"], lib="lib%s.a" % lib if lib else "", link="-l" + lib if lib else ""))
    others = [q["name"] + ".o" for q in drv] + ["given.o"]
    for q in drv:
        if not q["plain"] and not q["aux"] and rng.random() < .5:
            q["objs"] = [q["name"] + ".o"] + [o for o in rng.sample(others, rng.randint(0, len(others))) if o != q["name"] + ".o"]
        if q["aux"]:
            q["lib"] = q["link"] = ""
    return dict(kind=k, psi=int(psi), drv=drv, extra=rng.sample(["x.h", "y.h"], rng.choice([0, 0, 1, 2])),
                gone=rng.sample(["tmp1", "out.txt"], rng.choice([0, 1, 2])), more=rng.sample(["m1", "m2"], rng.choice([0, 0, 1, 2])))


def history(rng, n):
    d = project(rng)
    heads = ["p.h", "q.h", "r.h"]
    inc = lambda: rng.sample(heads, rng.randint(0, 2))
    s = [{"e": "S"}]
    have = set(heads + d["extra"] + d["gone"] + d["more"] + ["given.o", "libzed.a", "libdmrgpp.a", "mine.txt", "corex"])
    cpp = [q["name"] + ".cpp" for q in d["drv"]]
    fs = sorted(have) + cpp
    rng.shuffle(fs)
    s += [file(f, inc() if f.endswith(".cpp") else []) for f in fs if rng.random() > .01]
    s.append(write(rng, d))
    progs = [q["name"] for q in d["drv"] if not q["aux"]]
    given = sorted(have)
    for _ in range(n):
        r = rng.random()
        cpp = [q["name"] + ".cpp" for q in d["drv"]]
        outs = progs + [c[:-4] + ".o" for c in cpp] + ["Makefile.dep"] + ([PSI] if d["psi"] else [])
        if r < .25:
            s.append(file(*rng.choice([(c, inc()) for c in cpp] + [(h,) for h in heads + d["extra"]] + [("libzed.a",), ("given.o",)] + ([(PSI,)] if d["psi"] else []))))
        elif r < (.38 if d["kind"] == 1 else .3):
            f = rng.choice(["Makefile", "Config.make", "Config.make"])
            s.append({"e": "touch", "f": f, "_n": Tag(f)})
        elif r < .4:
            s.append(rm(rng.choice(outs)))
        elif r < .46:
            # the build file is written again
            if rng.random() < .5 and len(d["drv"]) < 6:
                nm = "new%d" % len(s)
                d["drv"] = d["drv"] + [plain(nm, d["kind"], d["psi"])]
                progs.append(nm)
                s.append(file(nm + ".cpp", inc()))
            s.append(write(rng, d))
        elif r < .52:
            s.append(make(rng, "clean"))
            for f in ["given.o", "libzed.a", "libdmrgpp.a"] + d["gone"] * rng.randint(0, 1):
                s.append(file(f))
        else:
            s.append(make(rng, rng.choice(["all"] * 3 + progs + [cpp[0][:-4] + ".o"])))
    s.append(make(rng, "all"))
    return s


def groups(ctx):
    rng = ctx.rng
    ss = []
    for em in [x for k in sorted(ctx.emitted) for x in ctx.emitted[k]]:
        d = em["d"]
        p = dict(d, drv=[dict(q, plain=d["kind"] == 2) for q in d["drv"]], psi=d["psi"] if d["kind"] == 2 else 0)
        s = [{"e": "S"}]
        for q in d["drv"]:
            s.append(file(q["name"] + ".cpp", {"a": ["p.h"], "b": ["p.h", "q.h"]}.get(q["name"], [])))
        s += [file(f) for f in ["p.h", "q.h", "x.h", "libz.a", "tmp1"]]
        s.append(write(rng, p))
        incs = {q["name"] + ".cpp": {"a": ["p.h"], "b": ["p.h", "q.h"]}.get(q["name"], []) for q in d["drv"]}
        for a, f in em["h"]:
            if f == "Makefile":
                s.append(write(rng, p) if rng.random() < .5 else {"e": "touch", "f": f, "_n": Tag(f)})
            elif a in ("touch", "put"):
                s.append(file(f, incs.get(f, [])))
            elif a == "rm":
                s.append(rm(f))
            else:
                s.append(make(rng, "clean" if a == "clean" else f))
        ss.append(s)
    rng.shuffle(ss)
    ss = ss[:ctx.n(60, 800)]
    for _ in range(ctx.n(100, 2000)):
        ss.append(history(rng, rng.randint(3, 9)))
    return [dict(driver="t02", trace="TraceT02", sessions=ss, secs=60, env=ENV)]
