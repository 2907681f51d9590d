"""Runs one check: builds the driver from /repo's tree, model-checks the
specification, generates scripts, runs the real code on them and has TLC judge every
recorded operation against the specification."""
import concurrent.futures as cf
import glob, hashlib, importlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NCPU = 8
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = os.environ.get("VF_CXX", "g++").split()
INC = ["-I" + REPO, "-I" + REPO + "/src", "-I" + REPO + "/src/Io", "-I" + REPO + "/src/Ainur",
       "-I/usr/include/hdf5/serial", "-I" + VERIF + "/harness"]
HDF5 = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5"]


class Error(Exception):
    """The check itself failed (exit status 2)."""


class Tag(str):
    """A string the specification sees as a TLA+ string, the driver as a bare token."""


# ---------------------------------------------------------------- encoding
def enc(v):
    if isinstance(v, bool):
        return [str(int(v))]
    if isinstance(v, int):
        return [str(v)]
    if isinstance(v, Tag):
        return [str(v)]
    if isinstance(v, str):
        return ["x" + v.encode("latin-1").hex()]
    if isinstance(v, (list, tuple)):
        r = [str(len(v))]
        for a in v:
            r += enc(a)
        return r
    raise Error("cannot encode %r" % (v,))


def js(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Tag) or isinstance(v, int):
        return v
    if isinstance(v, str):
        return [c for c in v.encode("latin-1")]
    if isinstance(v, (list, tuple)):
        return [js(a) for a in v]
    if isinstance(v, dict):
        return {k: js(a) for k, a in v.items()}
    raise Error("cannot write %r" % (v,))


def line_of(op):
    t = [op["e"]]
    for k, v in op.items():
        if k != "e" and not k.startswith("_"):
            t += enc(v)
    return " ".join(t)


def json_of(op):
    return {k.lstrip("_"): (js(v) if k != "e" else v) for k, v in op.items()}


def stoks(codes):
    """array of character codes -> python str"""
    return "".join(chr(c) for c in codes)


# ---------------------------------------------------------------- build
CORE = ["MersenneTwister.cpp", "Matrix.cpp", "Mpi.cpp", "Concurrency.cpp", "ProgressIndicator.cpp", "MemResolv.cpp",
        "PsimagLite.cpp", "PsiBase64.cpp", "SpecialFunctions.cpp", "TridiagonalMatrix.cpp", "PredicateSimple.cpp"]


class Driver:
    def __init__(self, name, src, lib=(), defs=("USE_PTHREADS", "USE_BOOST"), libs=(), opt="-O1",
                 flags=()):
        self.name, self.src, self.lib, self.defs = name, src, list(lib), list(defs)
        self.lib = CORE + [x for x in self.lib if x not in CORE]
        self.libs, self.opt, self.flags = list(libs), opt, list(flags)


SAN = os.environ.get("VF_SAN", "1") == "1"
SANFLAGS = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,null", "-fno-sanitize-recover=undefined",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR", "-ftrivial-auto-var-init=pattern"]


COV = os.environ.get("VF_COV", "")  # a directory for line coverage (tools/coverage.py)


def coverage_of(ctx):
    d = os.path.join(ctx.scratch, "gcov")
    os.makedirs(d)
    hit = {}
    for g in glob.glob(os.path.join(ctx.scratch, "*.gcda")):
        p = subprocess.run(["gcov", "--json-format", "--stdout", g], capture_output=True, cwd=d)
        for ln in p.stdout.splitlines():
            for f in json.loads(ln)["files"]:
                n = f["file"]
                if not os.path.abspath(n).startswith(os.path.abspath(REPO) + "/"):
                    continue
                h = hit.setdefault(os.path.relpath(n, REPO), {})
                for x in f["lines"]:
                    h[x["line_number"]] = h.get(x["line_number"], 0) + x["count"]
    with open(os.path.join(COV, ctx.id + ".json"), "w") as f:
        json.dump(hit, f)


def build(drivers, scratch):
    jobs = []
    san = ["--coverage", "-fprofile-update=atomic", "-DVF_COV"] if COV else SANFLAGS if SAN else []
    objs = {}

    def flags(d):
        common = CXX + ["-std=c++17", d.opt, "-w", "-pthread"] + san + d.flags + \
            ["-D" + x for x in d.defs] + INC
        return common, hashlib.md5(" ".join(common).encode()).hexdigest()[:8]
    for d in drivers:
        common, key = flags(d)
        objs[d.name] = []
        for s in [os.path.join(VERIF, "harness", d.src)] + [os.path.join(REPO, "src", x) for x in d.lib]:
            o = os.path.join(scratch, key + "_" + s.replace("/", "_") + ".o")
            objs[d.name].append(o)
            if not any(j[1] == o for j in jobs):
                jobs.append((common + ["-c", s, "-o", o], o))

    def run(j):
        p = subprocess.run(j[0], capture_output=True, text=True)
        if p.returncode:
            raise Error("does not compile: " + " ".join(j[0]) + "\n" + p.stderr[-6000:] + "\n(does not compile)")
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run, jobs))
    exes = {}
    for d in drivers:
        e = os.path.join(scratch, "drv_" + d.name)
        cmd = ["g++", "-pthread"] + san + d.flags + objs[d.name][:1]
        ar = e + ".a"
        subprocess.run(["ar", "rcs", ar] + objs[d.name][1:], check=True)
        cmd += [ar, "-o", e] + d.libs + ["-llapack", "-lblas"]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode and "undefined reference" in p.stderr:
            # something moved to another file: with all that compile
            common, key = flags(d)
            more = []
            for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")) + glob.glob(os.path.join(REPO, "src", "*", "*.cpp"))):
                o = os.path.join(scratch, key + "_" + s.replace("/", "_") + ".o")
                if o not in objs[d.name]:
                    more.append((common + ["-c", s, "-o", o], o))
            with cf.ThreadPoolExecutor(NCPU) as ex:
                ok = list(ex.map(lambda j: os.path.exists(j[1]) or not subprocess.run(j[0], capture_output=True).returncode, more))
            subprocess.run(["ar", "rcs", ar] + objs[d.name][1:] + [j[1] for j, k in zip(more, ok) if k], check=True)
            p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise Error("does not link: " + " ".join(cmd) + "\n" + p.stderr[-6000:])
        exes[d.name] = e
    return exes


# ---------------------------------------------------------------- running the driver
LONGEST = 1000000


def drive(exe, sessions, work, secs=20, maxdeaths=60, env=None):
    """-> list (per session) of records (op + observation), possibly cut short"""
    os.makedirs(work, exist_ok=True)
    cwd = os.path.join(work, "cwd")
    os.makedirs(cwd, exist_ok=True)
    script = os.path.join(work, "script")
    outp = os.path.join(work, "out")
    lines, where = [], []
    for si, s in enumerate(sessions):
        for op in s:
            lines.append(line_of(op))
            where.append(si)
    with open(script, "w") as f:
        f.write("\n".join(lines) + "\n")
    e = dict(os.environ, MALLOC_PERTURB_="165", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="2")
    if SAN and not COV:
        e.update(ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=1:"
                              "max_malloc_fill_size=67108864:hard_rss_limit_mb=3500:quarantine_size_mb=64",
                 UBSAN_OPTIONS="print_stacktrace=1")
    if env:
        e.update(env)
    res = [None] * len(lines)
    pos, deaths = 0, 0
    while pos < len(lines):
        if os.path.exists(outp):
            os.unlink(outp)
        with open(os.path.join(work, "log"), "wb") as lg:
            p = subprocess.Popen([exe, script, outp, str(pos), str(secs)], stdout=lg, stderr=lg,
                                 cwd=cwd, env=e, start_new_session=True)
            rc = p.wait()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if rc in (95, 96, 97):
            with open(os.path.join(work, "log"), errors="replace") as lg:
                raise Error("driver refused the script (%d) %s" % (rc, lg.read()[-500:]))
        n = 0
        if os.path.exists(outp):
            with open(outp) as f:
                for ln in f:
                    if not ln.endswith("\n"):
                        break
                    # a record of such a length cannot come from a correct run: x = 7 stands for it
                    res[pos + n] = json.loads(ln) if len(ln) < LONGEST else {"x": 7}
                    n += 1
        pos += n
        if pos >= len(lines):
            break
        res[pos] = {"x": 8 if rc == 98 else 9, "sig": rc}
        deaths += 15 if rc == 98 else 1
        if os.environ.get("VF_LOG"):
            shutil.copy(os.path.join(work, "log"), os.environ["VF_LOG"])
        si = where[pos]
        while pos < len(lines) and where[pos] == si:
            pos += 1
        if deaths >= maxdeaths:
            break
    out, k = [], 0
    for s in sessions:
        recs = []
        for op in s:
            r = res[k]
            k += 1
            if r is None:
                continue
            rec = json_of(op)
            for a, b in r.items():
                rec[a] = b
            recs.append(rec)
        out.append(recs)
    shutil.rmtree(cwd, ignore_errors=True)
    return out


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, meta, env=None, workers=1, heap="2g", timeout=800, extra=(), deadlock=False):
    os.makedirs(meta, exist_ok=True)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=SPEC,
                           errors="replace")
    except subprocess.TimeoutExpired as ex:
        raise Error("TLC timed out on " + module)
    return p.returncode, p.stdout + p.stderr


def clean(out):
    """TLC's output without the banner"""
    drop = ("Parsing file", "Semantic processing", "Warning: Please run", "(Use the -nowarn", "Running breadth", "TLC2 Version")
    return "\n".join(x for x in out.splitlines() if x and not x.startswith(drop) and not x.startswith('"@@'))


def emitted(out):
    r = []
    for ln in out.splitlines():
        if ln.startswith('"@@'):
            r.append(json.loads(json.loads(ln)[2:]))
    return r


RX = re.compile(r"(\d+) states generated, (\d+) distinct states found")
RXS = re.compile(r"The number of states generated: (\d+)")


class Ctx:
    def __init__(self, id, tier, seed, scratch):
        self.id, self.tier, self.seed, self.scratch = id, tier, seed, scratch
        self.rng = random.Random("%s/%s" % (id, seed))
        self.emitted = {}
        self.models = []
        self.thorough = tier == "thorough"
        self.notes = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick


def run_model(ctx, m):
    """m: dict(module, cfg (text), name, workers, simulate=(num, depth))"""
    name = m.get("name", m["module"])
    cfg = os.path.join(ctx.scratch, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(m["cfg"])
    extra = []
    if m.get("simulate"):
        num, depth = m["simulate"]
        extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed)]
    t0 = time.time()
    cache = os.environ.get("VF_MODELCACHE", "")  # for tools/mutants.py, where only the code changes
    if cache:
        h = hashlib.md5((m["cfg"] + repr(extra)).encode())
        for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
            h.update(open(f, "rb").read())
        cache = os.path.join(cache, m["module"] + "_" + h.hexdigest())
        if os.path.exists(cache):
            ctx.emitted[name], x = json.load(open(cache))
            ctx.models.append(x)
            return
    rc, out = tlc(m["module"], cfg, os.path.join(ctx.scratch, "meta_" + name), workers=m.get("workers", 2),
                  heap=m.get("heap", "3g"), extra=extra, deadlock=m.get("deadlock", False), env=m.get("env"))
    if rc != 0:
        raise Error("model %s: TLC exit %d\n%s" % (name, rc, clean(out)[-4000:]))
    a = RX.findall(out)
    if a:
        gen, dist = int(a[-1][0]), int(a[-1][1])
    else:
        b = RXS.findall(out)
        gen = dist = int(b[-1]) if b else 0
    em = emitted(out)
    em.sort(key=lambda x: json.dumps(x, sort_keys=True))  # workers print in any order
    ctx.emitted[name] = em
    ctx.models.append({"model": name, "states": dist, "transitions": gen, "emitted": len(em),
                       "wall_s": round(time.time() - t0, 1)})
    if cache:
        with open(cache + ".%d" % os.getpid(), "w") as f:
            json.dump([em, ctx.models[-1]], f)
        os.rename(f.name, cache)


def judge(trace_module, recs_by_session, work, env=None, heap="2g", limit=800):
    """-> list of (session index, record index, expected)"""
    bad = []
    todo = list(range(len(recs_by_session)))
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, "trace.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n")
    for attempt in range(12):
        lines, where = [], []
        for si in todo:
            for k, r in enumerate(recs_by_session[si]):
                lines.append(json.dumps(r, separators=(",", ":")))
                where.append((si, k))
        if not lines:
            return bad
        tr = os.path.join(work, "trace.ndjson")
        with open(tr, "w") as f:
            f.write("\n".join(lines) + "\n")
        e = {"TRACE": tr}
        if env:
            e.update(env)
        rc, out = tlc(trace_module, cfg, os.path.join(work, "meta"), env=e, heap=heap, timeout=limit)
        em = emitted(out)
        if rc == 0:
            for x in em:
                si, k = where[x["mm"] - 1]
                bad.append((si, k, x["exp"]))
            return bad
        # the specification could not be evaluated on some record: blame that record
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if os.environ.get("VF_DEBUG"):
            sys.stderr.write(clean(out)[-3000:])
        if not ls or "Error" not in out:
            raise Error("TLC failed on trace %s (%d):\n%s" % (trace_module, rc, clean(out)[-4000:]))
        si, k = where[int(ls[-1]) - 1]
        msg = re.findall(r"Error: (.*)", out)
        bad.append((si, k, {"spec cannot evaluate": msg[0][:200] if msg else ""}))
        done = [x for x in todo if x <= si]
        # sessions before si were judged: keep their reports
        for x in em:
            s2, k2 = where[x["mm"] - 1]
            bad.append((s2, k2, x["exp"]))
        todo = [x for x in todo if x > si]
        for f in ("meta",):
            shutil.rmtree(os.path.join(work, f), ignore_errors=True)
    return bad


def shards(sessions, n):
    order = list(range(len(sessions)))
    tot = sum(len(s) for s in sessions)
    out, cur, w = [], [], 0
    for i in order:
        cur.append(i)
        w += len(sessions[i])
        if w >= tot / n and len(out) < n - 1:
            out.append(cur)
            cur, w = [], 0
    if cur:
        out.append(cur)
    return out


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def execute(mod, ctx, exes, groups):
    """groups: list of dict(driver, trace, sessions, secs, weight) -> list of failures"""
    errors = []
    fails, stats = [], {"sessions": 0, "records": 0, "ops": {}, "samples": []}
    jobs = []
    for gi, g in enumerate(groups):
        ss = g["sessions"]
        if not ss:
            continue
        nrec = sum(len(s) for s in ss)
        nsh = g.get("shards") or max(1, min(NCPU, nrec // g.get("per", 400) + 1, len(ss)))
        for k, idx in enumerate(shards(ss, nsh)):
            jobs.append((gi, k, idx))

    def work(j):
        gi, k, idx = j
        g = groups[gi]
        w = os.path.join(ctx.scratch, "g%d_%d" % (gi, k))
        sub = [g["sessions"][i] for i in idx]
        runner = g.get("runner", drive)
        recs = runner(exes[g["driver"]], sub, w, secs=g.get("secs", 20), env=g.get("env"))
        try:
            bad = judge(g["trace"], recs, w, heap=g.get("heap", "2g"), limit=800 if ctx.thorough else 400)
        except Error as e:  # the other parts may still show a violation
            bad = []
            errors.append(e)
        return gi, idx, recs, bad
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for gi, idx, recs, bad in ex.map(work, jobs):
            stats["sessions"] += len(recs)
            for s in recs:
                stats["records"] += len(s)
                for r in s:
                    stats["ops"][r["e"]] = stats["ops"].get(r["e"], 0) + 1
            for rs in recs:
                if len(rs) > 1 and sum(1 for x in stats["samples"] if x[0] == gi) < 2:
                    stats["samples"].append((gi, rs[:6]))
            for si, k, exp in bad:
                fails.append((gi, idx[si], k, recs[si][k], exp))
    return fails, stats, errors


def confirm(mod, ctx, exes, groups, f, tries):
    gi, si, k, rec, exp = f
    g = groups[gi]
    s = g["sessions"][si]
    runner = g.get("runner", drive)
    for t in range(tries):
        w = os.path.join(ctx.scratch, "confirm")
        shutil.rmtree(w, ignore_errors=True)
        recs = runner(exes[g["driver"]], [s], w, secs=g.get("secs", 20), env=g.get("env"))
        bad = judge(g["trace"], recs, w)
        if bad:
            _, k2, exp2 = bad[0]
            return k2, recs[0][k2], exp2, recs[0]
    return None


def write_replay(ctx, g, gi, si, session, rec, exp, n):
    id = ctx.id
    d = os.path.join(ctx.scratch if os.environ.get("VF_NOEVIDENCE") else VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (id, n))
    with open(p, "w") as f:
        json.dump({"property": id, "tier": ctx.tier, "seed": ctx.seed, "group": gi, "number": si, "driver": g["driver"], "trace": g["trace"], "script": [line_of(o) for o in session],
                   "session": [json_of(o) for o in session], "record": rec, "expected": exp}, f, indent=1)
    return p


def main(argv):
    id = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    keep = "--keep" in argv
    replay = json.load(open(argv[argv.index("--replay") + 1])) if "--replay" in argv else None
    if replay:
        tier, seed = replay["tier"], replay["seed"]
    t0 = time.time()
    mod = importlib.import_module("checks." + id.lower())
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % id)
    ctx = Ctx(id, tier, seed, scratch)
    rc = 2
    try:
        rc = run(mod, ctx, t0, replay)
    except Error as e:
        print("ERROR in check %s: %s" % (id, e))
        rc = 2
    finally:
        if keep:
            print("scratch:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


def again(mod, ctx, exes, groups, replay):
    """--replay: the one session of the file"""
    f = replay["group"], replay["number"], None, None, None
    if [line_of(o) for o in groups[f[0]]["sessions"][f[1]]] != replay["script"]:
        raise Error("the replay was made by another version of this check")
    c = confirm(mod, ctx, exes, groups, f, getattr(mod, "RETRIES", 3))
    if c is None:
        print("the session is accepted now")
        return 0
    print("  op %s, record %s" % (c[1]["e"], json.dumps(c[1])))
    print("  the specification expects %s" % json.dumps(c[2]))
    return 1


def run(mod, ctx, t0, replay=None):
    id = ctx.id
    models = mod.models(ctx)
    with cf.ThreadPoolExecutor(5) as ex:
        fb = ex.submit(build, mod.DRIVERS, ctx.scratch)
        fm = [ex.submit(run_model, ctx, m) for m in models]
        exes = fb.result()
        for x in fm:
            x.result()
    t1 = time.time()
    ctx.exes = exes
    groups = mod.groups(ctx)
    if replay:
        return again(mod, ctx, exes, groups, replay)
    fails, stats, errors = execute(mod, ctx, exes, groups)
    t2 = time.time()
    if COV:
        coverage_of(ctx)
    kf = known_findings()
    listed = {x["key"]: x for x in kf["findings"] if x["property"] == id}
    known = getattr(mod, "known", lambda g, session, k, rec, exp: None)
    nviol, seen, flaky, confirmed_ops = 0, set(), 0, {}
    for f in sorted(fails, key=lambda f: (f[0], len(groups[f[0]]["sessions"][f[1]]), f[1])):
        gi, si, k, rec, exp = f
        g = groups[gi]
        key = known(g, g["sessions"][si], k, rec, exp)
        if key and key in listed:
            seen.add(key)
            continue
        if confirmed_ops.get(rec["e"], 0) >= 2 or nviol >= 6 or flaky >= 20:
            nviol += confirmed_ops.get(rec["e"], 0) and 1 or 0
            continue
        c = confirm(mod, ctx, exes, groups, f, getattr(mod, "RETRIES", 3))
        if c is None:
            flaky += 1
            print("note: not repeated: op %s got %s expected %s" % (rec["e"], json.dumps(rec)[:300], json.dumps(exp)[:300]))
            continue
        k2, rec2, exp2, _ = c
        key = known(g, g["sessions"][si], k2, rec2, exp2)
        if key and key in listed:
            seen.add(key)
            continue
        nviol += 1
        confirmed_ops[rec["e"]] = confirmed_ops.get(rec["e"], 0) + 1
        p = write_replay(ctx, g, gi, si, g["sessions"][si], rec2, exp2, nviol)
        print("  op %s, record %s" % (rec2["e"], json.dumps(rec2)[:600]))
        print("  the specification expects %s" % json.dumps(exp2)[:600])
        print("VIOLATION property=%s replay=%s" % (id, os.path.relpath(p, VERIF)))
    if errors and not nviol:
        raise errors[0]
    for key in sorted(listed):
        if key in seen:
            print("KNOWN-FINDING: property=%s %s" % (id, listed[key]["what"]))
    extra = getattr(mod, "coverage", lambda ctx, groups, stats: {})(ctx, groups, stats)
    cov = {"states": sum(m["states"] for m in ctx.models), "transitions": sum(m["transitions"] for m in ctx.models),
           "traces_validated_against_impl": stats["sessions"], "records_validated": stats["records"],
           "records_by_operation": stats["ops"], "models": ctx.models,
           "samples": [x[1] for x in stats["samples"]][:4],
           "records_rejected": len(fails), "known_findings_seen": sorted(seen), "not_repeated": flaky}
    cov.update(extra)
    ev = {"property": id, "tier": ctx.tier, "seed": ctx.seed, "level": mod.LEVEL if hasattr(mod, "LEVEL") else "model_checking",
          "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 1),
          "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not os.environ.get("VF_NOEVIDENCE"):
        with open(os.path.join(VERIF, "evidence", id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d model states, %d sessions, %d records, %d rejected, %d violations; setup %.1fs, traces %.1fs, total %.1fs" % (
        id, cov["states"], stats["sessions"], stats["records"], len(fails), nviol, t1 - t0, t2 - t1, time.time() - t0))
    return 1 if nviol else 0
