"""Running a driver as several processes: one record per operation, with what each process saw in "o"."""
import glob
import json
import os
import shutil
import signal
import subprocess
from vf.core import line_of, json_of, Error, LONGEST


def drive(exe, sessions, work, secs=20, maxdeaths=60, env=None):
    os.makedirs(work, exist_ok=True)
    cwd = os.path.join(work, "cwd")
    os.makedirs(cwd, exist_ok=True)
    script, outp = os.path.join(work, "script"), os.path.join(work, "out")
    lines, where = [], []
    for si, s in enumerate(sessions):
        for op in s:
            lines.append(line_of(op))
            where.append(si)
    with open(script, "w") as f:
        f.write("\n".join(lines) + "\n")
    np = int(env["VF_NP"])
    e = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_mpi_yield_when_idle="1",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_orte_tmpdir_base=cwd, TMPDIR=cwd, PMIX_SYSTEM_TMPDIR=cwd, OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm="isolated",
             OMPI_MCA_btl_vader_backing_directory=cwd, OMPI_MCA_mpi_abort_delay="0", OMPI_MCA_orte_abort_on_non_zero_status="1",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=1:hard_rss_limit_mb=3500",
             UBSAN_OPTIONS="print_stacktrace=1")
    e.update(env)
    ranks = range(max(np, 1))
    res = [None] * len(lines)
    pos, deaths = 0, 0
    while pos < len(lines):
        for f in glob.glob(outp + ".*"):
            os.unlink(f)
        cmd = [exe, script, outp, str(pos), str(secs)]
        if np:
            cmd = ["mpirun", "-np", str(np)] + cmd
        with open(os.path.join(work, "log"), "wb") as lg:
            p = subprocess.Popen(cmd, stdout=lg, stderr=lg, cwd=cwd, env=e, start_new_session=True)
            rc = p.wait()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        seen = []
        for r in ranks:
            got = []
            if os.path.exists(outp + ".%d" % r):
                with open(outp + ".%d" % r) as f:
                    for ln in f:
                        if not ln.endswith("\n"):
                            break
                        got.append(json.loads(ln) if len(ln) < LONGEST else {"x": 7})
            seen.append(got)
        n = min(len(x) for x in seen)
        if n == 0 and pos == 0 and rc not in (98, 99):
            with open(os.path.join(work, "log"), errors="replace") as lg:
                raise Error("the processes did not start (%d): %s" % (rc, lg.read()[-800:]))
        for k in range(n):
            o = [seen[r][k] for r in ranks]
            res[pos + k] = {"x": max(x["x"] for x in o), "o": o}
        pos += n
        if pos >= len(lines):
            break
        res[pos] = {"x": 8 if rc == 98 else 9, "sig": rc}
        deaths += 15 if rc == 98 else 1
        si = where[pos]
        while pos < len(lines) and where[pos] == si:
            pos += 1
        if deaths >= maxdeaths:
            break
    out, k = [], 0
    for s in sessions:
        recs = []
        for op in s:
            r = res[k]
            k += 1
            if r is None:
                continue
            rec = json_of(op)
            rec.update(r)
            recs.append(rec)
        out.append(recs)
    shutil.rmtree(cwd, ignore_errors=True)
    return out
