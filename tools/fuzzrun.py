"""Coverage guided part of the thorough tier: libFuzzer chooses the draws of the generators.

The choices of a failing input are replayed by the ordinary worker (sanitizer build), shrunk and written as
a replay file like any other failure.
"""
import os
import random
import re
import shutil
import subprocess
import tempfile
import time

import check as ck
import vbuild


def _run(chk, exe, corpus, seconds, n, first):
    procs = []
    for i in range(n):
        scr = tempfile.mkdtemp(dir=chk.tmp)
        st = os.path.join(scr, "st")
        env = dict(ck.ENV, PBT_PROP=chk.pid, PBT_STATUS=st, PBT_SCRATCH=scr, PBT_COUNTS=os.path.join(scr, "counts"))
        errf = open(os.path.join(scr, "err"), "w+b")
        p = subprocess.Popen([exe, "-seed=%d" % (chk.seed * 1000 + first + i), "-max_total_time=%d" % seconds,
                              "-timeout=%d" % chk.conf.get("cpu", 40), "-rss_limit_mb=3500", "-max_len=6000",
                              "-len_control=20", "-reload=10", "-use_value_profile=1", "-handle_abrt=1",
                              "-artifact_prefix=" + scr + "/", "-print_final_stats=1", corpus],
                             stdout=errf, stderr=subprocess.STDOUT, env=env, cwd=scr, stdin=subprocess.DEVNULL)
        procs.append(dict(p=p, st=st, scr=scr, err=errf, rc=None))
    deadline = time.time() + seconds + 90
    failed = None
    while any(x["rc"] is None for x in procs) and time.time() < deadline and failed is None:
        time.sleep(0.2)
        for x in procs:
            if x["rc"] is None:
                x["rc"] = x["p"].poll()
                if x["rc"] not in (None, 0) and failed is None:
                    failed = x
    for x in procs:
        if x["rc"] is None:
            x["p"].kill()
            x["p"].wait()
    return procs, failed


def _stats(procs):
    ev = nt = cov = 0
    for x in procs:
        try:
            with open(os.path.join(x["scr"], "counts")) as f:
                a, b = f.read().split()
                ev += int(a)
                nt += int(b)
        except (OSError, ValueError):
            pass
        x["err"].seek(0)
        m = re.findall(r"cov: (\d+)", x["err"].read().decode("utf-8", "replace"))
        if m:
            cov = max(cov, int(m[-1]))
    return ev, nt, cov


def run(chk):
    """Returns (exit code, additional evidence)."""
    seconds = chk.conf["fuzz"] if not isinstance(chk.conf["fuzz"], bool) else 600
    seconds = int(os.environ.get("VERIF_FUZZ_SECONDS", seconds))
    exe = vbuild.build(("fuzz",))["fuzz"]
    if "san" not in chk.exe:
        chk.exe.update(vbuild.build(("san",)))
    corpus = tempfile.mkdtemp(dir=chk.tmp)
    rnd = random.Random(chk.seed)
    for i in range(64):
        with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
            f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([50, 200, 600, 1500, 4000]))))
    n = min(8, os.cpu_count() or 4)
    end = time.time() + seconds
    ev = nt = cov = 0
    first = 0
    while end - time.time() > 5:
        procs, failed = _run(chk, exe, corpus, int(end - time.time()), n, first)
        first += n
        e, t, v = _stats(procs)
        ev, nt, cov = ev + e, nt + t, max(cov, v)
        if failed is None:
            break
        failed["err"].seek(0)
        out = failed["err"].read().decode("utf-8", "replace")
        if failed["rc"] == 3 or (failed["rc"] == 1 and "unknown property" in out):
            return 2, dict(fuzzing=dict(error=out[-1000:]))
        s = ck.read_status(failed["st"])
        res = None
        if s is not None and failed["rc"] != -9:
            draws = s[1]
            tries, need = (60, 1) if chk.conf.get("nondet") else (3, 3)
            ok = 0
            for _ in range(tries):
                rc, o, _st = chk.replay_once("san", draws, full=True)
                if chk.fails(rc):
                    ok += 1
                    res = dict(draws=draws, rc=rc, out=o, idx=s[0], variant="san", how="coverage guided fuzzing")
                elif not chk.conf.get("nondet"):
                    break
                if ok >= need:
                    break
            if ok < need:
                res = None
        if res is not None:
            res = chk.shrink(res, 300)
            path = chk.write_replay(res)
            ck.log(res["out"][-4000:])
            ck.log("VIOLATION property=%s replay=%s" % (chk.pid, path))
            return 1, dict(fuzzing=dict(executions=ev, nontrivial=nt, coverage_edges=cov, violation=path))
        chk.notes.append("a failure found by fuzzing did not reproduce (exit code %s): %s" % (failed["rc"], out[-800:]))
        for x in procs:
            shutil.rmtree(x["scr"], ignore_errors=True)
    return 0, dict(fuzzing=dict(executions=ev, nontrivial=nt, coverage_edges=cov,
                                corpus=len(os.listdir(corpus)), seconds=seconds))
