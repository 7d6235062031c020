#!/usr/bin/env python3
"""Run the check of one property: generate cases, search for a violation, shrink it, write evidence.

usage: check.py ID [--tier quick|thorough] [--replay FILE]
Exit status: 0 the property held on everything explored, 1 violation (with a VIOLATION line), 2 error.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402
from props import PROPS  # noqa: E402

VERIF = vbuild.VERIF
SHARED_CAP = 1 << 18
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=67:print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=68",
}
ENV = dict(os.environ, **SAN_ENV)
ENV["LC_ALL"] = "C.UTF-8"


def log(*a):
    print(*a, flush=True)


def read_status(path):
    """Read index, draws and description of the case that was running."""
    try:
        with open(path, "rb") as f:
            b = f.read()
        idx, nd, dl, running = struct.unpack_from("<QIII", b, 0)
        off = 20  # three uint32 follow the index
        draws = list(struct.unpack_from("<%dI" % min(nd, SHARED_CAP), b, off))
        desc = b[off + 4 * SHARED_CAP: off + 4 * SHARED_CAP + dl].decode("utf-8", "replace")
        return idx, draws, desc, running
    except (OSError, struct.error):
        return None


def describe(rc):
    if rc == 10:
        return "oracle"
    if rc == 77:
        return "hang (cpu time limit for one case exceeded)"
    if rc == 66:
        return "address sanitizer report"
    if rc == 67:
        return "undefined behaviour sanitizer report"
    if rc == 68:
        return "thread sanitizer report"
    if rc < 0:
        try:
            return "crash (%s)" % signal.Signals(-rc).name
        except ValueError:
            return "crash (signal %d)" % -rc
    return "exit code %d" % rc


def known_findings(pid):
    """Entries of the committed list of defects that have not been repaired."""
    res = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) program=(\S+) shows="(.*?)" what="(.*)"\s*$', line)
            if m and m.group(1) == pid:
                res.append(m.groups()[1:])
    return res


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.conf = PROPS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vchk-%s-" % pid)
        self.notes = []
        variants = sorted(set(self.conf["shards"]))
        self.known = known_findings(pid)
        self.exe = vbuild.build(tuple(variants), tool=self.conf.get("tool", False) or bool(self.known),
                                python=self.conf.get("python", False))
        self.build_s = time.time() - self.t0
        self.bindir = os.path.dirname(self.exe["tool"]) if "tool" in self.exe else ""

    def cmd(self, variant, *args, scratch=None):
        return [self.exe[variant], "--prop=" + self.pid, "--tier=" + self.tier, "--bindir=" + self.bindir,
                "--python=" + self.exe.get("python", ""),
                "--scratch=" + (scratch or self.tmp), "--cpu=%d" % self.conf.get("cpu", 40)] + list(args)

    def search(self):
        count = self.conf[self.tier]
        shards = self.conf["shards"]
        n = len(shards)
        budget = self.conf.get("budget", {}).get(self.tier, 200 if self.tier == "quick" else 3000)
        procs = []
        for i, v in enumerate(shards):
            scr = os.path.join(self.tmp, "w%d" % i)
            os.makedirs(scr, exist_ok=True)
            st = os.path.join(self.tmp, "st%d" % i)
            out = os.path.join(self.tmp, "out%d.json" % i)
            errf = open(os.path.join(self.tmp, "err%d" % i), "w+b")
            c = self.cmd(v, "--seed=%d" % self.seed, "--from=%d" % i, "--to=%d" % count, "--stride=%d" % n,
                         "--status=" + st, "--out=" + out, "--budget=%g" % budget, scratch=scr)
            p = subprocess.Popen(c, stdout=errf, stderr=subprocess.STDOUT, env=ENV, cwd=scr, stdin=subprocess.DEVNULL)
            procs.append(dict(p=p, v=v, st=st, out=out, err=errf, i=i, rc=None))
        failed = None
        deadline = time.time() + budget + 120
        while any(x["rc"] is None for x in procs):
            time.sleep(0.05)
            for x in procs:
                if x["rc"] is None:
                    x["rc"] = x["p"].poll()
                    if x["rc"] not in (None, 0) and failed is None:
                        failed = x
            if failed is not None or time.time() > deadline:
                break
        for x in procs:
            if x["rc"] is None:
                x["p"].kill()
                x["p"].wait()
                x["killed"] = True
        return procs, failed

    def aggregate(self, procs):
        ev = disc = 0
        labels = {}
        samples = []
        hashes = set()
        rule = ""
        finished = True
        for x in procs:
            try:
                with open(x["out"]) as f:
                    d = json.load(f)
            except (OSError, ValueError):
                s = read_status(x["st"])
                if s:
                    ev += s[0] // max(1, len(procs))
                finished = False
                continue
            ev += d["evaluations"]
            disc += d["discards"]
            finished = finished and d["finished"]
            for k, v in d["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples += d["samples"]
            rule = d["rule"]
            with open(x["out"] + ".hashes", "rb") as f:
                b = f.read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        return dict(evaluations=ev, discards=disc, labels=labels, samples=samples[:6], distinct=len(hashes), rule=rule,
                    finished=finished)

    def replay_once(self, variant, draws, timeout=None, full=False):
        fd, path = tempfile.mkstemp(dir=self.tmp, suffix=".draws")
        with os.fdopen(fd, "w") as f:
            f.write("draws: " + " ".join(map(str, draws)) + "\n")
        st = path + ".st"
        scr = tempfile.mkdtemp(dir=self.tmp)
        try:
            r = subprocess.run(self.cmd(variant, "--replay=" + path, "--status=" + st, scratch=scr),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout or 300,
                               stdin=subprocess.DEVNULL, cwd=scr)
            out = r.stdout.decode("utf-8", "replace")
            s = read_status(st) if full else None
            return r.returncode, out, s
        except subprocess.TimeoutExpired:
            return None, "timeout", None
        finally:
            for p in (path, st):
                try:
                    os.unlink(p)
                except OSError:
                    pass
            shutil.rmtree(scr, ignore_errors=True)

    def fails(self, rc):
        return rc is not None and rc not in (0, 3, -9)

    def confirm(self, x):
        """Confirm a failure; returns (draws, rc, output, kind) or None."""
        s = read_status(x["st"])
        if s is None:
            return None
        idx, draws, desc, _ = s
        tries = 60 if self.conf.get("nondet") else 3
        need = 1 if self.conf.get("nondet") else 3
        ok = 0
        last = None
        for _ in range(tries):
            rc, out, st = self.replay_once(x["v"], draws, full=True)
            if self.fails(rc):
                ok += 1
                last = (rc, out)
            elif not self.conf.get("nondet"):
                break
            if ok >= need:
                return dict(draws=draws, rc=last[0], out=last[1], idx=idx, variant=x["v"], how="replay of draws")
        # the failure depends on cases run before in the same process: replay the range
        i, n = x["i"], len(self.conf["shards"])
        hits = 0
        for _ in range(2):
            scr = tempfile.mkdtemp(dir=self.tmp)
            st = os.path.join(scr, "st")
            r = subprocess.run(self.cmd(x["v"], "--seed=%d" % self.seed, "--from=%d" % i, "--to=%d" % (idx + 1),
                                        "--stride=%d" % n, "--status=" + st, scratch=scr),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=scr,
                               stdin=subprocess.DEVNULL)
            s2 = read_status(st)
            if self.fails(r.returncode) and s2 and (s2[0] == idx or self.conf.get("nondet")):
                hits += 1
                last = (r.returncode, r.stdout.decode("utf-8", "replace"))
            if hits and self.conf.get("nondet"):
                break
        if hits == 2 or (hits and self.conf.get("nondet")):
            return dict(draws=draws, rc=last[0], out=desc + "\n" + last[1][-3000:], idx=idx, variant=x["v"],
                        how="cases %d..%d (stride %d) of seed %d in one process" % (i, idx, n, self.seed), range=True)
        return None

    def shrink(self, f, seconds):
        if f.get("range") or self.conf.get("nondet"):
            return f
        end = time.time() + seconds
        rc0 = f["rc"]
        best = list(f["draws"])
        variant = f["variant"]
        width = min(8, os.cpu_count() or 4)

        def first_success(ex, cands):
            i = 0
            while i < len(cands) and time.time() < end:
                batch = cands[i:i + width]
                res = list(ex.map(lambda d: self.replay_once(variant, d, timeout=60)[0] == rc0, batch))
                for d, ok in zip(batch, res):
                    if ok:
                        return d
                i += width
            return None

        if rc0 == 77:
            return f
        with cf.ThreadPoolExecutor(width) as ex:
            progress = True
            while progress and time.time() < end:
                progress = False
                size = max(1, len(best) // 2)
                while size >= 1 and time.time() < end:
                    cands = [best[:i] + best[i + size:] for i in range(0, len(best), size)]
                    cands += [best[:i] + [0] * min(size, len(best) - i) + best[i + size:]
                              for i in range(0, len(best), size) if any(best[i:i + size])]
                    d = first_success(ex, cands)
                    if d is not None:
                        best = d
                        progress = True
                        size = min(size, max(1, len(best) // 2))
                    else:
                        size //= 2
                cands = []
                for i, v in enumerate(best):
                    for w in sorted(set([0, v // 2, v - 1])):
                        if 0 <= w < v:
                            cands.append(best[:i] + [w] + best[i + 1:])
                d = first_success(ex, cands)
                if d is not None:
                    best = d
                    progress = True
        rc, out, _ = self.replay_once(variant, best)
        if rc == rc0:
            f = dict(f, draws=best, out=out)
        return f

    def write_replay(self, f):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%d-case%d.txt" % (self.pid, self.seed, f["idx"]))
        with open(path, "w") as o:
            o.write("property: %s\nvariant: %s\ntier: %s\nkind: %s\nhow: %s\nseed: %d\ncase: %d\n" %
                    (self.pid, f["variant"], self.tier, describe(f["rc"]), f["how"], self.seed, f["idx"]))
            o.write("draws: " + " ".join(map(str, f["draws"])) + "\n\n")
            o.write(f["out"][-20000:] + "\n")
        return path

    def evidence(self, agg, violations, extra=None):
        cov = dict(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"], rule=agg["rule"],
                   samples=agg["samples"] or ["(no non-trivial case before the run ended)"], labels=agg["labels"],
                   discarded=agg["discards"],
                   all_planned_cases_run=agg["finished"], build_s=round(self.build_s, 1))
        if self.notes:
            cov["notes"] = self.notes
        if extra:
            cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=self.conf.get("assumptions", []), wall_s=round(time.time() - self.t0, 2),
                  violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)

    def run(self):
        procs, failed = self.search()
        if failed is not None:
            rc = failed["rc"]
            failed["err"].seek(0)
            errout = failed["err"].read().decode("utf-8", "replace")
            if rc == 3:
                log("error: worker could not run:", errout[-2000:])
                return 2
            f = None
            if rc == -9:
                self.notes.append("worker %d was killed (memory?)" % failed["i"])
            else:
                f = self.confirm(failed)
                if f is None:
                    self.notes.append("a failure did not reproduce: %s: %s" % (describe(rc), errout[-1500:]))
                    log("note: failure did not reproduce:", describe(rc), errout[-1500:])
            if f is not None:
                f = self.shrink(f, 45 if self.tier == "quick" else 300)
                path = self.write_replay(f)
                agg = self.aggregate(procs)
                self.evidence(agg, 1)
                log(f["out"][-4000:])
                log("kind: " + describe(f["rc"]))
                log("VIOLATION property=%s replay=%s" % (self.pid, path))
                return 1
            # not reproducible: search once more; a second failure is reported, otherwise the note stays in the evidence
            procs, again = self.search()
            if again is not None:
                f = self.confirm(again) if again["rc"] not in (3, -9) else None
                if f is None and again["rc"] not in (3, -9) and rc not in (3, -9):
                    s = read_status(again["st"]) or (0, [], "", 0)
                    again["err"].seek(0)
                    f = dict(draws=s[1], rc=again["rc"], idx=s[0], variant=again["v"],
                             how="failed in two searches, not in isolation",
                             out=s[2] + "\n" + again["err"].read().decode("utf-8", "replace")[-3000:])
                agg = self.aggregate(procs)
                if f is None:
                    self.evidence(agg, 0)
                    log("error: workers ended abnormally twice")
                    return 2
                path = self.write_replay(f)
                self.evidence(agg, 1)
                log(f["out"][-4000:])
                log("VIOLATION property=%s replay=%s" % (self.pid, path))
                return 1
        self.report_known()
        agg = self.aggregate(procs)
        rc = 0
        extra = None
        if self.tier == "thorough" and self.conf.get("fuzz"):
            import fuzzrun
            rc, extra = fuzzrun.run(self)
        self.evidence(agg, 1 if rc == 1 else 0, extra)
        if rc == 0:
            log("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs" %
                (self.pid, agg["evaluations"], agg["distinct"], time.time() - self.t0))
        return rc

    def report_known(self):
        """Report listed defects that are still present."""
        for prg, shows, what in self.known:
            try:
                r = subprocess.run([self.exe["tool"], os.path.join(VERIF, prg), "0"], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=60, cwd=self.tmp, stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                continue
            if re.search(shows, r.stdout.decode("utf-8", "replace")):
                log("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, what, prg))
            else:
                self.notes.append("known finding no longer present: " + what)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        c = Check(a.id, a.tier if a.tier in ("quick", "thorough") else "quick")
    except vbuild.BuildError as e:
        log("error: " + str(e))
        return 2
    try:
        if a.replay:
            variant = "plain"
            draws = []
            with open(a.replay) as f:
                for line in f:
                    if line.startswith("variant:"):
                        variant = line.split()[1]
                    if line.startswith("draws:"):
                        draws = [int(x) for x in line.split()[1:]]
            if variant not in c.exe:
                c.exe.update(vbuild.build((variant,)))
            rc, out, _ = c.replay_once(variant, draws)
            log(out)
            if c.fails(rc):
                log("VIOLATION property=%s replay=%s" % (a.id, a.replay))
                return 1
            return 0
        return c.run()
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
