"""Generate cases, run them in worker processes, shrink and report failures."""
import collections
import hashlib
import json
import os
import selectors
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from . import build as B
from . import worker as W

ROOT = Path(__file__).resolve().parent.parent
PY = B.PY
NPROC = max(1, min(8, os.cpu_count() or 1))
BATCH = 25
CPU_LIMIT = 90.0   # CPU seconds for one case; typical cases use < 0.5 s
TICK = os.sysconf("SC_CLK_TCK")


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            w = f.read().rsplit(")", 1)[1].split()
        return (int(w[11]) + int(w[12])) / TICK
    except OSError:
        return 0.0


class Worker:
    def __init__(self, prop, builddir, flavour):
        r, w = os.pipe()
        env = dict(os.environ)
        env["PYTHONPATH"] = "%s:%s" % (builddir, ROOT)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = "0"
        env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
        env["MALLOC_PERTURB_"] = "165"
        self.err = tempfile.TemporaryFile()
        if flavour == "asan":
            lib = subprocess.run(
                ["gcc", "-print-file-name=libasan.so"], capture_output=True,
                text=True).stdout.strip()
            ub = subprocess.run(
                ["gcc", "-print-file-name=libubsan.so"], capture_output=True,
                text=True).stdout.strip()
            # libstdc++ too: the sanitizer has to find __cxa_throw
            cxx = subprocess.run(
                ["gcc", "-print-file-name=libstdc++.so.6"],
                capture_output=True, text=True).stdout.strip()
            env["LD_PRELOAD"] = ":".join((lib, ub, cxx))
            env["ASAN_OPTIONS"] = (
                "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
                ":alloc_dealloc_mismatch=1:detect_stack_use_after_return=0")
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
            env["PYTHONMALLOC"] = "malloc"
            env.pop("MALLOC_PERTURB_")
        env.update(getattr(W.load(prop), "env", {}))
        self.p = subprocess.Popen(
            [PY, "-m", "vf.worker", prop, str(w)], cwd=str(ROOT), env=env,
            stdin=subprocess.PIPE, stdout=subprocess.DEVNULL
            if not os.environ.get("VF_VERBOSE") else None,
            stderr=self.err, pass_fds=[w], text=True)
        os.close(w)
        self.r = r
        self.buf = b""
        self.t_case = None
        self.cpu0 = 0.0

    def send(self, job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        self.cpu0 = cpu_of(self.p.pid)

    def stderr_tail(self, n=3000):
        try:
            self.err.seek(0, 2)
            size = self.err.tell()
            self.err.seek(max(0, size - n * 4))
            s = self.err.read().decode("utf-8", "replace")
            k = s.find("ERROR: AddressSanitizer")
            if k >= 0:
                return s[k:k + n]
            k = s.find("runtime error")
            if k >= 0:
                return s[max(0, k - 300):k + n]
            return s[-n:]
        except OSError:
            return ""

    def over_cpu(self):
        return cpu_of(self.p.pid) - self.cpu0 > CPU_LIMIT

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        os.close(self.r)
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.err.close()


class Pool:
    """Runs lists of jobs, each list in one fresh process, NPROC at a time.

    on_result(list_index, job_index, result) -> True to stop everything.
    A crash or hang is a result too: {"crash": ...} ends that list.
    """

    def __init__(self, prop, builddir, flavour="plain"):
        self.args = (prop, builddir, flavour)

    def run(self, lists, on_result, deadline=None, nproc=NPROC):
        todo = collections.deque(enumerate(lists))
        sel = selectors.DefaultSelector()
        live = {}
        stop = False

        def start():
            while todo and len(live) < nproc and not stop:
                li, jobs = todo.popleft()
                if not jobs:
                    continue
                w = Worker(*self.args)
                live[w.r] = [w, li, jobs, -1]
                sel.register(w.r, selectors.EVENT_READ)

        def close(w):
            sel.unregister(w.r)
            live.pop(w.r)
            w.kill()

        try:
            start()
            while live and not stop:
                if deadline and time.time() > deadline:
                    return "deadline"
                ev = sel.select(timeout=1.0)
                for key, _ in ev:
                    st = live.get(key.fd)
                    if st is None:
                        continue
                    w = st[0]
                    data = os.read(w.r, 1 << 20)
                    if not data:  # died
                        w.p.wait()
                        rc = w.p.returncode
                        tail = w.stderr_tail()
                        li, jobs, ji = st[1], st[2], st[3]
                        close(w)
                        res = dict(viol=[], crash="process died (%s)\n%s"
                                   % (rc, tail))
                        if ji < 0:
                            res["startup"] = True
                        stop = stop or bool(on_result(li, max(ji, 0), res))
                        if not stop and ji >= 0 and jobs[ji + 1:]:
                            todo.append((li, jobs[ji + 1:]))
                        continue
                    w.buf += data
                    while b"\n" in w.buf and not stop:
                        line, w.buf = w.buf.split(b"\n", 1)
                        res = json.loads(line)
                        if st[3] >= 0:
                            stop = stop or bool(on_result(st[1], st[3], res))
                        st[3] += 1
                        if st[3] >= len(st[2]):
                            close(w)
                            break
                        w.send(st[2][st[3]])
                for fd in list(live):
                    w, li, jobs, ji = live[fd]
                    if ji >= 0 and w.over_cpu():
                        close(w)
                        res = dict(viol=[], crash="no answer after %d CPU "
                                   "seconds (typical: well under one)"
                                   % CPU_LIMIT)
                        stop = stop or bool(on_result(li, ji, res))
                        if not stop and jobs[ji + 1:]:
                            todo.append((li, jobs[ji + 1:]))
                if not stop:
                    start()
        finally:
            for fd in list(live):
                close(live[fd][0])
            sel.close()
        return "stopped" if stop else "done"


def bad(res):
    """Why a result is a violation, or None."""
    if res.get("viol"):
        return "; ".join(res["viol"][:4])
    if res.get("crash"):
        return "crash: " + res["crash"]
    if res.get("error"):
        return "error: " + res["error"]
    return None


def failure_kind(res):
    if res.get("viol"):
        return "viol"
    if res.get("crash"):
        return "crash"
    if res.get("error"):
        return "error " + res["error"].split("\n")[0]
    return None


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=float)
                        .encode()).hexdigest()


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.check = W.load(prop)
        self.flavour = getattr(self.check, "flavour", "plain")

    def once(self, jobs):
        """Results of *jobs* in one fresh process."""
        got = []

        def f(li, ji, res):
            got.append((ji, res))
        Pool(self.prop, self.builddir, self.flavour).run([jobs], f, nproc=1)
        return [r for _, r in sorted(got, key=lambda t: t[0])]

    def many(self, joblists, stop_at_first=False):
        """Result of the last job of each list; lists run in parallel."""
        got = {}

        def f(li, ji, res):
            if ji == len(joblists[li]) - 1 or bad(res):
                got.setdefault(li, res)
            return False
        Pool(self.prop, self.builddir, self.flavour).run(joblists, f)
        return [got.get(i, {}) for i in range(len(joblists))]

    def job(self, case):
        return dict(case=case, tier=self.tier)

    def reproduces(self, jobs, times=3):
        return all(bad(r) for r in self.many([jobs] * times))

    def shrink(self, case, res, budget_s=90.0):
        kind = failure_kind(res)
        t0 = time.time()
        tried = 0
        seen = {digest(case)}
        why = None
        while time.time() - t0 < budget_s:
            improved = False
            cands = []
            for c in self.check.shrink(case):
                k = digest(c)
                if k in seen:
                    continue
                seen.add(k)
                cands.append(c)
            for j in range(0, len(cands), NPROC):
                if time.time() - t0 > budget_s:
                    break
                part = cands[j:j + NPROC]
                rs = self.many([[self.job(c)] for c in part])
                tried += len(part)
                for c, r in zip(part, rs):
                    # a shrunk case must fail the way the first one did, not
                    # because shrinking left the valid domain
                    if failure_kind(r) == kind:
                        case, why, improved = c, bad(r), True
                        break
                if improved:
                    break
            if not improved:
                break
        return case, why, tried

    # ------------------------------------------------------------------
    def known_findings(self):
        f = ROOT / "known_findings.json"
        if not f.exists():
            return []
        return [k for k in json.loads(f.read_text())["findings"]
                if k["property"] == self.prop and k["status"] == "open"]

    def main(self):
        t0 = time.time()
        self.builddir = B.build(self.flavour)
        t_build = time.time() - t0
        n = (self.check.quick_n if self.tier == "quick"
             else self.check.thorough_n)
        n = int(os.environ.get("VF_N", n))
        limit = float(os.environ.get("VF_LIMIT") or (
            420 if self.tier == "quick" else 780))
        deadline = time.time() + limit

        for k in self.known_findings():
            rs = self.many([[self.job(k["case"])]] * 2)
            if all(bad(r) for r in rs):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]),
                      flush=True)

        batch = getattr(self.check, "batch", BATCH)
        fixed = list(self.check.fixed_cases()) \
            if hasattr(self.check, "fixed_cases") else []
        lists = []
        idx = []
        for j in range(0, len(fixed), 5):
            lists.append([dict(self.job(c)) for c in fixed[j:j + 5]])
            idx.append(None)
        for s in range(0, n, batch):
            ii = list(range(s, min(n, s + batch)))
            lists.append([dict(i=i, seed=self.seed, tier=self.tier)
                          for i in ii])
            idx.append(ii)
        stats = collections.Counter()
        labels = collections.Counter()
        keys = set()
        samples = []
        agg = []
        failures = []
        state = dict(evals=0)

        def on_result(li, ji, res):
            state["evals"] += 1
            why = bad(res)
            if res.get("startup"):
                raise RuntimeError("worker does not start: " + why)
            for l in res.get("labels", []):
                labels[l] += 1
            for k, v in (res.get("count") or {}).items():
                stats[k] += v
            if res.get("agg") is not None:
                agg.append(res["agg"])
            if res.get("nt") and not why:
                keys.add(res.get("key"))
                if len(samples) < 4 and res.get("sample") is not None:
                    samples.append(res["sample"])
            if why:
                failures.append((li, ji, res))
                return True
            return False

        pool = Pool(self.prop, self.builddir, self.flavour)
        dropped = []
        while True:
            end = pool.run(lists, on_result, deadline)
            if end != "stopped":
                break
            li, ji, res = failures[-1]
            job = lists[li][ji]
            case = job.get("case")
            if case is None:
                case = W.make_case(self.check, self.prop, self.seed,
                                   job["i"], self.tier)
            if self.reproduces([self.job(case)]):
                return self.report(case, res, None, t0, state, keys, labels,
                                   samples, stats, dropped, t_build)
            hist = lists[li][:ji + 1]
            hist = [dict(h) for h in hist]
            if self.reproduces(hist):
                return self.report(case, res, hist, t0, state, keys, labels,
                                   samples, stats, dropped, t_build)
            # not reproducible: not believed; note it and go on after it
            dropped.append(bad(res)[:400])
            print("not reproducible, ignored: %s" % bad(res)[:400],
                  file=sys.stderr)
            lists = ([lists[li][ji + 1:]]
                     + [l for k, l in enumerate(lists) if k > li])
            if len(dropped) > 5:
                break
        # aggregate oracle over the whole run (statistics)
        if hasattr(self.check, "aggregate") and not dropped:
            for why in self.check.aggregate(agg):
                # the aggregate is a pure function of code and seed; confirm
                # it by running everything again
                again = []

                def collect(li, ji, res):
                    if res.get("agg") is not None:
                        again.append(res["agg"])
                pool.run(lists, collect)
                if list(self.check.aggregate(again)):
                    rep = self.save(dict(property=self.prop, kind="aggregate",
                                         seed=self.seed, tier=self.tier, n=n,
                                         why=why))
                    self.evidence(t0, state, keys, labels, samples, stats,
                                  dropped, 1, t_build)
                    print(why)
                    print("VIOLATION property=%s replay=%s"
                          % (self.prop, rep), flush=True)
                    return 1
        self.evidence(t0, state, keys, labels, samples, stats, dropped, 0,
                      t_build)
        print("property %s held: %d cases, %d distinct non-trivial, %.0f s"
              % (self.prop, state["evals"], len(keys), time.time() - t0))
        if not keys:
            print("no non-trivial case: the check did not do its work",
                  file=sys.stderr)
            return 2
        return 0

    def save(self, rep):
        d = ROOT / "replays"
        d.mkdir(exist_ok=True)
        f = d / ("%s-%s.json" % (self.prop, digest(rep)[:12]))
        f.write_text(json.dumps(rep, indent=1, default=float))
        return f

    def report(self, case, res, hist, t0, state, keys, labels, samples, stats,
               dropped, t_build):
        why = bad(res)
        tried = 0
        if hist is None and hasattr(self.check, "shrink") \
                and "no answer" not in (res.get("crash") or ""):
            small, w2, tried = self.shrink(case, res)
            if w2 and self.reproduces([self.job(small)]):
                case, why = small, w2
        rep = dict(property=self.prop, kind="case" if hist is None
                   else "history", case=case, history=hist, tier=self.tier,
                   why=why, shrink_steps=tried)
        f = self.save(rep)
        self.evidence(t0, state, keys, labels, samples, stats, dropped, 1,
                      t_build)
        print(why[:3000])
        print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)
        return 1

    def evidence(self, t0, state, keys, labels, samples, stats, dropped,
                 violations, t_build):
        d = ROOT / "evidence"
        d.mkdir(exist_ok=True)
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed,
            level="exploration",
            coverage=dict(evaluations=state["evals"],
                          distinct_nontrivial=len(keys),
                          rule=self.check.rule, samples=samples,
                          labels=dict(labels.most_common(60)),
                          counts=dict(stats), build_s=round(t_build, 1),
                          unreproduced=dropped),
            assumptions=list(getattr(self.check, "assumptions", [])),
            wall_s=round(time.time() - t0, 2), violations=violations)
        (d / (self.prop + ".json")).write_text(
            json.dumps(ev, indent=1, default=float))

    def replay(self, path):
        rep = json.loads(Path(path).read_text())
        self.builddir = B.build(self.flavour)
        self.tier = rep.get("tier", "quick")
        jobs = rep.get("history") or [self.job(rep["case"])]
        rs = self.many([jobs])
        why = bad(rs[0])
        print(why or "does not fail")
        if why:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1 if why else 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    r = Runner(a.prop, a.tier, a.seed)
    try:
        if a.replay:
            return r.replay(a.replay)
        return r.main()
    except B.BuildError as e:
        print("build failed:\n" + str(e), file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
