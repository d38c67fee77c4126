"""Run cases of one property; one JSON line per case on the given fd."""
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import traceback


class Ctx:
    def __init__(self, base, tier):
        self.base = base
        self.tier = tier
        self.n = 0

    def newdir(self):
        self.n += 1
        d = os.path.join(self.base, "d%d" % self.n)
        os.mkdir(d)
        return d


def case_rng(prop, seed, i):
    return random.Random("%s/%s/%s" % (prop, seed, i))


def load(prop):
    return importlib.import_module("vf.props." + prop.lower()).CHECK


def make_case(check, prop, seed, i, tier):
    return check.gen(case_rng(prop, seed, i), i, tier)


def run_case(check, case, tier):
    base = tempfile.mkdtemp(prefix="vfcase_")
    try:
        return check.run(case, Ctx(base, tier))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    prop, fd = sys.argv[1], int(sys.argv[2])
    out = os.fdopen(fd, "w", buffering=1)
    null = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get("VF_VERBOSE"):
        os.dup2(null, 1)
    check = load(prop)
    out.write(json.dumps({"ready": 1}) + "\n")
    for line in sys.stdin:
        job = json.loads(line)
        tier = job["tier"]
        if "case" in job:
            case = job["case"]
        else:
            case = make_case(check, prop, job["seed"], job["i"], tier)
        try:
            res = run_case(check, case, tier)
        except Exception as e:  # an error of the harness or of the code
            res = dict(viol=[], error="%s: %s\n%s" % (
                type(e).__name__, e, traceback.format_exc()[-1500:]))
        res["tag"] = job.get("tag")
        out.write(json.dumps(res, default=float) + "\n")
    out.flush()


if __name__ == "__main__":
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    main()
