import json
import os
import subprocess
import sys

from .. import mmgen, netgen
from ..common import NetCheck, labels


class Other:
    """A second process, with other heap addresses and other heap garbage."""

    def __init__(self):
        self.p = None
        self.n = 0

    def ask(self, net):
        if self.p is None or self.n >= 6:
            self.stop()
            env = dict(os.environ)
            env["MALLOC_PERTURB_"] = str(1 + (7 * os.getpid() + 41) % 250)
            self.p = subprocess.Popen(
                [sys.executable, "-m", "vf.fingerprint"], env=env,
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, text=True)
            self.n = 0
        self.n += 1
        self.p.stdin.write(json.dumps(net) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.stop()
            return None
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.stdin.close()
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.p = None


OTHER = Other()


def compare(what, a, b, v, only=None):
    for k in a:
        if only is not None and k not in only:
            continue
        if k in b and a[k] != b[k]:
            v.append("%s: %s differ%s" % (
                what, k, "" if k.endswith("s") else "s"))
            return


class Check(NetCheck):
    id = "C09"
    quick_n = 4000
    thorough_n = 60000
    opts = dict(demand_level=[0.8, 1.5, 2.5], max_core=7,
                paths_per_od=[1, 2, 3], max_o=4, max_d=6)
    mc_opts = dict(max_veh=8)
    rule = ("random networks with up to five origins and destinations, one in "
            "four multimodal; the "
            "same files and random state simulated again in the same process "
            "after and beside another simulation, in another process with "
            "other heap contents, with other registrations and verbosity; "
            "non-trivial: vehicles moved and the run drew random numbers "
            "that matter (another random state changes some curve); distinct "
            "by the fingerprint of the run")

    def gen(self, rng, i, tier):
        if i % 4 == 2:
            c = dict(net=mmgen.gen_mm(rng, dict(max_veh=40)))
        else:
            c = super().gen(rng, i, tier)
        c["other"] = netgen.gen_net(rng, dict(
            multiclass=rng.random() < 0.5, max_core=4, demand_level=[0.8]))
        ids = [l["id"] for l in c["net"]["links"]]
        if "mm" in c["net"]:
            mm = c["net"]["mm"]
            ids += [l["id"] for l in mm["walks"] + mm["blinks"]]
        rng.shuffle(ids)
        c["subset"] = ids[:rng.randint(0, max(1, len(ids) // 2))]
        return c

    def shrink(self, case):
        if "mm" in case["net"]:
            for n in mmgen.shrink(case["net"]):
                c = dict(case)
                c["net"] = n
                yield c
            return
        for c in super().shrink(case):
            have = {l["id"] for l in c["net"]["links"]}
            c["subset"] = [i for i in c["subset"] if i in have]
            yield c

    def run(self, case, ctx):
        from .. import fingerprint as F, sim
        net, sub = case["net"], case["subset"]
        d = ctx.newdir()
        F.put(net, d)
        v = []
        m = F.start(net, d)
        m.run_whole(False)
        a = F.read(net, m)
        compare("reading the results a second time", a, F.read(net, m), v)
        # with another simulation before, beside and after it
        o = ctx.newdir()
        netgen.write_net(case["other"], o)
        b = F.start(case["other"], o)
        m2 = F.start(net, d)
        m2.run_whole(False)
        a2 = F.read(net, m2)
        compare("the same run while another simulation exists", a, a2, v)
        b.run_whole(False)
        compare("results read after another simulation ran", a,
                F.read(net, m2), v)
        # registering other links, recording paths
        m3 = F.start(net, d, links=sub)
        m3.run_whole(False)
        compare("registering only links %s" % sub, a,
                F.read(net, m3, links=sub), v)
        m4 = F.start(net, d, tree=True, paths=net["kind"] != "Adaptive")
        m4.run_whole(False)
        compare("registering paths and recording the tree", a,
                F.read(net, m4), v)
        compare("printing progress", a, F.whole(net, d, verbose=True), v)
        r = OTHER.ask(net)
        if r is None:
            v.append("the run fails in another process")
        else:
            compare("the same run in another process", a,
                    {k: x for k, x in r.items()}, v)
        n2 = dict(net)
        n2["rand"] = net["rand"] + 1
        z = F.whole(n2, d)
        nt = z != a
        return dict(viol=v, nt=nt, key=str(sorted(a.items()))[:0] + F.h(
            [hash(str(x)) % 1000003 for x in sorted(a.items())]),
            labels=["multimodal"] if "mm" in net else labels(net),
            sample=mmgen.desc(net) if "mm" in net else sim.desc(net))


CHECK = Check()
