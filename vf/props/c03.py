from ..common import NetCheck, labels, moved


class Check(NetCheck):
    id = "C03"
    quick_n = 5000
    thorough_n = 60000
    opts = dict(demand_level=[0.6, 1.2, 2.0, 4.0, 8.0], max_veh=120)
    rule = ("random networks with demand up to 8 times capacity (one in six "
            "in the multimodal simulator, no buses), one full simulation each; the flows observed on every link in every "
            "interval are followed by a reference model of the link and "
            "junction dynamics that allows every rounding; non-trivial: at "
            "least 5 simulated vehicles moved and vehicles waited at the end "
            "of some CTM/LQ link; distinct by the cumulative curves")

    def gen(self, rng, i, tier):
        if i % 6 != 5:
            return super().gen(rng, i, tier)
        # the multimodal simulator without buses under way
        from .. import mmgen
        net = mmgen.gen_mm(rng, dict(
            demand_level=self.opts["demand_level"], max_veh=100, max_pass=20))
        for r in net["mm"]["bus_demand"]:
            r[3] = [0.0] * len(r[3])
        net["mm"]["pickup"] = [[i, 0] for i, _ in net["mm"]["pickup"]]
        return dict(net=net)

    def shrink(self, case):
        if "mm" not in case["net"]:
            yield from super().shrink(case)
            return
        from .. import mmgen
        for n in mmgen.shrink(case["net"]):
            yield dict(case, net=n)

    def run(self, case, ctx):
        from .. import sim, model
        import numpy as np
        net = case["net"]
        if "mm" in net:
            from .. import mmsim
            o = mmsim.run(net, ctx.newdir())
            for w in ("in", "out"):
                for n, x in (("N_", o.N), ("raw_", o.raw)):
                    setattr(o, n + w, {k: {
                        l["id"]: x["%s_%s" % (k, w), l["id"]]
                        for l in net["links"]} for k in sim.KLASS})
        else:
            o = sim.run(net, ctx.newdir())
        sc = net["flow_scalar"]
        cl = sim.classes(net, o)
        fin, fout = {}, {}
        for l in net["links"]:
            i = l["id"]
            a = [np.rint(np.diff(c[4][i]) * sc).astype(int).tolist()
                 for c in cl]
            b = [np.rint(np.diff(c[5][i]) * sc).astype(int).tolist()
                 for c in cl]
            fin[i] = list(zip(*a)) if len(cl) == 2 else a[0]
            fout[i] = list(zip(*b)) if len(cl) == 2 else b[0]
        v, st = model.follow(net, o.T, fin, fout)
        return dict(viol=v, nt=st["congested"] > 0 and moved(net, o) >= 5,
                    key=sim.curve_key(net, o),
                    labels=labels(net, ["multimodal"] * ("mm" in net) + ["gave up on a link"]
                                  if st["gaveup"] else []),
                    count=dict(steps=st["steps"], tight=st["tight"],
                               congested=st["congested"],
                               gaveup=st["gaveup"], merges=st["merges"]),
                    sample=sim.desc(net))


CHECK = Check()
