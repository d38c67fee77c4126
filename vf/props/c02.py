from ..common import NetCheck, labels, moved


class Check(NetCheck):
    id = "C02"
    quick_n = 10000
    thorough_n = 200000
    opts = dict(demand_level=[0.2, 0.6, 1.2, 3.0])
    rule = ("random networks, a random subset and order of links registered, "
            "one full simulation each; non-trivial: at least 5 simulated "
            "vehicles moved over links that take two or more intervals to "
            "cross; distinct by the cumulative curves of all links")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        ids = [l["id"] for l in c["net"]["links"]]
        rng.shuffle(ids)
        c["reg"] = ids[:rng.randint(1, len(ids))] if rng.random() < 0.7 \
            else None
        ask = ids[:]
        rng.shuffle(ask)
        c["ask"] = ask[:rng.randint(1, len(ids))]
        return c

    def run(self, case, ctx):
        from .. import sim, inv
        import numpy as np
        net = case["net"]
        ids = [l["id"] for l in net["links"]]
        reg = case["reg"]
        if reg is not None:
            reg = [i for i in reg if i in ids] or ids[:1]
        m = sim.start(net, ctx.newdir(), registered=reg or "all")
        v = []
        if sorted(m.links.tolist()) != sorted(ids):
            v.append("links lists %s, the network has %s"
                     % (m.links.tolist(), ids))
        if reg is not None and m.registered_links.tolist() != reg:
            v.append("registered %s, reported %s"
                     % (reg, m.registered_links.tolist()))
        cols = m.registered_links.tolist()
        m.run_whole(False)
        o = (sim.observe_mcdta if net["multiclass"]
             else sim.observe_dta)(net, m)
        sc, dt, T = net["flow_scalar"], net["unit_time"], o.T
        need = net["max_interval"] * net["assign_frq"]
        if net["total_interval"] > 0 and T != max(need,
                                                  net["total_interval"]):
            v.append("ran %d intervals, configured %d (release period %d)"
                     % (T, net["total_interval"], need))
        if T < need:
            v.append("ran %d intervals, the release period has %d" % (T, need))
        ask = [i for i in case["ask"] if i in ids] or ids[:1]
        for k, truck, ri, ro, N_in, N_out in sim.classes(net, o):
            for i in ids:
                v += inv.curve_shape(ri[i], N_in[i], T, sc,
                                     "%s link %d in-curve" % (k, i))
                v += inv.curve_shape(ro[i], N_out[i], T, sc,
                                     "%s link %d out-curve" % (k, i))
            lag = None
            if net["multiclass"]:
                # a truck cannot beat the cells (or the queue) of its link,
                # which are laid out for cars
                def lag(l):
                    return sim.fftt(l, dt, False)
            v += inv.causality(net, N_in, N_out, T, truck, k + " ", lag)
            # whole-array getters
            pre = "get_" + (k + "_" if k else "")
            for way, N in (("in", N_in), ("out", N_out)):
                f = getattr(m, pre + way + "_ccs")
                for arg, want in ((None, cols), (ask, ask)):
                    a = np.asarray(f(arg) if arg is not None else f())
                    if a.shape != (T + 1, len(want)):
                        v.append("%s%s_ccs: shape %s for %d links and %d "
                                 "intervals" % (pre, way, a.shape, len(want),
                                                T))
                        continue
                    for c, i in enumerate(want):
                        if not np.allclose(a[:, c], N[i], atol=1e-9):
                            v.append("%s%s_ccs column of link %d differs from "
                                     "its curve" % (pre, way, i))
        slow = any(sim.fftt(l, dt) > 1 for l in net["links"])
        return dict(viol=v[:6], nt=slow and moved(net, o) >= 5,
                    key=sim.curve_key(net, o), labels=labels(net),
                    sample=sim.desc(net))


CHECK = Check()
