from ..common import NetCheck, ends, eq, labels


class Check(NetCheck):
    id = "C01"
    quick_n = 12000
    thorough_n = 300000
    rule = ("random networks (1-5 junctions, PQ/CTM/LQ links, 1-3 origins and "
            "destinations, fixed/adaptive/hybrid routing, cyclic and acyclic, "
            "whole and fractional demand, one and two vehicle classes), one "
            "full simulation each; non-trivial: some junction joins two or "
            "more links and at least 5 simulated vehicles moved; distinct by "
            "the cumulative curves of all links")

    def run(self, case, ctx):
        from .. import sim, inv
        net = case["net"]
        o = sim.run(net, ctx.newdir())
        v = []
        a, b = ends(net)
        tot_ent = tot_ext = 0.0
        if net["multiclass"]:
            released = dict(car=o.stats[0], truck=o.stats[1])
        else:
            released = {"": o.stats[0]}
        done = net["total_interval"] <= 0
        for k, truck, _, _, N_in, N_out in sim.classes(net, o):
            v += inv.conservation(net, N_in, N_out, o.T, k + " ")
            ent = sum(N_in[i][-1] for i in a)
            ext = sum(N_out[i][-1] for i in b)
            onlink = sum(N_in[i][-1] - N_out[i][-1] for i in N_in)
            if not eq(ent, ext + onlink):
                v.append("%s: %g entered, %g left, %g on links"
                         % (k, ent, ext, onlink))
            if ent > released[k] + 1e-6 * (1 + ent):
                v.append("%s: %g entered the network, only %g released"
                         % (k, ent, released[k]))
            if done and not (eq(ent, released[k]) and eq(ext, released[k])):
                v.append("%s: run to completion: released %g, entered %g, "
                         "arrived %g" % (k, released[k], ent, ext))
            for i in N_in:
                x = [q for q in range(o.T + 1)
                     if N_out[i][q] > N_in[i][q] + 1e-6 * (1 + N_in[i][q])]
                if x:
                    v.append("%s link %d: by time %d %g have left, only %g "
                             "entered" % (k, i, x[0], N_out[i][x[0]],
                                          N_in[i][x[0]]))
                elif done and not eq(N_in[i][-1], N_out[i][-1]):
                    v.append("%s link %d: run to completion: %g entered, %g "
                             "left" % (k, i, N_in[i][-1], N_out[i][-1]))
            tot_ent += ent
            tot_ext += ext
        if net["multiclass"]:
            st = o.dta.get_enroute_and_queue_veh_stats_agg()
            enroute = float(st[-1][0])
            rel = sum(released.values())
            if not eq(rel, enroute + tot_ext):
                v.append("released %g, en route %g, arrived %g"
                         % (rel, enroute, tot_ext))
        else:
            rel, vht, enroute, finished = o.stats
            if not eq(rel, enroute + finished):
                v.append("released %g != en route %g + finished %g"
                         % (rel, enroute, finished))
            if not eq(tot_ext, finished):
                v.append("%g arrived, %g reported finished"
                         % (tot_ext, finished))
        nt = tot_ent * net["flow_scalar"] >= 5 and any(
            sum(l["to"] == n["id"] for l in net["links"])
            + sum(l["from"] == n["id"] for l in net["links"]) > 2
            for n in net["nodes"] if n["type"] == "FWJ")
        return dict(viol=v, nt=bool(nt), key=sim.curve_key(net, o),
                    labels=labels(net, ["leftover" if enroute > 0
                                        else "drained"]),
                    sample=sim.desc(net))


CHECK = Check()
