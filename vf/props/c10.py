import math

from .. import netgen
from ..common import LONGEST, NetCheck, labels, moved


class Check(NetCheck):
    id = "C10"
    quick_n = 8000
    thorough_n = 120000
    opts = dict(demand_level=[0.6, 1.2, 2.0, 4.0], max_veh=100,
                routing=["Adaptive", "Adaptive", "Hybrid"], min_core=3,
                max_core=6, dense=1)
    rule = ("random networks whose users all (or all of one class) route "
            "adaptively, with tolls, values of time, averaging windows and "
            "update frequencies; every entry to a link after a junction or "
            "an origin must be a step on a least-cost way to a destination "
            "under the travel times on record at the last update; "
            "non-trivial: some junction offers two ways, and the least-cost "
            "tree changes during the run or differs from the one with fewest "
            "links; distinct by the curves")

    def pick(self, rng, i):
        o = super().pick(rng, i)
        o["max_d"] = rng.choice([1, 1, 1, 2, 3])
        o["max_o"] = 3
        return o

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        net = c["net"]
        netgen.add_tolls(rng, net)
        net["stat"] = dict(rec_mode_para=rng.choice([1, 2, 3, 5, 12]))
        net["adaptive_route_frq"] = rng.choice([1, 2, 5, net["assign_frq"],
                                                180])
        if net["kind"] == "Hybrid":
            net["adaptive_ratio"] = 1.0
            if net["multiclass"]:
                a, b = rng.choice([(1.0, 1.0), (1.0, 0.0), (0.0, 1.0)])
                net["adaptive_ratio"], net["adaptive_ratio_truck"] = a, b
        return c

    def run(self, case, ctx):
        from .. import sim
        net = case["net"]
        return self.judge(net, sim.run(net, ctx.newdir()))

    def ways(self, net, o, later=None):
        """{interval of update: {destination: links on a least-cost way}}

        later[t][link]: tolls charged from interval t on.
        """
        from .. import sim, tt
        multi, dt, sc = net["multiclass"], net["unit_time"], net["flow_scalar"]
        T = o.T
        links = net["links"]
        fd = tt.fd_seconds_mc if multi else tt.fd_seconds
        C = sim.classes(net, o)
        tolls = {i: x[0] for i, x in net.get("tolls", [])}
        vot = (net.get("vot") if net.get("vot") is not None else 20.0) / 3600.0
        n = net["stat"]["rec_mode_para"]
        rec = {}
        for l in links:
            i = l["id"]
            x = {-1: fd(l, 0.0, dt, sc)}
            for j in range(T):
                x[j] = fd(l, sum(c[4][i][j + 1] - c[5][i][j + 1] for c in C),
                          dt, sc)
            rec[i] = tt.recorded(x, n)
        dests = [b for a, b in net["dests"]]
        ok = {}
        frq = net["adaptive_route_frq"]
        for u in range(0, T, frq):
            for t in sorted(later or {}):
                if t <= u:
                    tolls.update(later[t])
            cost = {i: rec[i][u - 1] * vot + tolls.get(i, 0.0) for i in rec}
            good = {}
            for d in dests:
                dist = {nd["id"]: math.inf for nd in net["nodes"]}
                dist[d] = 0.0
                for _ in net["nodes"]:
                    for l in links:
                        x = cost[l["id"]] + dist[l["to"]]
                        if x < dist[l["from"]]:
                            dist[l["from"]] = x
                good[d] = {l["id"] for l in links
                           if dist[l["to"]] < math.inf
                           and cost[l["id"]] + dist[l["to"]]
                           <= dist[l["from"]] * (1 + 1e-7) + 1e-9}
            ok[u] = good
        return ok

    def judge(self, net, o, later=None):
        from .. import sim
        multi, T, links = net["multiclass"], o.T, net["links"]
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        C = sim.classes(net, o)
        ok = self.ways(net, o, later)
        dests = [b for a, b in net["dests"]]
        frq = net["adaptive_route_frq"]
        trees = {tuple(sorted((d, tuple(sorted(g))) for d, g in good.items()))
                 for good in ok.values()}
        hops = set()
        for d in dests:
            dist = {nd["id"]: 10 ** 6 for nd in net["nodes"]}
            dist[d] = 0
            for _ in net["nodes"]:
                for l in links:
                    dist[l["from"]] = min(dist[l["from"]], 1 + dist[l["to"]])
            hops |= {l["id"] for l in links
                     if dist[l["to"]] < 10 ** 6
                     and dist[l["from"]] == 1 + dist[l["to"]]}
        v = []
        outs = {}
        for l in links:
            outs.setdefault(l["from"], set()).add(l["id"])
        dm = dict(map(tuple, net["dests"]))
        nint = net["max_interval"]
        entries = 0
        for k, truck, _, _, N_in, N_out in C:
            if multi and net["kind"] == "Hybrid" and net[
                    "adaptive_ratio_truck" if truck
                    else "adaptive_ratio"] == 0:
                continue
            have = {dm[r[1]] for r in net["demand"]
                    if any(r[2][nint:] if truck else r[2][:nint])}
            for t in range(T):
                good = ok[t - t % frq]
                for l in links:
                    i = l["id"]
                    if N_in[i][t + 1] - N_in[i][t] > 1e-6:
                        entries += 1
                        if not any(i in good[d] for d in have):
                            v.append(
                                "%s%g vehicles enter link %d in interval %d, "
                                "which is on no least-cost way to %s (tree of "
                                "interval %d)" % (
                                    k + " " if k else "",
                                    N_in[i][t + 1] - N_in[i][t], i, t,
                                    sorted(have), t - t % frq))
                            break
                if len(v) > 3:
                    break
        used = [g for good in ok.values() for g in good.values()]
        nt = moved(net, o) >= 3 and any(len(x) > 1 for x in outs.values()) \
            and (len(trees) > 1 or any(g - hops for g in used))
        return dict(viol=v[:4], nt=bool(nt), key=sim.curve_key(net, o),
                    labels=labels(net, ["one destination" if len(dests) == 1
                                        else "more destinations"]),
                    count=dict(entries=entries, trees=len(trees)),
                    sample=sim.desc(net))


CHECK = Check()
