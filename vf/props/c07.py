import math

from .. import netgen
from ..common import LONGEST, NetCheck, ends, labels
from .c04 import Boundary, bounds, per_minute


class Check(NetCheck):
    id = "C07"
    quick_n = 10000
    thorough_n = 150000
    opts = dict(demand_level=[0.3, 0.8, 1.5], routing=["Fixed"],
                paths_per_od=[1, 2, 3, 4], max_core=6)
    mc_opts = dict(max_veh=10)
    rule = ("random networks and path tables (portions zero, equal, skewed, "
            "different per interval and class), fixed routes, one full "
            "simulation each, flows followed per path and departure "
            "interval; non-trivial: some O-D pair and interval with three or "
            "more vehicles has two or more paths; distinct by the path flows")

    def pick(self, rng, i):
        o = super().pick(rng, i)
        o["acyclic"] = rng.random() < 0.85
        return o

    def run(self, case, ctx):
        from .. import sim, dar
        import numpy as np
        net = case["net"]
        multi, sc, dt = net["multiclass"], net["flow_scalar"], net["unit_time"]
        try:
            for r in net["demand"]:
                per_minute(net, r[2])
        except Boundary:
            return dict(viol=[], nt=False, key=None, labels=["boundary"])
        m = sim.start(net, ctx.newdir(), tree=True)
        m.register_paths(dar.i32(range(len(net["paths"]))))
        m.run_whole(False)
        o = (sim.observe_mcdta if multi else sim.observe_dta)(net, m)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        by = {l["id"]: l for l in net["links"]}
        first = set(ends(net)[0])
        P = [netgen.path_links(net, p["nodes"]) for p in net["paths"]]
        om = {n: i for i, n in net["origins"]}
        dm = {n: i for i, n in net["dests"]}
        od = [(om[p["nodes"][0]], dm[p["nodes"][-1]]) for p in net["paths"]]
        drained = net["total_interval"] <= 0
        n = net["max_interval"]
        v = []
        nt = False
        chi = dof = var = 0.0
        sig = []
        for c, (k, truck, _, _, N_in, N_out) in enumerate(
                sim.classes(net, o)):
            U = dar.unit(m, multi, k, T)
            cum = {q: np.concatenate([[0.0], np.cumsum(x)])
                   for q, x in U.items()}
            zero = np.zeros(T + 1)
            for (p, a, l), x in cum.items():
                sig.append((p, a, l, round(float(x[-1]), 4)))
                if l not in P[p]:
                    v.append("%s vehicles assigned to path %s entered link %d"
                             % (k, net["paths"][p]["nodes"], l))
                if not 0 <= a < n:
                    v.append("%s: departure interval %d of %d" % (k, a, n))
                elif net["paths"][p]["buffer"][a + (n if truck else 0)] == 0:
                    v.append("%s: %g vehicles of interval %d use path %s, "
                             "whose portion is 0"
                             % (k, x[-1], a, net["paths"][p]["nodes"]))
            # along a path: no link is entered before the one before it
            for p in range(len(P)):
                for a in range(n):
                    links = [l for l in P[p] if l not in first]
                    for l1, l2 in zip(links, links[1:]):
                        lag = 1 if by[l1]["type"] == "LQ" else sim.fftt(
                            by[l1], dt)
                        if sim.near_boundary(by[l1], dt):
                            lag = 1
                        x = cum.get((p, a, l1), zero)
                        y = cum.get((p, a, l2), zero)
                        x = np.concatenate([np.zeros(min(lag, T + 1)),
                                            x])[:T + 1]
                        if np.any(y > x + 1e-6):
                            t = int(np.nonzero(y > x + 1e-6)[0][0])
                            v.append("%s path %s, departure interval %d: %g "
                                     "entered link %d by %d, only %g entered "
                                     "link %d in time" % (
                                         k, net["paths"][p]["nodes"], a,
                                         y[t], l2, t, x[t], l1))
                        elif drained and abs(
                                cum.get((p, a, l1), zero)[-1] - y[-1]) > 1e-6:
                            v.append("%s path %s, departure interval %d: %g "
                                     "entered link %d but %g entered link %d"
                                     % (k, net["paths"][p]["nodes"], a,
                                        cum.get((p, a, l1), zero)[-1], l1,
                                        y[-1], l2))
            # everything on a link belongs to some path
            for l in by:
                if l in first:
                    continue
                s = zero + sum(x for q, x in cum.items() if q[2] == l)
                if np.any(np.abs(s - N_in[l]) > 1e-6 * (1 + N_in[l])):
                    t = int(np.argmax(np.abs(s - N_in[l])))
                    v.append("%s link %d at %d: %g entered, paths account for "
                             "%g" % (k, l, t, N_in[l][t], s[t]))
            # departures per O-D pair and interval, and their split
            if not drained:
                continue
            per = net["assign_frq"] * dt // 60 if multi else 1
            for oi, di, row in net["demand"]:
                pm = per_minute(net, row)[c]
                cand = [p for p in range(len(P)) if od[p] == (oi, di)]
                for a in range(n):
                    lo = hi = 0
                    for x in pm[a * per:(a + 1) * per]:
                        b = bounds(x * sc)
                        lo, hi = lo + b[0], hi + b[1]
                    num = []
                    for p in cand:
                        l = [l for l in P[p] if l not in first][0]
                        num.append(cum.get((p, a, l), zero)[-1] * sc)
                    N = sum(num)
                    if not lo - 1e-4 <= N <= hi + 1e-4:
                        v.append("%s O-D %d-%d interval %d: paths carry %g, "
                                 "demand asks for %g to %g"
                                 % (k, oi, di, a, N, lo, hi))
                    w = [net["paths"][p]["buffer"][a + (n if truck else 0)]
                         for p in cand]
                    pos = [(x, y / sum(w)) for x, y in zip(num, w) if y > 0]
                    if N >= 3 and len(pos) >= 2:
                        nt = True
                        chi += sum((x - N * q) ** 2 / (N * q) for x, q in pos)
                        kk = len(pos)
                        dof += kk - 1
                        var += 2 * (kk - 1) + (sum(1 / q for _, q in pos)
                                               - kk * kk - 2 * kk + 2) / N
        return dict(viol=v[:6], nt=nt, key=str(hash(tuple(sorted(sig)))),
                    labels=labels(net), sample=sim.desc(net),
                    agg=[chi, dof, var, int(multi)])

    def aggregate(self, rs):
        for w in (0, 1):
            chi, dof, var = (sum(r[j] for r in rs if r[3] == w)
                             for j in range(3))
            if dof > 200 and abs(chi - dof) > 8 * math.sqrt(var):
                yield ("path shares over all cases (%s class): chi-square %g "
                       "with %g degrees of freedom, +-%g allowed"
                       % ("two" if w else "one", chi, dof,
                          8 * math.sqrt(var)))


CHECK = Check()
