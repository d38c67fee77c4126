from .. import netgen
from ..common import LONGEST, NetCheck, ends, labels


class Check(NetCheck):
    id = "C24"
    quick_n = 9000
    thorough_n = 120000
    opts = dict(demand_level=[0.8, 1.5, 3.0], routing=["Fixed"],
                paths_per_od=[1, 2, 3], max_interval=[2, 3, 4])
    rule = ("random networks, one full simulation each, vehicles told apart "
            "by path and departure interval on every link; non-trivial: a "
            "turn where groups of vehicles mix and the order in which they "
            "come decides the order in which they go; distinct by the records")

    def run(self, case, ctx):
        from .. import sim, dar
        import hashlib
        import numpy as np
        net = case["net"]
        multi = net["multiclass"]
        np_ = len(net["paths"])
        m = sim.start(net, ctx.newdir(), tree=True)
        m.register_paths(dar.i32(range(np_)))
        m.run_whole(False)
        o = (sim.observe_mcdta if multi else sim.observe_dta)(net, m)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        first = set(ends(net)[0])
        arc = {(l["from"], l["to"]): l["id"] for l in net["links"]}
        turns = {}
        for i, p in enumerate(net["paths"]):
            ls = [arc[x] for x in zip(p["nodes"], p["nodes"][1:])]
            for a, b in zip(ls, ls[1:]):
                if a not in first and ls.count(a) == 1 and ls.count(b) == 1:
                    turns.setdefault((a, b), []).append(i)
        v, mixed = [], 0
        h = hashlib.sha1()
        S = net["flow_scalar"]
        for k in (("car", "truck") if multi else ("",)):
            U = dar.unit(m, multi, k, T)
            for q, x in sorted(U.items()):
                h.update(repr((k, q)).encode() + x.tobytes())
            dep = {}
            for p, a, l in U:
                dep.setdefault((p, l), set()).add(a)
            for (l1, l2), ps in sorted(turns.items()):
                g = [(p, a) for p in ps for a in sorted(dep.get((p, l1), ()))]
                if not g:
                    continue
                z = np.zeros(T)
                E = np.array([np.cumsum(np.rint(U[p, a, l1] * S))
                              for p, a in g])
                X = np.array([np.cumsum(np.rint(U.get((p, a, l2), z) * S))
                              for p, a in g])
                te, tx = E.sum(0), X.sum(0)
                for t in range(T):
                    if t and tx[t] == tx[t - 1]:
                        continue
                    # the interval in which the last of those gone came
                    s = int(np.searchsorted(te, tx[t] - 0.5)) \
                        if tx[t] > 0 else -1
                    if s >= T:
                        v.append("%s: more leave link %d for link %d by "
                                 "interval %d than came" % (k, l1, l2, t))
                        break
                    if s < 0:
                        continue
                    hi = E[:, s]
                    lo = E[:, s - 1] if s else np.zeros(len(g))
                    bad = np.nonzero((X[:, t] > hi) | (X[:, t] < lo))[0]
                    if len(bad):
                        i = bad[0]
                        v.append(
                            "%s vehicles from link %d to link %d: by interval "
                            "%d %d have gone, the last of them came in "
                            "interval %d; of path %d, departure %d, %d had "
                            "come before and %d by then, but %d have gone"
                            % (k, l1, l2, t, tx[t], s, g[i][0], g[i][1],
                               lo[i], hi[i], X[i, t]))
                        break
                    if tx[t] < te[t] and np.count_nonzero(hi) > 1 and \
                            np.any((hi < E[:, t])):
                        mixed += 1
        return dict(viol=v[:6], nt=mixed > 0, key=h.hexdigest(),
                    labels=labels(net), count=dict(decided=mixed),
                    sample=sim.desc(net))


CHECK = Check()
