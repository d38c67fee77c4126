import math

from ..common import LONGEST, NetCheck, ends, labels, moved


class Check(NetCheck):
    id = "C16"
    only = "multi"
    quick_n = 3000
    thorough_n = 40000
    opts = dict(demand_level=[0.6, 1.2, 2.0, 4.0, 8.0], max_veh=150)
    rule = ("random two-class networks with demand up to 8 times capacity, "
            "one full simulation each; queues, waiting times, en-route totals "
            "and spillback compared with the reference dynamics followed "
            "along the curves; non-trivial: vehicles waited at the end of "
            "some CTM/LQ link; distinct by the curves")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        ids = [l["id"] for l in c["net"]["links"]]
        rng.shuffle(ids)
        c["ask"] = ids[:rng.randint(1, len(ids))]
        c["at"] = [rng.random() for _ in range(rng.randint(1, 8))]
        return c

    def run(self, case, ctx):
        from .. import sim, model
        import numpy as np
        net = case["net"]
        sc, dt = net["flow_scalar"], net["unit_time"]
        m = sim.start_mcdta(net, ctx.newdir())
        m.run_whole(False)
        o = sim.observe_mcdta(net, m)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        by = sim.by_id(net)
        v = []
        ids = sorted(by)
        al = np.arange(T, dtype=np.int32)
        Q = np.asarray(m.get_queue_veh_each_link(
            np.array(ids, dtype=np.int32), al)) * sc
        q = {}
        for i, row in zip(ids, Q):
            r = np.rint(row)
            if np.abs(r - row).max(initial=0) > 1e-6:
                v.append("link %d: queue of %s simulated vehicles"
                         % (i, row[np.argmax(np.abs(r - row))]))
            q[i] = r.astype(int).tolist()
        fin, fout = {}, {}
        for i in ids:
            a, b = ([np.rint(np.diff(o2[k][i]) * sc).astype(int).tolist()
                     for k in sim.KLASS] for o2 in (o.N_in, o.N_out))
            fin[i], fout[i] = list(zip(*a)), list(zip(*b))
        w = {}
        if not v:
            v, st = model.follow(net, T, fin, fout, queue=q, wait=w)
        else:
            st = dict(steps=0, congested=0, gaveup=0)
        # a selection of links and intervals gives the same
        ask = [i for i in case["ask"] if i in by]
        at = sorted({int(x * T) for x in case["at"]}, key=lambda x: x * 7 % 5)
        if ask and T and not v:
            part = np.asarray(m.get_queue_veh_each_link(
                np.array(ask, dtype=np.int32), np.array(at, dtype=np.int32)))
            for a, i in enumerate(ask):
                for b, t in enumerate(at):
                    if abs(part[a, b] * sc - q[i][t]) > 1e-6:
                        v.append("queue of link %d at %d asked for alone is "
                                 "%g, not %g" % (i, t, part[a, b],
                                                 q[i][t] / sc))
            for bad in ([ask, [T]], [ask, [-1]], [[max(by) + 1], [0]]):
                try:
                    m.get_queue_veh_each_link(*[np.array(x, dtype=np.int32)
                                                for x in bad])
                    v.append("queue of links %s at %s is answered" %
                             tuple(bad))
                except RuntimeError:
                    pass
        # totals
        E = np.asarray(m.get_enroute_and_queue_veh_stats_agg())
        if E.shape != (T, 3):
            v.append("en-route totals of shape %s" % (E.shape,))
        else:
            tot = sum((np.array(q[i]) for i in ids
                       if by[i]["type"] != "PQ"), np.zeros(T)) / sc
            oc, dc = ends(net)
            road = sum(o.N_in[k][i][1:] for k in sim.KLASS for i in oc) \
                - sum(o.N_out[k][i][1:] for k in sim.KLASS for i in dc)
            rel = o.stats[0] + o.stats[1]
            gone = sum(o.N_out[k][i][1:] for k in sim.KLASS for i in dc)
            every = max(1, int(round(60.0 / dt)))
            steps = [t for t in range(T)
                     if any(sum(fin[i][t]) for i in oc)]
            once = all((t - net["start_assign_interval"]) % every == 0
                       for t in steps) \
                and abs(road[-1] + gone[-1] - rel) < 1e-6 * (1 + rel)
            for t in range(T):
                e = 1e-6 * (1 + rel)
                if abs(E[t, 1] - tot[t]) > e:
                    v.append("interval %d: %g vehicles waiting in all, the "
                             "links add up to %g" % (t, E[t, 1], tot[t]))
                elif abs(E[t, 0] - E[t, 1] - E[t, 2]) > e:
                    v.append("interval %d: %g en route, %g waiting, %g not"
                             % (t, *E[t]))
                elif E[t, 0] < road[t] - e or E[t, 0] > rel - gone[t] + e \
                        or (once and abs(E[t, 0] - road[t]) > e):
                    v.append("interval %d: %g vehicles en route, %g are on "
                             "links" % (t, E[t, 0], road[t]))
                else:
                    continue
                break
        # waiting times
        reg = [int(x) for x in m.registered_links]
        W = [np.asarray(f()) for f in
             (m.get_waiting_time_at_intersections,
              m.get_waiting_time_at_intersections_car,
              m.get_waiting_time_at_intersections_truck)]
        S = np.asarray(m.get_link_spillback())
        spilled = 0
        for j, i in enumerate(reg):
            if v:
                break
            n = [o.N_in[k][i][-1] for k in sim.KLASS]
            hours = [W[0][j] * (sum(n) + 1e-6), W[1][j] * (n[0] + 1e-6),
                     W[2][j] * (n[1] + 1e-6)]
            x = [h * sc / dt for h in hours]
            e = 1e-6 * (1 + x[0])
            if abs(x[0] - x[1] - x[2]) > e:
                v.append("link %d: %g vehicle-seconds of waiting, cars %g "
                         "and trucks %g" % (i, *hours))
            base = sum(q[i][t] + sum(fout[i][t]) for t in range(1, T))
            on = sum(sum(fin[i][t]) - sum(fout[i][t]) for t in range(T))
            if not base - e <= x[0] <= base + on + e:
                v.append("link %d: %g vehicle-intervals of waiting, queues "
                         "make %d (and up to %d at the end)"
                         % (i, x[0], base, on))
            if w.get(i):
                for k in (0, 1):
                    if not w[i][k][0] - e <= x[1 + k] <= w[i][k][1] + e:
                        v.append("link %d (%s): %g vehicle-intervals of "
                                 "waiting of %ss, between %d and %d expected"
                                 % (i, by[i]["type"], x[1 + k], sim.KLASS[k],
                                    *w[i][k]))
            # spillback
            l = by[i]
            L = l["length"]
            cells = 1
            if l["type"] == "CTM":
                cell = l["ffs"] * dt / 3600.0
                cells = max(1, int(math.floor(L / cell + 1e-9)))
                L = max(L, cell) if cells == 1 else L
            hold = (min(l["rhoj"], 400.0) if l["type"] == "CTM"
                    else l["rhoj"]) * l["lanes"] * L * sc
            n = [np.rint((o.N_in[k][i] - o.N_out[k][i])[1:] * sc)
                 for k in sim.KLASS]
            pce = max(n[0] + n[1] * l["conv"], default=0)
            if l["type"] == "PQ":
                want = {0}
            elif pce <= hold - 1e-6:
                want = {0}
            elif pce - cells > hold + 1e-6 or \
                    (l["conv"].is_integer() and pce > hold + 1e-6):
                want = {1}
            else:
                want = {0, 1}
            spilled += 1 in want
            if int(S[j]) not in want:
                v.append("link %d (%s): spillback %d, at most %g car "
                         "equivalents on it, it holds %g"
                         % (i, l["type"], S[j], pce, hold))
        return dict(viol=v[:5], nt=st["congested"] > 0
                    and moved(net, o) >= 5, key=sim.curve_key(net, o),
                    labels=labels(net, ["spillback"] if spilled else []),
                    count=dict(steps=st["steps"], spilled=spilled,
                               gaveup=st["gaveup"]), sample=sim.desc(net))


CHECK = Check()
