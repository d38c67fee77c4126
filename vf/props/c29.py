import hashlib

from ..common import eq
from .c18 import MMCheck
from .c19 import cells, released


class Check(MMCheck):
    id = "C29"
    gen_opts = dict(max_veh=80, max_pass=30,
                    demand_level=[0.2, 0.6, 1.5, 3.0])
    quick_n = 3000
    thorough_n = 60000
    rule = ("random driving networks with buses and walkers, one full "
            "multimodal simulation each; queues, en-route totals, waiting, "
            "spillback, distances, overlaps and sequences asked for all and "
            "for some links and intervals; non-trivial: vehicles waited at "
            "the end of some link and passengers at some stop; distinct by "
            "the queues")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        c["pick"] = [rng.random() for _ in range(12)]
        return c

    def run(self, case, ctx):
        import numpy as np
        from .. import mmgen, mmsim, tt
        net, pick = case["net"], case["pick"]
        mm, S, unit = net["mm"], net["flow_scalar"], net["unit_time"]
        m = mmsim.start(net, ctx.newdir())
        m.run_whole(False)
        o = mmsim.observe(net, m)
        T, N = o.T, o.N
        v = []

        def i32(x):
            return np.array(list(x), dtype=np.int32)

        def whole(x, what):
            r = np.rint(x * S)
            if np.abs(r - x * S).max(initial=0) > 1e-6:
                v.append("%s of a fraction of a simulated vehicle" % what)
            return r.astype(int)
        by = {l["id"]: l for l in net["links"]}
        ids = sorted(by)
        Q = whole(np.asarray(m.get_queue_veh_each_link(i32(ids),
                                                       i32(range(T)))),
                  "a queue")
        q = dict(zip(ids, Q))
        buses = sum(released(net, r, T, 1) for r in mm["routes"])
        onbus = {}
        for r in mm["routes"]:
            p = r["nodes"]
            for x in zip(p, p[1:]):
                for l in net["links"]:
                    if (l["from"], l["to"]) == x:
                        onbus.setdefault(l["id"], []).append(r)
        pk = {n for _, n in net["origins"]}
        waited = 0
        for i in ids:
            l = by[i]
            n_in = sum(np.rint(N[c + "_in", i] * S) for c in ("car", "truck"))
            n_out = sum(np.rint(N[c + "_out", i] * S)
                        for c in ("car", "truck"))
            k = cells(net, l)
            free = i not in onbus
            slow = n_in.size > 1 and max(np.diff(n_in)) > 0.2 * S * l["cap"] \
                * unit / 3600.0 or (N["truck_in", i][-1] > 0
                                    and l["tffs"] != l["ffs"])
            # after the junctions have moved vehicles in interval t: those
            # that had covered the link before it and have not left
            for t in range(T):
                hi = n_in[max(t + 1 - k, 0)] - n_out[t + 1]
                if not free:
                    hi += sum(released(net, r, T, 1)[max(t + 1 - k, 0)]
                              for r in onbus[i])
                if not 0 <= q[i][t] <= hi:
                    v.append("link %d (%s) at %d: %d wait at its end, at "
                             "most %d can have got there"
                             % (i, l["type"], t, q[i][t], hi))
                    break
                if free and l["type"] == "PQ" and l["from"] not in pk \
                        and l["cap"] > 90000 and not slow \
                        and q[i][t] != hi:
                    v.append("link %d at %d: %d wait at its end, %d have "
                             "covered it" % (i, t, q[i][t], hi))
                    break
            if l["type"] != "PQ" and q[i].any():
                waited += 1
        # totals
        E = np.asarray(m.get_enroute_and_queue_veh_stats_agg())
        z = np.zeros(T + 1)
        tot = sum((q[i] for i in ids if by[i]["type"] != "PQ"),
                  np.zeros(T, int))
        dn = {n for _, n in net["dests"]}
        road = sum((N[c + "_in", i] for c in ("car", "truck") for i in ids
                    if by[i]["from"] in pk), z) \
            - sum((N[c + "_out", i] for c in ("car", "truck") for i in ids
                   if by[i]["to"] in dn), z)
        # from when on vehicles may have had to wait at an origin
        late = T
        for l in net["links"]:
            if l["from"] in pk:
                x = sum(np.diff(N[c + "_in", l["id"]])
                        for c in ("car", "truck"))
                x = np.nonzero(x > 0.2 * l["cap"] * unit / 3600.0)[0]
                late = min(late, int(x[0]) if len(x) else T)
        if E.shape != (T, 3):
            v.append("en-route totals of shape %s" % (E.shape,))
        else:
            prev = None
            for t in range(T):
                e = 1e-6 * (1 + abs(E[t, 0]))
                b = E[t, 0] - road[t + 1]
                if abs(E[t, 1] - tot[t] / S) > e:
                    v.append("interval %d: %g vehicles waiting in all, the "
                             "links add up to %g" % (t, E[t, 1], tot[t] / S))
                elif abs(E[t, 0] - E[t, 1] - E[t, 2]) > e:
                    v.append("interval %d: %g en route, %g waiting, %g not"
                             % (t, *E[t]))
                elif b < -e or (t < late and b > buses[t + 1] / S + e):
                    v.append("interval %d: %g vehicles en route, %g cars and "
                             "trucks and at most %g buses are" % (
                                 t, E[t, 0], road[t + 1], buses[t + 1] / S))
                elif prev is not None and t < late and b > prev + e + (
                        buses[t + 1] - buses[t]) / S:
                    v.append("interval %d: %g buses en route after %g"
                             % (t, b, prev))
                else:
                    prev = b
                    continue
                break
        # passengers
        ws = sorted(mm["walks"], key=lambda w: w["id"])
        wid = [w["id"] for w in ws]
        QP = dict(zip(wid, whole(np.asarray(m.get_queue_passenger_each_link(
            i32(wid), i32(range(T)))), "a queue of passengers")))
        pwait = 0
        for w in ws:
            a = np.rint(N["in", w["id"]] * S)
            b = np.rint(N["out", w["id"]] * S)
            g = QP[w["id"]]
            on = a[1:] - b[1:]
            if w["kind"] == "boarding":
                # they wait for a bus; it boards them after the count
                before = a[1:] - b[:-1]
                bad = np.nonzero((g < on) | (g > before))[0]
                pwait += int(g.sum())
            elif w["kind"] == "normal" and w["ft"] != "parking_lot":
                nxt = np.append(b[2:], np.nan) - b[1:]
                bad = np.nonzero(np.where(np.isnan(nxt), g > on, g != nxt))[0]
            else:
                bad = np.nonzero((g < 0) | (g > a[1:] - b[:-1]))[0]
            if len(bad):
                t = int(bad[0])
                v.append("%s link %d at %d: %d passengers wait at its end; "
                         "%g entered, %g left" % (w["kind"], w["id"], t, g[t],
                                                  a[t + 1], b[t + 1]))
        P = np.asarray(m.get_enroute_and_queue_passenger_stats_agg())
        ptot = sum((QP[i] for i in wid), np.zeros(T, int))
        pr = sum((N["in", w["id"]] for w in ws
                  if w["ft"] in ("origin", "parking_lot")), z) \
            - sum((N["out", w["id"]] for w in ws
                   if w["tt"] == "destination"), z)
        if P.shape != (T, 3):
            v.append("passenger totals of shape %s" % (P.shape,))
        else:
            for t in range(T):
                e = 1e-6 * (1 + abs(P[t, 0]))
                if abs(P[t, 1] - ptot[t] / S) > e:
                    v.append("interval %d: %g passengers waiting in all, the "
                             "links add up to %g" % (t, P[t, 1], ptot[t] / S))
                elif abs(P[t, 0] - P[t, 1] - P[t, 2]) > e:
                    v.append("interval %d: %g passengers en route, %g "
                             "waiting, %g not" % (t, *P[t]))
                elif abs(P[t, 0] - pr[t + 1]) > e:
                    v.append("interval %d: %g passengers en route, the "
                             "curves give %g" % (t, P[t, 0], pr[t + 1]))
                else:
                    continue
                break
        # a selection of links and intervals gives the same
        some = [ids[int(x * len(ids))] for x in pick[:3]]
        wsome = [wid[int(x * len(wid))] for x in pick[3:6]]
        at = [int(x * T) for x in pick[6:9]]
        for f, a, full in ((m.get_queue_veh_each_link, some, q),
                           (m.get_queue_passenger_each_link, wsome, QP)):
            g = np.asarray(f(i32(a), i32(at)))
            w = np.array([[full[i][t] / S for t in at] for i in a])
            if g.shape != w.shape or np.abs(g - w).max() > 1e-6:
                v.append("%s of %s at %s is %s, asked for all of them %s"
                         % (f.__name__, a, at, g.tolist(), w.tolist()))
            for bad in ((a, [T]), (a, [-1]), ([99999], at)):
                try:
                    f(*map(i32, bad))
                    v.append("%s of %s at %s is answered" % (f.__name__,
                                                             *bad))
                except RuntimeError:
                    pass
        # waiting at the ends of links
        W = [np.asarray(f()) for f in
             (m.get_waiting_time_at_intersections,
              m.get_waiting_time_at_intersections_car,
              m.get_waiting_time_at_intersections_truck)]
        SB = np.asarray(m.get_link_spillback())
        for j, i in enumerate([l["id"] for l in net["links"]]):
            l = by[i]
            if i in onbus:
                continue
            n = [N[c + "_in", i][-1] for c in ("car", "truck")]
            x = [W[0][j] * (sum(n) + 1e-6), W[1][j] * (n[0] + 1e-6),
                 W[2][j] * (n[1] + 1e-6)]
            x = [h * S / unit for h in x]
            e = 1e-6 * (1 + x[0])
            if abs(x[0] - x[1] - x[2]) > e:
                v.append("link %d: %g vehicle-intervals of waiting, cars %g "
                         "and trucks %g" % (i, *x))
            out = sum(np.rint(np.diff(N[c + "_out", i]) * S)
                      for c in ("car", "truck"))
            base = sum(q[i][1:]) + sum(out[1:])
            on = sum(np.rint((N[c + "_in", i] - N[c + "_out", i])[-1] * S)
                     for c in ("car", "truck"))
            if not base - e <= x[0] <= base + on + e:
                v.append("link %d: %g vehicle-intervals of waiting, queues "
                         "make %d (and up to %d at the end)"
                         % (i, x[0], base, on))
            if l["type"] == "PQ":
                want = {0}
            else:
                cell = l["ffs"] * unit / 3600.0
                k = cells(net, l)
                L = max(l["length"], cell) if k == 1 else l["length"]
                hold = min(l["rhoj"], 400.0) * l["lanes"] * L * S
                pce = max(np.rint((N["car_in", i] - N["car_out", i])[1:] * S)
                          + np.rint((N["truck_in", i] - N["truck_out", i])[1:]
                                    * S) * l["conv"], default=0)
                want = {0} if pce <= hold - 1e-6 else \
                    {1} if pce - k > hold + 1e-6 else {0, 1}
            if int(SB[j]) not in want:
                v.append("link %d: spillback %d, at most %g car equivalents "
                         "on it, it holds %g" % (i, SB[j], pce, hold))
        # readings of single curves
        times = [x * (T + 1) for x in pick[9:]] + [float(at[0])]
        for i in some:
            for c, f in (("car", m.get_car_link_out_num),
                         ("truck", m.get_truck_link_out_num)):
                for x in times:
                    w = tt.value([tuple(r) for r in
                                  o.raw[c + "_out", i].tolist()], x)
                    if not eq(f(i, x), w):
                        v.append("%ss out of link %d by %g: %g, the curve "
                                 "says %g" % (c, i, x, f(i, x), w))
        for i in wsome + [b["id"] for b in mm["blinks"]][:2]:
            for x in times:
                w = tt.value([tuple(r) for r in o.raw["out", i].tolist()], x)
                g = m.get_passenger_link_out_num(i, x)
                if not eq(g, w):
                    v.append("passengers out of link %d by %g: %g, the curve "
                             "says %g" % (i, x, g, w))
        for b in mm["blinks"]:
            for s, way in ((b["to"], "to"), (b["from"], "from")):
                for f, e in ((m.get_bus_stop_arrival_num, "in"),
                             (m.get_bus_stop_departure_num, "out")):
                    cc = o.raw["%s_%s" % (way, e), b["id"]]
                    for x in times[:2]:
                        w = tt.value([tuple(r) for r in cc.tolist()], x)
                        if not eq(f(s, x), w):
                            v.append("buses %s stop %d by %g: %g, the curve "
                                     "says %g" % (e, s, x, f(s, x), w))
        # where buses and cars share the road
        ov = np.asarray(m.get_links_overlapped_bus_driving())
        got = {}
        for b, d, x in ov.tolist():
            got.setdefault(int(b), []).append((int(d), x))
        pos = {s["id"]: s["loc"] for s in mm["stops"]}
        vs = {s["id"]: s for s in mm["vstops"]}
        for b in mm["blinks"]:
            g = got.pop(b["id"], [])
            x0, x1 = (pos[vs[b[e]]["phys"]] for e in ("from", "to"))
            want = []
            for k, i in enumerate(b["over"]):
                L = tt.fd_length_mc(by[i], unit) / 1600.0
                lo = x0 if k == 0 else 0.0
                hi = x1 if k == len(b["over"]) - 1 else L
                want.append((i, (hi - lo) / L))
            if [a for a, _ in g] != [a for a, _ in want] or any(
                    abs(x - y) > 1e-3 for (_, x), (_, y) in zip(g, want)):
                v.append("bus link %d runs on %s, the stops say %s"
                         % (b["id"], g, want))
        if got:
            v.append("overlaps of unknown bus links %s" % sorted(got))
        v += self.paths(net, m, i32, pick)
        h = hashlib.sha1(b"".join(np.ascontiguousarray(x).tobytes()
                                  for x in list(q.values())
                                  + list(QP.values()))).hexdigest()
        return dict(viol=v[:6], nt=bool(waited and pwait), key=h,
                    labels=["scalar %s" % S, "queue" if waited
                            else "no queue"], sample=mmgen.desc(net),
                    count=dict(waiting=pwait))

    def paths(self, net, m, i32, pick):
        import numpy as np
        from .. import tt
        mm = net["mm"]
        v = []

        def long(l):
            return tt.fd_length_mc(l, net["unit_time"]) / 1600.0
        arc = {(l["from"], l["to"]): l for l in net["links"]}
        tl = {w["id"]: w for w in mm["walks"] + mm["blinks"]}
        nd, nt, npn = len(net["paths"]), len(mm["tpaths"]), len(mm["ppaths"])

        def drive(p):
            return [arc[x] for x in zip(p["nodes"], p["nodes"][1:])]

        def far(p):
            return sum(tl[i]["len"] if "len" in tl[i] else
                       tl[i]["time"] * 1.5 / 1600.0
                       if tl[i]["kind"] == "normal" else 0.0
                       for i in p["links"])
        D = [sum(long(l) for l in drive(p)) for p in net["paths"]]
        Tr = [far(p) for p in mm["tpaths"]]
        Pn = [sum(long(l) for l in drive(p)) + far(p)
              for p in mm["ppaths"]]
        m.register_paths_driving(i32(range(nd)))
        m.register_paths_bustransit(i32(range(nd, nd + nt)))
        if npn:
            m.register_paths_pnr(i32(range(nd + nt, nd + nt + npn)))
        for name, want in (("driving", D), ("bustransit", Tr), ("pnr", Pn)):
            g = np.asarray(getattr(m, "get_registered_path_distance_"
                                   + name)()).ravel()
            if len(g) != len(want) or np.abs(g - want).max(
                    initial=0) > 1e-5:
                v.append("%s path lengths %s, the links give %s"
                         % (name, g.tolist()[:5], want[:5]))
        # which modes can serve each pair
        def reach(arcs, d):
            back = {}
            for a, b in arcs:
                back.setdefault(b, []).append(a)
            seen, todo = {d}, [d]
            while todo:
                for a in back.get(todo.pop(), ()):
                    if a not in seen:
                        seen.add(a)
                        todo.append(a)
            return seen - {d}
        road = list(arc)
        foot = [(x["from"], x["to"]) for x in mm["walks"] + mm["blinks"]]
        on, dn = (dict(map(tuple, net[k])) for k in ("origins", "dests"))
        want = []
        for a, b, _ in mm["passenger_demand"]:
            a, b = on[a], dn[b]
            walk = reach(foot, b)
            want.append([a, b, int(a in reach(road, b)), int(a in walk), int(
                any(q["node"] in walk and a in reach(road, q["node"])
                    for q in mm["lots"]))])
        g = np.asarray(m.get_od_mode_connectivity()).tolist()
        if sorted(g) != sorted(want):
            v.append("pairs served by driving, transit, park-and-ride: %s, "
                     "the network has %s" % (sorted(g), sorted(want)))
        onp = {l["id"] for p in net["paths"] for l in drive(p)}
        ont = {i for p in mm["tpaths"] + mm["ppaths"] for i in p["links"]}
        for name, ids, on in (
                ("driving", [l["id"] for l in net["links"]], onp),
                ("bus", [b["id"] for b in mm["blinks"]], ont),
                ("walking", [w["id"] for w in mm["walks"]], ont)):
            g = np.asarray(getattr(
                m, "are_registered_links_in_registered_paths_" + name)())
            want = [i in on for i in ids]
            if g.tolist() != want:
                v.append("%s links on paths: %s, expected %s"
                         % (name, g.tolist(), want))
        for p in net["paths"][:3]:
            ls = [l["id"] for l in drive(p)]
            a = np.asarray(m.node_seq_to_link_seq_driving(i32(p["nodes"])))
            b = np.asarray(m.link_seq_to_node_seq_driving(i32(ls)))
            if a.tolist() != ls or b.tolist() != p["nodes"]:
                v.append("nodes %s links %s: %s and %s" % (
                    p["nodes"], ls, b.tolist(), a.tolist()))
            x = [n["id"] for n in net["nodes"]]
            y = p["nodes"][0], x[int(pick[0] * len(x))]
            if y not in arc:
                try:
                    g = m.node_seq_to_link_seq_driving(i32(y))
                    v.append("links %s between nodes %s" % (g, y))
                except (RuntimeError, IndexError):
                    pass
        for p in mm["tpaths"][:3]:
            ns = [tl[p["links"][0]]["from"]] + [tl[i]["to"]
                                                for i in p["links"]]
            b = np.asarray(m.link_seq_to_node_seq_bustransit(i32(p["links"])))
            if b.tolist() != ns:
                v.append("transit links %s pass %s, not %s"
                         % (p["links"], b.tolist(), ns))
            a = np.asarray(m.node_seq_to_link_seq_bustransit(i32(ns)))
            if [(tl[i]["from"], tl[i]["to"]) for i in a.tolist()] \
                    != list(zip(ns, ns[1:])):
                v.append("transit nodes %s are joined by %s"
                         % (ns, a.tolist()))
        return v


CHECK = Check()
