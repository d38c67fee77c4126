import hashlib
import math

from .c05 import close, fftts, length
from .c18 import MMCheck

INF = math.inf


def last_time(N, k, T):
    """When the last vehicle came of those no later than the k-th: the whole
    group when several came at once."""
    if k < 0.5:
        return 0
    t = next(t for t in range(T + 1) if N[t] >= k - 1e-6)
    if N[t] > k + 1e-6:  # only some of a group
        k = N[t - 1] if t else 0
        if k < 0.5:
            return 0
        t = next(t for t in range(T + 1) if N[t] >= k - 1e-6)
    return t


class Stop:
    """A bus stop's counts of buses come and gone, whole buses only."""

    def __init__(self, N_in, N_out, T):
        self.i, self.o, self.T = N_in, N_out, T
        # the last bus that left again, when it came
        self.last = last_time(N_in, N_out[T], T)

    def wait(self, t):
        """Intervals until a bus is there, INF when none comes that leaves."""
        if self.i[self.T] < 0.5 or self.last <= 0 or t + 1 > self.last:
            return INF
        if self.i[t] > 0.5 and self.i[t] > self.o[t] + 1e-6:
            return 0
        for u in range(t + 1, self.last + 1):
            if self.i[u] > self.i[t] + 0.5:
                return u - t
        return INF


class BusLink:
    def __init__(self, a, b, T):
        """Stop *a* to the stop with arrivals *b*."""
        self.a, self.T = a, T
        self.b = b
        self.last = last_time(a.i, b[T], T)

    def tt(self, x):
        """(wait, ride), both in intervals, entering at interval x."""
        t = int(round(x + 1))
        w = self.a.wait(t) if t <= self.T else INF
        s = t + w
        if s > self.last:
            return INF, INF
        n = self.a.i[s]
        u = next(u for u in range(self.T + 1) if self.b[u] >= n - 1e-6)
        return w, u - s


class Check(MMCheck):
    id = "C22"
    gen_opts = dict(demand_level=[0.2, 0.6, 1.5], max_veh=60, max_pass=60)
    quick_n = 5000
    thorough_n = 80000
    rule = ("random multimodal networks, one full simulation each, then "
            "random queries of link and path times, costs, lengths, speeds "
            "and flows of cars, trucks, buses, walkers; non-trivial: a bus "
            "link time was answered with a wait or a travel time above free "
            "flow; distinct by answers")

    def gen(self, rng, i, tier):
        from .. import netgen
        c = super().gen(rng, i, tier)
        net = c["net"]
        netgen.add_tolls(rng, net)
        net["mm"]["mmdue"] = dict(
            vot=rng.choice([0, 10, 36]), early_penalty=rng.choice([0, 5, 18]),
            late_penalty=rng.choice([0, 30, 54]),
            target_time=rng.choice([0, 5, 10, 20]),
            parking_lot_to_destination_walking_time=rng.choice([0, 7, 60]),
            carpool_cost_multiplier=rng.choice([1, 3]),
            bus_fare=rng.choice([0, 2, 2.75]),
            pnr_inconvenience=rng.choice([0, 4]),
            bus_inconvenience=rng.choice([0, 1.5]))
        c["at"] = [rng.random() for _ in range(rng.randint(2, 6))]
        c["at"] += rng.choice([[], [0.0, 0.999999]])
        c["win"] = [[rng.random(), rng.random()]
                    for _ in range(rng.randint(1, 3))]
        c["trials"] = rng.choice([1, 2, 3, 7, 60])
        c["order"] = rng.randrange(10 ** 6)
        return c

    def run(self, case, ctx):
        import random
        import numpy as np
        from .. import mmgen, mmsim, tt
        net = case["net"]
        mm, S, dt = net["mm"], net["flow_scalar"], net["unit_time"]
        m = mmsim.start(net, ctx.newdir())
        rng = random.Random(case["order"])

        def some(ids):
            ids = list(ids)
            rng.shuffle(ids)
            return ids[:rng.randint(1, len(ids))] if ids else []

        drv = some(l["id"] for l in net["links"])
        wlk = some(w["id"] for w in mm["walks"])
        bus = some(b["id"] for b in mm["blinks"])
        m.register_links_driving(drv)
        m.register_links_walking(wlk)
        m.register_links_bus(bus)
        und = some(l["id"] for l in net["links"])
        m.register_links_bus_driving(und)
        n1, n2, n3 = len(net["paths"]), len(mm["tpaths"]), len(mm["ppaths"])
        pd = list(range(n1))
        pt = list(range(n1, n1 + n2))
        pp = list(range(n1 + n2, n1 + n2 + n3))
        for x in (pd, pt, pp):
            rng.shuffle(x)
        m.register_paths_driving(pd)
        m.register_paths_bustransit(pt)
        if pp:
            m.register_paths_pnr(pp)
        m.run_whole(False)
        o = mmsim.observe(net, m)
        T, N = o.T, o.N
        v, ans = [], []
        top = [0, 0]  # above free flow, waits

        def cmp(got, refs, what):
            got = float(got)
            ans.append(round(got, 4) if got == got and abs(got) < 1e15
                       else str(got))
            if not any(close(got, float(x)) for x in refs):
                v.append("%s: reported %.9g, the curves give %s" % (
                    what, got, " or ".join("%.9g" % x for x in refs)))

        at = sorted({min(int(f * T), T - 1) for f in case["at"]})
        rng.shuffle(at)
        starts = np.array(at, dtype=float)
        win = []
        for a, b in case["win"]:
            a, b = sorted((int(a * T), int(b * T)))
            a = min(a, T - 1)
            win.append((a, max(b, a + 1)))
        wa = np.array([w[0] for w in win], dtype=np.int32)
        we = np.array([w[1] for w in win], dtype=np.int32)
        by = {l["id"]: l for l in net["links"]}

        # ---- cars and trucks on roads
        R = {}
        clear = {}
        for cls in ("car", "truck"):
            trk = cls == "truck"
            ff = np.asarray(getattr(m, "get_%s_link_fftt" % cls)(
                np.array(sorted(by), dtype=np.int32)))
            for i, x in zip(sorted(by), ff / dt):
                l = by[i]
                ok = fftts(l, dt, True, trk)
                if not any(close(x, y) for y in ok):
                    v.append("%s link %d (%s): free-flow time %g intervals "
                             "reported, %s expected"
                             % (cls, i, l["type"], x, sorted(ok)))
                sec = length(l, dt, True) * 3600.0 / (
                    l["tffs"] if trk else l["ffs"])
                R[cls, i] = tt.Link(o.raw[cls + "_in", i],
                                    o.raw[cls + "_out", i], T, float(x), sec,
                                    dt)
            for inf in (False, True):
                for ids, get in ((drv, "get_%s_link_tt"),
                                 (und, "get_bus_driving_link_tt_%s")):
                    get %= cls
                    got = np.asarray(getattr(m, get)(starts, inf))
                    rob = np.asarray(getattr(m, get + "_robust")(
                        wa.astype(float), we.astype(float), case["trials"],
                        inf))
                    for r, i in enumerate(ids):
                        L = R[cls, i]
                        for c, s in enumerate(at):
                            x = L.tt(float(s)) * dt
                            top[0] += x > L.fftt * dt + 1e-9
                            if not L.near_cap(x):
                                cmp(got[r, c], [L.cap(x, inf)], "%s travel "
                                    "time on link %d entering at %d"
                                    % (cls, i, s))
                        for c, (a, b) in enumerate(win):
                            x = L.robust_intervals(float(a), float(b),
                                                   case["trials"]) * dt
                            if not L.near_cap(x):
                                cmp(rob[r, c], [L.cap(x, inf)], "%s travel "
                                    "time on link %d averaged over %d..%d, "
                                    "%d trials" % (cls, i, a, b,
                                                   case["trials"]))
            sp = np.asarray(getattr(m, "get_%s_link_speed" % cls)(starts))
            inf_ = np.asarray(getattr(m, "get_link_%s_inflow" % cls)(wa, we))
            for r, i in enumerate(drv):
                for c, s in enumerate(at):
                    cmp(sp[r, c], [length(by[i], dt, True) * 3600.0
                                   / (R[cls, i].tt(float(s)) * dt)],
                        "%s speed on link %d entering at %d" % (cls, i, s))
                for c, (a, b) in enumerate(win):
                    x = N[cls + "_in", i]
                    cmp(inf_[r, c], [x[b] - x[a]],
                        "%s inflow of link %d over %d..%d" % (cls, i, a, b))
                for s in at:
                    cmp(getattr(m, "get_%s_link_out_num" % cls)(i, float(s)),
                        [N[cls + "_out", i][s]],
                        "%ss out of link %d by %d" % (cls, i, s))
            # averages per link of an arbitrary list
            got = np.asarray(getattr(m, "get_path_tt_" + cls)(
                np.array(drv, dtype=np.int32), starts))
            for r, i in enumerate(drv):
                L = R[cls, i]
                xs = [L.tt(float(s)) * dt for s in at]
                if not any(L.near_cap(x) for x in xs):
                    cmp(got[r], [sum(L.cap(x, False) for x in xs) / len(xs)],
                        "%s travel time on link %d averaged over %s"
                        % (cls, i, at))

        # ---- walkers
        for w in mm["walks"]:
            i = w["id"]
            R["t", i] = tt.Link(o.raw["in", i], o.raw["out", i], T,
                                w["time"] / dt, w["time"], dt)
        got = np.asarray(m.get_passenger_walking_link_tt(starts))
        rob = np.asarray(m.get_passenger_walking_link_tt_robust(
            wa.astype(float), we.astype(float), case["trials"]))
        fl = np.asarray(m.get_link_walking_passenger_inflow(wa, we))
        ff = np.asarray(m.get_walking_link_fftt(np.array(wlk, np.int32)))
        wt = {w["id"]: w["time"] for w in mm["walks"]}
        for r, i in enumerate(wlk):
            cmp(ff[r], [wt[i]], "walking time of link %d" % i)
            for c, s in enumerate(at):
                cmp(got[r, c], [R["t", i].tt(float(s)) * dt],
                    "walking link %d time entering at %d" % (i, s))
                cmp(m.get_passenger_link_out_num(i, float(s)),
                    [N["out", i][s]], "walkers out of link %d by %d" % (i, s))
            for c, (a, b) in enumerate(win):
                cmp(rob[r, c], [R["t", i].robust_intervals(
                    float(a), float(b), case["trials"]) * dt],
                    "walking link %d time averaged over %d..%d" % (i, a, b))
                cmp(fl[r, c], [N["in", i][b] - N["in", i][a]],
                    "walkers into link %d over %d..%d" % (i, a, b))

        # ---- buses
        bl = {b["id"]: b for b in mm["blinks"]}
        f1 = np.asarray(m.get_link_bus_inflow(wa, we))
        f2 = np.asarray(m.get_busstop_bus_inflow(wa, we))
        f3 = np.asarray(m.get_link_bus_passenger_inflow(wa, we))
        ff = np.asarray(m.get_bus_link_fftt(np.array(bus, np.int32)))
        for r, i in enumerate(bus):
            cmp(ff[r], [bl[i]["fftt"] * 3600.0], "bus link %d free-flow time" % i)
            for c, (a, b) in enumerate(win):
                for f, k, w in ((f1, "from_out", "buses on"),
                                (f2, "to_in", "buses at the end of"),
                                (f3, "in", "riders on")):
                    cmp(f[r, c], [N[k, i][b] - N[k, i][a]],
                        "%s bus link %d over %d..%d" % (w, i, a, b))
            for s in at:
                cmp(m.get_passenger_link_out_num(i, float(s)),
                    [N["out", i][s]], "riders off link %d by %d" % (i, s))
                for j, a, b in ((bl[i]["from"], "from_in", "from_out"),
                                (bl[i]["to"], "to_in", "to_out")):
                    cmp(m.get_bus_stop_arrival_num(j, float(s)),
                        [N[a, i][s]], "buses come to stop %d by %d" % (j, s))
                    cmp(m.get_bus_stop_departure_num(j, float(s)),
                        [N[b, i][s]], "buses gone from stop %d by %d"
                        % (j, s))
        if S == 1:
            for i in bl:
                R["b", i] = BusLink(Stop(N["from_in", i], N["from_out", i],
                                         T), N["to_in", i], T)
            big = 2.0 * T * dt
            for inf in (False, True):
                nope = INF if inf else big
                for only in (False, True):
                    got = np.asarray(m.get_bus_link_tt(starts, inf, only))
                    sp = np.asarray(m.get_bus_link_speed(starts, inf, only))
                    for r, i in enumerate(bus):
                        for c, s in enumerate(at):
                            w, x = R["b", i].tt(float(s))
                            top[1] += 0 < w < INF
                            t = nope if w == INF else -1.0 * dt if only and w \
                                else (x if only else w + x) * dt
                            cmp(got[r, c], [t], "bus link %d time%s entering "
                                "at %d" % (i, " on the bus" if only else "",
                                           s))
                            mi = bl[i]["len"] * 3600.0
                            if t and not only:
                                cmp(sp[r, c], [0.0 if t == INF else mi / t],
                                    "bus link %d speed entering at %d"
                                    % (i, s))
                rob = np.asarray(m.get_bus_link_tt_robust(
                    wa.astype(float), we.astype(float), case["trials"], inf,
                    False))
                rid = np.asarray(m.get_bus_link_tt_robust(
                    wa.astype(float), we.astype(float), case["trials"], inf,
                    True))
                for r, i in enumerate(bus):
                    for c, (a, b) in enumerate(win):
                        n = min(case["trials"], b - a)
                        d = (b - a) / n
                        if all(abs((a + k * d) % 1 - 0.5) > 1e-6
                               for k in range(n)):
                            xs = [sum(R["b", i].tt(a + k * d))
                                  for k in range(n)]
                            xs = [nope if x == INF else x * dt for x in xs]
                            cmp(rob[r, c], [sum(xs) / n], "bus link %d time "
                                "averaged over %d..%d, %d trials"
                                % (i, a, b, n))
                        xs = [R["b", i].tt(float(k)) for k in range(a, b)]
                        xs = [x for w, x in xs if w == 0 and x > 0]
                        cmp(rid[r, c], [sum(xs) / len(xs) * dt if xs else INF],
                            "bus link %d riding time averaged over %d..%d"
                            % (i, a, b))

        # ---- paths
        P = dict(mm["mmdue"])
        vot = P["vot"] / 3600.0 * dt
        early = P["early_penalty"] / 3600.0 * dt
        late = P["late_penalty"] / 3600.0 * dt
        target = P["target_time"] * 60.0 / dt
        m.build_link_cost_map(False)
        arc = {(l["from"], l["to"]): l["id"] for l in net["links"]}
        toll = {t[0]: t[1][0] for t in net.get("tolls") or ()}

        def drive(cls, links, t):
            for i in links:
                t += tt.round_up(R[cls, i].tt(float(min(t, T - 1))))
            return t

        def ride(links, t):
            a = t
            for i in links:
                if i in bl:
                    x = sum(R["b", i].tt(float(min(t, T - 1))))
                else:
                    x = R["t", i].tt(float(min(t, T - 1)))
                if x > T:
                    return a + 2 * T
                t += tt.round_up(x)
            return t

        def cost(t, x, fixed, bus_=True):
            y = vot * x + max(late * (t + x - target),
                              early * (target - t - x)) + fixed
            return 1e3 * y if bus_ and x > T else y

        lotn = {q["node"] for q in mm["lots"]}
        park = {q["node"]: q["price"] * q["surge"] for q in mm["lots"]}
        walk = math.ceil(P["parking_lot_to_destination_walking_time"] / dt)
        jobs = []
        for i, p in enumerate(net["paths"]):
            ls = [arc[a] for a in zip(p["nodes"], p["nodes"][1:])]
            jobs.append(("driving", i, ls, None, p["nodes"][-1] in lotn))
        for i, p in enumerate(mm["tpaths"]):
            jobs.append(("bustransit", n1 + i, None, p["links"], False))
        for i, p in enumerate(mm["ppaths"]):
            ls = [arc[a] for a in zip(p["nodes"], p["nodes"][1:])]
            jobs.append(("pnr", n1 + n2 + i, ls, p["links"], False))
        reg = dict(driving=pd, bustransit=pt, pnr=pp)
        G, C, D = {}, {}, {}
        for k, ids in reg.items():
            if ids:
                G[k] = np.asarray(getattr(m, "get_registered_path_tt_" + k)(
                    starts))
                C[k] = np.asarray(getattr(m, "get_registered_path_cost_" + k)(
                    starts))
                D[k] = np.asarray(getattr(
                    m, "get_registered_path_distance_" + k)())
        trk = np.asarray(m.get_registered_path_tt_truck(starts))
        for k, i, ls, ts, lot in jobs:
            r = reg[k].index(i)
            n = sum(length(by[x], dt, True) for x in ls or ())
            n += sum(bl[x]["len"] if x in bl else wt[x] * 1.5 / 1600.0
                     for x in ts or ())
            cmp(np.ravel(D[k][r])[0], [n], "length of %s path %d" % (k, i))
            if ts is not None and S != 1:
                continue
            fee = sum(toll.get(x, 0) for x in ls or ()) + 8.0
            if ts is None:
                one = np.asarray(m.get_passenger_path_cost_driving(
                    np.array(ls, np.int32), starts))
            elif ls is None:
                one = np.asarray(m.get_passenger_path_cost_bus(
                    np.array(ts, np.int32), starts))
                fee = P["bus_fare"] + P["bus_inconvenience"]
            else:
                one = np.asarray(m.get_passenger_path_cost_pnr(
                    np.array(ls, np.int32), np.array(ts, np.int32), starts))
                fee = P["bus_fare"] + P["pnr_inconvenience"]
            for c, s in enumerate(at):
                e = s
                if ls is not None:
                    e = drive("car", ls, e)
                if ts is not None:
                    e = ride(ts, e)
                else:
                    e += walk
                x = e - s
                what = "%s path %d leaving at %d: " % (k, i, s)
                if ts is None:
                    y = drive("truck", ls, s) - s
                    cmp(trk[r, c], [y * dt], what + "truck time")
                    cmp(one[1, c], [y * dt], what + "truck time (list)")
                    if lot:  # looking for a place to park takes time
                        for z, w in ((G[k][r, c], C[k][r, c]),
                                     (one[0, c], one[-1, c])):
                            if z < x * dt - 1e-6:
                                v.append(what + "time %g, driving and walking "
                                         "alone take %g" % (z, x * dt))
                            cmp(w, [cost(s, z / dt, fee - 8.0 + park[
                                by[ls[-1]]["to"]], False)],
                                what + "cost at the parking lot")
                        continue
                cmp(G[k][r, c], [x * dt], what + "time")
                cmp(one[0, c], [x * dt], what + "time (list)")
                y = cost(s, x, fee, ts is not None)
                cmp(C[k][r, c], [y], what + "cost")
                cmp(one[-1, c], [y], what + "cost (list)")
        h = hashlib.sha1(repr(ans).encode()).hexdigest()
        return dict(viol=v[:6], nt=top[0] + top[1] > 0, key=h,
                    labels=["scalar %s" % S]
                    + (["above free flow"] if top[0] else [])
                    + (["waits for a bus"] if top[1] else []),
                    count=dict(answers=len(ans), above=top[0], waits=top[1]),
                    sample=mmgen.desc(net))

    def shrink(self, case):
        for key in ("at", "win"):
            for j in range(len(case[key])):
                if len(case[key]) > 1:
                    c = dict(case)
                    c[key] = case[key][:j] + case[key][j + 1:]
                    yield c
        yield from super().shrink(case)


CHECK = Check()
