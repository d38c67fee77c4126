import os

from .. import netgen
from ..common import LONGEST, NetCheck, ends, labels
from .c04 import Boundary, bounds, per_minute

HEAD = ["timestamp(intervals)", "vehicle_ID", "routing_type",
        "departure_interval", "origin_ID", "origin_node_ID",
        "destination_ID", "destination_node_ID", "current_link", "next_link",
        "position"]


class Check(NetCheck):
    id = "C30"
    quick_n = 5000
    thorough_n = 80000
    only = "multi"
    opts = dict(demand_level=[0.6, 1.5, 3.0], max_veh=60,
                routing=["Fixed", "Adaptive", "Hybrid"])
    rule = ("random two-class networks run with vehicles followed, for all or "
            "some origin-destination pairs and departure intervals, sampling "
            "rates and print frequencies; the journeys in the file must be "
            "possible, complete and agree with the cumulative curves; "
            "non-trivial: some followed vehicle used three links or more; "
            "distinct by the file")

    def gen(self, rng, i, tier):
        many = rng.random() < 0.25
        for _ in range(30):
            o = self.pick(rng, i)
            if many:
                o.update(max_o=rng.choice([1, 2, 4]), max_d=6)
            c = dict(net=netgen.gen_net(rng, o))
            net = c["net"]
            n = sum(sum(r[2]) for r in net["demand"]) * net["flow_scalar"]
            if n <= 1200:
                break
        if n > 250 and net["total_interval"] <= 0:
            net["total_interval"] = net["max_interval"] * net["assign_frq"] \
                + rng.choice([20, 80, 300])
        a, b = ends(net)
        for l in net["links"]:
            # nobody waits at an origin
            if l["id"] in a + b:
                for k in ("cap", "rhoj", "tcap", "trhoj"):
                    l[k] = 999999.0
        c["rate"] = rng.choice([1.0, 1.0, 1.0, 0.5, 0.2, 0.0])
        c["freq"] = rng.choice([1, 1, 1, 2, 3, 5, 12, 0])
        ods = [(r[0], r[1]) for r in net["demand"]]
        c["ods"] = rng.sample(ods, rng.randint(1, len(ods))) \
            if rng.random() < 0.3 or many else None
        if c["ods"] and rng.random() < 0.2:
            c["ods"] = c["ods"] + [(998, 997)]
        step = max(1, 60 // net["unit_time"])
        c["when"] = sorted(rng.sample(range(0, 8 * step), rng.randint(
            1, 4 * step))) if rng.random() < 0.2 else None
        return c

    def run(self, case, ctx):
        from .. import sim
        net = dict(case["net"])
        S = net["flow_scalar"]
        f, rate, ods, when = (case[k] for k in ("freq", "rate", "ods",
                                                "when"))
        ex = dict(net.get("extra_files") or {})
        if ods is not None:
            ex["MNM_input_od_tracking"] = "O D\n" + "".join(
                "%d %d\n" % tuple(x) for x in ods)
        if when is not None:
            ex["MNM_input_interval_tracking"] = "interval\n" + "".join(
                "%d\n" % x for x in when)
        net["extra_files"] = ex
        d = ctx.newdir()
        m = sim.start(net, d)
        m.run_whole_vehicle_tracking(False, d, rate, f)
        o = sim.observe_mcdta(net, m)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        p = os.path.join(d, "vehicle_route_cong_raw.txt")
        v = []
        lab = labels(net, ["every %d" % f, "rate %g" % rate])
        if f == 0:
            if os.path.exists(p):
                v.append("a file of journeys was written")
            o2 = sim.run(net, ctx.newdir())
            if sim.curve_key(net, o) != sim.curve_key(net, o2):
                v.append("the run differs from one without following")
            return dict(viol=v, nt=False, key=None, labels=lab)
        with open(p) as h:
            text = h.read()
        rows = [x.split() for x in text.split("\n")[:-1]]
        if not rows or rows[0] != HEAD or any(len(r) != len(HEAD)
                                              for r in rows):
            return dict(viol=["the file is malformed: %s" % rows[:2]],
                        nt=True, key=None, labels=lab)
        by = sim.by_id(net)
        onode, dnode = dict(net["origins"]), dict(net["dests"])
        arc = {}
        for l in net["links"]:
            arc.setdefault((l["from"], l["to"]), []).append(l["id"])
        routes = {}
        for q in net["paths"]:
            routes.setdefault((q["nodes"][0], q["nodes"][-1]), []).append(
                [tuple(arc[x]) for x in zip(q["nodes"], q["nodes"][1:])])
        C = sim.classes(net, o)
        cars = {}
        last = -1
        for r in rows[1:]:
            t, i = int(r[0]), int(r[1])
            if t < last or t % f or t >= T:
                v.append("a row of interval %d after %d" % (t, last))
            last = t
            cars.setdefault(i, []).append(
                (t, tuple(r[2:8]), int(r[8]), int(r[9]), float(r[10])))
        on, longest, first, setout = {}, 0, {}, {}
        for i, rs in cars.items():
            typ, t0, on_, nn, dn_, nd = rs[0][1]
            t0, on_, nn, dn_, nd = map(int, (t0, on_, nn, dn_, nd))

            def bad(s, *a):
                v.append("vehicle %d of %d to %d at %d: " % (i, on_, dn_, t0)
                         + s % a)
            ts = [x[0] for x in rs]
            if ts != list(range(t0, t0 + f * len(ts), f)):
                bad("is followed at %s", ts[:8])
            if any(x[1] != rs[0][1] for x in rs):
                bad("changes who it is")
            if onode.get(on_) != nn or dnode.get(dn_) != nd:
                bad("is at nodes %d and %d", nn, nd)
            if when is not None and t0 not in when:
                bad("is followed, though not departing at %s", when)
            if ods is not None and [on_, dn_] not in [list(x) for x in ods]:
                bad("is followed, though not asked for")
            if typ != {"Fixed": "habitual", "Adaptive": "adaptive"}.get(
                    net["kind"], typ):
                bad("is %s in a %s run", typ, net["kind"])
            if any(x[2] not in by or x[3] not in by and x[3] != -1
                   for x in rs):
                bad("is on no link: %s", [x[2:4] for x in rs][:9])
                break
            if by[rs[0][2]]["from"] != nn:
                bad("starts on link %d", rs[0][2])
            path = [rs[0][2]]
            for x, y in zip(rs, rs[1:]):
                if y[2] == x[2]:
                    if by[x[2]]["type"] == "CTM" and y[4] < x[4] - 1e-9 \
                            and (f == 1 or net["acyclic"]):
                        bad("goes back on link %d", x[2])
                elif f == 1:
                    path.append(y[2])
                    if by[x[2]]["to"] != by[y[2]]["from"]:
                        bad("jumps from link %d to %d", x[2], y[2])
                    if x[3] not in (x[2], y[2]) and typ == "habitual":
                        bad("goes from link %d to %d, not %d", x[2], y[2],
                            x[3])
            for j, x in enumerate(rs):
                # in the middle of a cell, at first of one of the first two
                l = by[x[2]]
                if l["type"] == "CTM" and not sim.near_boundary(
                        l, net["unit_time"]):
                    k = sim.fftt(l, net["unit_time"])
                    y = [min(0.99, (c + 0.5) / k) if c else 0.5 / k
                         for c in range(k)]
                    if f == 1 and (not j or rs[j - 1][2] != x[2]):
                        y = y[:2]
                    elif f == 1:
                        y = [z for z in y if z - rs[j - 1][4] < 1.01 / k]
                    if all(abs(x[4] - z) > 2e-6 for z in y):
                        bad("is at %g of link %d of %d cells", x[4], x[2], k)
            for x in rs:
                if x[3] == -1 and by[x[2]]["to"] != nd:
                    bad("is to end on link %d", x[2])
                if x[3] not in (-1, x[2]) and by[x[3]]["from"] \
                        != by[x[2]]["to"]:
                    bad("is on link %d and to go to %d", x[2], x[3])
                if not 0 <= x[4] <= 1:
                    bad("is at %g of link %d", x[4], x[2])
                on[x[0], x[2]] = on.get((x[0], x[2]), 0) + 1
            done = ts[-1] + f < T
            if f == 1 and done and by[path[-1]]["to"] != nd:
                bad("vanishes from link %d", path[-1])
            if f == 1 and typ == "habitual" and not any(
                    len(path) <= len(q) and (not done or len(path) == len(q))
                    and all(a in b for a, b in zip(path, q))
                    for q in routes.get((nn, nd), [])):
                bad("follows %s, which is no path of its", path)
            longest = max(longest, len({x[2] for x in rs}))
            first[t0, rs[0][2]] = first.get((t0, rs[0][2]), 0) + 1
            setout[(on_, dn_), t0] = setout.get(((on_, dn_), t0), 0) + 1
            if len(v) > 5:
                break
        # how many there are
        agg = []
        whole = ods is None and when is None and rate == 1 and f == 1
        if not v:
            for i in by:
                n = [sum(c[j][i] for c in C) * S for j in (4, 5)]
                here = n[0] - n[1]
                for t in range(0, T, f):
                    a, b = on.get((t, i), 0), round(here[t + 1])
                    if a > b or (whole and a != b):
                        v.append("link %d: %d followed vehicles at %d, the "
                                 "curves have %d on it" % (i, a, t, b))
                        break
                if by[i]["from"] in set(onode.values()):
                    for t in range(0, T, f):
                        a = first.get((t, i), 0)
                        b = round(n[0][t + 1] - n[0][t])
                        if when is not None and t not in when:
                            b = 0
                        if a > b or (rate == 1 and ods is None and a != b) \
                                or (rate == 0 and a):
                            v.append("%d of %d vehicles entering link %d at "
                                     "%d are followed" % (a, b, i, t))
                            break
                        if 0 < rate < 1 and ods is None:
                            agg.append((rate, a - rate * b, b))
        if ods is not None and rate in (0, 1) and not v:
            asked = {tuple(x) for x in ods}
            step = 60 // net["unit_time"]
            try:
                need = {(a, b): per_minute(net, row)
                        for a, b, row in net["demand"]}
            except Boundary:
                need = {}
            for od, rows_ in need.items():
                for j in range(len(rows_[0])):
                    t = j * step
                    if t % f or t >= T:
                        continue
                    lo, hi = map(sum, zip(*(bounds(r[j] * S)
                                            for r in rows_)))
                    if od not in asked or rate == 0 or (
                            when is not None and t not in when):
                        lo = hi = 0
                    a = setout.get((od, t), 0)
                    if not lo <= a <= hi:
                        v.append("%d vehicles of %s departing at %d are "
                                 "followed, %d to %d asked for"
                                 % (a, od, t, lo, hi))
        return dict(viol=v[:6], nt=longest >= 3, key=str(hash(text)),
                    labels=lab, sample=sim.desc(net),
                    agg=[(rate, sum(x[1] for x in agg),
                          sum(x[2] for x in agg))] if agg else [],
                    count=dict(followed=len(cars), rows=len(rows) - 1))

    def aggregate(self, rs):
        by = {}
        for a in rs:
            for rate, d, n in a:
                s = by.setdefault(rate, [0.0, 0.0])
                s[0] += d
                s[1] += n * rate * (1 - rate)
        for rate, (d, var) in sorted(by.items()):
            if var > 100 and abs(d) > 7 * var ** 0.5:
                yield ("with rate %g, %g more vehicles than expected are "
                       "followed, deviation %g" % (rate, d, var ** 0.5))


CHECK = Check()
