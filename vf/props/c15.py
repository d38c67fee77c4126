import math
import os

from ..common import LONGEST, NetCheck, ends, labels, moved

NAMES = ("volume", "tt")


def table(path):
    """(header words, {timestamp: [values]}) of a record file."""
    with open(path) as f:
        rows = [x.split() for x in f.read().split("\n") if x]
    if not rows:
        return [], []
    return rows[0], [(int(r[0]), [float(y) for y in r[1:]])
                     for r in rows[1:]]


class Check(NetCheck):
    id = "C15"
    quick_n = 8000
    thorough_n = 120000
    opts = dict(demand_level=[0.6, 1.2, 2.0, 4.0], max_veh=80)
    rule = ("random networks with random recording settings; record files "
            "(volume and travel time of every link, per loading interval and "
            "per recording interval, per class), the printed results and the "
            "vehicle-hours compared with the curves; non-trivial: some link "
            "holds vehicles at free flow and some above it; distinct by the "
            "curves")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        st = dict(rec_mode_para=rng.choice([1, 2, 3, 5, 12, 60]),
                  rec_volume=rng.choice([1, 1, 0]))
        for k in ("volume_load", "volume_record", "tt_load", "tt_record"):
            st[k + "_automatic_rec"] = rng.choice([1, 1, 1, 0])
        if c["net"]["kind"] in ("Fixed", "Due"):
            st["rec_tt"] = rng.choice([1, 1, 0])
        c["net"]["stat"] = st
        c["frq"] = rng.choice([1, 2, 5, 12, 30, 180])
        return c

    def run(self, case, ctx):
        from .. import sim, tt
        from .c05 import length
        net = case["net"]
        multi, dt, sc = net["multiclass"], net["unit_time"], net["flow_scalar"]
        d = ctx.newdir()
        m = sim.start(net, d)
        m.run_whole(False)
        o = (sim.observe_mcdta if multi else sim.observe_dta)(net, m)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        C = sim.classes(net, o)
        by = sim.by_id(net)
        st = dict(rec_volume=1, rec_tt=1)
        st.update(net["stat"])
        n = st["rec_mode_para"]
        v = []
        vol = {"": {}}
        for i in by:
            vol[""][i] = sum(c[4][i] - c[5][i] for c in C)
            for c in C:
                if c[0]:
                    vol.setdefault(c[0], {})[i] = c[4][i] - c[5][i]
        # vehicles over a point queue's capacity wait before it, uncounted
        wait = {}
        for i, l in by.items():
            if l["type"] != "PQ":
                continue
            room = l["cap"] * l["lanes"] / 3600.0 * dt * sc
            room = math.ceil(room - 1e-9) if multi \
                else math.floor(room + 1e-9)
            w = 0.0
            for t in range(T):
                w = max(0.0, w + sc * sum(c[4][i][t + 1] - c[4][i][t]
                                          for c in C) - room)
                if w > 1e-6:
                    wait.setdefault(i, {})[t] = w / sc
        for i, x in wait.items():
            for t, w in x.items():
                vol[""][i][t + 1] -= w
        fd = tt.fd_seconds_mc if multi else tt.fd_seconds
        free = loaded = 0
        val = {}
        for k in vol:
            for i, l in by.items():
                val["volume", k, i] = [x for x in vol[k][i][1:]]
                if k != "truck":
                    lo, mi, hi = ([fd(l, max(0.0, x) * (1 + e), dt, sc)
                                   for x in vol[k][i][1:]]
                                  for e in (-1e-9, 0, 1e-9))
                    val["tt", k, i] = mi
                    val["ttlo", k, i] = [min(x) for x in zip(lo, mi, hi)]
                    val["tthi", k, i] = [max(x) for x in zip(lo, mi, hi)]
                    loaded += sum(a > b * 1.01 for a, b in
                                  zip(mi, [fd(l, 0.0, dt, sc)] * T))
                    free += sum(x > 0 for x in vol[k][i])
        rec = os.path.join(d, "record")

        def mean(x, t):
            if t <= 0:
                return x[0]
            return sum(x[t - n + 1:t + 1]) / n

        def near(y, lo, hi):
            e = 2e-6 + 1e-7 * abs(y)
            return min(lo, hi) - e <= y <= max(lo, hi) + e
        for q in NAMES:
            for way in ("load", "record"):
                for k in vol:
                    f = os.path.join(rec, "MNM_output_%s_interval_%s%s"
                                     % (way, q, "_" + k if k else ""))
                    on = st["rec_" + q] == 1 and \
                        st["%s_%s_automatic_rec" % (q, way)] == 1
                    if not os.path.exists(f):
                        if on:
                            v.append("%s is missing" % os.path.basename(f))
                        continue
                    if not on:
                        v.append("%s is written though switched off"
                                 % os.path.basename(f))
                        continue
                    h, rows = table(f)
                    b = os.path.basename(f)
                    ids = [int(x) for x in h[1:]]
                    if sorted(ids) != sorted(by):
                        v.append("%s: links %s" % (b, ids))
                        continue
                    rows = [r for r in rows if r[0] >= 0]
                    want = [t for t in range(T)
                            if way == "load" or t % n == 0]
                    if [r[0] for r in rows] != want:
                        v.append("%s: rows for %s.. expected %s.." % (
                            b, [r[0] for r in rows][-5:], want[-5:]))
                        continue
                    if q == "tt" and k == "truck":
                        continue
                    for t, r in rows:
                        for i, y in zip(ids, r):
                            if k and i in wait:
                                continue
                            if q == "tt":
                                lo, hi = val["ttlo", k, i], val["tthi", k, i]
                            else:
                                lo = hi = val["volume", k, i]
                            a, z = (lo[t], hi[t]) if way == "load" \
                                else (mean(lo, t), mean(hi, t))
                            if not near(y, a, z):
                                v.append("%s: link %d (%s) at %d is %.9g, "
                                         "the curves give %.9g"
                                         % (b, i, by[i]["type"], t, y, a))
                        if v:
                            break
        # vehicle-hours
        oc, dc = ends(net)
        hours = [1] if not multi else [2, 3]
        for c, hk in zip(C, hours):
            N, A = sum(c[4][i] for i in oc), sum(c[5][i] for i in dc)
            low = float(sum(N[1:] - A[1:])) * dt / 3600.0
            got = o.stats[hk]
            rel = o.stats[0 if not multi else (1 if c[1] else 0)]
            steps = [t for t in range(T) if N[t + 1] > N[t]]
            every = net["assign_frq"] if not multi else \
                max(1, int(round(60.0 / dt)))
            at_once = all((t - net["start_assign_interval"]) % every == 0
                          for t in steps) \
                and abs(N[-1] - rel) < 1e-6 * (1 + rel)
            if got < low - 1e-6 * (1 + low):
                v.append("%s vehicle-hours %.9g, those on the road alone "
                         "make %.9g" % (c[0], got, low))
            if at_once and not multi and abs(got - low) > 1e-6 * (1 + low):
                v.append("vehicle-hours %.9g, expected %.9g" % (got, low))
            hi = rel * T * dt / 3600.0
            if got > hi + 1e-6 * (1 + hi):
                v.append("%s vehicle-hours %.9g, at most %.9g possible"
                         % (c[0], got, hi))
        if multi:
            import numpy as np
            e = np.asarray(m.get_enroute_and_queue_veh_stats_agg())
            x = float(sum(e[:, 0])) * dt / 3600.0
            if abs(x - o.stats[2] - o.stats[3]) > 1e-6 * (1 + x):
                v.append("vehicle-hours %.9g + %.9g, en route vehicles make "
                         "%.9g" % (o.stats[2], o.stats[3], x))
        # printed results
        F = case["frq"]
        out = ctx.newdir()
        os.makedirs(out, exist_ok=True)
        m.print_simulation_results(out, F)
        with open(os.path.join(out, "driving_link_cong_raw.txt")) as f:
            rows = [r.split() for r in f.read().split("\n")[1:] if r]
        want = sorted((t, i) for t in range(0, T - F + 1, F) for i in by)
        have = sorted((int(r[0]), int(r[1])) for r in rows)
        if want != have:
            v.append("results hold %d rows, expected %d" % (len(have),
                                                            len(want)))
        elif not v:
            import numpy as np
            R = {}
            for kk, c in enumerate(C):
                for i, l in by.items():
                    if multi:
                        f = m.get_truck_link_fftt if c[1] \
                            else m.get_car_link_fftt
                        ff = float(f(np.array([i], dtype=np.int32))[0]) / dt
                    else:
                        ff = None
                    R[kk, i] = ff
            K = len(C)
            for r in rows:
                t, i = int(r[0]), int(r[1])
                x = [float(y) for y in r[2:]]
                L = length(by[i], dt, multi)
                for kk, c in enumerate(C):
                    fl = x[2 * kk:2 * kk + 2]
                    if not near(fl[0], *[c[4][i][t + F] - c[4][i][t]] * 2) \
                            or not near(fl[1],
                                        *[c[5][i][t + F] - c[5][i][t]] * 2):
                        v.append("results: %s link %d at %d in %g out %g, "
                                 "the curves give %g and %g" % (
                                     c[0], i, t, fl[0], fl[1],
                                     c[4][i][t + F] - c[4][i][t],
                                     c[5][i][t + F] - c[5][i][t]))
                    y = x[2 * K:]
                    ttm, ffm = y[kk], y[K + kk]
                    sf, s = y[2 * K + 2 * kk:2 * K + 2 * kk + 2]
                    ff = R[kk, i] if R[kk, i] is not None else ffm / dt
                    if not near(ffm, ff * dt, ff * dt):
                        v.append("results: %s link %d free-flow time %g, "
                                 "expected %g" % (c[0], i, ffm, ff * dt))
                    k2 = tt.Link(c[2][i], c[3][i], T, round(ffm / dt),
                                 L * 3600.0 / (by[i]["tffs"] if c[1]
                                               else by[i]["ffs"]), dt)
                    e = k2.robust_intervals(t, t + F, 10) * dt
                    if not near(ttm, e, e):
                        v.append("results: %s link %d at %d travel time "
                                 "%.9g, the curves give %.9g"
                                 % (c[0], i, t, ttm, e))
                    for a, b in ((sf, ffm), (s, ttm)):
                        if abs(a * b - L * 3600.0) > 1e-3 + 1e-6 * (a + b) \
                                + 1e-6 * L * 3600:
                            v.append("results: %s link %d at %d speed %g "
                                     "over %g s is not %g miles"
                                     % (c[0], i, t, a, b, L))
                if v:
                    break
        return dict(viol=v[:5], nt=loaded > 0 and free > loaded
                    and moved(net, o) >= 5, key=sim.curve_key(net, o),
                    labels=labels(net), count=dict(rows=len(rows)),
                    sample="%s; record %s" % (sim.desc(net), net["stat"]))


CHECK = Check()
