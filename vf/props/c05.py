import math

from ..common import LONGEST, NetCheck, labels, moved


def fftts(l, dt, multi, truck):
    """Admissible free-flow times in whole intervals."""
    from .. import sim, tt
    if l["type"] == "LQ":
        ffs = l["tffs"] if truck else l["ffs"]
        x = l["length"] * 3600.0 / ffs / dt
        s = {tt.round_up(x)}
        if abs(x - round(x)) < 3e-4 * max(1, x):
            s |= {max(1, round(x)), max(1, round(x)) + 1}
        return s
    n = sim.fftt(l, dt)
    s = {n}
    if sim.near_boundary(l, dt):
        s |= {max(1, n - 1), n + 1}
    if truck and l["type"] == "CTM":
        r = set()
        for k in s:
            x = k * l["ffs"] / l["tffs"]
            r.add(int(x))
            if abs(x - round(x)) < 1e-6:
                r |= {round(x), round(x) - 1}
        s = r
    return s


def length(l, dt, multi):
    """Miles; a two-class cell link is at least one cell long."""
    if multi and l["type"] == "CTM":
        return max(l["length"], l["ffs"] * dt / 3600.0)
    return l["length"]


def close(a, b):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-6 * (1 + abs(b))


class Check(NetCheck):
    id = "C05"
    quick_n = 9000
    thorough_n = 150000
    opts = dict(demand_level=[0.6, 1.2, 2.0, 4.0], max_veh=100)
    rule = ("random networks, one full simulation each, then random queries "
            "of link travel time (plain, robust, fundamental diagram), "
            "speed, free-flow time, inflow and outflow, compared with a "
            "reference reading of the curves; non-trivial: some answered "
            "travel time is above free flow; distinct by curves and answers")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        # where in the run to ask, as fractions of its length
        c["at"] = [rng.random() for _ in range(rng.randint(1, 6))]
        c["at"] += rng.choice([[], [0.0, 0.999999]])
        c["win"] = [[rng.random(), rng.random()]
                    for _ in range(rng.randint(1, 4))]
        c["trials"] = rng.choice([1, 2, 3, 7, 60, 180])
        ids = [l["id"] for l in c["net"]["links"]]
        rng.shuffle(ids)
        c["reg"] = ids[:rng.randint(1, len(ids))]
        c["frac"] = rng.random() < 0.2
        return c

    def run(self, case, ctx):
        from .. import sim, tt
        import numpy as np
        net = case["net"]
        multi = net["multiclass"]
        dt = net["unit_time"]
        ids = [l["id"] for l in net["links"]]
        reg = [i for i in case["reg"] if i in ids] or ids[:1]
        by = {l["id"]: l for l in net["links"]}
        m = sim.start(net, ctx.newdir(), registered=reg)
        m.run_whole(False)
        o = (sim.observe_mcdta if multi else sim.observe_dta)(net, m)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        v = []
        at = [int(f * T) for f in case["at"]]
        win = []
        for a, b in case["win"]:
            a, b = sorted((int(a * T), int(b * T)))
            win.append((a, max(b, a + 1)))
        starts = np.array(at, dtype=np.int32)
        ws = np.array([w[0] for w in win], dtype=float)
        we = np.array([w[1] for w in win], dtype=float)
        if case["frac"]:
            ws = ws + 0.25
            we = np.minimum(we + 1.5, float(T))
            ws = np.where(we - ws < 1, we - 1, ws)
        above = 0
        answers = []
        for k, truck, ri, ro, N_in, N_out in sim.classes(net, o):
            R = {}
            for i in reg:
                l = by[i]
                ok = fftts(l, dt, multi, truck)
                if multi:
                    f = m.get_truck_link_fftt if truck else m.get_car_link_fftt
                    x = float(f(np.array([i], dtype=np.int32))[0]) / dt
                    if not any(close(x, y) for y in ok):
                        v.append("%s link %d (%s): free-flow time %g "
                                 "intervals reported, %s expected"
                                 % (k, i, l["type"], x, sorted(ok)))
                    ok = {x}
                ff = length(l, dt, multi) * 3600.0 / (
                    l["tffs"] if truck else l["ffs"])
                R[i] = [tt.Link(ri[i], ro[i], T, float(x), ff, dt)
                        for x in ok]

            def cmp(got, refs, what):
                answers.append(round(float(got), 4))
                if not any(close(float(got), float(x)) for x in refs):
                    v.append("%s%s: reported %.9g, the curves give %s"
                             % (k + " " if k else "", what, got,
                                " or ".join("%.9g" % x for x in refs)))

            pre = "get_%s_" % k if k else "get_"
            for inf in (False, True):
                got = np.asarray(getattr(m, pre + "link_tt")(
                    starts.astype(float) if multi else starts, inf))
                rob = np.asarray(getattr(m, pre + "link_tt_robust")(
                    ws, we, case["trials"], inf))
                for r, i in enumerate(reg):
                    for c, s in enumerate(at):
                        ex = [x.tt(float(s)) * dt for x in R[i]]
                        if any(x.near_cap(y) for x, y in zip(R[i], ex)):
                            continue
                        if ex[0] > R[i][0].fftt * dt:
                            above += 1
                        cmp(got[r, c], [x.cap(y, inf)
                                        for x, y in zip(R[i], ex)],
                            "link %d travel time entering at %d" % (i, s))
                    for c in range(len(win)):
                        ex = [x.robust_intervals(ws[c], we[c], case["trials"])
                              * dt for x in R[i]]
                        if any(x.near_cap(y) for x, y in zip(R[i], ex)):
                            continue
                        cmp(rob[r, c], [x.cap(y, inf)
                                        for x, y in zip(R[i], ex)],
                            "link %d travel time averaged over %g..%g, %d "
                            "trials" % (i, ws[c], we[c], case["trials"]))
            if multi:
                got = np.asarray(getattr(
                    m, "get_avg_link_on_path_tt_" + k)(
                        np.array(reg[::-1], dtype=np.int32),
                        starts.astype(float))).ravel()
                for i, g in zip(reg[::-1], got):
                    ex = [[x.tt(float(s)) * dt for s in at] for x in R[i]]
                    if not any(x.near_cap(y) for x, e in zip(R[i], ex)
                               for y in e):
                        cmp(g, [sum(x.cap(y, False) for y in e) / len(e)
                                for x, e in zip(R[i], ex)],
                            "link %d mean travel time entering at %s"
                            % (i, at))
            # inflow over windows
            name = "get_link_%s_inflow" % k if k else "get_link_inflow"
            a = np.array([w[0] for w in win], dtype=np.int32)
            b = np.array([w[1] for w in win], dtype=np.int32)
            got = np.asarray(getattr(m, name)(a, b))
            for r, i in enumerate(reg):
                for c, (s, e) in enumerate(win):
                    cmp(got[r, c], [N_in[i][e] - N_in[i][s]],
                        "link %d inflow %d..%d" % (i, s, e))
            if multi:
                sp = np.asarray(getattr(m, pre + "link_speed")(
                    starts.astype(float)))
                for r, i in enumerate(reg):
                    for c, s in enumerate(at):
                        cmp(sp[r, c], [length(by[i], dt, multi) * 3600.0
                                       / (x.tt(float(s)) * dt)
                                       for x in R[i]],
                            "link %d speed entering at %d" % (i, s))
                f = getattr(m, pre + "link_out_num")
                for i in reg:
                    for s in at:
                        cmp(f(i, float(s)), [N_out[i][s]],
                            "link %d count out by %d" % (i, s))
            else:
                got = np.asarray(m.get_link_tt_FD(starts))
                for r, i in enumerate(reg):
                    for c, s in enumerate(at):
                        l = by[i]
                        n = max(0.0, N_in[i][s] - N_out[i][s])
                        # either side of a boundary of the diagram
                        ex = {tt.fd_seconds(l, n * (1 + e), dt,
                                            net["flow_scalar"])
                              for e in (-1e-9, 0, 1e-9)}
                        cmp(got[r, c], sorted(ex), "link %d (%s) travel time from "
                            "the fundamental diagram at %d"
                            % (i, l["type"], s))
        return dict(viol=v[:6], nt=above > 0 and moved(net, o) >= 5,
                    key=sim.curve_key(net, o) + str(hash(tuple(answers))),
                    labels=labels(net, ["above free flow"] if above else []),
                    count=dict(answers=len(answers), above=above),
                    sample=sim.desc(net))

    def shrink(self, case):
        for key in ("at", "win", "reg"):
            for j in range(len(case[key])):
                if len(case[key]) > 1:
                    c = dict(case)
                    c[key] = case[key][:j] + case[key][j + 1:]
                    yield c
        yield from super().shrink(case)


CHECK = Check()
