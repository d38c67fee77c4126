import hashlib
import math

from .c18 import MMCheck


def rnd(x):
    return int(math.floor(x + 0.5))


def stop_params(net):
    """Boarding rules in intervals and passengers per interval."""
    p, u = net["mm"]["param"], net["unit_time"]
    return dict(
        board=max(1, rnd(u / p["boarding_time_per_passenger"])),
        alight=max(1, rnd(u / p["alighting_time_per_passenger"])),
        cap=p["bus_capacity"],
        dwell=rnd(p["fixed_dwell_time"] / u),
        lost=rnd(p["boarding_lost_time"] / u))


def times(N, S):
    """Time of each simulated unit of a cumulative curve."""
    import numpy as np
    k = np.rint(N * S).astype(int)
    out = []
    for t in range(1, len(k)):
        out += [t] * (k[t] - k[t - 1])
    return out


def bus_minutes(net, vals):
    """Simulated buses per minute of one row of bus demand."""
    S = net["flow_scalar"]
    k = net["assign_frq"] * net["unit_time"] // 60
    out = [0] * (k * len(vals))
    for j, d in enumerate(vals):
        if net["init_demand_split"] == 0:
            out[j * k] = int(math.floor(d * S + 1e-9))
            continue
        for p in range(k):
            x = math.floor(d * S / (k - p) + 1e-9)
            if x >= 1:
                out[j * k:j * k + k - p] = [int(x)] * (k - p)
                break
    return out


def released(net, r, T, S):
    """Simulated buses of a route that set out by each time."""
    import numpy as np
    out = np.zeros(T + 1, int)
    step = 60 // net["unit_time"]
    for q in net["mm"]["bus_demand"]:
        if q[2] == r["route"]:
            for j, x in enumerate(bus_minutes(net, q[3])):
                out[j * step + 1:] += x
    return out


def cells(net, l):
    return max(1, int(l["length"] * 3600.0 / l["ffs"] / net["unit_time"]
                      + 1e-9))


def serve(P, S, st, e, n0, off, Bi, Bo, bo, al, exact):
    """Replay one stop of a bus with n0 aboard, *off* of whom get off here,
    that is first looked at in interval st and leaves in interval e - 1.
    What is seen in an interval must be what the rules say; where the bus may
    have been stuck in traffic nothing at all may happen instead.  Returns
    what is wrong, or None."""
    C = P["cap"] * S
    stopped = {0}  # intervals the bus may have been stopped for
    m, rem = n0, off
    for t in range(st, e):
        left = t == e - 1
        w = Bi[t + 1] - Bo[t]
        room = C - m + rem
        nb = w if room > 0 else 0
        seen = (0, 0) if left else (int(al[t]), int(bo[t]))
        nxt = set()
        exp = []
        for s in stopped:
            md = P["dwell"]
            if 0 < md < P["lost"] and (rem or nb):
                md = P["lost"]
            if not rem and not room and not s:
                md = 0
            if s < md or rem or nb:
                a = b = 0
                if s + 1 > P["lost"]:
                    a = min(rem, P["alight"] * S)
                    b = min(P["board"] * S, C - (m - a), w)
                exp.append("%d get off, %d get on" % (a, b))
                if seen == (a, b) and not left:
                    nxt.add(s + 1)
            else:
                exp.append("it leaves")
                if left:
                    nxt.add(0)
        if not exact and seen == (0, 0) and not left:
            nxt |= stopped
        if not nxt:
            return "interval %d, %d aboard (%d getting off), %d waiting: %s" \
                "; the rules say: %s" % (
                    t, m, rem, w, "it leaves" if left else
                    "%d get off, %d get on" % seen, " or ".join(exp))
        rem -= seen[0]
        m += seen[1] - seen[0]
        stopped = nxt
    return None


class Check(MMCheck):
    id = "C19"
    quick_n = 16000
    thorough_n = 100000
    gen_opts = dict(mix=0.5)
    rule = ("random driving networks with 1-3 bus routes of 2 or more stops, "
            "capacities 2-40, boarding, alighting, dwell and lost times, "
            "scaling factors 1-3, one full multimodal simulation each, every "
            "stop of every bus replayed; non-trivial: a bus carried somebody;"
            " distinct by the boarding and alighting curves")

    def run(self, case, ctx):
        import numpy as np
        from .. import inv, mmgen, mmsim
        net = case["net"]
        mm, S = net["mm"], int(net["flow_scalar"])
        o = mmsim.run(net, ctx.newdir())
        T, N = o.T, o.N
        P = stop_params(net)
        C = P["cap"] * S
        v, lab = [], set()
        count = dict(stops=0, exact=0, full=0, swaps=0)
        h = hashlib.sha1()
        walk = {(w["from"], w["to"]): w["id"] for w in mm["walks"]}
        vst = {q["id"]: q for q in mm["vstops"]}
        pst = {q["id"]: q for q in mm["stops"]}
        lnk = {q["id"]: q for q in net["links"]}
        arc = {(q["from"], q["to"]): q for q in net["links"]}
        rides = 0

        def ints(N):
            return np.rint(N * S).astype(int)

        for r in mm["routes"]:
            bl = [b for b in mm["blinks"] if b["route"] == r["route"]]
            stops = [b["from"] for b in bl] + [bl[-1]["to"]]
            cin, cout = {}, {}
            for b in bl:
                for s, x in (("from", b["from"]), ("to", b["to"])):
                    for w, c in (("in", cin), ("out", cout)):
                        y = N["%s_%s" % (s, w), b["id"]]
                        v += inv.curve_shape(
                            o.raw["%s_%s" % (s, w), b["id"]], y, T, S,
                            "buses %s stop %d" % (w, x))
                        if x in c and np.abs(c[x] - y).max() > 1e-9:
                            v.append("stop %d has different bus counts as "
                                     "the end and the start of bus links" % x)
                        c[x] = y
            if v:
                break
            prev = None
            load = []  # of each stopping bus on leaving the previous stop
            way = [arc[x] for x in zip(r["nodes"], r["nodes"][1:])]
            for k, x in enumerate(stops):
                what = "route %d stop %d" % (r["route"], x)
                st_ = pst[vst[x]["phys"]]
                l = lnk[st_["link"]]
                slot = mmgen.pos_slot(net, l, st_["loc"])[0]
                n = cells(net, l)
                exact = l["type"] == "PQ" or slot == n - 1
                I, O = ints(cin[x]), ints(cout[x])
                if (I < O).any():
                    v.append("%s: more buses left than came" % what)
                # nobody drives faster than free flow
                pos = max(0, slot - 1)  # entering takes no interval
                if prev is None:
                    gap = sum(cells(net, q) for q in way[:way.index(l)])
                    due = released(net, r, T, S)
                elif prev[0] is l:
                    gap = slot - prev[1] - 1
                else:
                    gap = cells(net, prev[0]) - prev[1] + pos + sum(
                        cells(net, q) for q in
                        way[way.index(prev[0]) + 1:way.index(l)])
                    due = prev[2]
                if prev is not None:
                    due = prev[2]
                else:
                    gap += pos
                sh = np.concatenate([np.zeros(gap, int), due])[:T + 1]
                bad = np.nonzero(I > sh)[0]
                if len(bad):
                    t = int(bad[0])
                    v.append("%s in cell %d of link %d: %d buses by time %d, "
                             "%d %s by %d, at least %d intervals away"
                             % (what, slot, l["id"], I[t], t, sh[t],
                                "left the stop before" if k else
                                "set out", t - gap, gap))
                prev = (l, slot, O)
                # one of S simulated buses stops, for all of them
                A = times(cin[x], S)[S - 1::S]
                D = times(cout[x], S)[S - 1::S]
                bid, aid = (walk[vst[x]["phys"], x], walk[x, vst[x]["phys"]])
                Bi, Bo = ints(N["in", bid]), ints(N["out", bid])
                Al = ints(N["in", aid])
                h.update(Bo.tobytes() + Al.tobytes())
                bo, al = np.diff(Bo), np.diff(Al)
                act = np.zeros(T + 1, bool)
                jump = np.zeros(T + 1, int)
                new = []
                for j, a in enumerate(A):
                    if j > len(D) or (k and j >= len(load)):
                        break  # still behind a stopped bus
                    e = D[j] if j < len(D) else T + 2
                    st = max(a - (slot == 0), D[j - 1] - 1 if j else 0)
                    n0 = load[j] if k else 0
                    last = min(e - 1, T)
                    act[st:last] = True
                    up, off = int(bo[st:last].sum()), int(al[st:last].sum())
                    m = n0 + up - off
                    who = "%s, bus %d" % (what, j)
                    if off > n0:
                        v.append("%s: %d got off, %d were aboard"
                                 % (who, off, n0))
                        break
                    if m > C:
                        v.append("%s leaves with %d passengers aboard, "
                                 "capacity %d" % (who, m, C))
                    if e <= T:
                        if e < st + 1:
                            v.append("%s left before it came" % who)
                            break
                        w = serve(P, S, st, e, n0, off, Bi, Bo, bo, al, exact)
                        if w:
                            v.append("%s: %s" % (who, w))
                            break
                        count["stops"] += 1
                        count["exact"] += exact
                        if k == len(bl) and m:
                            v.append("%s: %d still aboard after the last stop"
                                     % (who, m))
                        if k < len(bl):
                            jump[e] += n0 - off
                        new.append(m)
                    elif max(bo[st:last], default=0) > P["board"] * S \
                            or max(al[st:last], default=0) > P["alight"] * S:
                        v.append("%s: too many got on or off in an interval"
                                 % who)
                    count["full"] += m == C
                    count["swaps"] += bool(m == C and off > 1 and any(
                        (al[st:last] > 1) & (bo[st:last] > 0)))
                    rides += m > 0
                if v:
                    break
                bad = np.nonzero(~act[:T] & ((bo > 0) | (al > 0)))[0]
                if len(bad):
                    v.append("%s: somebody got on or off in interval %d with "
                             "no bus there" % (what, bad[0]))
                if k < len(bl):
                    # riders change bus links when their bus leaves
                    exp = Bo + np.cumsum(jump)
                    got = ints(N["in", bl[k]["id"]])
                    if (exp != got).any():
                        t = int(np.nonzero(exp != got)[0][0])
                        v.append("bus link %d at time %d: %d riders entered, "
                                 "the buses took %d" % (bl[k]["id"], t,
                                                        got[t], exp[t]))
                load = new
        lab |= {"full" if count["full"] else "room", "scalar %d" % S,
                "routes %d" % len(mm["routes"])}
        return dict(viol=v[:6], nt=bool(rides), key=h.hexdigest(),
                    labels=sorted(lab), count=count,
                    sample=mmgen.desc(net))


CHECK = Check()
