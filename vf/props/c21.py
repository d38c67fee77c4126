import hashlib

from ..common import eq
from .c04 import Boundary, bounds, per_minute
from .c18 import MMCheck, minutes
from .c19 import cells, released


class Check(MMCheck):
    id = "C21"
    gen_opts = dict(max_veh=12, max_pass=30)
    quick_n = 16000
    thorough_n = 100000
    rule = ("random driving networks with buses, trucks, cars and "
            "park-and-ride cars, one full multimodal simulation each; "
            "non-trivial: cars and park-and-ride cars or trucks finished a "
            "trip; distinct by the vehicle curves")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        if i % 4 == 0:  # some choose their way as they go
            c["net"]["adaptive_ratio"] = rng.choice([0, 0.3, 1])
            c["net"]["adaptive_ratio_truck"] = rng.choice([0, 0.5, 1])
        return c

    def run(self, case, ctx):
        import numpy as np
        from .. import inv, mmgen, mmsim
        net = case["net"]
        mm, S, unit = net["mm"], net["flow_scalar"], net["unit_time"]
        try:
            rows = [(a, d, per_minute(net, r)) for a, d, r in net["demand"]]
            prow = [(a, d, minutes(net, r)) for a, d, r in mm["pnr_demand"]]
        except Boundary:
            return dict(viol=[], nt=False, key=None, labels=["boundary"])
        o = mmsim.run(net, ctx.newdir())
        T, N = o.T, o.N
        v = []
        h = hashlib.sha1()
        z = np.zeros(T + 1)
        step = 60 // unit
        dn = dict(map(tuple, net["dests"]))
        lot = mm["lots"][0]["node"]
        got = {}
        hours = {}
        for c, cls in enumerate(("car", "truck")):
            Ni = {l["id"]: N[cls + "_in", l["id"]] for l in net["links"]}
            No = {l["id"]: N[cls + "_out", l["id"]] for l in net["links"]}
            for i in Ni:
                h.update(Ni[i].tobytes())
                for w in ("in", "out"):
                    v += inv.curve_shape(o.raw["%s_%s" % (cls, w), i],
                                         N["%s_%s" % (cls, w), i], T, S,
                                         "%s %s link %d" % (cls, w, i))
            v += inv.conservation(net, Ni, No, T, cls + " ")
            v += inv.causality(net, Ni, No, T, False, cls + " ")
            tot = [0, 0]
            ptot = [0, 0]
            for oi, on in net["origins"]:
                out = [l["id"] for l in net["links"] if l["from"] == on]
                f = np.rint(np.diff(sum((Ni[i] for i in out), z)) * S)
                want = {}
                for a, d, r in rows:
                    if a == oi:
                        for j, x in enumerate(r[c]):
                            lo, hi = bounds(x * S)
                            q = want.setdefault(j * step, [0, 0])
                            q[0], q[1] = q[0] + lo, q[1] + hi
                            tot[0], tot[1] = tot[0] + lo, tot[1] + hi
                pn = False
                for a, d, r in prow if c == 0 else ():
                    if a == oi:
                        for j, x in enumerate(r):
                            lo, hi = bounds(x * S)
                            pn = pn or hi > 0
                            q = want.setdefault(j * step, [0, 0])
                            q[0], q[1] = q[0] + lo, q[1] + hi
                            ptot[0], ptot[1] = ptot[0] + lo, ptot[1] + hi
                for t in range(T):
                    lo, hi = want.get(t, (0, 0))
                    if not lo <= f[t] <= hi:
                        v.append("origin %d at interval %d: %d %ss set out, "
                                 "demand asks for %s" % (
                                     oi, t, f[t], cls, lo if lo == hi else
                                     "%d to %d" % (lo, hi)))
                        break
                if c == 0 and pn and not any(
                        any(r[0]) for a, _, r in rows if a == oi):
                    # only park-and-ride cars: they wait to be picked up
                    w = dict(map(tuple, mm["pickup"]))[oi]
                    for i in out:
                        l = [q for q in net["links"] if q["id"] == i][0]
                        k = max(cells(net, l), int(w // unit))
                        a = np.concatenate([np.zeros(k), Ni[i]])[:T + 1]
                        if (No[i] > a + 1e-6).any():
                            v.append("origin %d, link %d: park-and-ride cars "
                                     "leave before the pick-up time of %g s"
                                     % (oi, i, w))
            rel = sum((Ni[l["id"]] for l in net["links"]
                       if l["from"] in dict((b, a) for a, b in
                                            net["origins"])), z)
            arr = sum((No[l["id"]] for l in net["links"]
                       if l["to"] in dn.values()), z)
            got[cls] = rel[-1], arr[-1]
            hours[cls] = float((rel - arr)[1:].sum()) * unit / 3600.0
            if c == 0:
                a = o.stats[0] * S, o.stats[1] * S
                if not tot[0] - 1e-6 <= a[0] <= tot[1] + 1e-6:
                    v.append("%g cars reported, demand asks for %d to %d"
                             % (a[0], *tot))
                if not ptot[0] - 1e-6 <= a[1] <= ptot[1] + 1e-6:
                    v.append("%g park-and-ride cars reported, demand asks "
                             "for %d to %d" % (a[1], *ptot))
                if not eq(sum(a), rel[-1] * S):
                    v.append("%g cars reported, %g set out"
                             % (sum(a), rel[-1] * S))
            elif not eq(o.stats[2], rel[-1]):
                v.append("%g trucks reported, %g set out"
                         % (o.stats[2], rel[-1]))
            x = o.stats[5 + c]
            if not eq(x, hours[cls]):
                v.append("%s time reported %.9g h, the curves give %.9g h"
                         % (cls, x, hours[cls]))
            # destinations
            for d, n in dn.items():
                hi = sum(bounds(x * S)[1] for a, e, r in rows if e == d
                         for x in r[c])
                if c == 0 and n == lot:
                    hi += ptot[1]
                x = sum(No[l["id"]][-1] for l in net["links"]
                        if l["to"] == n) * S
                if x > hi + 1e-6:
                    v.append("%g %ss at destination %d, at most %d go there"
                             % (x, cls, d, hi))
        bus = sum(released(net, r, T, 1) for r in mm["routes"])
        if not eq(o.stats[3] * S, bus[-1]):
            v.append("%g buses reported, demand asks for %d"
                     % (o.stats[3] * S, bus[-1]))
        hi = float(bus[1:].sum()) * unit / 3600.0 / S
        if not -1e-9 <= o.stats[7] <= hi + 1e-6:
            v.append("bus time %.9g h, at most %.9g h" % (o.stats[7], hi))
        lab = ["scalar %s" % S, "minutes %d" % (net["assign_frq"] // step)]
        if net["adaptive_ratio"] or net["adaptive_ratio_truck"]:
            lab.append("adaptive")
        return dict(viol=v[:6], nt=bool(got["car"][1]), key=h.hexdigest(),
                    labels=lab, sample=mmgen.desc(net))


CHECK = Check()
