import hashlib
import math

from ..common import eq
from .c04 import Boundary, bounds, unclear


def minutes(net, vals):
    """Demand per minute of one row."""
    k = net["assign_frq"] * net["unit_time"] // 60
    out = [0.0] * (k * len(vals))
    for j, d in enumerate(vals):
        if net["init_demand_split"] == 0:
            out[j * k] = d
            continue
        for p in range(k):
            x = d / (k - p)
            if unclear(d, k - p, net["flow_scalar"]):
                raise Boundary
            if x * net["flow_scalar"] >= 1:
                out[j * k:j * k + k - p] = [x] * (k - p)
                break
    return out


class MMCheck:
    flavour = "plain"
    gen_opts = {}
    assumptions = [
        "explicit buses, the default hybrid route choice, mostly with fixed "
        "paths; "
        "stops of one route in different cells of a link; input files agree "
        "with each other",
        "the simulator is driven through the Python package built from the "
        "working tree at -O1 without LTO",
    ]

    def gen(self, rng, i, tier):
        from .. import mmgen
        return dict(net=mmgen.gen_mm(rng, self.gen_opts))

    def shrink(self, case):
        from .. import mmgen
        for n in mmgen.shrink(case["net"]):
            c = dict(case)
            c["net"] = n
            yield c


class Check(MMCheck):
    id = "C18"
    quick_n = 16000
    thorough_n = 100000
    rule = ("random driving networks with 1-3 bus routes, stops shared by "
            "routes, walking links between origins, stops, lots and "
            "destinations, transit and park-and-ride paths with and without "
            "bus rides, one full multimodal simulation each; non-trivial: "
            "somebody rode a bus and somebody finished walking; distinct by "
            "the passenger curves")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        if i % 5 == 0:  # some choose their way as they go
            c["net"]["mm"]["adaptive_ratio_passenger"] = rng.choice([0.3, 1])
        return c

    def run(self, case, ctx):
        import numpy as np
        from .. import inv, mmgen, mmsim
        net = case["net"]
        mm, S, unit = net["mm"], net["flow_scalar"], net["unit_time"]
        try:
            rows = {(a, b): minutes(net, r)
                    for a, b, r in mm["transit_demand"]}
        except Boundary:
            return dict(viol=[], nt=False, key=None, labels=["boundary"])
        o = mmsim.run(net, ctx.newdir())
        T, N = o.T, o.N
        v = []
        z = np.zeros(T + 1)
        if T != net["total_interval"]:
            v.append("the run lasted %d intervals instead of %d"
                     % (T, net["total_interval"]))
        links = mm["walks"] + mm["blinks"]
        for w in links:
            for s in ("in", "out"):
                v += inv.curve_shape(o.raw[s, w["id"]], N[s, w["id"]], T, S,
                                     "passengers %s link %d" % (s, w["id"]))
            d = N["in", w["id"]] - N["out", w["id"]]
            if d.min() < -1e-6:
                v.append("link %d at time %d: more passengers left than "
                         "entered" % (w["id"], int(d.argmin())))
        # walking takes the walking time
        for w in mm["walks"]:
            if w["kind"] != "normal":
                continue
            k = max(1, int(math.floor(w["time"] / unit + 1e-9)))
            if w["ft"] == "parking_lot":
                k += 1  # they get there after the walkers have moved
            a = np.concatenate([np.zeros(k), N["in", w["id"]]])[:T + 1]
            bad = np.nonzero(np.abs(a - N["out", w["id"]]) > 1e-6)[0]
            if len(bad):
                t = int(bad[0])
                v.append("walking link %d (%s to %s, %g s): %g had left by "
                         "time %d, %g had entered %d intervals before"
                         % (w["id"], w["ft"], w["tt"], w["time"],
                            N["out", w["id"]][t], t, a[t], k))
        # stops pass on everybody at once
        for s, what in [(s, "stop") for s in mm["stops"]] \
                + [(s, "platform") for s in mm["vstops"]]:
            a = sum((N["out", w["id"]] for w in links if w["to"] == s["id"]),
                    z)
            b = sum((N["in", w["id"]] for w in links
                     if w["from"] == s["id"]), z)
            bad = np.nonzero(np.abs(a - b) > 1e-6)[0]
            if len(bad):
                t = int(bad[0])
                v.append("%s %d at time %d: %g passengers came, %g went on"
                         % (what, s["id"], t, a[t], b[t]))
        # alighting takes no time of its own
        for w in mm["walks"]:
            if w["kind"] == "alighting":
                a = np.concatenate([[0], N["in", w["id"]]])[:T + 1]
                if np.abs(a - N["out", w["id"]]).max() > 1e-6:
                    v.append("alighting link %d: passengers stay on it"
                             % w["id"])
        # releases
        step = 60 // unit
        tot = [0, 0]
        for oi, on in net["origins"]:
            mine = [w["id"] for w in mm["walks"]
                    if w["ft"] == "origin" and w["from"] == on]
            f = np.rint(np.diff(sum((N["in", i] for i in mine), z)) * S)
            want = {}
            for (a, b), r in rows.items():
                if a == oi:
                    for j, x in enumerate(r):
                        lo, hi = bounds(x * S)
                        q = want.setdefault(j * step, [0, 0])
                        q[0] += lo
                        q[1] += hi
                        tot[0] += lo
                        tot[1] += hi
            for t in range(T):
                lo, hi = want.get(t, (0, 0))
                if not lo <= f[t] <= hi:
                    v.append("origin %d at interval %d: %g passengers set "
                             "out, demand asks for %s" % (
                                 oi, t, f[t], lo if lo == hi
                                 else "%g to %g" % (lo, hi)))
                    break
        # park and ride: a passenger for each car that parks
        lot = mm["lots"][0]
        ln = [d for d, n in net["dests"] if n == lot["node"]][0]
        cars = sum((N["car_out", l["id"]] for l in net["links"]
                    if l["to"] == lot["node"]), z)
        out = sum((N["in", w["id"]] for w in mm["walks"]
                   if w["ft"] == "parking_lot"), z)
        only = not any(r[1] == ln and any(r[2][:net["max_interval"]])
                       for r in net["demand"])
        bad = np.nonzero((np.abs(cars - out) > 1e-6) if only
                         else (out > cars + 1e-6))[0]
        if len(bad):
            t = int(bad[0])
            v.append("parking lot %d by time %d: %g cars came, %g passengers "
                     "walked out" % (lot["id"], t, cars[t], out[t]))
        # totals
        rel = sum(N["in", w["id"]] for w in mm["walks"]
                  if w["ft"] in ("origin", "parking_lot"))
        arr = sum((N["out", w["id"]] for w in mm["walks"]
                   if w["tt"] == "destination"), z)
        on = sum(N["in", w["id"]][-1] - N["out", w["id"]][-1] for w in links)
        if not eq(rel[-1], arr[-1] + on):
            v.append("%g passengers set out, %g arrived, %g on links"
                     % (rel[-1], arr[-1], on))
        if not eq(o.stats[4], rel[-1]):
            v.append("%g passengers reported, %g set out"
                     % (o.stats[4], rel[-1]))
        # their time, from the interval they set out in
        h = float((rel - arr)[1:].sum()) * unit / 3600.0
        if not eq(o.stats[8], h):
            v.append("passenger time reported %.9g h, the curves give %.9g h"
                     % (o.stats[8], h))
        # only the paths in use carry anybody, each its share
        used = {i for p in mm["tpaths"] + mm["ppaths"] if any(p["buffer"])
                for i in p["links"]}
        free = mm["adaptive_ratio_passenger"] > 0
        for w in () if free else links:
            if w["id"] not in used and N["in", w["id"]][-1] > 1e-6:
                v.append("link %d is on no path in use, %g passengers entered"
                         % (w["id"], N["in", w["id"]][-1]))
        dn = dict(map(tuple, net["dests"]))
        for d, n in dn.items():
            hi = sum(bounds(x * S)[1] for (a, b), r in rows.items() if b == d
                     for x in r)
            try:
                hi += sum(bounds(x * S)[1] for a, b, r in mm["pnr_demand"]
                          if b == d for x in minutes(net, r))
            except Boundary:
                continue
            x = sum(N["out", w["id"]][-1] for w in mm["walks"]
                    if w["tt"] == "destination" and w["to"] == n) * S
            if x > hi + 1e-6:
                v.append("%g passengers at destination %d, at most %d go "
                         "there" % (x, d, hi))
        agg = {}
        k = net["assign_frq"] // step
        for oi, on_ in () if free else net["origins"]:
            for i in {p["links"][0] for p in mm["tpaths"] if p["o"] == oi}:
                f = np.rint(np.diff(N["in", i]) * S)
                for j in range(net["max_interval"]):
                    x = f[j * k * step:(j + 1) * k * step].sum()
                    mean = var = 0.0
                    sh = 0.0
                    for (a, b), r in rows.items():
                        ps = [p for p in mm["tpaths"]
                              if (p["o"], p["d"]) == (a, b)]
                        if a != oi or not ps:
                            continue
                        q = sum(p["buffer"][j] for p in ps
                                if p["links"][0] == i) / sum(
                                    p["buffer"][j] for p in ps)
                        m = sum(r[j * k:(j + 1) * k]) * S
                        fr = [y * S % 1 for y in r[j * k:(j + 1) * k]]
                        mean += q * m
                        var += m * q * (1 - q) + sum(y * (1 - y) for y in fr) * q * q
                        sh = max(sh, q)
                    if var > 0:
                        y = agg.setdefault("interval %d share %.1f" % (j, sh),
                                           [0.0, 0.0])
                        y[0] += x - mean
                        y[1] += var
                    elif abs(x - mean) > 1e-6:
                        v.append("walking link %d: %g passengers in interval "
                                 "%d, the shares give %g" % (i, x, j, mean))
        rode = sum(N["in", b["id"]][-1] for b in mm["blinks"])
        key = hashlib.sha1(b"".join(N["in", w["id"]].tobytes()
                                    for w in links)).hexdigest()
        lab = ["rode" if rode else "no ride", "pnr" if out[-1] else "no pnr",
               "scalar %s" % S, "split %d" % net["init_demand_split"]] + ["adaptive"] * free
        return dict(viol=v[:6], nt=bool(rode and arr[-1]), key=key,
                    labels=lab, sample=mmgen.desc(net), agg=agg)

    def aggregate(self, rs):
        """Shares and rounding are unbiased: the residuals average out."""
        for w in sorted({k for r in rs for k in r}):
            s = sum(r[w][0] for r in rs if w in r)
            var = sum(r[w][1] for r in rs if w in r)
            if var > 20 and abs(s) > 6 * math.sqrt(var):
                yield ("%s: over all cases %g passengers more than the path "
                       "shares give took a link; chance allows +-%g"
                       % (w, s, 6 * math.sqrt(var)))


CHECK = Check()
