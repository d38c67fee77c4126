import math

from ..common import NetCheck, eq, labels


class Boundary(Exception):
    """Exactly one simulated vehicle per minute: decided by float rounding."""


def unclear(d, n, scalar):
    """Is d / n * scalar >= 1 a matter of rounding?"""
    return (d / n * scalar >= 1) != (d * scalar / n >= 1)


def per_minute(net, row):
    """Demand per release step of one O-D pair: list of per-class lists."""
    n = net["max_interval"]
    if not net["multiclass"]:
        return [list(row)]
    k = net["assign_frq"] * net["unit_time"] // 60
    out = []
    for c in range(2):
        v = [0.0] * (n * k)
        for j in range(n):
            d = row[c * n + j]
            if net["init_demand_split"] == 0:
                v[j * k] = d
                continue
            # evenly over as many leading minutes as leaves each of them at
            # least one simulated vehicle
            for p in range(k):
                x = d / (k - p)
                if unclear(d, k - p, net["flow_scalar"]):
                    raise Boundary
                if x * net["flow_scalar"] >= 1:
                    for m in range(k - p):
                        v[j * k + m] = x
                    break
        out.append(v)
    return out


def bounds(x):
    """Possible numbers of simulated vehicles for an exact number x."""
    r = round(x)
    if abs(x - r) < 1e-7:
        return r, r
    return math.floor(x), math.ceil(x)


class Check(NetCheck):
    id = "C04"
    quick_n = 16000
    thorough_n = 200000
    opts = dict(demand_level=[0.2, 0.6, 1.2], max_core=3,
                max_interval=[1, 2, 3, 5])
    # an origin connector takes about 130 car units per interval: stay below
    mc_opts = dict(max_veh=8)
    rule = ("random networks and demand tables (whole and fractional numbers "
            "of simulated vehicles, zero rows, late start, single class and "
            "two classes with and without splitting the demand over "
            "minutes), one full simulation each; non-trivial: two or more "
            "release times with demand; distinct by the entering flows")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        net = c["net"]
        if not net["multiclass"] and net["max_interval"] > 1 \
                and rng.random() < 0.3:
            net["start_assign_interval"] = rng.randrange(
                1, net["max_interval"])
        if rng.random() < 0.3:  # small demand per vehicle
            for r in net["demand"]:
                r[2] = [round(rng.choice([0, 0.4, 1, 1.7, 3, 6])
                              / net["flow_scalar"], 6) for _ in r[2]]
        elif rng.random() < 0.5:  # any fraction of a vehicle, also tiny ones
            for r in net["demand"]:
                r[2] = [round((rng.choice([0, 0, 1, 2, 5]) + rng.choice(
                    [0.02, 0.04, 0.08, 0.2, 0.5, 0.8, 0.95, 0.98]))
                    / net["flow_scalar"], 6) for _ in r[2]]
        return c

    def run(self, case, ctx):
        from .. import sim
        import numpy as np
        net = case["net"]
        try:
            for r in net["demand"]:
                per_minute(net, r[2])
        except Boundary:
            return dict(viol=[], nt=False, key=None, labels=["boundary"])
        o = sim.run(net, ctx.newdir())
        sc, T = net["flow_scalar"], o.T
        step = 60 // net["unit_time"] if net["multiclass"] \
            else net["assign_frq"]
        s0 = net["start_assign_interval"]
        v = []
        flows = []
        rels = []
        res = {}
        for c, (k, truck, _, _, N_in, N_out) in enumerate(
                sim.classes(net, o)):
            tot_lo = tot_hi = tot_exact = 0
            dest = {d: [0, 0] for d, _ in net["dests"]}
            for oi, on in net["origins"]:
                out = [l["id"] for l in net["links"] if l["from"] == on]
                f = np.rint(np.diff(sum(N_in[i] for i in out)) * sc)
                flows.append(f.tobytes())
                rows = [(d, per_minute(net, row)[c])
                        for a, d, row in net["demand"] if a == oi]
                n = net["max_interval"] * (net["assign_frq"] // step)
                want = {}
                for j in range(s0, n):
                    lo = hi = 0
                    fr = []
                    for d, row in rows:
                        x = row[j] * sc
                        a, b = bounds(x)
                        lo, hi = lo + a, hi + b
                        dest[d][0] += a
                        dest[d][1] += b
                        if a != b:
                            fr.append(x - a)
                    if fr:
                        # vehicles above or below the expectation
                        key = (k or "single") + (
                            " fraction %.1f" % fr[0] if len(fr) == 1 else "")
                        r = res.setdefault(key, [0.0, 0.0])
                        r[0] += f[(j - s0) * step] - lo - sum(fr)
                        r[1] += sum(q * (1 - q) for q in fr)
                    want[(j - s0) * step] = (lo, hi)
                    tot_lo, tot_hi = tot_lo + lo, tot_hi + hi
                    if hi:
                        rels.append(j)
                for t in range(T):
                    lo, hi = want.get(t, (0, 0))
                    if not lo <= f[t] <= hi:
                        v.append("%s origin %d at interval %d: %g vehicles "
                                 "released, demand asks for %s"
                                 % (k, oi, t, f[t],
                                    lo if lo == hi else "%g to %g"
                                    % (lo, hi)))
            rel = o.stats[c] * sc
            if not tot_lo - 1e-6 <= rel <= tot_hi + 1e-6:
                v.append("%s: %g vehicles reported released, demand asks for "
                         "%g to %g" % (k, rel, tot_lo, tot_hi))
            if net["total_interval"] <= 0:
                for d, dn in net["dests"]:
                    x = sum(N_out[l["id"]][-1] for l in net["links"]
                            if l["to"] == dn) * sc
                    lo, hi = dest[d]
                    if not lo - 1e-6 <= x <= hi + 1e-6:
                        v.append("%s: %g arrived at destination %d, demand "
                                 "asks for %g to %g" % (k, x, d, lo, hi))
        return dict(viol=v[:6], nt=len(set(rels)) >= 2,
                    key=str(hash(tuple(flows))), labels=labels(net),
                    sample=sim.desc(net),
                    agg=res)

    def aggregate(self, rs):
        """Rounding is unbiased: the residuals average out."""
        for w in sorted({k for r in rs for k in r}):
            s = sum(r[w][0] for r in rs if w in r)
            var = sum(r[w][1] for r in rs if w in r)
            if var > 20 and abs(s) > 6 * math.sqrt(var):
                yield ("%s: over all cases %g vehicles more than demanded "
                       "were released; unbiased rounding allows +-%g"
                       % (w, s, 6 * math.sqrt(var)))


CHECK = Check()
