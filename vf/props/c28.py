import re

from ..common import LONGEST, NetCheck, labels

FIELDS = ("fuel", "CO2", "HC", "CO", "NOX", "VMT", "EV", "VHT", "trips")
EV = 0

# per mile, at v miles per hour, lowest power first
HC = (9.84559996919605, -1.82687242201925, 0.15792241257931,
      -0.00737871178398462, 0.000201135990745703, -3.23670086149171e-6,
      2.92924270300974e-8, -1.27884474982285e-10, 1.61479076909784e-13)
CO = (4.12900319568868, -0.615061016205463, 0.047711166912908,
      -0.00170366500109581, 1.79281854904105e-5, 5.97070024385679e-7,
      -2.12944112670644e-8, 2.53340626614398e-10, -1.08317411174986e-12)
NOX = (6.06514023873933, -1.07265851515536, 0.0895029037098895,
       -0.00374632777368871, 8.01942113220463e-5, -6.63892272105462e-7,
       -4.67202313364846e-9, 1.25335312366681e-10, -6.52009367269462e-13)
MPG = (-1.51623933, 2.96137050, -1.11752399e-1, 2.35409750e-3,
       -2.67383161e-5, 1.19102380e-7)
# below 25, below 55, above
TRUCK = dict(fuel=(1.53, 1.50, 1.55), CO2=(1.53, 1.50, 1.55),
             HC=(1.87, 2.41, 2.01), CO=(3.97, 2.67, 5.01),
             NOX=(7.32, 6.03, 5.75))


def poly(c, v):
    return sum(a * v ** k for k, a in enumerate(c))


def rates(v, truck):
    v = min(max(v, 5.0), 65.0)
    r = dict(fuel=max(1.0 / poly(MPG, v), 0.0), HC=max(poly(HC, v), 0.0),
             CO=max(poly(CO, v), 0.0), NOX=max(poly(NOX, v), 0.0))
    r["CO2"] = 8887.0 * r["fuel"]
    if truck:
        b = 0 if v < 25 else 1 if v < 55 else 2
        r = {k: x * TRUCK[k][b] for k, x in r.items()}
    return r, min(abs(v - 25), abs(v - 55)) < 1e-6


def parse(s):
    """[{field: value}] for cars and trucks."""
    out = []
    for part in s.split("The emission stats for ")[1:]:
        d = {}
        for k, x in re.findall(r"([\w ]+): (-?[\d.]+(?:e[+-]?\d+)?|-?nan|-?inf)",
                               part):
            k = k.strip()
            k = {"number of trips": "trips"}.get(k, k)
            if "VMT" in k:
                k = "EV" if k.startswith("EV") else "VMT"
            d[k] = float(x)
        out.append(d)
    return out


class Check(NetCheck):
    id = "C28"
    quick_n = 4000
    thorough_n = 60000
    only = "multi"
    opts = dict(demand_level=[0.6, 1.5, 3.0], max_veh=80,
                routing=["Fixed", "Adaptive", "Hybrid"])
    rule = ("random two-class networks with some links under observation and "
            "vehicles labelled electric, partly electric or unlabelled, one "
            "full simulation each; the reported totals must follow from the "
            "curves of those links; non-trivial: vehicles used an observed "
            "link; distinct by the curves")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        net = c["net"]
        ids = [l["id"] for l in net["links"]]
        rng.shuffle(ids)
        n = rng.choice([1, 1, rng.randint(1, len(ids)), len(ids)])
        net["observed"] = ids[:n]
        for l in net["links"]:
            # vehicles waiting to enter a point queue are not on it yet
            if l["type"] == "PQ" and l["id"] in net["observed"]:
                for k in ("cap", "rhoj", "tcap", "trhoj"):
                    l[k] = 999999.0
        net["ev"] = [rng.choice([None, [1.0, 0.0], [0.0, 1.0], [0.5, 0.5],
                                 [0.25, 0.5, 0.25]]) for _ in range(2)]
        net["ev_label"] = [rng.choice([0, 0, 1, 2, None]) for _ in range(2)]
        return c

    def run(self, case, ctx):
        from .. import sim, tt
        net = dict(case["net"])
        S, dt = net["flow_scalar"], net["unit_time"]
        here = {l["id"]: l for l in net["links"]}
        obs = [i for i in net["observed"] if i in here]
        ex = {"MNM_input_emission_linkID": "".join("%d\n" % i for i in obs)}
        cfg = []
        for k, ratio, lab in zip(("car", "truck"), net["ev"],
                                 net["ev_label"]):
            if ratio is not None:
                cfg.append(("num_of_%s_labels" % k, len(ratio)))
                ex["MNM_origin_label_" + k] = "# origin ratios\n" + "".join(
                    "%d %s\n" % (o, " ".join(map(str, ratio)))
                    for o, _ in net["origins"])
            if lab is not None:
                cfg.append(("ev_label_" + k, lab))
        net["extra_files"], net["dta_extra"] = ex, cfg
        o = sim.run(net, ctx.newdir())
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        C = sim.classes(net, o)
        got = parse(o.dta.print_emission_stats())
        v, agg = [], []
        if len(got) != 2 or any(set(g) != set(FIELDS) for g in got):
            return dict(viol=["the report is incomplete: %r" % got], nt=True,
                        key=None, labels=labels(net))
        want = [dict.fromkeys(FIELDS, 0.0) for _ in range(2)]
        used, close = 0.0, False
        for i in obs:
            l = here[i]
            D = [c[4][i] - c[5][i] for c in C]
            used += sum(c[4][i][-1] for c in C)
            memo = {}
            for t in range(1, T + 1):
                n = sum(d[t] for d in D)
                if n < 1e-9:
                    continue
                if n not in memo:
                    sp = tt.fd_length_mc(l, dt) \
                        / tt.fd_seconds_mc(l, n, dt, S)
                    memo[n] = (sp, [rates(sp * 3600 / 1600, x)
                                    for x in (0, 1)])
                sp, rr = memo[n]
                close |= rr[0][1]
                for w, (r, _), d in zip(want, rr, D):
                    mi = sp * dt / 1600.0 * d[t]
                    for k, x in r.items():
                        w[k] += x * mi
                    w["VMT"] += mi
                    w["VHT"] += d[t] * dt / 3600.0
        for j, (k, w, g) in enumerate(zip(("car", "truck"), want, got)):
            def differ(name, a, b, what=""):
                if abs(a - b) > 2e-6 + 1e-6 * abs(b):
                    v.append("%s %s: %g reported, %g expected%s"
                             % (k, name, a, b, what))
            differ("miles", g["VMT"], w["VMT"])
            differ("hours", g["VHT"], w["VHT"])
            ratio, lab = net["ev"][j], net["ev_label"][j]
            if lab is None or ratio is None:
                share = 0.0
            else:
                share = ratio[lab] if lab < len(ratio) else 0.0
            if share in (0.0, 1.0):
                differ("electric miles", g["EV"], share * w["VMT"])
            elif not -1e-9 <= g["EV"] <= g["VMT"] + 1e-9:
                v.append("%s: %g of %g miles are electric"
                         % (k, g["EV"], g["VMT"]))
            elif g["VMT"] > 1e-3:
                agg.append(("%s label %d of %s" % (k, lab, ratio),
                            g["EV"] / g["VMT"] - share))
            for f in ("fuel", "CO2", "HC", "CO", "NOX"):
                if close and j:
                    break
                if share in (0.0, 1.0):
                    differ(f, g[f], (1 - share) * w[f])
                elif not -1e-6 <= g[f] <= w[f] * (1 + 1e-6) + 2e-6:
                    v.append("%s %s: %g reported, at most %g expected"
                             % (k, f, g[f], w[f]))
            # how many vehicles were seen there
            ent = [round(C[j][4][i][-1] * S) for i in obs]
            ons = {n for _, n in net["origins"]}
            starts = [i for i in here if here[i]["from"] in ons]
            if set(starts) <= set(obs):
                lo = hi = sum(round(C[j][4][i][-1] * S) for i in starts)
            else:
                lo, hi = max(ent, default=0), sum(ent)
                hi = min(hi, sum(round(C[j][4][i][-1] * S) for i in starts))
                if len(ent) == 1 and not net["acyclic"]:
                    lo = min(1, hi)
                elif not net["acyclic"]:
                    lo = min(1, hi)
            if not lo <= g["trips"] <= hi:
                v.append("%s: %d trips reported, expected %d to %d"
                         % (k, g["trips"], lo, hi))
        part = [("ev" if r is not None and a is not None else "no ev")
                for r, a in zip(net["ev"], net["ev_label"])]
        return dict(viol=v[:6], nt=used > 1e-9, key=sim.curve_key(net, o),
                    labels=labels(net, part), agg=agg, count=dict(
                        observed=len(obs)), sample=sim.desc(net))

    def aggregate(self, rs):
        by = {}
        for a in rs:
            for k, d in a:
                by.setdefault(k, []).append(d)
        for k, ds in sorted(by.items()):
            s, q = sum(ds), sum(d * d for d in ds) ** 0.5
            if len(ds) >= 60 and abs(s) > 7 * q:
                yield ("%s: the share of electric miles is off by %g on "
                       "average over %d runs, spread %g"
                       % (k, s / len(ds), len(ds), q / len(ds)))


CHECK = Check()
