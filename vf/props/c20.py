from .. import netgen
from ..common import LONGEST, NetCheck, labels, moved
from . import c10

HEAD = "#interval link type length ffs cap rhoj lanes tffs tcap trhoj conv " \
    "toll\n"


def row(t, l, toll):
    return " ".join([str(t), str(l["id"]), l["type"]] + [
        netgen.num(l[k]) for k in ("length", "ffs", "cap", "rhoj", "lanes",
                                   "tffs", "tcap", "trhoj", "conv")]
        + [netgen.num(toll)]) + "\n"


class Check(NetCheck):
    id = "C20"
    quick_n = 5000
    thorough_n = 60000
    opts = dict(demand_level=[0.6, 1.2, 2.0, 4.0], max_veh=80)
    rule = ("random networks with a file of link attributes that change over "
            "time (two classes; flows followed by the reference dynamics with "
            "the attributes in force), of tolls that change over time (two "
            "classes, adaptive routing; every step must be on a least-cost "
            "way under the tolls in force), or of adaptive shares per O-D "
            "pair and interval (both models; every vehicle must keep to its "
            "path or to a least-cost way, as its share says); non-trivial: a change happens while "
            "vehicles are on the link (attributes), the least-cost tree "
            "changes (tolls), or the share decided which way was taken; "
            "distinct by the curves")

    def gen(self, rng, i, tier):
        what = ("attr", "toll", "ratio")[i % 3]
        o = dict(self.opts)
        multi = what != "ratio" or rng.random() < 0.5
        o["multiclass"] = multi
        if what == "toll":
            o.update(routing=["Adaptive", "Hybrid"], min_core=3, max_core=6,
                     dense=1,
                     max_d=rng.choice([1, 1, 2]))
        if what == "ratio":
            o.update(routing=["Hybrid"], acyclic=True, max_veh=25,
                     min_core=3, max_core=6, dense=1)
        net = netgen.gen_net(rng, o)
        case = dict(net=net, what=what)
        end = net["max_interval"] * net["assign_frq"]
        core = [l for l in net["links"] if l["type"] in ("CTM", "LQ")
                or what == "toll"]
        if what == "attr":
            ch = []
            for _ in range(rng.randint(1, 6)):
                if not core:
                    break
                l = rng.choice(core)
                n = dict(rhoj=rng.choice([0.7, 1.0, 1.3, 1.7]),
                         cap=rng.choice([0.2, 0.5, 1.0, 1.5]),
                         tcap=rng.choice([0.3, 1.0, 1.4]),
                         trhoj=rng.choice([0.9, 1.0, 1.5]),
                         tffs=rng.choice([1.0, 1.0, 0.7]),
                         lanes=rng.choice([-1, 0, 0, 1, 2]))
                ch.append([rng.choice([0, 1, rng.randrange(end + 20)]),
                           l["id"], n])
            case["changes"] = ch
        elif what == "toll":
            netgen.add_tolls(rng, net)
            net["stat"] = dict(rec_mode_para=rng.choice([1, 2, 3, 5]))
            net["adaptive_route_frq"] = rng.choice([1, 1, 2, 5])
            if net["kind"] == "Hybrid":
                net["adaptive_ratio"], net["adaptive_ratio_truck"] = \
                    rng.choice([(1.0, 1.0), (1.0, 0.0), (0.0, 1.0)])
            case["changes"] = [
                [rng.choice([0, rng.randrange(end + 20)]),
                 rng.choice(core)["id"], rng.choice([0, 0.5, 1.25, 3, 0.1,
                                                     9.75])]
                for _ in range(rng.randint(1, 8))]
        else:
            n = net["max_interval"]
            net["stat"] = dict(rec_mode_para=rng.choice([1, 2, 3, 5]))
            case["ratios"] = [
                [r[0], r[1], [rng.choice([0, 0, 1, 1, 0.5])
                              for _ in range(n * (2 if multi else 1))]]
                for r in net["demand"] if rng.random() < 0.8]
            net["adaptive_ratio"] = rng.choice([0.0, 0.0, 1.0, 0.5])
            net["adaptive_ratio_truck"] = rng.choice([0.0, 1.0])
        return case

    # ------------------------------------------------------------------
    def attributes(self, net, changes):
        """{t: {link: attributes}} valid for the code."""
        cur = {l["id"]: dict(l) for l in net["links"]}
        dt, sc = net["unit_time"], net["flow_scalar"]
        out = {}
        for t, i, n in sorted(changes, key=lambda c: c[0]):
            if i not in cur or i in out.get(t, {}):
                continue
            l = dict(cur[i])
            l["lanes"] = max(1, l["lanes"] + n["lanes"])
            l["tffs"] = round(l["tffs"] * n["tffs"], 3)
            for k in ("cap", "tcap", "rhoj", "trhoj"):
                l[k] = round(l[k] * n[k], 3)
            cell = l["ffs"] * dt / 3600.0
            l["rhoj"] = min(l["rhoj"], 390.0)
            low = 3600.0 / (dt * sc * l["lanes"])
            if l["rhoj"] < 2.1 * max(l["cap"], low) / l["ffs"]:
                l["cap"] = round(l["rhoj"] * l["ffs"] / 2.5, 3)
            if l["trhoj"] < 1.3 * max(l["tcap"], low) / l["tffs"]:
                l["tcap"] = round(l["trhoj"] * l["tffs"] / 2.5, 3)
            if l["rhoj"] < 2.1 * low / l["ffs"] or \
                    l["trhoj"] < 1.3 * low / l["tffs"] or \
                    l["rhoj"] * l["lanes"] * cell * sc < 2.2 * l["conv"]:
                continue
            cur[i] = l
            out.setdefault(t, {})[i] = l
        return out

    def run(self, case, ctx):
        return getattr(self, case["what"])(case, ctx)

    def attr(self, case, ctx):
        from .. import sim, model
        import numpy as np
        net = case["net"]
        ch = self.attributes(net, case["changes"])
        net["extra_files"] = {"MNM_input_link_td_attribute": HEAD + "".join(
            row(t, l, 0) for t in sorted(ch, reverse=True)
            for l in ch[t].values())}
        o = sim.run(net, ctx.newdir())
        sc = net["flow_scalar"]
        fin, fout = {}, {}
        for l in net["links"]:
            i = l["id"]
            a, b = ([np.rint(np.diff(x[k][i]) * sc).astype(int).tolist()
                     for k in sim.KLASS] for x in (o.N_in, o.N_out))
            fin[i], fout[i] = list(zip(*a)), list(zip(*b))
        v, st = model.follow(net, o.T, fin, fout, attrs=ch)
        hit = sum(sum(o.N_in[k][i][t] - o.N_out[k][i][t]
                      for k in sim.KLASS) > 0
                  for t in ch if 0 < t < o.T for i in ch[t])
        return dict(viol=v, nt=hit > 0 and st["congested"] > 0,
                    key=sim.curve_key(net, o),
                    labels=labels(net, ["attributes"]),
                    count=dict(changes=sum(map(len, ch.values())),
                               gaveup=st["gaveup"], tight=st["tight"]),
                    sample="%s; attributes of %s" % (
                        sim.desc(net), [[t, list(x)] for t, x in ch.items()]))

    def toll(self, case, ctx):
        from .. import sim
        net = case["net"]
        by = sim.by_id(net)
        later = {}
        for t, i, x in case["changes"]:
            if i in by:
                later.setdefault(t, {})[i] = x
        net["extra_files"] = {"MNM_input_link_td_attribute": HEAD + "".join(
            row(t, by[i], x) for t in later for i, x in later[t].items())}
        o = sim.run(net, ctx.newdir())
        r = c10.CHECK.judge(net, o, later)
        r["viol"] = (list(r["viol"]) + self.costs(net, o, later))[:6]
        r["labels"] = labels(net, ["tolls"])
        r["sample"] = "%s; tolls %s" % (sim.desc(net), later)
        return r

    def costs(self, net, o, later):
        """Costs asked for after the run use the tolls then in force."""
        import numpy as np
        from .. import sim, tt
        if net["kind"] != "Hybrid" or o.T > LONGEST or o.T < 1:
            return []
        m, dt, T, v = o.dta, net["unit_time"], o.T, []
        m.build_link_cost_map(False)
        vot = (net.get("vot") if net.get("vot") is not None else 20.0) \
            / 3600.0 * dt
        for k, truck, ri, ro, _, _ in sim.classes(net, o):
            toll = {i: x[1 if truck else 0] for i, x in net.get("tolls", [])}
            for t in sorted(later):
                if t < T:
                    toll.update(later[t])
            for l in net["links"]:
                i = l["id"]
                one = np.array([i], dtype=np.int32)
                ff = float(getattr(m, "get_%s_link_fftt" % k)(one)[0])
                x = tt.Link(ri[i], ro[i], T, ff / dt, ff, dt).tt(0.0)
                got = np.asarray(getattr(m, "get_path_tt_" + k)(
                    one, np.zeros(1, dtype=np.int32)))[1, 0]
                if abs(got - x * vot - toll.get(i, 0)) > 1e-5 * (1 + got):
                    v.append("%s cost of link %d after the run: %.9g, travel "
                             "time and the toll in force come to %.9g"
                             % (k, i, got, x * vot + toll.get(i, 0)))
        return v

    def ratio(self, case, ctx):
        from .. import sim, dar
        import numpy as np
        net = case["net"]
        multi, sc, dt = net["multiclass"], net["flow_scalar"], net["unit_time"]
        net["total_interval"] = -1
        n = net["max_interval"]
        have = {(a, b) for a, b, _ in net["demand"]}
        R = {(a, b): r for a, b, r in case["ratios"] if (a, b) in have}
        net["extra_files"] = {
            "MNM_input_od_td_adaptive_ratio": "#O D ratios\n" + "".join(
                "%d %d %s\n" % (a, b, " ".join(map(netgen.num, r)))
                for (a, b), r in R.items())}
        m = sim.start(net, ctx.newdir(), tree=True)
        m.register_paths(dar.i32(range(len(net["paths"]))))
        m.run_whole(False)
        o = (sim.observe_mcdta if multi else sim.observe_dta)(net, m)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        P = [netgen.path_links(net, p["nodes"]) for p in net["paths"]]
        om = {x: i for i, x in net["origins"]}
        dm = {x: i for i, x in net["dests"]}
        ok = c10.CHECK.ways(net, o)
        frq = net["adaptive_route_frq"]
        v = []
        off = near = 0
        for k, truck, _, _, N_in, N_out in sim.classes(net, o):
            for (p, a, l), x in dar.unit(m, multi, k, T).items():
                ns = net["paths"][p]["nodes"]
                w = om[ns[0]], dm[ns[-1]]
                if w in R:
                    r = R[w][a + (n if truck else 0)]
                else:
                    r = net["adaptive_ratio_truck" if truck
                            else "adaptive_ratio"]
                for t in np.nonzero(x > 1e-9)[0]:
                    t = int(t)
                    path = l in P[p]
                    best = l in ok[t - t % frq][ns[-1]]
                    if (r < 1 and path) or (r > 0 and best):
                        off += r == 1 and not path
                        near += r == 0 and not best
                        continue
                    v.append("%s O-D %d-%d, departure interval %d, adaptive "
                             "share %g: %g vehicles enter link %d at %d; "
                             "path %s, least-cost ways %s" % (
                                 k, *w, a, r, x[t], l, t, P[p],
                                 sorted(ok[t - t % frq][ns[-1]])))
        gone = sum(c[5][l["id"]][-1] for c in sim.classes(net, o)
                   for l in net["links"] if l["to"] in dm)
        rel = o.stats[0] if not multi else o.stats[0] + o.stats[1]
        if abs(gone - rel) > 1e-6 * (1 + rel):
            v.append("%g travellers released, %g arrived" % (rel, gone))
        return dict(viol=v[:5], nt=off > 0 or near > 0,
                    key=sim.curve_key(net, o),
                    labels=labels(net, ["shares"]),
                    count=dict(adaptive_off_path=off, fixed_not_best=near),
                    sample="%s; shares %s" % (sim.desc(net), R))


CHECK = Check()
