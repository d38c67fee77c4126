import copy

import numpy as np

from .. import netgen
from ..common import NetCheck, labels, moved

ROWS = ("Snap_graph", "MNM_input_link", "MNM_input_node", "MNM_input_od",
        "MNM_input_demand", "path_table", "path_table_buffer")
BLANK = ["", " ", "\t", "   \t "]
REAL = ("flow_scalar", "adaptive_ratio", "adaptive_ratio_car",
        "adaptive_ratio_truck", "vot")
NOTE = ["#", "# 1 2 3", "#7 FWJ", "  # note = 4", "\t#5 5 5", "##"]


def float_cols(name, mc):
    """Columns from which on a row holds real numbers."""
    return {"MNM_input_link": 2, "MNM_input_node": 2,
            "MNM_input_demand": 2, "path_table_buffer": 0}.get(name)


def fmt(rng, w):
    """The same number written another way (the same double)."""
    x = float(w)
    c = [w, repr(x), "%.17g" % x, "%.17e" % x, w + ("0" if "." in w else
                                                    ".000")]
    if "e" in w or "n" in w:
        c = [w]
    c = [s for s in c if float(s) == x]
    if x >= 0:
        c += ["+" + c[0], "0" + c[0]]
    return rng.choice(c)


def pad(rng, line, how):
    """One row in another layout."""
    ws = line.split()
    s = ws[0]
    for w in ws[1:]:
        s += " " * (rng.choice([1, 1, 2, 5]) if "gaps" in how else 1) + w
    if "edges" in how:
        s = rng.choice(["", " ", "\t", "   "]) + s \
            + rng.choice(["", " ", "\t", "  \t"])
    return s


def decorate(rng, texts, mc, how):
    out = dict(texts)
    for name in ROWS:
        lines = [x for x in texts[name].split("\n") if x.strip()]
        res = []
        for x in lines:
            note = x.lstrip().startswith("#")
            if "notes" in how:
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    res.append(rng.choice(NOTE + BLANK))
            if note:
                if "notes" not in how or rng.random() < 0.5:
                    res.append(x)
                continue
            ws = x.split()
            f = float_cols(name, mc)
            if "numbers" in how and f is not None:
                ws = [fmt(rng, w) if j >= f and not (
                    name == "MNM_input_link" and j == 6) else w
                    for j, w in enumerate(ws)]
            res.append(pad(rng, " ".join(ws), how))
        if "notes" in how and rng.random() < 0.3:
            res += ["", "# end"]
        nl = "\r\n" if "crlf" in how else "\n"
        s = nl.join(res)
        if "nonl" not in how:
            s += nl
        out[name] = s
    secs = []
    for x in texts["config.conf"].split("\n"):
        if x.startswith("["):
            secs.append([x])
        elif x.strip():
            secs[-1].append(x)
    if "order" in how:
        rng.shuffle(secs)
    res = []
    for sec in secs:
        head, body = sec[0], sec[1:]
        if "order" in how:
            rng.shuffle(body)
        if "edges" in how:
            head = rng.choice(["[%s]", " [%s]", "[ %s ]", "[%s]\t"]) \
                % head[1:-1]
        res.append(head)
        for x in body:
            if "notes" in how and rng.random() < 0.3:
                res.append(rng.choice(NOTE + BLANK + [
                    "; unit_time = 77", "# flow_scalar = 9", "#[DTA]"]))
            k, v = [y.strip() for y in x.split("=", 1)]
            if "numbers" in how and k in REAL:
                v = fmt(rng, v)
                x = "%s = %s" % (k, v)
            if "gaps" in how:
                x = k + rng.choice(["=", " =", "= ", "  =  ", "\t=\t"]) + v
            if "edges" in how:
                x = rng.choice(["", "  ", "\t"]) + x + rng.choice(
                    ["", " ", "\t"])
            res.append(x)
    nl = "\r\n" if "crlf" in how else "\n"
    out["config.conf"] = nl.join(res) + ("" if "nonl" in how else nl)
    return out


def permute(rng, net, what):
    """The same network with rows in another order; path IDs by position."""
    n = copy.deepcopy(net)
    for k in what:
        if k in ("links", "graph"):
            continue
        rng.shuffle(n[k])
    t = netgen.file_texts(n)
    for k, f in (("links", "MNM_input_link"), ("graph", "Snap_graph")):
        if k in what:
            rows = t[f].split("\n")[:-1]
            rng.shuffle(rows)
            t[f] = "\n".join(rows) + "\n"
    return n, t


def rename(rng, net):
    n = copy.deepcopy(net)
    top = rng.choice([50, 5000, 2000000])

    def fresh(ids):
        ids = sorted(set(ids))
        return dict(zip(ids, rng.sample(range(0, top + 2 * len(ids)),
                                        len(ids))))
    nm = fresh(x["id"] for x in n["nodes"])
    lm = fresh(x["id"] for x in n["links"])
    om = fresh(x[0] for x in n["origins"])
    dm = fresh(x[0] for x in n["dests"])
    for x in n["nodes"]:
        x["id"] = nm[x["id"]]
    for x in n["links"]:
        x["id"] = lm[x["id"]]
        x["from"], x["to"] = nm[x["from"]], nm[x["to"]]
    n["origins"] = [[om[a], nm[b]] for a, b in n["origins"]]
    n["dests"] = [[dm[a], nm[b]] for a, b in n["dests"]]
    n["demand"] = [[om[a], dm[b], r] for a, b, r in n["demand"]]
    for p in n["paths"]:
        p["nodes"] = [nm[x] for x in p["nodes"]]
    return n, lm


def calm(rng, net):
    """Make the run independent of chance: whole vehicles, one path per
    origin and destination, and more room than there are vehicles."""
    s = net["flow_scalar"] = int(max(1, round(net["flow_scalar"])))
    mc = net["multiclass"]
    have, paths = set(), []
    for p in net["paths"]:
        k = (p["nodes"][0], p["nodes"][-1])
        if k not in have:
            have.add(k)
            p["buffer"] = [1.0] * len(p["buffer"])
            paths.append(p)
    net["paths"] = paths
    step = net["assign_frq"] // max(1, 60 // net["unit_time"]) if mc else 1
    left = 40
    for r in net["demand"]:
        for j in range(len(r[2])):
            v = rng.choice([0, 1, 1, 2, 3])
            v = min(v, left)
            left -= v
            # demand of an interval is released in equal parts every minute
            r[2][j] = float(v * step) / s
    for l in net["links"]:
        if l["type"] == "PQ":
            l["cap"] = 99999.0
            if mc:
                l["tcap"] = 99999.0
            continue
        cell = l["ffs"] * net["unit_time"] / 3600.0
        l["rhoj"] = 200.0
        l["cap"] = 200.0 * l["ffs"] / 4.0
        if mc:
            # slower trucks cross cells in random portions
            l["tffs"] = l["ffs"]
            l["trhoj"] = 100.0
            l["tcap"] = 100.0 * l["tffs"] / 4.0
        # every vehicle there is (as trucks) fits into one cell, and through
        # one cell boundary, at once
        veh = 60.0 * step * 3
        need = veh / (25.0 * cell * s * 0.5)
        l["lanes"] = max(1, int(need) + 1)


def sim_lanes(net):
    return {l["id"]: l["lanes"] for l in net["links"]}


class Check(NetCheck):
    id = "C17"
    quick_n = 12000
    thorough_n = 200000
    opts = dict(demand_level=[0.6, 1.5, 3.0], max_core=6)
    mc_opts = dict(max_veh=8)
    rule = ("random networks whose files are written again with comments, "
            "blank lines, other spacing, line ends and number formats, other "
            "order of the settings; and, on networks where chance plays no "
            "part, with rows in another order or with other identifiers; "
            "non-trivial: vehicles moved and the files differ; distinct by "
            "the cumulative curves")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        c["seed"] = rng.randrange(10 ** 9)
        c["kind"] = rng.choice(["layout", "layout", "rows", "names"])
        if c["kind"] == "layout":
            hs = ["notes", "gaps", "edges", "numbers", "crlf", "nonl",
                  "order"]
            if rng.random() < 0.4:
                hs = [rng.choice(hs)]
            else:
                hs = [h for h in hs if rng.random() < 0.6] or ["notes"]
            c["how"] = hs
        else:
            o = self.pick(rng, i)
            o.update(routing=["Fixed"], link_types=["CTM", "CTM", "PQ"])
            c["net"] = netgen.gen_net(rng, o)
            if c["kind"] == "rows":
                ks = ["links", "graph", "nodes", "origins", "dests",
                      "demand", "paths"]
                c["how"] = ([rng.choice(ks)] if rng.random() < 0.4 else
                            [k for k in ks if rng.random() < 0.6] or ks)
        if c["kind"] != "layout":
            calm(rng, c["net"])
        return c

    def shrink(self, case):
        if case["kind"] != "names" and len(case["how"]) > 1:
            for h in case["how"]:
                yield dict(case, how=[h])
                yield dict(case, how=[x for x in case["how"] if x != h])
        for c in super().shrink(case):
            n, old = c["net"], case["net"]
            if case["kind"] != "layout":  # stay free of chance
                lanes = sim_lanes(old)
                if n["flow_scalar"] != old["flow_scalar"] or any(
                        l["lanes"] != lanes[l["id"]] for l in n["links"]) \
                        or any(v not in r0[2] + [0.0] for r in n["demand"]
                               for r0 in old["demand"] if r0[:2] == r[:2]
                               for v in r[2]):
                    continue
            yield c

    def run(self, case, ctx):
        import random
        import macposts
        from .. import sim
        from .. import fingerprint as F
        net = case["net"]
        rng = random.Random(case["seed"])
        mc = net["multiclass"]
        v = []
        d0 = ctx.newdir()
        t0 = netgen.file_texts(net)
        o = sim.run(net, d0)
        kind = case["kind"]
        if kind == "layout":
            t = decorate(rng, t0, mc, case["how"])
            d = ctx.newdir()
            netgen.write_net(net, d, t)
            a = F.whole(net, d0)
            b = F.whole(net, d)
            for k in a:
                if a[k] != b.get(k):
                    v.append("with files laid out otherwise (%s), %s "
                             "differ%s" % (", ".join(case["how"]), k,
                                           "" if k.endswith("s") else "s"))
                    break
            diff = t != t0
        else:
            for k in (1, 2):
                o2 = sim.run(dict(net, rand=net["rand"] + k), ctx.newdir())
                if sim.curve_key(net, o2) != sim.curve_key(net, o):
                    return dict(viol=[], nt=False, key="chance",
                                labels=labels(net, ["chance"]), sample=None)
            ren = {l["id"]: l["id"] for l in net["links"]}
            if kind == "rows":
                n, t = permute(rng, net, case["how"])
                what = "with the rows of %s in another order" % ", ".join(
                    case["how"])
            else:
                n, ren = rename(rng, net)
                t = netgen.file_texts(n)
                what = "with other identifiers"
            d = ctx.newdir()
            netgen.write_net(n, d, t)
            macposts.set_random_state(net["rand"] + rng.choice([0, 1]))
            m = (macposts.Mcdta if mc else macposts.Dta).from_files(d)
            m.register_links()
            m.install_cc()
            m.run_whole(False)
            p = (sim.observe_mcdta if mc else sim.observe_dta)(n, m)
            if p.T != o.T:
                v.append("%s the run takes %d intervals, not %d"
                         % (what, p.T, o.T))
            for x, y in zip(sim.classes(net, o), sim.classes(n, p)):
                for j, way in ((4, "in"), (5, "out")):
                    for i in x[j]:
                        if not np.array_equal(x[j][i], y[j][ren[i]]):
                            v.append("%s the %s-curve of %slink %d differs"
                                     % (what, way, x[0] + " " if x[0] else "",
                                        i))
                            break
            if not np.allclose(o.stats, p.stats, atol=1e-9):
                v.append("%s the travel statistics are %s, not %s"
                         % (what, p.stats, o.stats))
            diff = t != t0
        mv = moved(net, o)
        return dict(viol=v[:3], nt=mv > 0 and diff,
                    key=sim.curve_key(net, o) + kind,
                    labels=labels(net, [kind] + case.get("how", [])),
                    sample=None)


CHECK = Check()
