"""Random traffic networks, their input files, and how to shrink them.

A network is a JSON value; everything a case needs is in it, so a case is its
own replay file.  Only documented input conventions are used: every origin and
destination hangs on point-queue connectors, every origin reaches every
destination, counts in config.conf match the files.
"""
import copy
import itertools
import os

CONNECTOR = dict(type="PQ", length=1.0, ffs=99999.0, cap=99999.0, rhoj=99999.0,
                 lanes=1)


def reach(net, src):
    adj = {}
    for l in net["links"]:
        adj.setdefault(l["from"], []).append(l["to"])
    seen = {src}
    todo = [src]
    while todo:
        for v in adj.get(todo.pop(), []):
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def simple_paths(net, o, d, limit=40, parallel=False):
    """Simple node paths o -> d (as lists of node IDs), at most *limit*."""
    adj = {}
    for l in net["links"]:
        adj.setdefault(l["from"], set()).add(l["to"])
    out = []
    stack = [[o]]
    while stack and len(out) < limit:
        p = stack.pop()
        if p[-1] == d:
            out.append(p)
            continue
        for v in sorted(adj.get(p[-1], ())):
            if v not in p:
                stack.append(p + [v])
    return out


def path_links(net, nodes):
    """Link IDs of a node path (no parallel links on it)."""
    m = {}
    for l in net["links"]:
        m.setdefault((l["from"], l["to"]), []).append(l["id"])
    return [m[a, b][0] for a, b in zip(nodes, nodes[1:])]


def gen_link(rng, o, unit_time, multiclass, scalar=1.0):
    kinds = o.get("link_types", ["CTM", "CTM", "CTM", "PQ", "LQ"])
    t = rng.choice(kinds)
    ffs = rng.choice([15.0, 25.0, 30.0, 35.0, 45.0, 60.0, 33.3])
    cell = ffs * unit_time / 3600.0  # miles covered in one interval
    cells = rng.choice([1, 1, 2, 2, 3, 4, 6] + [9, 20] * bool(o.get("long")))
    frac = rng.choice([0.0, 0.1, 0.5, 0.9]) + 0.01
    if t == "LQ":
        cells = max(cells, 2)
    length = round(cell * (cells + frac), 6)
    if t in ("CTM", "PQ") and rng.random() < 0.07:
        length = round(cell * rng.choice([0.2, 0.6]), 6)
    cap = rng.choice([200.0, 400.0, 600.0, 900.0, 1200.0, 1800.0, 2200.0])
    lanes = rng.choice([1, 1, 1, 2, 3] + [4, 6] * bool(o.get("long")))
    if t == "PQ":
        cap = rng.choice([1800.0, 3600.0, 5000.0, 20000.0, 99999.0])
        rhoj = rng.choice([200.0, 99999.0])
    else:
        rhoj = round(cap / ffs * rng.choice([2.1, 2.5, 3.0, 4.0, 5.0, 8.0]), 3)
        # A cell has to hold two vehicles, or vehicles never get through it,
        # and twice what passes at capacity (the code's own precondition).
        conv = 3.0 if multiclass else 1.0
        need = 2.2 * conv / (lanes * cell * scalar)
        rhoj = max(rhoj, round(need, 3))
        top = 390.0 if multiclass else 290.0
        if rhoj > top:
            rhoj = top
        while rhoj * lanes * cell * scalar < 2.2 * conv:
            lanes += 1
        if rhoj < 2.1 * cap / ffs:
            cap = round(rhoj * ffs / 2.5, 3)
    l = dict(type=t, length=length, ffs=ffs, cap=cap, rhoj=rhoj, lanes=lanes)
    if multiclass:
        l.update(tffs=round(ffs * rng.choice([1.0, 0.8, 0.6]), 3),
                 conv=rng.choice([1.0, 1.5, 2.0, 2.1, 3.0]))
        # truck capacity/jam density in trucks: consistent with the car's
        l["tcap"] = round(cap / rng.choice([1.0, 1.5, 2.0, 3.0]), 3)
        l["trhoj"] = round(rhoj / rng.choice([1.0, 1.5, 2.0]), 3)
        if t != "PQ":
            # at least two trucks per cell, and above the critical density
            low = max(2.2 / (lanes * cell * scalar),
                      1.2 / (lanes * unit_time * scalar) * 3600 / l["tffs"])
            l["trhoj"] = max(l["trhoj"], round(low, 3))
            if l["trhoj"] < 1.3 * l["tcap"] / l["tffs"]:
                l["tcap"] = round(l["trhoj"] * l["tffs"] / 2.5, 3)
    return l


def gen_net(rng, o=None):
    """o: options.  multiclass, routing (list), max_core, parallel, acyclic,
    link_types, demand_level, exact (demand*scalar integral), ..."""
    o = dict(o or {})
    mc = o.get("multiclass", False)
    big = rng.random() < o.get("big", 0.05)
    if big:  # now and then more of everything
        o["max_core"] = o.get("max_core", 5) + rng.choice([0, 3, 6])
        o["max_o"] = o.get("max_o", 3) + rng.choice([0, 2])
        o["max_d"] = o.get("max_d", 3) + rng.choice([0, 2])
        o["max_veh"] = o.get("max_veh", 60) * rng.choice([1, 2, 4])
        if "max_interval" not in o or rng.random() < 0.5:
            o["max_interval"] = [3, 6, 10]
        if "paths_per_od" not in o:
            o["paths_per_od"] = [1, 3, 6]
        o["long"] = rng.random() < 0.5
    wide = bool(big and o.get("wide_ids", True))
    unit_time = o.get("unit_time") or rng.choice([5, 5, 5, 2, 6, 10])
    if mc:
        unit_time = o.get("unit_time") or rng.choice([5, 5, 6, 10])
    # assign_frq in intervals
    if mc:
        minute = 60 // unit_time
        assign_frq = minute * rng.choice(o.get("mc_minutes", [1, 2, 2, 3, 5]))
    else:
        assign_frq = rng.choice(o.get("assign_frq", [3, 5, 8, 12, 20]))
    max_interval = rng.choice(o.get("max_interval", [1, 2, 3, 4]))
    scalar = rng.choice(o.get("scalars", [1, 1, 2, 3, 5, 10, 2.5]))

    nodes_n = rng.randint(o.get("min_core", 1), o.get("max_core", 5))
    nO = rng.randint(1, o.get("max_o", 3))
    nD = rng.randint(1, o.get("max_d", 3))
    ids = rng.sample(range(1 - wide, 10 ** 6 if wide else 400),
                     nodes_n + nO + nD)
    core, onodes, dnodes = (ids[:nodes_n], ids[nodes_n:nodes_n + nO],
                            ids[nodes_n + nO:])
    acyclic = o.get("acyclic")
    if acyclic is None:
        acyclic = rng.random() < 0.5
    pairs = []
    order = core[:]

    def add(a, b, par=False):
        if a == b or (not par and (a, b) in pairs):
            return
        pairs.append((a, b))

    hub = rng.randrange(nodes_n) if big and rng.random() < 0.6 else None

    for i in range(len(order) - 1):  # a spine keeps most of it connected
        if rng.random() < 0.85:
            add(order[i], order[i + 1])
    for _ in range(rng.randint(o.get("dense", 0) * nodes_n, 2 * nodes_n)):
        if nodes_n < 2:
            break
        i, j = rng.sample(range(nodes_n), 2)
        if hub is not None and rng.random() < 0.6:  # many links at one node
            if rng.random() < 0.5:
                i = hub
            else:
                j = hub
            if i == j:
                continue
        if acyclic and i > j:
            i, j = j, i
        add(order[i], order[j],
            o.get("parallel", False) and rng.random() < 0.5)
    conn = []
    for x in onodes:
        hi = max(1, (nodes_n + 1) // 2)
        for _ in range(rng.choice([1, 1, 2])):
            c = (x, order[rng.randrange(hi if acyclic else nodes_n)])
            if c not in conn:
                conn.append(c)
    for x in dnodes:
        lo = nodes_n // 2 if acyclic else 0
        for _ in range(rng.choice([1, 1, 2])):
            c = (order[rng.randrange(lo, nodes_n)], x)
            if c not in conn:
                conn.append(c)
    net = dict(links=[dict([("from", a), ("to", b)]) for a, b in pairs + conn])
    # make every O-D pair connected
    for x in onodes:
        for y in dnodes:
            if y not in reach(net, x):
                a = [c[1] for c in conn if c[0] == x][0]
                b = [c[0] for c in conn if c[1] == y][0]
                if acyclic and order.index(a) > order.index(b):
                    # keep it acyclic: one more connector to the destination
                    conn.append((a, y))
                    net["links"].append({"from": a, "to": y})
                else:
                    pairs.append((a, b))
                    net["links"].append({"from": a, "to": b})
    # drop core nodes nothing touches
    used = {n for l in net["links"] for n in (l["from"], l["to"])}
    core = [c for c in core if c in used]
    lids = rng.sample(range(1 - wide, 10 ** 6 if wide else 900),
                      len(net["links"]))
    if o.get("sorted_ids") or rng.random() < 0.5:
        lids.sort()
    links = []
    for k, l in enumerate(net["links"]):
        if l["from"] in onodes or l["to"] in dnodes:
            a = dict(CONNECTOR)
            if big:  # wide enough for what is released at once
                a["cap"] = a["rhoj"] = 999999.0
            if rng.random() < o.get("slow_connector", 0.3):
                # a connector that takes some intervals to cross
                a.update(ffs=30.0, length=round(
                    30.0 * unit_time / 3600 * rng.choice([1.2, 2.4, 3.0]), 6))
            if mc:
                a.update(tffs=a["ffs"], tcap=a["cap"], trhoj=a["rhoj"],
                         conv=2.0)
        else:
            a = gen_link(rng, o, unit_time, mc, scalar)
        a.update({"id": lids[k], "from": l["from"], "to": l["to"]})
        links.append(a)
    net = dict(
        multiclass=mc, unit_time=unit_time, assign_frq=assign_frq,
        max_interval=max_interval, flow_scalar=scalar,
        start_assign_interval=0, links=links, acyclic=bool(acyclic),
        nodes=[dict(id=n, type="FWJ") for n in core]
        + [dict(id=n, type="DMOND") for n in onodes]
        + [dict(id=n, type="DMDND") for n in dnodes],
        origins=[[i, n] for i, n in zip(
            rng.sample(range(1 - wide, 9999 if wide else 99), nO), onodes)],
        dests=[[i, n] for i, n in zip(
            rng.sample(range(1 - wide, 9999 if wide else 99), nD), dnodes)],
    )
    if mc:
        for n in net["nodes"]:
            n["conv"] = rng.choice([1.0, 2.0, 2.1, 3.0])
        net["init_demand_split"] = rng.choice([0, 1])
    net["links"].sort(key=lambda l: l["id"]) if rng.random() < 0.7 else None
    # demand, relative to a typical link capacity per assignment interval
    capv = 900.0 / 3600 * unit_time * assign_frq
    net["demand"] = []
    for oi, on in net["origins"]:
        for di, dn in net["dests"]:
            if rng.random() < 0.2 and net["demand"]:
                continue
            level = rng.choice(o.get("demand_level",
                                     [0.2, 0.6, 1.2, 2.0, 4.0]))
            row = []
            for _ in range(max_interval * (2 if mc else 1)):
                v = level * capv * rng.random()
                v = min(v, o.get("max_veh", 60) / scalar)
                c = rng.random()
                if c < 0.15:
                    v = 0.0
                elif c < 0.55 or o.get("exact"):
                    v = round(v * scalar) / scalar
                else:
                    v = round(v, 3)
                row.append(v)
            net["demand"].append([oi, di, row])
    cyc = not acyclic
    r = rng.choice(o.get("routing", ["Fixed", "Adaptive", "Hybrid"]))
    net["routing"] = net["kind"] = r
    net["adaptive_ratio"] = rng.choice([0.0, 0.3, 0.5, 1.0])
    if mc:
        net["adaptive_ratio_truck"] = rng.choice([0.0, 0.5, 1.0])
        if r in ("Fixed", "Hybrid"):
            net["routing"] = "Biclass_Hybrid"
        if r == "Fixed":  # the documented way to get fixed routes for both
            net["adaptive_ratio"] = net["adaptive_ratio_truck"] = 0.0
    net["route_frq"] = assign_frq
    net["adaptive_route_frq"] = rng.choice([1, 3, assign_frq])
    if o.get("total") == "fixed" or cyc or rng.random() < 0.3:
        net["total_interval"] = max_interval * assign_frq + rng.choice(
            [0, 5, 40, 150])
    else:
        net["total_interval"] = -1
    add_paths(rng, net, o)
    net["rand"] = rng.randrange(1, 2 ** 31)
    return net


def add_tolls(rng, net, p=0.5):
    """Fixed tolls (car, truck) on some links, sometimes a value of time."""
    if rng.random() < p:
        ids = [l["id"] for l in net["links"]]
        rng.shuffle(ids)
        net["tolls"] = [[i, [rng.choice([0.5, 1, 2.5, 10]),
                             rng.choice([0.25, 3, 7.5, 20])]]
                        for i in ids[:rng.randint(1, len(ids))]]
    if rng.random() < 0.6:
        net["vot"] = rng.choice([1.0, 10.0, 36.0, 90.0])
    return net


def add_paths(rng, net, o):
    omap = dict(map(tuple, net["origins"]))
    dmap = dict(map(tuple, net["dests"]))
    paths = []
    od = [(r[0], r[1]) for r in net["demand"]]
    if rng.random() < 0.3:  # path sets for OD pairs without demand as well
        od = [(a, b) for a in omap for b in dmap]
    for a, b in od:
        ps = simple_paths(net, omap[a], dmap[b])
        rng.shuffle(ps)
        ps = ps[:rng.choice(o.get("paths_per_od", [1, 2, 3]))]
        n = net["max_interval"] * (2 if net["multiclass"] else 1)
        cols = []
        for _ in range(n):
            w = [rng.choice([0, 1, 1, 2, 3, 7, 0.5]) for _ in ps]
            if not any(w):
                w[rng.randrange(len(w))] = 1
            cols.append(w)
        for k, p in enumerate(ps):
            paths.append(dict(nodes=p, buffer=[c[k] for c in cols]))
    if rng.random() < 0.5:
        rng.shuffle(paths)
    net["paths"] = paths


# --------------------------------------------------------------------------
# files

def num(x):
    return repr(float(x)) if not float(x).is_integer() else str(int(x))


def config_text(net):
    mc = net["multiclass"]
    lines = ["[DTA]", "network_name = Snap_graph",
             "unit_time = %s" % num(net["unit_time"]),
             "total_interval = %d" % net["total_interval"],
             "assign_frq = %d" % net["assign_frq"],
             "start_assign_interval = %d" % net["start_assign_interval"],
             "max_interval = %d" % net["max_interval"],
             "flow_scalar = %s" % num(net["flow_scalar"]),
             "num_of_link = %d" % len(net["links"]),
             "num_of_node = %d" % len(net["nodes"]),
             "num_of_O = %d" % len(net["origins"]),
             "num_of_D = %d" % len(net["dests"]),
             "OD_pair = %d" % len(net["demand"]),
             "routing_type = %s" % net["routing"]]
    if mc:
        lines += ["adaptive_ratio_car = %s" % num(net["adaptive_ratio"]),
                  "adaptive_ratio_truck = %s"
                  % num(net["adaptive_ratio_truck"]),
                  "init_demand_split = %d" % net["init_demand_split"]]
    else:
        lines += ["adaptive_ratio = %s" % num(net["adaptive_ratio"]),
                  "init_demand_split = 0"]
    lines += ["%s = %s" % kv for kv in net.get("dta_extra", [])]
    if net.get("tolls"):
        lines += ["num_of_tolled_link = %d" % sum(
            any(l["id"] == i for l in net["links"])
            for i, _ in net["tolls"])]
    st = dict(rec_mode="LRn", rec_mode_para=12, rec_folder="record",
              rec_volume=1, volume_load_automatic_rec=0,
              volume_record_automatic_rec=0, rec_tt=1,
              tt_load_automatic_rec=0, tt_record_automatic_rec=0)
    st.update(net.get("stat", {}))
    lines += ["", "[STAT]"] + ["%s = %s" % kv for kv in st.items()]
    lines += ["", "[HYBRID]", "route_frq = %d" % net["route_frq"]]
    lines += ["", "[FIXED]", "path_file_name = path_table",
              "num_path = %d" % len(net["paths"]), "choice_portion = Buffer",
              "buffer_length = %d"
              % (net["max_interval"] * (2 if mc else 1)),
              "route_frq = %d" % net["route_frq"]]
    lines += ["", "[ADAPTIVE]", "route_frq = %d" % net["adaptive_route_frq"]]
    if net.get("vot") is not None:
        lines += ["vot = %s" % num(net["vot"])]
    if net.get("due") is not None:
        lines += ["", "[DUE]"] + ["%s = %s" % kv for kv in net["due"].items()]
    return "\n".join(lines) + "\n"


def file_texts(net):
    mc = net["multiclass"]
    t = {}
    t["config.conf"] = config_text(net)
    t["Snap_graph"] = "".join("%d %d %d\n" % (l["id"], l["from"], l["to"])
                              for l in net["links"])
    rows = []
    for l in net["links"]:
        w = [str(l["id"]), l["type"]] + [num(l[k]) for k in
                                         ("length", "ffs", "cap", "rhoj",
                                          "lanes")]
        if mc:
            w += [num(l[k]) for k in ("tffs", "tcap", "trhoj", "conv")]
        rows.append(" ".join(w) + "\n")
    t["MNM_input_link"] = "".join(rows)
    t["MNM_input_node"] = "".join(
        "%d %s%s\n" % (n["id"], n["type"],
                       " " + num(n["conv"]) if mc else "")
        for n in net["nodes"])
    t["MNM_input_od"] = ("# origins\n"
                         + "".join("%d %d\n" % tuple(x)
                                   for x in net["origins"])
                         + "# destinations\n"
                         + "".join("%d %d\n" % tuple(x)
                                   for x in net["dests"]))
    t["MNM_input_demand"] = "".join(
        "%d %d %s\n" % (a, b, " ".join(num(v) for v in row))
        for a, b, row in net["demand"])
    t["path_table"] = "".join(" ".join(map(str, p["nodes"])) + "\n"
                              for p in net["paths"])
    t["path_table_buffer"] = "".join(" ".join(num(v) for v in p["buffer"])
                                     + "\n" for p in net["paths"])
    if net.get("tolls"):
        rows = [(i, v) for i, v in net["tolls"]
                if any(l["id"] == i for l in net["links"])]
        t["MNM_input_link_toll"] = "#link toll\n" + "".join(
            "%d %s\n" % (i, " ".join(num(x) for x in (v if mc else v[:1])))
            for i, v in rows)
    t.update(net.get("extra_files", {}))
    return t


def write_net(net, d, texts=None):
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(d, "record"), exist_ok=True)
    for name, s in (texts or file_texts(net)).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(s)


# --------------------------------------------------------------------------
# shrinking: smaller valid networks

def valid(net):
    try:
        if not (net["links"] and net["origins"] and net["dests"]
                and net["demand"]):
            return False
        nodes = {n["id"] for n in net["nodes"]}
        used = {x for l in net["links"] for x in (l["from"], l["to"])}
        if nodes != used:
            return False
        for _, a in net["origins"]:
            r = reach(net, a)
            for _, b in net["dests"]:
                if b not in r:
                    return False
        have = {(p["nodes"][0], p["nodes"][-1]) for p in net["paths"]}
        om, dm = (dict(map(tuple, net[k])) for k in ("origins", "dests"))
        if any((om[r[0]], dm[r[1]]) not in have for r in net["demand"]):
            return False
        if not net["paths"]:
            return False
        return True
    except KeyError:
        return False


def _prune(net):
    used = {x for l in net["links"] for x in (l["from"], l["to"])}
    net["nodes"] = [n for n in net["nodes"] if n["id"] in used]
    net["origins"] = [x for x in net["origins"] if x[1] in used]
    net["dests"] = [x for x in net["dests"] if x[1] in used]
    os_ = {x[0] for x in net["origins"]}
    ds_ = {x[0] for x in net["dests"]}
    net["demand"] = [r for r in net["demand"] if r[0] in os_ and r[1] in ds_]
    arcs = {(l["from"], l["to"]) for l in net["links"]}
    net["paths"] = [p for p in net["paths"]
                    if all(a in arcs for a in zip(p["nodes"],
                                                  p["nodes"][1:]))]
    return net


def shrink_net(net):
    """Yield smaller networks, biggest steps first."""
    def cand(f):
        n = copy.deepcopy(net)
        f(n)
        _prune(n)
        return n if valid(n) and n != net else None

    fs = []
    for k in range(len(net["demand"])):
        fs.append(lambda n, k=k: n["demand"].pop(k))
    for k in range(len(net["links"])):
        fs.append(lambda n, k=k: n["links"].pop(k))
    for key in ("origins", "dests"):
        for k in range(len(net[key])):
            def f(n, key=key, k=k):
                i, nd = n[key][k]
                n["links"] = [l for l in n["links"]
                              if nd not in (l["from"], l["to"])]
            fs.append(f)
    for k in range(len(net["paths"])):
        fs.append(lambda n, k=k: n["paths"].pop(k))
    for k, row in enumerate(net["demand"]):
        fs.append(lambda n, k=k: n["demand"][k].__setitem__(
            2, [float(int(v / 2)) for v in n["demand"][k][2]]))
        for j, v in enumerate(row[2]):
            if v:
                fs.append(lambda n, k=k, j=j:
                          n["demand"][k][2].__setitem__(j, 0.0))
    if net["total_interval"] > 0:
        lo = net["max_interval"] * net["assign_frq"]
        fs.append(lambda n: n.__setitem__("total_interval", lo))
        fs.append(lambda n: n.__setitem__(
            "total_interval", (lo + n["total_interval"]) // 2))
    if net["flow_scalar"] != 1:
        fs.append(lambda n: n.__setitem__("flow_scalar", 1))
    for k, l in enumerate(net["links"]):
        if l["lanes"] > 1:
            fs.append(lambda n, k=k: n["links"][k].__setitem__("lanes", 1))
    for f in fs:
        c = cand(f)
        if c is not None:
            yield c
