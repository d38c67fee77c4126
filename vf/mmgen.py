"""Random multimodal networks: a driving network (from netgen) with bus routes,
stops, park-and-ride lots and walking links on top, and their input files."""
import copy
import os
import random

from . import netgen
from .netgen import num


def gen_mm(rng, o=None):
    o = dict(o or {})
    for _ in range(200):
        net = _gen(rng, o)
        if net is not None:
            return net
    raise RuntimeError("no multimodal network")


def pos_slot(net, l, loc):
    """The slot of a link (cell of a CTM link, travelling time step of a PQ
    link) a stop *loc* miles from the link's start is in."""
    from math import ceil
    unit = net["unit_time"]
    cell = l["ffs"] * unit / 3600.0
    n = max(1, int(l["length"] / cell + 1e-9))
    return max(0, min(n - 1, int(ceil(loc / cell)) - 1)), loc / cell % 1


def _gen(rng, o):
    unit = rng.choice([5, 10, 10, 15])
    base = dict(multiclass=True, unit_time=unit,
                mc_minutes=o.get("minutes", [15, 5, 10]),
                link_types=o.get("link_types", ["CTM", "CTM", "PQ"]),
                wide_ids=False,
                max_interval=[1, 1, 1, 2, 2, 3, 4], scalars=[1, 1, 2, 3],
                min_core=3, max_core=5, max_o=2, max_d=3, routing=["Fixed"],
                demand_level=o.get("demand_level", [0.05, 0.2, 0.6]),
                max_veh=o.get("max_veh", 60))
    base.update(o.get("base", {}))
    net = netgen.gen_net(rng, base)
    if len(net["dests"]) < 2:
        return None
    net["total_interval"] = net["max_interval"] * net["assign_frq"] \
        + rng.choice([0, 20, 60, 200])
    S = net["flow_scalar"]
    by_arc = {}
    for l in net["links"]:
        if (l["from"], l["to"]) in by_arc:
            return None
        by_arc[l["from"], l["to"]] = l
    conn = {n for _, n in net["origins"]} | {n for _, n in net["dests"]}
    onode = dict(map(tuple, net["origins"]))
    dnode = dict(map(tuple, net["dests"]))
    lot_dest = rng.choice(sorted(dnode))  # where people park
    if rng.random() < 0.6:  # nobody else goes there
        net["demand"] = [r for r in net["demand"] if r[1] != lot_dest]
        if not net["demand"]:
            return None
    if rng.random() < 0.4:  # buses are the only heavy vehicles
        for r in net["demand"]:
            n = net["max_interval"]
            r[2][n:] = [0.0] * n

    # ---- bus routes
    routes, stops, vstops, blinks = [], [], [], []
    sid = iter(rng.sample(range(1000, 1400), 100))
    vid = iter(rng.sample(range(2000, 2400), 200))
    bid = iter(rng.sample(range(6000, 6400), 200))
    wid = iter(rng.sample(range(5000, 5800), 400))
    rids = rng.sample(range(1, 60), 4)
    place = {}  # (link, slot) -> stop
    for k in range(rng.choice([1, 1, 2, 3])):
        a, b = rng.choice(sorted(onode)), rng.choice(sorted(dnode))
        ps = [p for p in netgen.simple_paths(net, onode[a], dnode[b])
              if len(p) >= 4]
        if not ps:
            continue
        p = rng.choice(ps)
        links = [by_arc[x] for x in zip(p, p[1:])]
        want = []
        for j, l in enumerate(links):
            if l["from"] in conn or l["to"] in conn:
                continue
            for loc in sorted(rng.sample([0.05, 0.35, 0.65, 0.95],
                                         rng.choice([1, 1, 1, 2]))):
                if rng.random() < 0.85:
                    want.append((j, l, round(loc * l["length"], 7)))
        mine, seen = [], set()
        for j, l, loc in want:
            s, rest = pos_slot(net, l, loc)
            # keep off the slot boundaries: which side counts is rounding
            if (l["id"], s) in seen or not 1e-3 < rest < 1 - 1e-3:
                continue
            seen.add((l["id"], s))
            mine.append((j, l, loc, s))
        if len(mine) < 2:
            continue
        if any(r["o"] == a and r["d"] == b for r in routes):
            continue  # one bus route per OD pair keeps the demand file simple
        rt = dict(route=rids[k], o=a, d=b, nodes=p, vstops=[])
        for j, l, loc, s in mine:
            st = place.get((l["id"], s))
            if st is None or rng.random() < 0.3:
                st = dict(id=next(sid), link=l["id"], loc=loc, routes=[])
                stops.append(st)
                place[l["id"], s] = st
            if rt["route"] in st["routes"]:
                return None
            st["routes"].append(rt["route"])
            v = dict(id=next(vid), phys=st["id"], route=rt["route"], j=j,
                     loc=st["loc"])
            vstops.append(v)
            rt["vstops"].append(v["id"])
        mv = [v for v in vstops if v["route"] == rt["route"]]
        for x, y in zip(mv, mv[1:]):
            if (x["j"], x["loc"]) >= (y["j"], y["loc"]):
                return None
            if x["j"] == y["j"]:
                ov = [links[x["j"]]["id"]]
                ln = y["loc"] - x["loc"]
            else:
                ov = [links[j]["id"] for j in range(x["j"], y["j"] + 1)]
                ln = links[x["j"]]["length"] - x["loc"] + y["loc"] + sum(
                    links[j]["length"] for j in range(x["j"] + 1, y["j"]))
            ff = ln / 30.0
            blinks.append({"id": next(bid), "from": x["id"], "to": y["id"],
                           "len": round(ln, 6), "fftt": round(ff, 7),
                           "route": rt["route"], "over": ov})
        routes.append(rt)
    if not routes:
        return None

    # ---- parking lots and walking links
    lots = [dict(id=rng.randrange(3000, 3100), node=dnode[lot_dest],
                 price=rng.choice([0, 2, 7.5]),
                 surge=rng.choice([0, 0.5, 1, 1.25]),
                 time=rng.choice([0, 60, 120]), cap=rng.choice([5, 1000]))]
    walks = []

    def walk(f, t, ft, tt, kind, tm):
        walks.append({"id": next(wid), "from": f, "to": t, "ft": ft, "tt": tt,
                      "kind": kind, "time": tm})

    def wt():
        return rng.choice([0, 3, 10, 15, 37, 60, 90.5])

    for v in vstops:
        walk(v["phys"], v["id"], "bus_stop_physical", "bus_stop_virtual",
             "boarding", 0)
        walk(v["id"], v["phys"], "bus_stop_virtual", "bus_stop_physical",
             "alighting", 0)
    for s in stops:
        for a in onode:
            if rng.random() < 0.7:
                walk(onode[a], s["id"], "origin", "bus_stop_physical",
                     "normal", wt())
        for b in dnode:
            if b != lot_dest and rng.random() < 0.7:
                walk(s["id"], dnode[b], "bus_stop_physical", "destination",
                     "normal", wt())
        for r in stops:
            if r is not s and rng.random() < 0.25:
                walk(s["id"], r["id"], "bus_stop_physical",
                     "bus_stop_physical", "normal", wt())
        if rng.random() < 0.6:
            walk(lots[0]["node"], s["id"], "parking_lot",
                 "bus_stop_physical", "normal", wt())
    if rng.random() < 0.3:  # somebody may walk all the way
        a = rng.choice(sorted(onode))
        bs = [b for b in dnode if b != lot_dest]
        b = rng.choice(bs)
        walk(onode[a], dnode[b], "origin", "destination", "normal", 300)

    mm = dict(routes=routes, stops=stops, vstops=vstops, blinks=blinks,
              lots=lots, walks=walks)
    net["mm"] = mm

    # ---- transit paths: sequences of transit links from a to b
    arcs = {}
    for w in walks:
        arcs.setdefault(w["from"], []).append((w["id"], w["to"], "w"))
    for l in blinks:
        arcs.setdefault(l["from"], []).append((l["id"], l["to"], "b"))
    goals = {dnode[b] for b in dnode if b != lot_dest}

    def transit_paths(src, dst, limit):
        out, stack = [], [(src, [], {src})]
        steps = 0
        while stack and len(out) < limit and steps < 4000:
            steps += 1
            x, ls, seen = stack.pop()
            if x == dst:
                out.append(ls)
                continue
            nb = arcs.get(x, [])[:]
            rng.shuffle(nb)
            for i, y, _ in nb:
                if y in seen or len(ls) > 14 or (y in goals and y != dst):
                    continue
                stack.append((y, ls + [i], seen | {y}))
        return out

    isbus = {l["id"] for l in blinks}
    # some get on and off wherever the route allows, many of them
    mix = rng.random() < o.get("mix", 0.15)
    tp, pp = [], []
    for a in sorted(onode):
        for b in sorted(dnode):
            if b == lot_dest:
                continue
            ps = transit_paths(onode[a], dnode[b], 40 if mix else 12)
            if mix:
                ps = [p for p in ps if isbus & set(p)] or ps
                rng.shuffle(ps)
            else:
                ps.sort(key=lambda p: -len(isbus & set(p)))
            for p in ps[:rng.choice([3, 5]) if mix
                        else rng.choice([1, 2, 3])]:
                tp.append(dict(o=a, d=b, links=p))
            dps = netgen.simple_paths(net, onode[a], lots[0]["node"], 6)
            tps = transit_paths(lots[0]["node"], dnode[b], 12)
            tps.sort(key=lambda p: -len(isbus & set(p)))
            if dps and tps:
                for _ in range(rng.choice([1, 2])):
                    q = dict(o=a, d=b, lot=lots[0]["id"],
                             mid=lots[0]["node"], nodes=rng.choice(dps),
                             links=rng.choice(tps[:4]))
                    if not any(x["o"] == a and x["d"] == b
                               and x["nodes"] == q["nodes"]
                               and x["links"] == q["links"] for x in pp):
                        pp.append(q)
    if not tp:
        return None
    M = net["max_interval"]
    for group in (tp, pp):
        for key in sorted({(p["o"], p["d"]) for p in group}):
            ps = [p for p in group if (p["o"], p["d"]) == key]
            for p in ps:
                p["buffer"] = []
            for _ in range(M):
                w = [rng.choice([0, 1, 1, 2, 0.5]) for _ in ps]
                if not any(w):
                    w[0] = 1
                for p, x in zip(ps, w):
                    p["buffer"].append(x)
    mm["tpaths"], mm["ppaths"] = tp, pp

    def demand(top, low=0):
        out = []
        for _ in range(M):
            v = top * rng.random()
            c = rng.random()
            if c < 0.15:
                v = 0.0
            elif c < 0.6:
                v = round(v * S) / S
            out.append(round(max(v, low), 4))
        return out

    mm["bus_demand"] = [[r["o"], r["d"], r["route"],
                         [float(rng.choice([0, 1, 1, 2, 3, 4]))
                          for _ in range(M)]]
                        for r in routes]
    for r in mm["bus_demand"]:
        if not any(r[3]):
            r[3][0] = 1.0
    mp = o.get("max_pass", 60) / S * (rng.choice([1, 2]) if mix else 1)
    mm["pnr_demand"] = [[a, b, demand(mp / 2)] for a, b in
                        sorted({(p["o"], p["d"]) for p in pp})]
    mm["transit_demand"] = [[a, b, demand(mp)] for a, b in
                            sorted({(p["o"], p["d"]) for p in tp})]
    allod = sorted({(r[0], r[1]) for r in net["demand"]}
                   | {(p["o"], p["d"]) for p in tp + pp}
                   | {(a, b) for a in onode for b in dnode
                      if any(q["nodes"][0] == onode[a]
                             and q["nodes"][-1] == dnode[b]
                             for q in net["paths"])})
    mm["passenger_demand"] = [[a, b, demand(mp)] for a, b in allod]
    mm["pickup"] = [[i, rng.choice([0, 0, 30, 120])] for i in onode]
    mm["param"] = dict(
        boarding_time_per_passenger=rng.choice([1, 2, 3, 5]),
        alighting_time_per_passenger=rng.choice([1, 2, 3]),
        bus_capacity=rng.choice([2, 4, 10, 40]),
        fixed_dwell_time=rng.choice([0, 5, 15, 30]),
        boarding_lost_time=rng.choice([0, 2, 10]))
    if mix:
        mm["param"].update(
            bus_capacity=rng.choice([2, 3, 4, 6, 10]),
            boarding_time_per_passenger=rng.choice([1, 2]),
            alighting_time_per_passenger=rng.choice([1, 2, 3]))
    net["routing"] = net["kind"] = "Multimodal_Hybrid"
    net["adaptive_ratio"] = net["adaptive_ratio_truck"] = 0.0
    mm["adaptive_ratio_passenger"] = 0.0
    mm["order"] = rng.choice([0, rng.randrange(1, 10 ** 6)])
    return net


def config_text(net):
    mm = net["mm"]
    L = ["[DTA]", "network_name = driving_graph",
         "unit_time = %s" % num(net["unit_time"]),
         "total_interval = %d" % net["total_interval"],
         "assign_frq = %d" % net["assign_frq"],
         "start_assign_interval = %d" % net["start_assign_interval"],
         "max_interval = %d" % net["max_interval"],
         "flow_scalar = %s" % num(net["flow_scalar"]),
         "num_of_link = %d" % len(net["links"]),
         "num_of_node = %d" % len(net["nodes"]),
         "num_of_O = %d" % len(net["origins"]),
         "num_of_D = %d" % len(net["dests"]),
         "OD_pair_driving = %d" % len(net["demand"]),
         "OD_pair_pnr = %d" % len(mm["pnr_demand"]),
         "OD_pair_bustransit = %d" % len(mm["transit_demand"]),
         "OD_pair_passenger = %d" % len(mm["passenger_demand"]),
         "num_bus_routes = %d" % len(mm["routes"]),
         "num_of_bus_stop_physical = %d" % len(mm["stops"]),
         "num_of_bus_stop_virtual = %d" % len(mm["vstops"]),
         "num_of_parking_lot = %d" % len(mm["lots"]),
         "num_of_walking_link = %d" % len(mm["walks"]),
         "num_of_bus_link = %d" % len(mm["blinks"]),
         "historical_bus_waiting_time = 0", "explicit_bus = 1",
         "adaptive_ratio_car = %s" % num(net["adaptive_ratio"]),
         "adaptive_ratio_truck = %s" % num(net["adaptive_ratio_truck"]),
         "adaptive_ratio_passenger = %s" % num(
             mm["adaptive_ratio_passenger"]),
         "init_demand_split = %d" % net["init_demand_split"],
         "routing_type = %s" % net["routing"]]
    if net.get("tolls"):
        L.append("num_of_tolled_link = %d" % sum(
            any(l["id"] == i for l in net["links"]) for i, _ in net["tolls"]))
    L += ["%s = %s" % kv for kv in mm["param"].items()]
    st = dict(rec_mode="LRn", rec_mode_para=12, rec_folder="record",
              rec_volume=1, volume_load_automatic_rec=0,
              volume_record_automatic_rec=0, rec_tt=1,
              tt_load_automatic_rec=0, tt_record_automatic_rec=0,
              rec_gridlock=0)
    L += ["", "[STAT]"] + ["%s = %s" % kv for kv in st.items()]
    L += ["", "[FIXED]", "driving_path_file_name = driving_path_table",
          "num_driving_path = %d" % len(net["paths"]),
          "pnr_path_file_name = pnr_path_table",
          "num_pnr_path = %d" % len(mm["ppaths"]),
          "bustransit_path_file_name = bustransit_path_table",
          "num_bustransit_path = %d" % len(mm["tpaths"]),
          "bus_path_file_name = bus_path", "bus_route_file_name = bus_route",
          "num_bus_routes = %d" % len(mm["routes"]),
          "choice_portion = Buffer",
          "buffer_length = %d" % (2 * net["max_interval"]),
          "route_frq = %d" % net["route_frq"]]
    L += ["", "[ADAPTIVE]", "route_frq = %d" % net["adaptive_route_frq"],
          "vot = %s" % num(net.get("vot") or 20.0)]
    d = dict(driving=1, transit=1, pnr=1, alpha1_driving=0, alpha1_transit=0,
             alpha1_pnr=0, beta1=1, vot=net.get("vot") or 20.0,
             early_penalty=0.5, late_penalty=2, target_time=0,
             parking_lot_to_destination_walking_time=60,
             carpool_cost_multiplier=1, bus_fare=2, metro_fare=2,
             pnr_inconvenience=0, bus_inconvenience=0, max_iter=1,
             step_size=0.1)
    d.update(mm.get("mmdue", {}))
    L += ["", "[MMDUE]"] + ["%s = %s" % kv for kv in d.items()]
    return "\n".join(L) + "\n"


def file_texts(net):
    mm = net["mm"]
    onode = dict(map(tuple, net["origins"]))
    dnode = dict(map(tuple, net["dests"]))
    base = netgen.file_texts(net)
    pick = dict(map(tuple, mm["pickup"]))
    t = {"config.conf": config_text(net),
         "driving_graph": base["Snap_graph"],
         "driving_path_table": base["path_table"],
         "driving_path_table_buffer": base["path_table_buffer"]}
    if net.get("tolls"):
        t["MNM_input_link_toll"] = base["MNM_input_link_toll"]

    mix = random.Random(mm["order"]) if mm.get("order") else None

    def rows(head, rs, fixed=False):
        rs = list(rs)
        if mix and not fixed:
            mix.shuffle(rs)
        return head + "\n" + "".join(" ".join(
            x if isinstance(x, str) else num(x) for x in r) + "\n"
            for r in rs)

    t["driving_node"] = "#ID type convert\n" + base["MNM_input_node"]
    t["driving_link"] = "#link\n" + base["MNM_input_link"]
    t["od"] = rows("#origin", [[i, n, pick.get(i, 0)]
                               for i, n in net["origins"]]) \
        + rows("#dest", net["dests"])
    t["bus_stop_physical"] = rows(
        "#stop", [[s["id"], s["link"], s["loc"]] + s["routes"]
                  for s in mm["stops"]])
    t["bus_stop_virtual"] = rows(
        "#stop", [[v["id"], v["phys"], v["route"]] for v in mm["vstops"]])
    t["parking_lot"] = rows(
        "#lot", [[p["id"], p["node"], p["price"], p["surge"], p["time"],
                  p["cap"]] for p in mm["lots"]])
    t["walking_link"] = rows(
        "#walk", [[w["id"], w["from"], w["to"], w["ft"], w["tt"], w["kind"],
                   w["time"]] for w in mm["walks"]])
    t["bus_link"] = rows(
        "#bus", [[b["id"], b["from"], b["to"], b["len"], b["fftt"],
                  b["route"]] + b["over"] for b in mm["blinks"]])
    t["driving_demand"] = "#driving\n" + base["MNM_input_demand"]
    t["bus_demand"] = rows("#bus", [r[:3] + r[3] for r in mm["bus_demand"]])
    for k in ("pnr", "passenger"):
        t[k + "_demand"] = rows("#" + k, [r[:2] + r[2]
                                          for r in mm[k + "_demand"]])
    t["bustransit_demand"] = rows("#t", [r[:2] + r[2]
                                         for r in mm["transit_demand"]])
    t["pnr_path_table"] = rows(
        "#pnr", [[onode[p["o"]], dnode[p["d"]], p["lot"], p["mid"]]
                 + p["nodes"] + p["links"] for p in mm["ppaths"]], True)
    t["pnr_path_table_buffer"] = "".join(
        " ".join(num(x) for x in p["buffer"]) + "\n" for p in mm["ppaths"])
    t["bustransit_path_table"] = rows(
        "#t", [[onode[p["o"]], dnode[p["d"]]] + p["links"]
               for p in mm["tpaths"]], True)
    t["bustransit_path_table_buffer"] = "".join(
        " ".join(num(x) for x in p["buffer"]) + "\n" for p in mm["tpaths"])
    t["bus_path"] = rows("#bus", [[onode[r["o"]], dnode[r["d"]], r["route"]]
                                  + r["nodes"] for r in mm["routes"]], True)
    t["bus_route"] = rows("#bus", [[onode[r["o"]], dnode[r["d"]], r["route"]]
                                   + r["vstops"] for r in mm["routes"]])
    return t


def write(net, d, texts=None):
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(d, "record"), exist_ok=True)
    for name, s in (texts or file_texts(net)).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(s)


def desc(net):
    mm = net["mm"]
    return "%d driving links, %d routes, %d stops, %d bus links, %d walking " \
        "links, %d transit paths, %d park-and-ride paths; scalar %s, dt %ss," \
        " %d x %d intervals, total %d; capacity %s; buses %s; passengers %s" \
        % (len(net["links"]), len(mm["routes"]), len(mm["stops"]),
           len(mm["blinks"]), len(mm["walks"]), len(mm["tpaths"]),
           len(mm["ppaths"]), net["flow_scalar"], net["unit_time"],
           net["assign_frq"], net["max_interval"], net["total_interval"],
           mm["param"]["bus_capacity"], [r[2:] for r in mm["bus_demand"]][:2],
           mm["transit_demand"][:2])


def shrink(net):
    """Smaller multimodal networks: less demand, fewer modes."""
    def cand(f):
        n = copy.deepcopy(net)
        f(n)
        return n if n != net and n["demand"] else None

    fs = []
    mm = net["mm"]
    for key, col in (("bus_demand", 3), ("pnr_demand", 2),
                     ("transit_demand", 2), (None, 2)):
        rows = net["demand"] if key is None else mm[key]

        def get(n, key=key):
            return n["demand"] if key is None else n["mm"][key]
        for k in range(len(rows)):
            if any(rows[k][col]):
                fs.append(lambda n, k=k, get=get, col=col: get(n)[k]
                          .__setitem__(col, [0.0] * len(get(n)[k][col])))
                fs.append(lambda n, k=k, get=get, col=col: get(n)[k]
                          .__setitem__(col, [float(int(v / 2)) for v in
                                             get(n)[k][col]]))
    lo = net["max_interval"] * net["assign_frq"]
    if net["total_interval"] > lo:
        fs.append(lambda n: n.__setitem__("total_interval", lo))
    if net["flow_scalar"] != 1:
        fs.append(lambda n: n.__setitem__("flow_scalar", 1))
    for f in fs:
        c = cand(f)
        if c is not None:
            yield c
