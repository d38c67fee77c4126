import hashlib

from .c18 import MMCheck

KINDS = (
    # name, kind of path, kind of link
    ("car_dar_matrix_driving", "d", "road"),
    ("truck_dar_matrix_driving", "d", "road"),
    ("car_dar_matrix_pnr", "p", "road"),
    ("bus_dar_matrix_driving_link", "b", "road"),
    ("bus_dar_matrix_bustransit_link", "b", "bus"),
    ("passenger_dar_matrix_bustransit", "t", "busfoot"),
    ("passenger_dar_matrix_pnr", "p", "busfoot"),
    ("car_dar_matrix_bus_driving_link", "d", "under"),
    ("truck_dar_matrix_bus_driving_link", "d", "under"),
    ("passenger_dar_matrix_bustransit_bus_link", "t", "bus"),
    ("passenger_dar_matrix_pnr_bus_link", "p", "bus"),
)


class Check(MMCheck):
    id = "C23"
    gen_opts = dict(demand_level=[0.2, 0.6], max_veh=40, max_pass=60)
    quick_n = 8000
    thorough_n = 80000
    rule = ("random multimodal networks, one full simulation each, then "
            "assignment records of every mode for random windows and subsets "
            "of registered links, compared with unit windows, link "
            "and bus flows, and the path tables; non-trivial: records of at "
            "least two modes; distinct by records")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        c["win"] = [[rng.random(), rng.random()]
                    for _ in range(rng.randint(1, 4))]
        c["order"] = rng.randrange(10 ** 6)
        c["all"] = rng.random() < 0.6
        return c

    def run(self, case, ctx):
        import random
        import numpy as np
        from .. import dar, mmgen, mmsim
        net = case["net"]
        mm, S = net["mm"], net["flow_scalar"]
        rng = random.Random(case["order"])

        def some(ids):
            ids = list(ids)
            rng.shuffle(ids)
            return ids if case["all"] or not ids else \
                ids[:rng.randint(1, len(ids))]

        arc = {(l["from"], l["to"]): l["id"] for l in net["links"]}
        nd, nt, npn = len(net["paths"]), len(mm["tpaths"]), len(mm["ppaths"])
        L = {}  # path -> links on the road, links on bus and foot
        kind = {}

        def road(nodes):
            return [arc[x] for x in zip(nodes, nodes[1:])]

        for i, p in enumerate(net["paths"]):
            L[i], kind[i] = (road(p["nodes"]), []), "d"
        for i, p in enumerate(mm["tpaths"]):
            L[nd + i], kind[nd + i] = ([], p["links"]), "t"
        for i, p in enumerate(mm["ppaths"]):
            k = nd + nt + i
            L[k], kind[k] = (road(p["nodes"]), p["links"]), "p"
        for i, r in enumerate(mm["routes"]):
            k = nd + nt + npn + i
            L[k] = (road(r["nodes"]), [b["id"] for b in mm["blinks"]
                                       if b["route"] == r["route"]])
            kind[k] = "b"
        # all paths of a mode or none can be registered
        reg = {k: [i for i in L if kind[i] == k] for k in "dtpb"}
        for k in "dtpb":
            rng.shuffle(reg[k])
        m = mmsim.start(net, ctx.newdir())
        links = dict(road=some(l["id"] for l in net["links"]),
                     bus=some(b["id"] for b in mm["blinks"]),
                     foot=some(w["id"] for w in mm["walks"]))
        m.register_links_driving(links["road"])
        m.register_links_bus(links["bus"])
        m.register_links_walking(links["foot"])
        under = sorted({i for b in mm["blinks"] for i in b["over"]})
        links["under"] = some(under)
        m.register_links_bus_driving(links["under"])
        links["busfoot"] = links["bus"] + links["foot"]
        m.register_paths_driving(reg["d"])
        m.register_paths_bustransit(reg["t"])
        if reg["p"]:
            m.register_paths_pnr(reg["p"])
        m.register_paths_bus(reg["b"])
        m.install_cc_tree()
        m.run_whole(False)
        o = mmsim.observe(net, m)
        T, N = o.T, o.N
        v = []
        win = []
        for a, b in case["win"]:
            a, b = sorted((int(a * T), int(b * T)))
            a = min(a, T - 1)
            win.append((a, max(b, a + 1)))
        h = hashlib.sha1()
        U = {}
        used = set()
        on = {n for _, n in net["origins"]}
        feed = {l["id"] for l in net["links"] if l["from"] in on}
        step, frq = 60 // net["unit_time"], net["assign_frq"]
        for name, k, lk in KINDS:
            if not reg[k]:
                continue
            f = getattr(m, "get_" + name)
            u = {}
            for p, a, l, s, x in np.asarray(f(
                    dar.i32(range(T)), dar.i32(range(1, T + 1)))
                    ).reshape(-1, 5):
                p, a, l = int(p), int(a), int(l)
                if p not in reg[k] or l not in links[lk]:
                    v.append("%s: record of path %d on link %d, not asked "
                             "for" % (name, p, l))
                elif l not in L[p][lk in ("bus", "busfoot")]:
                    v.append("%s: path %d has no link %d" % (name, p, l))
                else:
                    u.setdefault((p, a, l), np.zeros(T))[int(s)] += x
            for q, x in sorted(u.items()):
                h.update(repr((name, q)).encode())
                h.update(x.tobytes())
                if np.any(x < 0) or np.any(
                        np.abs(x * S - np.rint(x * S)) > 1e-6 * (1 + x * S)):
                    v.append("%s %s: not whole travellers: %s" % (
                        name, q, x[np.nonzero(x)][:5]))
            U[name] = u
            if u:
                used.add((name[:3], k))
            # windows add up unit windows
            got, want = {}, {}
            for p, a, l, s, x in np.asarray(f(
                    dar.i32(w[0] for w in win), dar.i32(w[1] for w in win))
                    ).reshape(-1, 5):
                got.setdefault((int(p), int(a), int(l), int(s)),
                               []).append(float(x))
            for (p, a, l), x in u.items():
                for s, e in win:
                    y = float(x[s:e].sum())
                    if y > 1e-9:
                        want.setdefault((p, a, l, s), []).append(y)
            for q in set(got) | set(want):
                g, w = sorted(got.get(q, [])), sorted(want.get(q, []))
                if len(g) != len(w) or any(abs(x - y) > 1e-6
                                           for x, y in zip(g, w)):
                    v.append("%s path %d, departure %d, link %d, window from "
                             "%d: records %s, unit windows add up to %s"
                             % ((name,) + q + (g, w)))
            # one after the other along the path, released in their minute
            by = {}
            for (p, a, l), x in u.items():
                by.setdefault((p, a), {})[l] = np.cumsum(x)
            for (p, a), ls in by.items():
                seq = L[p][lk in ("bus", "busfoot")]
                prev = None
                for j, l in enumerate(seq):
                    # no records of vehicles on the links origins feed
                    if l not in links[lk] or l in feed:
                        prev = None
                        continue
                    c = ls.get(l, np.zeros(T))
                    if prev is not None and np.any(c > prev + 1e-6):
                        t = int(np.argmax(c - prev))
                        v.append("%s path %d, departure %d: by interval %d "
                                 "%g on link %d, only %g on the link before"
                                 % (name, p, a, t, c[t], l, prev[t]))
                    prev = c
                    first = next((t for t in range(T) if c[t] > 1e-9), T)
                    if first < a * frq:
                        v.append("%s path %d, departure %d: on link %d in "
                                 "interval %d, before setting out" % (
                                     name, p, a, l, first))
                    if j == 0 and c[-1] > 1e-9 and k == "t":
                        for t in np.nonzero(ls[l] - np.concatenate(
                                ([0], ls[l][:-1])) > 1e-9)[0]:
                            if t % step or t // frq != a:
                                v.append("%s path %d, departure %d: on its "
                                         "first link %d in interval %d" % (
                                             name, p, a, l, t))
        # together the records of all paths are the flow
        if case["all"]:
            def total(names, l, flow, what):
                s = np.zeros(T)
                for n in names:
                    for (p, a, q), x in U.get(n, {}).items():
                        if q == l:
                            s += x
                d = np.abs(s - np.diff(flow))
                if np.any(d > 1e-6):
                    t = int(np.argmax(d))
                    v.append("link %d, interval %d: %g %s came, the records "
                             "of all paths give %g" % (
                                 l, t, flow[t + 1] - flow[t], what, s[t]))

            for l in net["links"]:
                i = l["id"]
                if i in feed:
                    continue
                total(("car_dar_matrix_driving", "car_dar_matrix_pnr"), i,
                      N["car_in", i], "cars")
                total(("truck_dar_matrix_driving",), i, N["truck_in", i],
                      "trucks")
            for b in mm["blinks"]:
                i = b["id"]
                total(("bus_dar_matrix_bustransit_link",), i,
                      N["from_out", i], "buses")
                for n in (("passenger_dar_matrix_bustransit",
                           "passenger_dar_matrix_pnr"),
                          ("passenger_dar_matrix_bustransit_bus_link",
                           "passenger_dar_matrix_pnr_bus_link")):
                    total(n, i, N["in", i], "riders")
            for w in mm["walks"]:
                total(("passenger_dar_matrix_bustransit",
                       "passenger_dar_matrix_pnr"), w["id"],
                      N["in", w["id"]], "walkers")
            for c in ("car", "truck"):
                for (p, a, l), x in U[c + "_dar_matrix_driving"].items():
                    y = U[c + "_dar_matrix_bus_driving_link"].get(
                        (p, a, l), np.zeros(T))
                    if l in under and np.any(np.abs(x - y) > 1e-6):
                        v.append("%s path %d on link %d: the records under "
                                 "the bus route differ" % (c, p, l))
        return dict(viol=v[:6], nt=len(used) > 1, key=h.hexdigest(),
                    labels=["scalar %s" % S] + sorted(
                        "%s %s" % q for q in used),
                    count=dict(records=sum(map(len, U.values()))),
                    sample=mmgen.desc(net))

    def shrink(self, case):
        for j in range(len(case["win"])):
            if len(case["win"]) > 1:
                c = dict(case)
                c["win"] = case["win"][:j] + case["win"][j + 1:]
                yield c
        yield from super().shrink(case)


CHECK = Check()
