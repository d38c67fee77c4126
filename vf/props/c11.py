import math
import os

from .. import netgen
from ..common import LONGEST, NetCheck, labels

INF = math.inf


def up(x):
    """Whole intervals a travel time takes (at least one)."""
    if x < 1:
        return 1
    n = int(x)
    return n if abs(x - n) <= 1e-4 * max(x, n) else n + 1


def best(links, nodes, cost, tt, M, dest):
    """dist[t][node]: least cost to dest over all walks (dynamic program)."""
    d = [None] * M
    last = {n: INF for n in nodes}
    last[dest] = 0.0
    for _ in nodes:
        for i, a, b in links:
            last[a] = min(last[a], cost[i][M - 1] + last[b])
    d[M - 1] = last
    for t in range(M - 2, -1, -1):
        x = {n: INF for n in nodes}
        x[dest] = 0.0
        for i, a, b in links:
            y = cost[i][t] + d[min(t + up(tt[i][t]), M - 1)][b]
            if y < x[a]:
                x[a] = y
        d[t] = x
    return d


def follow(path, cost, tt, M, t, turn=None):
    """(cost, travel time) of a list of links entered from interval t on."""
    c = x = 0.0
    prev = None
    for i in path:
        if turn is not None and prev is not None and (prev, i) in turn:
            y = turn[prev, i][t]
            x += y
            t = min(t + math.ceil(y), M - 1)
        c += cost[i][t]
        x += tt[i][t]
        t = min(t + up(tt[i][t]), M - 1)
        prev = i
    return c, x


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


class Check(NetCheck):
    id = "C11"
    quick_n = 8000
    thorough_n = 150000
    rule = ("three kinds of cases: random graphs (cycles, parallel links, "
            "unreachable nodes) with random time-dependent costs and travel "
            "times given as arrays or files, sequences of cost updates, "
            "trees and extractions against dynamic programming and against "
            "all simple paths; the same with turn costs; and simulations "
            "followed by lowest-cost path queries; non-trivial: some query "
            "has two or more simple paths and the answer depends on the "
            "departure interval or is not the path with fewest links; "
            "distinct by the answers")
    assumptions = NetCheck.assumptions + [
        "costs are nonnegative and travel times positive; a travel time "
        "counts as whole intervals rounded up; from the last interval on "
        "costs stay as in the last interval"]

    def gen(self, rng, i, tier):
        kind = "sim" if i % 4 == 3 else "turn" if i % 4 == 2 else "graph"
        if kind == "sim":
            net = netgen.gen_net(rng, dict(
                multiclass=True, routing=["Hybrid"], max_veh=40, min_core=3,
                max_core=6, dense=1, acyclic=rng.random() < 0.7,
                demand_level=[0.6, 2.0, 4.0]))
            netgen.add_tolls(rng, net)
            return dict(kind=kind, net=net,
                        at=[rng.random() for _ in range(4)])
        n = rng.randint(2, 7)
        ids = rng.sample(range(1, 60), n)
        if rng.random() < 0.2:
            ids[0] = 0
        links = []
        for k in range(rng.randint(1, 3 * n)):
            a, b = rng.sample(ids, 2)
            links.append([a, b])
        lid = rng.sample(range(0, 200), len(links))
        links = [[x] + l for x, l in zip(lid, links)]
        M = rng.choice([1, 2, 3, 5, 8, 12, 20])
        steps = []
        for _ in range(rng.randint(1, 3)):
            costs, tts = [], []
            flat = rng.random() < 0.2
            for l in links:
                lo = rng.choice([0.25, 1, 1, 2, 4])
                tt = [rng.choice([0.25, 0.5, 1, 1, 2, 2.5, 3, 1.75]) * lo
                      for _ in range(M)]
                c = rng.random()
                if c < 0.4:
                    co = [2 * x for x in tt]
                elif c < 0.9:
                    co = [rng.choice([0, 0.5, 1, 2, 3, 5, 8, 13.25])
                          for _ in range(M)]
                else:
                    co = [rng.choice([1, 4, "inf"]) for _ in range(M)]
                if flat:
                    tt, co = [tt[0]] * M, [co[0]] * M
                costs.append(co)
                tts.append(tt)
            q = [[rng.choice(ids), [[rng.choice(ids), rng.randrange(M)]
                                    for _ in range(rng.randint(1, 5))]]
                 for _ in range(rng.randint(1, 3))]
            steps.append(dict(cost=costs, tt=tts, query=q,
                              txt=rng.random() < 0.3))
        c = dict(kind=kind, links=links, M=M, steps=steps)
        if kind == "turn":
            pairs = [[x[0], y[0]] for x in links for y in links
                     if x[2] == y[1]]
            rng.shuffle(pairs)
            c["turns"] = pairs[:rng.randint(1, 6)]
            c["mode"] = rng.choice(["zero", "cost", "both"])
            for s in steps:
                s["tcost"] = [[0 if c["mode"] == "zero" else
                               rng.choice([0, 1, 3, 7.5]) for _ in range(M)]
                              for _ in c["turns"]]
                s["ttt"] = [[rng.choice([0, 0, 0.5, 1, 2])
                             if c["mode"] == "both" else 0 for _ in range(M)]
                            for _ in c["turns"]]
            if not c["turns"]:
                c["kind"] = "graph"
        return c

    def run(self, case, ctx):
        return self.sim(case, ctx) if case["kind"] == "sim" \
            else self.graph(case, ctx)

    # ------------------------------------------------------------------
    def graph(self, case, ctx):
        import numpy as np
        import _macposts_ext as ext
        links, M = [tuple(l) for l in case["links"]], case["M"]
        nodes = sorted({x for l in links for x in l[1:]})
        ends = {i: (a, b) for i, a, b in links}
        d = ctx.newdir()
        with open(os.path.join(d, "config.conf"), "w") as f:
            f.write("[Network]\nnetwork_name = G\nnum_of_link = %d\n"
                    % len(links))
        with open(os.path.join(d, "G"), "w") as f:
            f.write("".join("%d %d %d\n" % l for l in links))
        turns = case.get("turns") if case["kind"] == "turn" else None
        x = ext.Tdsp()
        x.initialize(d, M, len(links), len(turns) if turns else -1)
        v = []
        nt = False
        sig = []
        for st in case["steps"]:
            cost = {l[0]: [float(c) for c in row]
                    for l, row in zip(links, st["cost"])}
            tt = {l[0]: row for l, row in zip(links, st["tt"])}
            A = [[i] + tt[i] for i in ends]
            B = [[i] + cost[i] for i in ends]
            C = [[ends[p[0]][1]] + p + r
                 for p, r in zip(turns or [], st.get("ttt", []))]
            D = [[ends[p[0]][1]] + p + r
                 for p, r in zip(turns or [], st.get("tcost", []))]
            if st["txt"]:
                for n, rows in (("td_link_tt", A), ("td_link_cost", B),
                                ("td_node_tt", C), ("td_node_cost", D)):
                    with open(os.path.join(d, n), "w") as f:
                        f.write("header\n" + "".join(
                            " ".join("%.10g" % y for y in r) + "\n"
                            for r in rows))
                x.read_td_cost_txt(d, "td_link_tt", "td_node_tt",
                                   "td_link_cost", "td_node_cost")
            else:
                z = np.zeros((1, M + 3))
                x.read_td_cost_py(np.array(A, dtype=float),
                                  np.array(B, dtype=float),
                                  np.array(C, dtype=float) if C else z,
                                  np.array(D, dtype=float) if D else z)
            for dest, qs in st["query"]:
                if dest not in nodes:
                    continue
                x.build_tdsp_tree(dest)
                ref = best(links, nodes, cost, tt, M, dest)
                for o, t in qs:
                    if o not in nodes:
                        continue
                    r = np.asarray(x.extract_tdsp(o, t))
                    got = float(r[0, 2])
                    sig.append(round(got, 6) if got < INF else -1)
                    what = "from %d to %d at %d" % (o, dest, t)
                    want = ref[t][o]
                    zero = turns and case["mode"] != "cost" \
                        and case["mode"] != "both"
                    if not turns or zero:
                        if not close(got, want):
                            v.append("%s: cost %.9g, the least is %.9g"
                                     % (what, got, want))
                            continue
                    elif case["mode"] == "cost" and got < want \
                            and not close(got, want):
                        v.append("%s: cost %.9g with turn costs, %.9g "
                                 "without" % (what, got, want))
                    if want == INF:
                        if got != INF:
                            v.append("%s: not connected, but cost %g"
                                     % (what, got))
                        continue
                    if got == INF:
                        continue
                    ns = [int(y) for y in r[:, 0]]
                    ls = [int(y) for y in r[:-1, 1]]
                    if ns[0] != o or ns[-1] != dest or len(ls) != len(ns) - 1 \
                            or any(i not in ends or ends[i] != (a, b)
                                   for i, a, b in zip(ls, ns, ns[1:])):
                        v.append("%s: nodes %s and links %s are no way there"
                                 % (what, ns, ls))
                        continue
                    tm = {tuple(p): q for p, q in zip(turns, st["ttt"])} \
                        if turns else None
                    c, y = follow(ls, cost, tt, M, t, tm)
                    # (turns at a revisited source are not counted)
                    if not (turns and ns.count(o) > 1) \
                            and not close(y, float(r[0, 3])):
                        v.append("%s: travel time %.9g, links %s add up to "
                                 "%.9g" % (what, r[0, 3], ls, y))
                    if (not turns or zero) and not close(c, got):
                        v.append("%s: cost %.9g, but links %s cost %.9g"
                                 % (what, got, ls, c))
                    if not turns:
                        sp = simple(ends, o, dest)
                        for p in sp:
                            pc = follow(p, cost, tt, M, t)[0]
                            if pc < got and not close(pc, got):
                                v.append("%s: cost %.9g, but links %s cost "
                                         "%.9g" % (what, got, p, pc))
                                break
                        if len(sp) > 1 and (
                                len(ls) > min(map(len, sp))
                                or len({ref[s][o] for s in range(M)}) > 1):
                            nt = True
                    else:
                        nt = nt or len(ls) > 1
        return dict(viol=v[:5], nt=nt, key=str(hash(tuple(sig)))
                    + str(hash(tuple(links))), labels=[case["kind"]],
                    count=dict(queries=len(sig)),
                    sample="%s: links %s, %d intervals" % (
                        case["kind"], links[:6], M))

    # ------------------------------------------------------------------
    def sim(self, case, ctx):
        from .. import sim, tt as ttm
        from .c05 import length
        import numpy as np
        net = case["net"]
        dt = net["unit_time"]
        H = net["assign_frq"] * net["max_interval"]
        m = sim.start(net, ctx.newdir())
        m.run_whole(False)
        o = sim.observe_mcdta(net, m)
        m.build_link_cost_map(False)
        m.update_tdsp_tree()
        vot = (net.get("vot") if net.get("vot") is not None else 20.0) \
            / 3600.0 * dt
        tolls = {i: y for i, y in net.get("tolls", [])}
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        tt, cost = {}, {}
        for l in net["links"]:
            i = l["id"]
            ff = float(m.get_car_link_fftt(np.array([i], dtype=np.int32))[0])
            R = ttm.Link(o.raw_in["car"][i], o.raw_out["car"][i], T, ff / dt,
                         length(l, dt, True) * 3600.0 / l["ffs"], dt)
            tt[i] = [R.tt(float(min(t, T - 1))) for t in range(H)]
            cost[i] = [y * vot + tolls.get(i, [0.0])[0] for y in tt[i]]
        links = [(l["id"], l["from"], l["to"]) for l in net["links"]]
        nodes = [x["id"] for x in net["nodes"]]
        ends = {i: (a, b) for i, a, b in links}
        om, dm = (dict(map(tuple, net[k])) for k in ("origins", "dests"))
        ps = [p["nodes"] for p in net["paths"]]
        v = []
        nt = False
        sig = []
        trees = {}
        for a in om.values():
            for b in dm.values():
                mine = [p for p in ps if p[0] == a and p[-1] == b]
                if not mine:
                    continue
                if b not in trees:
                    trees[b] = best(links, nodes, cost, tt, H, b)
                for f in case["at"]:
                    t = int(f * (H - net["assign_frq"] + 1))
                    r = np.asarray(m.get_lowest_cost_path(t, a, b))
                    want = trees[b][t][a]
                    what = "from %d to %d at %d" % (a, b, t)
                    ns = [int(y) for y in r[2]]
                    ls = [int(y) for y in r[3][:-1]]
                    sig.append((round(want, 6), tuple(ns)))
                    if not math.floor(want - 1e-6) <= int(r[1, 0]) \
                            <= math.floor(want + 1e-6):
                        v.append("%s: cost %d, the least is %.9g"
                                 % (what, r[1, 0], want))
                    if ns[0] != a or ns[-1] != b or any(
                            i not in ends or ends[i] != (x, y)
                            for i, x, y in zip(ls, ns, ns[1:])):
                        v.append("%s: nodes %s and links %s are no way there"
                                 % (what, ns, ls))
                        continue
                    if len(set(ns)) != len(ns):
                        v.append("%s: %s has a cycle" % (what, ns))
                    if bool(r[0, 0]) != (ns in mine):
                        v.append("%s: %s reported as %s the path table"
                                 % (what, ns, "in" if r[0, 0] else "not in"))
                    c = follow(ls, cost, tt, H, t)[0]
                    if net["acyclic"] and not close(c, want):
                        v.append("%s: links %s cost %.9g, the least is %.9g"
                                 % (what, ls, c, want))
                    if len(simple(ends, a, b)) > 1:
                        nt = True
        return dict(viol=v[:5], nt=nt, key=str(hash(tuple(sig))),
                    labels=labels(net, ["sim"]),
                    count=dict(queries=len(sig)), sample=sim.desc(net))

    def shrink(self, case):
        if case["kind"] == "sim":
            yield from super().shrink(case)
            return
        for k in range(len(case["steps"])):
            if len(case["steps"]) > 1:
                yield dict(case, steps=case["steps"][:k]
                           + case["steps"][k + 1:])
        for k, s in enumerate(case["steps"]):
            for j in range(len(s["query"])):
                q = s["query"][:j] + s["query"][j + 1:]
                if q:
                    yield dict(case, steps=case["steps"][:k]
                               + [dict(s, query=q)] + case["steps"][k + 1:])
            for j, (d, qs) in enumerate(s["query"]):
                for i in range(len(qs)):
                    if len(qs) > 1:
                        q = list(s["query"])
                        q[j] = [d, qs[:i] + qs[i + 1:]]
                        yield dict(case, steps=case["steps"][:k]
                                   + [dict(s, query=q)]
                                   + case["steps"][k + 1:])
        if len(case["links"]) > 1 and case["kind"] == "graph":
            for k in range(len(case["links"])):
                yield dict(
                    case, links=case["links"][:k] + case["links"][k + 1:],
                    steps=[dict(s, cost=s["cost"][:k] + s["cost"][k + 1:],
                                tt=s["tt"][:k] + s["tt"][k + 1:])
                           for s in case["steps"]])


def simple(ends, o, d, limit=300):
    """Simple paths o -> d as lists of links."""
    adj = {}
    for i, (a, b) in ends.items():
        adj.setdefault(a, []).append((i, b))
    out = []
    stack = [([], [o])]
    while stack and len(out) < limit:
        ls, ns = stack.pop()
        if ns[-1] == d:
            out.append(ls)
            continue
        for i, b in adj.get(ns[-1], []):
            if b not in ns:
                stack.append((ls + [i], ns + [b]))
    return out


CHECK = Check()
