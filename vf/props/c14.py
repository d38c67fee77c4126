import os

from .. import netgen
from ..common import NetCheck, labels


def read_lines(d, name):
    with open(os.path.join(d, name)) as f:
        return [x.split() for x in f.read().split("\n") if x.strip()]


def group(rows):
    g = {}
    for r in rows:
        g.setdefault((r[0], r[-1]), []).append(r)
    return g


class Check(NetCheck):
    id = "C14"
    quick_n = 9000
    thorough_n = 150000
    opts = dict(min_core=2, max_core=6, dense=1, routing=["Hybrid"],
                demand_level=[0.5], paths_per_od=[1, 1, 2, 3])
    rule = ("random networks; path sets generated for both models: complete "
            "sets by penalised shortest paths against an independent replay "
            "of the procedure, and paths added to cover any choice of "
            "registered or given links against reachability; read back from "
            "the files and loaded again; non-trivial: some O-D pair gets two "
            "or more paths, or a path is added; distinct by the paths")
    assumptions = NetCheck.assumptions + [
        "which shortest path is taken among equally cheap ones, and which "
        "O-D pair gets a covering path, is not specified",
        "every O-D pair with demand has at least one path in the table"]

    def pick(self, rng, i):
        o = super().pick(rng, i)
        if i % 3 != 1:
            o["multiclass"] = True
        o["acyclic"] = rng.random() < 0.5
        return o

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        net = c["net"]
        c["kind"] = ["gen", "cover", "links"][i % 3]
        ids = [l["id"] for l in net["links"]]
        rng.shuffle(ids)
        if c["kind"] == "gen":
            netgen.add_tolls(rng, net)
            c["arg"] = [rng.choice([0, 1, 2, 3, 6]),
                        rng.choice([0.001, 0.01, 0.1, 1.0]),
                        rng.choice([0.5, 1.0, 1.2, 2.0, 3.0]),
                        rng.choice([1.0, 1.5, 4.0, 20.0]),
                        rng.choice([0, 0, 0, 3000.0, 4000.0, 6000.0])]
        c["reg"] = ids[:rng.randint(1, len(ids))]
        n = len(net["paths"])
        c["paths"] = sorted(rng.sample(range(n), rng.choice(
            [n, n, rng.randint(0, n)])))
        if rng.random() < 0.3:
            rng.shuffle(c["paths"])
        c["iter"] = rng.choice([1, 2, 5])
        c["ask"] = rng.sample(ids, rng.randint(1, len(ids)))
        return c

    def run(self, case, ctx):
        net = case["net"]
        if case["kind"] == "gen":
            if not net["multiclass"]:
                return dict(viol=[], nt=False, key="x")
            return self.sets(case, ctx)
        return self.cover(case, ctx)

    # ------------------------------------------------------------------
    def sets(self, case, ctx):
        import numpy as np
        from .. import sim, tt
        from .c05 import length
        net = case["net"]
        dt, sc = net["unit_time"], net["flow_scalar"]
        d = ctx.newdir()
        m = sim.start(net, d)
        out = ctx.newdir()
        it, vot, mid, heavy, minlen = case["arg"]
        os.makedirs(out, exist_ok=True)
        m.generate_shortest_pathsets(out, it, vot, mid, heavy, minlen)
        got = [[int(y) for y in r] for r in read_lines(out, "path_table")]
        buf = read_lines(out, "path_table_buffer")
        v = []
        B = 2 * net["max_interval"]
        if len(buf) != len(got) or any(
                len(r) != B or any(float(y) for y in r) for r in buf):
            v.append("path_table_buffer does not hold %d rows of %d zeros"
                     % (len(got), B))
        ln = {(l["from"], l["to"]): l["id"] for l in net["links"]}
        par = len(ln) < len(net["links"])
        om, dm = (dict(map(tuple, net[k])) for k in ("origins", "dests"))
        ods = {(om[r[0]], dm[r[1]]) for r in net["demand"]}
        g = group([tuple(r) for r in got])
        for (a, b), ps in g.items():
            if (a, b) not in ods:
                v.append("paths for %d-%d, which has no demand" % (a, b))
            if len(set(ps)) != len(ps) and not par:
                v.append("%d-%d: a path twice: %s" % (a, b, ps))
            for p in ps:
                if any(x not in ln for x in zip(p, p[1:])) \
                        or len(set(p)) != len(p):
                    v.append("%d-%d: %s is no path" % (a, b, p))
        base = {i["id"]: tt.fd_seconds_mc(i, 0.0, dt, sc)
                for i in net["links"]}
        toll = {i: x[0] for i, x in net.get("tolls", [])}
        leng = {l["id"]: length(l, dt, True) * 1600.0 for l in net["links"]}
        al = {x: netgen.simple_paths(net, *x, limit=400) for x in ods}
        tie = par or any(len(x) >= 400 for x in al.values())

        def cost(scale, used):
            return {i: vot * y * (scale if i in used else 1.0)
                    + toll.get(i, 0.0) for i, y in base.items()}

        def cheapest(od, c):
            nonlocal tie
            x = sorted((sum(c[ln[e]] for e in zip(p, p[1:])), p)
                       for p in al[od])
            if len(x) > 1 and x[1][0] - x[0][0] <= 1e-7 * (1 + x[0][0]):
                tie = True
            return tuple(x[0][1])

        def links(p):
            return [ln[e] for e in zip(p, p[1:])]

        def longer(p):
            nonlocal tie
            x = sum(leng[i] for i in links(p))
            if abs(x - minlen) < 1e-3:
                tie = True
            return x > minlen
        want = {x: [] for x in ods}
        if not tie:
            c = cost(1.0, ())
            for x in ods:
                p = cheapest(x, c)
                if longer(p):
                    want[x].append(p)
            for _ in range(it):
                u = {i for ps in want.values() for p in ps for i in links(p)}
                cm, ch = cost(mid, u), cost(heavy, u)
                for x in ods:
                    for s, cc in ((mid, cm), (heavy, ch)):
                        if s > 1:
                            p = cheapest(x, cc)
                            if p not in want[x] and longer(p):
                                want[x].append(p)
        if not tie:
            for x in ods:
                if g.get(x, []) != want[x]:
                    v.append("%d-%d: paths %s, expected %s" % (
                        x + (g.get(x, []), want[x])))
        elif minlen == 0:
            for x in ods:
                if not g.get(x):
                    v.append("%d-%d: no path" % x)
        # the files are a valid input
        if not v and got:
            n2 = dict(net, paths=[dict(nodes=p, buffer=[0] * B) for p in got])
            d2 = ctx.newdir()
            tx = netgen.file_texts(n2)
            for f in ("path_table", "path_table_buffer"):
                with open(os.path.join(out, f)) as h:
                    tx[f] = h.read()
            netgen.write_net(n2, d2, tx)
            import macposts
            m2 = macposts.Mcdta.from_files(d2)
            m2.register_links()
            m2.register_paths(np.arange(len(got), dtype=np.int32))
            self.coverage(net, m2, [l["id"] for l in net["links"]], got, ln,
                          v, par, True)
        return dict(viol=v[:4], nt=any(len(x) > 1 for x in g.values()),
                    key=str(hash(tuple(sorted(map(tuple, got))))),
                    labels=labels(net, ["gen"] + (["tie"] if tie else [])),
                    count=dict(paths=len(got)),
                    sample="%s: %s" % (case["arg"], got[:3]))

    def coverage(self, net, m, reg, paths, ln, v, par, ordered):
        """Reported coverage of *reg* by *paths* (node lists)."""
        import numpy as np
        reg = [int(i) for i in m.registered_links]
        rows = [[int(i in [ln[e] for e in zip(p, p[1:])]) for i in reg]
                for p in paths]
        have = [any(r[k] for r in rows) for k in range(len(reg))]
        if not par:
            a = [bool(x) for x in m.are_registered_links_in_registered_paths()]
            if a != have:
                v.append("links %s covered: %s, expected %s" % (reg, a, have))
            if net["multiclass"] and rows:
                b = np.asarray(
                    m.get_registered_links_coverage_in_registered_paths())
                b = b.tolist()
                if (b != rows) if ordered else (sorted(b) != sorted(rows)):
                    v.append("coverage matrix %s, expected %s" % (b, rows))
        return have

    # ------------------------------------------------------------------
    def cover(self, case, ctx):
        import numpy as np
        from .. import sim
        net = case["net"]
        multi = net["multiclass"]
        v = []
        d = ctx.newdir()
        ids = [l["id"] for l in net["links"]]
        reg = [i for i in case["reg"] if i in ids] or ids[:1]
        ask = [i for i in case["ask"] if i in ids] or ids[:1]
        sel = [k for k in case["paths"] if k < len(net["paths"])]
        ln = {(l["from"], l["to"]): l["id"] for l in net["links"]}
        if len(ln) < len(ids):
            return dict(viol=[], nt=False, key="parallel")
        m = sim.start(net, d, registered=reg)
        if sel:
            m.register_paths(np.array(sel, dtype=np.int32))
        mine = [net["paths"][k]["nodes"] for k in sel]
        have = self.coverage(net, m, reg, mine, ln, v, False, True)
        reg = [int(i) for i in m.registered_links]
        om, dm = (dict(map(tuple, net[k])) for k in ("origins", "dests"))
        ods = {(om[r[0]], dm[r[1]]) for r in net["demand"]}
        R = {n["id"]: netgen.reach(net, n["id"]) for n in net["nodes"]}
        can = {l["id"]: any(l["from"] in R[a] and b in R[l["to"]]
                            for a, b in ods) for l in net["links"]}
        before = [open(os.path.join(d, f)).read()
                  for f in ("path_table", "path_table_buffer")]
        kind = case["kind"] if multi else "cover"
        if kind == "cover":
            try:
                r = [int(x) for x in
                     m.generate_paths_to_cover_registered_links()]
            except RuntimeError as e:
                if multi or all(can[i] for i in reg):
                    v.append("refused (%s), links %s are all reachable"
                             % (e, reg))
                return dict(viol=v, nt=False, key=str(reg),
                            labels=labels(net, ["uncoverable"]))
            if r[0] != int(not all(have)):
                v.append("updated: %d, though links %s covered: %s"
                         % (r[0], reg, have))
        else:
            r = [int(x) for x in m.generate_paths_to_cover_links(
                np.array(ask, dtype=np.int32), case["iter"])]
        after = [open(os.path.join(d, f)).read()
                 for f in ("path_table", "path_table_buffer")]
        got = [tuple(map(int, x)) for x in read_lines(d, "path_table")]
        buf = [[float(y) for y in x]
               for x in read_lines(d, "path_table_buffer")]
        if kind == "cover" and all(have):
            if after != before:
                v.append("files rewritten though nothing was to do")
            return dict(viol=v, nt=False, key=str(reg),
                        labels=labels(net, ["covered"]))
        if len(got) != len(buf):
            v.append("%d paths, %d buffers" % (len(got), len(buf)))
        B = net["max_interval"] * (2 if multi else 1)
        old = group([tuple(p["nodes"]) for p in net["paths"]])
        ob = group([tuple(p["nodes"]) + tuple(float("%f" % y)
                                              for y in p["buffer"])
                    + (p["nodes"][-1],) for p in net["paths"]])
        g = group(got)
        gb = group([tuple(p) + tuple(b) + (p[-1],)
                    for p, b in zip(got, buf)])
        new = []
        for od in set(old) | set(g):
            a, b = old.get(od, []), g.get(od, [])
            if b[:len(a)] != a:
                v.append("%s: paths %s became %s" % (od, a, b))
                continue
            if ob.get(od, []) != gb.get(od, [])[:len(a)]:
                v.append("%s: buffers %s became %s" % (
                    od, ob.get(od), gb.get(od)))
            new += b[len(a):]
            for x, y in zip(b[len(a):], gb.get(od, [])[len(a):]):
                if y[len(x):-1] != (0.0,) * B:
                    v.append("new path %s has buffer %s" % (x, y[len(x):-1]))
            if kind == "links" and len(set(b)) != len(b):
                if len(set(a)) == len(a):
                    v.append("%s: a path twice: %s" % (od, b))
            if b[len(a):] and od not in ods:
                v.append("path added for %s without demand" % (od,))
        bad = False
        for p in new:
            if any(e not in ln for e in zip(p, p[1:])):
                v.append("added %s is no path" % (p,))
                bad = True
        if not bad:
            L = [{ln[e] for e in zip(p, p[1:])} for p in new]
            if kind == "cover":
                miss = {i for i, h in zip(reg, have) if not h}
                for p, x in zip(new, L):
                    if not x & miss:
                        v.append("added %s covers none of %s" % (p, miss))
                for i, h, f in zip(reg, have, r[1:]):
                    w = h or any(i in x for x in L)
                    if bool(f) != w:
                        v.append("link %d reported as %scovered"
                                 % (i, "" if f else "not "))
                    if can[i] and not w:
                        v.append("link %d is not covered" % i)
                if len(r) != len(reg) + 1:
                    v.append("%d flags for %d links" % (len(r), len(reg)))
            else:
                al = [{ln[e] for e in zip(p, p[1:])} for p in got]
                for i, f in zip(ask, r):
                    n = sum(i in x for x in L)
                    if f != n:
                        v.append("link %d: %d paths reported, %d added"
                                 % (i, f, n))
                    if can[i] and not any(i in x for x in al):
                        v.append("link %d is not covered" % i)
                if len(new) > len(ask) * case["iter"]:
                    v.append("%d paths added" % len(new))
            self.coverage(net, m, reg, [list(p) for p in mine]
                          + [list(p) for p in new], ln, v, False, False)
        return dict(viol=v[:4], nt=bool(new), key=str(hash(tuple(
            sorted(got)))), labels=labels(net, [kind]),
            count=dict(paths=len(new)),
            sample="%s: %s added %s" % (kind, r, new[:3]))


CHECK = Check()
