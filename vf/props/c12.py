"""Graph: random operation histories against a dictionary model."""


class Check:
    id = "C12"
    quick_n = 20000
    thorough_n = 400000
    batch = 250
    rule = ("random histories of 5 to 120 operations (adding nodes and links "
            "with arbitrary IDs, valid and invalid, and asking everything), "
            "each compared with a dictionary model after every step that "
            "asks and completely at the end; non-trivial: parallel or "
            "opposite links exist and an invalid operation was refused; "
            "distinct by history")
    assumptions = ["the order of returned lists is not specified"]

    def gen(self, rng, i, tier):
        n = rng.choice([5, 20, 60, 120])
        ids = rng.choice([lambda: rng.randint(0, 6),
                          lambda: rng.randint(-40, 40),
                          lambda: rng.choice([0, -1, 2 ** 31 - 1, -2 ** 31,
                                              7, 1000003]),
                          lambda: rng.randint(-2 ** 31, 2 ** 31 - 1)])
        known, lids = [], []
        ops = []

        def pick():
            if known and rng.random() < 0.93:
                if rng.random() < 0.4:
                    return known[rng.randrange(min(3, len(known)))]
                return rng.choice(known)
            return ids()
        for _ in range(n):
            c = rng.random()
            if c < 0.3:
                x = ids()
                known.append(x)
                ops.append(["node", x])
            elif c < 0.75:
                l = ids() if rng.random() < 0.8 or not lids \
                    else rng.choice(lids)
                lids.append(l)
                ops.append(["link", pick(), pick(), l])
            elif c < 0.85:
                ops.append(["ask", pick()])
            elif c < 0.92:
                ops.append(["asklink", rng.choice(lids) if lids else ids()])
            elif c < 0.96:
                ops.append(["hold", pick(), rng.choice(lids) if lids
                            else ids()])
            else:
                ops.append(["all"])
        return dict(ops=ops)

    def run(self, case, ctx):
        import macposts
        from macposts.graph import Graph, Direction
        g = Graph()
        nodes, links = [], {}
        held = []
        v = []
        refused = 0

        def fails(f, *kinds):
            try:
                f()
            except kinds:
                return True
            return False

        def eq(what, got, want):
            if got != want:
                v.append("%s: %s, should be %s" % (what, got, want))

        def node(x):
            if x not in nodes:
                for f in (lambda: g.get_node(x),
                          lambda: g.neighbors(x, Direction.Outgoing),
                          lambda: g.connections(x, Direction.Incoming)):
                    if not fails(f, IndexError):
                        v.append("no IndexError for unknown node %d" % x)
                return
            eq("get_id(get_node(%d))" % x, g.get_id(g.get_node(x)), x)
            for d, a, b in ((Direction.Outgoing, 0, 1),
                            (Direction.Incoming, 1, 0)):
                ls = [i for i, e in links.items() if e[a] == x]
                eq("connections of %d %s" % (x, d.name),
                   sorted(g.connections(x, d)), sorted(ls))
                eq("neighbors of %d %s" % (x, d.name),
                   sorted(g.neighbors(x, d)),
                   sorted({links[i][b] for i in ls}))

        def link(l):
            if l not in links:
                for f in (lambda: g.get_link(l), lambda: g.get_endpoints(l)):
                    if not fails(f, IndexError):
                        v.append("no IndexError for unknown link %d" % l)
                return
            eq("get_id(get_link(%d))" % l, g.get_id(g.get_link(l)), l)
            eq("endpoints of %d" % l, tuple(g.get_endpoints(l)), links[l])

        def whole():
            eq("size_nodes", g.size_nodes, len(nodes))
            eq("size_links", g.size_links, len(links))
            eq("nodes", sorted(g.nodes()), sorted(nodes))
            eq("links", sorted(g.links()), sorted(links))
            for x in nodes:
                node(x)
            for l in links:
                link(l)
            for o, want in held:
                eq("ID of an object held since earlier", g.get_id(o), want)

        for op in case["ops"]:
            if op[0] == "node":
                x = op[1]
                if x in nodes:
                    refused += 1
                    if not fails(lambda: g.add_node(x), RuntimeError):
                        v.append("node %d added twice" % x)
                else:
                    g.add_node(x)
                    nodes.append(x)
            elif op[0] == "link":
                a, b, l = op[1:]
                if a not in nodes or b not in nodes:
                    refused += 1
                    if not fails(lambda: g.add_link(a, b, l), IndexError):
                        v.append("link %d added between unknown nodes" % l)
                elif l in links or a == b:
                    refused += 1
                    if not fails(lambda: g.add_link(a, b, l), RuntimeError):
                        v.append("duplicate or self-loop link %d added" % l)
                else:
                    g.add_link(a, b, l)
                    links[l] = (a, b)
                eq("size_links", g.size_links, len(links))
            elif op[0] == "ask":
                node(op[1])
            elif op[0] == "asklink":
                link(op[1])
            elif op[0] == "hold":
                if op[1] in nodes:
                    held.append((g.get_node(op[1]), op[1]))
                if op[2] in links:
                    held.append((g.get_link(op[2]), op[2]))
            else:
                whole()
            if v:
                break
        if not v:
            whole()
        if macposts.Graph is not Graph:
            v.append("macposts.Graph is another class")
        # objects taken out of a graph stay valid without it
        g2, g = g, Graph()
        del g2
        for o, want in held:
            eq("ID of an object whose graph is gone", g.get_id(o), want)
        es = [tuple(sorted(e)) for e in links.values()]
        return dict(viol=v[:5], nt=refused > 0 and len(set(es)) < len(es),
                    key=str(case["ops"])[:4000],
                    labels=["%d+ links" % (10 * (len(links) // 10))],
                    sample=str(case["ops"][:12]))

    def shrink(self, case):
        ops = case["ops"]
        k = len(ops) // 2
        while k >= 1:
            for s in range(0, len(ops), k):
                yield dict(ops=ops[:s] + ops[s + k:])
            k //= 2


CHECK = Check()
