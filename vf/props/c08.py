from .. import netgen
from ..common import LONGEST, NetCheck, ends, labels


class Check(NetCheck):
    id = "C08"
    env = {"MALLOC_PERTURB_": "0"}  # one call reserves 16 GB of address space
    quick_n = 9000
    thorough_n = 120000
    opts = dict(demand_level=[0.3, 0.8, 1.5, 3.0], routing=["Fixed", "Hybrid"],
                paths_per_od=[1, 2, 3])
    rule = ("random networks, one full simulation each, then assignment-"
            "ratio records for random windows and random subsets of "
            "registered links and paths, compared with unit windows, with "
            "link inflows and with the saved and the sparse matrix; "
            "non-trivial: ten or more non-zero records; distinct by records")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        net = c["net"]
        ids = [l["id"] for l in net["links"]]
        rng.shuffle(ids)
        c["reg"] = ids if rng.random() < 0.5 else ids[:rng.randint(1,
                                                                   len(ids))]
        ps = list(range(len(net["paths"])))
        c["paths"] = ps
        if rng.random() < 0.4:
            rng.shuffle(ps)
            c["paths"] = ps[:rng.randint(1, len(ps))]
        c["win"] = [[rng.random(), rng.random()]
                    for _ in range(rng.randint(1, 4))]
        c["complete"] = rng.random() < (0.5 if net["multiclass"] else 0.05)
        return c

    def run(self, case, ctx):
        from .. import sim, dar
        import os
        import numpy as np
        net = case["net"]
        multi = net["multiclass"]
        ids = [l["id"] for l in net["links"]]
        reg = [i for i in case["reg"] if i in ids] or ids[:1]
        np_ = len(net["paths"])
        paths = [p for p in case["paths"] if p < np_] or [0]
        whole = paths == list(range(np_))
        d = ctx.newdir()
        m = sim.start(net, d, registered=reg, tree=True)
        m.register_paths(dar.i32(paths))
        m.run_whole(False)
        o = (sim.observe_mcdta if multi else sim.observe_dta)(net, m)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        first = set(ends(net)[0])
        win = []
        for a, b in case["win"]:
            a, b = sorted((int(a * T), int(b * T)))
            win.append((a, max(b, a + 1)))
        v = []
        sig = []
        n = net["max_interval"]
        fixed = net["kind"] == "Fixed"
        for k, truck, _, _, N_in, N_out in sim.classes(net, o):
            U = dar.unit(m, multi, k, T)
            for (p, a, l), x in U.items():
                if p not in paths or l not in reg or not 0 <= a < n:
                    v.append("%s record for path %d, interval %d, link %d: "
                             "not registered" % (k, p, a, l))
                if np.any(x < 0):
                    v.append("%s negative flow, path %d link %d" % (k, p, l))
            for l in reg:
                s = sum((x for q, x in U.items() if q[2] == l), np.zeros(T))
                f = np.diff(N_in[l])
                if l in first:
                    continue
                if whole and fixed and np.any(np.abs(s - f) > 1e-6 * (1 + f)):
                    t = int(np.argmax(np.abs(s - f)))
                    v.append("%s link %d, interval %d: %g entered, path "
                             "records give %g" % (k, l, t, f[t], s[t]))
                elif np.any(s > f + 1e-6 * (1 + f)):
                    t = int(np.argmax(s - f))
                    v.append("%s link %d, interval %d: only %g entered, path "
                             "records give %g" % (k, l, t, f[t], s[t]))
            got = {}
            for p, a, l, s, f in dar.rows(m, multi, k, [w[0] for w in win],
                                          [w[1] for w in win]):
                key = (int(p), int(a), int(l), int(s))
                got.setdefault(key, []).append(float(f))
            want = {}
            for (p, a, l), x in U.items():
                for s, e in win:
                    f = float(x[s:e].sum())
                    if f > 1e-9:
                        want.setdefault((p, a, l, s), []).append(f)
            for q in set(got) | set(want):
                g, w = sorted(got.get(q, [])), sorted(want.get(q, []))
                if len(g) != len(w) or any(abs(x - y) > 1e-6
                                           for x, y in zip(g, w)):
                    v.append("%s path %d, departure interval %d, link %d, "
                             "window from %d: records %s, unit windows add "
                             "up to %s" % ((k,) + q + (g, w)))
                sig.append(q + (tuple(round(x, 4) for x in g),))
            # ratios: records over path flows, one row per link and window
            if not whole:
                continue
            f = np.array([0.5 + 0.25 * j for j in range(np_ * n)])
            ref = {}
            for i, l in enumerate(reg):
                for t, (s, e) in enumerate(win):
                    for (p, a, l2), x in U.items():
                        z = float(x[s:e].sum())
                        if l2 == l and z > 1e-9:
                            y = p + np_ * a
                            ref[i + len(reg) * t, y] = z / f[y]
            name = os.path.join(d, "dar.txt")
            args = (dar.i32(w[0] for w in win), dar.i32(w[1] for w in win))
            getattr(m, "save_%sdar_matrix" % (k + "_" if k else ""))(
                *args, f, name)
            saved = {}
            for line in open(name):
                x, y, z = line.split(",")
                if (int(x), int(y)) in saved:
                    v.append("%s saved matrix has (%s, %s) twice" % (k, x, y))
                saved[int(x), int(y)] = float(z)
            self.same(v, k + " saved matrix", saved, ref, 2e-6)
            if case["complete"]:
                ni = max(n, len(win))
                try:
                    mat = getattr(m, "get_complete_%sdar_matrix" % (
                        k + "_" if k else ""))(*args, ni, f)
                except MemoryError:
                    continue
                if mat.shape != (ni * len(reg), ni * np_):
                    v.append("%s sparse matrix has shape %s" % (k, mat.shape))
                mat = mat.tocoo()
                sp = {}
                for x, y, z in zip(mat.row, mat.col, mat.data):
                    if z:
                        sp[int(x), int(y)] = float(z)
                self.same(v, k + " sparse matrix", sp, ref, 1e-9)
        return dict(viol=v[:6], nt=len(sig) >= 10,
                    key=str(hash(tuple(sorted(sig)))),
                    labels=labels(net, ["complete"] if case["complete"]
                                  and whole else []),
                    count=dict(records=len(sig)), sample=sim.desc(net))

    @staticmethod
    def same(v, what, got, ref, tol):
        for q in set(got) | set(ref):
            a, b = got.get(q, 0.0), ref.get(q, 0.0)
            if abs(a - b) > tol * (1 + abs(b)):
                v.append("%s: entry %s is %.9g, the records give %.9g"
                         % (what, q, a, b))
                return

    def shrink(self, case):
        for key in ("win", "reg"):
            for j in range(len(case[key])):
                if len(case[key]) > 1:
                    c = dict(case)
                    c[key] = case[key][:j] + case[key][j + 1:]
                    yield c
        for net in netgen.shrink_net(case["net"]):
            c = dict(case)
            c["net"] = net
            if len(net["paths"]) != len(case["net"]["paths"]):
                c["paths"] = list(range(len(net["paths"])))
            yield c


CHECK = Check()
