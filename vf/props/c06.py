from .. import netgen
from ..common import LONGEST, NetCheck, labels, moved
from .c05 import close, fftts, length


class Check(NetCheck):
    id = "C06"
    quick_n = 8000
    thorough_n = 120000
    opts = dict(demand_level=[0.6, 1.2, 2.0, 4.0], max_veh=100,
                routing=["Hybrid"])
    rule = ("random networks with tolls and values of time, one full "
            "simulation each, then path travel times and costs of registered "
            "paths and of random walks, for random departures, compared with "
            "link times read from the curves and put end to end; "
            "non-trivial: some queried path takes longer than its free-flow "
            "time; distinct by curves and answers")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        net = c["net"]
        netgen.add_tolls(rng, net)
        c["at"] = [rng.random() for _ in range(rng.randint(1, 5))]
        c["at"] += rng.choice([[], [0.0, 0.999999]])
        n = len(net["paths"])
        ids = list(range(n))
        rng.shuffle(ids)
        c["reg"] = ids[:rng.randint(1, n)]
        walks = []
        for _ in range(rng.randint(1, 3)):
            l = rng.choice(net["links"])
            w = [l["id"]]
            while rng.random() < 0.8 and len(w) < 7:
                nxt = [x for x in net["links"] if x["from"] == l["to"]]
                if not nxt:
                    break
                l = rng.choice(nxt)
                w.append(l["id"])
            walks.append(w)
        c["walks"] = walks
        c["cong"] = rng.random() < 0.5
        return c

    def run(self, case, ctx):
        from .. import sim, tt
        import numpy as np
        net = case["net"]
        multi = net["multiclass"]
        dt = net["unit_time"]
        by = {l["id"]: l for l in net["links"]}
        m = sim.start(net, ctx.newdir())
        reg = [i for i in case["reg"] if i < len(net["paths"])] or [0]
        m.register_paths(np.array(reg, dtype=np.int32))
        m.run_whole(False)
        o = (sim.observe_mcdta if multi else sim.observe_dta)(net, m)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        at = [int(f * T) for f in case["at"]]
        starts = np.array(at, dtype=np.int32)
        m.build_link_cost_map(case["cong"])
        vot = (net.get("vot") if net.get("vot") is not None else 20.0) \
            / 3600.0 * dt
        tolls = {i: v for i, v in net.get("tolls", [])}
        walks = [w for w in case["walks"] if all(i in by for i in w)]
        v = []
        slow = 0
        answers = []
        for k, truck, ri, ro, N_in, N_out in sim.classes(net, o):
            need = set()
            paths = [netgen.path_links(net, net["paths"][i]["nodes"])
                     for i in reg]
            for p in paths + walks:
                need |= set(p)
            R = {}
            for i in need:
                l = by[i]
                ok = fftts(l, dt, multi, truck)
                if multi:
                    f = m.get_truck_link_fftt if truck else m.get_car_link_fftt
                    ok = {float(f(np.array([i], dtype=np.int32))[0]) / dt}
                elif len(ok) > 1:
                    # rounding decides: read it off an empty link's answer
                    return dict(viol=[], nt=False, key=None,
                                labels=["boundary"])
                R[i] = tt.Link(ri[i], ro[i], T, float(min(ok)), length(
                    l, dt, multi) * 3600.0 / (l["tffs"] if truck
                                              else l["ffs"]), dt)

            def ref(p, s):
                cur = s
                cost = 0.0
                for i in p:
                    x = R[i].tt(float(min(cur, T - 1)))
                    cost += x * vot + (tolls[i][1 if truck else 0]
                                       if i in tolls else 0.0)
                    cur += tt.round_up(x)
                return (cur - s) * dt, cost

            def cmp(got, want, what):
                answers.append(round(float(got), 4))
                if not close(float(got), float(want)):
                    v.append("%s%s: reported %.9g, the links add up to %.9g"
                             % (k + " " if k else "", what, got, want))

            suf = "_" + k if k else ""
            got = np.asarray(getattr(m, "get_registered_path_tt" + suf)(
                starts))
            for r, p in enumerate(paths):
                for c, s in enumerate(at):
                    w = ref(p, s)
                    slow += w[0] > sum(R[i].fftt for i in p) * dt
                    cmp(got[r, c], w[0], "path %s departing at %d"
                        % (net["paths"][reg[r]]["nodes"], s))
            for p in walks + paths[:1]:
                got = np.asarray(getattr(m, "get_path_tt" + suf)(
                    np.array(p, dtype=np.int32), starts))
                for c, s in enumerate(at):
                    w = ref(p, s)
                    cmp(got[0, c], w[0], "links %s departing at %d" % (p, s))
                    cmp(got[1, c], w[1], "cost of links %s departing at %d"
                        % (p, s))
                if multi:
                    got = np.asarray(getattr(
                        m, "get_avg_link_on_path_tt" + suf)(
                            np.array(p, dtype=np.int32), starts.astype(float)))
                    for j, i in enumerate(p):
                        xs = [R[i].tt(float(s)) * dt for s in at]
                        if any(R[i].near_cap(x) for x in xs):
                            continue
                        cmp(got[j], sum(R[i].cap(x, False) for x in xs)
                            / len(xs), "link %d averaged over %s" % (i, at))
        return dict(viol=v[:6], nt=slow > 0 and moved(net, o) >= 5,
                    key=sim.curve_key(net, o) + str(hash(tuple(answers))),
                    labels=labels(net, ["tolls"] if tolls else []),
                    count=dict(answers=len(answers), slow=int(slow)),
                    sample=sim.desc(net))

    def shrink(self, case):
        for key in ("at", "walks", "reg"):
            for j in range(len(case[key])):
                if len(case[key]) > 1:
                    c = dict(case)
                    c[key] = case[key][:j] + case[key][j + 1:]
                    yield c
        if case["net"].get("tolls"):
            c = dict(case)
            c["net"] = dict(case["net"])
            c["net"]["tolls"] = []
            yield c
        yield from super().shrink(case)


CHECK = Check()
