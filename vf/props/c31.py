import hashlib

from .. import netgen
from ..common import LONGEST, NetCheck, labels
from .c05 import close


class Queues:
    """When the queue met by an entrant is gone, from the curves of a link."""

    def __init__(self, link, l, net, truck):
        from .. import tt
        T = link.T
        self.link, self.l, self.T = link, l, T
        self.tt = [link.tt(float(i)) for i in range(T)]
        self.cong = [x > link.fftt for x in self.tt]
        self.next = [T] * (T + 1)  # next end of a queue after i
        for i in range(T - 2, -1, -1):
            self.next[i] = (i + 1 if self.cong[i] and not self.cong[i + 1]
                            else self.next[i + 1])
        self.vague = set()
        self.gone = list(range(T))
        cap = min(l["tcap"] if truck else l["cap"], 3500.0) / 3600.0
        dt, sc = net["unit_time"], net["flow_scalar"]
        cap = max(cap * l["lanes"], 1.0 / (dt * sc)) * dt * sc
        edge = abs(cap - round(cap)) < 1e-6 * (1 + cap)
        for i in range(T):
            if self.cong[i]:
                self.gone[i] = self.next[i]
            elif l["type"] == "CTM":
                s = i + int(link.fftt)
                out = self.flow(s, s + 1) * sc
                if edge and abs(out - cap) < 1.5:
                    self.vague.add(i)
                elif tt.aeq(out, int(cap)):
                    self.gone[i] = self.next[i]

    def flow(self, a, b):
        """Vehicles leaving between the counts at a and b."""
        from .. import tt
        if a > self.link.co[-1][0]:
            return 0.0
        return tt.value(self.link.co, float(b)) - tt.value(self.link.co,
                                                           float(a))


class Check(NetCheck):
    id = "C31"
    env = {"MALLOC_PERTURB_": "0"}  # one call reserves 16 GB of address space
    quick_n = 3000
    thorough_n = 40000
    only = "multi"
    opts = dict(demand_level=[0.6, 1.2, 2.0, 4.0, 6.0], max_veh=100,
                routing=["Hybrid"], link_types=["CTM", "CTM", "CTM", "PQ"])
    rule = ("random two-class (two thirds) and multimodal networks of cell "
            "and point-queue links, one full simulation each, then the "
            "gradient records of random departures for random subsets of "
            "registered links and paths, compared with the queues read from "
            "the curves, and summed matrices with the records; non-trivial: "
            "ten or more records; distinct by the records")

    def gen(self, rng, i, tier):
        if i % 3 == 2:
            from .. import mmgen
            c = dict(net=mmgen.gen_mm(rng, dict(
                demand_level=[0.6, 1.5, 4.0], max_veh=100, max_pass=20)))
        else:
            c = super().gen(rng, i, tier)
        net = c["net"]
        mm = "mm" in net
        if net["total_interval"] > 0:  # long enough for most to end
            net["total_interval"] *= rng.choice([1, 2, 3])
        c["at"] = [rng.random() for _ in range(rng.randint(1, 5))] + [0.0]
        ids = [l["id"] for l in net["links"]]
        rng.shuffle(ids)
        c["reg"] = ids if rng.random() < 0.5 else ids[:rng.randint(1,
                                                                   len(ids))]
        ps = list(range(len(net["paths"])))
        if rng.random() < 0.3:
            rng.shuffle(ps)
            if not mm:  # there all have to be registered
                ps = ps[:rng.randint(1, len(ps))]
        c["paths"] = ps
        c["until"] = rng.choice([1.0, 1.0, 1.0, rng.random()])
        c["complete"] = rng.random() < 0.3
        return c

    def run(self, case, ctx):
        from .. import mmgen, mmsim, sim, tt
        import numpy as np
        net = case["net"]
        dt = net["unit_time"]
        mm = "mm" in net
        ids = [l["id"] for l in net["links"]]
        by = {l["id"]: l for l in net["links"]}
        reg = [i for i in case["reg"] if i in ids] or ids[:1]
        n = len(net["paths"])
        paths = [p for p in case["paths"] if p < n] or [0]
        if mm:
            m = mmsim.start(net, ctx.newdir())
            m.register_links_driving(reg)
            m.register_paths_driving(paths)
            m.run_whole(False)
            o = mmsim.observe(net, m)
            C = [(k, k == "truck") + tuple(
                {i: x[k + w, i] for i in ids} for x in (o.raw, o.N)
                for w in ("_in", "_out")) for k in ("car", "truck")]
        else:
            m = sim.start(net, ctx.newdir(), registered=reg)
            m.register_paths(np.array(paths, dtype=np.int32))
            m.run_whole(False)
            o = sim.observe_mcdta(net, m)
            C = sim.classes(net, o)
        T = o.T
        if T > LONGEST:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        if any(abs(c[4][i][-1] - c[5][i][-1]) > 1e-9 for c in C for i in ids):
            return dict(viol=[], nt=False, key=None, labels=["unfinished"])
        v, lab, sig = [], [], []
        at = sorted({min(int(f * T), T - 1) for f in case["at"]})
        until = int(case["until"] * T)
        starts = np.array(at, dtype=np.int32)
        asked = False
        for k, truck, ri, ro, N_in, N_out in C:
            Q = {}
            f = m.get_truck_link_fftt if truck else m.get_car_link_fftt
            ff = np.asarray(f(np.array(ids, dtype=np.int32))) / dt
            for i, x in zip(ids, ff.tolist()):
                Q[i] = Queues(tt.Link(ri[i], ro[i], T, x, 1.0, dt), by[i],
                              net, truck)
            try:
                if not asked:
                    m.build_link_cost_map(True)
                    m.get_link_queue_dissipated_time()
                    asked = True
                rows = np.asarray(getattr(m, "get_%s_ltg_matrix%s" % (
                    k, "_driving" if mm else ""))(starts, until))
            except RuntimeError as e:
                v.append("%s gradients refused: %s" % (k, e))
                continue
            rows = rows.reshape(-1, 5)
            got = {}
            for p, a, l, s, g in rows.tolist():
                got.setdefault((int(p), int(a), int(l), int(s)), []).append(g)
            want, vague = self.records(net, Q, paths, reg, at, until, T, dt)
            if vague:
                lab.append("vague")
            for q in sorted(set(got) | set(want)):
                if (q[0], q[1]) in vague:
                    continue
                a, b = got.get(q, []), want.get(q, [])
                if len(a) != len(b) or any(not close(x, y)
                                           for x, y in zip(a, b)):
                    v.append("%s path %d departing at %d, link %d, interval "
                             "%d: %s s per vehicle, the curves give %s"
                             % ((k,) + q + (a, b)))
            sig += [(k,) + q for q in sorted(want)]
            if (mm or not case["complete"] or vague
                    or sorted(paths) != list(range(n))):
                continue
            per = net["assign_frq"]
            ni = T // per + 2
            try:
                mat = getattr(m, "get_complete_%s_ltg_matrix" % k)(
                    starts, until, ni)
            except MemoryError:
                continue
            except RuntimeError as e:
                v.append("%s gradient matrix refused: %s" % (k, e))
                continue
            lab.append("matrix")
            if mat.shape != (ni * len(reg), ni * n):
                v.append("%s gradient matrix has shape %s" % (k, mat.shape))
                continue
            ref = {}
            for (p, a, l, s), g in want.items():
                q = (reg.index(l) + len(reg) * (s // per), p + n * (a // per))
                ref[q] = ref.get(q, 0.0) + sum(g)
            mat = mat.tocoo()
            sp = {}
            for x, y, z in zip(mat.row, mat.col, mat.data):
                sp[int(x), int(y)] = sp.get((int(x), int(y)), 0.0) + float(z)
            for q in sorted(set(sp) | set(ref)):
                if not close(sp.get(q, 0.0), ref.get(q, 0.0)):
                    v.append("%s gradient matrix at %s: %.9g, the records "
                             "add up to %.9g" % (k, q, sp.get(q, 0.0),
                                                 ref.get(q, 0.0)))
                    break
        return dict(viol=v[:6], nt=len(sig) >= 10,
                    key=hashlib.md5(str(sig).encode()).hexdigest(),
                    labels=(["multimodal"] if mm else labels(net)) + lab,
                    count=dict(records=len(sig)),
                    sample=(mmgen if mm else sim).desc(net))

    def shrink(self, case):
        for key in ("at", "reg"):
            for j in range(len(case[key])):
                if len(case[key]) > 1:
                    c = dict(case)
                    c[key] = case[key][:j] + case[key][j + 1:]
                    yield c
        if "mm" in case["net"]:
            from .. import mmgen
            nets = mmgen.shrink(case["net"])
        else:
            nets = netgen.shrink_net(case["net"])
        for net in nets:
            c = dict(case)
            c["net"] = net
            if len(net["paths"]) != len(case["net"]["paths"]):
                c["paths"] = list(range(len(net["paths"])))
            yield c

    def records(self, net, Q, paths, reg, at, until, T, dt):
        from .. import tt
        want, vague = {}, set()
        for p in paths:
            links = netgen.path_links(net, net["paths"][p]["nodes"])
            if not set(links) & set(reg):
                continue
            for s in at:
                leave, clear = s, None
                for i in links:
                    q = Q[i]
                    come = leave
                    leave = come + tt.round_up(q.tt[min(come, T - 1)])
                    t = come if q.l["type"] == "PQ" else clear
                    if t > T - 1 or t >= until:
                        break
                    prime = t + tt.round_up(q.tt[t])
                    clear = q.gone[t] + tt.round_up(q.link.fftt)
                    if t in q.vague:
                        vague.add((p, s))
                    if not (prime < T - 1 and i in reg and q.cong[t]
                            and clear > prime):
                        continue
                    if q.gone[t] <= T - 1:
                        end, last = q.gone[t], clear
                    else:
                        end = T
                        last = T - 1 + tt.round_up(q.tt[T - 1])
                    last = min(last, T - 1)
                    if prime >= last:
                        continue
                    rate = q.flow(prime, last + 1) / (last + 1 - prime)
                    if rate <= 1e-12:
                        continue
                    for x in range(t, end):
                        want.setdefault((p, s, i, x), []).append(dt / rate)
        return want, vague


CHECK = Check()
