"""Reference dynamics of one link, and of the junctions between links.

The simulator rounds fractional flows at random, so the reference is a set of
possible link states.  Each step filters the set with what was observed (how
many vehicles entered and left the link in that interval) and lets every
rounding the model allows happen.  An empty set means that no behaviour of the
model explains the observation.

Vehicle numbers are simulated vehicles (vehicles times flow_scalar).
"""
import itertools
import math
import time

EPS = 1e-7
MAX_STATES = 3000  # of one link at a time
MAX_WORK = 1000000  # of all links over all intervals
MAX_SECONDS = 20.0


class Mismatch(Exception):
    pass


class GiveUp(Exception):
    """Too many states to follow; the link is not judged any further."""


def rnd(x):
    """Outcomes of rounding x to a whole number at random."""
    if x <= 0:
        return (int(math.ceil(x - EPS)),) if x < 0 else (0,)
    r = round(x)
    if abs(x - r) < EPS:
        return (int(r),)
    f = int(math.floor(x))
    return (f, f + 1)


def edge(x):
    """A supply; on the edge of zero it may come out on either side."""
    if abs(x) < EPS:
        return [0.0, 2 * EPS]
    return [max(x, 0.0)]


def floors(x):
    a, b = math.floor(x - EPS), math.floor(x + EPS)
    return (int(a),) if a == b else (int(a), int(b))


# --------------------------------------------------------------------------
# one class

class Ctm:
    def __init__(self, l, dt, sc):
        self.sc = sc
        rho = min(l["rhoj"], 300.0)
        cap = min(l["cap"], 3500.0)
        cell = l["ffs"] * dt / 3600.0
        n = self.n = max(1, int(math.floor(l["length"] / cell + 1e-9)))
        rho_last = max((l["length"] - (n - 1) * cell) / cell * rho, rho)
        kc = cap / l["ffs"]
        self.cap = max(l["lanes"] * cap / 3600.0 * dt, 1.0 / sc)
        self.hold = [l["lanes"] * cell * rho] * n
        self.hold[-1] = l["lanes"] * cell * rho_last
        w = cap / (rho - kc) / l["ffs"]
        wl = cap / (rho_last - kc) / l["ffs"]
        self.w = [w] * n
        self.w[-1] = wl
        self.states = {((0,) * n, 0)}

    def _sup(self, i, vol):
        """Vehicles cell i accepts in one interval, possible values."""
        v = vol / self.sc
        h = self.hold[i]
        out = []
        if v >= h - EPS:
            out.append(0.0)
            if v >= h + EPS:
                return out
        if self.w[i] <= 1.0 + EPS:
            if v < self.cap + EPS:
                out.append(self.cap)
            if v > self.cap - EPS:
                out.append((h - v) * self.w[i])
        if self.w[i] > 1.0 - EPS:
            out.append(min(self.cap, h - v))
        return [x * self.sc for x in out]

    def supplies(self, s):
        q, F = s
        return self._sup(0, q[0] + F if self.n == 1 else q[0])

    def waiting(self, s):
        return s[1]

    def step(self, s, fin, fout):
        q, F = s
        n = self.n
        if n == 1:
            return {((0,), F - fout + q[0] + fin)}
        vols = list(q)
        vols[0] += fin
        vols[-1] = q[-1] + F  # as counted at the end of the last interval
        qq = list(q)
        qq[0] += fin
        opts = []
        for i in range(n - 1):
            dem = min(vols[i], self.cap * self.sc)
            o = set()
            for sup in self._sup(i + 1, vols[i + 1]):
                for m in rnd(min(dem, sup)):
                    o.add(max(0, min(qq[i], m)))
            opts.append(sorted(o))
        out = set()
        F2 = F - fout + qq[-1]

        def go(i, ms):
            if i == n - 1:
                r = [qq[k] - ms[k] + (ms[k - 1] if k else 0)
                     for k in range(n - 1)]
                out.add((tuple(r) + (ms[n - 2],), F2))
                return
            for m in opts[i]:
                go(i + 1, ms + (m,))
        go(0, ())
        return out


class Pq:
    def __init__(self, l, dt, sc):
        self.S = l["cap"] / 3600.0 * l["lanes"] * dt * sc
        self.n = max(1, int(math.floor(l["length"] * 3600.0
                                       / (l["ffs"] * dt) + 1e-9)))
        self.states = {(0, (0,) * (self.n - 1), 0)}

    def supplies(self, s):
        return [self.S]

    def waiting(self, s):
        return s[2]

    def step(self, s, fin, fout):
        b, pool, F = s
        out = set()
        for f in floors(self.S):
            m = min(b + fin, f)
            line = (m,) + pool
            out.add((b + fin - m, line[:-1], F - fout + line[-1]))
        return out


class Lq:
    def __init__(self, l, dt, sc):
        self.sc, self.dt, self.len = sc, dt, l["length"]
        cap = l["cap"] * l["lanes"]
        cap = max(cap, 3600.0 / (dt * sc))
        self.C = cap                       # per hour
        self.ffs = l["ffs"]
        self.kc = cap / l["ffs"]
        self.kj = l["rhoj"] * l["lanes"]
        self.w = (cap / l["lanes"]) / (l["rhoj"] - cap / l["lanes"] / l["ffs"])
        self.k = dt / 3600.0 * sc
        self.states = {(0, 0)}

    def supplies(self, s):
        d = (s[0] + s[1]) / self.sc / self.len
        out = []
        if d < self.kc + EPS:
            out.append(self.C * self.k)
        if d > self.kc - EPS:
            out.append((self.kj - d) * self.w * self.k)
        return out

    def waiting(self, s):
        return s[1]

    def step(self, s, fin, fout):
        q, F = s[0] + fin, s[1] - fout
        d = (q + F) / self.sc / self.len
        x = (self.ffs * d if d < self.kc else self.C) * self.k
        out = set()
        if x < F + EPS:
            for f in floors(x):
                out.add((q + F - f, f))
        if x > F - EPS:
            for r in rnd(x):
                m = max(0, min(r - F, q))
                out.add((q - m, F + m))
        return out


# --------------------------------------------------------------------------
# two classes: queues and waiting vehicles are (car, truck)

class Mix:
    """How cars and trucks share a piece of road (Qian et al. 2017)."""

    def __init__(self, kc, kct, kj, kjt, w, wt, vt):
        self.kc, self.kct, self.kj, self.kjt = kc, kct, kj, kjt
        self.w, self.wt = w, wt
        self.rho1 = kj * (w / (vt + w))
        self.cache = {}

    def at(self, dc, dtr):
        """[(density as cars see it, as trucks see it, share of cars, share
        of trucks)] - more than one where densities sit on a boundary."""
        k = (dc, dtr)
        if k not in self.cache:
            out = []
            x, y = dc / self.kc, dtr / self.kct
            free = x + y
            semi = y < 1 and dc / (1 - y) <= self.rho1
            if free <= 1 + EPS:
                out.append((dc + self.kc * y, dtr + self.kct * x,
                            1.0 if x + y == 0 else x / (x + y),
                            0.0 if x + y == 0 else y / (x + y)))
            if free > 1 - EPS:
                near = y < 1 - EPS and abs(dc / (1 - y) - self.rho1) \
                    < EPS * self.rho1
                if (semi or near) and y < 1:
                    out.append((dc / (1 - y), self.kct, 1 - y, y))
                if not semi or near or abs(y - 1) < EPS:
                    out.append(self._full(dc, dtr))
            self.cache[k] = out
        return self.cache[k]

    def _full(self, dc, dtr):
        if dtr == 0:
            u = (self.kj - dc) * self.w / dc
            if abs(u + self.wt) < EPS:
                raise GiveUp()
            return dc, self.kjt * self.wt / (u + self.wt), 1.0, 0.0
        if dc == 0:
            u = (self.kjt - dtr) * self.wt / dtr
            if abs(u + self.w) < EPS:
                raise GiveUp()
            return self.kj * self.w / (u + self.w), dtr, 0.0, 1.0
        a = self.kj * self.w * dtr
        b = self.kjt * self.wt * dc
        sc = (dc * dtr * (self.w - self.wt) + b) / (a + b)
        st = (dc * dtr * (self.wt - self.w) + a) / (a + b)
        if sc == 0 or st == 0:
            return dc, dtr, sc, st
        return dc / sc, dtr / st, sc, st


class CtmMc:
    """Capacities in vehicles per interval, densities per mile."""

    def __init__(self, l, dt, sc):
        self.sc, self.conv = sc, l["conv"]
        rho, trho = min(l["rhoj"], 400.0), min(l["trhoj"], 400.0)
        lane = l["lanes"]
        cap = max(min(l["cap"], 3500.0), 3600.0 / (dt * sc * lane))
        tcap = max(min(l["tcap"], 3500.0), 3600.0 / (dt * sc * lane))
        self.v, self.vt = l["ffs"], l["tffs"]
        cell = l["ffs"] * dt / 3600.0
        n = self.n = max(1, int(math.floor(l["length"] / cell + 1e-9)))
        length = max(l["length"], cell) if n == 1 else l["length"]
        self.length = length
        self.clen = [cell] * n
        self.clen[-1] = length - (n - 1) * cell
        kc, kct = cap / l["ffs"], tcap / l["tffs"]
        self.w, self.wt = cap / (rho - kc), tcap / (trho - kct)
        self.kj, self.kjt = rho * lane, trho * lane
        self.cap, self.tcap = cap * lane, tcap * lane
        self.mix = Mix(kc * lane, kct * lane, self.kj, self.kjt, self.w,
                       self.wt, l["tffs"])
        self.k = dt / 3600.0 * sc
        self.old = None
        self.states = {(((0, 0),) * n, (0, 0))}

    def change(self, l, dt, sc):
        """New attributes; what was perceived before them lasts a while."""
        new = CtmMc(l, dt, sc)
        new.states, new.old = self.states, self.mix
        return new

    def stepped(self):
        self.old = None

    def supplies(self, s):
        q, F = s
        c, t = q[0]
        if self.n == 1:
            c, t = c + F[0], t + F[1]
        d = (c + t * self.conv) / self.sc / self.clen[0]
        x = min(self.cap, self.w * (self.kj - d))
        return edge(max(x, 0.25 * self.w * (self.kj - d)) * self.k)

    def waiting(self, s):
        return s[1]

    def _mix(self, i, vol):
        f = self.sc * self.clen[i]
        mix = self.old if i and self.old is not None else self.mix
        return mix.at(vol[0] / f, vol[1] / f)

    def step(self, s, fin, fout):
        q, F = s
        n = self.n
        qq = [list(x) for x in q]
        qq[0][0] += fin[0]
        qq[0][1] += fin[1]
        F2 = (F[0] - fout[0] + qq[-1][0], F[1] - fout[1] + qq[-1][1])
        if n == 1:
            return {(((0, 0),), F2)}
        vols = [tuple(x) for x in qq]
        vols[-1] = (q[-1][0] + F[0], q[-1][1] + F[1])
        opts = []
        for i in range(n - 1):
            o = set()
            for pc, pt, fc, ft in self._mix(i, vols[i]):
                for rc, rt, _, _ in self._mix(i + 1, vols[i + 1]):
                    xc = fc * min(min(self.cap, self.v * pc),
                                  max(0.0, min(self.cap, self.w
                                               * (self.kj - rc)))) * self.k
                    xt = ft * min(min(self.tcap, self.vt * pt),
                                  max(0.0, min(self.tcap, self.wt
                                               * (self.kjt - rt)))) * self.k
                    for a in rnd(xc):
                        for b in rnd(xt):
                            o.add((max(0, min(a, qq[i][0])),
                                   max(0, min(b, qq[i][1]))))
            opts.append(sorted(o))
        out = set()

        def go(i, ms):
            if i == n - 1:
                r = tuple((qq[k][0] - ms[k][0] + (ms[k - 1][0] if k else 0),
                           qq[k][1] - ms[k][1] + (ms[k - 1][1] if k else 0))
                          for k in range(n - 1))
                out.add((r + (ms[n - 2],), F2))
                return
            for m in opts[i]:
                go(i + 1, ms + (m,))
        go(0, ())
        return out


class PqMc:
    def __init__(self, l, dt, sc):
        self.S = l["cap"] / 3600.0 * l["lanes"] * dt * sc
        self.n = max(1, int(math.floor(l["length"] * 3600.0
                                       / (l["ffs"] * dt) + 1e-9)))
        self.states = {(((0, 0),) * (self.n - 1), (0, 0))}

    def supplies(self, s):
        return [self.S]

    def waiting(self, s):
        return s[1]

    def step(self, s, fin, fout):
        pool, F = s
        if sum(fin) > self.S - EPS:
            raise GiveUp()  # order of classes in the backlog is not observed
        line = (tuple(fin),) + pool
        return {(line[:-1], (F[0] - fout[0] + line[-1][0],
                             F[1] - fout[1] + line[-1][1]))}


class LqMc:
    def __init__(self, l, dt, sc):
        self.sc, self.conv, self.len = sc, l["conv"], l["length"]
        self.cap = max(l["cap"] * l["lanes"], 3600.0 / (dt * sc))
        self.tcap = max(l["tcap"] * l["lanes"], 3600.0 / (dt * sc))
        self.kj, self.kjt = l["rhoj"] * l["lanes"], l["trhoj"] * l["lanes"]
        self.v, self.vt = l["ffs"], l["tffs"]
        self.kc, self.kct = self.cap / l["ffs"], self.tcap / l["tffs"]
        self.w = self.cap / (self.kj - self.kc)
        self.wt = self.tcap / (self.kjt - self.kct)
        self.mix = Mix(self.kc, self.kct, self.kj, self.kjt, self.w, self.wt,
                       self.vt)
        self.k = dt / 3600.0 * sc
        self.old = None
        self.states = {((0, 0), (0, 0))}

    def change(self, l, dt, sc):
        new = LqMc(l, dt, sc)
        new.states, new.old = self.states, self.mix
        return new

    def stepped(self):
        self.old = None

    def _mix(self, s, mix=None):
        f = self.sc * self.len
        return (mix or self.mix).at((s[0][0] + s[1][0]) / f, (s[0][1] + s[1][1]) / f)

    def supplies(self, s):
        out = []
        for pc, pt, fc, ft in self._mix(s, self.old):
            a = max(fc * min(self.cap, self.w * (self.kj - pc)),
                    fc * self.w * 0.3 * (self.kj - self.kc), 0.0)
            b = max(ft * min(self.tcap, self.wt * (self.kjt - pt)),
                    ft * self.wt * 0.3 * (self.kjt - self.kct), 0.0)
            out += edge((a + self.conv * b) * self.k)
        return out

    def waiting(self, s):
        return s[1]

    def step(self, s, fin, fout):
        q = (s[0][0] + fin[0], s[0][1] + fin[1])
        F = (s[1][0] - fout[0], s[1][1] - fout[1])
        out = set()
        for pc, pt, fc, ft in self._mix((q, F)):
            dc = fc * min(self.cap, self.v * pc) * self.k
            dt_ = ft * min(self.tcap, self.vt * pt) * self.k
            d = dc + self.conv * dt_
            x = d - (F[0] + F[1])
            xc = x * dc / d if dc and d else 0.0
            xt = x * dt_ / d if dt_ and d else 0.0
            for a in rnd(xc):
                for b in rnd(xt):
                    a_ = max(0, min(a, q[0]))
                    b_ = max(0, min(b, q[1]))
                    out.add(((q[0] - a_, q[1] - b_), (F[0] + a_, F[1] + b_)))
        return out


SINGLE = dict(CTM=Ctm, PQ=Pq, LQ=Lq)
MULTI = dict(CTM=CtmMc, PQ=PqMc, LQ=LqMc)


# --------------------------------------------------------------------------

def le(a, b):
    return a <= b if not isinstance(a, tuple) else all(
        x <= y for x, y in zip(a, b))


def follow(net, T, fin, fout, attrs=None, limit=MAX_STATES, queue=None,
           wait=None):
    """Check the whole run.

    attrs[t][link]: the link's attributes from interval t on.
    queue[link][t]: vehicles reported to wait at the end of the link once the
    junctions have been served.  wait: filled, per link, with the bounds of
    [cars, trucks] waiting summed over all intervals (None: not followed).

    fin[link][t], fout[link][t]: vehicles entering/leaving in interval t, an
    int, or (cars, trucks).  Returns (messages, statistics).
    """
    mc = net["multiclass"]
    kinds = MULTI if mc else SINGLE
    dt, sc = net["unit_time"], net["flow_scalar"]
    links = {l["id"]: l for l in net["links"]}
    M = {i: kinds[l["type"]](l, dt, sc) for i, l in links.items()}
    dests = {n for _, n in net["dests"]}
    ons = {n for _, n in net["origins"]}
    nodes = [n for n in net["nodes"] if n["type"] == "FWJ"]
    ins = {n["id"]: [i for i in links if links[i]["to"] == n["id"]]
           for n in nodes}
    outs = {n["id"]: [i for i in links if links[i]["from"] == n["id"]]
            for n in nodes}
    live = set(links)  # links still followed
    st = dict(steps=0, states=0, gaveup=0, congested=0, tight=0,
              merges=0)
    work = 0
    t0 = time.process_time()

    def total(x, conv=1.0):
        return x[0] + conv * x[1] if mc else x

    for t in range(T):
        for i, l in (attrs or {}).get(t, {}).items():
            if i in live:
                M[i] = M[i].change(l, dt, sc)
        # junctions, with the states at the start of the interval
        for i in list(live):
            f = fout[i][t]
            M[i].states = {s for s in M[i].states if le(f, M[i].waiting(s))}
            if not M[i].states:
                return ["interval %d: %s vehicles leave link %d (%s), more "
                        "than can have reached its end"
                        % (t, f, i, links[i]["type"])], st
            if links[i]["to"] in dests:
                M[i].states = {s for s in M[i].states
                               if M[i].waiting(s) == f}
                if not M[i].states:
                    return ["interval %d: link %d (%s): %s vehicles enter "
                            "the destination, not all that reached the end"
                            % (t, i, links[i]["type"], f)], st
        for n in nodes:
            ni, no = ins[n["id"]], outs[n["id"]]
            conv = n.get("conv", 1.0)
            big = max(1.0, conv)
            free = []  # out links that took less than they could
            for j in no:
                if j not in live:
                    free = None
                    continue
                f = total(fin[j][t], conv)
                keep = set()
                slack = True
                for s in M[j].states:
                    sup = M[j].supplies(s)
                    if mc:
                        ok = f < EPS or any(
                            S > EPS and f < S + len(ni) * big + EPS
                            for S in sup)
                        sl = all(f < S - EPS for S in sup)
                    else:
                        ok = any(f <= S + EPS for S in sup) or f == 0
                        sl = all(f <= S - len(ni) - EPS for S in sup)
                    if ok:
                        keep.add(s)
                        slack = slack and sl
                if not keep:
                    return ["interval %d: junction %d lets %s vehicles onto "
                            "link %d (%s), it accepts at most %s"
                            % (t, n["id"], fin[j][t], j, links[j]["type"],
                               sorted({round(x, 4) for s in M[j].states
                                       for x in M[j].supplies(s)}))], st
                M[j].states = keep
                if free is not None and slack:
                    free.append(j)
            if free is not None and len(free) == len(no):
                # every way out had room: nobody may be left behind
                for i in ni:
                    if i not in live:
                        continue
                    k = {s for s in M[i].states
                         if M[i].waiting(s) == fout[i][t]}
                    if not k:
                        return ["interval %d: junction %d keeps vehicles "
                                "waiting on link %d although every link out "
                                "of it has room" % (t, n["id"], i)], st
                    M[i].states = k
                    st["tight"] += 1
            if len(ni) == 1 and len(no) == 1 and ni[0] in live \
                    and no[0] in live:
                i, j = ni[0], no[0]
                f = fout[i][t]
                a, b = set(), set()
                for s in M[i].states:
                    w = M[i].waiting(s)
                    for r in M[j].states:
                        if any(pair(mc, w, f, S, conv)
                               for S in M[j].supplies(r)):
                            a.add(s)
                            b.add(r)
                if not a:
                    return ["interval %d: %s vehicles pass junction %d from "
                            "link %d to link %d; %s wait and %s are accepted"
                            % (t, f, n["id"], i, j,
                               sorted({M[i].waiting(s)
                                       for s in M[i].states}),
                               sorted({round(S, 4) for r in M[j].states
                                       for S in M[j].supplies(r)}))], st
                M[i].states, M[j].states = a, b
                st["tight"] += 1
            if len(ni) > 1 and len(no) == 1 and no[0] in live \
                    and all(i in live for i in ni):
                msg = merge(mc, [sorted({M[i].waiting(s)
                                         for s in M[i].states}) for i in ni],
                            [fout[i][t] for i in ni],
                            sorted({S for s in M[no[0]].states
                                    for S in M[no[0]].supplies(s)}), conv)
                if msg is not None:
                    st["merges"] += 1
                    if msg:
                        return ["interval %d: junction %d, links %s: %s"
                                % (t, n["id"], ni, msg)], st
        for i in list(live) if queue is not None else ():
            f = fout[i][t]
            k = {s for s in M[i].states
                 if total(M[i].waiting(s)) - total(f) == queue[i][t]}
            if not k:
                return ["interval %d: %d vehicles reported waiting at the "
                        "end of link %d (%s), possible: %s"
                        % (t, queue[i][t], i, links[i]["type"], sorted(
                            {total(M[i].waiting(s)) - total(f)
                             for s in M[i].states}))], st
            M[i].states = k
        # links
        for i in list(live):
            new = set()
            m = M[i]
            try:
                for s in m.states:
                    n = m.step(s, fin[i][t], fout[i][t])
                    work += len(n)
                    new |= n
                    if len(new) > limit or len(new) > 8 and (
                            work > MAX_WORK
                            or time.process_time() - t0 > MAX_SECONDS):
                        raise GiveUp()
                if attrs is not None and hasattr(m, "stepped"):
                    m.stepped()
                if isinstance(m, LqMc):
                    for s in new:
                        m.supplies(s)
            except GiveUp:
                live.discard(i)
                st["gaveup"] += 1
                if wait is not None:
                    wait[i] = None
                continue
            m.states = new
            if wait is not None:
                b = wait.setdefault(i, [[0, 0], [0, 0]])
                for k in (0, 1):
                    x = [m.waiting(s)[k] for s in new]
                    b[k][0] += min(x)
                    b[k][1] += max(x)
            st["steps"] += 1
            st["states"] = max(st["states"], len(new))
            if links[i]["type"] != "PQ" and any(
                    total(m.waiting(s)) > 0 for s in new):
                st["congested"] += 1
    return [], st


def pair(mc, w, f, S, conv):
    """May f vehicles pass a one-to-one junction with w waiting, S accepted?"""
    if not mc:
        return any(f == min(w, max(0, x)) for x in floors(S))
    D, P = w[0] + conv * w[1], f[0] + conv * f[1]
    if D <= S + EPS and abs(P - D) < EPS:
        return True
    if D < S - EPS:
        return False
    if S < EPS:
        return P < max(1.0, conv) + EPS if S > 0 else P < EPS
    return S - 0.01 <= P < S + max(1.0, conv) + EPS


def merge(mc, waits, f, sup, conv):
    """Several links into one: each gets its share of what is accepted.

    Returns None (too many possibilities), "" or a message.
    """
    n = len(sup)
    for w in waits:
        n *= len(w)
    if n > 300:
        return None
    k = len(waits)
    big = max(1.0, conv)
    for ws in itertools.product(*waits):
        D = [w[0] + conv * w[1] if mc else w for w in ws]
        P = [x[0] + conv * x[1] if mc else x for x in f]
        tot = sum(D)
        for S in sup:
            x = [min(d, d / tot * S) if tot else 0.0 for d in D]
            if mc:
                ok = all((p >= y - 0.01 and p < y + big + EPS)
                         if y > EPS else p < EPS or y > EPS / 100
                         for p, y in zip(P, x))
            else:
                ok = all(math.floor(y + EPS) - k <= p <= math.ceil(y - EPS)
                         for p, y in zip(P, x))
            if ok:
                return ""
    return ("%s vehicles of %s waiting pass on to a link accepting %s, not "
            "their share" % (f, [w if len(w) > 1 else w[0] for w in waits],
                             [round(S, 4) for S in sup]))
