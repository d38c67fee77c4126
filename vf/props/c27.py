import hashlib
import os

from .. import netgen
from ..common import NetCheck, labels


def table(d, name, kind=float):
    with open(os.path.join(d, "record", name)) as f:
        return [[kind(x) for x in r.split()] for r in f if r.strip()]


class Check(NetCheck):
    id = "C27"
    only = "single"
    quick_n = 4000
    thorough_n = 60000
    opts = dict(total="fixed", routing=["Fixed"], max_veh=40,
                link_types=["CTM", "CTM", "PQ"], max_core=5,
                demand_level=[0.6, 1.5, 3.0], max_interval=[1, 2, 3])
    rule = ("random single-class networks; user equilibrium and system "
            "optimum iterated 1 to 4 times by each update (successive "
            "averages, gradient projection, departure-time choice), the "
            "tables written at each iteration compared; non-trivial: flow "
            "moved to another path or departure interval; distinct by tables")

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        net = c["net"]
        net["routing"] = "Due"
        vot = rng.choice([10, 20, 60])
        net["due"] = {"vot": vot,
                      "early_penalty": rng.choice([0, 5, vot // 2]),
                      "late_penalty": rng.choice([0, 30, 100]),
                      "target_time": rng.choice([0, 1, 2.71, 3, 8, 8.13, 20]),
                      "lambda": rng.choice([0.01, 0.3, 0.5, 0.9, 1])}
        c["goal"] = rng.choice(["due", "due", "dso"])
        c["how"] = rng.choice(["MSA", "GP", "dtc"])
        c["iters"] = rng.randint(2, 4)
        return c

    def shrink(self, case):
        if case["iters"] > 2:
            yield dict(case, iters=case["iters"] - 1)
        yield from super().shrink(case)

    def run(self, case, ctx):
        import macposts
        import numpy as np
        net, due = case["net"], case["net"]["due"]
        dtc = case["how"] == "dtc"
        dt, frq = net["unit_time"], net["assign_frq"]
        n = net["max_interval"]
        om, dm = (dict(map(tuple, net[k])) for k in ("origins", "dests"))
        want = {(om[a], dm[b]): r for a, b, r in net["demand"]}
        arcs = {(l["from"], l["to"]) for l in net["links"]}
        per = 1 / 3600.0 * dt
        vot, early, late = (due[k] * per for k in (
            "vot", "early_penalty", "late_penalty"))
        target = due["target_time"] * 60.0 / dt
        v, hist, gaps = [], [], []
        h = hashlib.sha1()
        for k in range(1, case["iters"] + 1):
            d = ctx.newdir()
            netgen.write_net(net, d)
            macposts.set_random_state(net["rand"])
            m = macposts.Dta()
            getattr(m, "run_" + case["goal"])(
                k, d, False, dtc, "MSA" if dtc else case["how"])
            gap = table(d, "gap_iteration")
            rows = table(d, "path_table", int)
            F = np.array(table(d, "path_table_buffer")).reshape(-1, n)
            C = np.array(table(d, "path_table_disutility")).reshape(-1, n)
            W = np.array(table(d, "path_table_time")).reshape(-1, n)
            h.update(F.tobytes() + W.tobytes())
            if not len(rows) == len(F) == len(C) == len(W):
                v.append("iteration %d: tables of %d paths, %d flows, %d "
                         "times, %d costs" % (k, len(rows), len(F), len(W),
                                              len(C)))
                break
            if len(gap) != k:
                v.append("%d gaps of %d iterations" % (len(gap), k))
                break
            if not np.array_equal(np.array(gap[:-1], float).ravel(),
                                  np.array(gaps, float).ravel(),
                                  equal_nan=True):
                v.append("iterations differ from those of a shorter run: %s, "
                         "%s" % (gaps, gap))
            gaps = gap
            at = {}
            for i, r in enumerate(rows):
                if (r[0], r[-1]) not in want:
                    v.append("path %s joins no pair with demand" % r)
                if any(a not in arcs for a in zip(r, r[1:])):
                    v.append("path %s follows no links" % r)
                at.setdefault((r[0], r[-1]), []).append(i)
            if len(set(map(tuple, rows))) < len(rows):
                v.append("a path is listed twice")
            if v:
                break
            if F.min() < -1e-5:
                v.append("iteration %d: a negative flow (%g)" % (k, F.min()))
            top, low, tot, merit = 0.0, 0.0, 0.0, 0.0
            most, least = 0.0, 0.0
            for od, dem in want.items():
                ix = at.get(od, [])
                f = F[ix]
                tol = 2e-6 * (len(ix) + 1) * (1 if not dtc else n)
                have, asked = f.sum(0), np.array(dem)
                if dtc:
                    have, asked = have.sum(), asked.sum()
                bad = np.abs(have - asked) > tol + 1e-9 * np.abs(asked)
                if np.any(bad):
                    v.append("iteration %d: pair %s has flow %s, demand %s"
                             % (k, od, have, asked))
                used = np.where(f > 0, C[ix], np.inf).min(0)
                used[np.isinf(used)] = 0
                top += ((C[ix] - used) * f * (f > 0)).sum()
                low += (used * f * (f > 0)).sum()
                if ix:
                    most += ((C[ix] - C[ix].min(0)) * f).sum()
                    least += (C[ix].min(0) * f).sum()
                merit += ((C[ix] - C[ix].min()) * f).sum() if ix else 0
                tot += (W[ix] / dt * f).sum()
            # costs from times
            t = W / dt
            if case["goal"] == "dso":
                ref = t
            else:
                arr = t + np.arange(n) * frq
                ref = vot * t + np.where(arr >= target,
                                         late * (arr - target),
                                         early * (target - arr))
            if np.any(np.abs(ref - C) > 1e-5 * (1 + np.abs(ref))):
                i, j = np.argwhere(np.abs(ref - C)
                                   > 1e-5 * (1 + np.abs(ref)))[0]
                v.append("iteration %d: path %s departing in %d takes %g s, "
                         "costs %g, not %g" % (k, rows[i], j, W[i, j],
                                               C[i, j], ref[i, j]))
            # gap and total travel time of this iteration
            g = merit if dtc else (top / low if low > 0 else None)
            slack = 1e-5 * (1 + F.sum()) * (1 + C.max()) \
                * (1 if dtc else 1 / max(low, 1e-9))
            # a whole step of gradient projection may leave a flow of 1e-16,
            # which counts as used and reads as 0
            far = most / least if case["how"] == "GP" and least > 1e-3 \
                and due["lambda"] > 0.8 and g is not None else g
            if g is not None and low > 1e-3 and not (
                    g - slack - 1e-4 * abs(g) <= gap[-1][0]
                    <= far + slack + 1e-4 * abs(far)):
                v.append("iteration %d: gap %g, the tables give %g"
                         % (k, gap[-1][0], g))
            if case["goal"] == "due" and abs(gap[-1][1] - tot) > \
                    1e-5 * (1 + F.sum()) * (1 + t.max()):
                v.append("iteration %d: total travel time %g, the tables "
                         "give %g" % (k, gap[-1][1], tot))
            hist.append((rows, F, C))
            if v:
                break
        moved = 0
        step = due["lambda"]
        for k in range(1, len(hist)):
            (r0, F0, C0), (r1, F1, _) = hist[k - 1], hist[k]
            i0 = {tuple(r): i for i, r in enumerate(r0)}
            i1 = {tuple(r): i for i, r in enumerate(r1)}
            if set(i0) - set(i1):
                v.append("iteration %d: a path is gone" % (k + 1))
                break
            for od in want:
                new = [r for r in i1 if (r[0], r[-1]) == od]
                old = [r for r in new if r in i0]
                f1 = np.array([F1[i1[r]] for r in new])
                f0 = np.array([F0[i0[r]] if r in i0 else np.zeros(n)
                               for r in new])
                # a new path is as cheap as any when it is found
                c0 = np.array([C0[i0[r]] if r in i0 else
                               np.min([C0[i0[q]] for q in old], axis=0)
                               for r in new])
                if np.abs(f1 - f0).max() > 1e-5:
                    moved += 1
                tol = 3e-6 * (1 + c0.max()) * (len(new) + 1) * n
                if case["how"] == "dtc":
                    # the best departure may lie within an interval, so its
                    # cost is not in the tables
                    continue
                a, b = (f0 * c0).sum(0), (f1 * c0).sum(0)
                worse = np.any(b > a + tol)
                if worse:
                    v.append("iteration %d moves flow of pair %s to dearer "
                             "paths: cost %s becomes %s" % (k, od, a, b))
                if case["how"] != "MSA":
                    continue
                rate = 1 - step / np.sqrt(k)
                for j in range(n):
                    up = [i for i in range(len(new))
                          if abs(f1[i, j] - f0[i, j] * rate) > 3e-6]
                    if len(up) > 1:
                        v.append("iteration %d, pair %s, departure %d: flows "
                                 "%s become %s, not a step of %g to one path"
                                 % (k, od, j, f0[:, j], f1[:, j], 1 - rate))
                    elif up and c0[up[0], j] > c0[:, j].min() + 1e-5:
                        v.append("iteration %d, pair %s, departure %d: flow "
                                 "moves to a path that costs %g, another "
                                 "costs %g" % (k, od, j, c0[up[0], j],
                                               c0[:, j].min()))
        return dict(viol=v[:6], nt=moved > 0, key=h.hexdigest(),
                    labels=labels(net) + [case["goal"], case["how"]],
                    count=dict(moves=moved),
                    sample=dict(goal=case["goal"], how=case["how"],
                                iterations=case["iters"], gaps=gaps))


CHECK = Check()
