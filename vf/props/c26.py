import hashlib

from .. import netgen
from ..common import LONGEST, NetCheck, labels

# name, arguments: s = start intervals, w = windows (start, end), whole (I) or
# fractional (F) numbers; then what else the call takes
DTA = [("get_link_tt", "Is", [False]), ("get_registered_path_tt", "Is", []),
       ("get_path_tt", "Ps", []), ("get_link_inflow", "Iw", []),
       ("get_link_tt_robust", "Fw", [3, False]), ("get_dar_matrix", "Iw", []),
       ("save_dar_matrix", "Iw", ["flow", "file"])]
MC = [(n % k, a, x) for k in ("car", "truck") for n, a, x in [
    ("get_%s_link_tt", "Fs", [False]),
    ("get_registered_path_tt_%s", "Is", []),
    ("get_path_tt_%s", "Ps", []),
    ("get_link_%s_inflow", "Iw", []),
    ("get_%s_link_speed", "Fs", []),
    ("get_%s_link_tt_robust", "Fw", [3, False]),
    ("get_%s_dar_matrix", "Iw", []),
    ("save_%s_dar_matrix", "Iw", ["flow", "file"])]] + [
        ("get_queue_veh_each_link", "Ls", [])]
MM = [(n % k, a, x) for k in ("car", "truck") for n, a, x in [
    ("get_%s_link_tt", "Fs", [False]),
    ("get_%s_link_speed", "Fs", []),
    ("get_%s_link_tt_robust", "Fw", [3, False]),
    ("get_link_%s_inflow", "Iw", []),
    ("get_bus_driving_link_tt_%s", "Fs", [False]),
    ("get_bus_driving_link_tt_%s_robust", "Fw", [3, False]),
    ("get_%s_dar_matrix_bus_driving_link", "Iw", []),
    ("get_%s_dar_matrix_driving", "Iw", [])]] + [
        ("get_registered_path_tt_truck", "Fs", []),
        ("get_registered_path_tt_driving", "Fs", []),
        ("get_registered_path_tt_bustransit", "Fs", []),
        ("get_registered_path_cost_driving", "Fs", []),
        ("get_registered_path_cost_bustransit", "Fs", []),
        ("get_bus_link_tt", "Fs", [False, False]),
        ("get_bus_link_speed", "Fs", [False, False]),
        ("get_bus_link_tt_robust", "Fw", [3, False, False]),
        ("get_passenger_walking_link_tt", "Fs", []),
        ("get_passenger_walking_link_tt_robust", "Fw", [3]),
        ("get_link_bus_inflow", "Iw", []),
        ("get_busstop_bus_inflow", "Iw", []),
        ("get_link_bus_passenger_inflow", "Iw", []),
        ("get_link_walking_passenger_inflow", "Iw", []),
        ("get_bus_dar_matrix_bustransit_link", "Iw", []),
        ("get_bus_dar_matrix_driving_link", "Iw", []),
        ("get_passenger_dar_matrix_bustransit", "Iw", [])]


class Check(NetCheck):
    id = "C26"
    quick_n = 6000
    thorough_n = 90000
    opts = dict(demand_level=[0.2, 0.6, 1.5], routing=["Hybrid"], max_veh=30,
                max_core=4, scalars=[1, 1, 2])
    rule = ("random networks (single-class, two-class, multimodal), one full "
            "simulation, then a mix of requests in range and requests with "
            "one thing wrong: an interval not simulated, a window that is "
            "empty or ends after the run, arrays of different lengths or of "
            "two dimensions, an unknown or doubled link or path; non-trivial: "
            "at least five of each were made; distinct by requests")

    def gen(self, rng, i, tier):
        if i % 5 == 4:
            from .. import mmgen
            net = mmgen.gen_mm(rng, dict(max_veh=30, max_pass=30))
        else:
            net = super().gen(rng, i, tier)["net"]
        # the vehicles and passengers themselves may be discarded on the way
        return dict(net=net, n=rng.randint(25, 50), pick=rng.randrange(2**31),
                    drop=rng.choice([None, None, rng.randint(0, 25)]))

    def shrink(self, case):
        if case["n"] > 1:
            for n in (1, case["n"] // 2, case["n"] - 1):
                yield dict(case, n=n)
        if "mm" in case["net"]:
            from .. import mmgen
            it = mmgen.shrink(case["net"])
        else:
            it = netgen.shrink_net(case["net"])
        for n in it:
            yield dict(case, net=n)

    @staticmethod
    def rows(name, net):
        """Rows of the answer: all links or paths of the kind."""
        if name.startswith("get_path"):
            return 2
        if name.startswith("get_registered_path"):
            return len(net["mm"]["tpaths"] if "bustransit" in name
                       else net["paths"])
        if "walking" in name:
            return len(net["mm"]["walks"])
        if "_bus" in name and "bus_driving" not in name:
            return len(net["mm"]["blinks"])
        return len(net["links"])

    def run(self, case, ctx):
        import os
        import random
        import numpy as np
        net = case["net"]
        mm = "mm" in net
        rng = random.Random(case["pick"])
        d = ctx.newdir()
        i32 = lambda x: np.array(x, dtype=np.int32)
        ids = [l["id"] for l in net["links"]]
        np_ = len(net["paths"])
        if mm:
            from .. import mmsim
            calls = MM
            m = mmsim.start(net, d)
            nt, npn = len(net["mm"]["tpaths"]), len(net["mm"]["ppaths"])
            nb = len(net["mm"]["routes"])
            m.register_links_bus_driving(i32(ids))
            m.register_paths_driving(i32(range(np_)))
            m.register_paths_bustransit(i32(range(np_, np_ + nt)))
            m.register_paths_bus(i32(range(np_ + nt + npn,
                                           np_ + nt + npn + nb)))
            m.install_cc_tree()
            m.run_whole(False)
            m.build_link_cost_map(False)
        else:
            from .. import sim
            calls = MC if net["multiclass"] else DTA
            m = sim.start(net, d, tree=True)
            m.register_paths(i32(range(np_)))
            m.run_whole(False)
            m.build_link_cost_map(False)
            m.register_links(i32(ids))
        T = m.get_cur_loading_interval()
        if T > LONGEST or T < 3:
            return dict(viol=[], nt=False, key=None, labels=["long"])
        arc = {(l["from"], l["to"]): l["id"] for l in net["links"]}
        h = hashlib.sha1()
        v, good, bad = [], 0, 0
        seen = {}

        def ask(name, args):
            try:
                r = getattr(m, name)(*args)
            except (RuntimeError, ValueError, TypeError, IndexError) as e:
                return "refused", str(e)
            if hasattr(r, "toarray"):
                r = r.toarray()
            return "answer", (np.asarray(r).tolist()
                              if not isinstance(r, (int, str)) else r)

        for step in range(case["n"]):
            if step == case.get("drop"):
                m.delete_all_agents()
            c = rng.random()
            if c < 0.12:  # registration
                if mm:
                    name, have, k = rng.choice([
                        ("register_links_driving", ids, 1),
                        ("register_links_bus_driving", ids, 1),
                        ("register_links_walking",
                         [w["id"] for w in net["mm"]["walks"]], 1),
                        ("register_links_bus",
                         [b["id"] for b in net["mm"]["blinks"]], 1)])
                else:
                    name, have, k = rng.choice([
                        ("register_links", ids, 1),
                        ("register_paths", list(range(np_)), 0)])
                have = have[:]
                rng.shuffle(have)
                have = have[:rng.randint(1, len(have))]
                wrong = have[:]
                pos = rng.randint(0, len(wrong))
                if k and rng.random() < 0.4:
                    wrong.insert(pos, rng.choice(have))
                    what = "a link twice"
                else:
                    x = rng.choice([10 ** 7, 12345678, -5])
                    wrong.insert(pos, x)
                    what = "an unknown ID (%d)" % x
                s, r = ask(name, [i32(wrong)])
                bad += 1
                if s != "refused":
                    v.append("%s of %s was accepted" % (name, what))
                s, r = ask(name, [i32(have)])
                good += 1
                if s == "refused":
                    v.append("%s of existing IDs was refused: %s" % (name, r))
                # all of them again
                full = {"register_links_walking": "walks",
                        "register_links_bus": "blinks"}.get(name)
                full = [x["id"] for x in net["mm"][full]] if full else \
                    (list(range(np_)) if name == "register_paths" else ids)
                ask(name, [i32(full)])
                h.update(repr((name, wrong)).encode())
                continue
            name, a, extra = rng.choice(calls)
            k = rng.randint(1, 3)
            frac = a[0] == "F" and rng.random() < 0.5
            st = [rng.choice([0, T - 1, rng.randrange(T)]) for _ in range(k)]
            if frac:
                st = [min(x + rng.random(), T - 0.001) for x in st]
            en = [min(T, rng.choice([int(x) + 1, T, rng.randint(
                int(x) + 1, T)])) for x in st]
            kind = rng.choice(["ok", "ok", "start", "empty", "end", "len",
                               "dim"])
            if a[1] == "s" and kind in ("empty", "end", "len"):
                kind = "start"
            if a[0] == "P" and kind == "dim":
                kind = "start"
            j = rng.randrange(k)
            if kind == "start":
                st[j] = T + rng.choice([0, 0, 1, 7, 1000])
                en[j] = st[j] + 1
                if a[1] == "w" and rng.random() < 0.5:
                    en[j] = T
            elif kind == "end":
                en[j] = T + rng.choice([1, 1, 2, 1000])
            elif kind == "empty":
                en[j] = st[j] - rng.choice([0, 0, 1])
                if en[j] < 0:
                    en[j] = 0
            elif kind == "len":
                en.append(T)
            ty = np.float64 if a[0] == "F" else np.int32
            S, E = np.array(st, dtype=ty), np.array(en, dtype=ty)
            if kind == "dim":
                S, E = S.reshape(1, -1), E.reshape(1, -1)
            args = [S] if a[1] == "s" else [S, E]
            if a[0] == "P":
                p = rng.choice(net["paths"])["nodes"]
                args = [i32([arc[x] for x in zip(p, p[1:])])] + args
                if mm:
                    args[1] = args[1].astype(float)
            if a[0] == "L":
                args = [i32(ids)] + args
            for x in extra:
                if x == "flow":
                    n = max(net["max_interval"], 1) * np_
                    x = np.arange(n, dtype=float)
                elif x == "file":
                    x = os.path.join(d, "dar.txt")
                args.append(x)
            s, r = ask(name, args)
            h.update(repr((name, kind, st, en)).encode())
            if kind == "ok":
                good += 1
                if s == "refused":
                    v.append("%s of intervals in range was refused (%s): "
                             "starts %s, ends %s, %d intervals run"
                             % (name, r, st, en if a[1] == "w" else "-", T))
                else:
                    x = np.shape(r)
                    if name.startswith("save"):
                        ok = True
                    elif "dar_matrix" in name:
                        ok = not r or len(x) == 2 and x[1] == 5
                    else:
                        ok = x == (self.rows(name, net), k)
                    if not ok:
                        v.append("%s of %d intervals gives an array of shape "
                                 "%s" % (name, k, x))
                    key = repr((name, st, en, p if a[0] == "P" else 0))
                    if name.startswith("get") and seen.setdefault(
                            key, repr(r)) != repr(r):
                        v.append("%s answers differently after requests "
                                 "were refused or agents discarded" % name)
            else:
                bad += 1
                if s != "refused":
                    v.append("%s was answered though wrong (%s): starts %s, "
                             "ends %s, %d intervals run" % (
                                 name, kind, st,
                                 en if a[1] == "w" else "-", T))
        return dict(viol=v[:6], nt=good >= 5 and bad >= 5, key=h.hexdigest(),
                    labels=["multimodal"] if mm else labels(net),
                    count=dict(in_range=good, wrong=bad),
                    sample=dict(requests=case["n"], intervals=int(T)))


CHECK = Check()
