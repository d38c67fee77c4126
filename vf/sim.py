"""Run the real simulator on a generated network and collect observations."""
import contextlib
import math

import numpy as np
import macposts

from . import netgen


class Obs:
    pass


def nint(x):
    return int(round(x))


def fftt(l, unit_time, truck=False):
    """Free-flow travel time in whole intervals of a PQ or CTM link."""
    ffs = l["tffs"] if truck else l["ffs"]
    return max(1, int(math.floor(l["length"] * 1600.0
                                 / ((ffs * 1600.0 / 3600.0) * unit_time))))


def near_boundary(l, unit_time, truck=False):
    ffs = l["tffs"] if truck else l["ffs"]
    x = l["length"] * 3600.0 / (ffs * unit_time)
    return abs(x - round(x)) < 1e-6


def raw(cc):
    return np.array(cc, dtype=float)


def expand(cc, T):
    """Cumulative value at the start of each interval 0..T."""
    out = np.zeros(T + 1)
    k = 0
    v = 0.0
    for t in range(T + 1):
        while k < len(cc) and cc[k, 0] <= t:
            v = cc[k, 1]
            k += 1
        out[t] = v
    return out


def start_dta(net, d, registered="all", tree=False, cc=True):
    netgen.write_net(net, d)
    macposts.set_random_state(net["rand"])
    dta = macposts.Dta.from_files(d)
    if registered == "all":
        dta.register_links()
    elif registered is not None:
        dta.register_links(registered)
    if cc:
        dta.install_cc()
    if tree:
        dta.install_cc_tree()
    return dta


def observe_dta(net, dta):
    o = Obs()
    o.dta = dta
    o.T = dta.get_cur_loading_interval()
    o.raw_in, o.raw_out, o.N_in, o.N_out = {}, {}, {}, {}
    for l in net["links"]:
        i = l["id"]
        o.raw_in[i] = raw(dta.get_link_in_cc(i))
        o.raw_out[i] = raw(dta.get_link_out_cc(i))
        o.N_in[i] = expand(o.raw_in[i], o.T)
        o.N_out[i] = expand(o.raw_out[i], o.T)
    o.stats = list(np.asarray(dta.get_travel_stats()).ravel())
    return o


def run_dta(net, d, registered="all", tree=False):
    dta = start_dta(net, d, registered, tree)
    dta.run_whole(False)
    return observe_dta(net, dta)


def by_id(net):
    return {l["id"]: l for l in net["links"]}


def desc(net):
    """A short description of a network for evidence samples."""
    return "%s; %d links %s; %d core nodes, %d O, %d D; scalar %s, dt %ss, " \
        "assign_frq %d x %d, total %d; demand %s" % (
            net["routing"], len(net["links"]),
            "/".join("%s:%d" % (t, sum(l["type"] == t for l in net["links"]))
                     for t in ("PQ", "CTM", "LQ")),
            sum(n["type"] == "FWJ" for n in net["nodes"]),
            len(net["origins"]), len(net["dests"]), net["flow_scalar"],
            net["unit_time"], net["assign_frq"], net["max_interval"],
            net["total_interval"],
            [[r[0], r[1], [round(v, 2) for v in r[2]]]
             for r in net["demand"]][:3])


# --------------------------------------------------------------------------
# multiclass: the same observations per class ("car", "truck")

KLASS = ("car", "truck")


def start_mcdta(net, d, registered="all", tree=False, cc=True):
    netgen.write_net(net, d)
    macposts.set_random_state(net["rand"])
    m = macposts.Mcdta.from_files(d)
    if registered == "all":
        m.register_links()
    elif registered is not None:
        m.register_links(registered)
    if cc:
        m.install_cc()
    if tree:
        m.install_cc_tree()
    return m


def mc_cc(m, which, way, link):
    return getattr(m, "get_%s_link_%s_cc" % (which, way))(link)


def observe_mcdta(net, m):
    o = Obs()
    o.dta = m
    o.T = m.get_cur_loading_interval()
    o.raw_in, o.raw_out, o.N_in, o.N_out = ({k: {} for k in KLASS}
                                            for _ in range(4))
    for k in KLASS:
        for l in net["links"]:
            i = l["id"]
            o.raw_in[k][i] = raw(mc_cc(m, k, "in", i))
            o.raw_out[k][i] = raw(mc_cc(m, k, "out", i))
            o.N_in[k][i] = expand(o.raw_in[k][i], o.T)
            o.N_out[k][i] = expand(o.raw_out[k][i], o.T)
    o.stats = list(np.asarray(m.get_travel_stats()).ravel())
    return o


def run_mcdta(net, d, registered="all", tree=False):
    m = start_mcdta(net, d, registered, tree)
    m.run_whole(False)
    return observe_mcdta(net, m)


def start(net, d, **kw):
    return (start_mcdta if net["multiclass"] else start_dta)(net, d, **kw)


def run(net, d, **kw):
    return (run_mcdta if net["multiclass"] else run_dta)(net, d, **kw)


def classes(net, o):
    """[(name, truck?, raw_in, raw_out, N_in, N_out)] for either model."""
    if not net["multiclass"]:
        return [("", False, o.raw_in, o.raw_out, o.N_in, o.N_out)]
    return [(k, k == "truck", o.raw_in[k], o.raw_out[k], o.N_in[k],
             o.N_out[k]) for k in KLASS]


def curve_key(net, o):
    return str(hash(tuple(
        c[j][i].tobytes() for c in classes(net, o) for j in (4, 5)
        for i in sorted(c[j]))))
