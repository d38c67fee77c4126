"""Everything a user can read from a finished simulation, hashed by name."""
import hashlib
import json
import os
import shutil
import sys
import tempfile

import numpy as np
import macposts

from . import mmgen, netgen


def h(x):
    a = np.ascontiguousarray(np.asarray(x, dtype=float))
    return hashlib.sha256(str(a.shape).encode() + a.tobytes()).hexdigest()[:12]


def put(net, d):
    if "mm" in net:
        mmgen.write(net, d)
    else:
        netgen.write_net(net, d)


def start(net, d, links=None, tree=False, paths=False):
    """A simulation of the network in directory d, not yet run."""
    macposts.set_random_state(net["rand"])
    if "mm" in net:
        m = macposts.Mmdta()
        m.initialize(d)
        mm = net["mm"]
        for f, ls in ((m.register_links_driving, net["links"]),
                      (m.register_links_walking, mm["walks"]),
                      (m.register_links_bus, mm["blinks"])):
            ls = [l["id"] for l in ls if links is None or l["id"] in links]
            if ls:
                f(ls)
        m.install_cc()
        if tree:
            m.install_cc_tree()
        return m
    m = (macposts.Mcdta if net["multiclass"] else macposts.Dta).from_files(d)
    if links is None:
        m.register_links()
    elif len(links):
        m.register_links(np.array(links, dtype=int))
    if paths:
        m.register_paths(np.arange(len(net["paths"]), dtype=int))
    m.install_cc()
    if tree:
        m.install_cc_tree()
    return m


def read(net, m, links=None, full=True):
    """{name: hash}; links restricts the per-link observations."""
    if "mm" in net:
        from . import mmsim
        o = mmsim.observe(net, m)
        out = {"number of intervals": o.T, "travel statistics": h(o.stats)}
        for (k, i), r in o.raw.items():
            if links is None or i in links:
                out["%s curve of link %d" % (k, i)] = h(r)
        return out
    out = {}
    T = m.get_cur_loading_interval()
    out["number of intervals"] = T
    out["travel statistics"] = h(m.get_travel_stats())
    ids = [l["id"] for l in net["links"]] if links is None else links
    mc = net["multiclass"]
    for i in ids:
        for way in ("in", "out"):
            for k in ("car_", "truck_") if mc else ("",):
                out["%s%s-curve of link %d" % (k, way, i)] = h(
                    getattr(m, "get_%slink_%s_cc" % (k, way))(i))
    if links is None and full and T >= 2:
        s = np.array([float(x) for x in sorted({1, T // 3 + 1, T // 2 + 1})])
        e = np.minimum(s + max(1, T // 4), T).astype(float)
        ok = e > s
        s, e = s[ok], e[ok]
        if mc:
            for k in ("car", "truck"):
                out[k + " travel times"] = h(getattr(
                    m, "get_%s_link_tt" % k)(s, False))
                out[k + " inflow"] = h(getattr(
                    m, "get_link_%s_inflow" % k)(s, e))
            out["queue statistics"] = h(m.get_enroute_and_queue_veh_stats_agg())
            out["waiting times"] = h(m.get_waiting_time_at_intersections())
        else:
            out["travel times"] = h(m.get_link_tt(s, False))
            out["inflow"] = h(m.get_link_inflow(s, e))
    return out


def whole(net, d=None, verbose=False):
    own = d is None
    if own:
        d = tempfile.mkdtemp(prefix="vfcase_")
        put(net, d)
    try:
        m = start(net, d)
        m.run_whole(verbose)
        return read(net, m)
    finally:
        if own:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    # a process of its own: one network per line in, one fingerprint out
    w = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(os.open(os.devnull, os.O_RDWR), 1)
    for line in sys.stdin:
        w.write(json.dumps(whole(json.loads(line))) + "\n")
