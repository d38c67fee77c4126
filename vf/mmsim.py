"""Run the multimodal simulator on a generated network, collect curves."""
import numpy as np
import macposts

from . import mmgen
from .sim import Obs, expand, raw


def start(net, d, tree=False):
    mmgen.write(net, d)
    macposts.set_random_state(net["rand"])
    m = macposts.Mmdta()
    m.initialize(d)
    m.register_links_driving([l["id"] for l in net["links"]])
    m.register_links_walking([w["id"] for w in net["mm"]["walks"]])
    m.register_links_bus([b["id"] for b in net["mm"]["blinks"]])
    m.install_cc()
    if tree:
        m.install_cc_tree()
    return m


def observe(net, m):
    o = Obs()
    o.m = m
    o.T = T = m.get_cur_loading_interval()
    o.raw, o.N = {}, {}

    def put(kind, i, cc):
        r = raw(cc)
        o.raw[kind, i] = r
        o.N[kind, i] = expand(r, T)

    for l in net["links"]:
        i = l["id"]
        put("car_in", i, m.get_car_link_in_cc(i))
        put("car_out", i, m.get_car_link_out_cc(i))
        put("truck_in", i, m.get_truck_link_in_cc(i))
        put("truck_out", i, m.get_truck_link_out_cc(i))
    for w in net["mm"]["walks"]:
        i = w["id"]
        put("in", i, m.get_walking_link_in_cc(i))
        put("out", i, m.get_walking_link_out_cc(i))
    for b in net["mm"]["blinks"]:
        i = b["id"]
        put("in", i, m.get_bus_link_in_passenger_cc(i))
        put("out", i, m.get_bus_link_out_passenger_cc(i))
        put("to_in", i, m.get_bus_link_to_busstop_in_cc(i))
        put("to_out", i, m.get_bus_link_to_busstop_out_cc(i))
        put("from_in", i, m.get_bus_link_from_busstop_in_cc(i))
        put("from_out", i, m.get_bus_link_from_busstop_out_cc(i))
    o.stats = list(np.asarray(m.get_travel_stats()).ravel())
    return o


def run(net, d, tree=False):
    m = start(net, d, tree)
    m.run_whole(False)
    return observe(net, m)
