"""Invariants over the observed cumulative curves.  Each returns messages."""
import math

import numpy as np

from .sim import fftt, near_boundary

EPS = 1e-6


def conservation(net, N_in, N_out, T, what=""):
    """Every junction passes on exactly what it receives, at every time."""
    out = []
    for n in net["nodes"]:
        if n["type"] != "FWJ":
            continue
        a = np.zeros(T + 1)
        b = np.zeros(T + 1)
        for l in net["links"]:
            if l["to"] == n["id"]:
                a = a + N_out[l["id"]]
            if l["from"] == n["id"]:
                b = b + N_in[l["id"]]
        bad = np.nonzero(np.abs(a - b) > EPS * (1 + np.abs(a)))[0]
        if len(bad):
            t = int(bad[0])
            out.append("junction %d at time %d: %s%.6g vehicles came in, %.6g "
                       "went out" % (n["id"], t, what, a[t], b[t]))
    return out


def curve_shape(raw_, N, T, scalar, name):
    out = []
    if raw_.ndim != 2 or raw_.shape[1] != 2 or len(raw_) < 1:
        return ["%s: malformed curve %r" % (name, raw_.shape)]
    if raw_[0, 0] != 0 or raw_[0, 1] != 0:
        out.append("%s does not start at (0, 0)" % name)
    if np.any(np.diff(raw_[:, 0]) < 0):
        out.append("%s: times not in order" % name)
    if np.any(np.diff(raw_[:, 1]) < -EPS):
        out.append("%s decreases" % name)
    if np.any(raw_[:, 0] > T + EPS) or np.any(raw_[:, 0] < 0):
        out.append("%s has a time outside the run" % name)
    q = raw_[:, 1] * scalar
    if np.any(np.abs(q - np.round(q)) > 1e-4 * (1 + np.abs(q) * 1e-3)):
        out.append("%s is not a whole number of simulated vehicles" % name)
    return out


def causality(net, N_in, N_out, T, truck=False, what="", lag=None):
    """No vehicle leaves a link before it entered it plus free-flow time."""
    out = []
    dt = net["unit_time"]
    for l in net["links"]:
        i = l["id"]
        if l["type"] in ("PQ", "CTM"):
            n = fftt(l, dt, truck) if lag is None else lag(l)
            if near_boundary(l, dt, truck):
                n = max(1, n - 1)
        else:
            n = 1
        a = np.concatenate([np.zeros(min(n, T + 1)), N_in[i]])[:T + 1]
        bad = np.nonzero(N_out[i] > a + EPS * (1 + a))[0]
        if len(bad):
            t = int(bad[0])
            out.append(
                "link %d (%s): %s%.6g left by time %d but only %.6g had "
                "entered by %d (free-flow time %d intervals)"
                % (i, l["type"], what, N_out[i][t], t, a[t], t - n, n))
    return out


def cap_interval(l, dt, scalar, cap_key="cap"):
    """Capacity of a link in simulated vehicles per interval."""
    cap = l[cap_key]
    if l["type"] == "CTM":
        cap = min(cap, 3500.0)
    q = cap / 3600.0 * l["lanes"] * dt * scalar
    if l["type"] in ("CTM", "LQ"):
        q = max(q, 1.0)
    return q


def jam_storage(l, dt, scalar):
    """Vehicles that fit on a CTM/LQ link, in simulated vehicles."""
    rho = l["rhoj"]
    if l["type"] == "CTM":
        rho = min(rho, 300.0)
    cell = l["ffs"] * dt / 3600.0
    length = l["length"]
    if l["type"] == "CTM":
        length = max(length, cell)  # at least one whole cell
    return rho * l["lanes"] * length * scalar
