"""Path flows on links, read through the DAR interface."""
import numpy as np


def i32(x):
    return np.array(list(x), dtype=np.int32)


def rows(m, multi, k, starts, ends):
    f = getattr(m, "get_%s_dar_matrix" % k if multi else "get_dar_matrix")
    a = np.asarray(f(i32(starts), i32(ends)))
    return a.reshape(-1, 5)


def unit(m, multi, k, T):
    """{(path, assign interval, link): entering flow per interval 0..T-1}"""
    out = {}
    for p, a, l, s, f in rows(m, multi, k, range(T), range(1, T + 1)):
        key = (int(p), int(a), int(l))
        if key not in out:
            out[key] = np.zeros(T)
        out[key][int(s)] += f
    return out
