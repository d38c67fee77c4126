"""Reference link travel times, inflows and path times from raw curves."""
import math

P = 1e-4


def aeq(a, b):
    return abs(a - b) <= P * max(abs(a), abs(b))


def alt(a, b):
    return a + P * max(abs(a), abs(b)) < b


def value(cc, t):
    """Vehicles counted by time t: the last entry not after t."""
    if cc[0][0] >= t or len(cc) == 1:
        return cc[0][1]
    v = cc[0][1]
    for a, b in cc:
        if alt(t, a) or (a > t and not aeq(a, t)):
            break
        v = b
    return v


def when(cc, n):
    """First entry reaching n; where the curve jumps over n, the first entry
    with the value before the jump (rounding down); -1 if never."""
    if cc[0][1] >= n or len(cc) == 1:
        return -1.0
    for j, (a, b) in enumerate(cc):
        if not alt(b, n):
            if aeq(b, n):
                return a
            prev = cc[j - 1][1]
            for a2, b2 in cc:
                if not alt(b2, prev):
                    return a2
    return -1.0


def last_valid(ci, co, T):
    out = co[-1][1]
    if aeq(out, ci[-1][1]):
        return float(T)
    t = when(ci, out)
    if t < 0:
        return 0.0
    k = 1
    while not alt(out, value(ci, t + k)):
        k += 1
    return t + k - 1


class Link:
    """Curves of one link and class, with its free-flow time."""

    def __init__(self, ci, co, T, fftt, ff_seconds, dt):
        self.ci = [tuple(r) for r in ci.tolist()]
        self.co = [tuple(r) for r in co.tolist()]
        self.T, self.fftt, self.ff, self.dt = T, fftt, ff_seconds, dt
        self.lv = last_valid(self.ci, self.co, T)
        self.memo = {}

    def tt(self, x):
        """Intervals, entering at interval x (the count at x + 1)."""
        if x not in self.memo:
            self.memo[x] = self._tt(x + 1)
        return self.memo[x]

    def _tt(self, start):
        if self.lv <= 0:
            return self.fftt
        start = min(start, self.lv)
        n = value(self.ci, start)
        if n <= 2.3e-16:
            return self.fftt
        end = when(self.co, n)
        if end < 0 or end - start < self.fftt:
            return self.fftt
        return end - start

    def cap(self, seconds, inf):
        top = 20.0 * self.ff
        if seconds > top:
            return math.inf if inf else top
        return seconds

    def near_cap(self, seconds):
        return abs(seconds - 20.0 * self.ff) < 1e-6 * self.ff

    def robust_intervals(self, a, b, trials):
        n = min(trials, int(b - a))
        d = (b - a) / n
        return sum(self.tt(a + i * d) for i in range(n)) / n


def round_up(x):
    if x < 1:
        return 1
    return int(x) if aeq(x, int(x)) else int(x) + 1


def fd_seconds(l, n, dt, scalar):
    """Fundamental-diagram travel time of a link holding n vehicles."""
    length = l["length"] * 1600.0
    ffs = l["ffs"] * 1600.0 / 3600.0
    cap, rhoj = l["cap"], l["rhoj"]
    if l["type"] == "CTM":
        cap, rhoj = min(cap, 3500.0), min(rhoj, 300.0)
    if l["type"] == "LQ":  # at least one simulated vehicle per interval
        cap = max(cap, 3600.0 / (l["lanes"] * dt * scalar))
    cap, rhoj = cap / 3600.0, rhoj / 1600.0
    rho = n / l["lanes"] / length
    rhok = cap / ffs
    if rho >= rhoj:
        return 3600.0
    if rho <= rhok:
        return length / ffs
    low = (0.001 if l["type"] == "CTM" else 2.3e-16) * ffs
    return length / max(low, cap * (rhoj - rho) / ((rhoj - rhok) * rho))


def fd_seconds_mc(l, n, dt, scalar):
    """The same for the two-class model, n counting cars and trucks."""
    length = l["length"] * 1600.0
    ffs = l["ffs"] * 1600.0 / 3600.0
    if l["type"] == "PQ":
        return length / ffs
    cap, rhoj, lanes = l["cap"] / 3600.0, l["rhoj"] / 1600.0, l["lanes"]
    low = 2.3e-16
    if l["type"] == "CTM":
        cap, rhoj = min(cap, 3500.0 / 3600.0), min(rhoj, 0.25)
        length = max(length, ffs * dt)
        low = 0.001
    cap = max(cap, 1.0 / (lanes * dt * scalar))
    rho = n / lanes / length
    rhok = cap / ffs
    if rho >= rhoj:
        return 3600.0
    if rho <= rhok:
        return length / ffs
    return length / max(low * ffs, cap * (rhoj - rho) / (rhoj - rhok) / rho)


def fd_length_mc(l, dt):
    """Metres the two-class model takes a link to be long."""
    length = l["length"] * 1600.0
    if l["type"] == "CTM":
        length = max(length, l["ffs"] * 1600.0 / 3600.0 * dt)
    return length


def recorded(tt, n):
    """Times averaged over n intervals as the statistics record them.

    tt[j] belongs to the end of interval j; result[t] is what is on record
    while interval t + 1 is being simulated, result[-1] (an empty network)
    during interval 0."""
    out = {-1: tt[-1]}
    for t in range(len(tt) - 1):
        if t == 0:
            out[t] = tt[0]
        elif t % n == 0:
            out[t] = sum(tt[j] for j in range(t - n + 1, t + 1)) / n
        else:
            out[t] = out[t - 1]
    return out
