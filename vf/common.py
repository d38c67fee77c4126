"""Pieces the property modules share."""
from . import netgen


# Curves are read with a relative tolerance of 1e-4, by time too, so that
# intervals blur in runs longer than this; such runs are not judged.
LONGEST = 4000


class NetCheck:
    """A property checked on one generated network per case.

    Odd cases use the two-class model, even ones the single-class model.
    """
    opts = {}
    mc_opts = {}
    only = None  # "single" or "multi"
    assumptions = [
        "inputs respect the documented conventions: origins and destinations "
        "hang on point-queue connectors, counts in config.conf match the "
        "files, jam density at least about twice the critical density, a "
        "cell holds at least two simulated vehicles",
        "the simulator is driven through the Python package built from the "
        "working tree at -O1 without LTO",
    ]

    def pick(self, rng, i):
        mc = (i % 2 == 1) if self.only is None else self.only == "multi"
        o = dict(self.opts)
        if mc:
            o.update(self.mc_opts)
            o["multiclass"] = True
        return o

    def gen(self, rng, i, tier):
        o = self.pick(rng, i)
        return dict(net=netgen.gen_net(rng, o))

    def shrink(self, case):
        for n in netgen.shrink_net(case["net"]):
            c = dict(case)
            c["net"] = n
            yield c


def labels(net, extra=()):
    return ["multi" if net["multiclass"] else "single", net["kind"],
            "cyclic" if not net["acyclic"] else "acyclic"] + list(extra)


def ends(net):
    """Links leaving origins, links entering destinations."""
    ons = {n for _, n in net["origins"]}
    dns = {n for _, n in net["dests"]}
    return ([l["id"] for l in net["links"] if l["from"] in ons],
            [l["id"] for l in net["links"] if l["to"] in dns])


def moved(net, o):
    from . import sim
    a, _ = ends(net)
    return sum(c[4][i][-1] for c in sim.classes(net, o) for i in a) \
        * net["flow_scalar"]


def eq(a, b, tol=1e-6):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))
