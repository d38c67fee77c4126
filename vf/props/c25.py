import importlib

# (property whose cases are run, weight)
PARTS = [("c01", 3), ("c05", 2), ("c06", 2), ("c07", 2), ("c08", 2),
         ("c10", 1), ("c11", 2), ("c12", 2), ("c13", 1), ("c14", 1),
         ("c15", 2), ("c16", 2), ("c17", 1), ("c18", 2), ("c19", 1),
         ("c20", 2), ("c21", 1), ("c22", 3), ("c23", 2), ("c24", 1),
         ("c26", 2), ("c27", 1), ("c28", 1), ("c29", 2), ("c30", 1)]


def part(name):
    return importlib.import_module("vf.props." + name).CHECK


class Check:
    id = "C25"
    flavour = "asan"
    quick_n = 2400
    thorough_n = 30000
    rule = ("cases of the other properties (networks with their runs, query "
            "sequences, graph and path operations, file round trips), run "
            "with the address and undefined-behaviour sanitizers; verdicts "
            "of those properties do not count here; non-trivial by the rule "
            "of the property the case belongs to")
    assumptions = [
        "the extension is built from the working tree with gcc's address and "
        "undefined-behaviour sanitizers (no leak detection, no vptr check)",
    ]

    def gen(self, rng, i, tier):
        names = [n for n, w in PARTS for _ in range(w)]
        n = names[i % len(names)]
        return dict(part=n, case=part(n).gen(rng, i // len(names), tier))

    def run(self, case, ctx):
        p = part(case["part"])
        try:
            r = p.run(case["case"], ctx)
        except Exception as e:
            return dict(viol=[], nt=False, key="error", labels=["error"],
                        count=dict(errors=1), sample=repr(e)[:200])
        return dict(viol=[], nt=bool(r.get("nt")),
                    key=case["part"] + str(r.get("key")),
                    labels=[case["part"]], count=dict(runs=1),
                    sample=dict(part=case["part"], case=r.get("sample")))

    def shrink(self, case):
        for c in part(case["part"]).shrink(case["case"]):
            yield dict(part=case["part"], case=c)


CHECK = Check()
