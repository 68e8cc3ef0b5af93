from .nodeprop import NodeProp, add_gc
from ..gen import mutgen


class C12(NodeProp):
    """Callbacks change the collection that the operation in progress walks over."""
    id = "C12"; quick_cases = 12000; quick_secs = 150; min_lines = 1
    rule = "a case counts when at least one change was made during an operation"
    distinct_measure = "distinct (program, points of change)"

    def nontrivial(self, o, r, ref, case): return any(l.startswith(" mutate") for l in ref["out"])

    def gen(self, rng, i, tier):
        s = mutgen.gen(rng)
        if rng.random() < .1: s["probe"] = "list:%d" % rng.randrange(20)
        add_gc(rng, s, .25)
        return {"sim": s}


PROP = C12()
