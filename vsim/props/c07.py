from .nodeprop import NodeProp, add_gc, add_probe
from .. import progs


class C07(NodeProp):
    """Generators suspended anywhere, resumed with next, throw and return in any order, against the reference."""
    id = "C07"
    quick_cases = 6000; quick_secs = 110

    def gen(self, rng, i, tier):
        s = progs.gen_async(rng, rng.choice([("gen",), ("plain", "gen"), ("plain", "gen", "gen")]), sync_only=True, size=rng.choice([.7, 1, 1.6]))
        add_probe(rng, s, p=.3); add_gc(rng, s, .25)
        return {"sim": s}


PROP = C07()
