from .nodeprop import NodeProp, add_gc, add_probe
from .. import progs


class C06(NodeProp):
    """Async functions and async generators against the reference."""
    id = "C06"
    quick_cases = 6000; quick_secs = 120

    def gen(self, rng, i, tier):
        s = progs.gen_async(rng, rng.choice([("plain", "async"), ("async", "agen"), ("async",), ("agen", "plain"), ("plain", "gen", "async", "agen")]), size=rng.choice([.7, 1, 1.5]))
        add_probe(rng, s, p=.4); add_gc(rng, s, .25)
        return {"sim": s}


PROP = C06()
