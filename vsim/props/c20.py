"""Histories of property operations on objects of every storage kind."""
from .nodeprop import NodeProp, add_gc, add_probe
from ..gen.objgen import gen_objs


class C20(NodeProp):
    id = "C20"
    quick_cases = 12000; quick_secs = 80; thorough_cases = 400000; thorough_secs = 800; min_lines = 3
    rule = "a case counts when the program logged at least 3 results and the reference accepted it"
    distinct_measure = "distinct (program, host calls that failed)"

    def gen(self, rng, i, tier):
        s = gen_objs(rng); add_probe(rng, s, 8, .5); add_gc(rng, s, .25); s["cpu"] = 20
        return {"sim": s}


PROP = C20()
