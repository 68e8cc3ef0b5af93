"""Names change meaning while a program runs (eval, with, delete, closures): every access must find the binding the
standard gives it, whatever was resolved before, whatever failed or was collected in between."""
from .nodeprop import NodeProp, add_gc, add_probe
from ..gen.scopegen import gen_scope


class C19(NodeProp):
    id = "C19"
    quick_cases = 16000; quick_secs = 80; thorough_cases = 400000; thorough_secs = 800; min_lines = 3
    rule = "a case counts when the program logged at least 3 accesses and the reference accepted it"
    distinct_measure = "distinct (program, host calls that failed)"

    def gen(self, rng, i, tier):
        s = gen_scope(rng); add_probe(rng, s, 6, .4); add_gc(rng, s, .3); s["cpu"] = 20
        return {"sim": s}


PROP = C19()
