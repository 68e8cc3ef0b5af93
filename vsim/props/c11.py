from .nodeprop import NodeProp, add_gc
from ..gen import bufgen


class C11(NodeProp):
    """Every call back into the program is a point at which the buffers may be detached."""
    id = "C11"; quick_cases = 12000; quick_secs = 150; min_lines = 1
    rule = "a case counts when the buffers were detached during an operation"
    distinct_measure = "distinct (program, points of detachment and of failing calls)"

    def nontrivial(self, o, r, ref, case): return any(k == 5 for k, _ in r.fired)

    def gen(self, rng, i, tier):
        s = bufgen.gen(rng)
        s["pdetach"] = "list:" + ",".join(map(str, sorted(set(rng.randrange(rng.choice([3, 8, 25])) for _ in range(rng.choice([1, 1, 1, 2]))))))
        if rng.random() < .2: s["probe"] = "list:%d" % rng.randrange(20)
        add_gc(rng, s, .2)
        return {"sim": s}


PROP = C11()
