from .nodeprop import NodeProp, add_gc
from .. import progs
from ..gen.promgen import gen_prom
from ..gen.callgen import gen_calls


class C10(NodeProp):
    """A host call (getter, callback, iterator step, conversion, trap) fails at a chosen point."""
    id = "C10"
    quick_cases = 12000; quick_secs = 150; min_lines = 1
    rule = "a case counts when at least one host-call failure fired"
    distinct_measure = "distinct (program, host calls that failed)"

    def nontrivial(self, o, r, ref, case):
        return any(k == 2 for k, _ in r.fired)

    def gen(self, rng, i, tier):
        names = [n for n in progs.NAMES if "noref" not in progs.CORPUS[n]["flags"]]
        if i < 2 * len(names):
            s = progs.corpus_case(names[i % len(names)]); s["probe"] = "list:%d" % (i // len(names) * rng.randrange(1, 12))
        elif rng.random() < .45:
            s = gen_calls(rng); hi = rng.choice([4, 8, 12, 20])
            s["probe"] = "list:" + ",".join(map(str, sorted(set(rng.randrange(hi) for _ in range(rng.choice([1, 1, 1, 2]))))))
        elif rng.random() < .5:
            n = rng.choice(names); s = progs.corpus_case(n)
            s["probe"] = "list:" + ",".join(map(str, sorted(set([rng.randrange(rng.choice([6, 20, 60]))] + [rng.randrange(40) for _ in range(rng.choice([0, 0, 1, 3]))]))))
        else:
            s = progs.gen_async(rng, size=rng.choice([.7, 1.2])) if rng.random() < .75 else gen_prom(rng)
            s["probe"] = "list:" + ",".join(map(str, sorted(set(rng.randrange(12) for _ in range(rng.randint(1, 4))))))
        add_gc(rng, s, .2)
        return {"sim": s}


PROP = C10()
