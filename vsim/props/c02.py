from .base import Prop, leak_line
from ..driver import Outcome
from .. import progs
from ..gen.promgen import gen_prom
from ..gen import weakgen


class C02(Prop):
    """The embedder frees the runtime at an arbitrary point of a program's life."""
    id = "C02"
    rule = "a case counts when the runtime was freed while jobs, unsettled host promises, suspended frames or faults were outstanding"
    distinct_measure = "distinct (program, fault points that fired, number of host events delivered before the free)"
    quick_cases = 8000; quick_secs = 110

    def gen(self, rng, i, tier):
        names = progs.NAMES
        k = rng.random()
        if i < len(names): s = progs.corpus_case(names[i])
        elif k < .3: s = progs.corpus_case(rng.choice(names))
        elif k < .45: s = gen_prom(rng)
        elif k < .55:
            w = weakgen.WG(rng, dict(__import__("vsim.props.c03", fromlist=["W3"]).W3, **{"wm": .2, "wms": 3, "wmnew": 3})).case(); s = {"src": weakgen.source(w)}
        else: s = progs.any_generated(rng)
        s["order"] = [rng.randrange(32) for _ in range(20)]
        m = rng.random()
        if m < .25: s["drain"] = 0
        elif m < .7: s["maxsettle"] = rng.choice([0, 0, 1, 1, 2, 3, 5])
        if rng.random() < .5: s["probe"] = "list:" + ",".join(map(str, sorted(set(rng.randrange(30) for _ in range(rng.randint(1, 4))))))
        if rng.random() < .5: s["gc"] = "rand:%d:%d" % (rng.choice([1000, 10000, 60000]), rng.getrandbits(40))
        s["cpu"] = 30
        return {"sim": s}

    def execute(self, env, case):
        o = Outcome(); s = case["sim"]; r = self.sim(env).run(s); self.acct(o, r, case); o.hash = r.hash()
        o.nontrivial = s.get("drain") == 0 or "maxsettle" in s or any(k == 2 for k, _ in r.fired)
        o.key = s["src"] + repr((r.fired, s.get("drain"), s.get("maxsettle")))
        o.detail = r.lines[-80:] + r.err.split("\n")[:30]
        if r.crash():
            if r.crash() in ("hang", "trace-overflow") or "stack-overflow" in r.crash(): o.nontrivial = False; return o
            return o.fail(r.crash(), r.err[:300])
        l = leak_line(r) or ""
        if "malloc=0 file=0 dir=0 ucnv=0" not in l: return o.fail("leak", l)
        if any(x.startswith("STACK-IMBALANCE") for x in r.lines): return o.fail("stack imbalance", "value stack not balanced after the run")
        return o

    def shrink(self, case):
        yield from super().shrink(case)


PROP = C02()
