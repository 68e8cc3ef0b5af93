from .base import Prop, first_diff, leak_line
from ..driver import Outcome
from .. import progs


class C01(Prop):
    """Same program with collections disabled is the oracle for the same program under an injected collection schedule."""
    id = "C01"
    rule = "a case counts when at least one collection was injected at a chosen allocation while the program ran"
    distinct_measure = "distinct (program, set of allocation indices after which a collection ran)"
    quick_cases = 6000; quick_secs = 170; thorough_cases = 500000; thorough_secs = 800
    assumptions = ["weak references, finalization registries and heap counters are the only intended ways to observe a collection; programs that use them belong to other properties"]

    def gen(self, rng, i, tier):
        n = len(progs.NAMES)
        if i < n:                       # every hand-written program, collection at every allocation
            s = progs.corpus_case(progs.NAMES[i]); s["gc"] = "every"; name = progs.NAMES[i]
        elif i < 2 * n:
            name = progs.NAMES[i - n]; s = progs.corpus_case(name); s["gc"] = "rand:%d:%d" % (rng.choice([30000, 100000, 300000]), rng.getrandbits(40))
        else:
            if rng.random() < .35:
                name = rng.choice(progs.NAMES); s = progs.corpus_case(name)
            else:
                name = "generated"; s = progs.any_generated(rng)
            k = rng.random()
            if k < .3: s["gc"] = "rand:%d:%d" % (rng.choice([2000, 20000, 100000, 300000, 700000]), rng.getrandbits(40))
            elif k < .5: s["gc"] = "every" if name == "generated" else "rand:500000:%d" % rng.getrandbits(40)
            elif k < .8:
                lo = rng.randrange(0, 2500); s["gc"] = "range:%d:%d" % (lo, lo + rng.choice([1, 3, 10, 60, 200]))
            else:
                lo = rng.randrange(0, 3000); s["gc"] = "rand:500000:%d:%d:%d" % (rng.getrandbits(40), lo, lo + 400)
            if rng.random() < .3 and "async" in name or name == "generated" and rng.random() < .3:
                s["probe"] = "list:" + ",".join(str(rng.randrange(14)) for _ in range(rng.randint(1, 2)))
            if "order" not in s: s["order"] = [rng.randrange(32) for _ in range(8)]
        s["cpu"] = 60
        return {"name": name, "sim": s}

    def execute(self, env, case):
        o = Outcome(); sim = self.sim(env); s = case["sim"]
        base = dict(s, gcoff=1); base.pop("gc", None)
        b = sim.run(base); r = sim.run(s); o.runs = 1; self.acct(o, r, case)
        o.hash = b.hash() + r.hash(); o.nontrivial = r.n_gc > 0; o.key = s.get("src", "") + repr(r.fired_idx(1))
        o.extra["allocations seen"] = r.n_alloc
        o.detail = ["-- with collections"] + r.lines[-80:] + ["-- stderr"] + r.err.split("\n")[:30]
        if b.crash():
            if b.crash() in ("hang", "trace-overflow") or "stack-overflow" in b.crash():      # unbounded recursion in the program itself
                o.nontrivial = False; o.extra["unbounded programs"] = 1; return o
            return o.fail("base:" + b.crash(), "without any collection: " + b.err[:300])
        if r.crash():
            if "stack-overflow" in r.crash(): return o
            if r.crash() == "hang":      # the number of injected collections is bounded, so this is not the collector being slow
                r2 = sim.run(dict(s, cpu=240)); o.runs += 1
                if r2.crash() != "hang": o.nontrivial = False; o.extra["slow"] = 1; return o
            return o.fail(r.crash(), "with collections: %s" % r.crash())
        d = first_diff(r.log(), b.log(), "with collections", "without")
        if d: return o.fail("behaviour", d)
        for x in (b, r):
            if "malloc=0 file=0 dir=0 ucnv=0" not in (leak_line(x) or ""): return o.fail("leak", leak_line(x))
        return o


PROP = C01()
