from .base import Prop, leak_line, shrink_sched
from ..driver import Outcome
from ..gen.weakgen import WG, Model, source

W3 = {"new": 6, "drop": 5, "link": 3, "unlink": 1, "go": 1, "wr": 4, "deref": 5, "take": 2, "fr": .3, "frdrop": .2, "reg": 6, "unreg": 3, "gc": 3, "junk": 1, "micro": 2}
W4 = {"new": 6, "drop": 5, "link": 3, "unlink": 1, "go": 1, "wr": 2, "deref": 3, "take": 1, "wm": .2, "wmdrop": .3, "wms": 5, "wmnew": 5, "wmg": 5, "wmt": 2, "wmd": 1.5, "ws": .1, "wsa": 2, "wsh": 2, "wsd": .7, "gc": 3, "junk": 1, "micro": 1.5}


class Weak(Prop):
    weights = W3; nslots = 6
    quick_cases = 6000; quick_secs = 100
    rule = "a case counts when at least one collection ran and the program observed an object die (or read a weak collection)"
    distinct_measure = "distinct (operation history, set of allocation indices after which a collection ran)"
    assumptions = ["an object is judged reachable from the program's own slots, links, live weak maps and the objects created or read through weak references in the current job"]

    def gen(self, rng, i, tier):
        c = WG(rng, self.weights, rng.choice([3, 5, 8])).case(); s = {"cpu": 40}
        k = rng.random()
        if k < .25: pass
        elif k < .45: s["gc"] = "every"
        else: s["gc"] = "rand:%d:%d" % (rng.choice([3000, 20000, 100000]), rng.getrandbits(40))
        return dict(c, sim=s)

    def execute(self, env, case):
        o = Outcome(); s = dict(case["sim"], src=source(case), epilogue="$check();")
        r = self.sim(env).run(s); self.acct(o, r, case); o.hash = r.hash(); o.key = repr(case["jobs"]) + repr(r.fired)
        o.detail = r.lines[-150:] + r.err.split("\n")[:20]
        if r.crash(): return o.fail(r.crash(), r.err[:300])
        m = Model(); log = r.log()
        for n, l in enumerate(log):
            try: m.feed(l)
            except Model.Bad as e: return o.fail(self.cls(str(e)), "%s (log line %d: %s)" % (e, n, l))
        if not m.final: return o.fail("did not finish", "the program ended before its last check")
        o.extra.update(m.stats); o.nontrivial = r.n_gc > 0 and (m.stats["deaths seen"] + m.stats["callbacks"] + m.stats["weak map reads"] > 0)
        o.nontrivial = (r.n_gc > 0 or "gc" in log) and (m.stats["deaths seen"] + m.stats["callbacks"] + m.stats["weak map reads"] > 0)
        if "malloc=0 file=0 dir=0 ucnv=0" not in (leak_line(r) or ""): return o.fail("leak", leak_line(r))
        return o

    def cls(self, m):
        import re
        return re.sub(r"-?\d+", "N", m)[:80]

    def shrink(self, case):
        s = case["sim"]; f = case.get("_fired") or {}
        for t in shrink_sched(s.get("gc"), f.get("collection")): yield dict(case, sim=dict(s, gc=t))
        for j in range(len(case["jobs"]) - 1, -1, -1): yield dict(case, jobs=case["jobs"][:j] + case["jobs"][j + 1:])
        for key in ("jobs", "cbops"):
            for j, ops in enumerate(case[key]):
                if ops: yield dict(case, **{key: case[key][:j] + [[]] + case[key][j + 1:]})
            for j, ops in enumerate(case[key]):
                for k in range(len(ops)): yield dict(case, **{key: case[key][:j] + [ops[:k] + ops[k + 1:]] + case[key][j + 1:]})


class C03(Weak):
    id = "C03"


PROP = C03()
