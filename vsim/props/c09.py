import re
from .base import Prop, leak_line
from ..driver import Outcome
from .. import progs
from ..gen.roundgen import gen_rounds


class C09(Prop):
    """The same source is run many times in one runtime with a collection after each run: the number of live
    allocations may not grow from run to run."""
    id = "C09"
    rule = "a case counts when the program ran repeatedly to completion and allocated"
    distinct_measure = "distinct (program, host-call failures)"
    quick_cases = 8000; quick_secs = 100; thorough_cases = 200000
    assumptions = ["tables inside the engine may grow while warming up; a case is judged by the growth over its last runs, and a slow growth must keep going in a second, four times longer execution"]

    def gen(self, rng, i, tier):
        names = progs.NAMES
        if i < len(names): name = names[i]
        else: name = rng.choice(names) if rng.random() < .3 else None
        if name:
            s = progs.corpus_case(name)
            if not s["src"].startswith("(function"): s["src"] = "(function(){\n" + s["src"] + "\n})();"
        elif rng.random() < .6: s = gen_rounds(rng)
        else: s = progs.any_generated(rng)
        if i >= len(names) and rng.random() < .5:
            s["probe"] = "list:" + ",".join(map(str, sorted(set(rng.randrange(rng.choice([4, 10, 30])) for _ in range(rng.randint(1, 3))))))
        s["repeat"] = 8; s["cpu"] = 60
        return {"name": name, "sim": s}

    def lives(self, r):
        return [tuple(int(x) for x in re.findall(r"=(-?\d+)", l)) for l in r.lines if l.startswith("!live ")]

    def execute(self, env, case):
        o = Outcome(); s = case["sim"]; r = self.sim(env).run(s); self.acct(o, r, case); o.hash = r.hash()
        o.detail = [l for l in r.lines if l.startswith("!live")] + r.lines[:40] + r.err.split("\n")[:20]
        if r.crash():
            if "stack-overflow" in r.crash() or r.crash() in ("hang", "trace-overflow"): return o
            return o.fail(r.crash(), r.err[:300])
        lv = self.lives(r); o.nontrivial = len(lv) == s["repeat"]; o.key = s["src"] + repr(r.fired)
        if "malloc=0 file=0 dir=0 ucnv=0" not in (leak_line(r) or ""): return o.fail("leak", leak_line(r))
        if len(lv) < 4: return o
        g = [b[0] - a[0] for a, b in zip(lv, lv[1:])]; tail = g[3:]
        for k, nm in ((1, "number conversion blocks"), (2, "open files"), (3, "open directories"), (4, "converters")):
            if lv[-1][k] > lv[3][k]: return self.confirm(env, s, o, k, nm)
        if any(l.startswith("STACK-IMBALANCE") for l in r.lines) or lv[-1][6] != lv[0][6]: return o.fail("growth", "the value stack does not return to its depth: %s" % [x[6] for x in lv])
        if lv[-1][5] - lv[3][5] >= 8 * (len(lv) - 4) and sum(tail) <= 0: return self.confirm(env, s, o, 5, "live bytes")
        if sum(tail) > 0: return self.confirm(env, s, o, 0, "live allocations")
        return o

    def confirm(self, env, s, o, k, nm):
        r = self.sim(env).run(dict(s, repeat=s["repeat"] * 5, probe=s.get("probe", "off"))); o.runs += 1
        lv = [x[k] for x in self.lives(r)]
        if not lv: return o
        q = len(lv) // 4; d = [lv[(j + 1) * q - 1] - lv[j * q] for j in range(4)]
        if k == 5: return o.fail("growth", "live bytes keep growing: %s" % d) if min(d[1:]) >= 8 * (q - 1) else o
        if d[1] > 0 and d[2] > 0 and d[3] > 0 and d[3] + d[2] >= q // 2: return o.fail("growth", "%s keep growing: %s" % (nm, d))
        o.extra["warm-up growth only"] += 1
        return o


PROP = C09()
