"""Properties whose oracle is an independent implementation of the language running the
same program under the same schedule of host events and host-call faults."""
import re
from .base import Prop, first_diff, leak_line
from ..driver import Outcome


class NodeProp(Prop):
    distinct_measure = "distinct (program, settlement order, fault points that fired)"
    rule = "a case counts when the program logged at least 10 steps and the reference accepted it"
    min_lines = 10
    assumptions = ["the reference implementation (node 22) is right about the language constructs the generator emits; where it is known to deviate from the standard the generator avoids the construct"]

    def plist(self, s, k):
        t = s.get(k) or ""
        return [int(x) for x in t[5:].split(",") if x] if t.startswith("list:") else []

    def nontrivial(self, o, r, ref, case):
        return len(ref["out"]) >= self.min_lines

    def key(self, case, r):
        s = case["sim"]; return s["src"] + repr(s.get("order")) + repr(sorted(r.fired))

    def norm(self, line):
        return line

    def execute(self, env, case):
        o = Outcome(); s = dict(case["sim"]); s.setdefault("cpu", 10)
        ref = env.node().run({"src": s["src"], "prologue": s.get("prologue", ""), "order": s.get("order", []), "probe": self.plist(s, "probe"), "pdetach": self.plist(s, "pdetach"), "drain": s.get("drain", 1)})
        r = self.sim(env).run(s); self.acct(o, r, case); o.hash = r.hash()
        o.detail = ["-- engine"] + r.lines[-120:] + ["-- stderr"] + r.err.split("\n")[:30] + ["-- reference"] + (ref["out"][-120:] if ref else [])
        if ref is None or len(ref["out"]) > 4000:
            o.extra["reference gave no usable result"] = 1
            if r.crash() and "stack-overflow" not in r.crash() and r.crash() not in ("hang", "trace-overflow"): return o.fail(r.crash(), r.err[:300])
            return o
        if any("SyntaxError" in l for l in ref["out"][:1]) and len(ref["out"]) == 1:
            o.extra["rejected by reference"] = 1; return o
        o.nontrivial = self.nontrivial(o, r, ref, case); o.key = self.key(case, r)
        if r.crash(): return o.fail(r.crash(), r.err[:300])
        d = first_diff([self.norm(l) for l in r.log()], [self.norm(l) for l in ref["out"]], "engine", "reference")
        if d: return o.fail("behaviour", d)
        if r.n_probe != ref["np"]: return o.fail("behaviour", "host calls %d, reference %d" % (r.n_probe, ref["np"]))
        if "malloc=0 file=0 dir=0 ucnv=0" not in (leak_line(r) or ""): return o.fail("leak", leak_line(r))
        return o


def add_gc(rng, s, p=.35):
    if rng.random() < p:
        s["gc"] = "rand:%d:%d" % (rng.choice([5000, 30000, 150000]), rng.getrandbits(40)); s["cpu"] = 40


def add_probe(rng, s, hi=14, p=.6):
    if rng.random() < p:
        s["probe"] = "list:" + ",".join(map(str, sorted(set(rng.randrange(hi) for _ in range(rng.randint(1, 3))))))
