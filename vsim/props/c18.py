"""Large memory requests are refused at chosen points; the reference runs the same program without any refusal."""
from .base import Prop, leak_line
from ..driver import Outcome
from ..gen.oomgen import gen_oom
import re


class C18(Prop):
    id = "C18"
    quick_cases = 4000; quick_secs = 70; thorough_cases = 300000; thorough_secs = 800
    rule = "a case counts when at least one memory request was refused"
    distinct_measure = "distinct (program, large memory requests refused)"
    assumptions = ["a refused request for a fixed-size record ends the process by design; only its being an orderly end is judged"]

    def gen(self, rng, i, tier):
        s = gen_oom(rng); s["mallocmin"] = rng.choice([30000, 30000, 60000, 100000]); s["mallocall"] = 1; s["malloclimit"] = 1 << 28
        k = rng.random(); n = rng.choice([2, 5, 10, 25])
        if k < .75: s["malloc"] = "list:" + ",".join(map(str, sorted(set(rng.randrange(n) for _ in range(rng.choice([1, 1, 1, 2, 3]))))))
        else:
            lo = rng.randrange(n); s["malloc"] = "range:%d:%d" % (lo, lo + rng.choice([2, 4, 10, 1000]))
        if rng.random() < .3: s["gc"] = "rand:%d:%d" % (rng.choice([3000, 30000]), rng.getrandbits(40))
        s["cpu"] = 30
        return {"sim": s}

    def execute(self, env, case):
        o = Outcome(); s = case["sim"]
        ref = env.node().run({"src": s["src"], "prologue": s["prologue"], "order": [], "probe": [], "pdetach": [], "drain": 1})
        r = self.sim(env).run(s); self.acct(o, r, case); o.hash = r.hash()
        ooms = [l for l in r.lines if l.startswith("!oom")]
        o.nontrivial = bool(ooms); o.key = s["src"] + repr(sorted(r.fired))
        o.detail = ["-- engine"] + r.lines[-120:] + ["-- stderr"] + r.err.split("\n")[:30] + ["-- reference"] + (ref["out"][-120:] if ref else [])
        if ref is None: o.extra["reference gave no usable result"] = 1; o.nontrivial = False; return o
        c = r.crash(); lines = [l for l in r.lines if not l.startswith(("!alloc",))]
        ended = False
        if c:
            if c.startswith("signal:6") and r.lines and any(l.startswith("!oom") for l in r.lines[-3:]) and "Assert" not in r.err and "Sanitizer" not in r.err: ended = True; o.extra["orderly ends"] = 1
            else: return o.fail(c, r.err[:300])
        want = {}
        for l in ref["out"]:
            m = re.match(r"(\d+) (=>|!>) (.*)", l)
            if m: want[int(m.group(1))] = l
        cur = None; oom = False; seen = 0
        for l in lines:
            m = re.match(r"(\d+) (begin|=>|!>)(.*)", l)
            if l.startswith("!oom"): oom = True; continue
            if not m:
                if not l.startswith(("!", "leaks", "#")): return o.fail("behaviour", "unexpected line %r" % l)
                continue
            k = int(m.group(1))
            if m.group(2) == "begin":
                if k != seen: return o.fail("behaviour", "operation %d began, %d expected" % (k, seen))
                cur = k; oom = False; continue
            seen = k + 1
            if l == want.get(k): continue
            if not oom: return o.fail("behaviour", "operation %d without a refusal: engine %r, reference %r" % (k, l, want.get(k)))
            if m.group(2) == "!>" and m.group(3).strip() in ("RangeError", "TypeError", "SyntaxError"): o.extra["errors thrown"] = o.extra.get("errors thrown", 0) + 1; continue
            return o.fail("behaviour", "operation %d after a refusal: engine %r, reference %r" % (k, l, want.get(k)))
        if ended: return o
        if seen != len(want): return o.fail("behaviour", "%d operations of %d" % (seen, len(want)))
        if "malloc=0 file=0 dir=0 ucnv=0" not in (leak_line(r) or ""): return o.fail("leak", leak_line(r))
        return o


PROP = C18()
