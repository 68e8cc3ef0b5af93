import collections
from .nodeprop import NodeProp, add_gc, add_probe
from .base import first_diff, leak_line
from ..driver import Outcome
from .. import progs
from ..gen.promgen import gen_prom


class C05(NodeProp):
    """Promise reactions against the reference; nested draining of the job queue against an executable queue model."""
    id = "C05"
    quick_cases = 7000; quick_secs = 130

    def gen(self, rng, i, tier):
        k = rng.random()
        if k < .2: return self.gen_jobs(rng)
        s = gen_prom(rng, size=rng.choice([.7, 1, 1.5])) if k < .8 else progs.gen_async(rng, ("plain",))
        add_probe(rng, s, p=.35); add_gc(rng, s, .2)
        return {"mode": "ref", "sim": s}

    # --- nested draining: what each numbered job does; the oracle is a queue ---
    def gen_jobs(self, rng):
        n = rng.randint(2, 14); acts = []
        for j in range(n):
            a = []
            for _ in range(rng.randint(0, 4)):
                x = rng.random()
                if x < .5 and j + 1 < n: a.append(["q", rng.randint(j + 1, n - 1)])
                elif x < .8: a.append(["s"])
                elif x < .9 and j + 1 < n: a.append(["c", rng.randint(j + 1, n - 1)])
                else: a.append(["l", rng.randrange(9)])
            if rng.random() < .15: a.append(["t"])
            acts.append(a)
        c = {"mode": "jobs", "acts": acts, "start": [rng.randrange(n) for _ in range(rng.randint(1, 4))], "sim": {}}
        if rng.random() < .4: c["sim"]["gc"] = "rand:%d:%d" % (rng.choice([20000, 200000]), rng.getrandbits(40))
        return c

    def model(self, case):
        out = []; q = collections.deque(); acts = case["acts"]

        class Thrown(Exception): pass

        def run(j):
            out.append("job %d" % j)
            for a in acts[j]:
                if len(out) > 3000: return
                if a[0] == "q": q.append(a[1])
                elif a[0] == "s": out.append("solve"); drain(); out.append("solved")
                elif a[0] == "c":
                    try: run(a[1])
                    except Thrown: out.append("caught")
                elif a[0] == "l": out.append("l%d" % a[1])
                else: raise Thrown()

        def drain():
            while q:
                if len(out) > 3000: return
                j = q.popleft()
                try: run(j)
                except Thrown: pass
        for j in case["start"]: q.append(j)
        out.append("start"); drain()
        return out

    def jobs_src(self, case):
        o = ["const A={};", "function q(j){ Promise.resolve().then(()=>J(j)); }", "function J(j){ $.log(\"job \"+j); A[j](); }"]
        for j, acts in enumerate(case["acts"]):
            b = []
            for a in acts:
                b.append({"q": "q(%s);", "s": "$.log(\"solve\"); $.solve(); $.log(\"solved\");%s", "c": "try { J(%s); } catch(e) { $.log(\"caught\"); }", "l": "$.log(\"l%s\");", "t": "throw %s;"}[a[0]] % (a[1] if len(a) > 1 else "1" if a[0] == "t" else ""))
            o.append("A[%d]=()=>{ %s };" % (j, " ".join(b)))
        o += ["q(%d);" % j for j in case["start"]] + ["$.log(\"start\");"]
        return "\n".join(o)

    def execute(self, env, case):
        if case["mode"] == "ref": return super().execute(env, case)
        o = Outcome(); want = self.model(case)
        if len(want) > 2500: return o
        s = dict(case["sim"], src=self.jobs_src(case), cpu=20); r = self.sim(env).run(s); self.acct(o, r, case); o.hash = r.hash()
        o.nontrivial = len(want) > 4 and "solve" in want; o.key = s["src"]; o.extra["nested drains"] = want.count("solve")
        o.detail = ["-- engine"] + r.lines[-100:] + ["-- queue model"] + want[-100:]
        if r.crash(): return o.fail(r.crash(), r.err[:300])
        d = first_diff(r.log(), want, "engine", "queue model")
        if d: return o.fail("job order", d)
        if "malloc=0 file=0 dir=0 ucnv=0" not in (leak_line(r) or ""): return o.fail("leak", leak_line(r))
        return o

    def shrink(self, case):
        if case["mode"] == "ref": yield from super().shrink(case); return
        for k in range(len(case["start"])):
            if len(case["start"]) > 1: yield dict(case, start=case["start"][:k] + case["start"][k + 1:])
        for j, a in enumerate(case["acts"]):
            if a: yield dict(case, acts=case["acts"][:j] + [[]] + case["acts"][j + 1:])
        for j, a in enumerate(case["acts"]):
            for k in range(len(a)): yield dict(case, acts=case["acts"][:j] + [a[:k] + a[k + 1:]] + case["acts"][j + 1:])
        if case["sim"].get("gc"): yield dict(case, sim={})


PROP = C05()
