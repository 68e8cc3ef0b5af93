from .thr import Thr
from ..driver import Outcome
from ..gen import atomgen as G


class C13(Thr):
    id = "C13"
    rule = "a case counts when operations of at least two agents on one 8-byte word overlapped in time"
    assumptions = ["operations on one aligned 8-byte word are judged together (linearizability is local)", "plain 64-bit and floating accesses, DataView accesses and block copies may tear and are not used"]

    def gen(self, rng, i, tier):
        na = rng.choice([2, 2, 3, 3, 4]); words = rng.choice([[0], [0], [0], [0, 1]])
        k = rng.random()
        tys = list(G.TY) if k < .4 else rng.sample(list(G.TY), 2) if k < .7 else [rng.choice(list(G.TY))]
        ags = [[G.gen_op(rng, words, tys) for _ in range(rng.randint(2, 7))] for _ in range(na)]
        init = [rng.getrandbits(64) if rng.random() < .5 else 0 for _ in range(2)]
        s = self.sched(rng)
        if rng.random() < .2: s["gc"] = "rand:%d:%d" % (rng.choice([1000, 20000]), rng.getrandbits(40))
        return {"ags": ags, "init": init, "sim": s}

    def sources(self, case):
        out = {"sab0": G.NSAB}
        for k, ops in enumerate(case["ags"]):
            src = G.PRE
            if k == 0:
                src += "".join("V.u64[%d] = %dn;\n" % (w, case["init"][w]) for w in range(2)) + "$.put(1, sab);\n"
            else: src += "$.take(1);\n"
            for j, op in enumerate(ops): src += G.render(op, k * 100 + j) + "\n"
            out["a%d" % (k + 1)] = src
        return out

    def execute(self, env, case):
        o = Outcome(); s = dict(case["sim"], agents=len(case["ags"]), **self.sources(case))
        r = self.sim(env).run(s); self.acct(o, r, case); o.hash = r.hash(); o.key = repr(case["ags"]) + self.il(r); o.detail = r.lines[-200:] + r.err.split("\n")[:10]
        a = self.alarm(env, o, r)
        if a: return o.fail(*a)
        inv = {}; ops = {0: [], 1: []}; exp = {}; n = 0
        for n, l in enumerate(r.lines):
            p = l.split(" ", 1)
            if len(p) < 2 or not p[0].isdigit(): continue
            t = p[1]
            if t[0] == ">": inv[int(t[1:])] = n
            elif t[0] == "=": a, b = t[1:].split(" "); exp[int(a)] = int(b)
            elif t[0] == "<":
                oid, v = t[1:].split(" ", 1); oid = int(oid); op = case["ags"][oid // 100][oid % 100]
                if v[0] == "!": return o.fail("operation threw", "%r: %s" % (op, v))
                self.add(ops, op, exp.get(oid, op[3] if len(op) > 3 else None), inv[oid], n, v)
            elif t.startswith(("uncaught", "parse", "unhandled")): return o.fail("error in an agent", t)
        done = sum(1 for l in r.lines if l.endswith(" end"))
        if done != len(case["ags"]): return o.fail("an agent did not finish", "; ".join(l for l in r.lines if " blocked " in l))
        if "leaks live=0" not in r.lines: return o.fail("leak", "; ".join(l for l in r.lines if l.startswith("leaks")))
        for w in (0, 1):
            l = ops[w]; o.nontrivial |= any(a[0] < b[0] < a[1] for a in l for b in l)
            res = G.linearizable(l, case["init"][w])
            o.extra["words judged"] += 1
            if res is None: o.extra["search budget exceeded"] += 1
            elif not res: return o.fail("not linearizable", "word %d: %s" % (w, "; ".join("[%d,%d] %s" % (x[0], x[1], x[3]) for x in sorted(l, key=lambda x: x[0]))))
        return o

    def add(self, ops, op, expect, a, b, v):
        def one(op, ret, txt):
            ops[op[2] // 8].append((a, b, lambda st: G.apply(op, expect, st, ret), txt))
        k = op[0]; sz = G.TY[op[1]][0]
        if k == "fill":
            for j in range(8 // sz): one(["set", op[1], op[2] + j * sz, op[3]], 0, "fill %s %d" % (op[1:3], j))
        elif k == "from":
            for j, x in enumerate(v.split(",")): one(["get", op[1], op[2] + j * sz], int(x), "from %s %d = %s" % (op[1:3], j, x))
        else: one(op, int(v), "%r = %s" % (op, v))


PROP = C13()
