from .thr import Thr
from ..driver import Outcome

PRE = 'const sab = $.take(0);\nconst I = new Int32Array(sab), B = new BigInt64Array(sab), S = new Int32Array(sab, 8);\nconst op = (id, f) => { $.log(">" + id + " " + $.now()); let r; try { r = String(f()); } catch (e) { r = "!" + e.name; } $.log("<" + id + " " + $.now() + " " + r); };\n'
# view, index in it, byte offset, name
LOC = [("I", 0, 0), ("I", 2, 8), ("S", 0, 8), ("I", 3, 12), ("B", 2, 16), ("B", 0, 0)]
INF = float("inf")


class C14(Thr):
    id = "C14"
    rule = "a case counts when at least one agent was put to sleep in a wait and another agent notified or changed its location"
    assumptions = ["waits and notifications on one location are judged together", "the finite time-outs used are at most an hour or above 10^15 ms (as good as none)"]

    def gen(self, rng, i, tier):
        na = rng.choice([2, 3, 3, 4, 4, 5]); locs = rng.choice([[0], [0], [4], [1, 2], [0, 1, 2], [0, 3], [5], [2]])
        nv = rng.choice([2, 2, 3])
        def one(role):
            l = rng.choice(locs); big = LOC[l][0] == "B"
            w = {"any": (4, 4, 2, 1, 1), "wait": (8, 1, 1, .5, .5), "note": (1, 8, 3, 1, 2)}[role]
            k = rng.choices(range(5), w)[0]
            if k == 0: return ["wait", l, rng.choice([0] * 4 + list(range(nv))), rng.choice(["inf"] * 4 + [0, 1, 1, 5, 5, 20, 0.5, 2.5, "nan", -1, "neginf", 1e15, 1e19, 1e300, "undef", 3600000])]
            if k == 1: return ["notify", l, rng.choice(["undef", "undef", 1, 1, 1, 2, 0, "inf", -1, 1.7])]
            if k == 2: return [rng.choice(["store", "exchange", "add"]), l, rng.choice(list(range(nv)) + [0, 0])]
            if k == 3: return ["load", l]
            return ["sleep", rng.choice([1, 3, 5, 6, 30])]
        ags = []
        for a in range(na):
            role = rng.choice(["any", "any", "wait", "note"]) if a else rng.choice(["any", "note"])
            ags.append([one(role) for _ in range(rng.randint(1, 6))])
        s = self.sched(rng)
        if rng.random() < .35: s["jump"] = "rand:%d:%d" % (rng.choice([2000, 20000, 100000]), rng.getrandbits(40))
        if rng.random() < .3: s["spur"] = "rand:%d:%d" % (rng.choice([5000, 50000, 200000]), rng.getrandbits(40))
        if rng.random() < .3: s["clk"] = "rand:%d:%d" % (rng.choice([5000, 50000]), rng.getrandbits(40))
        if rng.random() < .15: s["gc"] = "rand:%d:%d" % (rng.choice([1000, 20000]), rng.getrandbits(40))
        return {"ags": ags, "noblock": rng.randrange(na) if rng.random() < .08 else -1, "sim": s}

    def render(self, op, oid):
        if op[0] == "sleep": return "$.sleep(%r);" % op[1]
        v, i, off = LOC[op[1]]; n = lambda x: ("%dn" % x) if v == "B" else str(x)
        if op[0] == "wait":
            t = {"inf": ", Infinity", "nan": ", NaN", "neginf": ", -Infinity", "undef": ""}.get(op[3], ", %r" % op[3])
            f = "Atomics.wait(%s, %d, %s%s)" % (v, i, n(op[2]), t)
        elif op[0] == "notify": f = "Atomics.notify(%s, %d%s)" % (v, i, {"inf": ", Infinity", "undef": ""}.get(op[2], ", %r" % op[2]))
        elif op[0] == "load": f = "Atomics.load(%s, %d)" % (v, i)
        else: f = "Atomics.%s(%s, %d, %s)" % (op[0], v, i, n(op[2]))
        return "op(%d, () => %s);" % (oid, f)

    def execute(self, env, case):
        o = Outcome(); ags = case["ags"]; s = dict(case["sim"], agents=len(ags), sab0=32)
        for k, ops in enumerate(ags):
            s["a%d" % (k + 1)] = PRE + ("$.block(0);\n" if k == case["noblock"] else "") + "\n".join(self.render(op, k * 100 + j) for j, op in enumerate(ops))
        r = self.sim(env).run(s); self.acct(o, r, case); o.hash = r.hash(); o.key = repr(ags) + self.il(r); o.detail = r.lines[-200:] + r.err.split("\n")[:10]
        a = self.alarm(env, o, r)
        if a: return o.fail(*a)
        inv = {}; hist = []; left = {}; END = len(r.lines)
        for n, l in enumerate(r.lines):
            p = l.split(" ", 1)
            if len(p) < 2 or not p[0].isdigit(): continue
            ag = int(p[0]) - 1; t = p[1]
            if t[0] == ">": oid, now = t[1:].split(); inv[int(oid)] = (n, float(now))
            elif t[0] == "<":
                oid, now, v = t[1:].split(" ", 2); oid = int(oid); op = ags[oid // 100][oid % 100]; i = inv.pop(oid)
                o_ = dict(op=op, a=i[0], b=n, v=v, id=oid, dt=float(now) - i[1])
                if v[0] == "!":
                    if op[0] == "wait" and oid // 100 == case["noblock"] and v == "!TypeError": continue
                    return o.fail("operation threw", "%r: %s" % (op, v))
                if op[0] == "wait":
                    if oid // 100 == case["noblock"]: return o.fail("wait in an agent that cannot block", "%r: %s" % (op, v))
                    if v not in ("ok", "not-equal", "timed-out"): return o.fail("unknown wait result", v)
                    tm = self.timeout(op)
                    if v == "timed-out" and o_["dt"] + 1e-6 < tm: return o.fail("timed out early", "%r after %r ms" % (op, o_["dt"]))
                hist.append(o_)
            elif t.startswith("blocked"): left[ag] = t.split()[1]
            elif t.startswith(("uncaught", "parse", "unhandled")): return o.fail("error in an agent", t)
        for ag, why in left.items():
            if why != "wait": return o.fail("deadlock", "agent %d is blocked on a %s" % (ag + 1, why))
        for oid, (n, now) in inv.items():
            op = ags[oid // 100][oid % 100]
            if op[0] != "wait" or oid // 100 not in left: return o.fail("operation did not finish", repr(op))
            if self.timeout(op) < 1e14: return o.fail("time-out did not wake the agent", repr(op))
            hist.append(dict(op=op, a=n, b=END, v="blocked", id=oid, dt=0))
        if not left and "leaks live=0" not in r.lines: return o.fail("leak", "; ".join(l for l in r.lines if l.startswith("leaks")))
        # words: locations that overlap are judged together
        groups = {}
        for h in hist: groups.setdefault(LOC[h["op"][1]][2] // 8, []).append(h)
        for g, hs in groups.items():
            waits = [h for h in hs if h["op"][0] == "wait" and h["v"] != "not-equal"]
            for h in waits: o.extra["wait " + h["v"]] += 1
            o.nontrivial |= bool(waits) and any(h["id"] // 100 != w["id"] // 100 and h["op"][0] != "load" for h in hs for w in waits)
            res = self.judge(hs)
            if res is None: o.extra["search budget exceeded"] += 1
            elif not res: return o.fail("no order explains the results", "; ".join("[%d,%d] agent %d %r = %s" % (h["a"], h["b"], h["id"] // 100 + 1, h["op"], h["v"]) for h in sorted(hs, key=lambda h: h["a"])))
        return o

    def timeout(self, op):
        t = op[3]
        if t in ("inf", "nan", "undef"): return INF
        if t == "neginf": return 0
        return max(0, t)

    def judge(self, hs, budget=150000):
        """Search for an order of the effects within the intervals: a wait takes effect twice (entering and leaving)."""
        n = len(hs); start = tuple([0] * n)       # 0 not begun, 1 entered, 2 finished
        seen = set(); stack = [(start, 0, ())]; steps = 0
        while stack:
            st = stack.pop()
            if st in seen: continue
            seen.add(st); steps += 1
            if steps > budget: return None
            ph, val, q = st
            rest = [i for i in range(n) if ph[i] != 2 and not (hs[i]["v"] == "blocked" and ph[i] == 1)]
            if not rest:
                if all(i in [x[0] for x in q] for i in range(n) if hs[i]["v"] == "blocked"): return True
                continue
            first = min(hs[i]["b"] for i in rest)
            for i in rest:
                h = hs[i]; op = h["op"]; k = op[0]; v = h["v"]
                if h["a"] > first: continue
                view, idx, off = LOC[op[1]]; sz = 8 if view == "B" else 4; sh = (off % 8) * 8; m = (1 << (sz * 8)) - 1; cur = (val >> sh) & m
                def to(np, nval=val, nq=q): stack.append((ph[:i] + (np,) + ph[i + 1:], nval, nq))
                if k == "wait":
                    if v == "not-equal":
                        if cur != op[2]: to(2)
                    elif ph[i] == 0:
                        if cur == op[2]: to(1, val, q + ((i, off),))
                    elif v == "ok":
                        if (i, off) not in q: to(2)
                    elif v == "timed-out":
                        if (i, off) in q: to(2, val, tuple(x for x in q if x[0] != i))
                elif k == "notify":
                    c = op[2]; c = 1 << 30 if c in ("undef", "inf") else max(0, int(c))
                    w = [x for x in q if x[1] == off][:c]
                    if len(w) == int(v): to(2, val, tuple(x for x in q if x not in w))
                elif k == "load":
                    if cur == int(v): to(2)
                elif k == "store":
                    if int(v) == op[2]: to(2, val & ~(m << sh) | op[2] << sh)
                elif cur == int(v):
                    to(2, val & ~(m << sh) | ((op[2] if k == "exchange" else cur + op[2]) & m) << sh)
        return False


PROP = C14()
