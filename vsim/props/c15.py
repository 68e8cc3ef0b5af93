from .thr import Thr
from ..driver import Outcome

PRE = 'const L = x => $.log(String(x)); const fail = (f) => { try { f(); return "no error"; } catch (e) { return e.name; } };\n'
# work whose results depend on nothing outside the agent; %d is a parameter
WORK = [
    'L([1.5, 0.1, 1/3, 1e21, 1e-7, 5e-324, 123456789.125, %d / 7].join());',
    'for (let i = 1; i < 4; i++) L((Math.PI * i * %d).toFixed(i * 3) + " " + (i / %d).toPrecision(i + 15) + " " + (1e300 / i).toExponential(5));',
    'L([2, 8, 16, 36].map(r => (0xabcdef + %d).toString(r)).join());',
    'L(["1e308", "0.1e-400", "123.456e5", "9007199254740993", "%d.5"].map(Number).join() + parseFloat("3.25xyz") + parseInt("7f", 16));',
    'L((2n ** 200n + %dn).toString() + (12345678901234567890n * %dn %% 1000000007n) + BigInt("0xffffffffffffffffffff"));',
    'L("a1b22c333".replace(/\\d+/g, m => "<" + m * %d + ">") + JSON.stringify([..."x1y2".matchAll(/(?<l>[a-z])(\\d)/g)].map(m => m.groups.l)));',
    'L(JSON.stringify(JSON.parse(\'{"a":[1,2.5,"x\\u00e9",null,{"b":%d}],"c":1e3}\'), null, 1));',
    'L(Array.from({length: 20}, (_, i) => (i * 7919 + %d) %% 101).sort((a, b) => a - b).join());',
    '{ const m = new Map, s = new Set; for (let i = 0; i < 12; i++) { m.set("k" + i %% 5, i * %d); s.add(i %% 3); } L([...m].join(";") + [...s]); }',
    '{ const o = {}; for (let i = 0; i < 30; i++) o["p" + i] = { v: i + %d }; delete o.p7; let t = 0; for (const k in o) t += o[k].v; L(t); }',
    'L(new Date(86400000 * %d).toISOString() + new Date(2020, %d %% 12, 1, 12).getTime() + Date.UTC(1999, 1, 29));',
    'L(eval("let q = %d; q * 2") + new Function("a", "return a + %d")(3));',
    'L(Symbol.for("shared") === Symbol.for("shared")); L(Symbol.keyFor(Symbol.for("k%d")));',
    'L("I\\u0307\\u00df\\u01c5".toLowerCase() + "stra\\u00dfe%d".toUpperCase() + "e\\u0301".normalize("NFC").length + encodeURIComponent("\\u20ac") + decodeURIComponent("%%E2%%82%%AC"));',
    '(async () => { for (let i = 0; i < 3; i++) { await null; L("async " + i * %d); } })();',
    'Promise.all([1, Promise.resolve(%d), new Promise(r => r(3))]).then(v => L("all " + v));',
    '{ const g = function* () { let t = 0; while (t < 20) { t += (yield t) ?? 1; } }(); let r, s = ""; g.next(); while (!(r = g.next(%d %% 5 + 1)).done) s += r.value + ","; L(s); }',
    '{ const tag = s => s; const f = () => tag`a${1}b`; L((f() === f()) + f().raw.join() + "%d"); }',
    'L(fail(() => null.x) + fail(() => undefinedVariable%d) + fail(() => new Array(-1)) + fail(() => JSON.parse("{")) + fail(() => decodeURIComponent("%%")));',
    '{ const w = new WeakMap, k = {}; w.set(k, %d); const r = new WeakRef(k); $.gc(); L(w.get(k) + r.deref().constructor.name); }',
    '{ const p = new Proxy({}, { get: (t, k) => k.toString() + %d, has: () => true }); L(p.abc + ("z" in p)); }',
    '{ class A { #x = %d; get x() { return this.#x; } static s = 1; } class B extends A { y = super.x + 1; } L(new B().y + B.s); }',
    '{ const b = new ArrayBuffer(32), d = new DataView(b); d.setFloat64(0, %d / 3); d.setInt16(8, -2, true); L(new Uint8Array(b).join()); }',
    '{ let s = ""; for (let i = 0; i < 40; i++) s += String.fromCharCode(97 + (i * %d) %% 26); L(s.split("").reverse().join("") + s.indexOf("z") + s.slice(3, 9).padStart(8, "-")); }',
    'L([3, 1, 2].toString() + Object.entries({ a: %d }) + Reflect.ownKeys(function f() {}).join() + Math.max(1, %d) + Math.hypot(3, 4));',
    '{ let d = 0; (function r(n) { d++; if (n) r(n - 1); })(%d %% 50); L("depth " + d); }',
    '{ const a = new Int32Array(new SharedArrayBuffer(16)); Atomics.add(a, 1, %d); L(a.join() + Atomics.notify(a, 0)); }',
    '{ const a = new Int32Array(new SharedArrayBuffer(8)); L(Atomics.wait(a, 0, 0, %d %% 3 + 1) + Atomics.wait(a, 0, 1, 5)); }',
    '$.gc(); L("collected %d");', '$.yield();', '$.sleep(%d %% 4 + 1);',
    '{ let junk = []; for (let i = 0; i < 60; i++) junk.push({ i, s: "x" + i, b: new SharedArrayBuffer(8 + i) }); junk = null; $.gc(); L("junk %d"); }',
]


class C15(Thr):
    id = "C15"; quick_cases = 12000
    rule = "a case counts when at least two agents alternated at least three times and either a buffer was handed over or a runtime was created or freed while another ran"
    assumptions = ["the value-cache of the third-party number conversion code (dtoa) is shared by design; its memory is not counted as leaked and its lock-free reads are not judged as data races"]

    def gen(self, rng, i, tier):
        na = rng.choice([2, 2, 3, 3, 4]); gens = [rng.choice([1, 1, 1, 2, 2, 3]) for _ in range(na)]
        ags = [[[] for _ in range(g)] for g in gens]     # agent -> generation -> statements
        few = rng.sample(WORK, rng.randint(1, 6)) if rng.random() < .6 else WORK
        slot = 2; ev = []
        for _ in range(rng.randint(2, 10)):
            a = rng.randrange(na)
            if rng.random() < .3 and slot < 15:
                b = rng.choice([x for x in range(na) if x != a]); n = rng.choice([0, 4, 8, 24, 64, 200]); k = slot; slot += 1; q = rng.randrange(1, 100)
                ev.append((a, "{ const s = new SharedArrayBuffer(%d), v = new Uint8Array(s); for (let i = 0; i < %d; i++) v[i] = i * %d; $.put(%d, s); %s}" % (n, n, q, k, rng.choice(["", "$.gc(); ", "globalThis.keep = s; ", "new Int32Array(s, 0, %d).fill(0); " % 0]))))
                if rng.random() < .85:
                    then = rng.choice(["", "$.drop(%d); " % k, "$.drop(%d); $.gc(); " % k, "globalThis.keep2 = s; "])
                    late = rng.choice(["", "L(v.at(-1)); ", "L(new Uint8Array(s.slice(1, 5)).join()); ", "L(Atomics.wait(new Int32Array(s, 0, s.byteLength >> 2), 0, 1, 3)); " if n >= 4 else ""])
                    ev.append((b, "{ const s = $.take(%d); let v = new Uint8Array(s); let t = 0; for (const x of v) t = (t * 31 + x) %% 65521; L(\"got \" + s.byteLength + \" \" + t); %s%s}" % (k, then, late)))
                    if rng.random() < .4 and slot < 15:
                        c = rng.choice([x for x in range(na) if x != b])
                        ev.append((b, "{ const s = $.take(%d); $.put(%d, s); }" % (k, slot) if "drop" not in then else "$.put(%d, new SharedArrayBuffer(3));" % slot))
                        ev.append((c, "L(new Uint8Array($.take(%d)).length);" % slot)); slot += 1
            else:
                w = rng.choice(few); ev.append((a, w % ((rng.choice([1, 2, 3, 7, 10, 64, 99]),) * (w.replace("%%", "").count("%d")))))
        for n, (a, s) in enumerate(ev):
            ags[a][len(ags[a]) * n // len(ev)].append(s)
        s = self.sched(rng)
        if rng.random() < .3: s["gc"] = "rand:%d:%d" % (rng.choice([1000, 20000, 100000]), rng.getrandbits(40))
        if rng.random() < .2: s["jump"] = "rand:%d:%d" % (rng.choice([2000, 20000]), rng.getrandbits(40))
        if rng.random() < .15: s["spur"] = "rand:%d:%d" % (rng.choice([5000, 50000]), rng.getrandbits(40))
        if rng.random() < .15: s["clk"] = "rand:%d:%d" % (rng.choice([5000, 50000]), rng.getrandbits(40))
        return {"ags": ags, "pre": rng.random() < .7, "sim": s}

    def conf(self, case):
        out = {"agents": len(case["ags"])}
        for k, gens in enumerate(case["ags"]):
            for g, st in enumerate(gens): out["%s%d" % ("abc"[g], k + 1)] = PRE + "\n".join(st)
        return out

    def logs(self, r, n):
        l = [[] for _ in range(n)]
        for x in r.lines:
            p = x.split(" ", 1)
            if len(p) == 2 and p[0].isdigit() and 1 <= int(p[0]) <= n: l[int(p[0]) - 1].append(p[1])
        return l

    def execute(self, env, case):
        o = Outcome(); n = len(case["ags"]); c = self.conf(case); sim = self.sim(env, case["pre"])
        r = sim.run(dict(case["sim"], **c)); self.acct(o, r, case); o.hash = r.hash(); o.key = repr(case["ags"]) + self.il(r); o.detail = r.lines[-200:] + r.err.split("\n")[:10]
        a = self.alarm(env, o, r)
        if a: return o.fail(*a)
        ref = sim.run(dict(c, sw="off")); o.runs += 1
        a = self.alarm(env, o, ref)
        if a: return o.fail(a[0] + " without any switch", a[1])
        got, want = self.logs(r, n), self.logs(ref, n)
        for k in range(n):
            if want[k][-1:] != ["end"]: return o.fail("an agent did not finish", "agent %d without any switch: %r" % (k + 1, want[k][-1:]))
            if got[k] != want[k]:
                j = next((j for j in range(max(len(got[k]), len(want[k]))) if got[k][j:j + 1] != want[k][j:j + 1]))
                return o.fail("other agents change the result", "agent %d line %d: %r, alone %r" % (k + 1, j, got[k][j:j + 1], want[k][j:j + 1]))
        for x, nm in ((r, ""), (ref, " without any switch")):
            if "leaks live=0" not in x.lines: return o.fail("leak" + nm, "; ".join(l for l in x.lines if l.startswith("leaks")))
        sw = sum(1 for k, _ in r.fired if k == 6)
        o.extra["buffers handed over"] += sum(1 for l in got for x in l if x.startswith("got ")); o.extra["runtimes"] += sum(len(g) for g in case["ags"])
        o.nontrivial = sw >= 3 and (any(x.startswith("got ") for l in got for x in l) or not case["pre"] or any(len(g) > 1 for g in case["ags"]))
        return o

    def shrink(self, case):
        for t in super().shrink(dict(case, ags=[])): yield dict(t, ags=case["ags"])     # schedules only
        ags = case["ags"]
        for k in range(len(ags)):
            for g in range(len(ags[k])):
                st = ags[k][g]
                for j in range(len(st)): yield dict(case, ags=[[s if (a, h) != (k, g) else st[:j] + st[j + 1:] for h, s in enumerate(x)] for a, x in enumerate(ags)])
            if len(ags[k]) > 1: yield dict(case, ags=ags[:k] + [ags[k][:-1]] + ags[k + 1:])


PROP = C15()
