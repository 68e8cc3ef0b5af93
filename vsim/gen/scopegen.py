"""Programs whose names change meaning while they run: direct eval that declares and deletes variables, with objects
that gain and lose properties, global properties that come and go, closures called before and after, the same code
run again in other surroundings.  Every access is logged."""
PRE = r'''
Function.prototype.toString = function () { return "fn"; };
function sh(v) { try { return typeof v === "function" ? "fn" : typeof v === "object" && v ? "obj" : typeof v === "symbol" ? "sym" : String(v); } catch (e) { return "?"; } }
function L(k, v) { __sim.log(k + " " + sh(v)); return v; }
function X(k, e) { __sim.log(k + " !" + (e && e.name || sh(e))); }
function P(v) { if (__sim.probe()) throw new RangeError("probe"); return v; }
var CB = []; var DEPTH = 0, BUDGET = 600;
function keep(f) { if (CB.length < 24) CB.push(f); else CB[BUDGET % 24] = f; }
function call(i, k) { if (!CB.length || DEPTH > 6 || --BUDGET < 0) return; DEPTH++; try { L(k, CB[i % CB.length]()); } catch (e) { X(k, e); } finally { DEPTH--; } }
var OBJ = [{}, {a: "oa"}, {b: "ob", c: "oc"}, {}, new Proxy({c: "pc"}, {}), Object.create({a: "ia"})];
var G0 = "g0";
'''
NAMES = ["a", "b", "c", "d"]


class S:
    def __init__(self, rng):
        self.r = rng; self.n = 0; self.fns = []; self.strict = 0; self.budget = rng.choice([14, 25, 40, 60]); self.gen = 0

    def k(self): self.n += 1; return self.n

    def nm(self): return self.r.choice(NAMES if self.r.random() < .9 else ["gp", "gq", "G0"])

    def val(self): return self.r.choice(["%d" % self.r.randrange(100), "'s%d'" % self.r.randrange(100), "undefined"])

    def evals(self, strict=0):
        r = self.r; n = self.nm()
        f = [lambda: "", lambda: "var %s = %s" % (n, self.val()), lambda: "var %s" % n, lambda: "function %s() { return %d; }" % (n, r.randrange(99)), lambda: "let %s = %s; L(%d, %s)" % (n, self.val(), self.k(), n),
            lambda: "delete %s" % n if not strict else "typeof %s" % n, lambda: "%s = %s" % (n, self.val()) if not strict else n, lambda: "typeof %s" % n, lambda: "keep(() => %s)" % n, lambda: "(() => typeof %s)()" % n,
            lambda: "var %s = 1; %s; typeof %s" % (n, "delete " + n if not strict else "1", n), lambda: "var %s = () => %s; %s()" % (n, self.nm(), n), lambda: "eval(\"var %s = %s\"); %s" % (n, self.val(), n), lambda: "var %s = 1, %s = 2; keep(() => [%s, typeof %s].join())" % (n, self.nm(), n, self.nm()),
            lambda: "for (var %s = 0; %s < 2; %s++); %s" % (n, n, n, n), lambda: "{ let %s = 3; keep(() => %s++); }" % (n, n), lambda: "'use strict'; var %s = 4; %s" % (n, n), lambda: "(function () { return typeof %s; })()" % n]
        return r.choice(f)()

    def call(self):
        f = self.r.choice(self.fns); return "if (--BUDGET > 0 && DEPTH < 4) { DEPTH++; try { %sf%d(%s); } catch (e) { X(%d, e); } finally { DEPTH--; } }" % ("", f, self.evarg(), self.k())

    def evarg(self):
        return repr(self.evals()) if self.r.random() < .75 else '""'

    def wrap(self, s, k=None): return "try { %s } catch (e0) { X(%d, e0); }" % (s, k or self.k())

    def stmt(self, d):
        r = self.r; self.budget -= 1; n = self.nm(); m = self.nm(); k = self.k(); st = self.strict
        simple = [(6, lambda: self.wrap("L(%d, %s);" % (k, n))), (4, lambda: "L(%d, typeof %s);" % (k, n) if r.random() < .5 else self.wrap("L(%d, typeof %s);" % (k, n))),
            (4, lambda: self.wrap("%s = %s;" % (n, self.val())) if not st else self.wrap("L(%d, %s);" % (k, n))), (2, lambda: self.wrap("L(%d, %s%s);" % (k, n, r.choice(["++", " += 1", " = typeof " + m, " += typeof " + m]) if not st else "")),),
            (2, lambda: self.wrap("L(%d, delete %s);" % (k, n)) if not st else ""), (6, lambda: self.wrap("L(%d, eval(c0));" % k)), (3, lambda: self.wrap("L(%d, eval(%r));" % (k, self.evals(st)))),
            (4, lambda: "keep(() => %s);" % n), (2, lambda: "keep(() => typeof %s);" % n), (1, lambda: "keep(() => { let q = %s; return (() => %s)(); });" % (self.val(), n)), (1, lambda: "keep(() => %s = %s);" % (n, self.val()) if not st else ""), (1, lambda: "keep(function () { return eval(%r); });" % self.evals(st)), (1, lambda: "keep(() => eval(%r));" % self.evals(st)),
            (5, lambda: "call(%d, %d);" % (r.randrange(30), k)), (1, lambda: "globalThis.gp = %s;" % self.val()), (1, lambda: "delete globalThis.gp;"), (1, lambda: "OBJ[%d].%s = %s;" % (r.randrange(6), n, self.val())), (1, lambda: "delete OBJ[%d].%s;" % (r.randrange(6), n)), (1, lambda: "__sim.gc();"), (1, lambda: self.wrap("P(1);")),
            (1, lambda: self.wrap("[%s, %s] = [%s, %s];" % (n, m, self.val(), m)) if not st else ""), (1, lambda: self.wrap("({p: %s = %s} = {});" % (n, m)) if not st else ""), (1, lambda: self.wrap("L(%d, `${%s}` + [%s]);" % (k, n, m))), (1, lambda: self.wrap("L(%d, %s());" % (k, n)))]
        if self.gen: simple.append((3, lambda: self.wrap("L(%d, yield %s);" % (k, n))))
        if self.fns: simple.append((4, self.call))
        comp = [(3, lambda: "{ let %s = %s; %s }" % (n, self.val(), self.body(d + 1, 4, {n}))), (2, lambda: "for (let %s = 0; %s < %d; %s++) { %s }" % (n, n, r.choice([1, 2]), n, self.body(d + 1, 4, {n}))), (1, lambda: "for (const %s of [%s, %s]) { %s }" % (n, self.val(), self.val(), self.body(d + 1, 3, {n}))),
            (1, lambda: "for (let i%d = 0; i%d < 2; i%d++) { %s }" % (k, k, k, self.body(d + 1, 5))), (3, lambda: "with (OBJ[%d]) { %s }" % (r.randrange(6), self.body(d + 1, 4)) if not st else "{ %s }" % self.body(d + 1, 3)),
            (2, lambda: "try { %s; throw %s; } catch (%s) { %s }" % (r.choice(["P(1)", "L(%d, %s)" % (k, n)]), self.val(), "e%d" % k, self.body(d + 1, 4))), (4, lambda: self.fn(d)), (2, lambda: "(() => { %s })();" % self.body(d + 1, 4, fn=1)), (1, lambda: "(function (%s) { %s })(%s);" % (n, self.body(d + 1, 4, fn=1, decl=n), self.val())),
            (1, lambda: self.genfn(d)), (1, lambda: "(function () { 'use strict'; %s })();" % self.strictbody(d + 1)), (1, lambda: "switch (1) { case 1: let %s = %s; %s }" % (n, self.val(), self.body(d + 1, 3, {n}))), (1, lambda: "{ class %s { static m() { return %s; } } L(%d, %s.m() === %s); %s }" % (n, n, k, n, n, self.body(d + 1, 2))),
            (1, lambda: "(function (p0 = %s, q0 = () => typeof %s) { %s; %s })();" % (r.choice(["eval(c0)", "eval(%r)" % self.evals(st), "() => " + m, m]), n, self.wrap("L(%d, q0());" % k), self.body(d + 1, 3, fn=1)) if not st else "")]
        c = simple + (comp if d < 5 and self.budget > 0 else [])
        return r.choices([f for _, f in c], [w for w, _ in c])[0]()

    def strictbody(self, d):
        o = self.strict; self.strict = 1; g = self.gen; self.gen = 0; b = self.body(d, 4, fn=1); self.strict = o; self.gen = g; return b

    def body(self, d, mx, let=None, fn=0, decl=None):
        g = self.gen
        if fn: self.gen = 0
        out = []; r = self.r
        if fn and r.random() < .5: out.append("var %s%s;" % (self.nm(), r.choice(["", " = " + self.val()])))
        if d and r.random() < .25 and not let:
            n = r.choice(NAMES)
            if n != decl: b = "let %s = %s;" % (n, self.val()); pos = r.randrange(3); out += [self.stmt(d) for _ in range(pos)]; out = [o for o in out if not o.startswith("var ")]; out.append(b)
        out += [self.stmt(d) for _ in range(r.randint(1, mx))]
        self.gen = g
        return "\n".join(x for x in out if x)

    def fn(self, d):
        i = self.k(); r = self.r; b = "function f%d(c0) {\n%s\n}" % (i, self.body(d + 1, 7, fn=1)); self.fns.append(i)
        calls = "\n".join(self.wrap("f%d(%s);" % (i, self.evarg())) for _ in range(r.choice([1, 2, 3])))
        s = "%s\n%s" % (b, calls)
        if d: self.fns.remove(i)
        return s if not d else "(() => { %s })();" % s

    def genfn(self, d):
        i = self.k(); g = self.gen; self.gen = 0
        # the generator's own statements may yield, nested functions may not
        self.gen = 1; out = [self.stmt(5) for _ in range(self.r.randint(3, 7))]; self.gen = g
        b = "function* g(c0) { %s }" % "\n".join(out)
        return "(() => { %s const it = g(%s); %s })();" % (b, self.evarg(), " ".join([self.wrap("it.next(%s);" % self.val())] + [self.wrap(self.r.choice(["it.next(%s);" % self.val(), "call(%d, %d);" % (self.r.randrange(30), self.k()), "eval(%r);" % self.evals()])) for _ in range(4)]))


def gen_scope(rng):
    s = S(rng); out = []
    for _ in range(rng.randint(1, 4)): out.append(s.fn(0) if rng.random() < .6 else s.stmt(0))
    for _ in range(rng.choice([0, 2, 6])): out.append(s.stmt(5))
    for i in range(4): out.append("call(%d, 'end');" % rng.randrange(24))
    src = "(function (c0) {\n" + "\n".join(x for x in out if x) + "\n})(%s);" % s.evarg()
    return {"src": src, "prologue": PRE + "".join("globalThis.%s = 'g%s';\n" % (n, n) for n in NAMES if rng.random() < .5), "order": []}
