"""Random programs with functions, generators, async functions, async generators, promises,
iterators, try/finally and host-call fault points; every observable step is logged."""

class G:
    def __init__(self, rng, kinds=("plain", "gen", "async", "agen"), probes=True, ext=True, size=1.0, sync_only=False, thenables=True, subclass=True):
        self.r = rng; self.kinds = list(kinds); self.probes = probes; self.ext = ext and not sync_only; self.size = size; self.sync = sync_only
        self.thenables = thenables and not sync_only; self.subclass = subclass and not sync_only
        self.n = 0; self.out = []; self.ind = 0; self.fns = []; self.ctx = []; self.vars = [[]]; self.loops = []; self.nx = 0; self.budget = int(60 * size); self.level = 0
        self.agen_ystar = rng.random() < .6; self.reent = rng.random() < .5

    def uid(self, p="v"):
        self.n += 1; return p + str(self.n)

    def w(self, s):
        self.out.append(" " * self.ind + s)

    def kind(self):
        return self.ctx[-1] if self.ctx else "plain"

    def isasync(self):
        return self.kind() in ("async", "agen")

    def isgen(self):
        return self.kind() in ("gen", "agen")

    def anyvar(self):
        vs = [v for s in self.vars for v in s]
        return self.r.choice(vs) if vs else None

    # ---- expressions ----
    def lit(self):
        r = self.r
        return r.choice(["1", "2", "\"s\"", "true", "null", "undefined", "{a:1}", "[1,2]", "3n", "\"" + self.uid("k") + "\""])

    def expr(self, d=2):
        r = self.r; k = self.kind(); c = []
        c += [("lit", 3)]
        if self.anyvar(): c.append(("var", 4))
        if self.probes: c.append(("probe", 2))
        if d > 0:
            if self.fns: c.append(("call", 4))
            c += [("arr", 1), ("obj", 1), ("tmpl", 1), ("closure", 1), ("cond", 1), ("misc", 3)]
            if self.reent and self.ctx: c.append(("reent", 3 if self.isgen() else 1))
            if self.fns: c.append(("spread", 1))
            if self.isasync(): c.append(("await", 6))
            if self.isgen(): c.append(("yield", 5))
            if self.isgen() and (self.kind() == "gen" or self.agen_ystar): c.append(("ystar", 2))
            if not self.sync:
                c += [("promise", 3)]
                if self.ext and self.nx < 7: c.append(("ext", 3))
                if self.thenables: c.append(("thenable", 1))
                c.append(("comb", 1))
                if self.subclass: c.append(("sub", 1))
        x = r.choices([a for a, _ in c], [b for _, b in c])[0]
        e = lambda: self.expr(d - 1)
        if x == "lit": return self.lit()
        if x == "var": return self.anyvar()
        if x == "probe": return "$.p(%s)" % (self.expr(d - 1) if d > 0 and r.random() < .5 else self.lit())
        if x == "call": return self.call(d - 1)
        if x == "arr": return "[%s]" % ",".join(e() for _ in range(r.randint(1, 3)))
        if x == "obj": return "{x:%s,y:%s}" % (e(), e())
        if x == "tmpl": return "(\"t\"+$.show(%s,1))" % e()
        if x == "closure":
            v = self.anyvar(); return "(()=>[%s])()" % (v or "0")
        if x == "cond": return "(%s?%s:%s)" % (e(), e(), e())
        if x == "reent": return "$re(%d,\"%s\",%s)" % (r.randrange(6), r.choice(["next", "next", "next", "throw", "return"]), self.lit())
        if x == "misc":
            t = r.choice(["{[\"k\"+typeof %s]:%s}", "{...%s,z:%s}", "$id(%s,...[%s,1])", "$id(1,%s,%s)", "(new $C(%s,%s)).v", "(%s??%s)", "(%s&&%s)", "(%s||%s)", "(%s,%s)", "$tag`a${%s}b${%s}`",
                "[%s,%s][1]", "({a:%s,b:%s}).b", "(typeof %s+typeof %s)", "$id(...$id(%s),%s)", "[,%s,...[%s]]", "$o?.m?.(%s,%s)", "$nul?.m(%s,%s)", "(void %s,!%s)", "((x=%s,y=%s)=>[x,y])()", "(new (class{ [\"f\"+typeof %s](){} [\"g\"]=1; static h=2 })).g+(%s,1)",
                "(%s===%s)", "`x${typeof %s}${typeof %s}`", "($o[\"p\"+typeof %s]=%s)", "($o.q??=%s,%s)", "(delete $o[\"p\"+typeof %s],%s)"])
            arrow = "=>" in t or "new (class" in t
            if "=>" in t: a, b = self.noawait(d - 1), self.noawait(d - 1)
            else: a, b = e(), e()
            return t % (a, b)
        if x == "spread": return "[...%s]" % self.iter(d - 1)
        if x == "await": return "(await %s)" % e()
        if x == "yield": return "(yield %s)" % e()
        if x == "ystar": return "(yield* %s)" % (self.aiter(d - 1) if self.kind() == "agen" else self.iter(d - 1))
        if x == "promise": return r.choice(["Promise.resolve(%s)", "Promise.reject(%s)", "new Promise((a,b)=>{ $.log(\"ex\"); a(%s); b(9); })", "new Promise((a,b)=>{ b(%s); a(8); })", "new Promise((a,b)=>{ Promise.resolve().then(()=>a(1)); throw %s; })", "(async()=>(%s))()"]) % self.noawait(d - 1)
        if x == "ext":
            self.nx += 1; return "$.ext(\"%s\")" % self.uid("X")
        if x == "thenable":
            v = self.noawait(d - 1)
            return r.choice(["{then(a,b){ $.log(\"then\"); a(%s); b(1); a(2); }}", "{then(a,b){ $.log(\"thenR\"); b(%s); a(1); throw 5; }}", "{get then(){ $.log(\"getthen\"); throw %s; }}", "{then(a){ Promise.resolve().then(()=>{ $.log(\"lateresolve\"); a(%s); }); }}", "{then:%s}", "{then(a,b){ throw [%s]; }}"]) % v
        if x == "comb":
            return "Promise.%s([%s])" % (r.choice(["all", "race", "any", "allSettled"]), ",".join(self.noawait(d - 1) for _ in range(r.randint(1, 3))))
        if x == "sub": return "MyP.%s(%s)" % (r.choice(["resolve", "reject"]), self.noawait(d - 1))
        raise AssertionError

    def noawait(self, d):
        """Expression evaluated inside a nested function: no await/yield."""
        self.ctx.append("plain")
        try:
            return self.expr(max(d, 0))
        finally:
            self.ctx.pop()

    def call(self, d):
        f, k = self.r.choice(self.fns)
        a = self.expr(max(d, 0)) if self.r.random() < .6 else self.lit()
        return "%s(%s)" % (f, a)

    def iter(self, d=0):
        r = self.r; c = ["lit", "it", "it"]
        gs = [f for f, k in self.fns if k == "gen"]
        if gs: c += ["gen"] * 3
        x = r.choice(c)
        if x == "gen": return "%s(%s)" % (r.choice(gs), self.lit())
        if x == "it": return self.mkit()
        return r.choice(["[%s,%s,%s]" % (self.lit(), self.lit(), self.lit()), "new Set([1,2,3])", "new Map([[1,%s],[2,3]])" % self.lit(), "\"ab\"", "[1,2].values()"])

    def aiter(self, d=0):
        r = self.r; gs = [f for f, k in self.fns if k == "agen"]
        if gs and r.random() < .6: return "%s(%s)" % (r.choice(gs), self.lit())
        if r.random() < .4: return self.mkit(True)
        if r.random() < .4 and not self.sync: return "[%s,%s]" % (self.noawait(1), self.noawait(1))
        return self.iter(d)

    def mkit(self, a=False):
        r = self.r
        return "$%s(\"%s\",%d,{r:%d,t:%d,n:%d})" % ("ait" if a else "it", self.uid("i"), r.randint(1, 4), r.choice([0, 1, 1, 2, 3]), r.choice([0, 0, 1, 2]), r.choice([0, 0, 0, 1, 2]))

    # ---- statements ----
    def block(self, d, nmax=3):
        self.ind += 1; self.vars.append([])
        for _ in range(self.r.randint(1, nmax)):
            self.stmt(d)
        self.vars.pop(); self.ind -= 1

    def stmt(self, d):
        r = self.r; self.budget -= 1
        if self.budget <= 0:
            self.w("$.log(\"%s\");" % self.uid("z")); return
        c = [("log", 5), ("let", 4), ("assign", 2), ("expr", 2)]
        if d > 0:
            c += [("dassign", 1), ("forin", 1), ("fordes", 1), ("if", 1), ("for", 1), ("forof", 3), ("try", 5), ("block", 1), ("destr", 1), ("label", 1), ("closureloop", 1), ("switch", 1)]
            if self.isasync(): c += [("forawait", 3)]
        if self.ctx: c += [("return", 1), ("throw", 1)]
        if self.loops: c += [("brk", 2)]
        if not self.sync: c += [("then", 3)]
        if any(k in ("gen", "agen") for _, k in self.fns): c += [("drive", 3)]
        x = r.choices([a for a, _ in c], [b for _, b in c])[0]
        if x == "log": self.w("$.log(\"%s\",%s);" % (self.uid("l"), self.expr()))
        elif x == "let":
            v = self.uid(); e = self.expr(3)
            self.w("let %s=%s;" % (v, e)); self.vars[-1].append(v)
        elif x == "assign":
            v = self.anyvar()
            if v:
                sv = self.vars; self.vars = [[y for y in x if y != v] for x in sv]; e = self.expr(); self.vars = sv   # no self-reference: it could recurse for ever
                self.w("%s=%s;" % (v, e))
            else: self.w("$.log(\"%s\");" % self.uid("l"))
        elif x == "expr": self.w("(%s);" % self.expr(3))
        elif x == "if":
            self.w("if (%s) {" % self.expr(1)); self.block(d - 1)
            if r.random() < .5: self.w("} else {"); self.block(d - 1)
            self.w("}")
        elif x == "for":
            v = self.uid("i"); self.w("for (let %s=0;%s<%d;%s++) {" % (v, v, r.randint(1, 3), v)); self.loops.append(None); self.vars.append([]); self.block(d - 1); self.vars.pop(); self.loops.pop(); self.w("}")
        elif x in ("forof", "forawait"):
            v = self.uid(); it = self.iter() if x == "forof" else self.aiter()
            dst = r.choice([v, v, v, "[%s=7]" % v]) if x == "forof" and r.random() < .2 else v
            self.w("for %s(%s %s of %s) {" % ("await" if x == "forawait" else "", r.choice(["let", "const"]), dst, it)); self.loops.append(None); self.vars.append([]); self.w(" $.log(\"%s\",%s);" % (self.uid("e"), v)); self.block(d - 1); self.vars.pop(); self.loops.pop(); self.w("}")
        elif x == "closureloop":
            v = self.uid("i"); a = self.uid("c"); self.w("let %s=[]; for (let %s=0;%s<3;%s++) %s.push(()=>%s++); $.log(\"%s\",%s.map(f=>f()),%s[1]());" % (a, v, v, v, a, v, self.uid("cl"), a, a))
        elif x == "dassign":
            v = self.anyvar() or "$o.d"; sv = self.vars; self.vars = [[y for y in q if y != v] for q in sv]; a, b = self.expr(1), self.expr(1); it = self.iter(); self.vars = sv
            self.w(r.choice(["[%(v)s=%(a)s,$o[\"x\"+typeof %(b)s]]=%(i)s;", "[%(v)s,,...$o.rest]=%(i)s;", "({x:%(v)s=%(a)s,[\"y\"+typeof %(b)s]:$o.y}={x:%(a)s});", "[[%(v)s=%(a)s]=[%(b)s]]=%(i)s;", "({...%(v)s}={p:%(a)s});", "[...[%(v)s=%(a)s,$o.k]]=%(i)s;"]) % {"v": v, "a": a, "b": b, "i": it})
            self.w("$.log(\"%s\",%s);" % (self.uid("da"), v))
        elif x == "forin":
            v = self.uid(); self.w("for (let %s in {a:%s,b:%s}) {" % (v, self.expr(1), self.expr(1))); self.loops.append(None); self.vars.append([v]); self.w(" $.log(\"%s\",%s);" % (self.uid("fi"), v)); self.block(d - 1); self.vars.pop(); self.loops.pop(); self.w("}")
        elif x == "fordes":
            v = self.uid(); u = self.uid(); self.w("for (let [%s,%s=%s] of [%s,[%s],\"xy\"]) {" % (v, u, self.expr(1), self.iter(), self.expr(1))); self.loops.append(None); self.vars.append([v, u]); self.w(" $.log(\"%s\",%s,%s);" % (self.uid("fd"), v, u)); self.block(d - 1); self.vars.pop(); self.loops.pop(); self.w("}")
        elif x == "label":
            L = self.uid("L"); v = self.uid("i")
            self.w("%s: for (let %s=0;%s<2;%s++) {" % (L, v, v, v)); self.loops.append(L); self.block(d - 1); self.loops.pop(); self.w("}")
        elif x == "switch":
            self.w("switch (%s) {" % self.expr(1)); self.w(" case 1: $.log(\"%s\");" % self.uid("s")); self.w(" case %s: {" % self.expr(1)); self.block(d - 1); self.w(" }"); self.w(" default: $.log(\"%s\");" % self.uid("s")); self.w("}")
        elif x == "try":
            self.w("try {"); self.block(d - 1)
            m = r.choice(["c", "f", "cf"])
            if "c" in m:
                v = self.uid("e"); self.w("} catch (%s) {" % v); self.w(" $.log(\"%s\",%s);" % (self.uid("k"), v)); self.vars.append([v]); self.block(d - 1, 2); self.vars.pop()
            if "f" in m:
                self.w("} finally {"); self.w(" $.log(\"%s\");" % self.uid("f"))
                if self.reent and self.isgen() and r.random() < .4: self.w(" $.log(\"%s\",$re(%d,\"%s\",1));" % (self.uid("rf"), r.randrange(6), r.choice(["next", "next", "return", "throw"])))
                self.block(d - 1, 2)
            self.w("}")
        elif x == "block": self.w("{"); self.block(d - 1); self.w("}")
        elif x == "destr":
            a, b = self.uid(), self.uid()
            pat = r.choice(["[%s,%s]" % (a, b), "[%s,,...%s]" % (a, b), "[%s,%s=%s]" % (a, b, self.expr(1))])
            self.w("let %s=%s;" % (pat, self.iter())); self.vars[-1] += [a, b]; self.w("$.log(\"%s\",%s,%s);" % (self.uid("d"), a, b))
        elif x == "return": self.w("if (%s) return %s;" % (r.choice(["true", "$.p(1)", "0"]), self.expr(2)))
        elif x == "throw": self.w("if (%s) throw %s;" % (r.choice(["true", "$.p(1)", "0"]), r.choice(["new TypeError(\"x\")", self.expr(1), "\"%s\"" % self.uid("th")])))
        elif x == "brk":
            L = [l for l in self.loops if l]
            self.w("if (%s) %s%s;" % (r.choice(["true", "$.p(1)"]), r.choice(["break", "continue"]), (" " + r.choice(L)) if L and r.random() < .6 else ""))
        elif x == "then":
            n = self.uid("t"); p = self.expr(1)
            how = r.choice([".then(v=>{ $.log(\"%s\",v); return %s; })" , ".then(v=>{ $.log(\"%s\",v); throw %s; })", ".catch(e=>{ $.log(\"%s\",e); return %s; })", ".finally(()=>{ $.log(\"%s\"); return %s; })", ".finally(()=>{ $.log(\"%s\"); throw %s; })"]) % (n, self.noawait(1))
            v = self.uid("p")
            self.w("let %s=Promise.resolve(%s)%s; %s.then(v=>$.log(\"%s ok\",v),e=>$.log(\"%s err\",e));" % (v, p, how, v, n, n)); self.vars[-1].append(v)
        elif x == "drive": self.drive()

    def drive(self):
        r = self.r; gs = [(f, k) for f, k in self.fns if k in ("gen", "agen")]
        f, k = r.choice(gs); g = self.uid("g"); self.w(("let %s=$reg(%s(%s));" if self.reent else "let %s=%s(%s);") % (g, f, self.lit()))
        for _ in range(r.randint(1, 5)):
            m = r.choices(["next", "throw", "return"], [4, 1, 1])[0]; n = self.uid("n")
            # return(rejected promise) while delegating is where the reference itself deviates
            a = self.lit() if m == "return" and k == "agen" and self.agen_ystar else self.noawait(1)
            if k == "gen":
                self.w("try { $.log(\"%s\",%s.%s(%s)); } catch (e) { $.log(\"%s!\",e); }" % (n, g, m, a, n))
            elif self.isasync() and r.random() < .3:
                self.w("try { $.log(\"%s\",await %s.%s(%s)); } catch (e) { $.log(\"%s!\",e); }" % (n, g, m, a, n))
            else:
                self.w("%s.%s(%s).then(v=>$.log(\"%s\",v),e=>$.log(\"%s!\",e));" % (g, m, a, n, n))

    def func(self):
        r = self.r; k = r.choice(self.kinds); f = self.uid("f"); p = self.uid("a")
        head = {"plain": "function ", "gen": "function* ", "async": "async function ", "agen": "async function* "}[k]
        par = r.choice([p, p, "%s=%s" % (p, self.lit()), "...%s" % p])
        tail = "}"
        form = r.random()
        if form < .65: self.w("%s%s(%s) {" % (head, f, par))
        elif form < .8: self.w("const %s=({ %s%s(%s) {" % (f, {"plain": "", "gen": "*", "async": "async ", "agen": "async *"}[k], f + "m", par)); tail = "}})." + f + "m;"
        elif form < .9 and k in ("plain", "async"): self.w("const %s=%s(%s)=>{" % (f, "async " if k == "async" else "", par)); tail = "};"
        else: self.w("const %s=(class { static #p=1; static %sm(%s) {" % (f, {"plain": "", "gen": "*", "async": "async ", "agen": "async *"}[k], par)); tail = "}}).m;"
        sv = self.vars, self.loops; self.vars = [[p]]; self.loops = []; self.ctx.append(k)
        self.block(3, 5); self.ctx.pop(); self.vars, self.loops = sv; self.w(tail)
        self.fns.append((f, k))

    PRE = """const $all=[]; const $reg=g=>{ if($all.length<6) $all.push(g); return g; }; const $re=(i,m,v)=>{ if(!$all.length) return "none"; const g=$all[i%$all.length]; try { const q=g[m](v); if(q instanceof Promise) { q.then(x=>$.log("re",x),x=>$.log("re!",x)); return "queued"; } return q; } catch(e) { return e; } };
const $id=(...a)=>a; const $tag=(s,...a)=>[s.raw,a]; class $C { constructor(...a){ this.v=a; } } const $nul=null; const $o={m(...a){ return a.length; },p:1};
class MyP extends Promise { constructor(x){ super(x); } then(a,b){ $.log("MyP.then"); return super.then(a,b); } }
const $it=(n,c,o)=>({[Symbol.iterator](){ let i=0; $.log(n+" open"); const r={next(v){ $.log(n+" next",v); if(o.n===1&&i===1) throw "nx"; if(o.n===2&&i===1) return 5; return i<c?{value:n+i++,done:false}:{value:"end",done:true}; }}; if(o.r) r.return=v=>{ $.log(n+" return",v); $.p(0); if(o.r===2) throw "rt"; if(o.r===3) return 1; return {value:v,done:true}; }; if(o.t) r.throw=e=>{ $.log(n+" throw",e); if(o.t===2) throw "tt"; return {value:"thr",done:true}; }; return r; }});
const $ait=(n,c,o)=>({[Symbol.asyncIterator](){ let i=0; $.log(n+" aopen"); const r={next(v){ $.log(n+" anext",v); if(o.n===1&&i===1) throw "nx"; if(o.n===2&&i===1) return 5; return Promise.resolve(i<c?{value:n+i++,done:false}:{value:"end",done:true}); }}; if(o.r) r.return=async v=>{ $.log(n+" areturn",v); $.p(0); if(o.r===2) throw "rt"; if(o.r===3) return 1; return {value:v,done:true}; }; if(o.t) r.throw=e=>{ $.log(n+" athrow",e); if(o.t===2) throw "tt"; return {value:"thr",done:true}; }; return r; }});"""

    def program(self, nf=None):
        r = self.r; self.w("(function(){ $all.length=0;")
        for _ in range(nf if nf is not None else r.randint(2, 4)):
            self.budget = int(14 * self.size); self.func()
        self.budget = int(30 * self.size)
        self.main = True
        for f, k in self.fns[-3:]:
            n = self.uid("m")
            if k == "plain": self.w("try { $.log(\"%s\",%s(%s)); } catch (e) { $.log(\"%s!\",e); }" % (n, f, self.lit(), n))
            elif k == "async": self.w("%s(%s).then(v=>$.log(\"%s\",v),e=>$.log(\"%s!\",e));" % (f, self.lit(), n, n))
            else: self.drive()
        for _ in range(r.randint(1, 5)):
            self.w("try {"); self.vars.append([]); self.ind += 1; self.stmt(2); self.ind -= 1; self.vars.pop(); self.w("} catch (e) { $.log(\"%s\",e); }" % self.uid("x"))
        self.w("$.log(\"sync end\");"); self.w("})();")
        return "\n".join(self.out)
