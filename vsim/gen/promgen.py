"""Promise-centred programs: deferreds settled from anywhere, combinators, foreign thenables,
custom constructors and species, reactions registered before and after settlement."""
from .asyncgen import G

PRE = G.PRE + """
const D=[]; const defer=n=>{ const d={n}; d.p=new Promise((a,b)=>{ d.a=a; d.b=b; }); D.push(d); return d; };
function MyC(ex){ if(!new.target) throw "nonew"; this.id=MyC.n=(MyC.n||0)+1; const t=(s,v,f)=>{ try { $.log("C"+this.id+s,v); if(f) f(v); } catch(x) { $.log("C"+this.id+" threw"); } }; ex(v=>{ t(" res",v,this.cb); }, e=>{ t(" rej",e,this.cbe); }); }
MyC.prototype.then=function(a,b){ $.log("C"+this.id+" then"); this.cb=a; this.cbe=b; return this; }; MyC.resolve=x=>{ $.log("MyC.resolve"); $.p(0); return x; };
class Q extends Promise { static resolve(x){ $.log("Q.resolve"); $.p(0); return super.resolve(x); } static get [Symbol.species](){ $.log("species"); return Promise; } }
class R extends Promise { get then(){ $.log("R.then get"); $.p(0); return super.then; } }
const obs=(n,p)=>{ p.then(v=>$.log(n+" ok",v),e=>$.log(n+" err",e)); };
"""


class PG:
    def __init__(self, rng, size=1.0):
        self.r = rng; self.n = 0; self.out = []; self.size = size; self.vars = []; self.nd = 0; self.nx = 0; self.budget = int(rng.choice([12, 25, 45]) * size)

    def u(self, p):
        self.n += 1; return p + str(self.n)

    def lit(self):
        return self.r.choice(["1", "\"s\"", "{a:1}", "null", "undefined", "[1]", "new TypeError(\"q\")", "\"" + self.u("k") + "\""])

    def val(self, d=2):
        r = self.r; c = ["lit"] * 2
        if self.vars: c += ["var"] * 4
        if d > 0: c += ["res", "rej", "new", "thenable", "thenable", "comb", "comb", "chain", "cls"]
        if self.nd: c += ["dp"] * 2
        if self.nx < 7 and d > 0: c += ["ext"] * 2
        x = r.choice(c)
        if x == "lit": return self.lit()
        if x == "var": return r.choice(self.vars)
        if x == "dp": return "D[%d].p" % r.randrange(self.nd)
        if x == "ext":
            self.nx += 1; return "$.ext(\"%s\")" % self.u("X")
        v = lambda: self.val(d - 1)
        C = r.choice(["Promise", "Promise", "MyP", "Q", "R"])
        if x == "res": return "%s.resolve(%s)" % (C, v())
        if x == "rej": return "%s.reject(%s)" % (C, v())
        if x == "cls": return "new %s((a,b)=>{ %s })" % (C, r.choice(["a(%s)", "b(%s)", "$.p(0); a(%s); b(1);", "Promise.resolve().then(()=>a(%s));", "a(1); throw %s;"]) % v())
        if x == "new": return "new Promise((a,b)=>{ %s })" % (r.choice(["a(%s); a(2);", "b(%s); a(2);", "a(%s); throw 1;", "throw %s;", "a(D[0]?D[0].p:1);void %s;"]) % v())
        if x == "thenable":
            return r.choice(["{then(a,b){ $.log(\"%s\"); a(%s); a(1); b(2); }}", "{then(a,b){ $.log(\"%s\"); b(%s); a(1); }}", "{get then(){ $.log(\"%s\"); throw %s; }}", "{then(a,b){ $.log(\"%s\"); Promise.resolve(0).then(()=>{ a(%s); b(3); }); throw 7; }}",
                             "{then(a,b){ $.log(\"%s\"); $.p(0); Promise.resolve(0).then(()=>{ a(%s); b(3); }); }}", "Object.assign(()=>{},{then(a){ $.log(\"%s\"); a(%s); }})"]) % (self.u("th"), v())
        if x == "chain": return "Promise.resolve(%s).%s" % (v(), self.reaction(d - 1))
        if x == "comb":
            k = r.choice(["all", "race", "any", "allSettled"]); n = r.randint(0, 4)
            items = "[%s]" % ",".join(v() for _ in range(n))
            if r.random() < .3: items = "$it(\"%s\",%d,{r:%d,t:0,n:%d})" % (self.u("i"), r.randint(1, 4), r.choice([0, 1, 2, 3]), r.choice([0, 0, 1, 2]))
            C = r.choice(["Promise", "Promise", "Promise", "MyP", "Q", "R"])
            if r.random() < .2: return "Promise.%s.call(MyC,%s)" % (k, items)
            return "%s.%s(%s)" % (C, k, items)
        raise AssertionError

    def fn(self, d, arg="v"):
        r = self.r; n = self.u("t"); b = ["$.log(\"%s\",%s);" % (n, arg)]
        if r.random() < .35: b.append(self.action(d - 1))
        x = r.random()
        if x < .45: b.append("return %s;" % self.val(max(d - 1, 0)))
        elif x < .6: b.append("throw %s;" % self.val(0))
        elif x < .7: b.append("return %s;" % arg)
        elif x < .8: b.append("return $.p(%s);" % self.val(0))
        return "%s=>{ %s }" % (arg, " ".join(b))

    def reaction(self, d):
        r = self.r; x = r.random()
        if x < .45: return "then(%s)" % self.fn(d)
        if x < .6: return "then(%s,%s)" % (self.fn(d), self.fn(d, "e"))
        if x < .7: return "then(%s,%s)" % (r.choice(["undefined", "1", "null"]), self.fn(d, "e"))
        if x < .85: return "catch(%s)" % self.fn(d, "e")
        return "finally(%s)" % r.choice([self.fn(d, "z"), "5", self.fn(d, "z")])

    def action(self, d):
        """A statement on one line, allowed anywhere."""
        r = self.r; self.budget -= 1
        if self.budget < 0 or d < 0: return "$.log(\"%s\");" % self.u("z")
        c = ["settle"] * (4 if self.nd else 0) + ["obs"] * 3 + ["chain"] * 3 + ["micro"] * 2 + ["self"]
        x = r.choice(c)
        if x == "settle": return "D[%d].%s(%s);" % (r.randrange(self.nd), r.choice("aab"), self.val(d))
        if x == "obs": return "obs(\"%s\",Promise.resolve(%s));" % (self.u("o"), self.val(d))
        if x == "micro": return "Promise.resolve().then(()=>{ $.log(\"%s\"); %s });" % (self.u("m"), self.action(d - 1))
        if x == "chain":
            p = self.val(d)
            return "{ const q=Promise.resolve(%s).%s; obs(\"%s\",q); }" % (p, self.reaction(d), self.u("c"))
        if x == "self": return "{ let rs; const p=new Promise(a=>rs=a); obs(\"%s\",p); rs(%s); }" % (self.u("self"), r.choice(["p", "{then(a){ a(p); }}", "[p]"]))

    def stmt(self):
        r = self.r; x = r.random()
        if x < .15 and self.nd < 5:
            self.out.append("defer(\"%s\"); obs(\"d%d\",D[%d].p);" % (self.u("d"), self.nd, self.nd)); self.nd += 1
        elif x < .45:
            v = self.u("p"); self.out.append("let %s=%s;" % (v, self.val(3))); self.vars.append(v)
            if r.random() < .5: self.out.append("try { obs(\"%s\",Promise.resolve(%s)); } catch (e) { $.log(\"oe\",e); }" % (v, v))
        elif x < .52 and self.vars: self.out.append("try { Promise.prototype.then.call(%s,%s); } catch (e) { $.log(\"te\",e); }" % (r.choice(self.vars), self.fn(2)))
        elif x < .57: self.out.append("try { const q=Promise.resolve(%s); q.constructor=%s; obs(\"%s\",q.%s); } catch (e) { $.log(\"ce\",e); }" % (self.val(1), r.choice(["undefined", "{[Symbol.species]:MyC}", "{[Symbol.species]:undefined}", "MyP", "{get [Symbol.species](){ throw 1; }}", "3"]), self.u("sp"), self.reaction(2)))
        else: self.out.append("try { %s } catch (e) { $.log(\"%s\",e); }" % (self.action(3), self.u("x")))

    def program(self):
        for _ in range(self.r.randint(4, 14)): self.stmt()
        return "(function(){\n" + "\n".join(self.out) + "\n$.log(\"sync end\");\n})();"


def gen_prom(rng, **kw):
    return {"src": PG(rng, **kw).program(), "prologue": PRE, "order": [rng.randrange(32) for _ in range(30)]}
