"""Calls of built-ins and language constructs whose every argument is user code: conversions, getters, iterators, callbacks,
proxy traps, species constructors.  Each such piece logs itself and is a point where a fault can be injected."""
PRE = r"""
var Q = 0;
var sh = x => typeof x === "object" ? (x === null ? "null" : "o") : typeof x === "function" ? "f" : typeof x === "symbol" ? x.description : typeof x === "bigint" ? x + "n" : Object.is(x, -0) ? "-0" : String(x);
var T = (l, v) => { if (Q) return v; $.log(l); return $.p(v); };
var N = (l, v) => ({[Symbol.toPrimitive](h) { return T(l + " prim " + h, v); }});
var V = (l, v) => ({valueOf() { T(l + " valueOf"); return {}; }, toString() { return T(l + " toString", v); }});
var W = (l, v) => ({get valueOf() { T(l + " get valueOf"); return () => T(l + " valueOf", v); }, get toString() { T(l + " get toString"); return () => T(l + " toString", v); }});
var IT = (l, a, ret, nf) => ({get [Symbol.iterator]() { T(l + " get iterator"); return function () { T(l + " iterator"); let i = 0; return {
  get next() { T(l + " get next"); return () => { T(l + " next"); const k = i++; if (nf && k === nf) return 5; return {get done() { return T(l + " done", k >= a.length); }, get value() { return T(l + " value", a[k]); }}; }; },
  get return() { T(l + " get return"); return ret === 1 ? undefined : ret === 2 ? 7 : function (v) { T(l + " return " + arguments.length); return ret === 3 ? 1 : {}; }; },
  get throw() { T(l + " get throw"); return undefined; }}; }; }});
var AI = (l, a, ret) => ({get [Symbol.asyncIterator]() { T(l + " get asyncIterator"); return function () { T(l + " asyncIterator"); let i = 0; return {
  get next() { T(l + " get next"); return () => { T(l + " next"); const k = i++; return {get done() { return T(l + " done", k >= a.length); }, get value() { return T(l + " value", a[k]); }}; }; },
  get return() { T(l + " get return"); return ret === 1 ? undefined : ret === 2 ? 7 : function (v) { T(l + " return"); return ret === 3 ? 1 : {}; }; }}; }; }});
var H = l => { const h = {}; for (const t of ["get", "set", "has", "deleteProperty", "defineProperty", "getOwnPropertyDescriptor", "ownKeys", "getPrototypeOf", "setPrototypeOf", "isExtensible", "preventExtensions", "apply", "construct"])
  h[t] = function (o, ...a) { T(l + " " + t + (t === "apply" || t === "construct" ? "" : " " + sh(a[0]) + (t === "set" ? " " + sh(a[1]) : ""))); return Reflect[t](o, ...a); }; return h; };
var PX = (l, o) => new Proxy(o, H(l));
var HX = (l, o) => new Proxy(o, new Proxy({}, {get(t, k) { T(l + " trap " + sh(k)); return undefined; }}));
var CB = (l, f) => function (...a) { T(l + " (" + a.map(sh) + ")" + (this === undefined || this === globalThis ? "" : " this " + sh(this))); return f.apply(this, a); };
var CB2 = (l, f) => { const g = CB(l, f); return function (a, b) { return g.call(this, a, b); }; };
var GA = (l, a) => { const o = {}; for (let i = 0; i < a.length; i++) Object.defineProperty(o, i, {get() { return T(l + " get " + i, a[i]); }, set(v) { T(l + " set " + i + " " + sh(v)); a[i] = v; }, enumerable: true, configurable: true}); Object.defineProperty(o, "length", {get() { return T(l + " length", a.length); }, set(v) { T(l + " set length " + sh(v)); }, enumerable: false, configurable: true}); return o; };
var SP = (l, C) => { class X extends C { constructor(...a) { T(l + " new (" + a.map(sh) + ")"); super(...a); } static get [Symbol.species]() { T(l + " species"); return this; } } return X; };
var SA = (l, a) => { const x = a.slice(); Object.defineProperty(x, "constructor", {get() { T(l + " constructor"); return SP(l, Array); }, configurable: true}); return x; };
var TH = (l, v, bad) => ({get then() { T(l + " get then"); return function (a, b) { T(l + " then"); bad ? b(v) : a(v); }; }});
var PC = l => { class X extends Promise { constructor(e) { T(l + " new"); super(e); } then(a, b) { T(l + " then"); return super.then(a, b); } } const s = Promise.resolve; Object.defineProperty(X, "resolve", {get() { T(l + " get resolve"); return function (v) { T(l + " resolve " + sh(v)); return s.call(this, v); }; }}); return X; };
var KEY = (l, v) => ({toString() { return T(l + " key", v); }});
var R = (n, f) => { let r, s; try { r = f(); } catch (e) { $.log(n, "!>", $.err(e)); return; } Q = 1; try { s = $.show(r); } finally { Q = 0; } $.log(n, "=>", s); };
var RA = (n, f) => { let p; try { p = f(); } catch (e) { $.log(n, "!>", $.err(e)); return; } Promise.prototype.then.call(p, v => { Q = 1; const s = $.show(v); Q = 0; $.log(n, "=>", s); }, e => $.log(n, "rejected", $.err(e))); };
"""
AM = {"at": "n", "concat": "ac", "copyWithin": "nnn", "every": "b", "fill": "vnn", "filter": "b", "find": "b", "findIndex": "b", "findLast": "b", "findLastIndex": "b", "flat": "n", "flatMap": "f", "forEach": "b",
      "includes": "vn", "indexOf": "vn", "join": "s", "lastIndexOf": "vn", "map": "f", "pop": "", "push": "vv", "reduce": "gv", "reduceRight": "gv", "reverse": "", "shift": "", "slice": "nn", "some": "b", "splice": "nnvv",
      "unshift": "vv", "toString": ""}
TM = {"at": "n", "copyWithin": "nnn", "every": "b", "fill": "nnn", "filter": "b", "find": "b", "findIndex": "b", "findLast": "b", "findLastIndex": "b", "forEach": "b", "includes": "nn", "indexOf": "1n", "join": "s",
      "lastIndexOf": "1n", "map": "h", "reduce": "gv", "reduceRight": "gv", "slice": "nn", "some": "b", "subarray": "nn", "set": "An"}
TA = ["Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint32Array", "Float32Array", "Float64Array"]


class C:
    def __init__(self, rng):
        self.r = rng; self.n = 0

    def l(self):
        self.n += 1; return '"%s"' % "abcdefghijklmnopqrstuvwxyz"[(self.n - 1) % 26]

    def val(self):
        return self.r.choice(["0", "1", "2", "-1", "2.5", '"x"', '"3"', "NaN", "null", "undefined", "true", "-0", '""', "Infinity", '"foo"'])

    def num(self):
        return self.r.choice(["0", "1", "2", "3", "-1", "-2", "1.5", "NaN", "Infinity", '"2"', '"q"', "undefined", "null"])

    def vals(self, lo=0, hi=4):
        return "[" + ", ".join(self.val() for _ in range(self.r.randint(lo, hi))) + "]"

    def nums(self, lo=0, hi=4):
        return "[" + ", ".join(self.r.choice(["0", "1", "2", "300", "-1", "2.5", self.a("n")]) for _ in range(self.r.randint(lo, hi))) + "]"

    def holes(self):
        return "[" + ", ".join(self.r.choice([self.val(), self.val(), ""]) for _ in range(self.r.randint(0, 4))) + ", 1]"

    def prim(self, v):
        return "%s(%s, %s)" % (self.r.choice(["N", "N", "V", "W"]), self.l(), v)

    def obj(self):
        r = self.r; ks = r.sample(["p", "q", "0", "1", "z"], r.randint(0, 3))
        return "{" + ", ".join(r.choice(['%s: %s' % (k, self.val()), "get %s() { return T(%s, %s); }" % (k, '"get %s"' % k, self.val())]) for k in ks) + "}"

    def desc(self):
        r = self.r; f = []
        if r.random() < .6: f.append("enumerable: " + r.choice(["true", "false"]))
        if r.random() < .6: f.append("configurable: " + r.choice(["true", "false"]))
        if r.random() < .6: f.append("value: " + self.val()); f += ["writable: true"] if r.random() < .5 else []
        else: f.append(r.choice(["get: " + self.cb("() => 1"), "set: " + self.cb("() => {}"), "get: 5", "writable: false", "get() {}, value: 1"]))
        return "PX(%s, {%s})" % (self.l(), ", ".join(f))

    def cb(self, f):
        return "CB(%s, %s)" % (self.l(), f)

    def cb2(self, f):
        return "CB2(%s, %s)" % (self.l(), f)

    def arr(self):
        r = self.r; k = r.random()
        if k < .45: return "PX(%s, %s)" % (self.l(), r.choice([self.vals(), self.holes(), "{length: %d, 0: 1, 2: 2}" % r.randint(0, 4), "SA(%s, %s)" % (self.l(), self.vals())]))
        if k < .75: return "GA(%s, %s)" % (self.l(), self.vals())
        if k < .9: return "SA(%s, %s)" % (self.l(), r.choice([self.vals(), self.holes()]))
        return "{length: %s, 0: 1, 1: 2}" % self.prim(r.choice(["0", "1", "2", "3", "-1", "NaN", '"2"', "1.5", "null"]))

    def iter(self, vals, nf=1):
        r = self.r; return "IT(%s, %s, %d, %d)" % (self.l(), vals, r.choice([0, 0, 0, 1, 2, 3]), r.choice([0] * 9 + [nf]))

    def entries(self):
        r = self.r; return "[" + ", ".join(r.choice(["[%s, %s]" % (self.val(), self.val()), "GA(%s, [%s, %s])" % (self.l(), self.val(), self.val()), "PX(%s, [%s, %s])" % (self.l(), self.val(), self.val()), self.val() if r.random() < .3 else "[]"]) for _ in range(r.randint(0, 3))) + "]"

    def wentries(self, pair):
        r = self.r; k = lambda: r.choice(["{}", "[]", "{}", self.val() if r.random() < .3 else "{}"])
        return "[" + ", ".join(r.choice(["[%s, %s]" % (k(), self.val()), "GA(%s, [%s, %s])" % (self.l(), k(), self.val())]) if pair else k() for _ in range(r.randint(0, 3))) + "]"

    def thens(self):
        r = self.r; return "[" + ", ".join(r.choice([self.val(), "TH(%s, %s, %d)" % (self.l(), self.val(), r.randrange(2)), "Promise.resolve(%s)" % self.val(), "Promise.reject(%s)" % self.val()]) for _ in range(r.randint(0, 3))) + "]"

    def a(self, k):
        r = self.r
        if k == "n": return self.prim(self.num()) if r.random() < .75 else r.choice(["undefined", "1", "0", "-1", '"1"'])
        if k == "1": return r.choice(["0", "1", "2"])
        if k == "s": return self.prim(r.choice(['"-"', '"ab"', "1", "null"])) if r.random() < .8 else r.choice(['","', "undefined", '""'])
        if k == "k": return r.choice(["KEY(%s, %s)" % (self.l(), r.choice(['"p"', '"q"', '"0"', '"zz"', '"length"'])), '"p"', '"q"', "1", "Symbol.iterator"])
        if k == "v": return r.choice([self.val(), self.val(), "{v: 1}"])
        if k == "b": return self.cb("(x, i) => " + r.choice(["i === 1", "x", "!x", "true", "false", "i < 2"])) if r.random() < .93 else r.choice(["undefined", "5"])
        if k == "f": return self.cb("(x, i) => " + r.choice(["x", "[x, i]", "i", self.arr(), "[[x], " + self.val() + "]"]))
        if k == "h": return self.cb("(x, i) => " + r.choice(["x", "i + 1", self.a("n")]))
        if k == "g": return self.cb("(p, x, i) => " + r.choice(["p", "x", "String(p) + x"]))
        if k == "c": return r.choice([self.arr(), "[1, , 2]", self.val(), "Object.assign(GA(%s, %s), {[Symbol.isConcatSpreadable]: true})" % (self.l(), self.vals()), "{get [Symbol.isConcatSpreadable]() { return T(%s, %s); }, length: 2, 1: 7}" % (self.l(), self.val())])
        if k == "a": return self.arr()
        if k == "A": return r.choice([self.arr(), "PX(%s, %s)" % (self.l(), self.nums()), self.nums()])
        if k == "o":
            o = r.choice([self.obj(), self.obj(), self.holes(), "Object.%s(%s)" % (r.choice(["freeze", "seal", "preventExtensions"]), self.obj())])
            return r.choice(["PX(%s, %s)", "PX(%s, %s)", "PX(%s, %s)", "HX(%s, %s)", "PX('n', PX(%s, %s))", "HX('n', PX(%s, %s))", "new Proxy(PX(%s, %s), {})"]) % (self.l(), o)
        if k == "O": return r.choice([self.a("o"), self.obj()])
        if k == "i": return self.iter(self.vals())
        if k == "I": return r.choice([self.iter(self.vals()), self.vals(), "PX(%s, %s)" % (self.l(), self.vals())])
        if k == "e": return self.iter(self.entries())
        if k == "w": return self.iter(self.wentries(True))
        if k == "W": return self.iter(self.wentries(False))
        if k == "t": return self.iter(self.thens())
        if k == "d": return self.desc()
        if k == "D": return "PX(%s, {%s})" % (self.l(), ", ".join("%s: %s" % (x, self.desc()) for x in r.sample(["p", "q", "r"], r.randint(0, 2))))
        if k == "P": return r.choice(["HX(%s, function () {})" % self.l(), "PX('m', PX(%s, function () {}))" % self.l(), "PX(%s, (function () {}).bind(1))" % self.l(),"PX(%s, function () {})" % self.l(), "class { static get prototype_() {} }", "PX(%s, class { constructor() { T(%s); } })" % (self.l(), self.l())])
        if k == "r": return r.choice(["{}", "null", "PX(%s, {})" % self.l()])
        if k == "x": return "((X) => { const x = X; x.lastIndex = %s; return x; })(%s)" % (self.a("n"), r.choice(["/(a)(b)?/g", "/b/y", "/(?<n>a)|b/", "/a*/g", "/x/gy", self.rx(), self.rx()]))
        raise KeyError(k)

    def rx(self, plain=False):
        """a regular expression with its own exec; V8's @@replace converts result[0] twice, so there it is plain"""
        r = self.r; l = self.l()
        res = r.choice(["null", "{index: %s, length: %s, 0: %s, 1: %s, groups: %s}" % (self.a("n"), r.choice(["1", "2", self.prim("2")]), '"a"' if plain else self.a("s"), self.a("s"), r.choice(["undefined", "{n: %s}" % self.a("s"), self.val()])), "5" if plain else "Object.assign(GA(%s, ['a', 'b']), {index: 0})" % self.l(), "5"])
        return "Object.defineProperties(/a/%s, {exec: {get() { T(%s + ' get exec'); return this.X = this.X || ((n) => function (s) { T(%s + ' exec ' + sh(s)); return n++ ? null : %s; })(0); }}})" % (r.choice(["", "g", "gu"]), l, l, res)

    def args(self, spec):
        r = self.r; n = len(spec) if r.random() < .8 else r.randint(0, len(spec))
        return [self.a(k) for k in spec[:n]]

    def call(self):
        """one expression: (text, asynchronous)"""
        r = self.r; A = lambda spec: ", ".join(self.args(spec))
        k = r.choice(["arr", "arr", "arr", "from", "coll", "coll", "obj", "obj", "refl", "refl", "prom", "prom", "typed", "typed", "str", "re", "re", "json", "date", "func", "misc", "misc", "lang", "lang", "lang", "dv", "num", "async", "cls"])
        return getattr(self, "k_" + k)(A)

    def k_arr(self, A):
        m = self.r.choice(sorted(AM)); a = A(AM[m]); return "Array.prototype.%s.call(%s%s)" % (m, self.arr(), ", " + a if a else ""), False

    def k_from(self, A):
        r = self.r
        return r.choice([lambda: "Array.from(%s%s)" % (r.choice([self.a("i"), self.arr()]), r.choice(["", ", " + self.a("f"), ", %s, {t: 1}" % self.a("f"), ", 5"])),
                         lambda: "Array.from.call(%s, %s)" % ("SP(%s, %s)" % (self.l(), r.choice(["Array", "Object"])), r.choice([self.a("i"), self.arr()])),
                         lambda: "Array.of.call(SP(%s, Array), %s)" % (self.l(), A("vvv") or "1"),
                         lambda: "Object.fromEntries(%s)" % self.entries(),
                         lambda: "new Array(%s)" % A("vv")])(), False

    def k_coll(self, A):
        r = self.r; c = r.choice(["Map", "Set", "WeakMap", "WeakSet"]); src = self.a({"Map": "e", "Set": "i", "WeakMap": "w", "WeakSet": "W"}[c]); add = "set" if c.endswith("Map") else "add"
        k = r.random(); fin = "[...%s]" if c in ("Map", "Set") else "%s && 1"
        if k < .5: return fin % ("new %s(%s)" % (c, src)), False
        if k < .8: return fin % ("new (class extends %s { get %s() { T(%s); return function (...a) { T(%s + a.map(sh)); return super.%s(...a); }; } })(%s)" % (c, add, '"get adder"', '"adder "', add, src)), False
        if c in ("Map", "Set"): return "new %s(%s).forEach(%s%s)" % (c, self.entries() if c == "Map" else self.vals(), self.a("b"), r.choice(["", ", {t: 1}"])), False
        return "Reflect.construct(%s, [%s], PX(%s, function () {})) && 1" % (c, src, self.l()), False

    def k_obj(self, A):
        r = self.r; m, s = r.choice([("assign", "OOO"), ("assign", "OO"), ("keys", "o"), ("values", "o"), ("entries", "o"), ("freeze", "o"), ("seal", "o"), ("isFrozen", "o"), ("isSealed", "o"), ("preventExtensions", "o"), ("isExtensible", "o"),
            ("defineProperty", "Okd"), ("defineProperties", "OD"), ("create", "rD"), ("getOwnPropertyDescriptor", "ok"), ("getOwnPropertyDescriptors", "o"), ("getOwnPropertyNames", "o"), ("getOwnPropertySymbols", "o"), ("setPrototypeOf", "or"), ("getPrototypeOf", "o"), ("hasOwn", "ok")])
        if r.random() < .25:
            m, s = r.choice([("hasOwnProperty", "k"), ("isPrototypeOf", "o"), ("propertyIsEnumerable", "k"), ("toString", ""), ("toLocaleString", ""), ("__defineGetter__", "kb"), ("__defineSetter__", "kb"), ("__lookupGetter__", "k"), ("__lookupSetter__", "k")])
            a = A(s); return "Object.prototype.%s.call(%s%s)" % (m, self.a("o"), ", " + a if a else ""), False
        return "Object.%s(%s)" % (m, A(s)), False

    def k_refl(self, A):
        m, s = self.r.choice([("apply", "bva"), ("construct", "Pa"), ("construct", "PaP"), ("defineProperty", "okd"), ("deleteProperty", "ok"), ("get", "ok"), ("get", "oko"), ("set", "okv"), ("set", "okvo"), ("has", "ok"), ("getOwnPropertyDescriptor", "ok"), ("getPrototypeOf", "o"), ("setPrototypeOf", "or"), ("isExtensible", "o"), ("preventExtensions", "o"), ("ownKeys", "o")])
        return "Reflect.%s(%s)" % (m, ", ".join(self.a(k) for k in s)), False

    def k_prom(self, A):
        r = self.r; m = r.choice(["all", "race", "any", "allSettled"]); c = r.choice(["Promise", "PC(%s)" % self.l()])
        k = r.random()
        if k < .7: return "Promise.%s.call(%s, %s)" % (m, c, self.a("t")), True
        if k < .8: return "Promise.%s.call(%s, %s)" % (r.choice(["resolve", "reject"]), c, r.choice(["TH(%s, 1, %d)" % (self.l(), r.randrange(2)), self.val()])), True
        if k < .9: return "Promise.prototype.finally.call(%s, %s)" % (r.choice(["new (PC(%s))(%s)" % (self.l(), self.cb("(a, b) => a(1)")), "Promise.reject(1)"]), self.cb("() => " + r.choice(["1", "TH(%s, 1, 1)" % self.l()]))), True
        return "new Promise(%s)" % self.cb("(a, b) => { %s }" % r.choice(["a(TH(%s, 1, 0))" % self.l(), "b(1)", "a(1); b(2)", "a(TH(%s, 2, 1)); a(3)" % self.l()])), True

    def k_typed(self, A):
        r = self.r; c = r.choice(TA); k = r.random()
        if k < .3: return "new %s(%s)" % (c, r.choice([self.iter(self.nums()), self.a("A"), "new ArrayBuffer(%s), %s, %s" % (r.choice(["16", "8", "7"]), self.a("n"), self.a("n"))])), False
        if k < .45: return "%s.from(%s%s)" % (c, r.choice([self.iter(self.nums()), self.a("A")]), r.choice(["", ", " + self.a("h")])), False
        if k < .5: return "%s.of(%s)" % (c, ", ".join(self.a("n") for _ in range(r.randint(0, 3)))), False
        if k < .55: return "(() => { const t = new %s(2); t[%s] = %s; return t; })()" % (c, r.choice(["0", "1", "2", "1.5"]), self.a("n")), False
        if k < .65: return "new ArrayBuffer(8).slice(%s)" % A("nn") if r.random() < .5 else "ArrayBuffer.prototype.slice.call(new (SP(%s, ArrayBuffer))(8), %s)" % (self.l(), self.a("n")), False
        m = r.choice(sorted(TM)); a = A(TM[m]) if m != "fill" else ", ".join(self.prim(r.choice(["0", "1", "2", "-1"])) for _ in range(3)); base = "new %s([1, 2, 3])" % c if r.random() < .6 else "new (SP(%s, %s))([1, 2, 3])" % (self.l(), c)
        return "((t) => [t.%s(%s), ...t])(%s)" % (m, a, base), False

    def k_str(self, A):
        r = self.r; S = lambda: self.prim(r.choice(['"abcab"', '"  x "', "12", '""']))
        m, s = r.choice([("at", "n"), ("charAt", "n"), ("charCodeAt", "n"), ("codePointAt", "n"), ("concat", "ss"), ("endsWith", "sn"), ("includes", "sn"), ("indexOf", "sn"), ("lastIndexOf", "sn"), ("padEnd", "ns"), ("padStart", "ns"), ("repeat", "1"), ("slice", "nn"), ("split", "sn"), ("startsWith", "sn"), ("substring", "nn"), ("trim", ""), ("toLowerCase", ""), ("toString", "")])
        k = r.random()
        if k < .55:
            a = A(s); return "String.prototype.%s.call(%s%s)" % (m, S(), ", " + a if a else ""), False
        if k < .75:
            m = r.choice(["match", "matchAll", "search", "replace", "replaceAll", "split"]); y = m if m != "replaceAll" else "replace"
            o = r.choice(["{get [Symbol.%s]() { T(%s); return %s; }, get flags() { return T('flags', 'g'); }}" % (y, self.l(), self.cb("() => 1")), "{get [Symbol.%s]() { T(%s); return %s; }, toString() { return T(%s, 'b'); }}" % (y, self.l(), r.choice(["undefined", "null", "5"]), self.l())])
            r2 = "" if m in ("match", "matchAll", "search") else ", " + r.choice([self.a("s"), self.cb("() => " + self.a("s"))] if m != "split" else ["undefined", "2"])
            return "String.prototype.%s.call(%s, %s%s)" % (m, S(), o, r2), False
        if k < .9: return "%s.%s(%s, %s)" % (r.choice(['"abcab"', '"aaa"']), r.choice(["replace", "replaceAll"]), self.a("s") if r.random() < .5 else '"a"', r.choice([self.a("s"), self.cb("(...a) => " + self.a("s"))])), False
        return "String.raw(PX(%s, {raw: %s}), %s)" % (self.l(), self.arr(), ", ".join(self.a("s") for _ in range(r.randint(0, 2))) or "1"), False

    def k_re(self, A):
        r = self.r; x = self.a("x") if r.random() < .5 else self.rx(); k = r.random(); S = self.a("s") if r.random() < .5 else '"abab"'
        if k < .2: return "RegExp.prototype.%s.call(%s, %s)" % (r.choice(["exec", "test"]), x, S), False
        if k < .8:
            m = r.choice(["match", "replace", "search", "split", "matchAll"])
            if m == "replace": x = self.rx(True) if r.random() < .6 else "((X) => { const x = X; x.lastIndex = %s; return x; })(%s)" % (self.a("n"), r.choice(["/(a)(b)?/g", "/b/y", "/(?<n>a)|b/", "/a*/g", "/x/gy"]))
            e = {"replace": ", " + (self.a("s") if r.random() < .5 else self.cb("(...a) => " + self.a("s"))), "split": ", " + self.a("n")}.get(m, "")
            t = "RegExp.prototype[Symbol.%s].call(%s, %s%s)" % (m, x, S, e)
            return "[...%s]" % t if m == "matchAll" else t, False
        if k < .9: return "new RegExp(%s, %s)" % (r.choice(["{get [Symbol.match]() { return T(%s, true); }, get source() { return T(%s, 'a'); }, get flags() { return T(%s, 'g'); }, get constructor() { return T(%s, RegExp); }}" % (self.l(), self.l(), self.l(), self.l()), self.a("s")]), r.choice(["undefined", self.prim('"g"')])) + ".source", False
        return "RegExp.prototype.toString.call(PX(%s, {source: %s, flags: %s}))" % (self.l(), self.a("s"), self.a("s")), False

    def k_json(self, A):
        r = self.r
        if r.random() < .3: return "JSON.parse(%s, %s)" % (r.choice(["'[1,{\"a\":2,\"b\":[3]}]'", self.prim("'{\"p\":[1,2]}'")]), self.cb2("function (k, v) { return %s; }" % r.choice(["v", "k === 'a' ? undefined : v", "k === '0' ? [9] : v", "(k === 'a' && (this.b = PX('y', [4, 5])), v)"]))), False
        v = r.choice([self.a("o"), self.arr(), "[%s, {get toJSON() { T(%s); return %s; }}]" % (self.val(), self.l(), self.cb("() => " + self.val())), "{p: Object(1), q: %s, z: %s}" % (self.a("o"), self.a("o")), "[Object('s'), %s]" % self.arr()])
        if v.startswith("{length"): v = "[1]"
        return "JSON.stringify(%s, %s, %s)" % (v, r.choice(["undefined", self.cb("(k, v) => v"), "PX(%s, ['p', 0, %s])" % (self.l(), "Object('q')")]), r.choice(["undefined", "1", "'--'", "Object.assign(new Number(2), %s)" % self.prim("2"), "Object.assign(new String('x'), %s)" % self.prim("'y'")])), False

    def k_date(self, A):
        r = self.r; k = r.random()
        if k < .3: return "new Date(%s).getTime()" % r.choice([self.prim("5"), "PX(%s, {})" % self.l() if r.random() < .2 else self.prim("7")]), False
        if k < .5: return "Date.UTC(%s)" % ", ".join(self.a("n") for _ in range(r.randint(1, 7))), False
        if k < .8: return "new Date(%s).%s(%s)" % (r.choice(["0", "1e12"]), r.choice(["setUTCHours", "setUTCMinutes", "setUTCSeconds", "setUTCMonth", "setUTCFullYear", "setUTCDate", "setTime", "setUTCMilliseconds"]), ", ".join(self.a("n") for _ in range(r.randint(1, 3)))), False
        return r.choice(["Date.prototype.toJSON.call(%s)" % r.choice(["{%s, toISOString: %s}" % ("valueOf() { return T('vo', %s); }" % r.choice(["1", "NaN", "null"]), self.cb("() => 1")), "Object.assign(%s, {toISOString: %s})" % (self.prim("1"), self.cb("() => 2"))]), "Date.prototype[Symbol.toPrimitive].call(W(%s, %s), %s)" % (self.l(), self.val(), r.choice(['"number"', '"string"', '"default"', '"x"']))]), False

    def k_func(self, A):
        r = self.r
        return r.choice([lambda: "Function.prototype.apply.call(%s, %s, %s)" % (self.cb("(...a) => a.length"), self.val(), self.arr()), lambda: "%s.bind(1, 2).length" % self.a("P") if False else "((f) => [f.name, f.length])(Function.prototype.bind.call(PX(%s, function foo(a, b) {}), 1))" % self.l(),
            lambda: "Math.max(...%s)" % self.iter(self.nums()), lambda: "Function.prototype[Symbol.hasInstance].call(%s, %s)" % (self.a("P"), self.a("o")), lambda: "new (%s)(%s)" % (self.a("P"), "..." + self.a("I")), lambda: "(%s)(...%s)" % (self.cb("(...a) => a.length"), self.a("i")),
            lambda: "new Function(%s, %s)(1)" % (self.prim('"a"'), self.prim('"return a"'))])(), False

    def k_misc(self, A):
        r = self.r
        return r.choice([lambda: "new Error(%s, %s).message" % (self.a("s"), self.a("O")), lambda: "new AggregateError(%s, %s).errors" % (self.a("i"), self.a("s")), lambda: "Error.prototype.toString.call(PX(%s, {name: %s, message: %s}))" % (self.l(), self.a("s"), self.a("s")), lambda: "Symbol.for(%s).description" % self.a("s"), lambda: "Symbol(%s).description" % self.a("s"),
            lambda: "Math.%s(%s)" % r.choice([("max", A("nnn")), ("min", A("nnn")), ("hypot", r.choice(["3, %s", "%s, 3", "%s"]) % self.prim(r.choice(["4", "-4", "NaN"]))), ("pow", ", ".join(self.prim(r.choice(["0", "1", "2", "NaN"])) for _ in "ab")), ("atan2", ", ".join(self.prim(r.choice(["0", "1", "NaN"])) for _ in "ab")), ("imul", A("nn")), ("abs", A("n"))]), lambda: "String.fromCharCode(%s)" % A("nnn"), lambda: "String.fromCodePoint(%s, %s)" % (self.prim("65"), self.a("n")), lambda: "parseInt(%s, %s)" % (self.prim('"12"'), self.prim("10")), lambda: "isNaN(%s)" % self.a("n"),
            lambda: "((p) => p.proxy)(Proxy.revocable({}, {})) && 1", lambda: "Atomics.%s(new Int32Array(4), %s, %s)" % (r.choice(["add", "store", "exchange", "or", "sub", "and", "xor"]), self.a("n"), self.a("n")), lambda: "Atomics.compareExchange(new Int32Array(4), %s, %s, %s)" % (self.a("n"), self.a("n"), self.a("n")), lambda: "Atomics.load(new Int32Array(4), %s)" % self.a("n"),
            lambda: "BigInt.as%sN(%s, %s)" % (r.choice(["Int", "Uint"]), self.prim("8"), self.prim(r.choice(["300n", '"77"', "true", "1"]))), lambda: "BigInt(%s)" % self.prim(r.choice(["3", '"12"', "1.5", "5n"])), lambda: "new %s(%s)" % (r.choice(["Number", "String", "Boolean"]), self.a("n")) + ".valueOf()", lambda: "new WeakRef(%s) && 1" % self.a("v") if r.random() < .3 else "Reflect.construct(%s, [%s], PX(%s, function () {})) && 1" % (r.choice(["Array", "Date", "Error", "Number", "String", "Boolean", "ArrayBuffer", "Object", "RegExp", "SharedArrayBuffer", "TypeError", "Function", "(function* () {}).constructor", "(async () => {}).constructor", "Uint8Array", "Float64Array"]), r.choice(["1", self.prim("1")]), self.l()),
            lambda: "Reflect.construct(%s, [%s], PX(%s, function () {})) && 1" % (r.choice([("Promise", self.cb("() => {}")), ("Promise", "1"), ("AggregateError", self.a("i")), ("WeakRef", "{}"), ("FinalizationRegistry", self.cb("() => {}")), ("FinalizationRegistry", "1"), ("DataView", "new ArrayBuffer(4), " + self.a("n")), ("Int16Array", "new ArrayBuffer(8), %s, %s" % (self.a("n"), self.a("n"))), ("Error", "%s, %s" % (self.a("s"), self.a("O")))]) + (self.l(),)),
            lambda: "[...%s]" % self.a("i"), lambda: "isFinite(%s)" % self.a("n"), lambda: "decodeURI(%s)" % self.prim('"%41"')])(), False

    def k_num(self, A):
        r = self.r; m, s = r.choice([("toFixed", "2"), ("toPrecision", "3"), ("toExponential", "1"), ("toString", "16")])
        return "(255).%s(%s)" % (m, self.prim(r.choice([s, s, '"%s"' % s, "200", "-1", "NaN"]))), False

    def k_dv(self, A):
        r = self.r; m = r.choice(["Int8", "Uint16", "Int32", "Float32", "Float64"]); k = r.random()
        if k < .3: return "new DataView(new ArrayBuffer(8), %s, %s).byteLength" % (self.a("n"), self.a("n")), False
        if k < .6: return "new DataView(new ArrayBuffer(16)).get%s(%s, %s)" % (m, self.a("n"), self.val()), False
        return "((d) => [d.set%s(%s, %s, %s), d.getInt32(0), d.getInt32(4)])(new DataView(new ArrayBuffer(16)))" % (m, self.a("n"), self.a("n"), self.val()), False

    def pat(self, d=0):
        """array destructuring pattern with observable targets"""
        r = self.r; els = []
        for _ in range(r.randint(0, 3)):
            t = r.choice(["S.x", "S['y']", "S.z"])
            els.append(r.choice([t, t, t + " = T(%s, 9)" % self.l(), "", "[S.x]", "{p: S.x = T(%s, 3)}" % self.l(), self.pat(d + 1) if d < 2 else t]))
        if r.random() < .3: els.append("..." + r.choice(["S.r", "[S.x, S.y]", "S['r']"]))
        elif r.random() < .3: els.append("")
        return "[" + ", ".join(els) + ("," if els and els[-1] == "" else "") + "]"

    def opat(self):
        r = self.r; els = []
        for _ in range(r.randint(0, 3)):
            k = r.choice(["p", "q", "[KEY(%s, 'p')]" % self.l(), "[KEY(%s, 'z')]" % self.l(), "0"]); t = r.choice(["S.x", "S['y']", "S.z = T(%s, 4)" % self.l(), "[S.x]" if r.random() < .3 else "S.x"])
            els.append(k + ": " + t)
        if r.random() < .4: els.append("...S.r")
        return "{" + ", ".join(els) + "}"

    STO = "const S = {get x() { return 1; }, set x(v) { T('set x ' + sh(v)); }, set y(v) { T('set y ' + sh(v)); }, set z(v) { T('set z ' + sh(v)); }, set r(v) { T('set r'); }}; "

    def pk(self):
        return self.r.choice(['"p"', '"q"', "0", "1", '"zz"'])

    def k_lang(self, A):
        r = self.r; n = lambda: self.a("n")
        op = r.choice(["+", "-", "*", "/", "%", "**", "<<", ">>>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "==="])
        aop = r.choice(["=", "+=", "-=", "*=", "??=", "||=", "&&=", "<<="])
        return r.choice([lambda: "(%s) ** %s" % tuple(self.prim(r.choice(["0", "1", "2", "'3'", "NaN"])) for _ in "ab") if op == "**" else "%s %s %s" % (n(), op, n()), lambda: "%s%s" % (r.choice(["-", "+", "~", "!", "typeof "]), n()), lambda: "`${%s}-${%s}`" % (self.a("s"), self.a("s")),
            lambda: "(() => { %s %s = %s; })()" % (self.STO, self.pat(), self.a("i")), lambda: "(() => { %s(%s = %s); })()" % (self.STO, self.opat(), self.a("o")), lambda: "(() => { %s return %s = %s; })()" % (self.STO, self.pat(), self.a("I")),
            lambda: "(() => { let n = 0; for (%s of %s) { n++; T('body'); %s } return n; })()" % (r.choice(["const x", "let [x = T('def')]", "var x"]) if r.random() < .6 else "const x", self.iter(r.choice([self.vals(), "[[1], [], GA(%s, [3])]" % self.l()])), r.choice(["", "if (n > 1) break;", "if (n > 1) return 'ret';", "if (n) throw T('thrown', 5);", "continue;", "try { if (n) break; } finally { T('fin'); }"])),
            lambda: "(() => { %s for (%s of %s) T('body'); })()" % (self.STO, r.choice(["S.x", self.pat(), self.opat()]), self.iter("[[1, 2], [%s], {p: 1, [Symbol.iterator]: [][Symbol.iterator]}]" % self.val())),
            lambda: "[...%s, %s, ...%s]" % (self.a("i"), self.val(), self.a("I")), lambda: "({...%s, [KEY(%s, 'q')]: %s, ...%s})" % (self.a("O"), self.l(), self.val(), self.a("o")),
            lambda: "((o) => { o[%s] %s %s; return o; })(%s)" % (self.pk(), aop, n(), self.a("o")), lambda: "((o) => [o[%s]++, --o.q])(%s)" % (self.pk(), self.a("o")), lambda: "%s in %s" % (self.a("k"), self.a("o")), lambda: "delete %s[%s]" % (self.a("o"), self.a("k")),
            lambda: "%s instanceof %s" % (self.a("o"), r.choice(["{get [Symbol.hasInstance]() { T(%s); return %s; }}" % (self.l(), self.cb("() => " + self.val())), self.a("P")])),
            lambda: "(%s)[%s]?.(%s)" % (self.a("o"), self.a("k"), n()), lambda: "(() => { function* g() { try { const x = yield* %s; return [x]; } finally { T('g fin'); } } const i = g(); const o = []; for (const v of i) { o.push(v); %s } return o; })()" % (self.a("i"), r.choice(["", "if (o.length > 1) break;"])),
            lambda: "(() => { function* g() { yield* %s; } const i = g(); i.next(); return i.%s(%s); })()" % (self.iter(self.vals(1, 3)), r.choice(["throw", "return"]), self.val()),
            lambda: "(0, eval)(%s)" % r.choice(["'T(\"in eval\", 3)'", self.prim('"1"')]), lambda: "(function () { with ({p: 1, get q() { return T('q', 2); }, get [Symbol.unscopables]() { T('unscop'); return PX(%s, {p: false}); }}) { return [p, typeof q, typeof zz]; } })()" % self.l(),
            lambda: "(([%s] = %s, {p = T('dp', 1)} = %s) => [a, p])(%s)" % (r.choice(["a", "a = T('da', 2)", "a, ...b"]), self.a("i"), self.a("O"), r.choice(["", "undefined", "%s" % self.a("i")])),
            lambda: "(() => { const o = {__proto__: %s, m() { return [super.p, super[%s]]; }, s(v) { super[%s] = v; return super.q = T('sq', v); }}; return %s; })()" % (self.a("o"), self.a("k"), self.a("k"), r.choice(["o.m()", "o.s(3)", "o.s.call(%s, 4)" % self.a("o")])),
            lambda: "((s, ...v) => s.raw.length + v.map(sh).join())`a${T(%s, 1)}b${%s}`" % (self.l(), n()), lambda: "%s?.[%s]?.[T('sub', 'x')]" % (self.a("o"), self.a("k")), lambda: "(%s).%s(...%s)" % ("{p: %s, q: %s}" % (self.cb("(...a) => a.length"), self.a("P")), r.choice(["p", "q"]), self.a("I")),
            lambda: "(() => { switch (T('sw', 2)) { case T('c1', 1): T('b1'); case T('c2', 2): T('b2'); default: T('bd'); case T('c3', 3): return T('b3', 3); } })()",
            lambda: "(() => { l: for (let i = T('init', 0); T('test', i < 2); T('upd', i++)) { for (const x of %s) { T('in'); if (x) continue l; else break; } } })()" % self.a("i"),
            lambda: "(() => { try { T('try'); return T('ret', 1); } catch (e) { T('catch'); throw e; } finally { T('fin'); %s } })()" % r.choice(["", "", "return 3;"])])(), False

    def k_cls(self, A):
        r = self.r
        return r.choice([lambda: "new (class extends (class { constructor() { T(%s); } }) { [KEY(%s, 'f')] = T('field', 1); static [KEY(%s, 's')] = T('static', 2); #p = T('priv', 3); get [KEY(%s, 'g')]() { return 1; } constructor(...a) { T('ctor'); super(...a); T('after super'); } })(1).f" % (self.l(), self.l(), self.l(), self.l()),
            lambda: "(() => { class A { static { T('block'); } static x = T('sx', 1); y = T('y', 2); m() { return T('m', this.y); } } class B extends A { z = T('z', super.m()); } return new B().z; })()",
            lambda: "(() => { class A extends Array { constructor(...a) { T('A ' + a.length); super(...a); } } const a = A.from(%s); return a.concat([1]).length; })()" % self.a("i"),
            lambda: "Reflect.construct(class { constructor() { T('c'); this.a = 1; } }, %s, %s).a" % (self.arr(), self.a("P"))])(), False

    def k_async(self, A):
        r = self.r; src = r.choice(["AI(%s, %s, %d)" % (self.l(), self.thens(), r.choice([0, 0, 1, 2, 3])), self.iter(self.thens())])
        return r.choice([lambda: "(async () => { let n = 0; for await (const x of %s) { T('body ' + sh(x)); n++; %s } return n; })()" % (src, r.choice(["", "if (n > 1) break;", "if (n) throw T('thr', 4);", "if (n) return 'r';"])),
            lambda: "(async () => { async function* g() { try { yield* %s; } finally { T('fin'); } } let n = 0; for await (const x of g()) { T('got ' + sh(x)); n++; %s } return n; })()" % (src, r.choice(["", "if (n > 1) break;"])),
            lambda: "(async () => { try { return [await %s, await %s]; } finally { T('fin'); } })()" % ("TH(%s, 1, %d)" % (self.l(), r.randrange(2)), "TH(%s, 2, 0)" % self.l()),
            lambda: "(async () => { const g = (async function* () { try { yield TH(%s, 1, 0); yield 2; } finally { await TH(%s, 3, %d); } })(); return [await g.next(), await g.%s(%s), await g.next()]; })()" % (self.l(), self.l(), r.randrange(2), r.choice(["return", "throw", "next"]), self.val())])(), True


def gen_calls(rng, n=None):
    c = C(rng); out = []
    for i in range(n or rng.choice([1, 1, 2, 3])):
        t, asy = c.call(); out.append("%s(%d, () => %s);" % ("RA" if asy else "R", i, "(" + t + ")" if t.startswith("{") else t))
    return {"src": "\n".join(out), "prologue": PRE, "order": []}
