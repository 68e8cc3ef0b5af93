"""Long histories of operations on the properties of a few objects of every storage kind; after each one the result
and, now and then, the whole state (keys in order, descriptors, length) are logged."""
PRE = r'''
Function.prototype.toString = function () { return "fn"; };
function sh(v, d = 0) { try { if (typeof v === "function") return "fn"; if (typeof v === "symbol") return v.description; if (typeof v === "bigint") return v + "n"; if (typeof v === "string") return JSON.stringify(v); if (typeof v !== "object" || !v) return Object.is(v, -0) ? "-0" : String(v);
  const i = O.indexOf(v); if (i >= 0) return "O" + i; if (d > 2) return "..."; if (Array.isArray(v)) { const o = []; for (let i = 0; i < Math.min(v.length, 40); i++) o.push(i in v ? sh(v[i], d + 1) : "_"); return "[" + o.join() + "]" + (v.length > 40 ? v.length : ""); } if (v.get || v.set || "value" in v) return "d" + dsc(v); return "obj"; } catch (e) { return "?" + e.name; } }
function dsc(d) { return d === undefined ? "none" : (d.writable ? "w" : "") + (d.enumerable ? "e" : "") + (d.configurable ? "c" : "") + ("value" in d ? ":" + (typeof d.value === "object" && d.value && O.indexOf(d.value) < 0 ? "obj" : sh(d.value, 2)) : (d.get ? "G" : "") + (d.set ? "S" : "")); }
function st(o) { const k = Reflect.ownKeys(o); const t = []; for (const p of k.slice(0, 60)) t.push(String(typeof p === "symbol" ? p.description : p) + "=" + dsc(Reflect.getOwnPropertyDescriptor(o, p))); return (Object.isExtensible(o) ? "" : "!") + k.length + "{" + t.join() + "}"; }
function R(k, f) { let s; try { s = "= " + sh(f()); } catch (e) { s = "! " + (e && e.name || sh(e)); } __sim.log(k + " " + s); }
function D(k, i) { let s; try { s = st(O[i]); } catch (e) { s = "!" + e.name; } __sim.log(k + " #" + i + " " + s); }
function P(v) { if (__sim.probe()) throw new RangeError("probe"); return v; }
const S1 = Symbol("S1"), S2 = Symbol("S2");
function get_() { return P("got"); } function set_(v) { P(); this._v = 1; }
function N(v, f) { return {valueOf() { f && f(); return P(v); }, toString() { f && f(); return P(String(v)); }}; }
const mk = [() => [], () => [1, 2, 3], () => ({}), () => [1, , 3], () => new Array(5), () => [, "h", , 4], () => (function (a, b) { "use strict"; return arguments; })(1, 2), () => new String("str"), () => (a, b) => a, () => new (class extends Array {})(3), () => Object.create([1, 2]), () => Object.create({5: "p", x: "q"}), () => ({a: 1, 3: 2, get g() { return 1; }, [S1]: 3}), () => px([1, 2]), () => px({a: 1}), () => new Uint8Array(4), () => Array.from({length: 20}, (v, i) => i), () => [1.5, "x", {}], () => new Map(), () => { const a = [1, 2]; lock(a, 1); return a; }, () => Object.seal({b: 2, a: 3}), () => new (class { a = 1; 1 = 2; })(), () => /x/g, () => new Set([1]), () => Array.prototype.concat.call([], [1, , 2]), () => Object.create(null), () => ({m() {}}).m, () => class { static 1 = 2; static s = 3; }, () => ((a, b, c) => 0).bind(null, 1), () => new (class extends Array { static get [Symbol.species]() { return Array; } })(1, 2), () => new (class extends Uint8Array {})(3), () => new Float64Array([1.5, -0]), () => Object.assign(Object.create({set 3(v) { P(); }, get 4() { return P(4); }}), {0: 1}), () => { const a = [1, 2, 3]; a.constructor = {[Symbol.species]: function (n) { P(); return {length: n}; }}; return a; }, () => { const a = []; for (let i = 0; i < 40; i += 2) a[i] = i; return a; }];
function lock(o, f) { if (ArrayBuffer.isView(o)) return 0; if (!Reflect.ownKeys(o).some(k => typeof k === "string" && (k >= 0 || k === "length"))) { f ? Object.freeze(o) : Object.seal(o); return 1; }
  Reflect.preventExtensions(o); for (const k of Reflect.ownKeys(o)) { const d = Reflect.getOwnPropertyDescriptor(o, k); Reflect.defineProperty(o, k, "value" in d && f ? {configurable: false, writable: false} : {configurable: false}); } return 2; }
function setp(o, p) { return PX.has(p) || PX.has(o) || ArrayBuffer.isView(p) || ArrayBuffer.isView(o) || Reflect.setPrototypeOf(o, p); }
function srt(o, f) { let n = 0; if (PX.has(o) || !Number.isInteger(o.length)) return "no"; for (const k of Reflect.ownKeys(o)) { const d = Reflect.getOwnPropertyDescriptor(o, k); if (!("value" in d) || k !== "length" && !d.writable || !f && typeof d.value === "object") return "no"; if (k >= 0 && +k < o.length) n++; } if (n < 2 || Reflect.getPrototypeOf(o) !== Array.prototype && Reflect.getPrototypeOf(o) !== Object.prototype) return "no"; return Array.prototype.sort.call(o, f); }
function fi(o, d) { const t = [], p = PX.has(o) ? o : Reflect.getPrototypeOf(o), s = O.includes(p) || PX.has(p); if (PX.has(o)) return "px";
  for (const k in o) { P(); t.push(k); if (t.length == 2 && d !== undefined && !s) Reflect.deleteProperty(o, d); if (t.length > 40) break; } return s && t.length < 40 ? t.sort() : t.length < 40 ? t : "long"; }
function nog(o) { for (const k of ["a", "0"]) { const d = Reflect.getOwnPropertyDescriptor(o, k); if (d && !("value" in d)) return false; } return true; }
const PX = new WeakSet(); function px(o) { const p = new Proxy(o, {}); PX.add(p); return p; }
function tp(o, h) { const H = {}; for (const n in h) { const m = h[n]; H[n] = function (t, ...a) {
    __sim.log("  " + n + (typeof a[0] === "string" ? " " + a[0] : typeof a[0] === "symbol" ? " " + a[0].description : "")); P();
    if (m === 1) return undefined; if (m === 2) return false; if (m === 3) return true;
    if (m === 4 && n === "ownKeys") return ["a", "1", "length", S1]; if (m === 5 && n === "ownKeys") return Reflect.ownKeys(t).slice(1); if (m === 6 && n === "ownKeys") return [...Reflect.ownKeys(t), "a"];
    if (m === 4 && n === "getOwnPropertyDescriptor") return {value: 5, configurable: true, writable: true, enumerable: true}; if (m === 5 && n === "getOwnPropertyDescriptor") return {value: 5};
    if (m === 6 && n === "getOwnPropertyDescriptor") { const d = Reflect.getOwnPropertyDescriptor(t, a[0]); if (d) d.enumerable = true; return d; }
    if (m === 4 && n === "get") return 77; if (m === 4 && n === "getPrototypeOf") return null; if (m === 5 && n === "getPrototypeOf") return Array.prototype;
    if (m === 4) { Reflect[n](t, ...a); return true; } if (m === 5) { Reflect[n](t, ...a); return false; } if (m === 6) { const r = Reflect[n](t, ...a); Reflect.preventExtensions(t); return r; }
    return Reflect[n](t, ...a); }; }
  const p = new Proxy(o, H); PX.add(p); return p; }
var O = [];
'''


class H:
    def __init__(self, rng):
        self.r = rng; self.n = 0

    def o(self): return "O[%d]" % self.r.randrange(self.no)

    def idx(self):
        r = self.r; return str(r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 9, 15, 20, 31, 100, 1000, *([70000, 4294967294, 4294967295, 2**32, 2**53] if self.big else [])]) if r.random() < .5 else r.randrange(8))

    def key(self):
        r = self.r; k = r.random()
        if k < .6: return self.idx()
        return r.choice(["'a'", "'b'", "'x'", "'c%d'" % r.randrange(5), "S1", "S2", "'length'", "'01'", "'-1'", "'1.5'", "''", "-1", "'k%d'" % r.randrange(30), "N(%s)" % self.idx()])

    def val(self):
        r = self.r; return r.choice(["%d" % r.randrange(50), "'v%d'" % r.randrange(50), "undefined", "null", "1.5", "{}", "[7]", "true", "P(%d)" % r.randrange(9), "N(%d)" % r.randrange(9)])

    def desc(self):
        r = self.r; p = []
        if r.random() < .5: p += ["value: " + self.val()] if r.random() < .8 else []; p += ["writable: " + r.choice(["true", "false"])] if r.random() < .5 else []
        elif r.random() < .7: p += ["get: get_"] if r.random() < .8 else []; p += ["set: set_"] if r.random() < .5 else []
        for a in ("enumerable", "configurable"):
            if r.random() < .5: p.append(a + ": " + r.choice(["true", "true", "false"]))
        return "{" + ", ".join(p) + "}"

    def len(self):
        return self.r.choice(["0", "1", "2", "3", "5", "10", "50", "100", "150", "N(2)", "N(0)", "-1", "1.5", "'3'", *(["4294967295", "4294967296", "100000"] if self.big else []), "N(4, () => %s)" % self.mut(self.o())])

    def mut(self, o):
        r = self.r
        return r.choice(["%s[%s] = %s" % (o, self.idx(), r.randrange(9)), "Reflect.deleteProperty(%s, %s)" % (o, self.idx()), "Reflect.set(%s, 'length', %d)" % (o, r.choice([0, 1, 2, 9])), "Object.preventExtensions(%s)" % o if r.random() < .3 else "__sim.gc()"])

    def op(self):
        r = self.r; o = self.o(); k = self.key(); v = self.val(); i = self.idx(); small = lambda: str(r.randrange(-3, 9))
        ops = [(8, "%s[%s] = %s" % (o, k, v)), (3, "'use strict'; %s[%s] = %s" % (o, k, v)), (5, "Reflect.set(%s, %s, %s)" % (o, k, v)), (1, "ArrayBuffer.isView(%s) || Reflect.set(%s, %s, %s, %s)" % (o, o, k, v, self.o())), (4, "delete %s[%s]" % (o, k)), (3, "Reflect.deleteProperty(%s, %s)" % (o, k)), (7, "Reflect.defineProperty(%s, %s, %s)" % (o, k, self.desc())), (2, "Object.defineProperty(%s, %s, %s) && 0" % (o, k, self.desc())),
            (2, "Reflect.defineProperty(%s, 'length', {%s})" % (o, r.choice(["writable: false", "value: " + self.len(), "value: %s, writable: false" % self.len(), "enumerable: true", "get: get_"]))), (4, "%s.length = %s" % (o, self.len())), (3, "Reflect.set(%s, 'length', %s)" % (o, self.len())),
            (2, "%s[%s]" % (o, k)), (2, "%s in %s" % (k if k[0] != "-" else "(%s)" % k, o)), (1, "Object.hasOwn(%s, %s)" % (o, k)), (1, "Reflect.getOwnPropertyDescriptor(%s, %s)" % (o, k)), (1, "Object.keys(%s)" % o), (1, "Object.entries(%s).length" % o), (1, "(() => { const t = []; for (const k in %s) t.push(k); return t; })()" % o if 0 else "Reflect.ownKeys(%s).length" % o),
            (1, "Object.preventExtensions(%s) && 0" % o if r.random() < .5 else "Reflect.preventExtensions(%s)" % o), (.4, "lock(%s, 0)" % o), (.4, "lock(%s, 1)" % o), (.6, "Array.isArray(%s) || ArrayBuffer.isView(%s) || Object.isFrozen(%s) + '' + Object.isSealed(%s)" % (o, o, o, o)), (1, "Object.assign(%s, {%s: %s, %s: 2, get z() { return P(1); }}) && 0" % (o, r.choice(["a", "0", "7", "length"]), self.val(), r.choice(["b", "1", "c2"]))), (.6, "setp(%s, %s)" % (o, r.choice(["null", "Array.prototype", "Object.prototype", self.o()]))), (1.2, "fi(%s)" % o), (.7, "fi(%s, %s)" % (o, self.key().replace("length", "k2"))), (0 if self.big else .7, "JSON.stringify(%s, (k, v) => (P(), v))" % o), (.5, "Object.keys(Object.getOwnPropertyDescriptors(%s)).join()" % o), (.5, "Object.keys(Object.fromEntries(Object.entries(%s))).join()" % o), (.4, "%s.propertyIsEnumerable(%s)" % (o, k)), (.4, "Object.getOwnPropertyNames(%s).length + Object.getOwnPropertySymbols(%s).length" % (o, o)), (0 if self.big else .5, "[...new Set(%s)].length" % o), (0 if self.big else 1, "srt(%s, (a, b) => { const x = sh(a), y = sh(b); return x < y ? -1 : x > y ? 1 : 0; })" % o), (0 if self.big else .5, "srt(%s)" % o), (.5, "Object.defineProperties(%s, {1: %s, a: %s, 0: %s}) && 0" % (o, self.desc(), self.desc(), self.desc())),
            (.5, "{...%s} && Object.keys({...%s}).join()" % (o, o) if 0 else "Object.keys({...%s}).join()" % o), (.5, "nog(%s) && (({a, 0: z, ...t}) => Object.keys(t).join())(%s)" % (o, o))]
        arr = [(3, "push(%s)" % v), (1, "push(%s, %s)" % (v, self.val())), (3, "pop()"), (2, "shift()"), (2, "unshift(%s)" % v), (3, "splice(%s, %s%s)" % (small(), small(), r.choice(["", ", 1", ", 1, 2, 3", ", " + v]))), (1, "reverse()"), (1, "fill(%s, %s, %s)" % (v, small(), small())), (1, "copyWithin(%s, %s)" % (small(), small())), (1, "slice(%s)" % small()), (1, "filter(x => P(true))"), (.7, "flatMap(x => [x, 1])"), (.7, "at(%s)" % small()), (.7, "with(%s, 5)" % small()), (.7, "toSpliced(%s, 1, 8)" % small()), (.7, "lastIndexOf(%d)" % r.randrange(9)), (.7, "reduceRight((a, x) => P(1), 0)"), (.7, "findLast(x => P(false))"), (.7, "every(x => (%s, true))" % self.mut(o)), (.7, "forEach((x, i) => { if (i == 1) %s; })" % self.mut(o)), (1, "concat(%s)" % self.o()), (1, "indexOf(%d)" % r.randrange(9)), (1, "includes(undefined)"), (1, "flat()"), (1, "map(x => %s)" % "P(1)"), (.5, "join()")]
        if not self.big and r.random() < .35:
            w, m = zip(*[(a, b) for a, b in arr]); m = r.choices(m, w)[0]
            nm, a = m.split("(", 1); a = a[:-1]
            return ("%s.%s" % (o, m)) if r.random() < .5 else "Array.prototype.%s.call(%s%s)" % (nm, o, ", " + a if a else "")
        return r.choices([b for _, b in ops], [a for a, _ in ops])[0]

    def mk(self):
        r = self.r
        if r.random() < .8: return "mk[%d]()" % r.randrange(35)
        tr = ["get", "set", "has", "deleteProperty", "defineProperty", "getOwnPropertyDescriptor", "ownKeys", "preventExtensions", "isExtensible", "getPrototypeOf", "setPrototypeOf"]
        h = {t: r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6]) for t in r.sample(tr, r.choice([1, 2, 4, 11]))}
        return "tp(%s, {%s})" % (r.choice(["[1, 2]", "{a: 1, 1: 2}", "Object.freeze({a: 1, 1: 2})", "Object.preventExtensions({a: 1, b: 2})", "Object.defineProperty({a: 1}, 'b', {value: 1})", "Object.defineProperty({1: 5}, 'a', {get: undefined, set: set_})", "[1, , 3]"]), ", ".join("%s: %d" % x for x in h.items()))

    def prog(self):
        r = self.r; self.no = r.choice([1, 2, 3]); self.big = r.random() < .25; out = ["O = [%s];" % ", ".join(self.mk() for _ in range(self.no))]
        for j in range(r.choice([6, 12, 25, 40])):
            o = self.op(); s = o.startswith("'use strict'; ")
            out.append("R(%d, function () { %s });" % (j, "'use strict'; return " + o[14:] if s else "return " + o))
            if r.random() < .35: out.append("D(%d, %d);" % (j, r.randrange(self.no)))
        out += ["D('end', %d);" % i for i in range(self.no)]
        return "\n".join(out)


def gen_objs(rng):
    return {"src": H(rng).prog(), "prologue": PRE, "order": []}
