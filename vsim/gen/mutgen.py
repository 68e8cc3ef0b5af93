"""Programs whose callbacks change the very collection that the running operation walks over."""
import re
PRE = r"""
let MN = 0;
const X = {};
const mu = t => { const k = MN++; if (k > 300) throw new RangeError("too long"); $.p(); const w = W[k]; if (w) for (const i of w) { let r; try { r = MU[i](); } catch (e) { r = "!" + $.err(e); } $.log(" mutate " + i + (typeof r === "string" && r[0] === "!" ? r : "")); } };
const F = (t, g) => function (...a) { $.log(t, ...a.slice(0, 2).map(x => typeof x === "object" ? "o" : typeof x === "function" ? "f" : x)); mu(); return g(...a); };
const N = (v, t) => ({ valueOf() { $.log("conv " + t); mu(); return v; }, toString() { $.log("str " + t); mu(); return String(v); } });
const CM = (g, t) => { let n = 0; return (a, b) => { if (!n++) { $.log("cmp " + t); mu(); } return g(a, b); }; };
const IT = (n, t) => ({ [Symbol.iterator]() { let i = 0; return { next() { $.log("next " + t); mu(); return i < n ? { value: [i, i++ * 10], done: false } : { done: true }; }, return() { $.log("ret " + t); mu(); return {}; } }; } });
const KY = x => typeof x === "object" ? "o" : String(x);
const own = o => Reflect.ownKeys(o).map(k => { const d = Reflect.getOwnPropertyDescriptor(o, k); return String(k.description ?? k) + (d.get || d.set ? "@" : "=" + (typeof d.value === "object" && d.value !== null ? "o" : typeof d.value === "function" ? "f" : String(d.value))) + (d.writable === false ? "r" : "") + (d.enumerable ? "" : "h") + (d.configurable ? "" : "c"); }).join(" ");
const S = v => { if (Array.isArray(v)) return "A[" + own(v) + "]"; if (v instanceof Map) return "M{" + [...Map.prototype.entries.call(v)].map(e => e.map(x => typeof x === "object" && x ? "o" : String(x)).join(":")).join(",") + "}"; if (v instanceof Set) return "S{" + [...Set.prototype.values.call(v)].map(x => typeof x === "object" && x ? "o" : String(x)).join(",") + "}"; if (typeof v === "function") return "fn"; if (typeof v === "symbol") return String(v); if (typeof v === "object" && v !== null) return "O{" + own(v) + "}" + (Object.isExtensible(v) ? "" : "x"); return v; };
const T = (t, f) => { let r; try { r = S(f()); } catch (e) { r = "!" + $.err(e); } $.log("= " + t, typeof r === "string" ? r : r); };
const GET = (o, k, v) => Object.defineProperty(o, k, { configurable: true, enumerable: true, get() { $.log("get " + String(k)); mu(); return v; }, set(x) { $.log("set " + String(k)); mu(); v = x; } });
"""
# {a} array, {m} map, {s} set, {o} object, {f:..} callbacks, {n} numbers with conversion
ARR = [
    "{a}.forEach({f:x})", "{a}.map({f:x})", "{a}.filter({f:odd})", "{a}.every({f:1})", "{a}.some({f:0})", "{a}.find({f:0})", "{a}.findIndex({f:0})", "{a}.findLast({f:0})", "{a}.findLastIndex({f:0})", "{a}.reduce({f:x})", "{a}.reduceRight({f:x})", "{a}.reduce({f:x}, 0)", "{a}.flatMap({f:arr})", "{a}.flat({n})", "{a}.flat(Infinity)",
    "{a}.fill({k}, {n}, {n})", "{a}.copyWithin({n}, {n}, {n})", "{a}.slice({n}, {n})", "{a}.splice({n}, {n}, {k}, {k})", "{a}.splice({n}, {n})", "{a}.splice({n}, {n}, {k})", "{a}.indexOf({k}, {n})", "{a}.lastIndexOf({k}, {n})", "(k => k === undefined ? 0 : {a}.includes(k, {n}))({k})", "{a}.at({n})", "{a}.join({n})", "{a}.join()", "{a}.toString()", "{a}.concat({a}, {k}, {a2})", "{a}.reverse()", "(A => A.length < 2 ? A : A.sort({f:cmp}))({a})", "(A => A.length < 2 ? A : A.sort())({a})", "{a}.push({k}, {k})", "(A => A.length && A.pop())({a})", "(A => A.length && A.shift())({a})", "({a}.unshift({k}, {k}))", "{a}.unshift({k})",
    "(A => A.length < 2 ? A : A.toSorted({f:cmp}))({a})", "{a}.toReversed()", "{a}.toSpliced({n}, {n}, {k})", "{a}.with({n}, {k})",
    "[...{a}]", "Array.from({a}, {f:x})", "Array.from({a})", "Array.from({{ length: 3, 0: 1, get 1() {{ mu(); return 2; }} }}, {f:x})", "Array.of({k})", "Math.max(...{a})", "((x, ...r) => S(r))(...{a})", "new Set({a})", "new Map({a}.map((x, i) => [i, x]))", "Object.assign({{}}, {a})", "Object.entries({a})", "Object.values({a})", "Object.keys({a})", "({{ ...{a} }})", "Object.freeze({a})", "Object.isFrozen({a})", "(A => (A.x = 1, Object.preventExtensions(A)))({a})", "({a}.length = {n})", "JSON.stringify({a})", "JSON.stringify({a}, {f:id2})", "Reflect.apply({f:x}, null, {a})", "String({a})",
    "(() => {{ let s = ''; for (const x of {a}) {{ mu(); s += x + ','; }} return s; }})()", "(() => {{ let s = ''; for (const [i, x] of {a}.entries()) {{ mu(); s += i + ':' + x + ','; }} return s; }})()", "(() => {{ let s = ''; for (const i of {a}.keys()) {{ mu(); s += i + ','; }} return s; }})()", "(() => {{ let [p, q = (mu(), 'd'), ...r] = {a}; return [p, q, ...r]; }})()", "(() => {{ [{a}[0], {a}[1]] = [{a}[1], (mu(), {a}[0])]; return {a}; }})()", "(() => {{ const it = {a}[Symbol.iterator](); const l = [it.next(), (mu(), it.next()), it.next()]; return l.map(x => x.value + '' + x.done).join(); }})()",
]
MAPS = [
    "{m}.forEach({f:x})", "(() => {{ let s = ''; for (const [k, v] of {m}) {{ s += k + ':' + v + ','; mu(); }} return s; }})()", "(() => {{ let s = ''; for (const k of {m}.keys()) {{ s += k + ','; mu(); }} return s; }})()", "(() => {{ let s = ''; for (const v of {m}.values()) {{ s += v + ','; mu(); if (s.length > 60) break; }} return s; }})()",
    "[...{m}].length", "new Map({m})", "Array.from({m}, {f:x}).length", "Array.from({m}.keys(), {f:x})", "new Map({it})", "Object.fromEntries({m})", "{m}.size", "({m}.set({k}, {k}), {m})", "{m}.delete({k})", "{m}.get({k})", "{m}.clear()",
    "(() => {{ const p = {m}[Symbol.iterator](), q = {m}.keys(); let s = ''; for (let i = 0; i < 7; i++) {{ const r = (i % 3 ? p : q).next(); s += (r.done ? 'end' : String(r.value)) + ';'; mu(); }} return s; }})()",
    "(() => {{ X.it ??= {m}.entries(); const r = X.it.next(); return r.done ? 'done' : String(r.value); }})()", "(() => {{ class Q extends Map {{ set(k, v) {{ mu(); return super.set(k, v); }} }} return new Q({m}); }})()",
]
SETS = [
    "{s}.forEach({f:x})", "(() => {{ let t = ''; for (const v of {s}) {{ t += String(v) + ','; mu(); if (t.length > 60) break; }} return t; }})()", "(() => {{ let t = ''; for (const v of {s}) {{ t += v + ','; {s}.delete(v); if (t.length < 40) {s}.add(v); mu(); }} return t; }})()", "[...{s}]", "new Set({s})", "Array.from({s}, {f:x})", "({s}.add({k}), {s})", "{s}.delete({k})", "{s}.has({k})", "{s}.clear()", "{s}.size",
    "(() => {{ const p = {s}[Symbol.iterator](), q = {s}.entries(); let t = ''; for (let i = 0; i < 7; i++) {{ const r = (i % 2 ? p : q).next(); t += (r.done ? 'end' : String(r.value)) + ';'; mu(); }} return t; }})()", "(() => {{ X.is ??= {s}.values(); const r = X.is.next(); return r.done ? 'done' : String(r.value); }})()", "(() => {{ class Q extends Set {{ add(v) {{ mu(); return super.add(v); }} }} return new Q({s}); }})()",
]
OBJ = [
    "(() => {{ let t = ''; for (const k in {o}) {{ t += k + ','; mu(); }} return t; }})()", "Object.assign({{}}, {o})", "Object.assign({o}, {o2})", "Object.entries({o})", "Object.values({o})", "({{ ...{o} }})", "(() => {{ const {{ p, q = (mu(), 1), ...r }} = {o}; return [p, q, r]; }})()", "JSON.stringify({o})", "JSON.stringify({o}, {f:id2})", "JSON.stringify({o}, ['p', 'q', 'r'])", "JSON.parse('{{\"a\":1,\"b\":[1,2,3],\"c\":{{\"d\":4}},\"e\":5}}', function (k, v) {{ $.log(k); mu(); if (k === 'a') {rv}; return v; }})", "Object.defineProperties({{}}, {o2})", "Object.freeze({o})", "Object.isFrozen({o})", "Object.getOwnPropertyDescriptors({o})", "({o}.p = {k})", "delete {o}.q", "({o}.p += {n})", "({o}[{n}] = 1)", "Object.keys({o})", "Reflect.ownKeys({o}).map(String)", "Object.fromEntries(Object.entries({o}).map({f:x}))",
    "(function (p, q) {{ arguments[0] = 9; mu(); arguments.length = {i}; const t = [p, q, ...arguments]; p = 8; return [t, arguments[0]].join(); }})(1, 2)", "(function (p, q) {{ return Array.prototype.map.call(arguments, function (x, i) {{ mu(); p = i + 20; delete arguments[0]; return x; }}).join(); }})(1, 2, 3)",
    "'abcabc'.replace(/[ab]/g, {f:x})", "(() => {{ const re = /./g; return 'abcde'.replace(re, x => {{ mu(); re.lastIndex = 3; return x + x; }}); }})()", "(() => {{ const re = /./g; let m, t = '', n = 0; while ((m = re.exec('abc')) && n++ < 9) {{ t += m[0]; mu(); if (n === 2) re.lastIndex = 0; }} return t; }})()", "(() => {{ let t = ''; for (const m of 'a1b2'.matchAll(/[a-z]/g)) {{ mu(); t += m.index; }} return t; }})()", "'a-b-c'.split({{ [Symbol.split](s, l) {{ mu(); return [s]; }} }})", "`${{{n}}}${{{n}}}`",
    "new Proxy({o}, {{ ownKeys(t) {{ mu(); return Reflect.ownKeys(t); }}, getOwnPropertyDescriptor(t, k) {{ mu(); return Reflect.getOwnPropertyDescriptor(t, k); }}, get(t, k, r) {{ mu(); return Reflect.get(t, k, r); }} }}).p", "Object.keys(new Proxy({o}, {{ ownKeys(t) {{ mu(); return Reflect.ownKeys(t); }}, getOwnPropertyDescriptor(t, k) {{ mu(); return Reflect.getOwnPropertyDescriptor(t, k); }} }}))", "({{ ...new Proxy({o}, {{ get(t, k) {{ mu(); return t[k]; }}, getOwnPropertyDescriptor(t, k) {{ mu(); return Reflect.getOwnPropertyDescriptor(t, k); }} }}) }})",
]
MUT = [
    "{a}.length = {i}", "{a}.length = 0", "{a}.push(91, 92)", "(A => A.length && A.pop())({a})", "(A => A.length && A.shift())({a})", "{a}.unshift(93)", "{a}.splice({i}, 1)", "{a}.splice({i}, 0, 94, 95)", "delete {a}[{i}]", "{a}[{i}] = 96", "{a}[{i} + 6] = 97", "GET({a}, {i}, 98)", "{a}.reverse()", "{a}.fill(99)", "Object.freeze({a})", "(A => (A.x = 1, Object.preventExtensions(A)))({a})", "Object.defineProperty({a}, {i}, {{ value: 5, writable: false, configurable: true, enumerable: false }})", "Object.defineProperty({a}, 'length', {{ writable: false }})", "(A => A.length < 2 || A.sort())({a})", "{a}.constructor = {{ [Symbol.species]: function (n) {{ return new Array(2); }} }}", "Array.prototype[{i}] = 'proto'", "delete Array.prototype[{i}]", "Object.setPrototypeOf({a}, Array.prototype)", "{a}.x = 1", "GET(Array.prototype, {i}, 'pg')", "{a}[4294967294] = 1",
    "{m}.delete({k})", "{m}.set({k}, 71)", "{m}.set('n' + MN, 72)", "{m}.clear()", "({m}.delete({k}), {m}.set({k}, 73))", "({m}.clear(), {m}.set(1, 74), {m}.set(2, 75))", "[...{m}.keys()].forEach(k => {m}.delete(k))", "{m}.forEach((v, k) => {m}.delete(k))", "for (let i = 0; i < 20; i++) {m}.set('g' + i, i)",
    "{s}.delete({k})", "{s}.add({k})", "{s}.add('n' + MN)", "{s}.clear()", "({s}.delete({k}), {s}.add({k}))", "({s}.clear(), {s}.add(1), {s}.add(2))", "for (const v of {s}) {s}.delete(v)", "for (let i = 0; i < 20; i++) {s}.add('g' + i)", "for (let i = 0; i < 20; i++) {s}.delete('g' + i)",
    "delete {o}.{pk}", "{o}.{pk} = 61", "({o}.{pk} = 62, delete {o}.{pk}, {o}.{pk} = 63)", "GET({o}, '{pk}', 64)", "Object.freeze({o})", "Object.defineProperty({o}, '{pk}', {{ enumerable: false, configurable: true, writable: true, value: 65 }})", "delete {o}[{i}]", "Object.setPrototypeOf({o}, null)", "Object.setPrototypeOf({o}, {{ p: 66, z: 67 }})",
]
# additions during for-in are unspecified, as is the effect of prototype changes there: only these change an object in for-in
FORIN_OK = re.compile(r"^delete (O\d)\.")


def gen(rng):
    na, nm, ns, no = rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 1, 2])
    cnt = [0]
    def tag(): cnt[0] += 1; return "t%d" % cnt[0]
    def key(): return rng.choice(["0", "1", "2", "3", "'a'", "'b'", "NaN", "-0", "undefined", "null", "7", "true"])
    def num(): return rng.choice(["0", "1", "1", "2", "3", "-1", "-2", "9", "undefined"])
    def fld(n):
        if n in ("a", "a2"): return "A%d" % rng.randrange(na)
        if n == "m": return "M%d" % rng.randrange(nm) if nm else "new Map([[1, 2]])"
        if n == "s": return "S%d" % rng.randrange(ns) if ns else "new Set([1, 2])"
        if n in ("o", "o2"): return "O%d" % rng.randrange(no) if no else "({ p: { value: 1 } })"
        if n == "k": return key()
        if n == "i": return str(rng.randrange(6))
        if n == "pk": return rng.choice("pqrstu")
        if n == "n": return "N(%s, '%s')" % (num(), tag()) if rng.random() < .7 else num()
        if n == "it": return "IT(%d, '%s')" % (rng.randrange(4), tag())
        if n == "rv": return rng.choice(["delete this.b", "this.b = [7]", "this.b.length = 1", "this.b.push(8)", "this.e = { x: 1 }", "this.c.d = { y: 2 }"])
        if n == "f:x": return "F('%s', x => x)" % tag()
        if n == "f:id2": return "F('%s', (k, v) => v)" % tag()
        if n == "f:odd": return "F('%s', x => x %% 2)" % tag()
        if n == "f:arr": return "F('%s', x => [x, [x]])" % tag()
        if n == "f:1": return "F('%s', x => true)" % tag()
        if n == "f:0": return "F('%s', x => false)" % tag()
        if n == "f:cmp": return "CM((x, y) => %s, '%s')" % (rng.choice(["KY(x) < KY(y) ? -1 : KY(x) > KY(y) ? 1 : 0", "KY(x) > KY(y) ? -1 : KY(x) < KY(y) ? 1 : 0"]), tag())
        raise KeyError(n)
    def fill(t):
        t = re.sub(r"(?<!\{)\{([a-zA-Z0-9:]+)\}(?!\})", lambda m: fld(m.group(1)), t)
        t = re.sub(r"\$\{\{\{n\}\}\}", lambda m: "${" + fld("n") + "}", t)
        return t.replace("{{", "{").replace("}}", "}")
    L = ["'use strict';"] if rng.random() < .4 else []
    def elem(): return rng.choice(["1", "2", "3", "4", "5", "'x'", "null", "undefined", "", "[6, 7]", "{}", "0", "10", "-1"]) if rng.random() < .4 else str(rng.randrange(12))
    for k in range(na):
        b = rng.random(); el = [elem() for _ in range(rng.choice([0, 1, 3, 3, 4, 5, 6, 9]))]
        if el and el[-1] == "": el[-1] = "0"
        lit = "[%s]" % ", ".join(el)
        if b < .08: lit = "new (class Z extends Array {})(%s)" % ", ".join(e or "undefined" for e in (el if len(el) > 1 else ["1", "2"]))
        elif b < .14: lit = "Object.assign([], {0: 1, 2: 3, 5: 6})"
        L.append("const A%d = %s;" % (k, lit))
        if rng.random() < .15: L.append("GET(A%d, %d, 50);" % (k, rng.randrange(4)))
    for k in range(nm): L.append("const M%d = new Map([%s]);" % (k, ", ".join("[%s, %d]" % (key(), 30 + j) for j in range(rng.choice([0, 2, 4, 6])))))
    for k in range(ns): L.append("const S%d = new Set([%s]);" % (k, ", ".join(key() for j in range(rng.choice([0, 2, 4, 6])))))
    for k in range(no):
        L.append("const O%d = { %s };" % (k, ", ".join(rng.choice(["%s: %d", "get %s() { $.log('g'); mu(); return %d; }", "%s: { value: %d, enumerable: true }", "%s: %d"]) % (p, j) for j, p in enumerate(rng.sample(["p", "q", "r", "s", "t", "0", "3"], rng.randint(1, 5))))))
    pool = ARR * 1 + (MAPS * 2 if nm else []) + (SETS * 2 if ns else []) + (OBJ if no else [])
    muts = [m for m in MUT if not (("{m}" in m and not nm) or ("{s}" in m and not ns) or ("{o}" in m and not no))]
    nmu = rng.randint(1, 6); ms = [fill(rng.choice(muts)) for _ in range(nmu)]
    ops = [rng.choice(pool) for _ in range(rng.randint(1, 6))]
    forin = any(" in {o}" in o or "const k in" in o for o in ops)
    if forin: ms = [m for m in ms if not re.search(r"\bO\d", m) or FORIN_OK.match(m)] or ["0"]
    ms = [m for m in ms if not ("4294967294" in m and any("Last" in o or "Right" in o or "reverse" in o.lower() or "shift" in o or "splice" in o.lower() or "join" in o or "fill" in o or "sort" in o.lower() or "length" in o or "every" in o or "some" in o or "forEach" in o or "map" in o or "filter" in o or "find" in o or True for o in ops))] or ["0"]
    L.append("const MU = [%s];" % ", ".join("() => { %s }" % m for m in ms))
    w = {}
    for _ in range(rng.choice([1, 1, 2, 3, 5])): w.setdefault(rng.randrange(rng.choice([2, 5, 12, 30])), []).append(rng.randrange(len(ms)))
    L.append("const W = { %s };" % ", ".join("%d: [%s]" % (k, ", ".join(map(str, v))) for k, v in sorted(w.items())))
    body = []
    vs = ["A%d" % k for k in range(na)] + ["M%d" % k for k in range(nm)] + ["S%d" % k for k in range(ns)] + ["O%d" % k for k in range(no)]
    for k, op in enumerate(ops):
        e = fill(op); body.append("T(%d, () => %s);" % (k, "(%s)" % e if e.startswith("{") else e))
        if rng.random() < .5: body.append("$.log([%s].map(S).join(' '));" % ", ".join(vs))
    body.append("$.log([%s].map(S).join(' '));" % ", ".join(vs))
    body.append("for (let i = 0; i < 9; i++) delete Array.prototype[i];")
    pre = PRE
    return {"src": "\n".join(([L[0]] if L[0].startswith("'") else []) + ["{"] + [pre] + [l for l in L if not l.startswith("'")] + body + ["}"])}
