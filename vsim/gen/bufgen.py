"""Programs over typed arrays, data views and buffers; every call back into the program may detach the buffers."""
TYPES = ["Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint16Array", "Int32Array", "Uint32Array", "Float32Array", "Float64Array"]
BIG = ["BigInt64Array", "BigUint64Array"]
SIZE = dict(zip(TYPES + BIG, [1, 1, 1, 2, 2, 4, 4, 4, 8, 8, 8]))
PRE = r"""
const N = (v, t) => ({ valueOf() { $.log("conv " + t); $.p(); return v; }, toString() { $.log("str " + t); $.p(); return "," ; } });
const F = (g, t) => function (a, b, c) { $.log(t, typeof a === "object" ? "o" : a, typeof b === "object" ? "o" : b); $.p(); return g(a, b); };
const CM = (g, t) => { let n = 0; return function (a, b) { if (!n++) { $.log(t); $.p(); } return g(a, b); }; };
const SP = (C, t) => { const f = function (...a) { $.log("species " + t, a.length); $.p(); return new C(...a); }; return f; };
const IT = (vs, t) => ({ [Symbol.iterator]() { let i = 0; $.p(); return { next() { $.log("next " + t); $.p(); return i < vs.length ? { value: vs[i++], done: false } : { value: undefined, done: true }; }, return() { $.log("return " + t); return {}; } }; } });
const AL = (vs, t) => ({ get length() { $.log("len " + t); $.p(); return vs.length; }, get 0() { $.log("get0"); $.p(); return vs[0]; }, get 1() { $.log("get1"); $.p(); return vs[1]; }, get 2() { $.p(); return vs[2]; }, 3: vs[3] });
const TA = Object.getPrototypeOf(Int8Array);
const S = v => ArrayBuffer.isView(v) ? v.constructor.name + ":" + (v instanceof DataView ? "" : Array.prototype.join.call(v) + "/" + v.length + "/" + v.byteOffset) : v instanceof ArrayBuffer ? "buf " + v.byteLength : typeof v === "object" && v !== null && Symbol.iterator in v ? "it" : v;
const T = (t, f) => { let r; try { r = S(f()); } catch (e) { r = "!" + $.err(e); } $.log(t, r); };
"""
# {a} {b}: typed arrays; {n}: index/length with conversion; {v}: element value with conversion; {f2}: callback of the given result
OPS = [
    "{a}.fill({v}, {ns}, {n})", "{a}.fill({v})", "{a}.copyWithin({n}, {n}, {n})", "{a}.copyWithin({n}, {n})", "{a}.slice({n}, {n})", "{a}.subarray({n}, {n})",
    "{a}.set({b}, {n})", "{a}.set([{v}, {v}, {v}], {n})", "{a}.set({al}, {n})", "{a}.set({b})",
    "{a}.map({f:v})", "{a}.filter({f:x})", "{a}.forEach({f:x})", "{a}.every({f:1})", "{a}.some({f:0})", "{a}.find({f:0})", "{a}.findIndex({f:x})", "{a}.findLast({f:0})", "{a}.findLastIndex({f:0})",
    "{a}.reduce({f:x})", "{a}.reduceRight({f:x}, 1)", "{a}.sort({f:cmp})", "{a}.sort()", "{a}.reverse()", "{a}.join({s})", "{a}.join()", "{a}.includes({e}, {n})", "{a}.includes(undefined, {n})", "{a}.indexOf({e}, {n})", "{a}.lastIndexOf({e}, {n})", "{a}.at({n})",
    "[...{a}]", "(() => {{ let s = ''; for (const x of {a}) {{ s += x + ','; $.p(); }} return s; }})()", "(() => {{ let s = ''; for (const [k, x] of {a}.entries()) {{ s += k; $.p(); s += x; }} return s; }})()", "(() => {{ let s = ''; for (const k of {a}.keys()) {{ $.p(); s += k; }} return s; }})()",
    "{a}.toString()", "Array.from({a}, {f:x})", "Array.from({a})", "{A}.from({it}, {f:v})", "{A}.from({al}, {f:v})", "{A}.from({al})", "{A}.of({v}, {v})", "new {A}({it})", "new {A}({al})", "new {A}({a})", "new {A}({b})", "new {A}({n})",
    "new {A}({buf}, {no}, {n})", "new {A}({buf}, {no})", "new {A}({buf})", "new DataView({buf}, {n}, {n})", "new DataView({buf}, {n})",
    "{buf}.slice({n}, {n})", "{buf}.byteLength", "{a}.byteLength + ',' + {a}.byteOffset + ',' + {a}.length",
    "{dv}.get{D}({n}, {n})", "{dv}.set{D}({n}, {w}, {n})", "{dv}.setBig{DB}({n}, {wb}, {n})", "{dv}.getBig{DB}({n})", "{dv}.byteLength", "{dv}.byteOffset",
    "{a}[{i}] = {v}", "{a}[{i}]", "{a}[{n}]", "{i} in {a}", "delete {a}[{i}]", "Reflect.set({a}, {i}, {v})", "Reflect.set({{}}, {i}, {v}, {a})", "Reflect.defineProperty({a}, {i}, {{ value: {v}, writable: true, enumerable: true, configurable: true }})", "Reflect.get({a}, {i})", "Reflect.has({a}, {i})", "Reflect.ownKeys({a}).join()", "JSON.stringify(Object.getOwnPropertyDescriptor({a}, {i}), (k, v) => typeof v === 'bigint' ? String(v) : v)",
    "Object.keys({a}).join()", "Object.entries({a}).join()", "Object.assign({a}, {{ 0: {v}, 1: {v} }})", "JSON.stringify(Array.prototype.slice.call({a}), {f:1})", "(() => {{ let s = ''; for (const k in {a}) {{ s += k; $.p(); }} return s; }})()",
    "Array.prototype.slice.call({a}, {n}, {n})", "Array.prototype.map.call({a}, {f:x})", "Array.prototype.fill.call({a}, {v}, {ns}, {n})", "Array.prototype.copyWithin.call({a}, {n}, {n})", "Array.prototype.concat.call([1], {a})", "Array.prototype.reverse.call({a})", "Array.prototype.includes.call({a}, undefined, {n})", "Array.prototype.sort.call({a}, {f:cmp})", "Array.prototype.join.call({a}, {s})", "Array.prototype.lastIndexOf.call({a}, {e}, {n})", "Array.prototype.reduceRight.call({a}, {f:x})",
    "({a}[{i}]++, 0)", "({a}[{i}] += {v1}, 0)", "({a}[{i}] ??= {v}, 0)", "([{a}[0], {a}[1]] = [{v}, {v}], 0)", "({{ x: {a}[{i}] }} = {{ get x() {{ $.p(); return {e}; }} }}, 0)",
    "(({a2}.constructor = {{ [Symbol.species]: {sp} }}), {a2}.{m})", "((Object.defineProperty({a2}, 'constructor', {{ configurable: true, get() {{ $.log('ctor'); $.p(); return undefined; }} }})), {a2}.{m})", "(({buf}.constructor = {{ [Symbol.species]: {spb} }}), {buf}.slice({n}, {n}))",
    "Math.max(...{a})", "Reflect.apply(F((a, b) => 1, 'ap'), null, {a})", "new Map([[1, {a}]]).get(1).length", "String.fromCharCode.apply(null, {i8}).length", "new Set({i8}).size", "Object.preventExtensions({a})", "{a}.toReversed()", "{a}.toSorted({f:cmp})", "{a}.toSorted()", "{a}.with({n}, {e})", "{a}.with(1, {v})",
]
AT = ["Atomics.add({i}, {n}, {w})", "Atomics.and({i}, {n}, {w})", "Atomics.or({i}, {n}, {w})", "Atomics.sub({i}, {n}, {w})", "Atomics.xor({i}, {n}, {w})", "Atomics.exchange({i}, {n}, {w})", "Atomics.compareExchange({i}, {n}, {w}, {w})", "Atomics.load({i}, {n})", "Atomics.store({i}, {n}, {w})", "Atomics.notify({i32}, 0, {n})"]
METH = ["slice({n}, {n})", "map({f:v})", "filter({f:1})", "subarray({n}, {n})"]


def gen(rng):
    nb = rng.choice([1, 1, 2, 2, 3]); L = ["const B = [%s];" % ", ".join("new ArrayBuffer(%d)" % rng.choice([8, 16, 16, 24, 32, 48, 64]) for _ in range(nb))]
    sizes = [int(x) for x in __import__("re").findall(r"ArrayBuffer\((\d+)\)", L[0])]
    tg = [k for k in range(nb) if rng.random() < .8] or [0]
    L.append("$.targets.push(%s);" % ", ".join("B[%d]" % k for k in tg))
    L.append("for (const b of B) { const u = new Uint8Array(b); for (let i = 0; i < u.length; i++) u[i] = i * %d + %d; }" % (rng.choice([1, 2, 3]), rng.randrange(5)))
    arr = []; L.append("const A = [];")
    for k in range(rng.randint(2, 5)):
        b = rng.randrange(nb); t = rng.choice(TYPES + TYPES + BIG); sz = SIZE[t]
        n = sizes[b] // sz; off = rng.choice([0, 0, rng.randint(0, n)]); ln = rng.choice([n - off, rng.randint(0, n - off)])
        arr.append(t); L.append("A.push(new %s(B[%d], %d, %d));" % (t, b, off * sz, ln))
    arr.append("Int32Array"); L.append("A.push(new Int32Array(B[0], %d));" % rng.choice([0, 4]))
    fl = any(t.startswith("Float") for t in arr)
    L.append("const D = new DataView(B[0], %d);" % rng.choice([0, 0, 1, 4]))
    num = lambda: rng.choice(["0", "1", "1", "2", "3", "5", "-1", "-2", "100", "7.9", "NaN", "undefined", "'2'"])
    cnt = [0]
    def tag(): cnt[0] += 1; return str(cnt[0])
    def fld(name, cur):
        big = arr[cur] in BIG
        wrap = lambda v: "N(%s, %s)" % (v, tag()) if rng.random() < .6 else v
        val = lambda: (rng.choice(["1n", "-1n", "300n", "2n ** 63n", "true", "'5'"]) if big else rng.choice(["1", "-1", "300.7", "65537", "NaN", "1e10", "'5'", "0.5", "-0"])) if rng.random() < .96 else rng.choice(["1n", "2", "Symbol()", "undefined", "null"])
        other = lambda: rng.choice([j for j in range(len(arr)) if (arr[j] in BIG) == big] if rng.random() < .93 else range(len(arr)))
        if name in ("a", "a2"): return "A[%d]" % cur
        if name == "b": return "A[%d]" % other()
        if name == "A": return arr[cur]
        if name == "buf": return "B[%d]" % rng.randrange(nb)
        if name == "dv": return "D"
        if name == "n": return wrap(num())
        if name == "ns": return wrap(rng.choice(["0", "1", "2", "-1", "-2", "100", "1.5", "'2'"]))
        if name == "no": return wrap(rng.choice(["0", "8", "16", "0", "undefined", "4", "1"]))
        if name == "i": return rng.choice(["0", "1", "2", "3", "9", "'1'", "'-0'", "'1.5'", "-1", "'x'"])
        if name == "v": return wrap(val())
        if name == "v1": return wrap("1n" if big else "2")
        if name == "e": return "3n" if big else rng.choice(["3", "7", "38"])
        if name == "w": return wrap(rng.choice(["1", "-1", "70000.5", "NaN", "3"]))
        if name == "wb": return wrap(rng.choice(["1n", "-1n", "2n ** 65n"]))
        if name == "s": return rng.choice(["N('-', %s)" % tag(), "'-'", "undefined"])
        if name == "al": return "AL([%s], %s)" % (", ".join(wrap(val()) for _ in range(4)), tag())
        if name == "it": return "IT([%s], %s)" % (", ".join(wrap(val()) for _ in range(rng.randint(0, 4))), tag())
        if name == "sp": return "SP(%s, %s)" % (rng.choice([arr[cur]] + [t for t in TYPES + BIG if SIZE[t] == SIZE[arr[cur]] and (t in BIG) == (arr[cur] in BIG)]), tag())
        if name == "spb": return "SP(%s, %s)" % (rng.choice(["ArrayBuffer", "ArrayBuffer", "function (n) { return B[%d]; }" % rng.randrange(nb), "function (n) { return new ArrayBuffer(n + 8); }", "function (n) { return new ArrayBuffer(1); }"]), tag())
        if name == "D": return rng.choice(["Int8", "Uint8", "Int16", "Uint16", "Int32", "Uint32", "Float32", "Float64"])
        if name == "DB": return rng.choice(["Int64", "Uint64"])
        if name == "i8": return "A[%d]" % cur
        if name == "m": return fill(rng.choice(METH), cur)
        if name == "f:v": return "F(x => %s, %s)" % (rng.choice(["x", "x", val()]), tag())
        if name == "f:x": return "F(x => x, %s)" % tag()
        if name == "f:1": return "F(x => true, %s)" % tag()
        if name == "f:0": return "F(x => false, %s)" % tag()
        if name == "f:cmp": return "CM((a, b) => %s, %s)" % (rng.choice(["a < b ? 1 : a > b ? -1 : 0", "a < b ? -1 : a > b ? 1 : 0"]), tag())
        raise KeyError(name)
    def fill(t, cur):
        import re
        t = re.sub(r"\{([a-zA-Z0-9:]+)\}", lambda m: fld(m.group(1), cur), t)
        return t.replace("{{", "{").replace("}}", "}")
    ints = [j for j, t in enumerate(arr) if t.startswith(("Int", "Uint", "Big")) and t != "Uint8ClampedArray"]
    for k in range(rng.randint(2, 9)):
        if rng.random() < .15:
            j = rng.choice(ints); t = rng.choice([x for x in AT if not fl or not x.startswith(("Atomics.sub", "Atomics.xor", "Atomics.or"))]).replace("{i32}", "A[%d]" % (len(arr) - 1)).replace("{i}", "A[%d]" % j)
            if arr[j] in BIG: t = t.replace("{w}", "{wb}")
            e = fill(t, j)
        else:
            t = rng.choice(OPS); e = fill(t, rng.randrange(len(arr)))
        L.append("T(%d, () => %s);" % (k, "(%s)" % e if e.startswith("{") else e))
        if rng.random() < .4: L.append("for (const a of A) $.log(S(a)); $.log(B.map(b => b.byteLength).join());")
    L.append("for (const a of A) $.log(S(a)); $.log(B.map(b => b.byteLength).join());")
    src = "\n".join(L)
    if fl: src = src.replace("N(-1,", "N(2,").replace("N(-1n,", "N(2n,").replace("-1n", "2n")
    return {"src": src, "prologue": PRE}
