"""Independent operations on large strings, big integers and buffers; the simulator refuses large memory requests."""
PRE = r"""
const S = "abcdefghij".repeat(5000), U = "é\u{1F600}x".repeat(12000), X = "word two, ".repeat(4500), E = "%41bc+ ".repeat(7000), KEYED = {}; KEYED[S] = 1;
const BUF = new ArrayBuffer(80000), F = new Uint8Array(BUF); for (let i = 0; i < 100; i++) F[i * 7] = i;
const dig = s => { let h = s.length >>> 0; for (let i = 0; i < s.length; i += 977) h = (h * 31 + s.charCodeAt(i)) >>> 0; return s.length + ":" + h + ":" + s.charCodeAt(s.length - 1); };
const D = (v, d = 0) => typeof v === "string" ? "s" + dig(v) : typeof v === "bigint" ? "n" + (v < 0n) + BigInt.asUintN(60, v) + "," + BigInt.asUintN(60, v >> 300000n) : typeof v !== "object" || v === null ? typeof v === "symbol" || typeof v === "function" ? typeof v : String(v)
  : v instanceof ArrayBuffer || typeof SharedArrayBuffer === "function" && v instanceof SharedArrayBuffer ? "b" + v.byteLength + ":" + new Uint8Array(v)[77] : ArrayBuffer.isView(v) ? "t" + v.length + ":" + v[77] : d < 3 && Array.isArray(v) ? "a" + v.length + "(" + [0, 1, v.length - 1].map(i => D(v[i], d + 1)) + ")" : "o";
const R = (k, f) => { $.log(k, "begin"); let r; try { r = D(f()); } catch (e) { $.log(k, "!>", $.err(e)); return; } $.log(k, "=>", r); };
"""
OPS = ["{s} + {s}", "`x${{{s}}}y${{{s}}}`", "{s}.concat({s}, 'q')", "{s}.slice(1)", "{s}.slice(5, -5)", "{s}.substring(3, 35000)", "{s}.toUpperCase()", "{s}.toLowerCase()", "{s}.padStart(60000, 'xy')", "{s}.padEnd(70000)", "{s}.repeat(3)",
       "(' ' + {s} + ' ').trim()", "(' ' + {s}).trimStart()", "({s} + ' ').trimEnd()", "{s}.normalize('NFD')", "{s}.split('zz')", "{s}.split('a', 3)", "{s}.replace('c', {s})", "{s}.replaceAll('a', 'bb')", "{s}.replace('b', (m, i, s) => s + m)", "{s}.replace(/j/g, 'k')", "{s}.replace(/^(.*)$/s, '$1$1')", "{s}.replace('b', \"$`$'$&\")",
       "{s}.match(/.+/s)[0]", "{s}.match(/.{{30000}}/gs)", "/(.+)x?/s.exec({s})[1]", "/(?<g>.+)/s.exec({s}).groups.g", "/(?<g>.+)/ds.exec({s}).indices.groups.g[1]", "{s}.search(/zz/)", "[...{s}.matchAll(/.{{40000}}/gs)].map(m => m[0])", "{s}.split(/zz/)", "[{s}, {s}].join('-')", "[{s}, 1] + ''", "String({s} + 1)", "Object({s}) + ''", "Object({s} + '1').valueOf()",
       "JSON.stringify({s})", "JSON.stringify({{a: {s}, b: [{s}]}})", "JSON.stringify([{s}], null, 2)", "JSON.parse(JSON.stringify({s}))", "JSON.parse('[\"' + X + '\"]')", "JSON.stringify({{[{s}]: 1}})", "JSON.stringify([1, {{toJSON() {{ return {s} + 'x'; }}}}])",
       "encodeURIComponent({s})", "encodeURI({s})", "decodeURIComponent({d})", "decodeURI({d})", "String.raw({{raw: ['a', {s}]}}, {s})", "String.fromCharCode(65) + {s}", "new Error({s} + 'e').message", "new Error({s}).toString()", "new TypeError('', {{cause: {s} + 'c'}}).cause", "Symbol({s} + 's').description", "Symbol({s}).toString()", "Symbol.for({s}).description", "Symbol.keyFor(Symbol.for({s} + 'k'))",
       "({{[{s} + 'k']: 1}})[{s} + 'k']", "Object.keys({{[{s} + 'k']: 1}})", "KEYED[{s} + '']", "({s} + 'z') in KEYED", "Reflect.ownKeys({{[{s} + 'p']: 1}})", "new Map([[{s} + 'a', 1]]).get({s} + 'a')", "new Set([{s} + 'a', {s} + 'a'])", "({s} + 'a') === ({s} + 'a')", "({s} + 'a') < ({s} + 'b')", "[{s} + 'b', {s} + 'a'].sort()", "({s} + {s}).at(-1)", "({s} + 'q').indexOf('q')", "({s} + 'q').lastIndexOf('a')", "{s}.includes({s}.slice(1))", "{s}.startsWith({s}.slice(0, 30000))", "({s} + 'e').endsWith({s} + 'e')",
       "eval('/*' + {p} + '*/ 1')", "eval('\"' + {p} + '\"')", "eval('`' + {p} + '${{1}}`')", "eval('(s => s.raw[0])`' + {p} + '`')", "new Function('/*' + {p} + '*/ return 2')()", "new Function('return \"' + {p} + '\"')()", "new Function('/*' + {p} + '*/') + ''", "eval('({{' + S + ': 1}})')", "eval('var ' + S + ' = 3; ' + S)", "eval('x => {{ ' + S + ': for (;;) break ' + S + '; }}') + ''", "eval('/' + S + '/').source", "RegExp({p}).source", "new RegExp(S).test(S)", "RegExp(S) + ''", "(() => {{ const f = {{[S + 'fn']() {{}}}}[S + 'fn']; return f.name; }})()", "(() => {{ function f() {{}} Object.defineProperty(f, 'name', {{value: {s} + 'n'}}); return f.bind().name; }})()", "Object.getOwnPropertyDescriptor(class {{ static get [S + 'g']() {{ return 1; }} }}, S + 'g').get.name",
       "Number({s})", "parseFloat('1' + {s})", "isNaN({s} + 'n')", "Object.prototype.toString.call({{[Symbol.toStringTag]: {s} + 't'}})", "[{s} + 'x'].includes({s} + 'x')", "[[{s}], [{s}]].flat().join()", "Array.of({s} + 1).concat({s} + 2)", "Object.entries({{a: {s} + 'e'}})[0]", "({s} + '').charCodeAt(7)", "[...({s}.slice(0, 20000) + 'ab').slice(19990)]", "(() => {{ const o = {{}}; o[{s} + 'd'] = 1; return delete o[{s} + 'd']; }})()", "(function* () {{ yield {s} + 'y'; }})().next().value", "(({{a}}) => a)({{a: {s} + 'p'}})", "(([a]) => a)([{s} + 'p'])", "(() => {{ switch ({s} + 'w') {{ case {s}: return 1; case {s} + 'w': return 2; }} }})()", "typeof ({s} + 't')", "Object.fromEntries([[{s} + 'f', 1]])[{s} + 'f']", "new Proxy({{}}, {{get(t, k) {{ return k; }}}})[{s} + 'g']", "Reflect.has(new Proxy({{}}, {{has(t, k) {{ return k.length > 5; }}}}), {s} + 'h')",
       "new ArrayBuffer(90000)", "new Uint8Array(90000)", "new Float64Array(20000)", "BUF.slice(10)", "F.slice(5)", "new SharedArrayBuffer(90000)", "new Uint16Array(F)", "F.subarray(7)", "new DataView(new ArrayBuffer(70000)).byteLength", "new (class extends ArrayBuffer {{}})(70000)", "new (class extends Uint8Array {{}})(70000)", "F.map.call(new Uint8Array(70000).subarray(0, 90), x => x + 1)", "Uint8Array.from(F.subarray(0, 100))", "new Uint8Array(new ArrayBuffer(70000), 10)", "new Int32Array([1, 2, 3])"]


HUGE = ["{s}.repeat({n})", "'abcdefgh'.repeat({n})", "'ab'.repeat({n})", "'a'.repeat({n})", "''.repeat({n})", "'a'.padEnd({n}, 'xy')", "{s}.padStart({n})", "new ArrayBuffer({n})", "new SharedArrayBuffer({n})", "new Float64Array({n})", "new Uint8Array({n})", "new Uint16Array({{length: {n}}})", "new Uint16Array(BUF, {n})", "new Uint16Array(BUF, 0, {n})", "new DataView(BUF, {n}).byteLength", "new DataView(BUF, 8, {n}).byteLength",
        "new DataView(BUF).getInt32({n})", "new DataView(BUF).setFloat64({n}, 1)", "Atomics.load(F, {n})", "F.set([1], {n})", "F.set({{length: {n}}})", "F.at({n})", "F.at(-{n})", "{s}.at({n})", "{s}.at(-{n})", "{s}.slice(-{n}, {n})", "{s}.substring({n}, 3)", "{s}.codePointAt({n})", "{s}.indexOf('a', {n})", "{s}.lastIndexOf('a', {n})", "F.slice(-{n}, {n})", "F.subarray(-{n}, {n})", "BUF.slice(-{n}, {n})", "F.fill(0, {n})", "F.copyWithin({n}, 0, {n})", "new Array({n})", "[].push.call({{length: {n}}}, 1)", "[1, 2].splice({n}, {n})", "(() => {{ const a = []; a.length = {n}; return a.length; }})()", "(() => {{ const a = []; a[{n}] = 1; return a.length; }})()", "F.includes(3, {n})", "F.lastIndexOf(3, -{n})", "[1, 2].includes(1, -{n})", "[1, 2].includes(1, {n})", "[1, 2].indexOf(1, {n})", "[1, 2].lastIndexOf(2, {n})", "F.indexOf(3, {n})", "F.lastIndexOf(3, {n})", "[1, 2].slice({n})", "[1, 2].fill(0, {n})", "[1, 2].at({n})", "[1, 2].copyWithin({n}, 0)", "[1, 2].copyWithin(0, -{n}, {n})", "{s}.startsWith('a', {n})", "{s}.endsWith('a', {n})", "{s}.includes('a', {n})", "{s}.charCodeAt({n})", "{s}.charAt({n})", "{s}.split('zz', {n}).length", "[[1]].flat({n})", "'abcdefgh'.repeat(-{n})", "new DataView(BUF).getInt8(-{n})", "Atomics.store(F, {n}, 1)", "new Uint8Array(F, {n})", "BUF.slice({n}).byteLength", "F.subarray({n}).length", "F.with ? 1 : 1"]
NUMS = ["2 ** 48", "2 ** 53 - 1", "2 ** 53", "2 ** 59", "2 ** 60", "2 ** 61", "2 ** 62", "2 ** 63", "2 ** 64", "1e300", "2 ** 48 + 8", "2 ** 52 - 4"]


def gen_oom(rng):
    def e(t):
        return t.format(s=rng.choice("SUX"), p=rng.choice(["S", "X", "X.slice(1)"]), d=rng.choice(["S", "E", "X"]), b=rng.choice("BC")) if t.count("{s}") + t.count("{b}") < 2 else multi(t)

    def multi(t):
        import re
        return re.sub(r"\{([spdb])\}", lambda m: rng.choice({"s": "SUX", "p": ["S", "X"], "d": ["S", "E"], "b": "BC"}[m.group(1)]), t).replace("{{", "{").replace("}}", "}")
    ops = [rng.choice(OPS) if rng.random() < .8 else rng.choice(HUGE).replace("{n}", "(" + rng.choice(NUMS) + ")") for _ in range(rng.randint(2, 9))]
    return {"src": "\n".join("R(%d, () => %s);" % (i, e(t)) for i, t in enumerate(ops)), "prologue": PRE, "order": []}
