"""Programs for a long-lived runtime: state that survives from round to round, and names, keys and values that are new
in every round (R is the number of the round). No piece keeps anything of a round reachable after it."""
import re

PRE = r'''
globalThis.$P = {o: {}, big: {}, m: new Map(), s: new Set(), wm: new WeakMap(), ws: new WeakSet(), a: [], fr: new FinalizationRegistry(() => {}), keep: {k: 1}, tok: {}, ta: new Uint8Array(64), R: 0,
  done: Promise.resolve(1), bad: Promise.reject(2), f(x) { return x; }, tag(s) { return s; }, sym: Symbol("keep"), re: /(a+)(?<n>b)?/g, d: new Date(0), dv: new DataView(new ArrayBuffer(16)),
  px: new Proxy({}, {}), bf: (function (x) { return this.k + x; }).bind({k: 1}, 2), arr: [1, 2, 3, 4], str: "s", cell: null};
$P.bad.catch(() => {});
$P.g = (function* () { let i = 0; while (true) { try { yield i++; } catch (e) {} } })();
$P.ag = (async function* () { let i = 0; while (true) { try { yield i++; } catch (e) {} } })();
for (let i = 0; i < 20; i++) { $P.m.set("k" + i, i); $P.s.add("k" + i); $P.big["k" + i] = i; $P.a.push(i); }
'''
PIECES = [
    '(0, eval)("var gv" + R + " = 1; function gf" + R + "() { return gv" + R + "; }"); (0, eval)("delete gv" + R + "; delete gf" + R);',
    '(0, eval)("var gv" + R + " = 1;"); delete globalThis["gv" + R]; (0, eval)("gv" + R + " = 1;"); (0, eval)("delete gv" + R);',
    '(function () { eval("var lv" + R + " = [R];"); eval("delete lv" + R); })();',
    '(0, eval)("for (let q" + R + " = 0; q" + R + " < 2; q" + R + "++);");',
    'globalThis["u" + R] = {R}; delete globalThis["u" + R];',
    '$P.o["k" + R] = {R}; @@ delete $P.o["k" + R];', '$P.o["k" + R] = R; delete $P.o["k" + (R - 1)];', '$P.big["n" + R] = [R]; @@ delete $P.big["n" + R];',
    'Object.defineProperty($P.o, "acc" + R, {get() { return R; }, configurable: true}); $P.o["acc" + R]; delete $P.o["acc" + R];',
    '$P.o[Symbol("y" + R)] = 1; @@ for (const s of Object.getOwnPropertySymbols($P.o)) delete $P.o[s];',
    '$P.m.set("r" + R, {R}); @@ $P.m.delete("r" + R);', '$P.m.set({R}, R); for (const k of $P.m.keys()) if (typeof k === "object") $P.m.delete(k);', 'const mm = new Map($P.m); $P.m.clear(); for (const [k, v] of mm) $P.m.set(k, v);',
    '{ const it = $P.m.values(); it.next(); it.next(); @@ } ', '{ const it = $P.s[Symbol.iterator](); it.next(); $P.s.delete("k0"); $P.s.add("k0"); }', '$P.s.add(R); @@ $P.s.delete(R);',
    '$P.wm.set({R}, {v: R});', '{ const k = {R}; $P.wm.set(k, {k, v: [R]}); @@ }', '$P.wm.set($P.keep, {R});', '{ const k = {}; $P.wm.set(k, 1); $P.wm.delete(k); }', '$P.ws.add({R}); $P.ws.add($P.keep);',
    '$P.fr.register({R}, {h: R}, $P.tok);', '$P.fr.register($P.keep, {h: R}, $P.tok); @@ $P.fr.unregister($P.tok);', '{ const t = {}; $P.fr.register({R}, R, t); $P.fr.unregister(t); }', 'new FinalizationRegistry(() => {}).register({R}, R);', 'new FinalizationRegistry(() => {}).register({R}, {R}, $P.tok); new FinalizationRegistry(h => { throw h; }).register({}, R);',
    '$P.cell = new WeakRef({R}); $P.cell.deref();', '{ const w = new WeakRef($P.keep); w.deref(); }', '$P.cell = new WeakRef([$P.cell]); $P.cell.deref(); $P.cell = null;',
    '$P.a.push({R}); @@ $P.a.pop();', '$P.a.unshift([R]); @@ $P.a.shift();', '$P.a.splice(3, 2, {R}, "s" + R);', '{ const n = $P.a.length; try { $P.a.length = n + 100; $P.a[n + 50] = {R}; @@ } finally { $P.a.length = 20; } }', '$P.a[100000 + R] = R; @@ $P.a.length = 20;', '$P.a.sort((x, y) => { @@ return 0; });', '$P.a.fill({R}); $P.a.reverse(); $P.a.copyWithin(0, 5);',
    '$P.done.then(x => { @@ return {R}; });', '$P.bad.then(x => x, e => { @@ return [e]; }).finally(() => { @@ });', 'Promise.all([$P.done, {R}, Promise.resolve(R)]).then(a => { @@ });', 'Promise.allSettled([$P.done, $P.bad]).then(a => { @@ throw R; }).catch(() => {});', 'Promise.race([$P.done, new Promise(() => {})]).then(() => { @@ }, () => {});', 'Promise.any([$P.bad, $P.bad]).catch(e => { @@ });', 'new Promise((a, b) => { @@ $P.tmp = a; }); $P.tmp = null;', 'Promise.resolve({then(a) { @@ a(R); }}).then(() => {}, () => {});',
    '(async () => { try { await $P.done; @@ await $P.bad; } catch (e) { @@ } })().catch(() => {});', '(async () => { for await (const x of [1, $P.done, R]) { @@ if (x === R) break; } })().catch(() => {});', '(async () => { await new Promise(() => {}); })();', '(async function* () { try { yield R; @@ } finally { } })().next();',
    '$P.g.next(R); $P.g.throw({R});', '{ const g = (function* () { try { yield [R]; yield 2; } finally { @@ } })(); g.next(); }', '{ const g = (function* () { yield* [R, 2]; })(); g.next(); @@ g.return(1); }', '$P.ag.next(R).then(() => { @@ }, () => {}); $P.ag.throw({R}).catch(() => {});', 'const [d1, ...d2] = (function* () { yield R; @@ yield 2; })();', '(function () { const it = [1, 2][Symbol.iterator](); it.next(); })();',
    'new Function("a" + R, "return a" + R + " + \'x" + R + "\'")(1);', 'new Function("return class C" + R + " { #p" + R + " = 1; static s = " + R + "; get v() { return this.#p" + R + "; } }")();', 'try { new Function("return }" + R); } catch (e) {}', 'try { (0, eval)("let zz" + R + " = ;"); } catch (e) {}', '(0, eval)("`t" + R + "${1}`"); (0, eval)("$P.tag`a" + R + "${1}b`");', '$P.tag`x${R}y`;',
    'new RegExp("a" + R + "(?<n" + R + ">b)*", "g").exec("a" + R + "bb");', 'try { new RegExp("(" + R); } catch (e) {}', '"xaab".replace($P.re, (m) => { @@ return m + R; }); $P.re.lastIndex = 0;', '("a" + R + ",b").split(/,/); [...("aab" + R).matchAll($P.re)];', '"s".concat(R).normalize(); ("é" + R).toUpperCase().localeCompare("x");',
    'JSON.parse("{\\"j" + R + "\\": [" + R + ", {\\"x\\": \\"" + R + "\\"}]}", (k, v) => { @@ return v; });', 'try { JSON.parse("[1, " + R + " "); } catch (e) {}', 'JSON.stringify({["p" + R]: [R, {R}], toJSON() { @@ return {R}; }});', 'try { const c = {R}; c.c = c; JSON.stringify(c); } catch (e) {}',
    'Symbol("d" + R).toString(); Symbol.for("fixed"); Symbol.keyFor(Symbol.for("fixed"));', '(R * 1.1 + 1e21).toString(); (R / 3).toFixed(5); (R / 7).toExponential(); (R * 1e-7).toPrecision(9); parseFloat(R + ".25e3");', 'BigInt(R) ** 20n * -3n / 7n; BigInt.asUintN(64, -1n); String(BigInt(R) << 70n);', 'new Date(R * 1e9).toISOString(); $P.d.setTime(R); Date.parse("2001-01-0" + (R % 9 + 1));', 'encodeURIComponent("é" + R); decodeURI("%41" + R); try { decodeURI("%" + R % 10); } catch (e) {}',
    '$P.ta.set([R]); $P.ta.slice(3); $P.ta.subarray(1).fill(R); new Float64Array([R, 1.5]).map(x => { @@ return x; });', '$P.dv.setFloat64(0, R); new Uint16Array($P.ta.buffer, 2, 4).sort((a, b) => { @@ return b - a; });', '{ const b = new ArrayBuffer(100 + R % 7); new Uint8Array(b); b.slice(3); __sim.detach(b); }', '{ const b = new SharedArrayBuffer(64); Atomics.add(new Int32Array(b), 0, R); Atomics.notify(new Int32Array(b), 0); }',
    '$P.px["p" + R] = {R}; @@ delete $P.px["p" + R];', '{ const r = Proxy.revocable({}, {get() { @@ return R; }}); r.proxy.x; r.revoke(); try { r.proxy.x; } catch (e) {} }', 'for (const k in new Proxy({["x" + R]: 1}, {ownKeys(t) { @@ return Reflect.ownKeys(t); }}));', '$P.bf(R); $P.f.bind(null, {R})();', 'Reflect.construct(class extends Map {}, [[[R, {R}]]]);', 'with_: for (const i of [1, 2]) { for (const j in {["q" + R]: 1}) continue with_; }',
    'try { throw new Error("e" + R); } catch (e) { @@ e.cause = {R}; }', 'try { null["x" + R]; } catch (e) {}', 'try { undefined_name; } catch (e) {} finally { @@ }', 'try { (0, eval)("undefined_" + R); } catch (e) {}', 'try { (function f(n) { if (!n) throw {R}; f(n - 1); })(30); } catch (e) {}', 'label: { try { break label; } finally { @@ } }', '(function () { return arguments; })(1, {R}); (function (a) { arguments[0] = {R}; return () => a; })(1);',
    'class K { static #x = {R}; #y = () => K.#x; m() { @@ return this.#y(); } } new K().m();', 'class L extends Array { constructor() { super(3); @@ } } L.from([R, 2]).map(x => x);', '{ let x = {R}; const fs = []; for (let i = 0; i < 3; i++) fs.push(() => [i, x]); fs.map(f => f()); }', 'const {["z" + R]: z = {R}, ...rest} = {a: 1, ["y" + R]: 2};', 'const sp = [...$P.m, ...$P.s, ...$P.a]; $P.f(...sp);', '__sim.evalScript("{ let es" + R + " = " + R + "; (() => es" + R + ")(); }");', 'try { __sim.evalScript("throw " + R); } catch (e) {}', 'try { __sim.evalScript("}" + R); } catch (e) {}', '__sim.solve();', '__sim.gc();', 'Array.from({length: 3}, (v, i) => { @@ return {R, i}; });', 'Object.fromEntries([["f" + R, {R}]]); Object.entries($P.big).length; structured = null; delete globalThis.structured;', 'Object.groupBy && 1; [3, 1].flatMap(x => { @@ return [x, [R]]; });', '$P.arr.concat([R]).join("x" + R);',
]


def gen_rounds(rng):
    out = []
    for j in range(rng.choice([1, 2, 4, 8])):
        p = rng.choice(PIECES)
        m = re.match(r"((?:\$P|const mm)[^@{]*(?:\{[^{}@]*\}[^@{]*)*;) @@ (.+)$", p)
        if m: p = "try { %s @@ } finally { %s }" % m.groups()
        while "@@" in p: p = p.replace("@@", rng.choice(["", "", "__sim.gc();", "if (__sim.probe()) throw new Error('f');", "if (__sim.probe()) throw {R};"]), 1)
        out.append("try { (function () { %s })(); } catch (e) {}" % p if rng.random() < .8 else "(function () { %s })();" % p)
    return {"src": "(function () { const R = ++$P.R;\n" + "\n".join(out) + "\n})();", "prologue": PRE}
