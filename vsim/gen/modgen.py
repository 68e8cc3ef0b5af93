"""Module graphs: what each module imports, exports and does while it is evaluated, and the host's dynamic imports.

Every line a program logs starts with the actor that logs it: m<k> for the body of module k, i<k> for the
k-th dynamic import."""


class ModGen:
    def __init__(self, rng, strict=True, broken=True):
        self.rng = rng; self.strict = strict; self.broken = broken; self.ni = 0

    def gen(self):
        rng = self.rng; n = rng.randint(1, rng.choice([3, 5, 8])); self.n = n
        self.tla = rng.choice([0, .2, .5, .8]); cyc = rng.choice([0, 0, .15, .4]) if self.strict or self.broken else 0; dens = rng.choice([.3, .5, .8])
        self.kind = ["ok"] * n; self.deps = []
        for i in range(n):
            if self.broken and rng.random() < .06: self.kind[i] = rng.choice(["throw", "throw", "parse", "missing", "link", "nolookup", "json"])
            elif rng.random() < .05: self.kind[i] = "json"
            d = [j for j in range(n) if (j > i and rng.random() < dens * 2.2 / max(2, n - i)) or (j <= i and rng.random() < cyc / 2)]
            rng.shuffle(d); self.deps.append(d if self.kind[i] not in ("json", "missing", "parse") else [])
        # names each module exports itself
        self.exp = [sorted(rng.sample(["x", "y", "f", "g", "K", "default", "z"], rng.randint(0, 5))) if self.kind[i] != "json" else ["default"] for i in range(n)]
        self.star = [[j for j in self.deps[i] if rng.random() < .2] for i in range(n)]
        files = {}; exts = []
        for i in range(n):
            if self.kind[i] == "missing": continue
            if self.kind[i] == "json": files[self.name(i)] = '{"v":%d}' % i; continue
            if self.kind[i] == "parse": files[self.name(i)] = "$.log(\"m%d start\"); let let = ;" % i; continue
            files[self.name(i)] = self.body(i)
        main, steps = self.main()
        order = [(rng.randrange(0, 40) << 2) | (3 if rng.random() < .12 and self.broken else 0) for _ in range(60)]
        return {"files": files, "src": main, "order": order, "graph": {"n": n, "deps": self.deps, "kind": self.kind}, "imports": self.ni, "targets": self.targets}

    def name(self, i): return "/sim/m%d.%s" % (i, "json" if self.kind[i] == "json" else "js")
    def spec(self, i): return "./m%d.%s" % (i, "json" if self.kind[i] == "json" else "js")

    def names(self, j, seen=()):
        """Names module j exports, possibly through stars."""
        if j in seen: return set()
        s = set(self.exp[j])
        for k in self.star[j]: s |= self.names(k, tuple(seen) + (j,)) - {"default"}
        return s

    def body(self, i):
        rng = self.rng; o = []; A = "m%d" % i; use = []
        for j in self.deps[i]:
            sp = self.spec(j); nm = sorted(self.names(j)); k = rng.random()
            if j in self.star[i]: o.append('export * from "%s";' % sp)
            if k < .3 or not nm: o.append('import "%s";' % sp)
            elif k < .75:
                pick = rng.sample(nm, min(len(nm), rng.randint(1, 2)))
                o.append("import {%s} from \"%s\";" % (", ".join("%s as %s_%d" % (p, p, j) for p in pick), sp))
                for p in pick: use += self.uses(A, "%s_%d" % (p, j), p)
            else: pass
            if rng.random() < .25 or k >= .75:
                o.append("import * as ns_%d from \"%s\";" % (j, sp)); use += self.nsuses(A, "ns_%d" % j, nm)
            if nm and rng.random() < .15:
                p = rng.choice(nm); o.append("export {%s as re%d} from \"%s\";" % (p, len(o) * 10 + i, sp))
            if j != i and rng.random() < .1: o.append("export * as sp%d from \"%s\";" % (j, sp))
        if self.kind[i] == "link" and self.deps[i]: o.append('import {nothere} from "%s";' % self.spec(rng.choice(self.deps[i])))
        if self.kind[i] == "nolookup": o.append('import "./nolookup";')
        b = ['$.log("%s start");' % A]; late = []
        for e in self.exp[i]:
            v = rng.randrange(100)
            if e in ("x", "y"):
                t = rng.random()
                if t < .5: b.append("export let %s = %d;" % (e, v))
                elif t < .7: b.append("export var %s = %d;" % (e, v))
                else: o.append("export {loc%s as %s};" % (e, e)); b.append("let loc%s = %d;" % (e, v))
                if t < .7 and rng.random() < .5: late.append('$.try("%s late", () => { %s += 1000; });' % (A, e))
            elif e == "z": b.append("export const z = %d;" % v)
            elif e == "f": b.append('export function f() { $.log("%s f"); return %s; }' % (A, rng.choice(["1", "typeof f", "K()" if "K" in self.exp[i] and False else "2"])))
            elif e == "g": b.append('export %s g() { $.log("%s g"); return 3; }' % (rng.choice(["function", "async function"]), A))
            elif e == "K": b.append('export class K { static s() { return %d; } }' % v)
            else: b.append(rng.choice(["export default %d;", "export default function () { return %d; }", "export default class { static q() { return %d; } }", "export default function named() { return %d; }", "const dd = %d; export { dd as default };"]) % v)
        b += use
        for _ in range(rng.randint(0, 2)):
            if rng.random() < self.tla:
                t = rng.random(); nm = "%s%s" % (A, "abcdefgh"[len([x for x in b if "$.ext" in x]) % 8])
                if t < .6: b.append('await $.ext("%s"); $.log("%s after");' % (nm, A))
                elif t < .8: b.append('try { $.log("%s got", await $.ext("%s")); } catch (e) { $.log("%s caught", $.err(e)); }' % (A, nm, A))
                elif t < .9: b.append('for await (const v of [1, $.ext("%s")]) $.log("%s v", v);' % (nm, A))
                else: b.append('await null; $.log("%s tick");' % A)
            elif rng.random() < .3: b.append('$.p(); $.log("%s p");' % A if self.strict else '$.log("%s q");' % A)
        if not self.strict and rng.random() < .35: b.append(self.imp(rng.randrange(self.n)))
        if self.kind[i] == "throw": b.append('throw new RangeError("x");')
        b += late
        if rng.random() < .2: b.append('$.log("%s meta", typeof import.meta, import.meta === import.meta);' % A)
        if rng.random() < .2: b.append('$.log("%s this", typeof this);' % A)
        head = b[0]; rest = b[1:]
        if rng.random() < .5: rng.shuffle(rest)
        k = [x for x in rest if x.startswith("throw")]; rest = [x for x in rest if not x.startswith("throw")] + k
        if self.kind[i] != "throw": rest.append('$.log("%s end");' % A)
        if rng.random() < .3: o, rest = [], o + rest; rng.random()
        return "\n".join(o + [head] + rest)

    def uses(self, A, v, p):
        rng = self.rng; r = []
        for _ in range(rng.randint(0, 2)):
            k = rng.random()
            if k < .5: r.append('$.try("%s %s", () => typeof %s === "object" ? "o" : %s);' % (A, v, v, v))
            elif k < .7: r.append('$.try("%s call", () => %s());' % (A, v) if p in ("f", "default") else '$.try("%s ty", () => typeof %s);' % (A, v))
            elif k < .85: r.append('$.try("%s set", () => { %s = 1; });' % (A, v))
            else: r.append('$.try("%s tag", () => typeof %s);' % (A, v))
        return r

    def nsuses(self, A, v, nm):
        rng = self.rng; r = []; k = rng.choice(nm + ["nothere"])
        c = ['Object.keys(%s)', 'Reflect.ownKeys(%s).length', '"' + k + '" in %s', 'typeof %s.' + k, 'Reflect.set(%s, "' + k + '", 1)', 'Reflect.deleteProperty(%s, "' + k + '")', 'Reflect.defineProperty(%s, "' + k + '", {value: 1})',
             'Object.isExtensible(%s)', '%s[Symbol.toStringTag]', 'Object.getPrototypeOf(%s)', '(delete %s.nothere)', 'Object.getOwnPropertyNames(%s)', 'Object.isFrozen(%s)', 'Reflect.has(%s, "' + k + '")',
             'Reflect.getOwnPropertyDescriptor(%s, "' + k + '") === undefined', 'Object.prototype.hasOwnProperty.call(%s, "' + k + '")', 'Reflect.setPrototypeOf(%s, null)', 'Reflect.preventExtensions(%s)']
        for _ in range(rng.randint(1, 3)): e = rng.choice(c); r.append('$.try("%s ns", () => %s);' % (A, e % v))
        return r

    def imp(self, t, aw=False):
        k = self.ni; self.ni += 1; self.targets.append(t)
        return 'import("%s").then(n => $ok(%d, %d, n), e => $bad(%d, e));' % (self.spec(t) if t >= 0 else "./gone.js", k, t, k)

    def main(self):
        rng = self.rng
        self.targets = getattr(self, "targets", [])
        o = ['const $seen = {};',
             'const $ok = (k, t, n) => { $.log("i" + k + " ok", Object.keys(n), t in $seen ? $seen[t] === n : "first"); $seen[t] = n; };',
             'const $bad = (k, e) => { $.log("i" + k + " bad", $.err(e)); };']
        ns = rng.choice([1, 1, 1, 2, 3, 4]) if self.strict else rng.randint(1, 4)
        for s in range(ns):
            c = [self.imp(rng.choice([0, 0, rng.randrange(self.n), rng.randrange(self.n)])) for _ in range(1 if self.strict else rng.randint(1, 3))]
            if s == 0: o += c
            else: o.append('{ const F = () => { %s }; $.ext("s%d").then(F, F); }' % (" ".join(c), s))
        return "\n".join(o), ns


def gen_mod(rng, strict=True, broken=True):
    g = ModGen(rng, strict, broken); g.targets = []
    return g.gen()
