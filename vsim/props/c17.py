import itertools, re
from .base import Prop, first_diff, leak_line
from ..driver import Outcome
from ..gen import cligen


class Throw(Exception):
    def __init__(self, v): self.v = v


class Exit(Exception):
    pass


class Model:
    """What the command line has to do, given which loads of which files fail."""
    def __init__(self, c, failing):
        self.c, self.failing = c, failing
        self.out = []; self.by = {m["i"]: m for m in c["mods"]}; self.by.update({j["i"]: j for j in c["js"]})
        self.status = {}; self.err = {}; self.init = set(); self.glob = {}; self.vals = {}
        self.sticky = set()

    def p(self, s): self.out.append(s)

    def unreadable(self, path):
        """failing: file and output position -> 1 fails, 2 fails and stays so."""
        if path in self.sticky: return True
        k = self.failing.get((path, len(self.out)), 0)
        if k == 2: self.sticky.add(path)
        return k > 0

    # ---- modules
    def load(self, root):
        """Returns False when some file of the graph cannot be loaded."""
        seen = set(); todo = [root]
        while todo:
            i = todo.pop(0)
            if i in seen: continue
            seen.add(i)
            if i < 0: return False
            m = self.by[i]
            if self.unreadable(m["path"]): return False
            if i >= 90:
                if m["bad"]: return False
                continue
            if m["syntax"]: return False
            todo += [r[0] for r in m["reqs"]]
        return True

    def graph(self, root):
        seen = []; todo = [root]
        while todo:
            i = todo.pop()
            if i in seen or i >= 90: continue
            seen.append(i); todo += [r[0] for r in self.by[i]["reqs"]]
        return seen

    def link(self, root):
        return not any(r[2] == "bad" for i in self.graph(root) if self.status.get(i) is None for r in self.by[i]["reqs"])

    def evaluate(self, root):
        stack = []; idx = {}; low = {}
        def inner(i):
            if i in self.status:
                if self.status[i] == "done":
                    if i in self.err: raise Throw(self.err[i])
                    return
                if i in idx: return
            self.status[i] = "evaluating"; idx[i] = low[i] = len(idx); stack.append(i)
            if i < 90:
                for t, s, u in self.by[i]["reqs"]:
                    inner(t)
                    if t in stack: low[i] = min(low[i], low[t])
                self.body(i)
            if low[i] == idx[i]:
                while True:
                    x = stack.pop(); self.status[x] = "done"
                    if x == i: break
        try:
            inner(root)
        except Throw as e:
            for x in stack: self.status[x] = "done"; self.err[x] = e.v
            raise

    def body(self, i):
        for s in self.by[i]["st"]:
            k = s[0]
            if k in "BE": self.p("%s %d" % (k, i))
            elif k == "dig": self.p("D %d %s" % (i, dig(s[1])))
            elif k == "let": self.init.add(i)
            elif k == "throw": raise Throw("T%d" % i)
            elif s[1] >= 90: self.p("J %d %d %s" % (i, s[1], dig(self.by[s[1]]["txt"])))
            else: self.p("V %d %d %s f%d" % (i, s[1], "v%d" % s[1] if s[1] in self.init else "ReferenceError", s[1]))

    def imp(self, root):
        if not self.load(root) or not self.link(root): raise Throw("error")
        self.evaluate(root)

    def names(self, i):
        n = ["f%d" % i, "v%d" % i]
        mf = self.c["main"]
        if self.c["kind"] == "module" and i == self.c["entry"] and mf and mf["exp"]: n.append("main")
        return ",".join(sorted(n))

    # ---- scripts
    def script(self, m, defs):
        self.p("B %d" % m["i"]); self.glob["g%d" % m["i"]] = str(m["i"])
        self.p("D %d %s" % (m["i"], dig(m["dig"])))
        for g in m.get("glob") or []:
            n = "v%d" % g if g < 50 else "g%d" % g
            self.p("G %d %s" % (g, self.glob.get(n, "none")))
        if m["throw"]: raise Throw("T%d" % m["i"])
        self.p("E %d" % m["i"])

    def run(self):
        try:
            return self.run2()
        except Exit:
            return 1

    def run2(self):
        c = self.c; compile_only = any(o[0] == "c" for o in c["opts"])
        for o in c["opts"]:
            if o[0] == "l":
                try: self.imp(o[1])
                except Throw: raise Exit
                self.glob["v%d" % o[1]] = "v%d" % o[1]
            elif o[0] == "i":
                m = next((x for x in c["incs"] if x["i"] == o[1]), None)
                if m is None or m["syntax"] or self.unreadable(m["path"]): raise Exit
                try: self.script(m, False)
                except Throw: raise Exit
        mf = c["main"]; comp = None
        if c["kind"] == "module":
            if c["entry"] < 0: raise Exit
            m = self.by[0]
            if self.unreadable(m["path"]) or m["syntax"]: raise Exit
            if compile_only: return 0
            try: self.imp(0)
            except Throw: raise Exit
            fname = True
        else:
            m = c["scr"]
            if m["syntax"] or c["kind"] == "script" and self.unreadable(m["path"]): raise Exit
            if compile_only: return 0
            try: self.script(m, True)
            except Throw: raise Exit
            if c["kind"] == "eval":
                comp = m["num"]
                if any(x[0] == "strict" for x in c["opts"]): mf = None   # strict code evaluated keeps its declarations to itself
        if mf is None: return comp or 0
        a = [x for x in c["argv"] if not x.startswith("-")] if c["kind"] == "eval" else ["FILE"] + c["argv"]
        self.p("main %s %d" % ("|".join(a[1:]), len(a)))
        if mf["async"]:
            for _, t, s in mf["dyn"]:
                try:
                    self.imp(t)
                    self.p("I %d %s" % (t, u16(self.by[t]["txt"]) if t >= 90 else "f%d %s" % (t, self.names(t))))
                except Throw as e: self.p("X %d %s" % (t, e.v))
            if mf["addmod"]:
                self.p("late zz" if not self.unreadable("/sim/late/late.js") else "nolate true")
        r = mf["ret"]
        if r[0] in ("throw", "prej"): raise Exit
        return r[1] if r[0] in ("num", "pnum") else 0


def u16(s): return len(s.encode("utf-16-le")) // 2
def dig(s): return "%d/%d" % (u16(s), cligen.digest(s))


IO = re.compile(r"!io \d+ (\w+) (\w+) (.*)")


class C17(Prop):
    """Source files and command lines under I/O faults."""
    id = "C17"; sim_args = ()
    quick_cases = 12000; quick_secs = 90
    rule = "a case counts when the program printed something or a file could not be loaded"
    distinct_measure = "distinct (command line, files, faults that fired)"
    real = ["command line program src/exe/rjs_main.c, file input, character conversion, parser, module loader and engine compiled from /repo with AddressSanitizer"]
    stubs = ["file system (in-memory, with injected open, read and path-resolution failures and short reads)", "standard output", "collection trigger"]
    assumptions = ["whether a module whose file could not be read is tried again by a later import is left open"]

    def gen(self, rng, i, tier):
        c = cligen.gen(rng, True); s = {"cpu": 20}
        k = rng.random()
        if k < .55:
            a = rng.randrange(60)
            s["io"] = rng.choice(["list:%d" % rng.randrange(40), "list:%d,%d" % (rng.randrange(30), rng.randrange(60)), "rand:%d:%d" % (rng.choice([10, 40, 150]), rng.randrange(10 ** 6)), "range:%d:%d" % (a, a + rng.randrange(1, 6))]); s["ioseed"] = rng.randrange(10 ** 6)
        if rng.random() < .5: s["stdiobuf"] = rng.choice([-1, 1, 3, 16, 100, 1000])
        if rng.random() < .3: s["gc"] = rng.choice(["every", "rand:%d:%d" % (rng.choice([5, 50, 300]), rng.randrange(10 ** 6))]) if rng.random() < .8 else "rand:2:%d" % rng.randrange(10 ** 6)
        if s.get("gc") == "every" and rng.random() < .7: s["gc"] = "rand:20:%d" % rng.randrange(10 ** 6)
        return {"cli": c, "sim": s}

    def execute(self, env, case):
        o = Outcome(); c = case["cli"]; s = dict(case["sim"]); s["type"] = "cli";
        s["args"] = "\x1e".join(cligen.args(c))
        for f, t in cligen.files(c).items(): s["file:" + f] = t
        r = self.sim(env).run(s); self.acct(o, r, case)
        o.hash = r.hash(); o.detail = r.lines; o.key = repr((s["args"], sorted(s.items()), r.fired))
        cr = r.crash()
        if cr: return o.fail("crash", cr + " " + r.err[-200:])
        out = []; err = []; ec = None; faults = []; buf = ""
        for l in r.lines:
            if l.startswith("!out "):
                buf += l[5:]
                while "\x1f" in buf: x, buf = buf.split("\x1f", 1); out.append(x)
            elif l.startswith("!err "): err.append(l[5:])
            elif l.startswith("exit "): ec = int(l[5:])
            else:
                x = IO.match(l)
                if x:
                    o.extra["fault %s %s" % (x.group(1), x.group(2))] += 1
                    if x.group(2) != "SHORT" and (x.group(3), len(out)) not in faults: faults.append((x.group(3), len(out)))
        ll = leak_line(r)
        if ll != "leaks malloc=0 file=0 dir=0 ucnv=0": return o.fail("leak", str(ll))
        if any(l.startswith("STACK-IMBALANCE") for l in r.lines): return o.fail("stack", "value stack imbalance")
        known = set(cligen.files(c)); faults = [f for f in faults if f[0] in known]
        if len(faults) > 6: faults = faults[:6]; many = True
        else: many = False
        best = None
        if True:
            for ks in itertools.product((1, 2, 0), repeat=len(faults)):
                m = Model(c, dict(zip(faults, ks))); want = m.run()
                d = first_diff(out, m.out)
                if d is None and ec != want: d = "exit code: got %r, want %r" % (ec, want)
                if d is None:
                    o.nontrivial = bool(out) or bool(faults); return o
                if best is None: best = d
        if many: return o
        return o.fail("output" if not best.startswith("exit") else "exit", best + " (faults %s; stderr %s)" % (faults, " / ".join(err)[-200:]))

    def shrink(self, case):
        import copy
        c = case["cli"]
        for k in ("opts", "argv", "incs"):
            for j in range(len(c[k])):
                d = copy.deepcopy(c); del d[k][j]; yield dict(case, cli=d)
        if c["main"]:
            yield dict(case, cli=dict(copy.deepcopy(c), main=None))
            for j in range(len(c["main"]["dyn"])):
                d = copy.deepcopy(c); del d["main"]["dyn"][j]; yield dict(case, cli=d)
        for a, m in enumerate(c["mods"]):
            for j in range(1, len(m["st"]) - 1):
                if m["st"][j][0] != "let":
                    d = copy.deepcopy(c); del d["mods"][a]["st"][j]; yield dict(case, cli=d)
            if m["reqs"] and not any(x[0] == "use" for x in m["st"]):
                for j in range(len(m["reqs"])):
                    d = copy.deepcopy(c); del d["mods"][a]["reqs"][j]; yield dict(case, cli=d)
            for j in (0, 1):
                if m["pad"][j]:
                    d = copy.deepcopy(c); d["mods"][a]["pad"][j] = ""; yield dict(case, cli=d)
            if m["bom"]:
                d = copy.deepcopy(c); d["mods"][a]["bom"] = False; yield dict(case, cli=d)
            if m["nl"] != "\n":
                d = copy.deepcopy(c); d["mods"][a]["nl"] = "\n"; yield dict(case, cli=d)
            for j, x in enumerate(m["st"]):
                if x[0] == "dig" and len(x[1]) > 3:
                    d = copy.deepcopy(c); d["mods"][a]["st"][j][1] = x[1][:len(x[1]) // 2]; yield dict(case, cli=d)
        if c["scr"]["glob"]:
            d = copy.deepcopy(c); d["scr"]["glob"] = []; yield dict(case, cli=d)
        for k in ("stdiobuf", "gc"):
            if k in case["sim"]:
                s = dict(case["sim"]); del s[k]; yield dict(case, sim=s)
        yield from super().shrink(case)


PROP = C17()
