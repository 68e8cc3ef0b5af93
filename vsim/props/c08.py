import collections, re
from .base import Prop, first_diff, leak_line, shrink_lines, shrink_list, shrink_sched
from ..driver import Outcome
from ..gen.modgen import gen_mod

HOST = re.compile(r"^(m|i)(\d+) ")


class Exports:
    """ResolveExport and GetExportedNames over the modules' own text."""
    AMB = "ambiguous"

    def __init__(self, files):
        self.m = {}; self.nested = False
        for f, t in files.items():
            own, ind, star = set(), {}, []
            if f.endswith(".json"): own.add("default")
            else:
                for l in t.split("\n"):
                    x = re.match(r'export \* from "\./(m\d+\.\w+)"', l)
                    if x: star.append("/sim/" + x.group(1)); continue
                    x = re.match(r'export \* as (\w+) from "\./(m\d+\.\w+)"', l)
                    if x: ind[x.group(1)] = ("/sim/" + x.group(2), None); continue
                    x = re.match(r'export \{(\w+) as (\w+)\} from "\./(m\d+\.\w+)"', l)
                    if x: ind[x.group(2)] = ("/sim/" + x.group(3), x.group(1)); continue
                    x = re.match(r"export \{(\w+) as (\w+)\};", l) or re.search(r"export \{ (dd) as (default) \}", l)
                    if x: own.add(x.group(2)); continue
                    x = re.match(r"export (?:let|var|const|function|async function|class) (\w+)", l)
                    if x: own.add(x.group(1)); continue
                    if l.startswith("export default"): own.add("default")
            self.m[f] = (own, ind, star)

    def resolve(self, f, n, seen):
        if (f, n) in seen: return None
        seen.add((f, n)); own, ind, star = self.m.get(f, (set(), {}, []))
        if n in own: return (f, n)
        if n in ind: return (ind[n][0], "*ns*") if ind[n][1] is None else self.resolve(ind[n][0], ind[n][1], seen)
        if n == "default": return None
        got = None
        for s in star:
            r = self.resolve(s, n, seen)
            if r == self.AMB: self.nested = True; return r
            if r is not None:
                if got is None: got = r
                elif got != r: return self.AMB
                elif r[1] == "*ns*": self.nested = True
        return got

    def listed(self, f, seen):
        if f in seen: return set()
        seen.add(f); own, ind, star = self.m.get(f, (set(), {}, [])); r = set(own) | set(ind)
        for s in star: r |= self.listed(s, seen) - {"default"}
        return r

    def names(self, f):
        return sorted(n for n in self.listed(f, set()) if self.resolve(f, n, set()) not in (None, self.AMB))


class C08(Prop):
    """Module graphs under arbitrary load order, load failures, settlement order and collections."""
    id = "C08"
    quick_cases = 7000; quick_secs = 100
    rule = "a case counts when at least two module bodies ran, or an import was refused, and (where the program is comparable) the reference accepted it"
    distinct_measure = "distinct (module graph and bodies, load answers, settlement order, fault points that fired)"
    assumptions = ["node's module records (vm.SourceTextModule) are right about linking and evaluation order", "the host answers every load request once"]

    def gen(self, rng, i, tier):
        k = rng.random()
        mode = "strict" if k < .5 else "loose" if k < .65 else "inv"
        g = gen_mod(rng, mode == "strict", mode != "loose")
        s = {"cpu": 20, "src": g["src"], "order": g["order"]}
        for f, t in g["files"].items(): s["file:" + f] = t
        if mode == "strict":
            if rng.random() < .3: s["probe"] = "list:" + ",".join(map(str, sorted(set(rng.randrange(8) for _ in range(rng.randint(1, 2))))))
        elif mode == "inv":
            if rng.random() < .75: s["asyncmod"] = 1
            if rng.random() < .5: s["load"] = "list:" + ",".join(map(str, sorted(set(rng.randrange(10) for _ in range(rng.randint(1, 3))))))
        else:
            if rng.random() < .5: s["asyncmod"] = 1
            s["order"] = [x & ~3 for x in s["order"]]
        if rng.random() < .3: s["gc"] = rng.choice(["rand:20000:%d", "rand:150000:%d", "rand:1000000:%d"]) % rng.getrandbits(40)
        return {"mode": mode, "sim": s, "graph": {"n": g["graph"]["n"]}, "targets": g["targets"]}

    def execute(self, env, case):
        o = Outcome(); s = case["sim"]; r = self.sim(env).run(s); self.acct(o, r, case); o.hash = r.hash()
        log = r.log(); o.key = s["src"] + repr(sorted(x for x in s.items() if x[0].startswith("file:"))) + repr(s.get("order")) + repr(sorted(r.fired)) + repr(s.get("asyncmod"))
        o.detail = ["-- %s" % f[5:] + "\n" + t for f, t in s.items() if f.startswith("file:")] + ["-- engine"] + r.lines[-150:] + r.err.split("\n")[:25]
        if r.crash(): return o.fail(r.crash(), r.err[:300])
        bad = self.invariants(case, r.lines)
        if bad: return o.fail(re.sub(r"\d+", "N", bad), bad)
        o.nontrivial = sum(1 for l in log if l.endswith(" start")) >= 2 or any(" bad" in l for l in log)
        o.extra["module bodies run"] = sum(1 for l in log if l.endswith(" start"))
        ex = Exports({f[5:]: t for f, t in s.items() if f.startswith("file:")}); want = {f: "[" + ",".join('"%s"' % n for n in ex.names(f)) + "]" for f in ex.m}
        for l in log:
            m = re.match(r"^i(\d+) ok (\[.*?\])", l)
            if m:
                t = case["targets"][int(m.group(1))]; f = "/sim/m%d.js" % t
                if f not in want: f += "on"
                if m.group(2) != want.get(f): return o.fail("exported names", "%s has the names %s, the model %s" % (f, m.group(2), want.get(f)))
        if ex.nested: o.extra["nested ambiguous star exports"] = 1
        if case["mode"] != "inv" and not ex.nested:         # the reference resolves nested ambiguous star exports wrongly
            ref = env.node().run({"src": s["src"], "order": s["order"], "files": {f[5:]: t for f, t in s.items() if f.startswith("file:")}, "probe": [int(x) for x in s.get("probe", "list:")[5:].split(",") if x]})
            if ref is None: o.extra["reference gave no usable result"] = 1; return o
            o.detail += ["-- reference"] + ref["out"]
            a, b = list(log), list(ref["out"])
            for j in range(min(len(a), len(b))):        # a load failure's error is the host's own business
                if b[j].endswith(" bad \"?\"") or b[j].endswith(" bad ?"): a[j] = re.sub(r" bad .*", " bad ?", a[j]); b[j] = re.sub(r" bad .*", " bad ?", b[j])
            if case["mode"] == "strict":
                # how many jobs an import takes to report is the host's business: only when (between which host events) it reports is compared
                # V8 does not keep the order in which modules of different pending imports began (it can renumber them), so the order
                # between modules is compared when one import was made and each module's own lines otherwise
                one = lambda ls: [l for l in ls if l[0] != "i"]
                if len(re.findall(r"import\(", s["src"])) > 1:
                    def one(ls):
                        out, cur = [], []
                        for l in ls + ["settle"]:
                            if l.startswith("settle"): out += sorted(cur, key=lambda x: x.split(" ")[0]) + [l]; cur = []
                            elif l[0] != "i": cur.append(l)
                        return out
                else: o.extra["compared in full order"] = 1
                d = first_diff(one(a), one(b), "engine", "reference") or first_diff(self.reports(a), self.reports(b), "engine", "reference")
                if d: return o.fail("behaviour", d)
            else:
                def per(ls):
                    d = collections.defaultdict(list)
                    for l in ls:
                        m = HOST.match(l)
                        if m: d[m.group(0)].append(re.sub(r" (true|\"first\"|first)$", "", l))
                    return d
                x, y = per(log), per(ref["out"])
                for k in sorted(set(x) | set(y)):
                    d = first_diff(x.get(k, []), y.get(k, []), "engine", "reference")
                    if d: return o.fail("behaviour", "%s: %s" % (k, d))
        if "malloc=0 file=0 dir=0 ucnv=0" not in (leak_line(r) or ""): return o.fail("leak", leak_line(r))
        return o

    def reports(self, ls):
        out, cur = [], []
        for l in ls + ["settle"]:
            if l.startswith("settle"): out.append(" & ".join(sorted(cur))); cur = []
            elif l[0] == "i": cur.append(re.sub(r" (true|\"first\"|first)$", "", l))
        return out

    def invariants(self, case, lines):
        n = case["graph"]["n"]; deps = []; kind = []
        for i in range(n):
            t = case["sim"].get("file:/sim/m%d.js" % i); j = case["sim"].get("file:/sim/m%d.json" % i)
            deps.append([int(x) for x in re.findall(r"^(?:import|export)\b[^;(]*\"\./m(\d+)\.js", t or "", re.M)])
            kind.append("json" if j is not None else "missing" if t is None else "parse" if "let let" in t else "throw" if "throw new Range" in t else "nolookup" if "./nolookup" in t else "link" if "{nothere}" in t else "ok")
        reach = []
        for i in range(n):
            s = set(); st = [i]
            while st:
                k = st.pop()
                if k in s: continue
                s.add(k); st += deps[k]
            reach.append(s)
        started = {}; ended = set(); res = {}; failed = set(); loads = collections.Counter(); threw = {k for k in range(n) if kind[k] == "throw"}
        rejected = False
        for t, l in enumerate(lines):
            m = re.match(r"^m(\d+) (start|end)$", l)
            if m:
                k = int(m.group(1))
                if m.group(2) == "start":
                    if k in started: return "module %d was evaluated twice" % k
                    started[k] = t
                    for j in deps[k]:
                        if k not in reach[j] and kind[j] != "json" and j not in ended: return "module %d was evaluated before its dependency %d had finished" % (k, j)
                else: ended.add(k)
                continue
            m = re.match(r"^!load /sim/m(\d+)\.\w+( FAIL)?", l)
            if m:
                k = int(m.group(1)); loads[k] += 1
                if loads[k] > 1 and k not in failed: return "module %d was loaded twice" % k
                if m.group(2) or kind[k] in ("missing", "parse"): failed.add(k)
                continue
            if l.startswith("settle m") and l.endswith("reject"): rejected = True
            m = re.match(r"^i(\d+) (ok|bad)", l)
            if m:
                k = int(m.group(1)); t = case["targets"][k]
                if k in res: return "import %d was answered twice" % k
                res[k] = m.group(2)
                if m.group(2) == "ok":
                    if l.endswith("false"): return "import %d gave another namespace object" % k
                    for j in reach[t]:
                        if kind[j] in ("throw", "parse", "missing", "nolookup"): return "import %d succeeded although module %d is broken" % (k, j)
                        if kind[j] != "json" and j not in ended: return "import %d succeeded before module %d had finished" % (k, j)
                else:
                    if not rejected and not any(kind[j] in ("throw", "parse", "missing", "nolookup", "link") or j in failed for j in reach[t]) and not case["sim"].get("probe"):
                        if "SyntaxError" not in l: return "import %d failed although nothing in its graph is broken" % k
        issued = case["targets"]
        for k, t in enumerate(issued):
            if k not in res and not self.maynot(case, lines, k): return "import %d was never answered" % k
        return None

    def maynot(self, case, lines, k):
        """The import was never made, because the code that makes it never ran."""
        # imports of module bodies whose body stopped early, or of host steps (always run)
        for f, t in case["sim"].items():
            if f.startswith("file:") and re.search(r"\$ok\(%d," % k, t):
                m = re.search(r"/m(\d+)\.", f)
                return "m%s end" % m.group(1) not in lines
        return not re.search(r"\$ok\(%d," % k, case["sim"]["src"])

    def shrink(self, case):
        s = case["sim"]; f = case.get("_fired") or {}
        def w(**kw): return dict(case, sim=dict(s, **kw))
        for key, kind in (("gc", "collection"), ("probe", "host-call-failure"), ("load", "io")):
            if s.get(key):
                for t in shrink_sched(s[key], f.get(kind)): yield w(**{key: t})
        if s.get("asyncmod"): yield w(asyncmod=0)
        for t in shrink_lines(s["src"]): yield w(src=t)
        for key in list(s):
            if key.startswith("file:"):
                yield w(**{key: "\n".join(l for l in s[key].split("\n") if l.startswith("import") or l.startswith("export") or l.endswith('start");') or l.endswith('end");'))})
                for t in shrink_lines(s[key]):
                    if 'start");' in t or 'start");' not in s[key]:
                        if 'end");' in t or 'end");' not in s[key]: yield w(**{key: t})
        for t in shrink_list(s["order"]): yield w(order=t)


PROP = C08()
