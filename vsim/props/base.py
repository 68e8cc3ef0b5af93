import collections, hashlib, re
from ..driver import Outcome
from ..client import FK

REAL_ENGINE = ["whole engine library libratjs (parser, bytecode, interpreter, collector, built-ins, job queue, modules, extension) compiled from /repo with AddressSanitizer"]
STUBS = ["collection trigger (injected right after the engine registers an object, in place of the heap-growth trigger)", "system allocator failure", "clock and random source", "file system calls", "job-loop host (settles external promises in a seeded order)"]


def chunks_balanced(lines):
    """Ranges [i,j) of lines that close every bracket they open."""
    def delta(l):
        l = re.sub(r"\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\.)*'|`[^`]*`", "", l)
        o = sum(l.count(c) for c in "([{"); c = sum(l.count(c) for c in ")]}")
        return o - c, (l[:1] in ")]}")
    out = []; n = len(lines); ds = [delta(l)[0] for l in lines]; cl = [l.strip()[:1] in ")]}" for l in lines]
    for i in range(n):
        if cl[i]:
            continue
        d = 0
        for j in range(i, n):
            d += ds[j]
            if d < 0:
                break
            if d == 0 and not (j + 1 < n and cl[j + 1] and ds[j + 1] >= 0 and lines[j + 1].strip()[:1] == "}"):
                out.append((i, j + 1)); break
    return out


def shrink_lines(src):
    lines = src.split("\n")
    ch = chunks_balanced(lines)
    ch.sort(key=lambda r: -(r[1] - r[0]))
    # groups of neighbouring single chunks first
    for i, j in ch:
        if j - i >= len(lines):
            continue
        yield "\n".join(lines[:i] + lines[j:])
    # unwrap blocks
    for i, j in ch:
        if j - i >= 3:
            yield "\n".join(lines[:i] + lines[i + 1:j - 1] + lines[j:])


def shrink_list(lst):
    n = len(lst)
    if not n:
        return
    k = n
    while k >= 1:
        for i in range(0, n, k):
            yield lst[:i] + lst[i + k:]
        k //= 2


def shrink_sched(txt, fired=None):
    """Smaller schedules than txt."""
    if not txt or txt == "off":
        return
    yield "off"
    if fired is not None and not txt.startswith("list:") and len(fired) <= 20000:
        yield "list:" + ",".join(map(str, fired))
    if txt.startswith("list:"):
        l = [int(x) for x in txt[5:].split(",") if x]
        for s in shrink_list(l):
            yield ("list:" + ",".join(map(str, s))) if s else "off"


class Prop:
    id = "?"; flavours = ["asan"]; sim_args = ("--pre",)
    quick_cases = 4000; thorough_cases = 400000; quick_secs = 100; thorough_secs = 700
    rule = ""; distinct_measure = ""; real = REAL_ENGINE; stubs = STUBS; assumptions = []

    def sim(self, env):
        return env.sim("asan", self.sim_args)

    def brief(self, case):
        c = dict(case)
        for k, v in c.items():
            if isinstance(v, str) and len(v) > 1500:
                c[k] = v[:1500] + "..."
        return c

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, env, case):
        raise NotImplementedError

    def shrink(self, case):
        s = case.get("sim") or {}
        def w(**kw):
            c = dict(case); c["sim"] = dict(s, **kw); return c
        f = case.get("_fired") or {}
        for key, kind in (("gc", "collection"), ("probe", "host-call-failure"), ("pdetach", "detach"), ("malloc", "allocation"), ("load", "load"), ("io", "io")):
            if s.get(key):
                for t in shrink_sched(s[key], f.get(kind)):
                    yield w(**{key: t})
        for key in ("src", "prologue"):
            if isinstance(s.get(key), str):
                for t in shrink_lines(s[key]):
                    yield w(**{key: t})
        if isinstance(s.get("order"), list) and s["order"]:
            for t in shrink_list(s["order"]):
                yield w(order=t)

    # ---- helpers ----
    def acct(self, o, r, case=None):
        o.runs += 1; o.sim_us += r.sim_us
        for k, i in r.fired:
            o.faults[FK.get(k, str(k))] += 1
        if case is not None:
            d = collections.defaultdict(list)
            for k, i in r.fired:
                d[FK.get(k, str(k))].append(i)
            case["_fired"] = dict(d)

    def crash_class(self, r):
        return r.crash()


def first_diff(a, b, na="got", nb="want"):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None; y = b[i] if i < len(b) else None
        if x != y:
            j = 0
            if x is not None and y is not None:
                while j < min(len(x), len(y)) and x[j] == y[j]:
                    j += 1
            return "line %d: %s %r, %s %r" % (i, na, x if x is None else x[max(0, j - 60):j + 120], nb, y if y is None else y[max(0, j - 60):j + 120])
    return None


def leak_line(r):
    for l in reversed(r.lines):
        if l.startswith("leaks "):
            return l
    return None
