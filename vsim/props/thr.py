"""Common parts of the checks that simulate several agents."""
import os, re, subprocess
from .base import Prop, shrink_sched, shrink_list

REAL_THR = ["whole engine library compiled from /repo with clang's memory-access instrumentation (-fsanitize=thread), several runtimes in one process"]
STUB_THR = ["threads are fibers switched by a seeded schedule at every access to memory that two agents use and at every lock, wait, signal and clock call", "pthread mutexes, conditions and once, clocks: simulated", "the memory allocator never reuses memory, so that stale accesses are seen", "collection trigger (injected)"]
FAULTKEYS = (("sw", "agent-switch"), ("jump", "time-jump-to-deadline"), ("clk", "wall-clock-jump"), ("spur", "spurious-wakeup"), ("gc", "collection"))
ALARMS = ("USE-AFTER-FREE", "OUT-OF-BOUNDS", "DOUBLE-FREE", "BAD-FREE", "REALLOC-OF-FREED", "FREE-OF-HELD-MUTEX", "FREE-OF-AWAITED-CONDITION", "DESTROY-OF-HELD-MUTEX", "DESTROY-OF-AWAITED-CONDITION", "USE-OF-DESTROYED-MUTEX", "USE-OF-DESTROYED-CONDITION", "UNLOCK-OF-MUTEX-NOT-HELD", "SELF-DEADLOCK")


class Thr(Prop):
    flavours = ["threads"]; real = REAL_THR; stubs = STUB_THR
    quick_cases = 20000; quick_secs = 100
    distinct_measure = "distinct sequences of (agent chosen, step number) of the simulated schedule, together with the program"

    def sim(self, env, pre=True):
        return env.sim("threads", ("--pre",) if pre else ())

    def sched(self, rng):
        s = {"who": rng.getrandbits(48)}
        k = rng.random()
        p = rng.choice([3000, 20000, 60000, 150000, 300000, 600000])
        s["sw"] = "rand:%d:%d" % (p, rng.getrandbits(40))
        return s

    def alarm(self, env, o, r):
        """Memory errors, misuse of locks, data races: class or None."""
        if r.crash(): return r.crash(), r.err[:300]
        for l in r.lines:
            if l.startswith("!"):
                w = l[1:].split(" ")[0]
                if w in ALARMS: return w.lower(), self.sym(env, l)
                if w == "DATA-RACE": return "data race", self.sym(env, l)
                if l.startswith("!step limit"): return "no progress", l
        return None

    def sym(self, env, l):
        exe = env.exes["threads"]; pcs = re.findall(r"0x[0-9a-f]+", l)
        for p in pcs:
            try:
                f = subprocess.run(["addr2line", "-f", "-s", "-e", exe, hex(int(p, 16) - 1)], capture_output=True, text=True).stdout.split("\n")
                l = l.replace(p, "%s (%s)" % (f[0], f[1].split(" ")[0]))
            except Exception:
                pass
        return l

    def il(self, r):
        for l in reversed(r.lines):
            if l.startswith("!il "): return l.split()[1]
        return ""

    def shrink(self, case):
        s = case["sim"]; f = case.get("_fired") or {}
        for key, kind in FAULTKEYS:
            if s.get(key):
                for t in shrink_sched(s[key], f.get(kind)): yield dict(case, sim=dict(s, **{key: t}))
        ags = case["ags"]
        for k in range(len(ags)):
            if len(ags[k]) > 1:
                for l in shrink_list(ags[k]): yield dict(case, ags=ags[:k] + [l] + ags[k + 1:])
            elif ags[k]:
                yield dict(case, ags=ags[:k] + [[]] + ags[k + 1:])
        # the switches given afresh: fewer operations shift the step numbers
        if s.get("sw", "").startswith("list:"):
            l = [int(x) for x in s["sw"][5:].split(",")]
            if len(l) <= 12:
                for i in range(len(l)):
                    for d in (-40, -20, -10, -5, -2, -1):
                        if l[i] + d >= 0: yield dict(case, sim=dict(s, sw="list:" + ",".join(map(str, sorted(l[:i] + [l[i] + d] + l[i + 1:])))))
