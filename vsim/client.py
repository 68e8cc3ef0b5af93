"""Talks to the simulator process (one forked, isolated run per case)."""
import os, subprocess, struct, hashlib

FK = {1: "collection", 2: "host-call-failure", 3: "io", 4: "allocation", 5: "detach", 6: "agent-switch", 7: "time-jump-to-deadline", 8: "wall-clock-jump", 9: "spurious-wakeup"}

class SimDied(Exception):
    pass

class Result:
    __slots__ = ("rc", "sig", "stage", "overflow", "n_alloc", "n_gc", "n_probe", "n_io", "n_malloc",
                 "sim_us", "fired", "trace", "err")

    @property
    def ok(self):
        return self.rc == 0 and self.sig == 0 and self.stage >= 4 and not self.overflow

    @property
    def lines(self):
        return self.trace.split("\n")[:-1]

    def log(self):
        """Trace without simulator annotations."""
        return [l for l in self.lines if not l.startswith(("!", "leaks "))]

    def fired_idx(self, kind):
        return [i for k, i in self.fired if k == kind]

    def crash(self):
        """None, or a short class for an abnormal end of the simulated process."""
        if self.ok:
            return None
        e = self.err
        if "AddressSanitizer" in e:
            import re
            m = re.search(r"AddressSanitizer: ([\w-]+)", e)
            k = m.group(1) if m else "asan"
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", e)
            fr = [f for f in fr if not f.startswith(("__", "sim_", "malloc", "free", "realloc"))]
            return "memory:%s in %s" % (k, fr[0] if fr else "?")
        if "Assertion" in e or "assert" in e:
            import re
            m = re.search(r"(\w+): Assertion `(.*?)' failed", e)
            return "assert:" + (m.group(1) + ":" + m.group(2)[:60] if m else "?")
        if self.sig in (24, 14, 9):
            return "hang"
        if self.overflow:
            return "trace-overflow"
        return "signal:%d rc:%d stage:%d" % (self.sig, self.rc, self.stage)

    def hash(self):
        h = hashlib.sha256()
        if "stack-overflow" in self.err:
            return "stack-overflow--"
        if self.sig in (24, 14, 9):
            return "hang------------"
        h.update(self.trace.encode("utf-8", "surrogateescape"))
        h.update(repr((self.rc, self.sig, self.stage, self.n_alloc, self.n_gc, self.n_probe, self.n_io, self.n_malloc,
                       self.sim_us, self.fired)).encode())
        return h.hexdigest()[:16]


def encode(case):
    out = []
    for k, v in case.items():
        if isinstance(v, str):
            v = v.encode("utf-8", "surrogateescape")
        elif isinstance(v, (int, float)):
            v = str(v).encode()
        elif isinstance(v, (list, tuple)):
            v = ",".join(str(x) for x in v).encode()
        out.append(k.encode() + b" " + str(len(v)).encode() + b"\n" + v + b"\n")
    return b"".join(out)


class Sim:
    def __init__(self, exe, args=("--pre",), env=None):
        self.exe, self.args = exe, list(args)
        self.env = dict(os.environ)
        self.env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort="+os.environ.get("SIM_ABORT","0")+":symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=6:detect_stack_use_after_return=0:quarantine_size_mb=64"
        self.env["LC_ALL"] = "C.UTF-8"
        if env:
            self.env.update(env)
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            self.p.wait()
            self.p.stdout.close()
            self.p = None

    def kill(self):
        if self.p:
            self.p.kill(); self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except Exception:
                    pass
            self.p = None

    def _rd(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise SimDied("simulator server died")
        return b

    def run(self, case):
        if not self.p:
            self.start()
        b = encode(case)
        self.p.stdin.write(str(len(b)).encode() + b"\n" + b)
        self.p.stdin.flush()
        h = self.p.stdout.readline().split()
        if len(h) != 14:
            raise SimDied("bad header %r" % h)
        r = Result()
        (r.rc, r.sig, r.stage, r.overflow, r.n_alloc, r.n_gc, r.n_probe, r.n_io, r.n_malloc, r.sim_us) = map(int, h[1:11])
        nf, nt, ne = map(int, h[11:14])
        fb = self._rd(nf * 8)
        r.fired = [struct.unpack_from("<II", fb, i * 8) for i in range(nf)]
        r.trace = self._rd(nt).decode("utf-8", "surrogateescape")
        r.err = self._rd(ne).decode("utf-8", "replace")
        return r
