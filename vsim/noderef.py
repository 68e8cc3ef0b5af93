import json, os, select, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__))
class NodeRef:
    def __init__(self):
        self.p = None; self.n = 0
    def start(self):
        self.p = subprocess.Popen(["node", "--expose-gc", "--experimental-vm-modules", "--no-warnings", "--stack-size=900", os.path.join(HERE, "noderef.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    def close(self):
        if self.p:
            try: self.p.stdin.close()
            except Exception: pass
            self.p.kill(); self.p.wait(); self.p.stdout.close(); self.p = None
    def _once(self, data, secs):
        if self.p is None or self.n > 400:
            self.close(); self.start(); self.n = 0
        self.n += 1
        try:
            self.p.stdin.write(data); self.p.stdin.flush()
        except BrokenPipeError:
            self.close(); return None
        fd = self.p.stdout.fileno(); buf = b""; end = time.time() + secs
        while not buf.endswith(b"\n"):
            left = end - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                self.close(); return None
            b = os.read(fd, 1 << 16)
            if not b:
                self.close(); return None
            buf += b
        return json.loads(buf)
    def run(self, case, secs=8):
        """The reference's result, or None when the reference gives none (it ran out of time or memory)."""
        data = (json.dumps(case) + "\n").encode()
        r = self._once(data, secs)
        if r is None: r = self._once(data, secs / 2)
        if r is not None and "error" in r: raise RuntimeError("reference: " + r["error"])
        return r
