import json, posixpath, re
from .base import Prop, leak_line
from ..driver import Outcome
from ..gen import filegen


class Bad(Exception):
    pass


class Node:
    __slots__ = ("dir", "mode", "data", "flux")

    def __init__(self, d, mode):
        self.dir, self.mode = d, mode; self.data = bytearray(); self.flux = False   # data None: not known; flux: never known again


class Handle:
    def __init__(self, node, path, rd, wr, app, pos):
        self.node, self.path, self.rd, self.wr, self.app, self.pos = node, path, rd, wr, app, pos
        self.open = True; self.bad = False; self.last = None


class DirH:
    def __init__(self, names):
        self.left = names; self.open = True; self.bad = False


FAIL = "FAIL"           # the model refuses the operation
UNK = "UNKNOWN"         # the model does not know


def norm(p):
    return posixpath.normpath(posixpath.join("/sim", p))


def codec(enc):
    return {None: "utf-8", "UTF-8": "utf-8", "UTF-16LE": "utf-16-le", "UTF-16BE": "utf-16-be", "ISO-8859-1": "latin-1"}.get(enc)


def encode(s, enc):
    c = codec(enc)
    if c is None: return FAIL
    try: return s.encode(c)
    except UnicodeError: return UNK


def decode(b, enc):
    c = codec(enc)
    if c is None: return FAIL
    try: return bytes(b).decode(c)
    except UnicodeError: return UNK


class Model:
    """The file system and the open streams, as the documentation describes them."""
    def __init__(self):
        self.fs = {"/": Node(True, 0o755), "/sim": Node(True, 0o755)}
        self.H = {}; self.D = {}; self.garbage = []; self.dgarbage = []
        self.B = {0: self.buf(0, 8), 1: self.buf(1, 3), 2: self.buf(2, 40)}
        self.n = {"ok": 0, "excused": 0, "refused": 0, "unknown": 0}

    def buf(self, i, n):
        return [(k * 7 + i * 31 + 65) & 255 for k in range(n)]

    # ----- helpers -----
    def handles(self):
        return [h for h in list(self.H.values()) + self.garbage if h.open]

    def touch(self, node, write, me=None):
        """Another stream's unwritten data makes the content unknown."""
        for h in self.handles():
            if h is not me and h.node is node and (h.wr or write):
                node.data = None; node.flux = True

    def parent(self, p):
        d = self.fs.get(posixpath.dirname(p))
        return d is not None and d.dir

    def open_(self, p, mode):
        """Node or FAIL; the effects of a successful open."""
        m = mode[:1]
        if m not in ("r", "w", "a"): return FAIL
        rd = m == "r" or "+" in mode; wr = m != "r" or "+" in mode
        nd = self.fs.get(p)
        if nd is None:
            if m == "r" or not self.parent(p): return FAIL
            nd = self.fs[p] = Node(False, 0o644)
        elif nd.dir and wr: return FAIL
        if (rd and not nd.mode & 0o400) or (wr and not nd.mode & 0o200): return FAIL
        self.touch(nd, wr)
        if m == "w": nd.data = None if nd.flux else bytearray()
        return nd

    def can_open(self, p, mode):
        """Would it open (no effects)?"""
        m = mode[:1]
        if m not in ("r", "w", "a"): return False
        rd = m == "r" or "+" in mode; wr = m != "r" or "+" in mode
        nd = self.fs.get(p)
        if nd is None: return m != "r" and self.parent(p)
        if nd.dir and wr: return False
        return not ((rd and not nd.mode & 0o400) or (wr and not nd.mode & 0o200))

    def put(self, h, b):
        nd = h.node
        if h.bad or b is UNK: nd.data = None; nd.flux = True; h.pos = None; h.bad = True; return
        self.touch(nd, True, h)
        if h.app: 
            if nd.data is not None: nd.data += b
            return
        if nd.data is None or h.pos is None:
            nd.data = None; nd.flux = True
            if h.pos is not None: h.pos += len(b)
            return
        if len(b):
            if h.pos > len(nd.data): nd.data += bytes(h.pos - len(nd.data))
            nd.data[h.pos:h.pos + len(b)] = b
        h.pos += len(b)

    def poison(self, h):
        h.pos = None
        if h.wr: h.bad = True; h.node.data = None; h.node.flux = True

    # ----- one operation -----
    def step(self, op, faults, ok, res, err):
        """Judge the outcome and bring the model up to date."""
        fk = {f[0] for f in faults}
        for f in faults:                                     # a forgotten stream flushed at some point of its own
            for h in self.garbage:
                if h.wr and f[2] == h.path: h.node.data = None; h.node.flux = True
        self.excuse = bool(faults)
        getattr(self, "do_" + op[0])(op, fk, ok, res, err)

    def judge(self, ok, res, err, want, loose=False):
        """want: exact result text, FAIL, or UNK.  Returns True when the operation took effect."""
        if want is UNK: self.n["unknown"] += 1; return ok
        if want is FAIL:
            if ok: raise Bad("an operation that must fail succeeded with %r" % res[:80])
            self.n["refused"] += 1; return False
        if not ok:
            if not (self.excuse or loose): raise Bad("failed without a fault (%s), expected %r" % (err, want[:80]))
            self.n["excused"] += 1; return False
        if res != want: raise Bad("result %r, expected %r" % (res[:300], want[:300]))
        self.n["ok"] += 1; return True

    def stream(self, op, ok, res, err):
        h = self.H.get(op[1])
        if h is None:
            if not ok or res != "none": raise Bad("a file object appeared from nowhere: %r" % res)
            return None
        if not h.open:
            self.judge(ok, res, err, FAIL); return None
        return h

    # ----- streams -----
    def do_open(self, op, fk, ok, res, err):
        p, m = norm(op[2]), op[3]; can = self.can_open(p, m)
        if op[4] == "badproto":
            if ok: raise Bad("constructed a file although its prototype could not be read")
            if can and "open" not in fk:
                nd = self.open_(p, m)
            return
        if not self.judge(ok, res, err, "" if can else FAIL): return
        nd = self.open_(p, m)
        if op[1] in self.H and self.H[op[1]].open: self.garbage.append(self.H[op[1]])
        self.H[op[1]] = Handle(nd, p, m[0] == "r" or "+" in m, m[0] != "r" or "+" in m, m[0] == "a", None if m[0] == "a" else 0)

    def do_close(self, op, fk, ok, res, err):
        h = self.H.get(op[1])
        if h is None: return self.stream(op, ok, res, err)
        if not h.open: self.judge(ok, res, err, "undefined"); return
        h.open = False
        lost = fk & {"write", "close", "seek"} if h.wr else set()
        if ok and lost - {"seek"}: raise Bad("close() succeeded although writing the data failed (%s)" % ",".join(sorted(lost)))
        if not ok or lost:
            if h.wr: h.node.data = None; h.node.flux = True
        self.judge(ok, res, err, "undefined", h.bad)

    def evil(self, h, ev, fk, ok, res, err):
        """True: the argument's conversion decided the outcome already."""
        if ev == "close":
            h.open = False
            if h.wr and fk: h.node.data = None; h.node.flux = True
            self.judge(ok, res, err, FAIL); return True
        if ev == "throw":
            self.judge(ok, res, err, FAIL)
            if err != "SimFault": raise Bad("the conversion's error was replaced by %s" % err)
            return True
        return False

    def span(self, op):
        st, cn, ev = filegen.rng_args(op); n = len(self.B[op[2]])
        s = min(st or 0, n); c = n - s if cn is None else min(cn, n - s)
        return s, c, ev

    def do_read(self, op, fk, ok, res, err):
        h = self.stream(op, ok, res, err)
        if not h: return
        s, c, ev = self.span(op); b = self.B[op[2]]
        if self.evil(h, ev, fk, ok, res, err): return
        if ev == "detach":
            self.B[op[2]] = []
            if ok and res != "0 ": raise Bad("read into a detached buffer: %r" % res)
            return
        if not h.rd:
            if c: self.judge(ok, res, err, FAIL); self.poison(h)
            return
        if h.last == "w": h.pos = None
        h.last = "r"; nd = h.node
        if nd.dir:
            if c: self.judge(ok, res, err, FAIL)
            return
        if not ok:
            self.judge(ok, res, err, "", nd.data is None or h.pos is None or h.bad)
            self.poison(h)
            for k in range(s, s + c): b[k] = None
            return
        m = re.match(r"(\d+) ((?:[0-9a-f]{2})*)$", res)
        if not m: raise Bad("malformed result %r" % res[:80])
        n = int(m.group(1)); got = bytes.fromhex(m.group(2))
        if len(got) != len(b) or n > c: raise Bad("read %d of %d bytes asked for" % (n, c))
        if nd.data is None or h.pos is None:
            for k in range(s, s + n): b[k] = None
            if h.pos is not None: h.pos += n
            self.n["unknown"] += 1
        else:
            want = bytes(nd.data[h.pos:h.pos + c])
            if n != len(want) and not ("read" in fk and n < len(want)): raise Bad("read %d bytes, the file has %d more" % (n, len(want)))
            b[s:s + n] = want[:n]; h.pos += n
            if "read" in fk and n < len(want):
                for k in range(s + n, s + c): b[k] = None
            self.n["ok"] += 1
            if "seek" in fk: self.poison(h)
        for k in range(len(b)):
            if b[k] is not None and b[k] != got[k]: raise Bad("buffer byte %d is %02x, expected %02x" % (k, got[k], b[k]))
        b[:] = list(got)

    def do_write(self, op, fk, ok, res, err):
        h = self.stream(op, ok, res, err)
        if not h: return
        s, c, ev = self.span(op); b = self.B[op[2]]
        if self.evil(h, ev, fk, ok, res, err): return
        if ev == "detach":
            self.B[op[2]] = []
            if ok and res != "0 ": raise Bad("wrote a detached buffer: %r" % res)
            return
        if not h.wr:
            if c: self.judge(ok, res, err, FAIL); self.poison(h)
            return
        if any(x is None for x in b): data = UNK; want = UNK
        else: data = bytes(b[s:s + c]); want = "%d %s" % (c, bytes(b).hex())
        self.wrote(h, data, fk, self.judge(ok, res, err, want, h.bad))

    def wrote(self, h, data, fk, took):
        if h.last == "r" and not h.app: h.pos = None; h.bad = True
        h.last = "w"
        if not took or fk & {"seek", "write", "read"}: self.poison(h)
        else: self.put(h, data)

    def do_putc(self, op, fk, ok, res, err):
        h = self.stream(op, ok, res, err)
        if not h: return
        if self.evil(h, op[3], fk, ok, res, err): return
        if not h.wr: self.judge(ok, res, err, FAIL); self.poison(h); return
        self.wrote(h, bytes([op[2] & 255]), fk, self.judge(ok, res, err, "true", h.bad))

    def do_puts(self, op, fk, ok, res, err):
        h = self.stream(op, ok, res, err)
        if not h: return
        data = encode(op[2], op[3])
        if data is FAIL: self.judge(ok, res, err, FAIL); return
        if not h.wr:
            if data is not UNK and len(data): self.judge(ok, res, err, FAIL); self.poison(h)
            return
        self.wrote(h, data, fk, self.judge(ok, res, err, "true" if data is not UNK else UNK, h.bad))

    def do_getc(self, op, fk, ok, res, err):
        h = self.stream(op, ok, res, err)
        if not h: return
        if not h.rd or h.node.dir: self.judge(ok, res, err, FAIL); self.poison(h); return
        if h.last == "w": h.pos = None
        h.last = "r"; d = h.node.data
        if d is None or h.pos is None: want = UNK
        else: want = str(d[h.pos]) if h.pos < len(d) else "undefined"
        if not self.judge(ok, res, err, want, h.bad) or "seek" in fk: self.poison(h)
        elif h.pos is not None and res != "undefined": h.pos += 1

    def do_gets(self, op, fk, ok, res, err):
        h = self.stream(op, ok, res, err)
        if not h: return
        if not h.rd or h.node.dir: self.judge(ok, res, err, FAIL); self.poison(h); return
        if h.last == "w": h.pos = None
        h.last = "r"; d = h.node.data; n = None
        if d is None or h.pos is None: want = UNK
        else:
            e = d.find(b"\n", h.pos); e = len(d) if e < 0 else e + 1
            line = bytes(d[h.pos:e]); n = len(line); want = decode(line, op[2])
            if want not in (FAIL, UNK): want = ("S", want)
        if isinstance(want, tuple):
            if ok:
                try: got = json.loads(res)
                except ValueError: raise Bad("malformed result %r" % res[:80])
                if got != want[1]: raise Bad("read the line %r, expected %r" % (got[:100], want[1][:100]))
                self.n["ok"] += 1
            else: self.judge(ok, res, err, "a string", h.bad)
        else: self.judge(ok, res, err, want)
        if not ok or "seek" in fk or n is None: self.poison(h)
        else: h.pos += n

    def do_seek(self, op, fk, ok, res, err):
        h = self.stream(op, ok, res, err)
        if not h: return
        ev = op[4]; off, wh = op[2], op[3]
        if self.evil(h, ev, fk, ok, res, err): return
        if h.node.dir: return
        n = None if h.node.data is None else len(h.node.data)
        base = 0 if wh == 0 else h.pos if wh == 1 else n if wh == 2 else FAIL
        if base is FAIL: t = FAIL
        elif base is None: t = FAIL if wh == 0 else None
        else: t = base + off if base + off >= 0 else FAIL
        if h.app and wh == 1: t = None
        want = UNK if t is None else FAIL if t is FAIL else "true"
        took = self.judge(ok, res, err, want, h.bad)
        if t is FAIL or not took:
            if t is FAIL and not fk: h.pos = h.pos if not h.wr else h.pos
            if fk or not took: self.poison(h) if (fk or h.bad) else setattr(h, "pos", None)
            return
        if fk & {"write", "seek", "read"}: self.poison(h); return
        h.last = None; h.pos = t

    def do_tell(self, op, fk, ok, res, err):
        h = self.stream(op, ok, res, err)
        if not h: return
        want = UNK if h.pos is None or h.app or h.bad or h.node.dir else str(h.pos)
        self.judge(ok, res, err, want)
        if fk: self.poison(h)

    def do_drop(self, op, fk, ok, res, err):
        h = self.H.pop(op[1], None)
        if h and h.open: self.garbage.append(h)
        self.judge(ok, res, err, "")

    def do_gc(self, op, fk, ok, res, err): self.judge(ok, res, err, "")

    def do_newbuf(self, op, fk, ok, res, err):
        self.B[op[1]] = self.buf(op[1], op[2]); self.judge(ok, res, err, "")

    # ----- whole files -----
    def whole(self, p):
        nd = self.fs.get(p)
        if nd is None or nd.dir or not nd.mode & 0o400: return FAIL
        self.touch(nd, False)
        return UNK if nd.data is None else bytes(nd.data)

    def do_loadString(self, op, fk, ok, res, err):
        d = self.whole(norm(op[1])); want = d if d in (FAIL, UNK) else decode(d, op[2])
        if want in (FAIL, UNK): self.judge(ok, res, err, want); return
        if ok:
            got = json.loads(res)
            if got != want: raise Bad("loaded %d characters, expected %d: first difference at %d" % (len(got), len(want), next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))))
            self.n["ok"] += 1
        else: self.judge(ok, res, err, "a string")

    def do_loadData(self, op, fk, ok, res, err):
        d = self.whole(norm(op[1]))
        self.judge(ok, res, err, d if d in (FAIL, UNK) else d.hex())

    def save(self, p, mode, data, fk, ok, res, err):
        can = self.can_open(p, mode)
        if not can: self.judge(ok, res, err, FAIL); return
        if ok and fk & {"write", "close"}: raise Bad("success reported although writing the data failed (%s)" % ",".join(sorted(fk)))
        took = self.judge(ok, res, err, FAIL if data is FAIL else UNK if data is UNK else "undefined")
        if "open" in fk: return
        nd = self.open_(p, mode)
        if not took or data is UNK: nd.data = None; nd.flux = True if not took else nd.flux
        elif nd.data is not None: nd.data += data
        if not took or data is UNK: nd.data = None; nd.flux = False       # closed again: the next truncation starts afresh
        self.touch(nd, True)

    def do_storeString(self, op, fk, ok, res, err): self.save(norm(op[1]), "w", encode(op[2], op[3]), fk, ok, res, err)
    def do_appendString(self, op, fk, ok, res, err): self.save(norm(op[1]), "a", encode(op[2], op[3]), fk, ok, res, err)

    def data(self, op, mode, fk, ok, res, err):
        s, c, ev = self.span(op); b = self.B[op[2]]; p = norm(op[1])
        if ev == "detach" and self.can_open(p, mode) and "open" not in fk: self.B[op[2]] = b = []; d = UNK
        else: d = UNK if None in b else bytes(b[s:s + c])
        if not b and d is not UNK: d = UNK if not b else d
        self.save(p, mode, d, fk, ok, res, err)

    def do_storeData(self, op, fk, ok, res, err): self.data(op, "w", fk, ok, res, err)
    def do_appendData(self, op, fk, ok, res, err): self.data(op, "a", fk, ok, res, err)

    # ----- names -----
    def do_rename(self, op, fk, ok, res, err):
        p, q = norm(op[1]), norm(op[2]); a = self.fs.get(p); b = self.fs.get(q); good = True
        kids = lambda d: any(k.startswith(d + "/") for k in self.fs)
        if a is None or not self.parent(q): good = False
        elif p == q: pass
        elif q.startswith(p + "/"): good = False
        elif b is not None and (a.dir != b.dir or b.dir and kids(q)): good = False
        if self.judge(ok, res, err, "undefined" if good else FAIL) and p != q:
            for k in [k for k in self.fs if k == q]: del self.fs[k]
            for k in [k for k in self.fs if k == p or k.startswith(p + "/")]: self.fs[q + k[len(p):]] = self.fs.pop(k)

    def do_unlink(self, op, fk, ok, res, err):
        p = norm(op[1]); n = self.fs.get(p)
        if self.judge(ok, res, err, "undefined" if n and not n.dir else FAIL): del self.fs[p]

    def do_rmdir(self, op, fk, ok, res, err):
        p = norm(op[1]); n = self.fs.get(p)
        if self.judge(ok, res, err, "undefined" if n and n.dir and not any(k.startswith(p + "/") for k in self.fs) else FAIL): del self.fs[p]

    def do_mkdir(self, op, fk, ok, res, err):
        p = norm(op[1])
        if self.judge(ok, res, err, "undefined" if p not in self.fs and self.parent(p) else FAIL): self.fs[p] = Node(True, 0o777 if op[2] is None else op[2])

    def do_chmod(self, op, fk, ok, res, err):
        n = self.fs.get(norm(op[1]))
        if self.judge(ok, res, err, "undefined" if n else FAIL): n.mode = op[2]

    def do_stat(self, op, fk, ok, res, err):
        n = self.fs.get(norm(op[1]))
        if ok and res == "undefined" and "stat" in fk: self.n["excused"] += 1; return
        if n is None: self.judge(ok, res, err, "undefined"); return
        if n.dir or n.data is None or any(h.wr and h.node is n for h in self.handles()):
            if not ok: self.judge(ok, res, err, "")
            elif not re.match(r"\d+ %s %d$" % ("dir" if n.dir else "reg", n.mode), res): raise Bad("state %r of a %s of mode %d" % (res, "directory" if n.dir else "file", n.mode))
            return
        self.judge(ok, res, err, "%d reg %d" % (len(n.data), n.mode))

    def do_realpath(self, op, fk, ok, res, err):
        p = norm(op[1])
        if ok and res == "undefined" and "realpath" in fk: self.n["excused"] += 1; return
        if p in self.fs:
            if not ok: self.judge(ok, res, err, "")
            elif res == "undefined" or json.loads(res) != p: raise Bad("real path %r of %r" % (res, p))
        else: self.judge(ok, res, err, "undefined")

    def do_getcwd(self, op, fk, ok, res, err): self.judge(ok, res, err, '"/sim"')

    # ----- directories -----
    def names(self, p):
        n = self.fs.get(p)
        if n is None or not n.dir: return FAIL
        return {".", ".."} | {k[len(p) + 1:] for k in self.fs if k.startswith(p + "/") and "/" not in k[len(p) + 1:]}

    def do_opendir(self, op, fk, ok, res, err):
        l = self.names(norm(op[2]))
        if op[3] == "badproto":
            if ok: raise Bad("constructed a directory although its prototype could not be read")
            return
        if not self.judge(ok, res, err, FAIL if l is FAIL else ""): return
        if op[1] in self.D and self.D[op[1]].open: self.dgarbage.append(self.D[op[1]])
        self.D[op[1]] = DirH(l)

    def dirh(self, op, ok, res, err):
        d = self.D.get(op[1])
        if d is None and (not ok or res != "none"): raise Bad("a directory object appeared from nowhere: %r" % res)
        return d

    def entry(self, d, name, fk):
        if name not in d.left: raise Bad("entry %r delivered twice or never there" % name)
        d.left = d.left - {name}; self.n["ok"] += 1

    def do_dread(self, op, fk, ok, res, err):
        d = self.dirh(op, ok, res, err)
        if d is None: return
        if not d.open: self.judge(ok, res, err, FAIL); return
        if not ok: self.judge(ok, res, err, "an entry"); return
        if res == "undefined":
            if d.left: raise Bad("end of the directory reported while %d entries are left" % len(d.left))
            return
        self.entry(d, json.loads(res), fk)

    def do_dnext(self, op, fk, ok, res, err):
        d = self.dirh(op, ok, res, err)
        if d is None: return
        if not d.open: self.judge(ok, res, err, "true undefined"); return
        if not ok: self.judge(ok, res, err, "an entry"); return
        if res == "true undefined":
            if d.left: raise Bad("iteration ended while %d entries are left" % len(d.left))
            d.open = False; return
        if not res.startswith("false "): raise Bad("result %r" % res)
        self.entry(d, json.loads(res[6:]), fk)

    def do_dclose(self, op, fk, ok, res, err):
        d = self.dirh(op, ok, res, err)
        if d is None: return
        d.open = False; self.judge(ok, res, err, "undefined")

    def do_dreturn(self, op, fk, ok, res, err):
        d = self.dirh(op, ok, res, err)
        if d is None: return
        d.open = False; self.judge(ok, res, err, "true undefined")

    def do_dall(self, op, fk, ok, res, err):
        d = self.dirh(op, ok, res, err)
        if d is None: return
        if not ok: self.judge(ok, res, err, "entries"); d.left = frozenset(); self.D.pop(op[1]); self.dgarbage.append(d); return
        l = json.loads(res); want = d.left if d.open else set()
        if sorted(l) != sorted(want): raise Bad("iterated over %r, expected %r" % (sorted(l), sorted(want)))
        self.n["ok"] += 1; d.open = False

    def do_listdir(self, op, fk, ok, res, err):
        l = self.names(norm(op[1]))
        if l is FAIL: self.judge(ok, res, err, FAIL); return
        if not ok: self.judge(ok, res, err, "entries"); self.dgarbage.append(DirH(l)); return
        got = json.loads(res); n = len(l) if op[2] is None else min(op[2], len(l))
        if len(got) != n or len(set(got)) != n or not set(got) <= l: raise Bad("listed %r, the directory has %r" % (got, sorted(l)))
        self.n["ok"] += 1

    # ----- resources -----
    def counts(self, op, files, dirs):
        lo = sum(h.open for h in self.H.values()); self.garbage = [h for h in self.garbage if h.open]; hi = lo + len(self.garbage) + self.extra
        if not lo <= files <= hi: raise Bad("%d files are open, expected %d" % (files, lo) + (" to %d" % hi if hi > lo else ""))
        if files == lo:
            for h in self.garbage: h.open = False
            self.garbage = []
        lo = sum(d.open for d in self.D.values()); hi = lo + sum(d.open for d in self.dgarbage)
        if not lo <= dirs <= hi: raise Bad("%d directories are open, expected %d" % (dirs, lo) + (" to %d" % hi if hi > lo else ""))
        if dirs == lo: self.dgarbage = []
    extra = 0

    def final(self, files, dirs, late):
        want = {p: n for p, n in self.fs.items()}
        for h in self.handles():
            if late and h.wr: h.node.data = None
        for p in want:
            n = want[p]
            if n.dir:
                if p not in dirs: raise Bad("directory %s is missing at the end" % p)
            elif p not in files: raise Bad("file %s is missing at the end" % p)
            else:
                m, d = files[p]
                if m != n.mode & 0o777: raise Bad("file %s ends with mode %o, expected %o" % (p, m, n.mode))
                if n.data is not None and d != bytes(n.data): raise Bad("file %s ends with %d bytes %s, expected %d bytes %s" % (p, len(d), d[:40].hex(), len(n.data), bytes(n.data[:40]).hex()))
        for p in list(files) + list(dirs):
            if p not in want: raise Bad("%s exists at the end" % p)


def check(ops, r):
    """Raises Bad; returns the model."""
    m = Model(); seg = None; cur = -1; faults = []; files = {}; dirs = set(); late = False
    for l in r.lines:
        if l.startswith("@"): cur = int(l[1:]); faults = []; continue
        if l.startswith("!io "):
            f = l.split(" ", 4); late = True
            faults.append((f[2], f[3], f[4])); continue
        if l.startswith("="):
            k, nf, nd, rest = l[1:].split(" ", 3); k = int(k); late = False
            ok = rest.startswith("ok"); res = rest[3:] if ok else ""; err = None if ok else rest[3:]
            if not ok and err not in ("TypeError", "RangeError", "SimFault"): raise Bad("op %d %r ended with %r" % (k, ops[k], err))
            try:
                m.step(ops[k], faults, ok, res, err); m.counts(ops[k], int(nf), int(nd))
            except Bad as e:
                raise Bad("op %d %s: %s" % (k, ops[k][0], e))
            cur = -1; faults = []; continue
        if l.startswith("#file "):
            x = l[6:].rsplit(" ", 2); files[x[0]] = (int(x[1], 8), bytes.fromhex(x[2])); continue
        if l.startswith("#dir "): dirs.add(l[5:]); continue
        if l.startswith(("uncaught", "parse")): raise Bad("the program ended early: " + l)
    m.final(files, dirs, late)
    return m


class C16(Prop):
    id = "C16"; quick_cases = 16000; quick_secs = 100
    rule = "a case counts when at least five operations took effect and the final file system was compared"
    distinct_measure = "distinct (operations, faults fired)"

    def gen(self, rng, i, tier):
        ops = filegen.gen_ops(rng, rng.choice([3, 6, 10, 16, 30]))
        s = {"ext": 1, "fsdump": 1}
        k = rng.random()
        if k < .7: s["io"] = rng.choice(["list:%d" % rng.randrange(60), "list:%d,%d" % (rng.randrange(40), rng.randrange(80)), "rand:%d:%d" % (rng.choice([10, 40, 150]), rng.randrange(10 ** 6)), "range:%d:%d" % (lambda a: (a, a + rng.randrange(1, 6)))(rng.randrange(60))]); s["ioseed"] = rng.randrange(10 ** 6)
        if rng.random() < .15: s["diskcap"] = rng.choice([0, 10, 100, 1500, 6000])
        s["stdiobuf"] = rng.choice([0, 0, 0, -1, 1, 3, 16, 100, 1000])
        if rng.random() < .15: s["gc"] = "rand:%d:%d" % (rng.choice([5, 30, 200]), rng.randrange(10 ** 6))
        return {"ops": ops, "sim": s}

    def execute(self, env, case):
        o = Outcome(); s = dict(case["sim"]); s["type"] = "script"; s["src"] = filegen.js(case["ops"])
        r = self.sim(env).run(s); self.acct(o, r, case)
        o.hash = r.hash(); o.detail = r.lines; o.key = repr((case["ops"], r.fired))
        c = r.crash()
        if c: return o.fail("crash", c + " " + r.err[-200:])
        try:
            m = check(case["ops"], r)
        except Bad as e:
            return o.fail(re.sub(r"\d+|'[^']*'|\b[0-9a-f]{4,}\b", "#", re.sub(r"^op \d+ | /sim.*ends with.*|ends with.*", "", str(e)))[:50], str(e))
        ll = leak_line(r)
        if ll != "leaks malloc=0 file=0 dir=0 ucnv=0": return o.fail("leak", str(ll))
        if any(l.startswith("STACK-IMBALANCE") for l in r.lines): return o.fail("stack", "value stack imbalance")
        for k, v in m.n.items(): o.extra["ops " + k] += v
        for l in r.lines:
            if l.startswith("!io "): o.extra["fault " + " ".join(l.split(" ")[2:4])] += 1
        o.nontrivial = m.n["ok"] >= 5
        return o

    def shrink(self, case):
        from .base import shrink_list
        for t in shrink_list(case["ops"]):
            if t: yield dict(case, ops=t)
        for k in ("stdiobuf", "gc", "diskcap"):
            if k in case["sim"]:
                s = dict(case["sim"]); del s[k]; yield dict(case, sim=s)
        for k, op in enumerate(case["ops"]):
            for j, x in enumerate(op):
                if j and isinstance(x, str) and len(x) > 8 and op[0] in ("storeString", "appendString", "puts"):
                    yield dict(case, ops=case["ops"][:k] + [op[:j] + [x[:len(x) // 2]] + op[j + 1:]] + case["ops"][k + 1:])
        yield from super().shrink(case)


PROP = C16()
