"""Programs over the File / Dir / FileState extension, as operation lists.

An operation is a list [name, ...]; js() renders the list, and vsim.props.c16 interprets the
same list over a model file system."""
import json

PATHS = ["a", "b.txt", "d/x", "d/y", "e", "d", "e/z", "\u00e9\u65e5", "./b.txt", "d/../a", "/sim/a", "nodir/q", "d/\U0001f600"]
DIRS = ["d", "e", "/sim", "nodir", "d/s", "a"]
ENCS = ["UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "nosuch-enc"]


def a_string(rng):
    k = rng.random()
    if k < .15: return ""
    if k < .45: return "".join(rng.choice("abc xyz\n01") for _ in range(rng.randrange(1, 24)))
    if k < .75: return "".join(rng.choice(["a", "\n", "\u00e9", "\u65e5", "\U0001f600", "\u07ff", "\u0800", "\uffff", "\U0010ffff"]) for _ in range(rng.randrange(1, 16)))
    n = rng.choice([1020, 1023, 1024, 1025, 2047, 3000, 4095, 4096, 4097, 5000, 8191, 8193])
    unit = rng.choice(["a", "\u00e9", "\u65e5", "\U0001f600", "ab\n", "a\u00e9\u65e5\U0001f600"])
    s = "x" * rng.randrange(4) + unit * (n // max(1, len(unit.encode())) + 1)
    return s


def gen_ops(rng, n):
    ops = []
    if rng.random() < .8: ops.append(["mkdir", "d", None])
    if rng.random() < .3: ops.append(["mkdir", "e", 0o755])
    for _ in range(rng.randrange(3)):
        ops.append(["storeString", rng.choice(PATHS[:5]), a_string(rng), rng.choice([None, None, "UTF-8"])])
    live = []                       # generator's guess of open handles: (slot, mode)
    focus = rng.choice(["", "", "stream", "dir"])
    for _ in range(n):
        k = rng.random()
        if focus == "stream" and rng.random() < .7: k *= .68
        p = rng.choice(PATHS)
        if k < .16 or not live and k < .45:
            h = rng.randrange(4); m = rng.choice(["r", "r", "r", "w", "w", "a", "r+", "w+", "a+", "rb", "wb", "z"])
            ops.append(["open", h, p, m, rng.choice(["new", "new", "new", "new", "call", "badproto"])])
            live = [x for x in live if x[0] != h] + [(h, m)]
            continue
        if k < .68 and live:
            h, m = rng.choice(live)
            rd = m[0] == "r" or "+" in m; wr = m[0] in "wa" or "+" in m
            q = rng.random(); ev = rng.choice([None] * 14 + ["close", "detach", "gc", "throw"])
            if q < .12: ops.append(["close", h]); live = [x for x in live if x[0] != h]
            elif q < .24:
                ops.append(["seek", h, rng.choice([0, 0, 0, 1, 3, 7, 20, -1, -2, -5, 1030, 5000]), rng.choice([0, 0, 0, 1, 2, 7]), ev if ev != "detach" else None])
            elif q < .32: ops.append(["tell", h])
            elif rd and (not wr or q < .6):
                if wr: ops.append(["seek", h, rng.choice([0, 0, 2, 5]), 0, None])
                for _ in range(rng.randrange(1, 4)):
                    z = rng.random()
                    if z < .4: ops.append(["read", h, rng.randrange(3), rng.choice([None, None, 0, 1, 3, 9, 100]), rng.choice([None, None, 0, 1, 2, 5, 500]), ev])
                    elif z < .6: ops.append(["getc", h])
                    else: ops.append(["gets", h, rng.choice([None, None, "UTF-8", "ISO-8859-1", "nosuch-enc"])])
                    ev = None
                if wr: ops.append(["seek", h, rng.choice([0, 0, 2, 5]), rng.choice([0, 2]), None])
            else:
                for _ in range(rng.randrange(1, 4)):
                    z = rng.random()
                    if z < .4: ops.append(["write", h, rng.randrange(3), rng.choice([None, None, 0, 1, 3, 9, 100]), rng.choice([None, None, 0, 1, 2, 5, 500]), ev])
                    elif z < .6: ops.append(["putc", h, rng.choice([65, 10, 0, 255, 300, -1]), ev if ev != "detach" else None])
                    else: ops.append(["puts", h, a_string(rng), rng.choice([None, None, "UTF-8", "UTF-16LE", "ISO-8859-1", "nosuch-enc"])])
                    ev = None
            continue
        z = rng.random()
        if focus == "dir": z = .4 + .6 * z
        if z < .10: ops.append(["loadString", p, rng.choice([None, None, "UTF-8", "UTF-16LE", "ISO-8859-1"])])
        elif z < .20: ops.append(["storeString", p, a_string(rng), rng.choice([None, None] + ENCS)])
        elif z < .27: ops.append(["appendString", p, a_string(rng), rng.choice([None, None, "UTF-8", "UTF-16LE"])])
        elif z < .34: ops.append(["loadData", p])
        elif z < .40: ops.append([rng.choice(["storeData", "appendData"]), p, rng.randrange(3), rng.choice([None, None, 0, 1, 5, 100]), rng.choice([None, None, 0, 2, 4, 500]), rng.choice([None] * 6 + ["detach", "gc"])])
        elif z < .47: ops.append(["rename", p, rng.choice(PATHS)])
        elif z < .52: ops.append(["unlink", p])
        elif z < .56: ops.append(["mkdir", rng.choice(DIRS), rng.choice([None, 0o700])])
        elif z < .60: ops.append(["rmdir", rng.choice(DIRS)])
        elif z < .64: ops.append(["chmod", p, rng.choice([0o644, 0o600, 0o400, 0o200, 0, 0o644])])
        elif z < .70: ops.append(["stat", p])
        elif z < .73: ops.append(["realpath", p])
        elif z < .74: ops.append(["getcwd"])
        elif z < .79: ops.append(["opendir", rng.randrange(2), rng.choice(DIRS), rng.choice(["new", "new", "new", "call", "badproto"])])
        elif z < .87: ops.append([rng.choice(["dread", "dread", "dnext", "dnext", "dclose", "dreturn", "dall"]), rng.randrange(2)])
        elif z < .90: ops.append(["listdir", rng.choice(DIRS), rng.choice([None, None, 1, 2])])
        elif z < .93: ops.append(["drop", rng.randrange(4)])
        elif z < .95: ops.append(["gc"])
        else: ops.append(["newbuf", rng.randrange(3), rng.choice([0, 1, 4, 8, 8, 16, 1500])])
    return ops


HEAD = r'''const H = {}, D = {}, B = [];
const hex = b => { if (!b.byteLength) return ""; let u = new Uint8Array(b), s = ""; for (let i = 0; i < u.length; i++) s += (u[i] < 16 ? "0" : "") + u[i].toString(16); return s; };
const nb = (i, n) => { let u = new Uint8Array(n); for (let k = 0; k < n; k++) u[k] = (k * 7 + i * 31 + 65) & 255; B[i] = u.buffer; };
nb(0, 8); nb(1, 3); nb(2, 40);
const NT = new Proxy(function () {}, { get(t, k) { if (k === "prototype") throw new $.SimFault("p"); return t[k]; } });
const ev = (a, n) => ({ valueOf() { a(); return n; } });
const o = (k, f) => { $.raw("@" + k); let r; try { r = "ok " + f(); } catch (e) { r = "!> " + $.err(e); } $.raw("=" + k + " " + $.stat("file") + " " + $.stat("dir") + " " + r); };
const S = x => typeof x === "string" ? JSON.stringify(x) : String(x);
'''


def lit(s):
    return json.dumps(s)


def num(v, ev, h, b):
    if ev is None or v is None: return "undefined" if v is None else str(v)
    act = {"close": "H[%s].close()" % h, "detach": "$.detach(B[%s])" % b, "gc": "$.gc()", "throw": "{throw new $.SimFault('v')}"}[ev]
    return "ev(()=>%s,%d)" % (act, v)


def args(*xs):
    """Arguments, the trailing absent ones left out."""
    xs = list(xs)
    while xs and xs[-1] == "undefined": xs.pop()
    return ",".join(xs)


def rng_args(op):
    """start, count and the evil argument of read/write/storeData."""
    st, cn, ev = op[3], op[4], op[5]
    if ev is not None and st is None: st = 0
    if cn is not None and st is None: st = 0
    return st, cn, ev


def js_op(op):
    n = op[0]
    e = lambda x: "undefined" if x is None else lit(x)
    if n == "open":
        c = {"new": "new File(%s)", "call": "File(%s)", "badproto": "Reflect.construct(File,[%s],NT)"}[op[4]] % args(lit(op[2]), lit(op[3]))
        return "H[%d]=%s;return ''" % (op[1], c)
    if n == "opendir":
        c = {"new": "new Dir(%s)", "call": "Dir(%s)", "badproto": "Reflect.construct(Dir,[%s],NT)"}[op[3]] % lit(op[2])
        return "D[%d]=%s;return ''" % (op[1], c)
    if n in ("read", "write"):
        st, cn, ev = rng_args(op)
        return "if(!H[%d])return 'none';let n=H[%d].%s(%s);return n+' '+hex(B[%d])" % (op[1], op[1], n, args("B[%d]" % op[2], num(st, ev, op[1], op[2]), num(cn, None, 0, 0)), op[2])
    if n == "seek": return "if(!H[%d])return 'none';return H[%d].seek(%s,%d)===H[%d]" % (op[1], op[1], num(op[2], op[4], op[1], 0), op[3], op[1])
    if n == "putc": return "if(!H[%d])return 'none';return H[%d].putChar(%s)===H[%d]" % (op[1], op[1], num(op[2], op[3], op[1], 0), op[1])
    if n == "puts": return "if(!H[%d])return 'none';return H[%d].putString(%s)===H[%d]" % (op[1], op[1], args(lit(op[2]), e(op[3])), op[1])
    if n == "gets": return "if(!H[%d])return 'none';return S(H[%d].getString(%s))" % (op[1], op[1], args(e(op[2])))
    if n in ("getc", "tell", "close"): return "if(!H[%d])return 'none';return H[%d].%s()" % (op[1], op[1], {"getc": "getChar"}.get(n, n))
    if n == "drop": return "H[%d]=undefined;return ''" % op[1]
    if n == "gc": return "$.gc();return ''"
    if n == "newbuf": return "nb(%d,%d);return ''" % (op[1], op[2])
    if n == "loadString": return "return S(File.loadString(%s))" % args(lit(op[1]), e(op[2]))
    if n in ("storeString", "appendString"): return "return File.%s(%s)" % (n, args(lit(op[1]), lit(op[2]), e(op[3])))
    if n == "loadData": return "return hex(File.loadData(%s))" % lit(op[1])
    if n in ("storeData", "appendData"):
        st, cn, ev = rng_args(op)
        return "return File.%s(%s)" % (n, args(lit(op[1]), "B[%d]" % op[2], num(st, ev, 0, op[2]), num(cn, None, 0, 0)))
    if n == "rename": return "return rename(%s,%s)" % (lit(op[1]), lit(op[2]))
    if n in ("unlink", "rmdir"): return "return %s(%s)" % (n, lit(op[1]))
    if n == "realpath": return "return S(realpath(%s))" % lit(op[1])
    if n == "getcwd": return "return S(getcwd())"
    if n == "mkdir": return "return mkdir(%s)" % args(lit(op[1]), "undefined" if op[2] is None else str(op[2]))
    if n == "chmod": return "return chmod(%s,%d)" % (lit(op[1]), op[2])
    if n == "stat": return "let s=new FileState(%s);return s===undefined?'undefined':s.size+' '+(s.format===FileState.FORMAT_DIR?'dir':s.format===FileState.FORMAT_REGULAR?'reg':'?')+' '+s.mode" % lit(op[1])
    if n == "dread": return "if(!D[%d])return 'none';return S(D[%d].read())" % (op[1], op[1])
    if n == "dnext": return "if(!D[%d])return 'none';let r=D[%d].next();return r.done+' '+S(r.value)" % (op[1], op[1])
    if n == "dclose": return "if(!D[%d])return 'none';return D[%d].close()" % (op[1], op[1])
    if n == "dreturn": return "if(!D[%d])return 'none';let r=D[%d].return();return r.done+' '+S(r.value)" % (op[1], op[1])
    if n == "dall": return "if(!D[%d])return 'none';return JSON.stringify([...D[%d]])" % (op[1], op[1])
    if n == "listdir":
        if op[2] is None: return "return JSON.stringify([...new Dir(%s)])" % lit(op[1])
        return "let l=[];for(let x of new Dir(%s)){l.push(x);if(l.length>=%d)break}return JSON.stringify(l)" % (lit(op[1]), op[2])
    raise ValueError(n)


def js(ops):
    return HEAD + "".join("o(%d,()=>{%s});\n" % (k, js_op(op)) for k, op in enumerate(ops))
