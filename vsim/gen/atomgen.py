"""Histories of operations of several agents on shared memory, and the models that judge them."""
TY = {"i8": (1, True, False, "Int8Array"), "u8": (1, False, False, "Uint8Array"), "i16": (2, True, False, "Int16Array"), "u16": (2, False, False, "Uint16Array"),
      "i32": (4, True, False, "Int32Array"), "u32": (4, False, False, "Uint32Array"), "i64": (8, True, True, "BigInt64Array"), "u64": (8, False, True, "BigUint64Array")}
RMW = ["add", "sub", "and", "or", "xor", "exchange"]
NSAB = 16
PRE = 'const sab = $.take(0);\nconst V = {' + ", ".join("%s: new %s(sab)" % (k, v[3]) for k, v in TY.items()) + '};\nconst op = (id, f) => { $.log(">" + id); let r; try { r = String(f()); } catch (e) { r = "!" + e.name; } $.log("<" + id + " " + r); };\nconst E = { valueOf() { $.yield(); return 1; } };\n'


def val(rng, ty):
    sz, sg, big, _ = TY[ty]; n = sz * 8
    k = rng.random()
    if k < .3: v = rng.choice([0, 1, 2, -1, 3])
    elif k < .6: v = rng.getrandbits(n)
    elif k < .8: v = int("".join("%02x" % rng.choice([0x11 * j for j in range(16)]) for _ in range(sz)), 16)
    else: v = rng.choice([(1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, -(1 << (n - 1)), 1 << n, (1 << n) + 5])
    return v


def lit(ty, v):
    return ("%dn" % v) if TY[ty][2] else str(v)


def gen_op(rng, words, tys):
    ty = rng.choice(tys); sz = TY[ty][0]
    w = rng.choice(words); off = w * 8 + rng.randrange(8 // sz) * sz if rng.random() < .7 else w * 8
    k = rng.random()
    if k < .28: return ["load", ty, off]
    if k < .42: return ["store", ty, off, val(rng, ty)]
    if k < .72: return [rng.choice(RMW), ty, off, val(rng, ty)]
    if k < .84: return ["cas", ty, off, rng.choice([val(rng, ty), "last"]), val(rng, ty)]
    if TY[ty][2]: return ["load", ty, off]
    if k < .92: return ["get", ty, off]
    if k < .97: return ["set", ty, off, val(rng, ty)]
    if k < .985: return ["fill", ty, w * 8, val(rng, ty)]
    return ["from", ty, w * 8]


def render(op, oid):
    k, ty, off = op[:3]; sz = TY[ty][0]; i = off // sz; a = "V.%s" % ty
    if k == "load": f = "Atomics.load(%s, %d)" % (a, i)
    elif k == "store": f = "Atomics.store(%s, %d, %s)" % (a, i, lit(ty, op[3]))
    elif k == "cas": f = "Atomics.compareExchange(%s, %d, %s, %s)" % (a, i, "Atomics.load(%s, %d)" % (a, i) if op[3] == "last" else lit(ty, op[3]), lit(ty, op[4]))
    elif k == "get": f = "%s[%d]" % (a, i)
    elif k == "set": f = "(%s[%d] = %s, 0)" % (a, i, lit(ty, op[3]))
    elif k == "fill": f = "(%s.fill(%s, %d, %d), 0)" % (a, lit(ty, op[3]), i, i + 8 // sz)
    elif k == "from": f = "Array.prototype.slice.call(%s, %d, %d).join()" % (a, i, i + 8 // sz)
    else: f = "Atomics.%s(%s, %d, %s)" % (k, a, i, lit(ty, op[3]))
    if k == "cas" and op[3] == "last":
        return "{ const e = Atomics.load(%s, %d); $.log(\"=%s \" + e); op(%s, () => Atomics.compareExchange(%s, %d, e, %s)); }" % (a, i, oid, oid, a, i, lit(ty, op[4]))
    return "op(%s, () => %s);" % (oid, f)


def enc(ty, v):
    return v & ((1 << (TY[ty][0] * 8)) - 1)


def dec(ty, u):
    sz, sg = TY[ty][:2]
    return u - (1 << (sz * 8)) if sg and u >> (sz * 8 - 1) else u


def apply(op, expect, state, ret):
    """state: 64-bit word.  Returns the new state, or None when the result contradicts it."""
    k, ty, off = op[:3]; sz = TY[ty][0]; sh = (off % 8) * 8; m = ((1 << (sz * 8)) - 1)
    cur = (state >> sh) & m
    if k in ("load", "get"): return state if dec(ty, cur) == ret else None
    if k == "set": return state & ~(m << sh) | enc(ty, op[3]) << sh
    if k == "store": return state & ~(m << sh) | enc(ty, op[3]) << sh if ret == op[3] else None
    if dec(ty, cur) != ret: return None
    if k == "cas":
        if enc(ty, expect) == cur: return state & ~(m << sh) | enc(ty, op[4]) << sh
        return state
    v = enc(ty, op[3])
    n = {"add": cur + v, "sub": cur - v, "and": cur & v, "or": cur | v, "xor": cur ^ v, "exchange": v}[k] & m
    return state & ~(m << sh) | n << sh


def linearizable(ops, state0, budget=200000):
    """ops: list of (inv, ret, f) with f(state) -> new state or None.  True, False or None (gave up)."""
    n = len(ops); full = (1 << n) - 1; seen = set(); stack = [(0, state0)]; steps = 0
    while stack:
        done, st = stack.pop()
        if done == full: return True
        if (done, st) in seen: continue
        seen.add((done, st)); steps += 1
        if steps > budget: return None
        first = min(ops[i][1] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or ops[i][0] > first: continue
            s2 = ops[i][2](st)
            if s2 is not None: stack.append((done | 1 << i, s2))
    return False
