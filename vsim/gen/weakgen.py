"""Programs over weak references, finalization registries and weak collections, run as a list of
operations split into jobs; every operation logs what it saw so that a checker outside the engine
can replay it on a small reachability model."""
SRC = r"""
const O=[],W=[],R=[],M=[],S=[]; let ids=0, cells=0; const idof=new Map();
const LBL=Symbol("id"); let cbops=[];
class K1 { #p={z:1}; get p(){ return this.#p; } }
function mk(kind){ let o; switch(kind){
 case 1: o=[1,2]; break; case 2: o=()=>kind; break; case 3: o=new Map([[1,2]]); break; case 4: o=new K1; break; case 5: o=Promise.resolve(1); break;
 case 6: o=new Proxy({},{}); break; case 7: o=(function*(){ yield 1; })(); o.next(); break; case 8: o=new Uint8Array(8); break; case 9: o=/x/g; break; case 10: o=function(){}.bind(null); break;
 case 11: o=new WeakMap; break; case 12: o=new Date(0); break; case 13: o=class { static x=1; }; break; case 14: o=(function(){ return arguments; })(1,2); break; case 15: o=async()=>1; break; default: o={}; }
 o[LBL]=++ids; return o; }
const id=o=>o===undefined?0:o[LBL];
function cb(h){ $.log("cb "+h.c); const q=cbops.shift(); if(q) run(q,"cb"); if(h.t) throw new TypeError("cb"); }
function run(ops,where){ for(const q of ops){ const [op,a,b,c,d]=q; switch(op){
 case "new": O[a]=mk(b); $.log("new "+a+" "+id(O[a])); break;
 case "drop": O[a]=undefined; $.log("drop "+a); break;
 case "link": if(O[a]&&O[b]){ O[a]["e"+c]=O[b]; $.log("link "+id(O[a])+" "+c+" "+id(O[b])); } break;
 case "unlink": if(O[a]){ delete O[a]["e"+b]; $.log("unlink "+id(O[a])+" "+b); } break;
 case "go": if(O[a]&&O[a]["e"+b]){ O[c]=O[a]["e"+b]; $.log("copy "+c+" "+id(O[c])); } break;
 case "wr": if(O[b]){ W[a]=new WeakRef(O[b]); $.log("wr "+a+" "+id(O[b])); } break;
 case "deref": if(W[a]){ $.log("deref "+a+" "+id(W[a].deref())); } break;
 case "take": if(W[a]){ const t=W[a].deref(); $.log("deref "+a+" "+id(t)); if(t){ O[b]=t; $.log("copy "+b+" "+id(t)); } } break;
 case "fr": R[a]=new FinalizationRegistry(cb); $.log("fr "+a); break;
 case "frdrop": R[a]=undefined; $.log("frdrop "+a); break;
 case "reg": if(R[a]&&O[b]){ const n=++cells, h={c:n}; if(d===1) h.t=1; if(c>=0&&O[c]){ R[a].register(O[b],h,O[c]); $.log("reg "+a+" "+n+" "+id(O[b])+" "+id(O[c])); } else { R[a].register(O[b],h); $.log("reg "+a+" "+n+" "+id(O[b])+" 0"); } } break;
 case "unreg": if(R[a]&&O[b]){ $.log("unreg "+a+" "+id(O[b])+" "+R[a].unregister(O[b])); } break;
 case "wm": M[a]=new WeakMap; $.log("wm "+a); break;
 case "wmdrop": M[a]=undefined; $.log("wmdrop "+a); break;
 case "wms": if(M[a]&&O[b]&&O[c]){ M[a].set(O[b],O[c]); $.log("wms "+a+" "+id(O[b])+" "+id(O[c])); } break;
 case "wmnew": if(M[a]&&O[b]){ const v=mk(c); M[a].set(O[b],v); $.log("mk "+id(v)); $.log("wms "+a+" "+id(O[b])+" "+id(v)); if(d>=0){ W[d]=new WeakRef(v); $.log("wr "+d+" "+id(v)); } if(q[5]){ v.e0=O[b]; $.log("link "+id(v)+" 0 "+id(O[b])); } } break;
 case "wmg": if(M[a]&&O[b]){ $.log("wmg "+a+" "+id(O[b])+" "+id(M[a].get(O[b]))+" "+M[a].has(O[b])); } break;
 case "wmt": if(M[a]&&O[b]){ const t=M[a].get(O[b]); $.log("wmg "+a+" "+id(O[b])+" "+id(t)+" "+M[a].has(O[b])); if(t){ O[c]=t; $.log("copy "+c+" "+id(t)); } } break;
 case "wmd": if(M[a]&&O[b]){ $.log("wmd "+a+" "+id(O[b])+" "+M[a].delete(O[b])); } break;
 case "ws": S[a]=new WeakSet; $.log("ws "+a); break;
 case "wsa": if(S[a]&&O[b]){ S[a].add(O[b]); $.log("wsa "+a+" "+id(O[b])); } break;
 case "wsh": if(S[a]&&O[b]){ $.log("wsh "+a+" "+id(O[b])+" "+S[a].has(O[b])); } break;
 case "wsd": if(S[a]&&O[b]){ $.log("wsd "+a+" "+id(O[b])+" "+S[a].delete(O[b])); } break;
 case "gc": $.log("gc"); $.gc(); break;
 case "junk": { let j=[]; for(let i=0;i<a;i++) j.push({i}); break; }
 case "micro": Promise.resolve().then(()=>{ $.log("job"); run(b,"micro"); }); break;
 } } }
"""


class WG:
    def __init__(self, rng, weights, nslots=6):
        self.r = rng; self.w = weights; self.ns = nslots

    def op(self, depth=0):
        r = self.r; n = self.ns; k = r.choices(list(self.w), list(self.w.values()))[0]; s = lambda: r.randrange(n)
        kind = lambda: r.choice([0, 0, 0] + list(range(16)))
        if k == "new": return ["new", s(), kind()]
        if k == "drop": return ["drop", s()]
        if k == "link": return ["link", s(), s(), r.randrange(3)]
        if k == "unlink": return ["unlink", s(), r.randrange(3)]
        if k == "go": return ["go", s(), r.randrange(3), s()]
        if k == "wr": return ["wr", r.randrange(5), s()]
        if k == "deref": return ["deref", r.randrange(5)]
        if k == "take": return ["take", r.randrange(5), s()]
        if k in ("fr", "frdrop"): return [k, r.randrange(3)]
        if k == "reg": return ["reg", r.randrange(3), s(), r.choice([-1, -1, s(), s(), s()]), 1 if r.random() < .1 else 0]
        if k == "unreg": return ["unreg", r.randrange(3), s()]
        if k in ("wm", "wmdrop"): return [k, r.randrange(3)]
        if k == "wms": return ["wms", r.randrange(3), s(), s()]
        if k == "wmnew": return ["wmnew", r.randrange(3), s(), kind(), r.choice([-1, r.randrange(5), r.randrange(5)]), int(r.random() < .4)]
        if k == "wmg": return ["wmg", r.randrange(3), s()]
        if k == "wmt": return ["wmt", r.randrange(3), s(), s()]
        if k == "wmd": return ["wmd", r.randrange(3), s()]
        if k == "ws": return ["ws", r.randrange(2)]
        if k in ("wsa", "wsh", "wsd"): return [k, r.randrange(2), s()]
        if k == "gc": return ["gc"]
        if k == "junk": return ["junk", r.randrange(1, 12)]
        if k == "micro": return ["micro", 0, self.ops(r.randint(1, 5), depth + 1)] if depth < 2 else ["gc"]
        raise AssertionError(k)

    def ops(self, n, depth=0):
        return [self.op(depth) for _ in range(n)]

    def case(self):
        r = self.r
        init = [["new", i, r.randrange(16)] for i in range(self.ns)] + ([["fr", i] for i in range(3)] if "fr" in self.w else []) + ([["wm", i] for i in range(3)] + [["ws", 0], ["ws", 1]] if "wm" in self.w else [])
        jobs = [init] + [self.ops(r.randint(1, 9)) for _ in range(r.randint(2, 14))]
        cbops = [self.ops(r.randint(0, 4), 1) for _ in range(r.randint(0, 6))]
        return {"jobs": jobs, "cbops": cbops}


def source(case):
    import json
    return SRC + "\ncbops=" + json.dumps(case["cbops"]) + ";\nlet pp=Promise.resolve();\nfor(const j of " + json.dumps(case["jobs"]) + """) pp=pp.then(()=>{ $.log("job"); run(j,"job"); });
globalThis.$final=()=>{ $.log("job"); for(let i=0;i<O.length;i++){ O[i]=undefined; $.log("drop "+i); } $.gc(); let q=Promise.resolve(); for(let k=0;k<4;k++) q=q.then(()=>{ $.log("job"); cbops.length=0; for(let i=0;i<O.length;i++){ O[i]=undefined; $.log("drop "+i); } $.gc(); }); };
globalThis.$check=()=>{ $.log("check"); for(let i=0;i<W.length;i++) if(W[i]) $.log("deref "+i+" "+id(W[i].deref())); };
"""


class Model:
    """Replays the log; raises Bad on the first event the semantics does not allow."""
    class Bad(Exception):
        pass

    def __init__(self):
        self.O = {}; self.edges = {}; self.W = {}; self.dead = set(); self.kept = set(); self.cells = {}; self.regs = {}; self.M = {}; self.S = {}
        self.nreg = 0; self.final = False; self.stats = {"deaths seen": 0, "callbacks": 0, "unregistered": 0, "weak map reads": 0}

    def bad(self, m):
        raise Model.Bad(m)

    def reach(self):
        seen = set(); st = [v for v in self.O.values() if v] + list(self.kept)
        while st:
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); st += [v for v in self.edges.get(x, {}).values()]
            for m in self.M.values():            # live weak maps keep the value of every live key
                for k, v in m.items():
                    if k in seen and v not in seen: st.append(v)
        return seen

    def feed(self, line):
        p = line.split(" "); op = p[0]; a = [int(x) if x.lstrip("-").isdigit() else x for x in p[1:]]
        if op == "job": self.kept = set()
        elif op == "new": self.O[a[0]] = a[1]
        elif op == "mk": pass
        elif op == "drop": self.O[a[0]] = 0
        elif op == "copy": self.O[a[0]] = a[1]
        elif op == "link": self.edges.setdefault(a[0], {})[a[1]] = a[2]
        elif op == "unlink": self.edges.get(a[0], {}).pop(a[1], None)
        elif op == "wr": self.W[a[0]] = a[1]; self.kept.add(a[1])
        elif op == "deref":
            t = self.W[a[0]]
            if a[1] == 0:
                if t in self.reach(): self.bad("weak reference to reachable object %d is empty" % t)
                if t not in self.dead: self.stats["deaths seen"] += 1
                self.dead.add(t)
            else:
                if a[1] != t: self.bad("weak reference to object %d gave object %d" % (t, a[1]))
                if t in self.dead: self.bad("object %d came back after it was seen dead" % t)
                if self.final and t not in self.reach(): self.bad("unreachable object %d is still there after repeated collections" % t)
                self.kept.add(t)
        elif op == "fr": self.nreg += 1; self.regs[a[0]] = self.nreg
        elif op == "frdrop": self.regs[a[0]] = 0
        elif op == "reg": self.cells[a[1]] = {"r": self.regs[a[0]], "t": a[2], "tok": a[3], "st": "active"}
        elif op == "unreg":
            n = 0
            for c in self.cells.values():
                if c["r"] == self.regs[a[0]] and c["tok"] == a[1] and c["st"] == "active": c["st"] = "unregistered"; n += 1
            self.stats["unregistered"] += n
            if (n > 0) != (a[2] == "true"): self.bad("unregister of token %d returned %s with %d registrations" % (a[1], a[2], n))
        elif op == "cb":
            self.kept = set()
            c = self.cells.get(a[0])
            if c is None: self.bad("clean-up of unknown registration %s" % a[0])
            if c["st"] != "active": self.bad("clean-up of registration %d which is already %s" % (a[0], c["st"]))
            if c["t"] in self.reach(): self.bad("clean-up of registration %d while its target %d is reachable" % (a[0], c["t"]))
            c["st"] = "called"; self.stats["callbacks"] += 1; self.dead.add(c["t"])
        elif op == "wm": self.M[a[0]] = {}
        elif op == "wmdrop": self.M.pop(a[0], None)
        elif op == "wms": self.M[a[0]][a[1]] = a[2]
        elif op == "wmg":
            v = self.M[a[0]].get(a[1], 0); self.stats["weak map reads"] += 1
            if v != a[2] or (v != 0) != (a[3] == "true"): self.bad("weak map %d at key %d: got %s/%s, want %d" % (a[0], a[1], a[2], a[3], v))
        elif op == "wmd":
            v = self.M[a[0]].pop(a[1], 0)
            if (v != 0) != (a[2] == "true"): self.bad("weak map delete at key %d gave %s" % (a[1], a[2]))
        elif op == "ws": self.S[a[0]] = set()
        elif op == "wsa": self.S[a[0]].add(a[1])
        elif op == "wsh":
            if (a[1] in self.S[a[0]]) != (a[2] == "true"): self.bad("weak set %d at %d: has is %s" % (a[0], a[1], a[2]))
        elif op == "wsd":
            if (a[1] in self.S[a[0]]) != (a[2] == "true"): self.bad("weak set %d at %d: delete is %s" % (a[0], a[1], a[2]))
            self.S[a[0]].discard(a[1])
        elif op == "check":
            self.kept = set(); self.final = True; live = {v for v in self.regs.values() if v}; rs = self.reach()
            for n, c in self.cells.items():
                if c["st"] == "active" and c["r"] in live and c["t"] not in rs: self.bad("target %d of registration %d is unreachable but clean-up never ran" % (c["t"], n))
        elif op in ("gc",): pass
        else: self.bad("unexpected: " + line)
