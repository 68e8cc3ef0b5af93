"""Command lines over generated source files: modules, JSON modules, scripts, included scripts."""

CH = ["é", "ж", "中", "€", "😀", "𐍈", "ß", "z", "A", "0", " ", "~", "ÿ", "\u2028", "한", "\ufffd", "\U0010ffff"]


def text(rng, n):
    k = rng.random()
    if k < .2: return "".join(rng.choice("abcdefghij ") for _ in range(n))
    if k < .5:
        c = rng.choice(CH); return c * n
    return "".join(rng.choice(CH) for _ in range(n))


def digest(s):
    h = 0; b = s.encode("utf-16-le")
    for i in range(0, len(b), 2): h = (h * 31 + b[i] + 256 * b[i + 1]) % 1000003
    return h


def size(rng):
    return rng.choice([0, 3, 20, rng.randrange(100), rng.randrange(300, 400), rng.randrange(500, 520), rng.randrange(1000, 1030), rng.randrange(2500), rng.randrange(4000, 5000)])


def spec_name(rng, frm, to, m):
    """A way to write an import of `to` in a file in directory frm."""
    d, b = to.rsplit("/", 1)
    if rng.random() < .4 and not to.endswith(".json"): b = b[:-3]
    k = rng.random()
    if frm is None or k < .15: return d + "/" + b
    if k < .25: return rng.choice(["/sim/lib/../", "/sim/./"]) .rstrip("/") + d[4:] + "/" + b
    if d == frm: return rng.choice(["./", "./", "./././", "../" + frm.rsplit("/", 1)[1] + "/"]) + b
    if frm == "/sim": return "./" + d[5:] + "/" + b
    up = "../"
    return up + (d[5:] + "/" if d != "/sim" else "") + b


def gen(rng, faults):
    nm = rng.randint(1, 6)
    mods = []
    for i in range(nm):
        d = rng.choice(["/sim", "/sim", "/sim/lib", "/sim/pkg"])
        mods.append({"i": i, "path": "%s/m%d.js" % (d, i)})
    js = [{"i": 90 + j, "path": "%s/d%d.json" % (rng.choice(["/sim", "/sim/lib"]), j), "txt": text(rng, size(rng)).replace("\u2028", "u"), "bad": rng.random() < .1} for j in range(rng.randint(0, 2))]
    mdirs = []
    for d in rng.sample(["lib", "/sim/pkg", "none", "./lib"], rng.randint(0, 3)): mdirs.append(d)
    real = ["/sim/" + d if d != "./lib" and d[0] != "/" else ("/sim/lib" if d == "./lib" else d) for d in mdirs]
    shadow = None
    def refer(rng, frm, m, runtime=False):
        p = m["path"]; d, b = p.rsplit("/", 1)
        if d in real and rng.random() < .4:
            return b if rng.random() < .5 or p.endswith(".json") else b[:-3]
        return spec_name(rng, frm, p, m)
    bad = rng.random() < .2
    for m in mods:
        frm = m["path"].rsplit("/", 1)[0]
        reqs = []
        for t in mods:
            if t is m: continue
            pr = .35 if t["i"] > m["i"] else .1
            if m["i"] and t["i"] == 0: pr = .06
            if rng.random() < pr: reqs.append([t["i"], refer(rng, frm, t)])
        for t in js:
            if rng.random() < .15: reqs.append([t["i"], refer(rng, frm, t)])
        if rng.random() < .03: reqs.append([-1, rng.choice(["./nosuch.js", "nosuch", "/sim/nosuch", "./nosuch.json"])])
        rng.shuffle(reqs)
        if reqs and rng.random() < .1: reqs.append([reqs[0][0], refer(rng, frm, ([x for x in mods + js if x["i"] == reqs[0][0]] or [mods[0]])[0])] if reqs[0][0] >= 0 else list(reqs[0]))
        m["reqs"] = reqs
        # how each request is used: value, bare, nosuch name
        for r in reqs:
            r.append("bare" if rng.random() < .25 else "bad" if bad and rng.random() < .2 and 0 <= r[0] < 90 else "val")
        st = [["B"]]
        if rng.random() < .8: st.append(["dig", text(rng, size(rng))])
        st.append(["let"])
        for r in reqs:
            if r[2] == "val" and rng.random() < .8: st.append(["use", r[0], reqs.index(r)])
        if rng.random() < .12: st.append(["throw"])
        tail = st[1:]; rng.shuffle(tail)
        if not any(x[0] == "let" for x in tail): tail.append(["let"])
        m["st"] = [["B"]] + tail + [["E"]]
        m["syntax"] = rng.random() < .05
        m["pad"] = [rng.random() < .5 and text(rng, size(rng)).replace("\u2028", "-") or "" for _ in range(2)]
        m["bom"] = rng.random() < .05; m["nl"] = rng.choice(["\n", "\n", "\n", "\r\n", "\r", "\u2028"])
        m["block"] = rng.random() < .5
    def dyn(frm):
        l = []
        for _ in range(rng.randint(0, 4)):
            c = [m for m in mods + js]
            t = rng.choice(c)
            l.append(["import", t["i"], refer(rng, frm, t, True)] if rng.random() < .93 else ["import", -1, "./nosuch"])
            if rng.random() < .3: l.append(list(l[-1]))
        return l
    def mainfn(frm, who):
        return {"who": who, "async": rng.random() < .7, "dyn": dyn(frm), "addmod": rng.random() < .1, "ret": rng.choice([["num", rng.randrange(0, 200)], ["num", rng.randrange(0, 200)], ["str"], ["undef"], ["throw"], ["pnum", rng.randrange(0, 200)], ["prej"], ["num", 0]]), "exp": rng.random() < .6}
    incs = []
    for j in range(rng.randint(0, 2) if rng.random() < .5 else 0):
        incs.append({"i": 50 + j, "path": "/sim/inc%d.js" % j, "dig": text(rng, size(rng)), "throw": rng.random() < .08, "syntax": rng.random() < .05, "pad": text(rng, size(rng)).replace("\u2028", "-") if rng.random() < .4 else "", "nl": rng.choice(["\n", "\r\n"])})
    kind = rng.choice(["module", "module", "module", "script", "script", "eval"])
    opts = [["m", d] for d in mdirs]
    rest = [["i", j["i"]] for j in incs]
    for m in mods:
        if rng.random() < .15:
            d, b = m["path"].rsplit("/", 1)
            if d in real: rest.append(["l", m["i"], rng.choice([b, b[:-3]])])
            else: rest.append(["l", m["i"], rng.choice([m["path"], m["path"][:-3]])])
    if rng.random() < .03: rest.append(["l", -1, "nosuch"])
    if rng.random() < .03: rest.append(["i", -1])
    rng.shuffle(rest); opts += rest
    if kind == "script": opts.insert(rng.randint(0, len(opts)), ["s"])
    if rng.random() < .1: opts.insert(rng.randint(0, len(opts)), ["strict"])
    if rng.random() < .06: opts.insert(rng.randint(0, len(opts)), ["c"])
    scr = {"i": 60, "path": "/sim/main.js", "dig": text(rng, size(rng)), "pad": text(rng, size(rng)).replace("\u2028", "-") if rng.random() < .4 else "", "syntax": rng.random() < .04, "throw": rng.random() < .06, "nl": "\n", "glob": [m["i"] for m in mods] + [j["i"] for j in incs], "num": rng.choice([None, rng.randrange(100)])}
    entry = {"module": 0, "script": 60, "eval": None}[kind]
    mf = None
    if rng.random() < .75: mf = mainfn({"module": mods[0]["path"].rsplit("/", 1)[0], "script": "/sim", "eval": None}[kind], kind)
    if kind == "module" and rng.random() < .02: entry = -1
    argv = [rng.choice(["x", "--strict", "-s", "ярлык", "a b", "", "😀"]) for _ in range(rng.randint(0, 3))]
    return {"mods": mods, "js": js, "incs": incs, "scr": scr, "kind": kind, "opts": opts, "entry": entry, "main": mf, "argv": argv, "fname": rng.choice(["", "./", "/sim/", "lib/../"])}


# ---------------------------------------------------------------- text
def q(s):
    return "\"" + s + "\""

DIG = "((S) => { let h = 0; for (let c = 0; c < S.length; c++) h = (h * 31 + S.charCodeAt(c)) %% 1000003; return S.length + '/' + h; })(%s)"


def pad(s, block):
    return ("/*" + s.replace("*", "+").replace("/", "|") + "*/") if block else "//" + s


def main_text(mf):
    l = ["%s%sfunction main(...args) {" % ("export " if mf["exp"] and mf["who"] == "module" else "", "async " if mf["async"] else ""),
         "print('main ' + args.slice(1).join('|') + ' ' + args.length + '\\n');"]
    if mf["async"]:
        if mf["addmod"]: l.append("addModuleDirectory('/sim/late');")
        for _, t, s in mf["dyn"]:
            l.append("try { let n = await import(%s); print('I %d ' + (%s) + '\\n'); } catch (e) { print('X %d ' + (e instanceof Error ? 'error' : e) + '\\n'); }" % (q(s), t, "n.default.k.length" if t >= 90 else "n.f%d() + ' ' + Object.keys(n).join()" % t, t))
        if mf["addmod"]: l.append("try { let n = await import('late'); print('late ' + n.z + '\\n'); } catch (e) { print('nolate ' + (e instanceof Error) + '\\n'); }")
    r = mf["ret"]
    l.append({"num": "return %d;" % (r + [0])[1], "str": "return 'str';", "undef": "", "throw": "throw 'mainthrow';", "pnum": "return Promise.resolve(%d);" % (r + [0])[1], "prej": "return Promise.reject('mainreject');"}[r[0]])
    l.append("}")
    return l


def mod_text(c, m):
    i = m["i"]; l = []
    if m["pad"][0]: l.append(pad(m["pad"][0], m["block"]))
    for k, (t, s, u) in enumerate(m["reqs"]):
        l.append("import %s;" % q(s) if u == "bare" or t < 0 else "import {nosuch as z%d} from %s;" % (k, q(s)) if u == "bad" else "import r%d from %s;" % (k, q(s)) if t >= 90 else "import {v%d as r%d, f%d as g%d} from %s;" % (t, k, t, k, q(s)))
    l.append("export function f%d() { return 'f%d'; }" % (i, i))
    for s in m["st"]:
        k = s[0]
        if k in "BE": l.append("print('%s %d\\n');" % (k, i))
        elif k == "dig": l.append("print('D %d ' + %s + '\\n');" % (i, DIG % q(s[1])))
        elif k == "let": l.append("export let v%d = 'v%d';" % (i, i))
        elif k == "throw": l.append("throw 'T%d';" % i)
        elif s[1] >= 90: l.append("print('J %d %d ' + %s + '\\n');" % (i, s[1], DIG % ("r%d.k" % s[2])))
        else: l.append("{ let x; try { x = r%d; } catch (e) { x = e.name; } print('V %d %d ' + x + ' ' + g%d() + '\\n'); }" % (s[2], i, s[1], s[2]))
    if m["pad"][1]: l.append(pad(m["pad"][1], not m["block"]))
    if c["kind"] == "module" and i == c["entry"] and c["main"]: l += main_text(c["main"])
    if m["syntax"]: l.append("let = = ;")
    return ("\ufeff" if m["bom"] else "") + m["nl"].join(l) + m["nl"]


def scr_text(c, m, mf):
    i = m["i"]; l = []
    if m["pad"]: l.append(pad(m["pad"], True))
    l.append("print('B %d\\n'); var g%d = %d;" % (i, i, i))
    l.append("print('D %d ' + %s + '\\n');" % (i, DIG % q(m["dig"])))
    for g in m.get("glob") or []:
        n = "v%d" % g if g < 50 else "g%d" % g
        l.append("print('G %d ' + (typeof %s === 'undefined' ? 'none' : %s) + '\\n');" % (g, n, n))
    if m["throw"]: l.append("throw 'T%d';" % i)
    if mf: l += main_text(mf)
    if m["syntax"]: l.append("let = = ;")
    l.append("print('E %d\\n');" % i)
    if m.get("num") is not None: l.append("%d;" % m["num"])
    return m["nl"].join(l) + m["nl"]


def files(c):
    F = {}
    for m in c["mods"]: F[m["path"]] = mod_text(c, m)
    for j in c["js"]: F[j["path"]] = "{\"k\": " + q(j["txt"]) + ("}" if not j["bad"] else "]")
    for m in c["incs"]: F[m["path"]] = scr_text(c, m, None)
    if c["kind"] == "script": F["/sim/main.js"] = scr_text(c, c["scr"], c["main"])
    F["/sim/late/late.js"] = "export let z = 'zz';"
    return F


def args(c):
    a = ["ratjs"]
    for o in c["opts"]:
        if o[0] == "m": a += ["-m", o[1]]
        elif o[0] == "l": a += ["-l", o[2]]
        elif o[0] == "i": a += ["-i", "inc%d.js" % (o[1] - 50) if o[1] >= 0 else "nosuch.js"]
        elif o[0] == "strict": a.append("--strict")
        else: a.append("-" + o[0])
    if c["kind"] == "eval": a += ["-e", scr_text(c, c["scr"], c["main"])]
    else: a.append((c["fname"] + (next(m["path"] for m in c["mods"] if m["i"] == 0)[5:] if c["kind"] == "module" else "main.js")) if c["entry"] != -1 else "nosuch.js")
    return a + c["argv"] if c["kind"] != "eval" else a + [x for x in c["argv"] if not x.startswith("-")]
