"""Seeded search, gate, minimisation, replay, evidence: common to every property."""
import argparse, collections, hashlib, json, multiprocessing as mp, os, queue, random, signal, subprocess, sys, time, traceback
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("RATJS_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
NPROC = min(8, os.cpu_count() or 1)


class Outcome:
    """What one case showed.  viol: None or a short stable class of violation."""
    __slots__ = ("viol", "msg", "hash", "nontrivial", "key", "faults", "runs", "sim_us", "detail", "extra")

    def __init__(self):
        self.viol = None; self.msg = ""; self.hash = ""; self.nontrivial = False; self.key = ""
        self.faults = collections.Counter(); self.runs = 0; self.sim_us = 0; self.detail = []; self.extra = collections.Counter()

    def fail(self, cls, msg=""):
        if self.viol is None:
            self.viol, self.msg = cls, msg
        return self


class Env:
    """Simulator servers and reference models of one worker."""
    def __init__(self, exes):
        self.exes = exes; self._s = {}; self._n = None

    def sim(self, flavour="asan", args=("--pre",)):
        from .client import Sim
        k = (flavour, tuple(args))
        if k not in self._s:
            self._s[k] = Sim(self.exes[flavour], args)
        return self._s[k]

    def node(self):
        from .noderef import NodeRef
        if self._n is None:
            self._n = NodeRef()
        return self._n

    def reset(self):
        for s in self._s.values():
            try:
                s.kill()
            except Exception:
                pass
        self._s = {}
        if self._n:
            self._n.close(); self._n = None

    close = reset


def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "include", "gen", "build", "module", "njs"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                try:
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
                except OSError:
                    pass
    for p in [os.path.join(REPO, "Makefile")] + [os.path.join(ROOT, "sim", f) for f in sorted(os.listdir(os.path.join(ROOT, "sim")))]:
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def build(flavours):
    """Build the simulator from /repo's working tree; reuse only an identical tree's build."""
    th = tree_hash(); exes = {}
    os.makedirs(BUILD, exist_ok=True)
    for old in sorted(os.listdir(BUILD)):
        if not old.endswith(th) and "-" in old:
            p = os.path.join(BUILD, old)
            try:
                if time.time() - os.path.getmtime(p) > 5:
                    subprocess.run(["rm", "-rf", p])
            except OSError:
                pass
    for f in flavours:
        d = os.path.join(BUILD, f + "-" + th); e = os.path.join(d, "ratsim")
        if not os.path.exists(os.path.join(d, ".linked")):
            r = subprocess.run([os.path.join(ROOT, "sim", "build.sh"), f, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode or not os.path.exists(e):
                sys.stdout.write(r.stdout.decode("utf-8", "replace")[-4000:])
                raise SystemExit("build of the simulator failed (%s)" % f)
            open(os.path.join(d, ".linked"), "w").close()
        exes[f] = e
    return exes


def get_prop(pid):
    import importlib
    return importlib.import_module("vsim.props." + pid.lower()).PROP


def safe_execute(prop, env, case):
    from .client import SimDied
    for attempt in (0, 1):
        try:
            return prop.execute(env, case)
        except (SimDied, BrokenPipeError, RuntimeError):
            env.reset()
            if attempt:
                raise


def worker(pid, exes, seed, tier, w, limit, deadline, outq, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    prop = get_prop(pid); env = Env(exes)
    agg = collections.Counter(); faults = collections.Counter(); extra = collections.Counter(); keys = set(); samples = []
    n = 0; errs = 0
    try:
        i = w
        while i < limit and time.time() < deadline and not stop.value:
            rng = random.Random("%d/%s/%d" % (seed, pid, i))
            try:
                case = prop.gen(rng, i, tier)
                if case is None:
                    i += NPROC; continue
                o = safe_execute(prop, env, case)
            except Exception:
                errs += 1
                outq.put(("err", i, traceback.format_exc()))
                if errs > 3:
                    break
                i += NPROC; continue
            n += 1; agg["runs"] += o.runs; agg["sim_us"] += o.sim_us; faults.update(o.faults); extra.update(o.extra)
            if o.nontrivial:
                agg["nontrivial"] += 1; keys.add(hashlib.sha256(o.key.encode("utf-8", "surrogateescape")).hexdigest()[:16])
            if len(samples) < 1 and o.nontrivial:
                samples.append({"index": i, "case": prop.brief(case)})
            if o.viol:
                outq.put(("viol", i, case, o.viol, o.msg, o.hash))
            i += NPROC
    finally:
        env.close()
        outq.put(("done", w, n, dict(agg), dict(faults), list(keys), samples, dict(extra)))


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.jsonl"); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def matches_known(k, o_viol, o_msg):
    import re
    return o_viol == k["class"] and re.search(k.get("match", ""), o_msg or "") is not None


def minimise(prop, env, case, cls, budget=90.0):
    """Greedy shrinking of program, schedule and fault trace, keeping the violation class."""
    t0 = time.time(); best = case; steps = 0; progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in prop.shrink(best):
            if time.time() - t0 > budget:
                break
            steps += 1
            try:
                o = safe_execute(prop, env, cand)
            except Exception:
                continue
            if o.viol == cls:
                best = cand; progress = True
                break
    return best, steps


def replay_file(path, exes=None):
    d = json.load(open(path)); pid = d["property"]; prop = get_prop(pid)
    exes = exes or build(prop.flavours); env = Env(exes)
    try:
        o = safe_execute(prop, env, d["case"])
    finally:
        env.close()
    return d, o


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier"); ap.add_argument("--seed", type=int); ap.add_argument("--replay"); ap.add_argument("--quiet-replay", action="store_true")
    ap.add_argument("--cases", type=int); ap.add_argument("--secs", type=float); ap.add_argument("--setup", action="store_true"); ap.add_argument("--one", type=int); ap.add_argument("--all-viol", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, ROOT)
    if a.setup:
        build(["asan", "threads"]); print("setup ok"); return 0
    if a.replay:
        d, o = replay_file(a.replay)
        print(json.dumps({"property": d["property"], "class": o.viol, "msg": o.msg, "hash": o.hash}))
        if not a.quiet_replay:
            for l in o.detail[:200]:
                print("   ", l)
        if o.viol:
            print("VIOLATION property=%s replay=%s" % (d["property"], a.replay)); return 1
        return 0
    pid = a.prop; tier = a.tier or os.environ.get("VERIF_TIER", "quick"); seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time(); prop = get_prop(pid); exes = build(prop.flavours); tb = time.time()
    if a.one is not None:
        rng = random.Random("%d/%s/%d" % (seed, pid, a.one)); c = prop.gen(rng, a.one, tier); env = Env(exes); o = safe_execute(prop, env, c); env.close()
        print(json.dumps(c, indent=1)); print(o.viol, o.msg, o.hash); print("\n".join(o.detail[:400])); return 0
    limit = a.cases or (prop.quick_cases if tier == "quick" else prop.thorough_cases)
    secs = a.secs or (prop.quick_secs if tier == "quick" else prop.thorough_secs)
    known = load_known(pid); rc = 0; knownseen = set()
    for k in known:
        env = Env(exes)
        try:
            o = safe_execute(prop, env, json.load(open(os.path.join(ROOT, k["replay"])))["case"])
        finally:
            env.close()
        if o.viol and matches_known(k, o.viol, o.msg):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        elif o.viol:
            print("note: listed finding now fails differently: %s %s" % (o.viol, o.msg))
        else:
            print("note: listed finding no longer reproduces: %s" % k["what"])
    # ---- search ----
    ctx = mp.get_context("fork"); outq = ctx.Queue(); stop = ctx.Value("i", 0); deadline = time.time() + secs
    ps = [ctx.Process(target=worker, args=(pid, exes, seed, tier, w, limit, deadline, outq, stop)) for w in range(NPROC)]
    for p in ps: p.start()
    done = 0; tot = collections.Counter(); faults = collections.Counter(); extra = collections.Counter(); keys = set(); samples = []; viols = []; errors = []; evals = 0; nkn = 0
    while done < NPROC:
        try:
            m = outq.get(timeout=2)
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and outq.empty():
                break
            continue
        if m[0] == "done":
            done += 1; evals += m[2]; tot.update(m[3]); faults.update(m[4]); keys.update(m[5]); samples += m[6]; extra.update(m[7])
        elif m[0] == "err":
            errors.append(m)
        else:
            if any(matches_known(k, m[3], m[4]) for k in known):
                nkn += 1; continue
            viols.append(m)
            if not a.all_viol and len(viols) >= 8:
                stop.value = 1
    for p in ps: p.join(5)
    search = max(time.time() - tb, 1e-6)
    viols.sort(key=lambda v: v[1])
    # ---- gate, minimise, report ----
    confirmed = []; flaky = []; seen = set()
    if viols:
        env = Env(exes)
        for v in viols:
            _, idx, case, cls, msg, hsh = v
            if cls in seen or len(confirmed) >= 3:
                continue
            o1 = safe_execute(prop, env, case); env.reset(); o2 = safe_execute(prop, env, case)
            if not (o1.viol == o2.viol == cls) or o1.hash != o2.hash:
                flaky.append((idx, cls, msg, o1.viol, o2.viol, o1.hash, o2.hash)); continue
            seen.add(cls)
            small, steps = minimise(prop, env, case, cls, 60.0 if not confirmed else 20.0)
            os1 = safe_execute(prop, env, small)
            if os1.viol == cls and any(matches_known(k, cls, os1.msg) for k in known):
                nkn += 1; continue
            rd = os.path.join(ROOT, "replays"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%d-%d.json" % (pid, seed, idx))
            json.dump({"property": pid, "seed": seed, "index": idx, "class": cls, "message": os1.msg, "hash": os1.hash, "shrink_steps": steps, "case": small, "detail": os1.detail[:120]}, open(rp, "w"), indent=1)
            r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "--replay", rp, "--quiet-replay"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            try:
                j = json.loads(r.stdout.decode().split("\n")[0])
            except Exception:
                j = {}
            if j.get("class") != cls or j.get("hash") != os1.hash:
                flaky.append((idx, cls, "fresh-process replay differs", r.stdout.decode()[-300:])); continue
            confirmed.append((idx, cls, os1.msg, rp))
        env.close()
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(keys), "rule": prop.rule, "samples": samples[:6] or [{"none": True}],
            "simulated_runs": tot["runs"], "seeds": evals, "simulated_runs_per_hour": int(tot["runs"] / search * 3600), "seeds_per_hour": int(evals / search * 3600),
            "simulated_time_seconds": round(tot["sim_us"] / 1e6, 3), "faults_fired": {str(k): v for k, v in sorted(faults.items())},
            "distinct_measure": prop.distinct_measure, "real_components": prop.real, "stub_components": prop.stubs, "measured": {str(k): v for k, v in sorted(extra.items())},
            "case_limit": limit, "time_limit_s": secs, "known_findings_met": nkn,
        },
        "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d simulated runs, %d distinct non-trivial, faults %s, build %.1fs, search %.1fs" % (pid, tier, seed, evals, tot["runs"], len(keys), dict(faults), tb - t0, search))
    if a.all_viol:
        print("   cases", [(v[1], v[3][:40]) for v in viols][:60])
        c = collections.Counter((v[3]) for v in viols)
        for k, n in c.most_common(): print("   ", n, k)
    for idx, cls, msg, rp in confirmed:
        print("  violation at seed %d case %d: %s: %s" % (seed, idx, cls, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if confirmed:
        return 1
    if flaky:
        print("ERROR: violation not reproducible: %r" % (flaky[:3],)); return 2
    if errors:
        print("ERROR: %d cases could not be run: %s" % (len(errors), errors[0][2][-1500:])); return 2
    if evals == 0:
        print("ERROR: nothing was run"); return 2
    return 0
