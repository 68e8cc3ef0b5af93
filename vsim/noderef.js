// Executable reference model for language-level semantics: the same program and
// the same schedule of host events, on an independent implementation of the
// language.  Reads one JSON case per line, writes one JSON result per line.
"use strict";
const vm = require("vm"), fs = require("fs"), path = require("path");
const prelude = fs.readFileSync(path.join(__dirname, "..", "sim", "prelude.js"), "utf8");
process.on("unhandledRejection", () => {});
process.on("uncaughtException", () => {});
const setImm = setImmediate;
const quiet = () => new Promise(r => setImm(r));
class LoadFail extends Error { get name() { return "?"; } }
async function run(c) {
  const out = []; const exts = []; let np = 0; let oi = 0;
  const probes = new Set(c.probe || []), det = new Set(c.pdetach || []);
  const order = c.order || [];
  let armed = false;
  const sim = {
    log: s => { if (typeof s === "symbol") throw new TypeError(); out.push(String(s).replace(/\n/g, "\x1f")); },
    probe: () => { if (!armed) return 0; const i = np++; return probes.has(i) ? 1 : det.has(i) ? 2 : 0; },
    gc: () => {}, solve: () => { throw new Error("solve not modelled"); },
    detach: b => { if (Object.prototype.toString.call(b) === "[object ArrayBuffer]" && b.byteLength > 0) structuredClone(b, { transfer: [b] }); },
    ext: (n, a, b) => { exts.push({ n: String(n), a, b, live: true }); },
    arm: v => { armed = v === undefined ? true : !!v; }, advance: () => 0, setclock: () => {}, stat: () => 0, malloclimit: () => {}, put: () => {},
  };
  const ctx = vm.createContext({ __sim: sim, escape, unescape });
  sim.realm = () => vm.runInContext("globalThis", vm.createContext({ __sim: sim }));
  sim.evalScript = s => vm.runInContext(s, ctx);
  vm.runInContext(prelude, ctx);
  // modules: the host side of the graph is synchronous, evaluation starts once the microtasks have run
  const files = c.files || {}, mods = new Map();
  const resolve = (spec, base) => { if (spec === "./nolookup") throw new LoadFail("?"); return path.posix.normalize(spec[0] === "/" ? spec : path.posix.join(path.posix.dirname(base), spec)); };
  const dyn = async (spec, ref) => { await quiet(); const m = graph(resolve(spec, ref && ref.identifier || "/sim/x")); for (const f of mods.values()) if (!f.linkRequests && f.status === "unlinked") await f.link(() => {}); if (m.instantiate && (m.status === "unlinked" || m.status === "linking")) m.instantiate(); const done = m.evaluate(); plug(); await done; return m; };
  // V8 restarts its evaluation order counter when the module with the largest number finishes, even while others are
  // pending; a module that never finishes after each evaluation keeps the numbers growing, as the standard has it
  const plug = () => { const d = new vm.SourceTextModule("await new Promise(() => {});", { context: ctx }); d.linkRequests([]); d.instantiate(); d.evaluate(); };
  const graph = root => {
    const fresh = new Map();
    const get = id => {
      if (mods.has(id)) return mods.get(id); if (fresh.has(id)) return fresh.get(id);
      if (!(id in files)) throw new LoadFail("?");
      let m;
      if (id.endsWith(".json")) { let v; try { v = JSON.parse(files[id]); } catch (e) { throw new LoadFail("?"); } m = new vm.SyntheticModule(["default"], function () { this.setExport("default", v); }, { context: ctx, identifier: id }); m.moduleRequests2 = []; }
      else { try { m = new vm.SourceTextModule(files[id], { context: ctx, identifier: id, importModuleDynamically: dyn }); } catch (e) { throw new LoadFail("?"); } m.moduleRequests2 = m.moduleRequests.map(r => resolve(r.specifier, id)); }
      fresh.set(id, m);
      for (const r of m.moduleRequests2) get(r);
      return m;
    };
    const m = get(root);
    for (const [id, f] of fresh) { mods.set(id, f); if (f.linkRequests) f.linkRequests(f.moduleRequests2.map(r => mods.get(r) || fresh.get(r))); }
    return m;
  };
  if (c.prologue) vm.runInContext(c.prologue, ctx);
  armed = true;
  const note = (tag, e) => { let n = "?"; try { n = (e !== null && (typeof e === "object" || typeof e === "function")) ? (typeof e.name === "string" ? e.name : "?") : String(e); } catch (x) {} out.push(tag + " " + n); };
  try { vm.runInContext(c.src, ctx, c.files ? { importModuleDynamically: dyn } : undefined); } catch (e) { note("uncaught", e); }
  const drain = async () => {
    for (let k = 0; k < 100000; k++) {
      await quiet(); if (c.files) { await quiet(); await quiet(); await quiet(); }
      const live = exts.filter(e => e.live); if (!live.length) break;
      const o = oi < order.length ? order[oi] : 0; oi++;
      const e = live[(o >> 2) % live.length], rej = (o & 3) === 3; e.live = false;
      out.push("settle " + e.n + (rej ? " reject" : " fulfil"));
      (rej ? e.b : e.a)(e.n + (rej ? ":r" : ":v"));
    }
    await quiet();
  };
  if (c.drain !== 0) {
    await drain();
    if (typeof ctx.$final === "function") { try { ctx.$final(); } catch (e) { note("uncaught", e); } await drain(); }
  }
  armed = false;
  return { out, np };
}
(async () => {
  const rl = require("readline").createInterface({ input: process.stdin });
  for await (const line of rl) {
    let r; try { r = await run(JSON.parse(line)); } catch (e) { r = { error: String(e && e.stack || e) }; }
    process.stdout.write(JSON.stringify(r) + "\n");
  }
})();
