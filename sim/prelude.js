globalThis.$ = (function () {
  const S = globalThis.__sim, P = Promise, A = Array, E = Error, J = JSON, O = Object, Str = String;
  const $ = {};
  class SimFault extends E { get name() { return "SimFault"; } }
  $.SimFault = SimFault;
  $.targets = [];
  const show = $.show = function (v, d) {
    d = d === undefined ? 3 : d;
    switch (typeof v) {
      case "string": return J.stringify(v);
      case "number": return O.is(v, -0) ? "-0" : Str(v);
      case "bigint": return Str(v) + "n";
      case "symbol": return Str(v.description);
      case "function": return "fn:" + v.name;
      case "object":
        if (v === null) return "null";
        if (v instanceof E) return "E:" + v.name;
        if (A.isArray(v)) { if (d <= 0) return "[..]"; let s = "["; for (let i = 0; i < v.length; i++) s += (i ? "," : "") + (i in v ? show(v[i], d - 1) : ""); return s + "]"; }
        if (d <= 0) return "{..}";
        { let s = "{", f = 0; for (const k of O.keys(v)) { s += (f++ ? "," : "") + k + ":" + show(v[k], d - 1); } return s + "}"; }
      default: return Str(v);
    }
  };
  $.raw = s => S.log(s);
  $.log = function () { let s = ""; for (let i = 0; i < arguments.length; i++) { const a = arguments[i]; s += (i ? " " : "") + (typeof a === "string" ? a : show(a)); } S.log(s); };
  $.err = e => (e instanceof E || (e && typeof e === "object" && "name" in e)) ? Str(e.name) : "v:" + show(e);
  $.p = function (v) {
    const c = S.probe();
    if (c === 1) throw new SimFault("fault");
    if (c === 2) for (let i = 0; i < $.targets.length; i++) S.detach($.targets[i]);
    return v;
  };
  $.try = function (name, f) { try { $.log(name, "=>", f()); } catch (e) { $.log(name, "!>", $.err(e)); } };
  $.gc = () => S.gc();
  $.solve = () => S.solve();
  $.detach = b => S.detach(b);
  $.ext = name => new P((a, b) => S.ext(name, a, b));
  $.realm = () => S.realm();
  $.arm = v => S.arm(v);
  $.advance = v => S.advance(v);
  $.setclock = v => S.setclock(v);
  $.stat = v => S.stat(v);
  $.malloclimit = v => S.malloclimit(v);
  $.evalScript = v => S.evalScript(v);
  $.put = (a, b) => S.put(a, b);
  return $;
})();
