//@ closures_loop
let fs=[]; for(let i=0;i<6;i++){ fs.push(()=>{ i+=1; return $.p({i}).i; }); }
$.log(fs.map(f=>f()), fs.map(f=>f()));
for(const k in {a:1,b:2,c:3}) fs.push(()=>k+"!"); $.log(fs.slice(6).map(f=>f()));
for (const [a,{b=[a]}] of [[1,{}],[2,{b:7}]]) fs.push(()=>[a,b]); $.log(fs.slice(9).map(f=>f()));
//@ obj_accessors
let store={}; let o={ get x(){ return $.p(store.x||["init"]); }, set x(v){ store.x=[$.p(v),{w:v}]; }, ["k"+1]: {z:[1,2]}, m(){ return [...arguments, super.toString===Object.prototype.toString]; } };
$.log(o.x); o.x={q:"s"+1}; $.log(o.x, o.k1, o.m(1,{a:2}));
Object.defineProperty(o,"h",{get(){return {n:$.p(5)};},enumerable:true,configurable:true}); $.log(Object.keys(o), o.h);
let o2={...o, extra:[1,,3]}; $.log(o2); delete o2.x; $.log(Object.entries(o2));
//@ destructuring
let {a, b:{c=[$.p(9)], ...r1}={}, ...rest}={a:[1],b:{d:4,e:{f:5}},g:"gg",h:[7]}; $.log(a,c,r1,rest);
let [x,,y=[$.p("dy")],...z]=(function*(){ yield {v:1}; yield 2; yield undefined; yield* ["p","q",{r:1}]; })(); $.log(x,y,z);
function f({p=[1],q:{r}={r:{s:$.p(3)}}}={}, ...more){ return [p,r,more]; } $.log(f(), f({p:2},{t:1},[5]));
let m={}; [m.a,m["b"+1],...m.c]=[{k:1},[2],3,{l:4}]; $.log(m); ({x:m.x=[8],...m.rest}={y:{z:1},w:2}); $.log(m);
//@ classes
class A { #p=[$.p(1)]; static #cnt={n:0}; static s=["st",{k:1}]; f={v:[1,2]}; constructor(a){ this.a=a; A.#cnt.n++; } get p(){ return this.#p; } set p(v){ this.#p=[v,...this.#p]; } #priv(x){ return {x,p:this.#p}; } callp(x){ return this.#priv($.p(x)); } static cnt(){ return A.#cnt; } static { A.blk=[1,{b:2}]; } has(o){ return #p in o; } }
class B extends A { #q={q:1}; g=[this.a]; constructor(...a){ super({arg:a}); this.b=()=>super.callp(a); } get p(){ return ["B",super.p]; } toString(){ return `B${this.b().x.length}`; } static cnt(){ return {sup:super.cnt()}; } }
let bb=new B(1,[2]); bb.p={set:1}; $.log(bb.p, bb.callp("z"), bb.b(), String(bb), B.cnt(), A.s, B.blk, bb.f, bb.g, bb.has(bb), bb.has({}));
let C=class N extends Array { constructor(...a){ super(...a); this.tag={t:$.p("tag")}; } last(){ return this[this.length-1]; } }; let cc=new C(1,2,3).map(v=>({v})); $.log(cc.last(), cc instanceof C, cc.tag, cc.length);
$.try("nonew",()=>A()); $.try("privbad",()=>A.prototype.has.call({},1));
//@ class_fields_computed
let log=[]; function k(n){ log.push("k"+n); return $.p("key"+n); }
class K { [k(1)]=log.push("v1"); static [k(2)]=[log.push("v2"),{z:1}]; [k(3)](){ return this[k(1)]; } static async *[k(4)](){ yield [1]; } get [k(5)](){ return {g:this}; } }
let kk=new K; $.log(log, kk.key3(), Object.keys(K), typeof K.key4, kk.key5.g===kk);
let acc=[]; class L extends (acc.push("heritage"),Object) { constructor(){ const f=()=>super(); f(); this.x=[new.target===L]; } } $.log(new L().x, acc);
//@ arguments_mapped
function f(a,b){ arguments[0]={n:$.p(1)}; b=[2]; let g=()=>arguments; return [a,arguments[1],g().length,Array.from(arguments)]; } $.log(f(1,2,3));
function s(a){ "use strict"; arguments[0]=[9]; a={z:$.p(1)}; return [a,arguments[0]]; } $.log(s(1));
function h(a,a2){ delete arguments[0]; arguments[0]={q:1}; a=5; return [a, arguments[0], [...arguments]]; } $.log(h([1],2));
//@ with_eval
var env={v:{a:1},w:[2]}; var res=[]; (function(){ with(env){ res.push(v,w); v=[$.p("nv")]; var fn=()=>[v,w]; } res.push(fn()); })(); $.log(res, env);
(function(){ let q={l:1}; var r=eval("var ev={z:[q]}; let le=$.p([ev,q]); (()=>[le,ev,q])"); $.log(r(), ev); eval("q={changed:1}"); $.log(q); })();
$.log((0,eval)("({a:[1,{b:$.p(2)}]})")); let F=new Function("a","b=[a]","...c","return $.p({a,b,c})"); $.log(F(1),F(1,2,3,4),F.name,F.length);
let GF=Object.getPrototypeOf(function*(){}).constructor; $.log([...GF("a","yield a; yield [a,$.p(2)]; yield {z:a}")({q:1})]);
$.try("syntax",()=>eval("let ;;= 4"));
//@ try_finally
function t(n){ let l=[]; try { l.push("t"); try { if(n===1) throw {e:$.p([1])}; if(n===2) return {r:l}; l.push("n"); } catch({e:[v]}) { l.push("c"+v); if(n===1) throw new RangeError("x"+v); } finally { l.push("f"+$.p(n)); if(n===3) return {ov:l}; } } catch(e) { l.push(e.name); } finally { l.push("F"); } return l; } $.log(t(0),t(1),t(2),t(3));
out: for(let i of [1,2,3]) { for(let j of [{j:1},{j:2},{j:3}]) { try { if(j.j===2) continue out; if(i===3) break out; } finally { $.log("fin",i,$.p(j)); } } }
let it={[Symbol.iterator](){ let n=0; return {next(){ return {value:{n:n++},done:n>5}; }, return(v){ $.log("closed",n); return {}; } }; }};
for(let q of it) { if(q.n===2) break; } $.try("dest",()=>{ let [p,r]=it; return [p,r]; }); $.try("thr",()=>{ for(let q of it) throw new TypeError("in"); });
$.try("iterval",()=>Array.from(it,v=>{ if(v.n===3) throw $.p([v]); return v; }));
//@ switch_labels
function sw(v){ switch(v){ case $.p(1): { let a={one:1}; return ()=>a; } case "b": let q=[v]; default: q=["d",v]; return ()=>q; case null: { break; } } return ()=>"brk"; } $.log(sw(1)(),sw("b")(),sw(null)(),sw(7)());
let o={}; lbl:{ o.a=[1]; if($.p(true)) break lbl; o.b=1; } $.log(o); var i=0; do { i++; if(i%2) continue; o["k"+i]={i}; } while(i<5); $.log(o);
//@ tagged_templates
function tag(s,...v){ return {s,raw:s.raw,v,same:tag.last===(tag.last=s)}; } function g(x){ return tag`a${x}b\n${$.p([x])}c`; } let r1=g(1), r2=g({z:2}); $.log(r1,r2.same,r2.v, r1.s===r2.s);
$.log(String.raw`x\n${[1,2]}y`, `t${{toString(){ return $.p("ts"); }}}u${[1,[2]]}`, `${Symbol.iterator.toString()}`);
//@ symbols
let s1=Symbol("d"+1), s2=Symbol.for("reg"+$.p(1)); let o={[s1]:{a:1},[s2]:[2],[Symbol.toPrimitive](h){ return $.p(h)+"p"; },get [Symbol.toStringTag](){ return "Tag"+1; }};
$.log(o[s1],o[Symbol.for("reg1")],`${o}`,o+"",Object.prototype.toString.call(o),Symbol.keyFor(s2),Object.getOwnPropertySymbols(o).length,s1.description);
class M { static [Symbol.hasInstance](v){ return $.p(v)==="yes"; } } $.log("yes" instanceof M, "no" instanceof M); let a1=[1]; a1[Symbol.isConcatSpreadable]=false; $.log([0].concat(a1,[[2]],{length:1,0:"z",[Symbol.isConcatSpreadable]:true}));
//@ getter_proto_chain
let base={get v(){ return {self:this.name,n:$.p(1)}; }}; let mid=Object.create(base,{name:{value:"mid"+1,writable:true,enumerable:true}}); let top=Object.setPrototypeOf({name:["t"]},mid); $.log(top.v,mid.v,Object.getPrototypeOf(top)===mid);
function P(){ this.own={x:1}; } P.prototype={constructor:P,sh:[1,2],m(){ return [this.own,this.sh]; }}; let p=new P; $.log(p.m()); let seen=[]; for(let k in top) seen.push(k+$.p("")); $.log(seen);
let frozen=Object.freeze({a:{b:1}}); $.try("fr",()=>{ "use strict"; frozen.a=2; }); $.log(frozen, Object.isFrozen(frozen), Object.isSealed(Object.seal({z:1})));
//@ closures_deep
function mk(d){ let v={d,arr:[d]}; return d?{next:mk(d-1),get:()=>v,set:n=>{ v={d:n,arr:[...v.arr,$.p(n)]}; }}:{get:()=>v}; } let c=mk(12), n=c, out=[]; while(n.next){ n.set(n.get().d*2); out.push(n.get()); n=n.next; } $.log(out, n.get());
let memo={}; const fib=k=>k<2?BigInt(k):(memo[k]??=fib(k-1)+fib(k-2)); $.log(fib(60)); let counter=(()=>{ let c={n:0}; return {inc:()=>(c={n:c.n+1,prev:c.n}),cur:()=>c}; })(); for(let i=0;i<5;i++) counter.inc(); $.log(counter.cur());
//@ optional_nullish
let o={a:{b:null,f(){ return {t:this===o.a,v:$.p([1])}; }}}; $.log(o?.a?.b?.c, o.x?.y.z, o.a.f?.(), o.a?.["f"]().v, o.q??=["new"], o.q||=1, o.q&&=[o.q,2], o.n?.(), delete o?.a?.b, o);
//@ wide_graph
let all=[]; for(let i=0;i<400;i++) all.push({i,kids:[{v:i},{w:["s"+i]}]}); let deep=null; for(let i=0;i<600;i++) deep={deep,i,s:"d"+(i%7)}; let tot=0; for(let q=deep;q;q=q.deep) tot+=q.i+q.s.length; $.log(tot, all.reduce((a,v)=>a+v.kids[0].v+v.kids[1].w[0].length,0)); all=null; $.p(); let again=[]; for(let i=0;i<50;i++) again.push([i]); let t2=0; for(let q=deep;q;q=q.deep) t2+=q.i; $.log(t2, again.length);
//@ cyclic
let cyc={}; cyc.self=cyc; cyc.arr=[cyc,{cyc}]; let m=new Map([[cyc,{m:null}]]); m.get(cyc).m=m; cyc.fn=()=>[cyc.self===cyc,m.get(cyc).m===m]; $.log(cyc.fn()); let w=cyc; cyc=null; let junk=[]; for(let i=0;i<80;i++){ let a={i},b={a}; a.b=b; junk.push($.p(i%3?null:a)); } $.log(w.arr[1].cyc===w, junk.filter(x=>x).map(x=>x.b.a.i));
//@ object_builtins
let o=Object.fromEntries([["a",[1]],["b",{c:2}]].map(([k,v])=>[$.p(k)+"k",v])); $.log(o,Object.entries(o),Object.values(o),Object.getOwnPropertyNames("str"),Object.assign({},o,null,"xy",[9]));
let d=Object.getOwnPropertyDescriptors({get z(){ return 1; },y:[1]}); $.log(Object.keys(d),d.y,typeof d.z.get); let o3=Object.defineProperties({}, {p:{get(){ return {g:1}; },enumerable:true},q:{value:[$.p(3)],enumerable:true}}); $.log(o3); $.log(Object.is(o3.q,o3.q), Object.hasOwn(o3,"p"), "p" in o3, o3.propertyIsEnumerable("q"));
for(let i=0;i<60;i++) o["dyn"+i]={i}; for(let i=0;i<60;i+=2) delete o["dyn"+i]; $.log(Object.keys(o).length, o.dyn31, o.dyn30); let big={}; for(let i=60;i>0;i--) big[i*1000]=[i]; $.log(Object.keys(big).slice(0,4), big[60000]);
//@ functions_meta
let bf=function(a,b){ return [this,a,b,new.target===undefined]; }.bind({th:1},[$.p("ba")]); $.log(bf({z:1}),bf.name,bf.length,new (function Q(a){ this.a=a; }.bind(null,{ba:2}))().a);
let ap=Math.max.apply(null,[3,{valueOf(){ return $.p(9); }},1]); $.log(ap, (function(){ return [this,[...arguments]]; }).call({c:1},[1],2), Function.prototype.toString.call(function  foo ( a ){ return a }));
function outer(){ return inner(); function inner(){ return {callee:typeof arguments.callee}; } } $.log(outer()); let nf=function fact(n){ return n<2?1n:BigInt(n)*fact(n-1); }; $.log(nf(25));
$.try("rec",()=>{ let f=(n)=>n?[f(n-1)]:{b:$.p(1)}; let r=f(60); let d=0; while(Array.isArray(r)){ r=r[0]; d++; } return [d,r]; });
//@ spread_calls
let args=(function*(){ for(let i=0;i<5;i++) yield {i:$.p(i)}; }); $.log(Math.max(...[1,5],...new Set([9,3])), [...args(),..."hé😀",...new Map([[{k:1},[2]]])], ((...r)=>r)(...args()), new Date(...[2020,1,29,12]).getTime(), Reflect.construct(Array,[...args()]).length);
//@ errors noref
class MyE extends TypeError { constructor(m,x){ super(m,{cause:{c:$.p(x)}}); this.extra=[x]; } get name(){ return "MyE"; } } try { (function deep(n){ if(!n) throw new MyE("mm","xx"); deep(n-1); })(5); } catch(e) { $.log(e.message,e.extra,e instanceof TypeError,String(e),Object.keys(e)); }
let ae=new AggregateError([new Error("a"),{b:1}].values(),"agg"); $.log(ae.errors.length,ae.errors[1],ae.message); for(const E of [EvalError,RangeError,ReferenceError,SyntaxError,URIError]) $.try(E.name,()=>{ throw new E("m"+$.p(1)); });
$.try("ref",()=>undefinedVar); $.try("tdz",()=>{ tdzv; let tdzv=1; }); $.try("null",()=>null.x); $.try("call",()=>({}).x()); $.try("const",()=>{ const c=1; c=2; }); $.try("inv",()=>new Array(-1)); $.try("rad",()=>(5).toString(99)); $.try("sym",()=>Symbol()+"");
