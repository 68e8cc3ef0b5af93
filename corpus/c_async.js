//@ promise_chain
Promise.resolve({a:1}).then(v=>{ $.log("1",v); return [$.p(2)]; }).then(v=>{ $.log("2",v); throw {e:v}; }).catch(e=>{ $.log("c",e); return Promise.reject(new TypeError("t")); }).finally(()=>{ $.log("f"); return $.p({x:1}); }).then(()=>$.log("no"),e=>$.log("r",$.err(e)));
new Promise((res,rej)=>{ res({then(a,b){ $.log("thenable"); a({then(c){ c(["nested",$.p(1)]); }}); }}); rej(1); }).then(v=>$.log("th",v)); let d; let p=new Promise(r=>d=r); p.then(v=>$.log("p1",v)); p.then(v=>$.log("p2",v)); Promise.resolve().then(()=>d({late:[1]})); $.log("sync end");
//@ promise_combinators
const mk=(n,ok)=>new Promise((a,b)=>Promise.resolve().then(()=>ok?a({n}):b({bad:n}))); Promise.all([mk(1,1),2,mk({z:3},1),$.p(Promise.resolve([4]))]).then(v=>$.log("all",v)); Promise.all([mk(1,1),mk(2,0)]).catch(e=>$.log("allrej",e)); Promise.allSettled([mk(1,1),mk(2,0),3]).then(v=>$.log("as",v)); Promise.race([mk(5,1),mk(6,0)]).then(v=>$.log("race",v)); Promise.any([mk(7,0),mk(8,1)]).then(v=>$.log("any",v)); Promise.any([mk(9,0),mk(10,0)]).catch(e=>$.log("anyrej",$.err(e),e.errors)); Promise.all([]).then(v=>$.log("empty",v)); Promise.all((function*(){ yield 1; throw {gen:1}; })()).catch(e=>$.log("iter",e)); class MP extends Promise { constructor(ex){ super(ex); this.tag=["mp",$.p(1)]; } } let q=MP.resolve(1); $.log(q.tag,q.then(x=>x) instanceof MP); MP.all([q,mk(11,1)]).then(function(v){ $.log("mpall",v); });
//@ async_await
async function f(x){ let a=await {x}; try { let b=await Promise.reject({r:$.p(x)}); } catch(e) { a={a,e}; } finally { a=[a,await "fin"]; } for(let i=0;i<3;i++) a=[...a,await g(i)]; return {a}; } async function g(i){ await null; if(i===1) return Promise.resolve([i]); return {i:await $.p(i)}; } f(1).then(v=>$.log("f1",v)); f([2]).then(v=>$.log("f2",v)); (async()=>{ let [a,b]=await Promise.all([g(5),g(1)]); $.log("arrow",a,b); let o={async m(){ return [await this.v,super.toString!==undefined]; },v:{q:1}}; $.log(await o.m()); class C { static async s(){ return await [1]; } async *ag(){ yield* [1,Promise.resolve(2)]; } } $.log(await C.s()); for await(let v of new C().ag()) $.log("ag",v); try { await (async()=>{ throw new RangeError("ar"); })(); } catch(e) { $.log($.err(e)); } })();
//@ async_ext
(async()=>{ let a=$.ext("A"),b=$.ext("B"); let l=[]; a.then(v=>l.push("a"+v)); try { l.push({aw:await b}); } catch(e) { l.push({er:e}); } try { l.push([await a]); } catch(e) { l.push("aerr"); } l.push(await Promise.allSettled([$.ext("C"),$.ext("D"),a])); $.log("done",l); })(); (async()=>{ for(let i=0;i<3;i++){ let loc={i,junk:[i]}; try { let v=await $.ext("L"+i); $.log("loop",loc,v); } catch(e) { $.log("lerr",loc,e); } $.p(loc); } })();
//@ async_gen
async function* g(n){ let loc={n}; try { for(let i=0;i<n;i++){ let got=yield {i,loc}; loc={n:loc.n,got,prev:[i,$.p(1)]}; await null; } return ["ret",loc]; } catch(e) { yield {caught:e}; } finally { $.log("agfin",loc); } } (async()=>{ let i=g(2); let rs=[i.next("a"),i.next({b:1}),i.next(["c"]),i.next()]; $.log(await Promise.all(rs)); let j=g(3); $.log(await j.next(),await j.throw({t:1}),await j.next()); let k=g(3); $.log(await k.next(),await k.return(Promise.resolve({rr:1})),await k.next()); let w=g(1); $.log(await w.return("early"),await w.next()); let t=g(1); await t.throw({x:1}).catch(e=>$.log("tc",e)); for await(const v of g(2)) $.log("fa",v); outer: for await(const v of (async function*(){ try { yield* g(3); } finally { await null; $.log("outerfin"); } })()) { if(v.i===1) break outer; } for await(const v of [Promise.resolve([1]),{p:2}]) $.log("sync",v); try { for await(const v of [Promise.reject({rj:1})]) $.log("no"); } catch(e) { $.log("rejc",e); } })();
//@ async_gen_ext
async function* src(tag){ try { for(let i=0;i<3;i++){ let v=await $.ext(tag+i); yield {tag,i,v,junk:[$.p(i)]}; } } catch(e) { yield {tag,failed:e}; } finally { $.log("end",tag); } } (async()=>{ for await(const v of src("x")) $.log(v); })(); (async()=>{ let s=src("y"); let a=s.next(),b=s.next(),c=s.return({stop:1}),d=s.next(); $.log(await Promise.allSettled([a,b,c,d])); })();
//@ await_in_odd_places
(async()=>{ let o={[await $.p("k")]:[await 1],...(await {sp:1})}; let {x=await ["dx"],...r}=await {y:2}; $.log(o,x,r,`t${await "m"}`,[...(await [1,2]),await {z:1}],(await (async()=>({fn:a=>[a]}))()).fn(await 5)); switch(await 3){ case await 3: $.log("sw"); } let i=0; while(await (i++<3)); do { i--; } while(await i>0); label: for(let q of [1,2]) { try { if(await q) continue label; } finally { await null; $.log("lf",q); } } class D { static f=[1]; [await "cm"](){ return {c:1}; } } $.log(new D().cm(),await (await (async()=>async()=>[7])())(),(await 0)||(await {or:1}),(await null)??[await 2],await (await 1?{t:1}:0)); let a=[3,1,2]; a[await 0]={set:await [9]}; a[await 1]+=await 10; $.log(a,typeof await undefined,await new Promise(r=>r({v:1})),delete (await {z:1}).z); })().catch(e=>$.log("ERR",$.err(e)));
//@ thenable_mess
let cnt=0; const th=v=>({get then(){ cnt++; return (r,j)=>{ $.p(v); r(v); }; }}); (async()=>{ $.log(await th({v:1}),await th(th([2])),cnt); try { await {get then(){ throw {gt:1}; }}; } catch(e) { $.log(e); } try { await {then(a,b){ b({rej:1}); a(2); throw 3; }}; } catch(e) { $.log(e); } $.log(await Promise.race([th(5),{then:6}])); Promise.resolve(1).then(5).then(v=>$.log("pass",v)); Promise.reject({k:1}).then(null,undefined).catch(e=>$.log("pr",e)); })(); let self; self=Promise.resolve().then(()=>self); self.catch(e=>$.log("self",$.err(e)));
//@ finalization_basic noref weak
let fr=new FinalizationRegistry(h=>$.p()); let keep={k:1}; fr.register(keep,{held:1},keep); for(let i=0;i<10;i++) fr.register({i},{h:[i]}); let wr=new WeakRef(keep); $.log(wr.deref()===keep,fr.unregister(keep),fr.unregister(keep)); Promise.resolve().then(()=>{ $.log(wr.deref()===keep); });
//@ microtask_interleave
const order=[]; const tick=async(n,k)=>{ for(let i=0;i<k;i++){ order.push(n+i); await $.p({n,i}); } return [n]; }; Promise.all(["a","b","c"].map((n,i)=>tick(n,i+2))).then(v=>$.log(order.join(" "),v)); Promise.resolve().then(()=>order.push("m1")).then(()=>order.push("m2")).then(()=>order.push("m3")).then(()=>order.push("m4"));
