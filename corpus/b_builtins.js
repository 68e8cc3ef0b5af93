//@ array_callbacks
let a=[{v:3},{v:1},{v:2}]; $.log(a.map(x=>[$.p(x.v)]),a.filter(x=>$.p({k:x.v>1}).k),a.reduce((p,x)=>[...p,x.v],[]),a.reduceRight((p,x)=>({p,x}),null),a.find(x=>$.p(x.v===1)),a.findIndex(x=>x.v===2),a.some(x=>$.p([x])[0].v===9),a.every(x=>x));
if(a.findLast) $.log(a.findLast(x=>x.v<3),a.findLastIndex(x=>x.v===3)); $.log(a.flatMap(x=>[x.v,[$.p(x.v)]]),[[1,[2,[3,[{d:4}]]]]].flat(Infinity)); a.forEach((x,i,arr)=>{ arr[i]={n:$.p(x.v)*2}; }); $.log(a);
//@ array_mutate
let a=[]; for(let i=0;i<20;i++) a.push({i},[i]); a.splice(3,5,{ins:1},["in2"]); a.unshift([$.p(0)],{u:1}); $.log(a.length,a.slice(0,8)); a.reverse(); a.shift(); a.pop(); a.copyWithin(2,5,8); a.fill({f:1},10,12); $.log(a.slice(0,14)); $.log(a.indexOf(a[4]),a.lastIndexOf(a[2]),a.includes(a[9]),a.at(-1),[..."abc"].entries().next(),Array.from([1,2].keys())); a.length=3; a[10]={sp:1}; $.log(a, 7 in a); delete a[1]; $.log(a);
let big=[]; for(let i=0;i<300;i++) big[i]={v:i}; big.length=100; for(let i=0;i<100;i+=3) delete big[i]; big[5000]={far:1}; $.log(big.length, big.filter(x=>x).length, big[5000], Object.keys(big).length);
//@ array_sort noref
let a=[]; for(let i=0;i<40;i++) a.push({k:(i*37)%11,o:{i}}); a.sort((x,y)=>{ let t=[$.p(x.k)-y.k]; return t[0]; }); $.log(a.map(x=>x.k+":"+x.o.i).join()); let s=["b"+1,"a"+$.p(2),"c",undefined,"aa",,"B"]; s.sort(); $.log(s); $.log([5,25,100,1].sort(),[3,1,2].sort((p,q)=>({valueOf(){ return q-p; }}))); let str=[{toString(){ return $.p("z")+1; }},{toString(){ return "a"+1; }}]; str.sort(); $.log(String(str[0])); $.try("sortthrow",()=>{ [3,2,1,0].sort((a,b)=>{ if(a===1||b===1) throw {s:1}; return a-b; }); });
//@ array_from_of
class MA extends Array { static get [Symbol.species](){ return $.p(Array); } } $.log(Array.from({length:4},(v,i)=>({i:$.p(i)})),Array.of({a:1},[2]),MA.from([1,2]) instanceof MA,MA.from([1,2]).map(x=>[x]) instanceof MA, Array.from("a😀b"),Array.from(new Map([[{k:1},2]]).entries()),Array.from((function*(){ yield [1]; yield {z:2}; })(),function(v){ return [this.t,v]; },{t:"T"}));
let al={length:3,0:{z:1},2:"c"}; $.log(Array.prototype.map.call(al,x=>[x]),Array.prototype.slice.call(al,1),Array.prototype.join.call(al,{toString(){ return $.p("-"); }}),Array.prototype.concat.call(al,[1]).length,[1,[2,3]].toString(),[[],[null],[undefined]].join("|"),Array.prototype.push.call(al,{p:1}),al);
//@ array_proxy_getter
let g=[]; Object.defineProperty(g,0,{get(){ return {get:$.p(1)}; },enumerable:true,configurable:true}); g[1]=[2]; g[3]={x:3}; $.log(g.map(x=>[x]),g.concat([{c:1}]),[...g],g.slice(0,2),g.flat(),g.includes(undefined),g.indexOf(g[3])); let px=new Proxy([{a:1},[2],"three"],{get(t,k,r){ $.p(k); return Reflect.get(t,k,r); },has(t,k){ return Reflect.has(t,$.p(k)); }}); $.log(px.map(x=>[x]),px.concat([4]),[...px],px.indexOf("three"),Array.isArray(px),JSON.stringify(px)); 
//@ map_set
let m=new Map([[{k:1},{v:1}],["s"+1,[2]],[NaN,"nan"],[-0,"zero"]]); for(let i=0;i<50;i++) m.set("key"+i,{i:$.p(i)}); for(let i=0;i<50;i+=2) m.delete("key"+i); $.log(m.size,m.get("key31"),m.get(NaN),m.has(0),[...m.keys()].length); let seen=[]; for(let [k,v] of m){ seen.push(typeof k+$.p("")); if(k==="key1"){ m.delete("key3"); m.set("late",{l:1}); } if(k==="late") m.set("later",[1]); } $.log(seen.length,m.has("later")); m.forEach((v,k,mm)=>{ if(k==="key5") mm.clear(); $.p(v); }); $.log(m.size);
let s=new Set("hello".split("").map(c=>$.p(c)+"!")); let obj={}; s.add(obj).add(obj).add([1]); $.log(s.size,s.has(obj),[...s].slice(0,4)); let it=s.values(); it.next(); s.delete("e!"); s.add("new"); $.log([...it].length,s.delete(obj),s.size,[...s.entries()][0]); class SS extends Set { add(v){ return super.add({w:$.p(v)}); } } $.log([...new SS([1,2])]);
//@ weak_collections
let k1={},k2=[1]; let wm=new WeakMap([[k1,{v:k1}],[k2,["val"]]]), ws=new WeakSet([k1]); for(let i=0;i<30;i++){ let t={i}; wm.set(t,{t:[i],n:$.p(i)}); ws.add(t); } $.gc(); $.log(wm.get(k1).v===k1,wm.get(k2),wm.has({}),ws.has(k1),ws.has(k2),wm.delete(k2),wm.has(k2)); let chain=k1; for(let i=0;i<10;i++){ let n={i}; wm.set(chain,n); chain=n; } chain=null; $.gc(); let c=k1,d=0; while(wm.has(c)){ c=wm.get(c); d++; } $.log(d,c); $.try("wmprim",()=>wm.set(1,2)); $.try("wsprim",()=>ws.add("x"));
//@ string_methods noref
let s="Hello, Wörld "+$.p("x"); $.log(s.split(""),s.split(/[ ,]+/),s.replace(/o/g,(m,i)=>`[${$.p(m)}${i}]`),s.replace("l","$&$&$`"),s.replaceAll("l",c=>c+1),s.match(/(?<first>[A-Z])(?<second>.)/g),[..."aXbX".matchAll(/(.)X/g)].map(m=>[m[1],m.index]),s.search(/W/),s.normalize("NFD").length,s.padStart(20,"ab"),s.padEnd(18),s.repeat(3),s.at(-1),s.codePointAt(8),s.localeCompare("Z")<0,s.toUpperCase(),s.trim(),s.substring(3,1),s.substr(-3,2),s.slice(-4,-1),s.concat([1],{a:1}),s.startsWith("He"),s.endsWith("x"),s.includes("W"),s.lastIndexOf("o"),[...s].reverse().join(""),s.anchor("q\"r"),"a-b_c".split(/([-_])/),String.fromCodePoint(0x1f600,97),String.fromCharCode(104,105));
let acc=""; for(let i=0;i<100;i++){ acc+=i; if(i%10===0) acc=$.p(acc)+("<"+acc.length+">"); } $.log(acc.length,acc.slice(-40)); let parts=[]; for(let i=0;i<30;i++) parts.push(("p"+i).repeat(i%4)); $.log(parts.join("").length, parts.join("").split("p").length);
//@ regexp noref
let re=/(?<y>\d{4})-(?<m>\d\d)|(x+)/g; let t="2020-12 xxx 1999-01"; let m,out=[]; while((m=re.exec(t))){ out.push([m[0],m.groups&&{...m.groups},m.index,$.p(re.lastIndex)]); } $.log(out); $.log(t.replace(re,(...a)=>{ let g=a[a.length-1]; return $.p("{"+(g.y||"-")+"}"); }),t.replace(/(?<a>\d)(?<b>\d)/g,"$<b>$<a>$1"),/^(a+)+$/.test("aaaa"),/(?<=\$)\d+/.exec("cost $42")[0],/\u{1f600}/u.test("😀"),/(.)\1/.exec("abccd"),"aBc".match(/b/i).index,/[^]*?end/s.exec("a\nend")[0].length);
let st=/fo+/y; st.lastIndex=3; $.log(st.test("barfoo"),st.lastIndex,new RegExp(st,"gi").flags,RegExp.prototype.toString.call(/a\/b/g),/a|b/[Symbol.split]("1a2b3"),"x".replace(/x/,"$$$&$'")); class RX extends RegExp { exec(s){ let r=super.exec(s); if(r) r.extra={e:$.p(1)}; return r; } get flags(){ return "g"; } } $.log("aXbX".replace(new RX("X","g"),v=>v+"!"),new RX("b").exec("abc").extra,/(?:a(?<n>b)?)+/.exec("abaa").groups.n); $.try("badre",()=>new RegExp("(["));
let dyn=[]; for(let i=0;i<12;i++) dyn.push(new RegExp("a{"+i+"}(b|c)*"+i).test("aaaaaaaaaaaabcbc"+i)); $.log(dyn);
//@ json
let src='{"a":[1,2.5e3,{"b":null,"c":"x\\u0041\\n"}],"d":{"e":true,"f":[[],{}]},"g":"'+"long".repeat(20)+'"}'; let o=JSON.parse(src,function(k,v){ if(k==="b") return {rev:$.p(1)}; if(Array.isArray(v)) return [...v,"r"]; return v; }); $.log(o,JSON.stringify(o)); $.log(JSON.stringify({a:[1,{toJSON(k){ return {k:$.p(k),j:[1]}; }}],u:undefined,f(){},d:new Date(0),n:NaN,s:Symbol(),z:new Map},(k,v)=>typeof v==="number"?[v+""].join():v,2)); $.log(JSON.stringify([new Number(1),new String("s"),Object(true),"\ud800"," "]),JSON.stringify({b:1,a:2,c:{a:3}},["a","c"],"--")); $.try("bad",()=>JSON.parse('{"a":}')); $.try("cyc",()=>{ let c={}; c.c=c; JSON.stringify(c); }); $.try("big",()=>JSON.stringify(1n)); let nest="["; for(let i=0;i<40;i++) nest+='{"n'+i+'":['; $.try("nestbad",()=>JSON.parse(nest)); $.log(JSON.parse(nest+"1"+"]}".repeat(40)+"]").length, JSON.parse("[]",()=>$.p({x:1})), JSON.stringify({[Symbol()]:1,x:[undefined,()=>1]}));
//@ bigint
let b=1n; let acc=[]; for(let i=1;i<20;i++){ b=b*BigInt(i*i+$.p(1))+12345678901234567890n; acc.push({b}); } $.log(b>1n,(b/3n)*3n+b%3n===b,acc.length,String(b).length>20,BigInt("0xff"),123456789012345678901234567890n/987654321n,-7n%2n,1n<<70n,(1n<<70n)>>3n,~5n,5n^-3n,BigInt("  -123 "),typeof Object(b),1n<2.5,2n==2,BigInt(7)*9n,[1n,2n,3n].map(x=>x*b).length,new Map([[b,[1]]]).get(b),BigInt.asUintN(8,-1n)); $.try("mix",()=>1n+1); $.try("div",()=>1n/0n); $.try("syn",()=>BigInt("1x")); let arr=new BigInt64Array([5n,1n,-1n]); $.log(arr,[...new BigUint64Array(arr.buffer)]);
//@ numbers noref
let n=[]; for(const v of [0.1,1/3,1e21,1e-7,123456789.125,-0,5e-324,1.7976931348623157e308]) n.push(String(v),v.toFixed(2),v.toExponential(3),v.toPrecision(5),v.toString(2).length>0,$.p(v.toString(16))); $.log(n.slice(0,30)); $.log(parseFloat("3.14abc"),parseInt("ff",16),Number(" 0x1F "),Number("1_0"),Number([5]),Number({valueOf(){ return $.p("7"); }}),+[],+{},Number.parseFloat("-.5e-2"),(25).toString(36),(0.5).toString(3).slice(0,10),Math.hypot(3,4),Math.fround(5.5),Math.clz32(1),Math.sign(-3),Math.trunc(-4.7),Math.cbrt(27),Math.imul(3,4),Math.max(),Number.isInteger(5.0),(1e21+"").length,(-1.5).toFixed(0),(1.005).toFixed(2));
//@ date noref
let d=new Date(Date.UTC(2024,1,29,12,30,45,678)); $.log(d.toISOString(),d.toJSON(),d.getTime(),new Date(d).setUTCMonth(13),Date.parse("2020-02-30T10:00:00Z"),new Date(NaN).getTime(),Date.UTC(99),d.getUTCDay(),new Date(2020,0,31).getDate(),new Date("2019-03-10").toISOString(),d[Symbol.toPrimitive]("number"),typeof (d+$.p("x")),new Date(8.64e15+1).getTime(),new Date(0).setUTCHours(25,61,61,1001)); $.try("inv",()=>new Date(NaN).toISOString());
//@ uri noref
$.log(encodeURIComponent("a b&ü😀"+$.p("/")),decodeURIComponent("%F0%9F%98%80%20x"),encodeURI("http://x/ü?q=1#h"),decodeURI("%41%2F"),escape("ü €"),unescape("%u20AC%FC")); $.try("mal",()=>decodeURIComponent("%E0%A4%A")); $.try("sur",()=>encodeURIComponent("\ud800"));
//@ typed_arrays noref
let buf=new ArrayBuffer(64); let u8=new Uint8Array(buf), i16=new Int16Array(buf,8,6), f64=new Float64Array(buf,32,2), dv=new DataView(buf,4,40); u8.set([1,2,300,-1]); i16.set([1,-2,70000],1); f64[0]=Math.PI; dv.setInt32(28,123456,true); dv.setBigUint64(8,2n**63n+5n); $.log(u8.slice(0,8),i16,f64,dv.getFloat32(28),dv.getBigInt64(8,true),dv.byteLength); $.log(u8.map(x=>$.p(x)*2).subarray(0,5),i16.filter(x=>$.p([x])[0]>0),Array.from(i16,x=>({x})),[...f64.entries()],u8.reduce((a,b)=>a+b),i16.findIndex(x=>x<0),i16.sort((a,b)=>b-$.p(a)),u8.indexOf(2),u8.join("."),u8.at(-1),i16.some(x=>$.p(x)===1),new Uint8ClampedArray([300,-5,1.5]),Float32Array.of(1.1,2),Uint16Array.from((function*(){ yield 1; yield {valueOf(){ return $.p(7); }}; })(),x=>x),new Uint8Array(new Set([1,2,3])),new Int8Array([1,2,3]).reverse(),u8.copyWithin(0,4,8).slice(0,4),new Uint32Array(4).fill({valueOf(){ return 9; }}),buf.slice(2,6).byteLength,ArrayBuffer.isView(dv)); class TA extends Uint8Array { get x(){ return this[0]; } } let ta=new TA([5,6]).map(x=>x+$.p(1)); $.log(ta instanceof TA,ta.x,ta.length); $.try("oob",()=>new Uint32Array(buf,61)); $.try("dvoob",()=>dv.getInt32(38)); u8.foo={bar:[1]}; $.log(u8.foo,Object.keys(new Uint8Array(2)),"1" in u8,u8[100],u8["-0"]); let conv=new Float32Array(new BigInt64Array(0)); $.try("mixct",()=>new BigInt64Array([1])); u8.set(new Uint16Array([500,6]),3); u8.set({length:2,0:{valueOf(){ return $.p(4); }},1:"5"},10); $.log(u8.subarray(0,14)); 
//@ typed_array_callbacks_detach_free
let f=new Float64Array(8).map((v,i)=>i*1.5); let o=f.map(x=>{ let junk=[]; for(let i=0;i<3;i++) junk.push({x}); return $.p(junk[1].x)+1; }); $.log(o, f.every(x=>[x].length), f.find(x=>$.p({x}).x>4), f.forEach(x=>{ $.p([x]); }), f.reduceRight((a,x)=>a+"|"+x), [...f.values()].length, [...f.keys()], f.toString(), f.lastIndexOf(3), f.toLocaleString().length>0);
//@ proxies noref
let log=[]; let target={a:{x:1},get g(){ return [this===px]; }}; let h={}; for(const k of Reflect.ownKeys(Reflect)) if(typeof Reflect[k]==="function") h[k]=function(t,...a){ log.push(k+$.p("")); return Reflect[k](t,...a); }; let px=new Proxy(target,h); px.b=[2]; px.a; px.g; "a" in px; delete px.b; Object.keys(px); Object.getOwnPropertyDescriptor(px,"a"); Object.defineProperty(px,"d",{value:{d:1},configurable:true,enumerable:true,writable:true}); Object.getPrototypeOf(px); Object.setPrototypeOf(px,null); Object.isExtensible(px); ({...px}); for(let k in px); Object.preventExtensions(px); $.log(log.length,log.join(",")); let fpx=new Proxy(function(a){ return new.target?{nt:a}:[this,a]; },{apply(t,th,ar){ return {ap:Reflect.apply(t,th,[$.p(ar[0])])}; },construct(t,ar,nt){ return {con:Reflect.construct(t,ar,nt)}; }}); $.log(fpx.call({t:1},{q:1}),new fpx([5])); let {proxy,revoke}=Proxy.revocable({z:[1]},{}); $.log(proxy.z); revoke(); $.try("revoked",()=>proxy.z); let lazy=new Proxy({},{get:(t,k)=>k in t?t[k]:(t[k]={made:String(k),n:[$.p(1)]}),ownKeys:()=>["p","q"],getOwnPropertyDescriptor:(t,k)=>({value:t[k]||{v:k},configurable:true,enumerable:true,writable:true})}); $.log(lazy.foo,lazy.foo===lazy.foo,Object.entries(lazy),JSON.stringify(lazy)); $.try("inv",()=>Object.keys(new Proxy(Object.freeze({a:1}),{ownKeys:()=>[]})));
//@ reflect
let o={a:[1]}; $.log(Reflect.ownKeys({b:1,[Symbol("s")]:2,1:3}).length,Reflect.apply((...a)=>a,null,[{x:1},[$.p(2)]]),Reflect.construct(class { constructor(a){ this.a=a; } },[{q:1}],Array) instanceof Array,Reflect.defineProperty(o,"z",{get(){ return [3]; }}),o.z,Reflect.get({get v(){ return [this.r,$.p(1)]; }},"v",{r:{rr:1}}),Reflect.set({set v(x){ this.got=[x]; }},"v",{val:1},o),o.got,Reflect.has(o,"a"),Reflect.deleteProperty(o,"a"),Reflect.getOwnPropertyDescriptor({q:[1]},"q"));
//@ iter_protocol
function mk(n,l){ return {[Symbol.iterator](){ let i=0; return {next(){ l.push("n"+$.p(i)); return {get value(){ return {v:i}; },get done(){ return ++i>n; }}; },return(){ l.push("ret"); return {x:1}; }}; }}; } let l=[]; $.log([...mk(3,l)].length,Math.max(...[1]),new Set(mk(2,l)).size,new Map([[1,2]].map(e=>e)).size,Array.from(mk(2,l)).length,l.join()); let [q,w]=mk(5,l); $.log(q,w,l.slice(-3)); for(let x of mk(4,l)) if(x.v===2) break; $.log(l.slice(-2)); $.try("mapbad",()=>new Map([[1,2],3])); $.try("noiter",()=>{ for(let z of 5); }); function* g(){ try { yield [1]; yield {b:2}; } finally { l.push("gfin"+$.p(1)); yield "cleanup"; } } for(let x of g()) break; $.log(l.slice(-1)); let gi=g(); gi.next(); $.log(gi.return({ret:1}),gi.next(),gi.next()); $.log([...function*(){ let r=yield* mk(2,l); yield [r]; }()].length);
//@ generators
function* g(a){ let x=yield {a}; try { let y=yield [x,$.p(1)]; return {y}; } catch(e) { yield {caught:e}; return "after"; } finally { yield ["fin",a]; } } let i=g({arg:1}); $.log(i.next(),i.next({in:1}),i.next([2]),i.next(),i.next()); let j=g(2); j.next(); j.next(); $.log(j.throw({err:1}),j.next(),j.next(),j.next()); let k=g(3); k.next(); k.next(); $.log(k.return({r:1}),k.next(),k.next()); function* del(){ let r=yield* g("d"); yield {r}; try { yield* {[Symbol.iterator]:()=>({next:v=>({value:[v],done:false}),throw:e=>({value:{e},done:true})})}; } finally { $.log("delfin"); } } let d=del(); $.log(d.next(),d.next({z:1}),d.next(5),d.next(),d.next(),d.next("q"),d.throw("T"),d.next()); function* inf(){ let n={v:0}; while(true){ n={v:n.v+1,p:[n.v]}; yield $.p(n); } } let out=[]; for(let v of inf()){ if(v.v>6) break; out.push(v); } $.log(out); $.try("running",()=>{ let q; function* r(){ q.next(); } q=r(); q.next(); }); let gens=[]; for(let n=0;n<12;n++){ let q=(function*(){ let loc={n,a:[n]}; while(loc.n<n+3){ let got=yield loc; loc={n:loc.n+1,a:[...loc.a,got]}; } return loc; })(); q.next(); gens.push(q); } for(let r=0;r<4;r++) $.log(gens.map(q=>q.next({r:$.p(r)}).value).map(v=>v&&v.a.length)); gens=null; let half=inf(); half.next(); half=null;
//@ annexb noref
$.log("str".big(),"x".link("u"),escape("a b"),new Date(0).getYear(),({__proto__:{pp:[1]}}).pp,(function(){ return typeof ff; { function ff(){} } })(),Object.prototype.__lookupGetter__.call({get z(){ return 1; }},"z").name,({}).__defineGetter__.call(globalThis,"gg__",()=>[$.p(1)]),gg__);
