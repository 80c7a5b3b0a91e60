'use strict';
// Systematic programs around the early errors of the language.
const D = ['var x', 'let x', 'const x=1', 'function x(){}', 'class x{}', 'async function x(){}', 'function*x(){}', 'var {a:x}=1', 'let [x]=1', '{var x}', '{let x}', '{function x(){}}', '{{var x}}', 'for(var x;;);', 'for(let x of y){}', 'for(var x of y);', 'if(1)var x', 'switch(1){case 1:let x}', 'switch(1){case 1:var x}', 'try{var x}catch{}', 'L:var x', '(function x(){})', '(class x{})', 'x=>1', 'do var x; while(0)', 'import x from "m"', 'import {x} from "m"', 'import * as x from "m"', 'try{}catch(x){}', 'export let x', 'export{x}', 'export default x', 'export default function x(){}'];
const C = [s => s, s => '{' + s + '}', s => 'function f(){' + s + '}', s => 'function f(x){' + s + '}', s => '(x)=>{' + s + '}', s => '(function x(){' + s + '})', s => 'try{}catch(x){' + s + '}', s => 'try{}catch({x}){' + s + '}', s => 'try{}catch([x]){' + s + '}', s => 'try{}catch(y){' + s + '}', s => 'for(let x;;){' + s + '}', s => 'for(let x of y){' + s + '}', s => 'for(var x of y){' + s + '}', s => '({m(x){' + s + '}})', s => '({set a(x){' + s + '}})', s => 'class x{m(){' + s + '}}', s => '(class x{m(){' + s + '}})', s => 'switch(1){case 1:' + s + '}', s => 'function f({x}){' + s + '}', s => 'function f(...x){' + s + '}', s => 'async x=>{' + s + '}', s => 'class C{static{' + s + '}}', s => '"use strict";function f(){' + s + '}'];
function* dupMatrix() { for (const c of C) for (const a of D) { yield c(a); for (const b of D) yield c(a + ';' + b); } }
// statements and expressions whose legality depends on where they stand
const FRAG = ['async(a=await x)', 'async({await})', 'for({__proto__:a,__proto__:a}of x);', 'switch(a){default:case 1:default:}', 'return', 'return 1', 'break', 'continue', 'break L', 'continue L', 'await x', 'await', 'yield x', 'yield', 'x=yield', 'x=await', 'var await', 'var yield', 'let yield', 'let await', 'super.x', 'super()', 'super[x]()', 'new.target', 'arguments', 'arguments=1', 'eval=1', 'eval++', 'with(a){}', 'delete x', 'delete (x)', 'delete x.y', '01', '"\\01"', '"\\8"', '`\\01`', 'tag`\\01`', 'let let', 'const let=1', 'var let', 'let\nlet', 'static', 'var static', 'implements=1', 'interface', 'import.meta', 'import("x")', 'import()', 'import("a","b","c")', 'new import("x")', 'L:break L', 'L:{break L}', 'L:continue L', 'L:L:x', 'L:{L:x}', 'L:for(;;)continue L', 'L:{for(;;)continue L}', 'L:function f(){}', 'L:function*f(){}', 'L:async function f(){}', 'L:let\nx', 'L:class C{}', 'L:const x=1', 'if(1)function f(){}', 'if(1)function*f(){}', 'if(1)async function f(){}', 'if(1)class C{}', 'if(1)let x', 'if(1);else function f(){}', 'while(0)function f(){}', 'for(;;)function f(){}', 'for(;;)let x', 'do function f(){} while(0)', 'with(a)function f(){}', '#p in a', 'a.#p', 'class A{#p;#p}', 'class A{#p;m(){this.#p;this.#q}}', 'class A{#p;m(){#p in a}}', 'class A{#p;m(){delete this.#p}}', 'class A{#p;m(){delete this?.#p}}', 'class A{get #p(){}set #p(v){}}', 'class A{get #p(){}get #p(){}}', 'class A{static get #p(){}set #p(v){}}', 'class A{#constructor}', 'class A{constructor(){}constructor(){}}', 'class A{get constructor(){}}', 'class A{async constructor(){}}', 'class A{*constructor(){}}', 'class A{constructor=1}', 'class A{"constructor"=1}', 'class A{static prototype(){}}', 'class A{static prototype=1}', 'class A{["constructor"](){}}', 'class A{static constructor(){}}', 'class A{constructor(){super()}}', 'class A extends B{constructor(){super()}}', 'class A extends B{m(){super()}}', 'class A extends B{constructor(){function f(){super()}}}', 'class A{x=super()}', 'class A{x=super.y}', 'class A{x=arguments}', 'class A{x=()=>arguments}', 'class A{x=function(){arguments}}', 'class A{static{await}}', 'class A{static{return}}', 'class A{static{arguments}}', 'class A{static{var await}}', 'class A{static{super.x}}', 'class A{static{super()}}', 'class A{static{yield}}', 'class A{static{break}}', 'class A{get a(x){}}', 'class A{set a(){}}', 'class A{set a(x,y){}}', 'class A{set a(...x){}}', '({get a(x){}})', '({set a(){}})', '({set a(...x){}})', '({a,b=1})', '({a=1}=x)', '({a=1})=>a', '({a:b=1}=x)', '({a}=x)', '({a:1}=x)', '({a:(b)}=x)', '({a:(b=1)}=x)', '({a:({b})}=x)', '[(a)]=x', '[(a=1)]=x', '[([b])]=x', '([a])=x', '({a})=x', '(a)=1', '(a.b)=1', '(a,b)=1', 'a?.b=1', 'a?.b++', 'new a?.b()', 'a?.b`x`', 'a=>b=1', 'a=>{}=1', 'a+b=1', 'a()=1', 'a()++', '++a()', 'a++ ++', '-a**b', '(-a)**b', 'a??b||c', 'a||b??c', '(a||b)??c', 'a&&b??c', 'typeof a**b', 'await a**b', '({__proto__:1,__proto__:2})', '({__proto__:1,"__proto__":2})', '({__proto__:1,__proto__})', '({__proto__:1,__proto__(){}})', '({__proto__:a,__proto__:b}=x)', '({__proto__:1,["__proto__"]:2})', 'function f(a,a){}', '(a,a)=>1', '({m(a,a){}})', 'function f(a,[a]){}', 'function f(a,a=1){}', 'function f(a,a){"use strict"}', 'function f(a=1){"use strict"}', '(a=1)=>{"use strict"}', '({m({a}){"use strict"}})', 'function eval(){}', 'function arguments(){}', 'function f(eval){}', 'function eval(){"use strict"}', 'function f(eval){"use strict"}', '(function eval(){"use strict"})', 'eval=>1', '(eval)=>{"use strict"}', 'function static(){"use strict"}', 'function f(){"use strict";010}', 'function f(){"use strict";with(a);}', 'function f(){"use strict";delete x}', 'function f(){"a";"use strict";010}', 'function f(){("use strict");010}', 'try{}catch(eval){}', 'try{}catch([a,a]){}', 'try{}catch(a){let a}', 'try{}catch(a){var a}', 'try{}catch(a){for(var a of b);}', 'try{}', 'try{}finally{}', 'switch(a){default:default:}', 'switch(a){case 1:let x;case 2:let x}', 'for(let x,y of z);', 'for(let x=1 of z);', 'for(var x=1 of z);', 'for(var x=1 in z);', 'for(let x=1 in z);', 'for(let let of z);', 'for(let [x,x] of z);', 'for(let x of z){var x}', 'for(let x of z){let x}', 'for(const x;;);', 'const x', 'let [x]', 'const {x}', 'var [x]', 'for(let [x];;);', 'for(var [x] of z);', 'for(x of y,z);', 'for(x in y,z);', 'for(async of z);', 'for(let of z);', 'for(let.x of z);', 'for(async of=>1;;);', 'for await(x of y);', 'for await(x in y);', 'for await(;;);', 'for(a=1 of z);', 'for(f() of z);', 'for(1 of z);', 'for((a) of z);', 'for((a.b) in z);', 'for((a,b) of z);', 'for({a} of z);', 'for({a:1} of z);', 'for(this of z);', 'async()=>await', 'async(await)=>1', 'async await=>1', 'async(x=await 1)=>1', '(await)=>1', '(x=await 1)=>1', 'async function f(await){}', 'async function f(x=await 1){}', 'async function await(){}', '(async function await(){})', 'function await(){}', 'function*yield(){}', '(function*yield(){})', 'function*f(yield){}', 'function*f(x=yield){}', 'function*f(){function yield(){}}', 'function*f(){(x=yield)=>1}', 'function*f(){var yield}', 'function*f(){({yield})}', 'function*f(){yield\n*1}', 'async function*f(){yield*await 1}', 'async function*f(){for await(x of y);}', 'async()\n=>1', 'async x\n=>1', 'a\n=>1', 'async\nfunction f(){}', '({async\nm(){}})', 'class A{async\nm(){}}', 'throw\n1', 'x\n++', '()', '()+1', '(a,)', '(...a)', '(...a,b)=>1', '(...a,)=>1', '(...a=1)=>1', '(...[a])=>1', '((a))=>1', '([(a)])=>1', '({a:(b)})=>1', '(a.b)=>1', '([a.b])=>1', '({a:b.c})=>1', '(a+1)=>1', '1=>1', '(a,b)\n=>1', 'a=>{}()', '(a=>{})()', 'a=>{}||1', 'a||b=>1', 'a?b=>1:c', 'new a=>1', 'new (a=>1)', '!a=>1', 'f(a)=>1', 'async(a)(b)=>1', 'function f(...a,b){}', 'function f(...a,){}', 'function f(...a=1){}', 'function f(a,){}', 'function f(,){}', 'f(,)', 'f(a,)', 'f(a,,b)', '[,]', '[a,,b]', '[...a,]', '[...a,]=b', '[...a,b]=c', '[...a=1]=b', '({...a,}=b)', '({...a,b}=c)', '({...{a}}=b)', '({...[a]}=b)', '({...a.b}=c)', 'var {...{a}}=b', 'var {...a,b}=c', 'var [...a,]=b', 'var [...[a]]=b', 'let {a,a}=b', 'var {a,a}=b', '({a(){}}=x)', '({get a(){}}=x)', '({"a"})', '({1})', '({a:1,a:2})', '({if})', '({if:1})', '({eval})', '({eval}=x)', '({await})', '({yield})', '({let})', '({static})', '({async *a(){}})', '({*async a(){}})', '({get *a(){}})', '({async get a(){}})', '({async a})', '({get a})', '({get})', '({async})', '({async:1})', '({get:1,set:2})', 'class A{get;set;static;async}', 'class A{get\n*a(){}}', 'class A{static async *a(){}}', 'class A{a b}', 'class A{a;b}', 'class A{a\nb}', 'class A{a=1 b}', 'class A{,}', 'class A{;;}', 'class A extends B,C{}', 'class A extends a=>1{}', 'class A extends(a=>1){}', 'class A extends B?.c{}', 'class{}', 'class let{}', 'class static{}', 'class await{}', 'class yield{}', 'class eval{}', 'function(){}', 'function*(){}', 'async function(){}', 'enum', 'var enum', 'var class', 'x=enum', 'x.enum', 'debugger', 'debugger x', 'if(a)', 'if(a);else', 'if a;', 'while()', 'do;while(0)x', 'do x while(0)', 'do;while(0);x', 'for(;)', 'for(;;', '{', '}', ')', ']', '(', '[', 'a b', 'a;;b', '1a', '1_', '1__0', '0_1', '0x', '0xg', '0b2', '0o8', '1e', '1e+', '1n', '1.5n', '01n', '1e3n', '0b1n', '.5n', '"', "'a\nb'", '"\\x1"', '"\\u1"', '"\\u{110000}"', '"\\u{10FFFF}"', '`', '`${', '`${a', '`\\x1`', 'tag`\\x1`', '`\\u{}`', '/a', '/[/]/', '/(/a', '\\u0061b', '\\u{61}b', '\\u0031b', 'a\\u002d', 'v\\u0061r x', 'l\\u0065t x', 'x=\\u0069f', 'x.\\u0069f', '({\\u0069f:1})', '({\\u0069f})', 'n\\u0065w x', 'tr\\u0075e', 'a\\u{2F}b', '#x', '@', 'a @b', 'export x', 'export{x}', 'export{x}from"a"', 'export default 1', 'export default let', 'export default var x', 'export default function(){}', 'export default class{}', 'export default async function(){}', 'export default async()=>1', 'export default(function(){})', 'export*from"a"', 'export*as x from"a"', 'export{default}', 'export{default}from"a"', 'export{if as x}', 'export{x as if}', 'export let a;export{a}', 'export{x as a,y as a}', 'export default 1;export default 2', 'import x from"a"', 'import{x}from"a"', 'import{x as y,z as y}from"a"', 'import*as x from"a"', 'import x,{y}from"a"', 'import x,*as y from"a"', 'import{x},y from"a"', 'import{if}from"a"', 'import{if as x}from"a"', 'import eval from"a"', 'import{x as eval}from"a"', 'import"a"', 'import{}from"a"', 'import x', 'import{default}from"a"', 'import{default as x}from"a"', 'import x from a', 'export function f(){}export{f}', 'import{a}from"m";let a', 'import{a}from"m";function a(){}', 'let undefined', 'var undefined', 'let NaN', 'function f(){let undefined}', 'async x=>{function await(){}}', 'async()=>{var await}', 'async()=>{await:1}', 'await:1', 'yield:1', 'function*g(){yield:1}', 'let:1', 'static:1', 'async:1', 'if:1', 'x={f(){super.x}}', 'x={f:function(){super.x}}', 'x={f:()=>super.x}', 'x={f(){super()}}', 'x={get f(){return super.x}}', 'class A{f(){(()=>super.x)()}}', 'class A extends B{constructor(){(()=>super())()}}', 'class A extends B{constructor(a=super()){}}', 'function f(){super.x}', 'function f(a=super.x){}', 'function f(){new.target}', '()=>new.target', 'x={f(){new.target}}', 'class A{x=new.target}', 'new.foo', 'new.t\\u0061rget', 'import.foo', 'import.m\\u0065ta', '({a:b}={c:d=1})', '[a]=[b=1]', '[a,b]=[c]=d', '({a,b}={c}=d)', '[a+1]=b', '[a()]=b', '[this]=b', '[a.b,c[d]]=e', '({a:b.c,d:e[f]}=g)', '[...a.b]=c', '[...{a}]=b', '[a=1,{b=2}]=c', '[[a]=1]=b', '[a|=1]=b', '({a:b|=1}=c)', '({a}|=b)', '[a]+=b', '({a}=>1)', 'a=b=>c=d', 'a={b}=c', 'a=[b]=c', 'for(var i=0 in{});', 'for(var [a]=0 in{});', 'for(var i=0,j in{});', '`a${b}c${d}e`', 'a`b``c`', 'a?.[0]?.(1)?.b', 'a?.5:1', 'a?.b?c:d', 'delete a?.b', 'delete super.x', 'void 0', 'typeof typeof a', '- -a', '+-+a', 'a- -b', 'a--b', 'a-- -b', 'a--\n>b', 'a<!--b', '\n-->c', 'a\u2028b', '"\u2028"', '/\u2028/', '`\u2028`', '//\u2028a b', '/*\u2028*/a', 'a/*\n*/++b', 'a/**/++'];
const CTX = [s => s, s => '{' + s + '}', s => 'function f(){' + s + '}', s => 'function*f(){' + s + '}', s => 'async function f(){' + s + '}', s => 'async function*f(){' + s + '}', s => '()=>{' + s + '}', s => 'async()=>{' + s + '}', s => 'for(;;){' + s + '}', s => 'L:for(;;){' + s + '}', s => 'L:{' + s + '}', s => 'switch(1){case 1:' + s + '}', s => 'if(1)' + s, s => 'if(1){' + s + '}', s => 'while(0)' + s, s => 'L:' + s, s => 'x={m(){' + s + '}}', s => 'x={*m(){' + s + '}}', s => 'x={async m(){' + s + '}}', s => 'class A{m(){' + s + '}}', s => 'class A extends B{constructor(){' + s + '}}', s => 'class A extends B{static m(){' + s + '}}', s => 'class A{static{' + s + '}}', s => 'try{' + s + '}catch{}', s => 'try{}finally{' + s + '}', s => '"use strict";' + s, s => 'function f(){"use strict";' + s + '}', s => 'function f(){"a";"use strict";' + s + '}', s => 'x=' + s, s => '(' + s + ')', s => '[' + s + ']', s => 'f(' + s + ')', s => '`${' + s + '}`', s => '({a:' + s + '})', s => '({[' + s + ']:1})', s => 'class A{x=' + s + '}', s => 'class A{[' + s + ']=1}', s => 'class A extends(' + s + '){}', s => 'function f(a=' + s + '){}', s => 'async function f(a=' + s + '){}', s => 'function*f(a=' + s + '){}', s => '(a=' + s + ')=>1', s => 'async(a=' + s + ')=>1', s => 'a=>' + s, s => 'async a=>' + s, s => 'a?' + s + ':b', s => 'for(x of ' + s + ');', s => 'for(var x=' + s + ';;);', s => 'function*f(){function g(){' + s + '}}', s => 'async function f(){()=>{' + s + '}}', s => 'function*f(){()=>{' + s + '}}', s => 'class A{m(){()=>{' + s + '}}}', s => 'class A{m(){function g(){' + s + '}}}', s => 'var{a=' + s + '}=b', s => 'for(;;){()=>{' + s + '}}', s => 'L:for(;;){function f(){' + s + '}}', s => s + '\nx', s => s + ';x', s => 'a\n' + s, s => 'do ' + s + '\nwhile(0)'];
function* fragCells() { for (const c of CTX) for (const f of FRAG) yield { src: c(f), frag: f }; }
function* fragMatrix() { for (const c of CTX) for (const f of FRAG) yield c(f); }
// the same expressions, one level deeper in another expression
const DEEP = ['yield', 'yield x', 'await', 'await x', 'super.x', 'super()', 'new.target', 'arguments', 'eval=1', '01', '(a,a)=>1', 'a.#p', 'import.meta', '{a=1}', '({a=1})', '{a=1}=b', 'delete x', '"\\01"', '()=>{return}', '()=>{break}', 'async()=>await x', 'function*(){yield}', 'class{constructor(){super()}}', 'class{x=arguments}', '...x', 'let', 'static', 'a?.b=1', 'a()++', '(a=1)=2', '`\\01`', 'x=>{"use strict";with(a);}', 'enum', 'a\n=>1'];
const WRAP = [s => `a?${s}:c`, s => `a?b:${s}`, s => `(${s})?b:c`, s => `[${s}]`, s => `[...${s}]`, s => `[,${s},]`, s => `({a:${s}})`, s => `({...${s}})`, s => `({[${s}]:1})`, s => `({[${s}](){}})`, s => `f(${s})`, s => `f(...${s})`, s => `f(a,${s})`, s => `new f(${s})`, s => `a[${s}]`, s => `a?.[${s}]`, s => `a?.(${s})`, s => `\`\${${s}}\``, s => `t\`a\${${s}}b\``, s => `a+(${s})`, s => `a&&(${s})`, s => `a??(${s})`, s => `!(${s})`, s => `typeof(${s})`, s => `(a,${s})`, s => `(${s},a)`, s => `b=${s}`, s => `b+=${s}`, s => `[b=${s}]=c`, s => `{b:a=${s}}=c`, s => `({b:a=${s}}=c)`, s => `({b=${s}}=c)`, s => `b=>${s}`, s => `(b=${s})=>1`, s => `async b=>${s}`, s => `async(b=${s})=>1`, s => `({m(a=${s}){}})`, s => `({async m(a=${s}){}})`, s => `({*m(a=${s}){}})`, s => `function(a=${s}){}`, s => `function*(a=${s}){}`, s => `class extends(${s}){}`, s => `class{[${s}](){}}`, s => `class{x=${s}}`, s => `class{static x=${s}}`, s => `class{static{${s}}}`, s => `(${s}).x`, s => `(${s})()`, s => `(${s})\`\``, s => `import(${s})`, s => `b**(${s})`, s => `(${s})++`, s => `x=y=${s}`, s => `({get a(){return ${s}}})`];
const DCTX = [s => `(${s})`, s => `x=${s}`, s => `function f(a=${s}){}`, s => `async function f(){x=${s}}`, s => `function*f(){x=${s}}`, s => `async function*f(){x=${s}}`, s => `async function f(a=${s}){}`, s => `function*f(a=${s}){}`, s => `(a=${s})=>1`, s => `async(a=${s})=>1`, s => `async(a=${s})`, s => `function*f(){(a=${s})=>1}`, s => `async function f(){(a=${s})=>1}`, s => `async function f(){async(a=${s})=>1}`, s => `({a=${s}})=>1`, s => `([a=${s}])=>1`, s => `function*f(){({a=${s}})=>1}`, s => `class A extends B{constructor(){x=${s}}}`, s => `class A{x=${s}}`, s => `class A{static{x=${s}}}`, s => `class A{#p;m(){x=${s}}}`, s => `({m(){x=${s}}})`, s => `"use strict";x=${s}`, s => `for(var a of[${s}]);`, s => `for(var a=${s};;);`, s => `for(a in[${s}]);`, s => `export default ${s}`, s => `let{a=${s}}=1`, s => `var[a=${s}]=1`, s => `({a=${s}}=1)`, s => `return ${s}`, s => `throw ${s}`, s => `async a=>${s}`, s => `function*f(){class A{[${s}](){}}}`, s => `async function f(){class A extends(${s}){}}`];
// calls of a function named async with await or yield in their arguments are left out (known findings of C02)
function* deepCells() { for (const c of DCTX) for (const w of WRAP) for (const f of DEEP) { const s = c(w(f)); if (!/\basync\(.*\b(await|yield)\b/s.test(s)) yield s; } }
// ends and beginnings of statements joined by a line break, a space, a comment or nothing
const ENDS = ['a', 'a++', 'a--', 'a.b', 'a?.b', 'a[0]', 'a()', 'a?.()', '`t`', '`${a}`', '"s"', '1', '1n', '1.', '.5', '/r/', '/r/g', '/=/', 'this', 'null', 'true', 'super_', 'x=a', 'x=>a', 'x=>{}', 'async x=>{}', 'async', 'x=async', 'let', 'yield_', 'get', 'set', 'static', 'of', 'await_', 'from', 'as', 'new a', 'new a()', 'typeof a', 'void 0', 'delete a.b', 'a?b:c', 'a,b', '[a]', '({})', '(a)', 'x={}', 'x=[]', 'x=function(){}', 'x=class{}', 'x=class{a=1}', 'var a', 'var a=1', 'let b', 'let b=c', 'const d=1', 'function g(){}', 'function*g(){}', 'async function g(){}', 'class A{}', '{}', '{a}', ';', 'if(a)b', 'if(a){}', 'if(a)b;else c', 'for(;;)a', 'for(;;){}', 'while(0)a', 'do a;while(0)', 'do{}while(0)', 'L:a', 'L:{}', 'try{}catch{}', 'switch(a){}', 'debugger', 'throw a', '"use strict"', 'a\\u0062', 'i\u0066_', 'import.meta', 'import("a")', 'import a from"a"', 'export{}', 'export*from"a"', 'export default a', 'export default function(){}', 'export default class{}', 'export var z'];
const STARTS = ['a', '++a', '--a', '+a', '-a', '!a', '~a', '(a)', '(a)=>b', '()=>{}', '[a]', '[a]=b', '`t`', '/r/', '/r/g', '/r/.test(a)', '/=/', '/a', '/a/b', '*a', '.a', '?.a', '?a:b', ':a', ',a', '=a', '=>a', '==a', '<a', '<<a', '>a', '&&a', '||a', '??a', '&a', '|a', '^a', '%a', '**a', 'in a', 'instanceof a', 'of a', 'as a', '{}', '{a}', '{a}=b', '({a}=b)', '"s"', '1', '.5', '1n', 'this', 'function f(){}', 'function(){}', 'function f(){}()', 'async function f(){}', 'async()=>{}', 'async x=>x', 'async', 'class B{}', 'class{}', 'let e', 'let[e]=a', 'let{e}=a', 'let', 'var e', 'const e=1', 'if(a)b', 'else c', 'for(;;)a', 'while(0)a', 'do a;while(0)', 'while(0)', 'catch{}', 'finally{}', 'case 1:', 'return', 'throw a', 'break', 'debugger', 'new a', 'typeof a', 'void 0', 'delete a.b', 'yield', 'await a', 'import.meta', 'import("b")', 'import"b"', 'export{}', 'get a', 'static', ';', ';;', '}', ')', ']', '"use strict"', 'with(a)b', 'M:a', '#p', '@a', '\\u0061', '..a', '...a', '&&=a', '+=a', '++', '--', '!', '?', '=', '(', '{'];
const GAPS = ['\n', ' ', '', '/*\n*/', '//\n', '\r', '\u2028', ';'];
function* joins() { for (const a of ENDS) for (const b of STARTS) for (const g of GAPS) { yield a + g + b; } for (const a of ENDS) for (const b of STARTS) { yield `function f(){${a}\n${b}}`; yield `async function*f(){${a}\n${b}}`; yield `if(x)${a}\n${b}`; yield `{${a} ${b}}`; } }
// statements which stop at a line break
const STOP = ['return', 'break', 'continue', 'throw', 'yield', 'await', 'async', 'break L', 'continue L', 'return a', 'x=yield', 'x=async', 'var a=async', 'export default async', 'typeof', 'new', 'a=>', 'let', 'static', 'get', 'set', 'import', 'export', 'for', 'if', 'do', 'else', 'class', 'function', 'var', 'a.', 'a?.', 'new.', 'import.'];
function* stops() { for (const a of STOP) for (const b of STARTS) for (const g of ['\n', ' ', '/*\n*/', '/**/']) for (const c of [s => s, s => `L:for(;;){${s}}`, s => `function f(){${s}}`, s => `async function*f(){${s}}`, s => `class C{${s}}`, s => `x={${s}}`]) yield c(a + g + b); }
// the three matrices above; flags of regular expressions with escapes are outside
function* allCells() {
  for (const [from, g] of [['joins', joins], ['stops', stops], ['nesting', deepCells]]) for (const s of g()) if (!/\/g\\u/.test(s)) yield { src: s, frag: s, from };
}
module.exports = { allCells, joins, stops, deepCells, dupMatrix, fragCells, fragMatrix, FRAG, CTX, D, C };
