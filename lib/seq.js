'use strict';
// Sequences of items whose legality (or shape) depends on each other: members
// of classes, clauses of switches, module items, params, properties, labels,
// directives. Pairs and triples over small alphabets, in a few contexts.
function* tuples(al, n) { if (n === 0) { yield []; return; } for (const t of tuples(al, n - 1)) for (const a of al) yield [...t, a]; }
const SW = ['case 1:', 'default:', 'case 2:break;', 'default:let x;', 'case x:{}', 'case a,b:', 'case(a):;'];
const MEM = ['constructor(){}', 'constructor(){super()}', '"constructor"(){}', "static constructor(){}", 'get constructor(){}', 'static get constructor(){}', '["constructor"](){}', 'constructor', '"constructor"=1', 'static prototype(){}', 'static get prototype(){}', 'static prototype', 'static ["prototype"]', '["constructor"]', 'static "prototype"(){}', 'prototype(){}', 'static ["prototype"](){}', '#a', '#a(){}', 'get #a(){}', 'set #a(v){}', 'static #a', 'static get #a(){}', 'static set #a(v){}', 'static{this.#a}', 'm(){this.#a}', '#b=this.#a', 'async #a(){}', '*#a(){}', 'static async*#a(){}', 'static{}', 'get', 'set', 'static', 'async', 'get x(){}', 'set x(v){}', 'get x(v){}', 'set x(){}', 'set x(...v){}', 'set x(v,w){}', 'set x({a}=1){}', 'static static', 'static get', 'async\nx(){}', 'get\nx(){}', 'static\nx', 'async*x(){}', 'x=arguments', 'x=super.y', 'x=super()', 'x=()=>arguments', 'x=function(){arguments}', '[arguments]', 'static{await}', 'static{arguments}', 'static{return}', 'static{let a;let a}', 'static{var a;let a}', 'x=await', 'x=yield', 'x\ny', 'x=1\n*y(){}', 'x\n[y]', '1', '1n', '"s"', '[x]', 'in', 'in(){}', 'get in(){}', 'await', 'yield'];
const MOD = ['export{a}', 'export{a as b}', 'export{a as default}', 'export default 1', 'export default function(){}', 'export default function a(){}', 'export default class{}', 'export default class a{}', 'export default async function(){}', 'export default async()=>1', 'export default a', 'export let a', 'export var a', 'export const a=1', 'export function a(){}', 'export class a{}', 'export async function b(){}', 'export var{a,b}=1', 'export let[a,...b]=1', 'export*from"m"', 'export*as a from"m"', 'export*as default from"m"', 'export{a}from"m"', 'export{default}from"m"', 'export{default as a}from"m"', 'export{a as b,b as a}', 'export{a,a}', 'export{}', 'import"m"', 'import a from"m"', 'import*as a from"m"', 'import{a}from"m"', 'import{a as b}from"m"', 'import b,{a}from"m"', 'import{a,a}from"m"', 'import{default as a}from"m"', 'import{default}from"m"', 'import b,*as a from"m"', 'let a', 'var a', 'const a=1', 'function a(){}', 'class a{}', 'let b', 'var b', '{var a}', '{let a}', 'a', 'import.meta', 'import("m")', 'export{default}', 'export{if as a}', 'export{a as if}', 'export{if}from"m"', 'import{if}from"m"', 'import{a as if}from"m"', 'import{eval}from"m"', 'export{let}', 'export default let', 'export default const a=1', 'export default var a', 'export a', 'export a,b', 'await 1', 'for await(x of y);'];
const PAR = ['a', 'b', '...a', '{a}', '[a]', 'a=1', '{a=1}', '{a:b}', '[b=a]', '...[a]', '...{a}', 'eval', 'arguments', 'yield', 'await', 'let', 'static', 'a=yield', 'a=await', 'a=super.x', 'a=arguments', '{...a}', '[...a]', '{...a=1}', '...a=1', '(a)', 'a.b', '{a:a.b}', 'enum', 'this', '{eval}', '{a:[b]}', '{get a(){}}', 'a=await x', 'a=yield 1', '{[a]:b}', '{"s":a}', '{1:a}', '', 'async', 'implements', '01=a', 'a=01', 'a="\\01"'];
const FNS = [(p, b) => `function f(${p}){${b}}`, (p, b) => `(function(${p}){${b}})`, (p, b) => `(${p})=>{${b}}`, (p, b) => `async(${p})=>{${b}}`, (p, b) => `function*f(${p}){${b}}`, (p, b) => `async function f(${p}){${b}}`, (p, b) => `async function*f(${p}){${b}}`, (p, b) => `({m(${p}){${b}}})`, (p, b) => `({*m(${p}){${b}}})`, (p, b) => `({async m(${p}){${b}}})`, (p, b) => `class A{m(${p}){${b}}}`, (p, b) => `class A{constructor(${p}){${b}}}`, (p, b) => `({set a(${p}){${b}}})`, (p, b) => `class A{static async*m(${p}){${b}}}`, (p, b) => `async function g(){(${p})=>{${b}}}`, (p, b) => `function*g(){(${p})=>{${b}}}`, (p, b) => `x=async function(${p}){${b}}`, (p, b) => `({get a(${p}){${b}}})`, (p, b) => `(${p})=>1;${b}`, (p, b) => `async(${p});${b}`];
const BODY = ['', '"use strict"', 'let a', 'var a', 'function a(){}', '{let a}', "'use strict';01", '"use strict";var eval'];
const PROP = ['__proto__:a', '"__proto__":a', '__proto__', '__proto__(){}', '["__proto__"]:a', 'get __proto__(){}', '...a', '__proto__=1', 'a', 'a=1', 'a:1', 'a:b', 'a:b=1', 'a:(b)', 'a:(b=1)', 'a:b.c', 'a:[b]', 'a:{b}', 'a:([b])', '...{a}', '...(a)', '...a.b', 'get a(){}', 'set a(v){}', 'get a(v){}', 'set a(){}', 'async a(){}', '*a(){}', 'async*a(){}', '1:a', '"s":a', '[a]:b', 'if:a', 'if', 'eval', 'arguments', 'yield', 'await', 'a(){super.x}', 'a:super.x', 'a(){super()}', '#a:1', 'get:1', 'get', 'async', 'async:1', 'get if(){}', 'true', 'this', 'let', 'a:let', 'a:eval', 'a:b()', 'a:b+=1', '...a,', '1', '"s"', '0b1:a', '1n:a', 'async get(){}', 'get*a(){}'];
const OBJ = [s => `({${s}})`, s => `({${s}}=x)`, s => `({${s}})=>1`, s => `let{${s}}=x`, s => `f({${s}})`, s => `[{${s}}]=x`, s => `for({${s}}of x);`, s => `for(var{${s}}of x);`, s => `async({${s}})=>1`, s => `async({${s}})`, s => `"use strict";({${s}}=x)`, s => `({a:{${s}}}=x)`, s => `x=>({${s}})`, s => `({${s}}+=x)`, s => `function f({${s}}){}`, s => `try{}catch({${s}}){}`];
const ELE = ['a', 'a=1', '...a', '', '(a)', '(a=1)', '([a])', '[a]', '{a}', '{a=1}', 'a.b', 'a()', '...[a]', '...(a)', '...a.b', '...a=1', '...{a}', 'eval', '1', 'a+b', 'a=>1', 'yield', 'await', 'this', 'new.target', 'a?.b', '`a`', '{a:1}', 'let', 'async', 'async()', 'super.x', 'import.meta', '...[a]=1', '[a]=1', '{a}=1', 'a+=1', '(a.b)', '(a,b)', '{get a(){}}'];
const ARR = [s => `[${s}]`, s => `[${s}]=x`, s => `([${s}])=>1`, s => `let[${s}]=x`, s => `f(${s})`, s => `(${s})`, s => `(${s})=>1`, s => `async(${s})=>1`, s => `async(${s})`, s => `for([${s}]of x);`, s => `for(let[${s}]of x);`, s => `new f(${s})`, s => `"use strict";[${s}]=x`, s => `({a:[${s}]}=x)`, s => `a?.(${s})`, s => `import(${s})`, s => `for([${s}]in x);`, s => `[[${s}]]=x`];
const LAB = ['L:', 'M:', 'for(;;)', 'while(0)', 'do ', 'if(1)', '{', 'switch(1){case 1:', '()=>{', 'function f(){', 'L\\u0061:', 'try{', 'with(a)', 'for(x of y)', 'class A{static{', 'async()=>{'];
const LEND = ['break', 'continue', 'break L', 'continue L', 'break M', 'continue M', ';', 'L:;', 'break\nL', 'continue\nL'];
const CLOSE = { '{': '}', 'switch(1){case 1:': '}', '()=>{': '}', 'function f(){': '}', 'do ': ';while(0)', 'try{': '}finally{}', 'class A{static{': '}}', 'async()=>{': '}' };
const DIR = ['"use strict"', "'use strict'", '"use\\x20strict"', '("use strict")', '"a"', '"\\01"', '"\\8"', '`use strict`', '"use strict"+1', '"use strict".x', '"use strict"\n', ';', '"use strict",1', "'use strict'\n[0]"];
const TAIL = ['01', 'with(a){}', 'delete x', 'eval=1', 'arguments++', 'var let', 'var static', 'function eval(){}', 'a=>{eval=1}', '"\\01"', 'yield', 'implements', 'if(1)function f(){}', 'L:function f(){}', 'function f(a,a){}', '({a:1,a:2})', 'for(let of x);', 'for(var x=1 in y);', 'for(let x=1 in y);', 'for(const x in y);', 'for(let in y);', 'for(let[a]in y);', 'for(async of x);', 'for(let.x in y);', 'for(let().x of y);', 'for(var x,y of z);', 'for(x=1 of y);', 'for(x,y of z);', 'for(x in y,z);', 'for(x of y,z);', 'for(const x;;);', 'for(let let of x);', 'for await(x of y);', 'try{}', 'try{}catch(a){let a}', 'try{}catch(a){var a}', 'try{}catch([a]){var a}', 'try{}catch([a,a]){}', 'try{}catch(eval){}', 'try{}catch(a){for(var a of b);}', 'throw\n1', 'a\n=>1', '()\n=>1', 'async\n()=>1', 'async a\n=>1', 'async\na=>1', 'a\n++b', 'a\n++\nb', 'new.target', 'if(1)let\n{}', 'do;while(0)x', 'let\nlet', 'enum', 'class let{}', 'class A extends eval{}', 'class yield{}', 'class await{}', 'class static{}', 'class eval{}', 'function let(){}', 'function yield(){}', 'function await(){}', 'function*yield(){}', '(function*yield(){})', 'async function await(){}', '(async function await(){})', 'return', 'import.meta', 'new import("x")', 'import(...x)', 'import()', 'import("x",)', 'super.x', 'a?.b=1', 'a?.b++', 'new a?.b()', 'a?.`x`', 'a?.b`x`', 'delete a?.b', '[a?.b]=x', 'for(a?.b of x);', '({a:b?.c}=x)', '1++', '++1', 'a++b', 'a()=1', 'a()++', 'for(a()of x);', '(a=1)=2', '[a]+=1', '{}=1', '({})=1', '({a})=1', '([a])=1', '(a,b)=1', '-1**2', '(-1)**2', '-a.b**2', 'await 1**2', 'typeof a**2', '++a**2', 'a**-b', 'a??b||c', 'a||b??c', '(a||b)??c', 'a&&b??c', 'a??b&&c', '\\u{110000}', '\\u{61}', '"\\u{110000}"', '"\\x"', '"\\u1"', '`\\x`', 'f`\\x`', '0b2', '0o8', '0x', '1_', '1__0', '_1', '0_1', '01_1', '1n', '1.n', '01n', '1e1n', '0b1n', '1a', '3in x', '3 in x', '0b1a', '"\n"', '/a', '/a/gg', '/[/]/', '/a\n/', '#!x', '@a', 'a#b', '`${', '`${}`', '`${a', '/*', '"\\', '\\u0061b', 'v\\u0061r x', 'l\\u0065t x', '({v\\u0061r})', 'n\\u0065w x', 'aw\\u0061it', '\\u0061sync()=>1', '\\u0061sync function f(){}', 'class A{st\\u0061tic m(){}}', '({g\\u0065t x(){}})', 'new.t\\u0061rget', 'import.m\\u0065ta', 'export d\\u0065fault 1', 'import a fr\\u006fm "m"', 'import * \\u0061s a from "m"', 'for(x \\u006ff y);', 'typ\\u0065of x'];
// listed as known findings (known-findings.jsonl), met through the fragments of rej.js
const LISTED = /^async\((?!.*=>).*await|^for\(\{("?)__proto__\1:a,("?)__proto__\2:a\}of/s;
function* all() { for (const x of all0()) if (!LISTED.test(x[1])) yield x; }
function* all0() {
  for (const n of [2, 3]) for (const t of tuples(SW, n)) yield ['switch', `switch(a){${t.join('')}}`];
  for (const t of tuples(SW.slice(0, 3), 4)) yield ['switch', `for(;;){switch(a){${t.join('')}}}`];
  for (const t of tuples(MEM, 2)) { yield ['class', `class A{${t.join(';')}}`]; yield ['class', `x=class extends B{${t.join('\n')}}`]; }
  for (const t of tuples(MEM.slice(0, 9).concat(MEM.slice(15, 25)), 3)) yield ['class', `class A extends B{${t.join(';')}}`];
  for (const m of MEM) { yield ['class', `class A{${m}}`]; yield ['class', `class A{static ${m}}`]; yield ['class', `class A extends B{${m}}`]; yield ['class', `class A{#a;m(){class C{${m}}}}`]; yield ['class', `async function f(){class A{${m}}}`]; yield ['class', `function*f(){class A{${m}}}`]; }
  for (const t of tuples(MOD, 2)) yield ['module', t.join(';')];
  for (const t of tuples(MOD.filter((x, i) => i % 4 === 0 || /^(let|var|const|function|class) a|export\{a|export default/.test(x)), 3)) yield ['module', t.join('\n')];
  for (const f of FNS) { for (const p of PAR) for (const b of BODY) yield ['params', f(p, b)]; for (const t of tuples(PAR, 2)) { yield ['params', f(t.join(','), '')]; } for (const t of tuples(PAR.slice(0, 6), 2)) for (const b of BODY) yield ['params', f(t.join(','), b)]; for (const t of tuples(PAR.slice(0, 6), 3)) yield ['params', f(t.join(','), '')]; }
  for (const f of OBJ) { for (const p of PROP) yield ['object', f(p)]; for (const t of tuples(PROP, 2)) yield ['object', f(t.join(','))]; }
  for (const f of ARR) { for (const p of ELE) yield ['array', f(p)]; for (const t of tuples(ELE, 2)) yield ['array', f(t.join(','))]; }
  for (const n of [0, 1, 2, 3]) for (const t of tuples(n === 3 ? LAB.slice(0, 10) : LAB, n)) for (const e of LEND) { let s = t.join('') + e; for (let i = t.length; i--;) s += CLOSE[t[i]] || ''; yield ['labels', s]; }
  for (const d of DIR) for (const s of TAIL) { yield ['directive', d + ';' + s]; yield ['directive', `function f(){${d};${s}}`]; yield ['directive', d + '\n' + s]; yield ['directive', `x={m(){"a";${d};${s}}}`]; yield ['directive', `(a)=>{${d}\n${s}}`]; }
  for (const s of TAIL) { yield ['tail', s]; yield ['tail', `async function f(){${s}}`]; yield ['tail', `function*f(){${s}}`]; yield ['tail', `{${s}}`]; yield ['tail', `class A{m(){${s}}}`]; yield ['tail', `class A{static{${s}}}`]; yield ['tail', `()=>{${s}}`]; yield ['tail', `x=>${s}`]; yield ['tail', `(${s})`]; yield ['tail', `\`\${${s}}\``]; yield ['tail', `a\n${s}\nb`]; }
}
module.exports = { all };
