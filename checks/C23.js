'use strict';
const path = require('path'), fs = require('fs'), cp = require('child_process');
const W = require('../lib/work'), R = require('../lib/ref'), U = require('../lib/util'), { Rng } = require('../lib/rng'), { shrink } = require('../lib/shrink');
const BIN = path.join(__dirname, '..', 'bin');
const noLoc = o => JSON.stringify(o, (k, v) => (k === 'loc' ? undefined : v));
const canon = o => JSON.stringify(o, (k, v) => (v && typeof v === 'object' && !Array.isArray(v) ? Object.fromEntries(Object.keys(v).sort().map(x => [x, v[x]])) : v));
const at = (x, y) => { let i = 0; while (i < x.length && x[i] === y[i]) i++; return `...${x.slice(Math.max(0, i - 60), i + 60)}... and ...${y.slice(Math.max(0, i - 60), i + 60)}...`; };
const SETS = [{ ...R.MODES.script }, { ...R.MODES.module }, {}, { off: ['JSX'], on: ['TS'] }, { on: ['TS', 'DECORATOR'] }];
// library: positions switched off only take the positions away
function judgeLC(a, b) {
  if (a.panic || a.died || a.hang) return { skip: 'crash with positions' };
  if (b.panic || b.died || b.hang) return { cls: 'nolc crash', bad: 'without positions: ' + String(b.panic || b.died || 'hang').slice(0, 300) };
  if (a.ok !== b.ok) return { cls: 'nolc accept', bad: `accepted ${a.ok} with positions, ${b.ok} without` };
  if (!a.ok) return a.err.msg === b.err.msg ? { rej: 1 } : { cls: 'nolc error', bad: `error ${a.err.msg} with positions, ${b.err.msg} without` };
  const x = noLoc(a.val), y = noLoc(b.val); if (x !== y) return { cls: 'nolc tree', bad: 'with and without positions: ' + at(x, y) };
  return { n: x.length };
}
const NAMES = ['a.js', 'a b.js', 'a.b.c.js', 'noext', "it's.mjs", '$(touch x).js', 'é.jsx', '-x.js', 'a;b.js'];
function cli(dir, c) {
  const f = path.join(dir, c.name), d = path.dirname(f), ext = path.extname(c.name === '.js' ? 'x.js' : c.name), out = path.join(d, path.basename(c.name, ext) + '_ast' + ext);
  for (const e of fs.readdirSync(d)) fs.rmSync(path.join(d, e), { recursive: true });
  fs.writeFileSync(f, c.src);
  const r = cp.spawnSync(path.join(BIN, 'mole_cli'), ['-ast', ...(c.perf ? ['-perf'] : []), '-file=' + f], { cwd: d, encoding: 'utf8', timeout: 60000, maxBuffer: 1 << 28 });
  let text = null; try { text = fs.readFileSync(out, 'utf8'); } catch (e) { }
  const left = fs.readdirSync(d).filter(e => e !== c.name && e !== path.basename(out) && !(c.perf && /^(cpu\.prof|heap\.out)$/.test(e)));
  return { code: r.status, sig: r.signal, err: r.stderr, stdout: r.stdout, text, left, same: fs.readFileSync(f, 'utf8') === c.src };
}
function judgeCli(c, a, o) {
  if (a.panic || a.died || a.hang) return { skip: 'crash' };
  if (!o.same) return { cls: 'cli input', bad: 'the command changed the file it read' };
  if (o.left.length) return { cls: 'cli files', bad: 'the command left files ' + o.left };
  if (/panic:|goroutine \d/.test(o.err) || o.sig) return { cls: 'cli crash', bad: 'the command crashed: ' + (o.sig || '') + o.err.slice(0, 300) };
  if (a.ok) {
    if (o.code !== 0) return { cls: 'cli status', bad: `the command failed (${o.code}) ${o.err.slice(0, 200)} on a program the library parses` };
    if (o.text === null) return { cls: 'cli nofile', bad: 'the command wrote no tree' };
    let v; try { v = JSON.parse(o.text); } catch (e) { return { cls: 'cli json', bad: 'the file written is not JSON: ' + o.text.slice(0, 100) }; }
    const x = canon(JSON.parse(noLoc(v))), y = canon(JSON.parse(noLoc(a.val))); return x === y ? {} : { cls: 'cli tree', bad: 'command and library: ' + at(x, y) };
  }
  if (o.text !== null) return { cls: 'cli file', bad: 'the command wrote a tree for a program the library rejects' };
  if (o.code === 0) return { cls: 'cli quiet', bad: `the command exits 0 on a program the library rejects (${a.err.msg})` };
  return (o.err + o.stdout).includes(a.err.msg) ? { rej: 1 } : { cls: 'cli error', bad: `the command says ${JSON.stringify((o.err + o.stdout).slice(0, 200))}, the library ${a.err.msg}` };
}
let W8 = null;
async function wasm() { // one instance of the WebAssembly build in this process
  if (W8) return W8;
  const src = fs.readFileSync(path.join(cp.execFileSync('bash', ['-c', '. /opt/vp/env.sh >/dev/null 2>&1; go env GOROOT'], { encoding: 'utf8' }).trim(), 'lib/wasm/wasm_exec.js'), 'utf8');
  require('vm').runInThisContext(src, { filename: 'wasm_exec.js' });
  const go = new globalThis.Go(), m = await WebAssembly.instantiate(fs.readFileSync(path.join(BIN, 'mole.wasm')), go.importObject);
  let dead = null; go.run(m.instance).then(() => { dead = 'exited'; }, e => { dead = String(e); });
  await new Promise(r => setImmediate(r));
  return W8 = s => { try { const r = globalThis.compile(s); return { json: r[0], err: r[1] }; } catch (e) { return { crash: String(e).slice(0, 200), dead }; } };
}
function judgeWasm(a, o) {
  if (a.panic || a.died || a.hang) return { skip: 'crash' };
  if (o.crash) return { cls: 'wasm crash', bad: 'compile() throws ' + o.crash };
  if (a.ok) {
    if (o.err) return { cls: 'wasm reject', bad: `compile() reports ${o.err} for a program the library parses` };
    let v; try { v = JSON.parse(o.json); } catch (e) { return { cls: 'wasm json', bad: 'compile() gives no JSON: ' + String(o.json).slice(0, 100) }; }
    const x = canon(v), y = canon(a.val); return x === y ? {} : { cls: 'wasm tree', bad: 'compile() and library: ' + at(x, y) };
  }
  if (o.json) return { cls: 'wasm accept', bad: 'compile() gives a tree for a program the library rejects' };
  return o.err === a.err.msg ? { rej: 1 } : { cls: 'wasm error', bad: `compile() reports ${JSON.stringify(o.err)}, the library ${JSON.stringify(a.err.msg)}` };
}
module.exports = {
  rule: 'the same sources (generated, snippets, real files, broken ones) given to the library with and without positions, to the command line program (files with hostile names in a scratch directory) and to compile() of the WebAssembly build; trees compared in full, errors by message; a case counts when the two sides were compared',
  need: { 'positions on and off': 20000, 'command line runs': 1200, 'compile() calls': 6000, 'command line rejections': 200, 'compile() rejections': 500 },
  async shard(ctx) {
    const d = ctx.driver(), seed = 'C23|' + ctx.seed, report = async (kind, c, v, again) => {
      if (ctx.viol.length > 6) { ctx.stat('violations'); return; }
      const src = await shrink(c.src, async s => (await again({ ...c, src: s })).cls === v.cls, kind === 'cli' ? 150 : 500), w = await again({ ...c, src });
      ctx.violation({ key: kind + ' ' + src, cls: v.cls, what: `${JSON.stringify(src).slice(0, 200)}${c.name ? ' in ' + c.name : ''}: ${w.bad || v.bad}`, ...c, src, kind });
    };
    let lc = [], cl = [], wa = []; const add = (src, s) => { const r = new Rng(seed + src.slice(0, 50) + s); lc.push({ src, set: s }); wa.push({ src }); cl.push({ src, name: r.pick(NAMES), perf: r.bool(0.01) }); };
    for (const i of ctx.range(ctx.n(6000, 60000))) add(W.genProgram(seed, i).src, i % SETS.length);
    W.snips().forEach((s, i) => { if (!ctx.mine(i)) return; for (let k = 0; k < SETS.length; k++) lc.push({ src: s.src, set: k }); add(s.src, i % SETS.length); const m = W.mutate(s.src, new Rng(seed + i), 'module', 1); if (m) add(m, i % SETS.length); });
    W.realFiles().filter((f, i) => i % Math.max(1, Math.floor(W.realFiles().length / ctx.n(150, 2000))) === 0).forEach((f, i) => { if (ctx.mine(i)) { const s = fs.readFileSync(f, 'utf8'); if (s.length < 300000 && !s.includes('\ufffd')) add(s, i % SETS.length); } });
    const rq = (c, nolc) => ({ op: 'parse', src: c.src, nolc, ...SETS[c.set || 0] }), def = c => ({ op: 'parse', src: c.src });
    const oneLC = async c => judgeLC(await d.req(rq(c, false)), await d.req(rq(c, true)));
    await d.all(lc, c => rq(c, false), async (c, a) => {
      ctx.ev(); const v = judgeLC(a, await d.req(rq(c, true))); if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
      if (v.bad) return report('nolc', c, v, oneLC); ctx.stat('positions on and off'); if (v.n) ctx.stat('bytes of trees', v.n); ctx.distinct('l' + c.set + c.src);
    }, 8);
    const w8 = await wasm(), oneW = async c => judgeWasm(await d.req(def(c)), w8(c.src));
    const bad = s => /[\ud800-\udfff]/.test(s.replace(/[\ud800-\udbff][\udc00-\udfff]/g, '')); // not a text: lone surrogates
    for (const c of wa) {
      if (bad(c.src)) { ctx.stat('skipped: surrogate'); continue; }
      ctx.ev(); const v = await oneW(c); if (v.skip) { ctx.stat('skipped: ' + v.skip); continue; }
      if (v.bad) { await report('wasm', c, v, oneW); if (v.cls === 'wasm crash') break; continue; }
      ctx.stat('compile() calls'); if (v.rej) ctx.stat('compile() rejections'); ctx.distinct('w' + c.src);
    }
    const dir = U.scratch(), step = ctx.thorough ? 1 : 5;
    try {
      const oneC = async c => judgeCli(c, await d.req(def(c)), cli(dir, c));
      for (let i = 0; i < cl.length; i += step) {
        const c = cl[i]; if (bad(c.src)) continue; ctx.ev(); const v = await oneC(c); if (v.skip) { ctx.stat('skipped: ' + v.skip); continue; }
        if (v.bad) { await report('cli', c, v, oneC); continue; }
        ctx.stat('command line runs'); if (v.rej) ctx.stat('command line rejections'); if (c.perf) ctx.stat('profiled runs'); ctx.distinct('c' + c.name + c.src); ctx.sample(c.name + ' ' + c.src.slice(0, 60));
      }
    } finally { U.rmrf(dir); }
  },
  async replay(c, ctx) {
    const d = ctx.driver(); let v;
    if (c.kind === 'nolc') v = judgeLC(await d.req({ op: 'parse', src: c.src, ...SETS[c.set || 0] }), await d.req({ op: 'parse', src: c.src, nolc: true, ...SETS[c.set || 0] }));
    else { const a = await d.req({ op: 'parse', src: c.src }); if (c.kind === 'wasm') v = judgeWasm(a, (await wasm())(c.src)); else { const dir = U.scratch(); try { v = judgeCli(c, a, cli(dir, c)); } finally { U.rmrf(dir); } } }
    console.log(c.src, v); if (v.bad) ctx.violation({ key: c.src, what: v.bad });
  },
};
