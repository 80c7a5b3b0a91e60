'use strict';
// Runs one check: its shards in worker threads (fixed case lists, decided by
// VERIF_SEED and the tier only), merges what the monitors observed, matches
// violations against the committed known findings and writes the evidence.
const fs = require('fs'), path = require('path'), crypto = require('crypto');
const { Worker, isMainThread, parentPort, workerData } = require('worker_threads');
const ROOT = path.join(__dirname, '..');
const SHARDS = 8;
const h = s => crypto.createHash('sha1').update(typeof s === 'string' ? s : JSON.stringify(s)).digest('base64').slice(0, 11);

class Ctx {
  constructor(o) {
    Object.assign(this, o); // id, tier, seed, shard, shards
    this.evals = 0; this.keys = new Set(); this.samples = []; this.stats = {}; this.viol = []; this.hits = new Set(); this.kf = o.noKnown ? [] : known().filter(k => k.property === o.id && k.status === 'known');
  }
  get thorough() { return this.tier === 'thorough'; }
  // size of a case list per tier
  n(quick, thorough) { return this.thorough ? (thorough || quick * 10) : quick; }
  mine(i) { return i % this.shards === this.shard; }
  *range(n) { for (let i = this.shard; i < n; i += this.shards) yield i; }
  ev(n = 1) { this.evals += n; }
  stat(k, n = 1) { this.stats[k] = (this.stats[k] || 0) + n; }
  distinct(k) { this.keys.add(h(k)); }
  sample(s) { if (this.samples.length < 3 && !this.samples.includes(s)) this.samples.push(typeof s === 'string' ? s.slice(0, 400) : s); }
  // v: {key, what, ...case}; key identifies the failing input exactly
  // a listed finding: the very input, or the very fragment failing in the same way
  isKnown(v) { const i = this.kf.findIndex(k => k.key !== undefined ? k.key === v.key : k.frag !== undefined && k.frag === v.frag && String(v.cls).startsWith(k.cls)); if (i >= 0) { this.hits.add(i); this.stat('known findings met'); } return i >= 0; }
  violation(v) { if (this.isKnown(v)) return; this.stat('violations'); if (this.viol.length < 40) this.viol.push(v); }
  driver(bin, env) { const { Driver } = require('./drv'); const d = new Driver(bin, env); (this.drivers = this.drivers || []).push(d); return d; }
}
function known() {
  const f = path.join(ROOT, 'known-findings.jsonl');
  if (!fs.existsSync(f)) return [];
  return fs.readFileSync(f, 'utf8').split('\n').filter(l => l.startsWith('{')).map(l => JSON.parse(l));
}
async function runShard(file, o) {
  const chk = require(file);
  const ctx = new Ctx(o);
  await chk.shard(ctx);
  for (const d of ctx.drivers || []) d.close();
  return { evals: ctx.evals, keys: [...ctx.keys], samples: ctx.samples, stats: ctx.stats, viol: ctx.viol, hits: [...ctx.hits] };
}
async function main(id, tier, replay) {
  const t0 = Date.now();
  const file = path.join(ROOT, 'checks', id + '.js');
  const chk = require(file);
  const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 0;
  if (replay) {
    const c = JSON.parse(fs.readFileSync(replay, 'utf8'));
    const ctx = new Ctx({ id, tier, seed: c.seed, shard: 0, shards: 1, noKnown: true });
    await chk.replay(c, ctx);
    for (const d of ctx.drivers || []) d.close();
    for (const v of ctx.viol) console.log('VIOLATION property=' + id + ' replay=' + path.resolve(replay) + '\n  ' + v.what);
    return ctx.viol.length ? 1 : 0;
  }
  const shards = chk.shards || SHARDS;
  const parts = await Promise.all(Array.from({ length: shards }, (_, k) => new Promise((res, rej) => {
    const w = new Worker(__filename, { workerData: { file, o: { id, tier, seed, shard: k, shards } }, resourceLimits: { maxOldGenerationSizeMb: 3000, stackSizeMb: 16 } });
    w.on('message', res); w.on('error', rej);
    w.on('exit', c => { if (c) rej(new Error('shard ' + k + ' exit ' + c)); });
  })));
  const keys = new Set(); let evals = 0; const samples = [], stats = {}; let viol = [];
  for (const p of parts) {
    evals += p.evals; p.keys.forEach(k => keys.add(k)); samples.push(...p.samples); viol.push(...p.viol);
    for (const k in p.stats) stats[k] = (stats[k] || 0) + p.stats[k];
  }
  if (chk.finish) viol.push(...(chk.finish({ evals, stats, tier }) || []));
  const kf = known().filter(k => k.property === id && k.status === 'known');
  const hit = new Set(), fresh = viol;
  for (const p of parts) for (const i of p.hits) hit.add(kf[i]);
  // the findings are re-observed on every run: print those whose input still fails
  if (chk.probe) for (const k of kf) { if (hit.has(k)) continue; const ctx = new Ctx({ id, tier, seed, shard: 0, shards: 1, noKnown: true }); await chk.probe(k, ctx); for (const d of ctx.drivers || []) d.close(); if (ctx.viol.length) hit.add(k); }
  for (const k of hit) console.log('KNOWN-FINDING: property=' + id + ' ' + k.what);
  let stop = null;
  if (!fresh.length && chk.need) for (const [k, n] of Object.entries(chk.need)) if ((stats[k] || 0) < n) stop = `inconclusive: observed ${stats[k] || 0} ${k}, at least ${n} needed`;
  const evf = path.join(ROOT, 'evidence', id + '.json');
  fs.mkdirSync(path.join(ROOT, 'evidence', 'replay'), { recursive: true });
  const seen = new Set(); const lines = [];
  for (const v of fresh) {
    const cls = v.cls || v.what; if (seen.has(cls) || seen.size >= 8) continue; seen.add(cls);
    const rp = path.join(ROOT, 'evidence', 'replay', id + '-' + seen.size + '.json');
    fs.writeFileSync(rp, JSON.stringify({ property: id, seed, tier, ...v }, null, 1));
    lines.push('VIOLATION property=' + id + ' replay=' + rp, '  ' + String(v.what).slice(0, 600));
  }
  const ev = {
    property: id, tier, seed, level: chk.level || 'exploration',
    coverage: { evaluations: evals, distinct_nontrivial: keys.size, rule: chk.rule, samples: samples.slice(0, 6), observed: stats },
    wall_s: +((Date.now() - t0) / 1000).toFixed(2),
    violations: lines.length / 2, verdict: fresh.length ? 'violated' : stop ? 'inconclusive' : 'held on what was observed',
  };
  fs.writeFileSync(evf, JSON.stringify(ev, null, 1) + '\n');
  for (const l of lines) console.log(l);
  if (fresh.length) return 1;
  if (stop) { console.log(id + ' ' + stop); return 2; }
  console.log(`${id} held: ${evals} evaluations, ${keys.size} distinct, ${ev.wall_s}s ${JSON.stringify(stats).slice(0, 600)}`);
  return 0;
}
if (!isMainThread && workerData && workerData.o) {
  runShard(workerData.file, workerData.o).then(r => { parentPort.postMessage(r); }, e => { setImmediate(() => { throw e; }); });
} else if (require.main === module) {
  const [id, tier, rp, f] = process.argv.slice(2);
  main(id, tier || process.env.VERIF_TIER || 'quick', rp === '--replay' ? f : null).then(c => process.exit(c), e => { console.error(e && e.stack || e); process.exit(3); });
}
module.exports = { Ctx, known, ROOT };
