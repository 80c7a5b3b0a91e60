'use strict';
const F = require('../lib/fid'), W = require('../lib/work'), J = require('../lib/rej'), S = require('../lib/seq'), fs = require('fs');
module.exports = {
  rule: 'generated programs in hostile layouts (CR, CRLF, LF, comments, wide and astral characters, BOM), snippets and real files; every node of a tree whose shape agrees is compared on its byte range and on line and column of both ends; non-trivial with more than 3 nodes',
  need: { compared: 3000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = []; const seed = 'C04|' + ctx.seed;
    for (const i of ctx.range(ctx.n(20000, 200000))) { const r = new W.Rng(seed + i); const g = W.genProgram(seed, i, { layout: r.pick(['wild', 'wild', 'lines']), gen: { unicode: r.bool(0.6), escid: r.bool(0.3) }, render: { unicode: true, bom: true } }); cases.push({ src: (r.bool(0.2) ? r.pick(['\n', '\r\n', '\r', '// é\n', '/* \u2028 */']) : '') + g.src + (r.bool(0.2) ? '\r\n' : ''), mode: g.mode, from: 'generated' }); }
    W.snips().forEach((s, i) => { if (ctx.mine(i) && !s.ts) for (const mode of ['script', 'module']) for (const nl of ['\n', '\r\n', '\r']) cases.push({ src: '/*é😀*/' + s.src.replace(/\n/g, nl), mode, from: 'snippet' }); });
    let k = 0; for (const c of J.fragCells()) if (ctx.mine(k++)) for (const mode of ['script', 'module']) cases.push({ ...c, src: 'é/*\r\n*/;' + c.src, mode, from: 'fragments' });
    k = 0; for (const [t, s] of S.all()) if (ctx.mine(k++) && (ctx.thorough || k % 3 === 0)) cases.push({ src: 'é\r' + s, mode: t === 'module' || k & 1 ? 'module' : 'script', from: 'sequences' });
    k = 0; for (const c of J.allCells()) if (ctx.mine(k++) && (ctx.thorough || k % 3 === 1)) cases.push({ ...c, src: 'é\n' + c.src, mode: k & 1 ? 'module' : 'script' });
    await F.run(ctx, d, cases, 'loc');
    const files = W.realFiles(); const step = Math.max(1, Math.floor(files.length / ctx.n(800, 5000))); const fc = [];
    files.filter((f, i) => i % step === ((ctx.seed + 3) % step)).forEach((f, i) => {
      if (!ctx.mine(i)) return; const src = fs.readFileSync(f, 'utf8'); if (src.startsWith('#!') || src.includes('\ufffd')) return;
      const m = ['script', 'module'].find(m => F.ref(src, m).ast); if (m) fc.push({ src, mode: m, from: 'file' });
    });
    await F.run(ctx, d, fc, 'loc');
  },
  replay: (c, ctx) => F.replay(c, ctx, 'loc'),
};
