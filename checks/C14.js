'use strict';
const J = require('../lib/cfgj'), C = J.C, W = require('../lib/work'), F = require('../lib/fid'), fs = require('fs');
async function judge(c, d, o) { o = o || await d.req(J.arg(c)); const f = J.form(c, o, await d.req(J.arg(c))); if (f.bad || f.skip || !c.markers) return f; const v = J.dead(c, o); return v.bad ? v : { ...f, ...v, g: f.n }; }
module.exports = {
  rule: 'graphs of programs made of markers with a lot of dead code, of snippets and of real files; what the graph has reachable was compared with a completion analysis of the reference tree, the form of the graph was checked and the analysis repeated; a case counts when it has dead code or more than 5 blocks',
  need: { 'programs judged': 5000, 'graphs looked at': 8000, 'dead markers': 1000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = [];
    for (const i of ctx.range(ctx.n(16000, 100000))) cases.push({ ...C.gen('C14|' + ctx.seed, i, { without: i % 3 ? ['finally'] : ['finally', 'more'] }), markers: true });
    W.snips().forEach((s, i) => { if (ctx.mine(i) && !s.ts) cases.push({ src: s.src, mode: 'script' }, { src: s.src, mode: 'module' }); });
    const files = W.realFiles(); const step = Math.max(1, Math.floor(files.length / ctx.n(300, 3000)));
    files.filter((f, i) => i % step === ((ctx.seed + 7) % step)).forEach((f, i) => { if (!ctx.mine(i)) return; const src = fs.readFileSync(f, 'utf8'); const m = ['script', 'module'].find(m => F.ref(src, m).ast); if (m) cases.push({ src, mode: m, name: f }); });
    await d.all(cases, J.arg, async (c, o) => {
      ctx.ev(); const v = await judge(c, d, o);
      if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
      if (v.bad) {
        if (ctx.viol.length > 8) { ctx.stat('violations'); return; }
        const src = c.name ? c.src : await C.reduce(c, async s => (await judge({ ...c, src: s }, d)).cls === v.cls);
        ctx.violation({ key: (c.mode || 'script') + ':' + src.slice(0, 300), cls: v.cls, what: `${c.name || JSON.stringify(src).slice(0, 300)}: ${v.bad}`, src, fn: c.fn, mode: c.mode, markers: c.markers }); return;
      }
      ctx.stat(c.markers ? 'programs judged' : 'other programs'); ctx.stat('graphs looked at', c.markers ? v.g : v.n); ctx.stat('blocks looked at', v.blocks); ctx.stat('entries and exits looked up', v.look || 0); if (c.markers) { ctx.stat('live markers', v.n); ctx.stat('dead markers', v.dead); }
      if (v.dead || v.blocks > 5) ctx.distinct((c.mode || '') + c.src); if (v.dead > 2 && c.src.length < 200) ctx.sample(c.src);
    }, 16);
  },
  async replay(c, ctx) { const d = ctx.driver(); const v = await judge(c, d); console.log(c.src.slice(0, 500), v); if (v.bad) ctx.violation({ key: (c.mode || 'script') + ':' + c.src.slice(0, 300), what: v.bad }); },
};
