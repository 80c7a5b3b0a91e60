'use strict';
// TypeScript programs: the ones in the tests of the repository and the files of the installed packages
const fs = require('fs'), path = require('path'), R = require('./ref'), W = require('./work');
const ROOT = '/opt/veriftools/node/node_modules';
function files() {
  const out = [];
  (function rec(d) { for (const e of fs.readdirSync(d, { withFileTypes: true })) { const p = path.join(d, e.name); if (e.isDirectory()) rec(p); else if (/\.ts$/.test(e.name) && e.isFile()) out.push(p); } })(ROOT);
  return out.sort();
}
// n: how many of the files
function cases(ctx, n, off = 0) {
  const out = [];
  W.snips().forEach((s, i) => { if (ctx.mine(i)) for (const mode of ['module', 'script']) out.push({ src: s.src, mode }); });
  const fl = files(), step = Math.max(1, Math.floor(fl.length / n));
  fl.filter((f, i) => i % step === (ctx.seed + off) % step).forEach((f, i) => { if (!ctx.mine(i)) return; const src = fs.readFileSync(f, 'utf8'); if (src.length < 300000) out.push({ src, mode: 'module', dts: /\.d\.ts$/.test(f) }); });
  return out;
}
const feat = c => { const M = R.MODES[c.mode]; return { off: M.off, on: [...(M.on || []), 'TS', ...(c.dts ? ['DTS'] : [])] }; };
module.exports = { cases, feat, files };
