'use strict';
// Pipelined client of bin/vdrv. If the driver process dies, the oldest
// unanswered request is the culprit: it resolves to {died,stderr} and the
// remaining ones are replayed in a fresh process.
const cp = require('child_process');
const path = require('path');
class Driver {
  constructor(bin, env) {
    this.bin = bin || path.join(__dirname, '..', 'bin', 'vdrv');
    this.env = env; this.q = []; this.buf = []; this.closed = false; this.deaths = 0;
    this.start();
  }
  start() {
    const p = this.p = cp.spawn(this.bin, [], { stdio: ['pipe', 'pipe', 'pipe'], env: { ...process.env, GOMAXPROCS: '2', GOTRACEBACK: 'single', GOMEMLIMIT: '3GiB', ...this.env } });
    this.err = ''; this.buf = [];
    p.stderr.on('data', d => { if (this.err.length < 20000) this.err += d; });
    p.stdin.on('error', () => { });
    p.stdout.on('data', d => this.onData(d));
    p.on('close', (code, sig) => { if (this.closed && !this.q.length) return; this.onDeath(code, sig); });
  }
  onData(d) {
    let i;
    while ((i = d.indexOf(10)) >= 0) {
      this.buf.push(d.subarray(0, i)); d = d.subarray(i + 1);
      const line = Buffer.concat(this.buf).toString('utf8'); this.buf = [];
      const r = this.q.shift();
      let v; try { v = JSON.parse(line); } catch (e) { v = { died: 'unparseable response: ' + line.slice(0, 200) }; }
      r.resolve(v);
    }
    if (d.length) this.buf.push(d);
  }
  onDeath(code, sig) {
    if (!this.q.length) { if (!this.closed) this.start(); return; }
    this.deaths++;
    const pend = this.q; this.q = [];
    // exit 4: a hang record was already delivered for the culprit
    if (code !== 4) { const c = pend.shift(); c.resolve({ died: `exit ${code} ${sig || ''}`, stderr: this.err.slice(0, 4000) }); }
    this.start();
    for (const r of pend) { this.q.push(r); this.p.stdin.write(r.line); }
  }
  req(o) {
    return new Promise(resolve => {
      const line = JSON.stringify(o) + '\n';
      this.q.push({ resolve, line });
      this.p.stdin.write(line);
    });
  }
  // run fn(item)->request over items with a bounded window, calling done(item, result)
  async all(items, mk, done, win = 32) {
    let i = 0; const self = this;
    async function lane() { while (i < items.length) { const it = items[i++]; const r = await self.req(mk(it)); await done(it, r); } }
    await Promise.all(Array.from({ length: win }, lane));
  }
  close() { this.closed = true; try { this.p.stdin.end(); } catch { } }
}
module.exports = { Driver };
