'use strict';
// drivers of the packages util and parseutil
const path = require('path'), fs = require('fs'), os = require('os');
const { Driver } = require('./drv');
const BIN = path.join(__dirname, '..', 'bin');
class UDriver extends Driver { call(op, arg) { return this.req({ op, arg }); } }
function utilDriver(ctx, o = {}) {
  const env = { GOMAXPROCS: o.procs || '4', ...o.env };
  if (o.race) env.GORACE = 'halt_on_error=1 exitcode=66 atexit_sleep_ms=0';
  const d = new UDriver(path.join(BIN, o.race ? 'vutil_race' : 'vutil'), env);
  (ctx.drivers = ctx.drivers || []).push(d); return d;
}
function died(o) {
  if (o.died) { const m = /WARNING: DATA RACE/.test(o.stderr || ''); return (m ? 'data race: ' : 'driver died (' + o.died + '): ') + (o.stderr || '').replace(/\s+/g, ' ').slice(0, 700); }
  if (o.panic) return 'panic: ' + o.panic.split('\n').slice(0, 6).join(' | ').slice(0, 500);
  return null;
}
// a scratch directory of the shard, removed at the end
function scratch(mode) { const d = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-')); if (mode) fs.chmodSync(d, mode); return d; }
const rmrf = d => fs.rmSync(d, { recursive: true, force: true });
module.exports = { utilDriver, died, scratch, rmrf };
