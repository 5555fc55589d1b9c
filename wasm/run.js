// Long-lived executor: one request per line {file, inputs:[[hex...]...], stdin}, one reply per line.
// Events are recorded exactly as the native host does ("v_rec_i32 i32:ff").
'use strict';
const fs = require('fs');
const rl = require('readline').createInterface({ input: process.stdin });
const f32 = new Float32Array(1), u32 = new Uint32Array(f32.buffer);
const f64 = new Float64Array(1), u64 = new BigUint64Array(f64.buffer);
const bits = {
  i1: x => (x & 1).toString(16), i8: x => (x & 255).toString(16), i16: x => (x & 65535).toString(16),
  i32: x => (x >>> 0).toString(16), i64: x => BigInt.asUintN(64, x).toString(16),
  f32: x => { if (Number.isNaN(x)) return '7fc00000'; f32[0] = x; return u32[0].toString(16); },
  f64: x => { if (Number.isNaN(x)) return '7ff8000000000000'; f64[0] = x; return u64[0].toString(16); },
};
const cut = (raw, n) => Number(BigInt.asUintN(n, raw));
const input = {
  i1: r => cut(r, 1), i8: r => cut(r, 8) << 24 >> 24, i16: r => cut(r, 16) << 16 >> 16, i32: r => cut(r, 32) | 0,
  i64: r => BigInt.asIntN(64, r), f32: r => { u32[0] = cut(r, 32); return f32[0]; }, f64: r => { u64[0] = r; return f64[0]; },
};
class Stop extends Error {}
function one(mod, raw, short) {
  const inputs = raw.map(h => BigInt('0x' + h));
  const events = [];
  let mem = null, calls = 0;
  const push = s => { if (events.length > 200000) throw new Stop('too many events'); events.push(s); };
  const env = {};
  for (const t of Object.keys(bits)) {
    env['v_in_' + t] = k => input[t](inputs[(k >>> 0) % inputs.length]);
    env['v_rec_' + t] = x => { push(`v_rec_${t} ${t}:${bits[t](x)}`); };
  }
  env.v_eff_i32 = x => {
    push(`v_eff_i32 i32:${bits.i32(x)}`);
    return Number((BigInt(x >>> 0) * 2654435761n + 12345n) & 0xffffffffn) | 0;
  };
  const wasi = {
    fd_write(fd, iov, n, nw) {
      const dv = new DataView(mem.buffer);
      // a short or interrupted write now and then
      calls++;
      if (short && calls % 3 === 0) return 27;
      let total = 0;
      for (let i = 0; i < n; i++) {
        const p = dv.getUint32(iov + 8 * i, true);
        let l = dv.getUint32(iov + 8 * i + 4, true);
        if (short && l > 1 && calls % 2 === 0) l = Math.max(1, l >> 1);
        const b = new Uint8Array(mem.buffer, p, l);
        if (fd !== 1) throw new Stop('write to ' + fd);
        if (l) push('out ' + Buffer.from(b).toString('hex'));
        total += l;
      }
      dv.setUint32(nw, total, true);
      return 0;
    },
    proc_exit(c) { throw new Stop('exit ' + c); },
  };
  let end = 'return';
  try {
    const inst = new WebAssembly.Instance(mod, { env, wasi_snapshot_preview1: wasi });
    mem = inst.exports.memory || null;
    (inst.exports._start || inst.exports.main)();
  } catch (e) {
    if (e instanceof WebAssembly.RuntimeError) end = 'trap ' + e.message;
    else if (e instanceof RangeError) end = 'stack';
    else if (e instanceof Stop) end = 'stop ' + e.message;
    else end = 'error ' + e.message;
  }
  return { events, end };
}
rl.on('line', l => {
  const q = JSON.parse(l);
  let r = [];
  try {
    const mod = new WebAssembly.Module(fs.readFileSync(q.file));
    for (const i of q.inputs) {
      const x = one(mod, i, q.short);
      r.push('RUN', ...x.events, 'END ' + x.end.replace(/\n/g, ' '));
    }
  } catch (e) {
    r.push('ERR ' + String(e.message).replace(/\n/g, ' ').slice(0, 600));
  }
  r.push('DONE');
  process.stdout.write(r.join('\n') + '\n');
});
