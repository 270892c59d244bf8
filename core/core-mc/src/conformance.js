// Runs call sequences in V8. stdin: one JSON object per line; stdout: one JSON array per line.
const fs = require('fs');
const MASK = (1n << 64n) - 1n;
const dv = new DataView(new ArrayBuffer(8));
const f32 = x => { dv.setFloat32(0, x); return BigInt(dv.getUint32(0)); };
const f64 = x => { dv.setFloat64(0, x); return dv.getBigUint64(0); };
const toF32 = b => { dv.setUint32(0, Number(b & 0xffffffffn)); return dv.getFloat32(0); };
const toF64 = b => { dv.setBigUint64(0, b & MASK); return dv.getFloat64(0); };
const out = { i: x => Number(BigInt.asIntN(32, x)), l: x => BigInt.asIntN(64, x), f: toF32, d: toF64, r: x => null };
const inn = { i: x => BigInt.asUintN(32, BigInt(x)), l: x => BigInt.asUintN(64, x), f: f32, d: f64, r: x => x === null ? MASK : 1n };
class Stop extends Error {}
const lines = fs.readFileSync(0, 'utf8').split('\n').filter(l => l);
const res = [];
for (const line of lines) {
  const m = JSON.parse(line);
  const module = new WebAssembly.Module(Buffer.from(m.module, 'hex'));
  const all = [];
  for (const seq of m.sequences) {
    let calls = 0n, trace = [];
    const imports = {};
    m.imports.forEach(([a, b, args, results], id) => {
      imports[a] ??= {};
      imports[a][b] = (...given) => {
        const bits = given.map((x, i) => inn[args[i]](x));
        calls += 1n;
        if (calls > 2000n) throw new Stop();
        trace.push('' + id, ...bits.map(String));
        let sum = calls * 16n + BigInt(id);
        for (const b of bits) sum = (sum * 3n + b) & MASK;
        const r = [...results].map((t, i) => {
          const x = (sum + BigInt(i)) & MASK;
          return out[t](t === 'i' ? x & 0xffffffffn : t === 'f' ? x & 0x3fffffffn : t === 'd' ? x & 0x3fffffffffffffffn : x);
        });
        return r.length === 1 ? r[0] : r;
      };
    });
    const e = new WebAssembly.Instance(module, imports).exports;
    const rs = [];
    for (const [name, args] of seq) {
      try {
        const [types, results] = m.types[name];
        let r = e[name](...args.map((x, i) => out[types[i]](BigInt(x))));
        if (results.length === 0) r = []; else if (results.length === 1) r = [r]; else r = [...r];
        rs.push(r.map((x, i) => String(inn[results[i]](x))));
      } catch (x) {
        rs.push(x instanceof WebAssembly.RuntimeError || x instanceof RangeError ? 'trap' : 'error ' + x);
        break;
      }
    }
    const state = [];
    for (const n of m.state) {
      const x = e[n];
      if (x instanceof WebAssembly.Global) state.push(String(inn[m.globals[n]](x.value)));
      else if (x instanceof WebAssembly.Table) {
        state.push('' + x.length);
        for (let i = 0; i < x.length; i++) state.push(x.get(i) === null ? '0' : '1');
      } else if (x instanceof WebAssembly.Memory) {
        const d = new BigUint64Array(x.buffer);
        state.push('' + x.buffer.byteLength);
        for (let i = 0; i < d.length; i++) if (d[i] !== 0n) state.push('' + i, String(d[i]));
      }
    }
    all.push([rs, trace, state]);
  }
  res.push(JSON.stringify(all));
}
fs.writeFileSync(1, res.join('\n') + '\n');
