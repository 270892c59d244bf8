// load(dir, {hook: (args..) => ..}, env): the instrumented program, linked with an analysis in JavaScript.
import fs from 'node:fs';
export function load(dir, analysis, env = {}) {
  const lib = fs.existsSync(dir + '/lib.wasm') ? new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(dir + '/lib.wasm'))).exports : {};
  const target = new WebAssembly.Module(fs.readFileSync(dir + '/target.wasm'));
  const hooks = new Proxy({}, { get: (_, name) => analysis[name] ?? (() => { throw new Error('no hook ' + String(name)); }), has: () => true });
  const i = new WebAssembly.Instance(target, { env, wastrumentation_stack: lib, WASTRUMENTATION_ANALYSIS: hooks });
  return i.exports;
}
export const original = (dir, env = {}) =>
  new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(dir + '/original.wasm')), { env }).exports;
