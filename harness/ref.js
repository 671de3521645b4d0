// Reference executor: same case stream and trace format as drv.c, executed by V8.
'use strict';
const vm = require('vm');
const fs = require('fs');
const util = require('util');
const args = process.argv.slice(2);
let prelude = null, file = null;
for (let i = 0; i < args.length; i++) {
  if (args[i] === '--prelude') prelude = fs.readFileSync(args[++i], 'utf8');
  else file = args[i];
}
const MAXE = 20000;
const f64 = new Float64Array(1), u64 = new BigUint64Array(f64.buffer);
function putUnits(s) {
  let r = '"';
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c === 0x22 || c === 0x5c) r += '\\' + s[i];
    else if (c >= 0x20 && c < 0x7f) r += s[i];
    else r += '\\u' + c.toString(16).padStart(4, '0');
  }
  return r + '"';
}
function put(v) {
  switch (typeof v) {
    case 'undefined': return 'undefined';
    case 'boolean': return String(v);
    case 'number':
      if (v !== v) return 'NaN';
      if (v === (v | 0) && !Object.is(v, -0) && Math.abs(v) < 1e9) return String(v);
      f64[0] = v;
      return 'n' + u64[0].toString(16).padStart(16, '0');
    case 'string': return putUnits(v);
    case 'symbol': return 'symbol';
    case 'bigint': return v.toString() + 'n';
    case 'function': return 'function';
    default: return v === null ? 'null' : 'object';
  }
}
let outBuf = [];
function flush() { if (outBuf.length) { fs.writeSync(1, outBuf.join('')); outBuf = []; } }
let emits = 0;
const { port1 } = (() => { const { MessageChannel } = require('worker_threads'); return new MessageChannel(); })();
function detach(ab) {
  if (!util.types.isArrayBuffer(ab)) throw 'detach';
  if (!ab.detached) structuredClone(ab, { transfer: [ab] });
}
function errTag(e) {
  if ((typeof e === 'object' && e !== null) || typeof e === 'function') {
    try { return put(e.name); } catch (_) { return 'object'; }
  }
  return put(e);
}
const dctx = vm.constants.DONT_CONTEXTIFY;
function mkrealm() {
  const ctx = vm.createContext(dctx, { microtaskMode: 'afterEvaluate' });
  const def = (n, f) => Object.defineProperty(ctx, n, { value: f, writable: true, enumerable: false, configurable: true });
  // host functions are made inside the realm so that their prototypes and errors belong to it
  const wrap = vm.runInContext('(function(f,n){ "use strict"; return Object.defineProperty((...a)=>f(...a),"name",{value:n}); })', ctx);
  const wrapT = vm.runInContext('(function(f,n){ "use strict"; return Object.defineProperty((...a)=>{try{return f(...a)}catch(e){throw new TypeError(n)}},"name",{value:n}); })', ctx);
  def('emit', wrap((...a) => { if (emits++ < MAXE) outBuf.push('e ' + a.map(put).join(' ') + '\n'); }, 'emit'));
  def('$gc', wrap(() => { if (globalThis.gc) globalThis.gc(); }, '$gc'));
  def('$mem', wrap(() => 0, '$mem'));
  def('$detach', wrapT(detach, '$detach'));
  def('$jobs', wrap(() => { }, '$jobs'));
  def('$compile', wrap((s) => { try { new vm.Script(s); return true; } catch (e) { return false; } }, '$compile'));
  def('$evalScript', wrap((s) => vm.runInContext(String(s), ctx), '$evalScript'));
  def('$createRealm', wrap(() => mkrealm(), '$createRealm'));
  return ctx;
}
const STRIP = ['console', 'WebAssembly', 'escape', 'unescape'];
function runCase(id, mode, src) {
  emits = 0;
  outBuf.push('B ' + id + '\n');
  if (mode.includes('parse')) {
    let ok = true;
    try {
      if (mode.includes('module')) new vm.SourceTextModule(src, {});
      else new vm.Script(mode.includes('strict') ? '"use strict";' + src : src);
    } catch (e) { ok = false; }
    outBuf.push('e ' + (ok ? 'accept' : 'reject') + '\n');
  } else {
    const ctx = mkrealm();
    try {
      if (prelude && !mode.includes('raw')) vm.runInContext(prelude, ctx);
      let sc;
      try { sc = new vm.Script(mode.includes('strict') ? '"use strict";' + src : src, { importModuleDynamically: undefined }); }
      catch (e) { outBuf.push('T SYNTAX\n'); }
      if (sc) {
        try { sc.runInContext(ctx, { timeout: +(process.env.RV_NODE_TO || 8000) }); }
        catch (e) {
          if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') { outBuf.push('X timeout\n'); }
          else outBuf.push('T ' + errTag(e) + '\n');
        }
      }
    } catch (e) { outBuf.push('P ' + errTag(e) + '\n'); }
  }
  outBuf.push('E ' + id + ' emits=' + emits + '\n');
  flush();
}
process.on('unhandledRejection', () => { });
const buf = fs.readFileSync(file || 0);
let p = 0;
while (p < buf.length) {
  const nl = buf.indexOf(10, p);
  const h = buf.toString('utf8', p, nl).split(' ');
  const len = +h[3];
  const src = buf.toString('utf8', nl + 1, nl + 1 + len);
  p = nl + 1 + len + 1;
  runCase(h[1], h[2], src);
}
