// Shared by both executors: rendering of values, call wrappers, tracing objects.
(function (G) {
  'use strict';
  const O = Object, R = Reflect, ownKeys = R.ownKeys, gopd = R.getOwnPropertyDescriptor, gpo = R.getPrototypeOf;
  const apply = R.apply, str = String, em = G.emit, Sy = Symbol, AP = Array.prototype, isA = Array.isArray;
  const push = AP.push, join = AP.join, ots = O.prototype.toString, sdesc = gopd(Sy.prototype, 'description').get;
  const wk = new Map(), mapGet = Map.prototype.get, mapSet = Map.prototype.set, mapHas = Map.prototype.has;
  const mapFE = Map.prototype.forEach, setFE = Set.prototype.forEach, getTime = Date.prototype.getTime;
  const TAP = gpo(Int8Array.prototype), taTag = gopd(TAP, Sy.toStringTag).get, taLen = gopd(TAP, 'length').get;
  const abLen = gopd(ArrayBuffer.prototype, 'byteLength').get, U8 = Uint8Array;
  const sup = String.prototype.toUpperCase, sco = String.prototype.charCodeAt;
  for (const n of ['Object', 'Function', 'Array', 'String', 'Number', 'Boolean', 'Symbol', 'BigInt', 'Error', 'TypeError',
    'RangeError', 'SyntaxError', 'ReferenceError', 'EvalError', 'URIError', 'AggregateError', 'Map', 'Set', 'WeakMap', 'WeakSet',
    'WeakRef', 'FinalizationRegistry', 'Promise', 'RegExp', 'Date', 'ArrayBuffer', 'SharedArrayBuffer', 'DataView', 'Proxy',
    'Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array',
    'Float64Array', 'BigInt64Array', 'BigUint64Array']) {
    const c = G[n];
    apply(mapSet, wk, [c, n]);
    if (c.prototype) apply(mapSet, wk, [c.prototype, n + '.prototype']);
  }
  apply(mapSet, wk, [Math, 'Math']); apply(mapSet, wk, [JSON, 'JSON']); apply(mapSet, wk, [R, 'Reflect']);
  apply(mapSet, wk, [gpo(Int8Array), '%TypedArray%']); apply(mapSet, wk, [TAP, '%TypedArray%.prototype']);
  apply(mapSet, wk, [gpo(function* () { }), 'GeneratorFunction.prototype']);
  apply(mapSet, wk, [gpo(async function () { }), 'AsyncFunction.prototype']);
  apply(mapSet, wk, [gpo(gpo([][Sy.iterator]())), '%IteratorPrototype%']);
  apply(mapSet, wk, [gpo([][Sy.iterator]()), '%ArrayIteratorPrototype%']);
  apply(mapSet, wk, [gpo(new Map().entries()), '%MapIteratorPrototype%']);
  apply(mapSet, wk, [gpo(new Set().entries()), '%SetIteratorPrototype%']);
  apply(mapSet, wk, [gpo(''[Sy.iterator]()), '%StringIteratorPrototype%']);
  apply(mapSet, wk, [gpo((function* () { })().__proto__), '%GeneratorProto%']);
  apply(mapSet, wk, [G, 'globalThis']);
  const q = JSON.stringify;
  function qs(s) {
    let r = '"';
    for (let i = 0; i < s.length; i++) {
      const c = apply(sco, s, [i]);
      if (c >= 32 && c < 127 && c !== 34 && c !== 92) r += s[i];
      else { r += '\\u'; for (let k = 12; k >= 0; k -= 4) r += '0123456789abcdef'[(c >> k) & 15]; }
    }
    return r + '"';
  }
  function key(k) { return typeof k === 'symbol' ? '@' + str(apply(sdesc, k, [])) : qs(k); }
  function num(v) { return v === 0 && 1 / v < 0 ? '-0' : str(v); }
  function errName(e) {
    if (typeof e === 'object' && e !== null || typeof e === 'function') {
      try {
        const c = e.constructor;
        if (apply(mapHas, wk, [c])) return apply(mapGet, wk, [c]);
        return typeof e.name === 'string' ? e.name : 'obj';
      } catch (_) { return 'weird'; }
    }
    return S(e);
  }
  function slot(f, v, a) { try { return { v: apply(f, v, a || []) }; } catch (_) { return null; } }
  function S(v, d, seen, full) {
    switch (typeof v) {
      case 'number': return num(v);
      case 'string': return qs(v);
      case 'bigint': return str(v) + 'n';
      case 'symbol': return 'Symbol(' + str(apply(sdesc, v, [])) + ')';
      case 'undefined': return 'undefined';
      case 'boolean': return v ? 'true' : 'false';
    }
    if (v === null) return 'null';
    if (apply(mapHas, wk, [v])) return apply(mapGet, wk, [v]);
    try { if (gopd(v, '$gn')) return 'GC'; } catch (e) { }
    d = d === undefined ? 4 : d;
    seen = seen || [];
    for (let i = 0; i < seen.length; i++) if (seen[i] === v) return '#' + (seen.length - i);
    if (d <= 0) return '..';
    const seen2 = []; for (let i = 0; i < seen.length; i++) O.defineProperty(seen2, i, { value: seen[i], enumerable: true, configurable: true, writable: true });
    O.defineProperty(seen2, seen.length, { value: v, enumerable: true, configurable: true, writable: true });
    let head = '', t;
    const proto = gpo(v);
    if (typeof v === 'function') {
      head = 'fn:';
      const n = gopd(v, 'name'), l = gopd(v, 'length');
      head += (n && typeof n.value === 'string' ? qs(n.value) : '?') + '/' + (l && typeof l.value === 'number' ? num(l.value) : '?');
      if (!full) return head;
    } else if (isA(v)) head = 'A' + v.length;
    else if ((t = slot(taTag, v)) && t.v !== undefined) {
      head = t.v;
      const L = apply(taLen, v, []); let s = '';
      for (let i = 0; i < L && i < 64; i++) s += (i ? ',' : '') + (typeof v[i] === 'bigint' ? str(v[i]) + 'n' : num(v[i]));
      head += '(' + L + ')<' + s + '>';
    } else if (slot(getTime, v)) head = 'Date<' + num(apply(getTime, v, [])) + '>';
    else if ((t = slot(abLen, v))) {
      let s = ''; const u = t.v ? new U8(v) : [];
      for (let i = 0; i < t.v && i < 64; i++) s += (i ? ',' : '') + u[i];
      head = 'AB(' + t.v + ')<' + s + '>';
    } else if (v instanceof Map && slot(mapHas, v, [1])) {
      head = 'Map{'; apply(mapFE, v, [(x, k) => { head += S(k, d - 1, seen2) + '=>' + S(x, d - 1, seen2) + ','; }]); head += '}';
    } else if (v instanceof Set) {
      head = 'Set{'; try { apply(setFE, v, [(x) => { head += S(x, d - 1, seen2) + ','; }]); } catch (_) { } head += '}';
    } else {
      t = apply(ots, v, []);
      head = t === '[object Object]' ? '' : t;
    }
    if (apply(mapHas, wk, [proto])) { t = apply(mapGet, wk, [proto]); head += (t === 'Object.prototype' || t === 'Array.prototype' && isA(v)) ? '' : ':' + t; }
    else if (proto === null) head += ':null';
    else if (typeof v !== 'function') { const c = gopd(proto, 'constructor'); head += ':' + (c && typeof c.value === 'function' ? str((gopd(c.value, 'name') || {}).value) : '?'); }
    let b = '', n = 0;
    const isErr = slot(ots, v).v === '[object Error]';
    for (const k of ownKeys(v)) {
      if (typeof v === 'function' && (k === 'name' || k === 'length' || k === 'prototype' || k === 'arguments' || k === 'caller')) continue;
      if (isErr && (k === 'message' || k === 'stack')) continue;
      if (isA(v) && k === 'length') { if (!gopd(v, k).writable) b += ' !len'; continue; }
      if (t && t.v !== undefined && typeof k === 'string' && num(+k) === k) continue;
      if (n++ > 60) { b += ' ...'; break; }
      const p = gopd(v, k);
      if (!p) { b += ' ' + key(k) + ':gone'; continue; }
      const a = (p.enumerable ? '' : 'e') + (p.configurable ? '' : 'c') + ('value' in p && !p.writable ? 'w' : '');
      b += ' ' + (isA(v) && typeof k === 'string' && str(k >>> 0) === k ? k : key(k)) + (a ? '~' + a : '') + ':';
      if ('value' in p) b += S(p.value, d - 1, seen2); else b += (p.get ? 'get ' : '') + (p.set ? 'set' : '');
    }
    return head + '{' + b + (R.isExtensible(v) ? ' }' : ' }!x');
  }
  let tag = 0;
  // run f, report how it completed
  function T(f, full) {
    const my = ++tag;
    let r;
    try { r = f(); } catch (e) { em('T' + my, 'throw', errName(e)); return undefined; }
    let s;
    try { s = S(r, undefined, undefined, full); } catch (e) { s = 'unprintable ' + errName(e); }
    em('T' + my, s);
    return r;
  }
  // an object whose conversions are visible events
  function V(name, prim, hint) {
    return {
      [Sy.toPrimitive]: hint === undefined ? undefined : (h) => { em('V', name, 'prim', h); return hint; },
      valueOf() { em('V', name, 'valueOf'); return prim; },
      toString() { em('V', name, 'toString'); return prim; },
    };
  }
  // a proxy every internal operation on which is a visible event
  const traps = ['getPrototypeOf', 'setPrototypeOf', 'isExtensible', 'preventExtensions', 'getOwnPropertyDescriptor',
    'defineProperty', 'has', 'get', 'set', 'deleteProperty', 'ownKeys', 'apply', 'construct'];
  let pfuel = 0;
  function P(name, target, over) {
    const h = {};
    for (let i = 0; i < traps.length; i++) {
      const tn = traps[i];
      h[tn] = function (t, ...a) {
        let s = '';
        if (++pfuel > 4000) throw 'pfuel';
        for (let j = 0; j < a.length; j++) {
          if (a[j] === pr) s += ' <self>';
          else if (j === 0 && (typeof a[j] === 'string' || typeof a[j] === 'symbol')) s += ' ' + key(a[j]);
          else s += ' ' + S(a[j], 2);
        }
        em('P', name, tn, s);
        if (over && over[tn]) return apply(over[tn], over, [t, ...a]);
        return apply(R[tn], R, [t, ...a]);
      };
    }
    const pr = new Proxy(target, h);
    return pr;
  }
  const def = (n, v) => O.defineProperty(G, n, { value: v, writable: true, enumerable: false, configurable: true });
  def('$S', S); def('$T', T); def('$V', V); def('$P', P); def('$err', errName);
})(globalThis);
