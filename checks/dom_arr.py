"""Generators for arrays (C21), typed arrays, buffers and views (C23)"""
from libgen import U, EDGE, WEIRD

# ------------------------------------------------------------------ C21
def elem(u): return u.wt((6, lambda: u.int(-2, 9)), (2, lambda: '"%s"' % u.pick(list('abcz') + ['10', '9', ''])), (1, lambda: u.ch('undefined', 'null', 'true', 'NaN', '-0', '1.5', '5n', '{}', '$y', '[1,[2,[3,,4]]]', '[]', '[,]', '[[]]', 'Infinity')))
def elems(u, m=6): return ','.join('' if u.p(.12) and i < m - 2 else elem(u) for i in range(u.n(0, m)))
def recv(u):
    """source of a receiver, tags"""
    return u.wt(
        (10, lambda: '[%s]' % elems(u, 8)),
        (2, lambda: '[%s,,]' % elems(u)),
        (2, lambda: '$P("p",[%s])' % elems(u, 5)),
        (2, lambda: '{length:%s,%s}' % (u.ch('3', '2', '"4"', '0', '-1', '2.7', 'NaN', 'undefined', '{valueOf(){emit("len");return 3}}', '5'), ','.join('%d:%s' % (u.n(0, 5), elem(u)) for _ in range(u.n(0, 4))))),
        (1.2, lambda: '$P("q",{length:%s,%s})' % (u.ch('3', '2', '"4"', '0', '-1', '2.7', '5'), ','.join('%d:%s' % (u.n(0, 5), elem(u)) for _ in range(u.n(0, 4))))),
        (.6, lambda: '{length:2**53-%d,%s}' % (u.n(1, 3), ','.join('[2**53-%d]:%s' % (u.n(1, 5), elem(u)) for _ in range(u.n(0, 3))))),
        (1.2, lambda: 'new SA(%s)' % ','.join(elem(u) for _ in range(u.n(2, 5)))),
        (1, lambda: 'Object.freeze([%s])' % elems(u, 4)),
        (.7, lambda: 'Object.defineProperty([%s],"length",{writable:false})' % elems(u, 4)),
        (.7, lambda: 'Object.preventExtensions([%s])' % ('1,' + elems(u, 4))),
        (.7, lambda: 'Object.defineProperty([%s],"%d",{%s})' % (elems(u, 5), u.n(0, 5), u.ch('value:7', 'get(){emit("g");return 4},configurable:true', 'get(){emit("g2");o.length=1;return 4},set(v){emit("s",$S(v,1))},enumerable:true', 'value:3,writable:true', 'value:3,configurable:true,enumerable:true'))),
        (.8, lambda: 'Object.setPrototypeOf([%s],Object.setPrototypeOf({%d:"P",%d:"Q"},Array.prototype))' % (elems(u, 4), u.n(0, 3), u.n(2, 6))),
        (.6, lambda: '(function(){return arguments})(%s)' % ','.join(elem(u) for _ in range(u.n(0, 4)))),
        (.6, lambda: 'new String(%s)' % u.str(4)),
        (.4, lambda: '(()=>{let a=[];a[%s]=1;a[%d]=2;return a})()' % (u.ch('1000', '50', '20'), u.n(0, 5))),
        (.2, lambda: u.ch('null', 'undefined', '5', '"abc"', 'true', '$y', '(a,b)=>1', 'new Uint8Array([3,1,2])')))

def mut(u):
    return u.ch('o.length=%d' % u.n(0, 4), 'o.push(%s)' % elem(u), 'o.pop()', 'o.shift()', 'o.unshift(%s)' % elem(u), 'delete o[%d]' % u.n(0, 5), 'o[%d]=%s' % (u.n(0, 7), elem(u)), 'o.reverse()', 'o.splice(%d,1)' % u.n(0, 3), 'o.fill(0)', 'if(o.length>1)Object.freeze(o)', 'o[%d]=%s' % (u.n(0, 4), elem(u)), 'Object.defineProperty(o,%d,{get(){emit("dg");return 6},configurable:true})' % u.n(0, 4))
def cb(u, nargs=3, ret=None):
    m = ''
    if u.p(.3): m = 'if(c++==%d)try{%s}catch(e){emit("me",$err(e))}' % (u.n(0, 3), mut(u))
    ret = ret or u.ch('v', 'i', 'v>1', 'i%2', 'true', 'false', 'undefined', '"x"', '[v,[v]]', '!v', 'i==2')
    if u.p(.04): ret = '(()=>{throw "cb"})()'
    if u.p(.04): return u.ch('undefined', 'null', '{}', '"f"', '5', '/x/', 'class{}')
    args = 'v,i,a' if nargs == 3 else 'w,v,i,a'
    return 'function(%s){%semit("c",%s$S(v,1),i,a===o,$S(this,1),arguments.length);%sreturn %s}' % (args, 'if(++n>60)throw "fuel";', '' if nargs == 3 else '$S(w,1),', m, ret)
CMP = ['(a,b)=>rk(a)-rk(b)', '(a,b)=>rk(b)-rk(a)', '(a,b)=>0', 'undefined', '(a,b)=>(typeof a>typeof b)-(typeof a<typeof b)', '(a,b)=>NaN', '(a,b)=>rk(a)%3-rk(b)%3', '(a,b)=>({valueOf(){return rk(a)-rk(b)}})', '(a,b)=>String(rk(a)-rk(b))', '(a,b)=>{throw "cmp"}', 'null', '1', '{}', '(a,b)=>false']
def call(u, o, huge=False):
    """a method call on o"""
    i = lambda: u.idx()
    e = lambda: elem(u)
    thisarg = lambda: u.ch('', '', ',5', ',o', ',undefined')
    simple = [
        (2, lambda: 'at(%s)' % u.args(i)), (1.5, lambda: 'concat(%s)' % ','.join(u.ch(e(), '[%s]' % elems(u, 3), 'o', recv(u)) for _ in range(u.n(0, 3)))),
        (2.5, lambda: 'copyWithin(%s)' % u.args(i, i, i)), (1.5, lambda: 'fill(%s)' % u.args(e, i, i)),
        (2, lambda: '%s(%s)' % (u.ch('includes', 'indexOf', 'lastIndexOf'), u.args(e, i))), (1.5, lambda: 'join(%s)' % u.ch('', '"-"', 'undefined', 'null', '$V("sep","+")', '""', '$y', '1')),
        (.7, 'pop()'), (.7, 'shift()'), (1, lambda: 'push(%s)' % u.args(e, e, e)), (1, lambda: 'unshift(%s)' % u.args(e, e, e)), (1, 'reverse()'), (2, lambda: 'slice(%s)' % u.args(i, i)),
        (3, lambda: 'splice(%s)' % u.args(i, i, e, e, e)), (.3, 'toString()'), (.5, 'keys().next()'), (.5, lambda: 'flat(%s)' % u.ch('', '0', '1', '2', 'Infinity', '-1', 'NaN', '"1"', 'undefined')),
        (1, lambda: 'with(%s)' % u.args(i, e)), (1.2, lambda: 'toSpliced(%s)' % u.args(i, i, e, e)), (.7, 'toReversed()')]
    if huge:   # the length is near 2**53: only what is bounded
        return u.ch('at(%s)' % u.idx(), 'pop()', 'push(%s)' % u.args(e, e), 'slice(-2)', 'slice(2**53-3)', 'splice(2**53-3,%d)' % u.n(0, 3), 'splice(2**53-3,0,1)', 'lastIndexOf(1)' if 0 else 'at(-1)', 'copyWithin(2**53-4,2**53-3)', 'fill(7,-2)', 'with(0,1)', 'toReversed()', 'toSpliced(0,1)', 'toSorted()', 'indexOf(1,-2)', 'includes(undefined,-1)', 'unshift()' )
    return u.wt(*simple, *[
        (5, lambda: '%s(%s%s)' % (u.ch('forEach', 'map', 'filter', 'some', 'every', 'find', 'findIndex', 'findLast', 'findLastIndex', 'flatMap'), cb(u), thisarg())),
        (1.5, lambda: '%s(%s%s)' % (u.ch('reduce', 'reduceRight'), cb(u, 4, u.ch('w', 'v', 'w+i', '[w,v]')), u.ch('', ',0', ',"s"', ',undefined'))),
        (2.5, lambda: '%s(%s)' % (u.ch('sort', 'toSorted'), u.pick(CMP)))])

def c21(u):
    R = recv(u)
    huge = '2**53' in R
    s = 'let c=0,n=0,o=%s;' % R
    direct = R[0] in '[' or R.startswith('$P("p"') or 'new SA' in R or 'Object.' in R or '(()=>{' in R
    for _ in range(1 if huge else u.n(1, 4)):
        k = u.n(0, 20)
        if huge or k < 15:
            m = call(u, 'o', huge)
            if R.startswith(('Object.freeze', 'Object.defineProperty([')) and 'shift' in m and 0: continue
            if 'SA' in R and m.startswith('concat'): m = 'concat([1])'
            if m.startswith('sort(') and ('$P' in R or 'Object.' in R or 'arguments' in R or R[0] in '"n'): continue   # V8 reads nothing when there are less than two elements
            name, args = m.split('(', 1)
            gen = not direct or u.p(.2)
            if gen:
                rest = args[:-1] if not args.endswith('.next()') else None
                if rest is None: x = 'Array.prototype.keys.call(o).next()'
                else: x = 'Array.prototype.%s.call(o%s%s)' % (name, ',' if rest else '', rest)
            else: x = 'o.%s' % m
            s += 'c=0;t(()=>%s);' % x
        elif k < 17:
            s += 't(()=>o.length=%s);' % u.ch('0', '1', '2', '5', '-1', '1.5', '2**32', '"3"', 'NaN', '{valueOf(){emit("lv");return 2}}') if R[0] == '[' else 't(()=>o[%d]=%s);' % (u.n(0, 8), elem(u))
        elif k < 18:
            s += 't(()=>{%s});' % mut(u)
        elif k < 19:
            s += 't(()=>Array.%s);' % u.ch('of(%s)' % elems(u, 3).replace(',,', ',1,').strip(','), 'from(o)', 'from(o,function(v,i){emit("m",$S(v,1),i,$S(this,1));return %s}%s)' % (u.ch('v', 'i', '[v]'), u.ch('', ',7')), 'from({length:%s,1:"q"})' % u.int(-1, 4), 'from("a\\ud83d\\ude00b")',
                     'from.call(%s,[1,2])' % u.ch('SA', 'function(n){emit("ctor",arguments.length,n)}', 'Object', '()=>1', 'Uint8Array', 'undefined'), 'of.call(%s,1,2)' % u.ch('SA', 'function(n){emit("ctor",arguments.length,n)}', 'Object', '()=>1'), 'isArray(o)',
                     'from({[Symbol.iterator](){let i=0;return {next(){emit("nx");return {done:i>%d,value:i++}},return(){emit("rt");return {}}}}}%s)' % (u.n(0, 2), u.ch('', ',v=>v+1', ',v=>{throw "mf"}')), 'from(o,%s)' % u.ch('1', 'null', '{}', 'undefined'), 'prototype[Symbol.unscopables].toSorted', 'from(new Set([1,2]))')
        else:
            s += '{let it=o[Symbol.iterator]?o[Symbol.iterator]():[].%s.call(o);for(let i=0;i<%d;i++){let x=t(()=>it.next());if(!x%s)break;%s}}' % (u.ch('keys', 'values', 'entries'), u.n(1, 5), '||x.done' if '$P' in R or 'emit' in R else '', 'if(i==%d)t(()=>{%s});' % (u.n(0, 3), mut(u)) if u.p(.6) else '')
    return s + 'return o'
C21PRE = 'const rk=x=>typeof x=="number"?x===x&&x-x===0?x:1e9:typeof x=="string"?1e6+x.length:2e6;class SA extends Array{static get [Symbol.species](){return $sp}}let $sp=SA;\n'

# ------------------------------------------------------------------ C23
TA = ['Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array']
SZ = dict(zip(TA, [1, 1, 1, 2, 2, 4, 4, 4, 8, 8, 8]))
BI = ['0n', '1n', '-1n', '2n**63n', '2n**63n-1n', '-(2n**63n)', '2n**64n', '2n**64n-1n', '123456789012345678901n', '-129n', '255n', '2n**31n', '-(2n**65n)-3n']
NUMS = EDGE + ['127', '128', '-128', '-129', '254.5', '255.5', '0.5', '1.5', '2.5', '-0.5', '32767', '32768', '65536', '3.4028235677973366e38', '3.4028234e38', '1.401298464324817e-45', '7e-46', '1e-45', '16777217', '2147483648', '4294967295', '-4294967297', '1e20', '0x7ff', '1.1', '253.50001', '5e-324', '2**24+1', '"12"', 'true', 'null', 'undefined', '"x"', '[3]', '{valueOf(){emit("vo");return 5}}']
def tv(u, T, plain=False):
    if T.startswith('Big'):
        return u.wt((10, lambda: u.pick(BI)), (0 if plain else .5, lambda: u.ch('"12"', 'true', '1', 'undefined', 'null', '"x"', '{valueOf(){emit("vo");return 5n}}', '[]', '$y')))
    return u.wt((6, lambda: u.pick(NUMS)), (3, lambda: u.int(-5, 300)), (2, lambda: repr(u.r.uniform(-300, 300))), (0 if plain else .3, lambda: u.ch('5n', '$y')), (1, lambda: repr(u.r.uniform(-1, 1) * 2.0 ** u.n(-150, 130))))
def mk(u, T, depth=1):
    sz = SZ[T]
    return u.wt((3, lambda: 'new %s(%s)' % (T, u.ch('0', '1', '3', '5', '4', '8', '-1', '1.5', '"2"', 'undefined', 'null', '2**53', 'NaN', '{length:2,0:%s}' % tv(u, T)))),
                (6, lambda: 'new %s([%s])' % (T, ','.join(tv(u, T) for _ in range(u.n(0, 6))))),
                (8, lambda: 'new %s(B%s)' % (T, u.wt((1, ''), (3, lambda: ',%d' % (sz * u.n(0, 3))), (4, lambda: ',%d,%d' % (sz * u.n(0, 2), u.n(0, 3))), (1, lambda: ',%s' % u.idx()), (1, lambda: ',%s,%s' % (u.idx(), u.idx()))))),
                (1.5, lambda: 'new %s(%s)' % (T, mk(u, u.pick(TA) if u.p(.3) else u.pick([x for x in TA if x.startswith('Big') == T.startswith('Big')]), 0) if depth else '2')),
                (1, lambda: '%s.%s' % (T, u.ch('of(%s)' % ','.join(tv(u, T) for _ in range(u.n(0, 3))), 'from([%s])' % ','.join(tv(u, T) for _ in range(u.n(0, 3))), 'from({length:2,0:%s,1:%s},(v,i)=>{emit("fm",i);return v})' % (tv(u, T), tv(u, T)), 'from(new Set([%s]))' % tv(u, T), 'from([%s],%s)' % (tv(u, T), u.ch('1', 'undefined', 'null'))))),
                (.3, lambda: 'new %s(%s)' % (T, u.ch('Symbol()', '5n', '[1,2][Symbol.iterator]()', '"abc"', 'new Map', '{}', '{[Symbol.iterator]:1}', '{[Symbol.iterator]:undefined,length:1,0:%s}' % tv(u, T), '()=>1'))))
def tcb(u, ret, T):
    m = 'if(c++==%d)%s;' % (u.n(0, 2), u.ch('$detach(a.buffer)', 'a[0]=%s' % tv(u, T), '$detach(B)', 'a[1]=%s' % tv(u, T))) if u.p(.25) else ''
    return 'function(v,i,a){emit("c",$S(v),i,a===o,$S(this,1));%sreturn %s}' % (m, ret)
def tcall(u, T):
    i = u.idx; v = lambda: tv(u, T); big = T.startswith('Big')
    di = lambda: u.idx() if u.p(.85) else '{valueOf(){emit("dt");$detach(o.buffer);return %d}}' % u.n(-1, 3)
    fs = lambda: (lambda x: '0' if 'undefined' in x else x)(di())
    return u.wt(
        (1, lambda: 'at(%s)' % u.args(di)), (2, lambda: 'copyWithin(%s)' % u.args(di, di, di)), (2, lambda: 'fill(%s)' % u.ch(u.args(v), "%s,%s" % (v(), fs()), "%s,%s,%s" % (v(), fs(), di()))),
        (2, lambda: '%s(%s)' % (u.ch('includes', 'indexOf', 'lastIndexOf'), u.args(v, di))), (.7, lambda: 'join(%s)' % u.ch('', '"-"', '{toString(){emit("sep");$detach(o.buffer);return ","}}')),
        (.6, 'reverse()'), (2.5, lambda: 'set(%s)' % u.args(lambda: u.ch('[%s]' % ','.join(tv(u, T) for _ in range(u.n(0, 3))), 'q', 'q', 'o', '{length:%s,0:%s,1:%s}' % (u.ch('1', '2', '"1"', '-1', '9'), v(), v()), '5', '"12"', 'null', 'new %s(o.buffer)' % u.ch('Uint8Array', T)), di)),
        (2.5, lambda: 'slice(%s)' % u.args(di, di)), (2.5, lambda: 'subarray(%s)' % u.args(di, di)), (1.5, lambda: 'sort(%s)' % u.ch('', '', '(a,b)=>rk(a)-rk(b)', '(a,b)=>rk(b)-rk(a)', 'undefined', 'null', '(a,b)=>{throw "cmp"}', '(a,b)=>({valueOf(){return rk(a)-rk(b)}})')),
        (.6, lambda: 'toSorted(%s)' % u.ch('', '(a,b)=>rk(b)-rk(a)', '1')), (.4, 'toReversed()'), (1.2, lambda: 'with(%s)' % u.args(lambda: u.int(-4, 6), v)), (.4, 'toString()'),
        (.5, 'keys().next()'), (.4, lambda: 'entries().next()'),
        (2, lambda: '%s(%s%s)' % (u.ch('forEach', 'map', 'filter', 'some', 'every', 'find', 'findIndex', 'findLast', 'findLastIndex'), tcb(u, u.ch('v', v(), 'i%2', 'v>1', 'true', 'false'), T), u.ch('', ',7'))),
        (.7, lambda: '%s((w,v,i)=>{emit("r",$S(w),$S(v),i);return v}%s)' % (u.ch('reduce', 'reduceRight'), u.ch('', ',0', ',"x"'))))
DV = [('Int8', 1), ('Uint8', 1), ('Int16', 2), ('Uint16', 2), ('Int32', 4), ('Uint32', 4), ('Float32', 4), ('Float64', 8), ('BigInt64', 8), ('BigUint64', 8)]
def c23(u):
    T = u.pick(TA)
    s = 'let c=0,B=new ArrayBuffer(%s),bt=new Uint8Array(B);for(let i=0;i<B.byteLength;i++)bt[i]=%s;' % (u.ch('16', '24', '8', '12', '17', '0', '32'), u.ch('i', 'i*37', '255-i*16', '0', 'i*i*7+3', '0x7f'))
    if u.p(.3):   # views
        s += 'let d;t(()=>{d=new DataView(%s);return [d.byteLength,d.byteOffset]});' % u.wt((3, 'B'), (4, lambda: 'B,%s' % u.int(0, 6)), (3, lambda: 'B,%s,%s' % (u.int(0, 6), u.int(0, 12))), (1, lambda: 'B,%s,%s' % (u.idx(), u.idx())), (.3, lambda: u.ch('bt', '{}', 'null', 'new SharedArrayBuffer(8)')))
        for _ in range(u.n(2, 8)):
            t, w = u.pick(DV)
            off = u.wt((8, lambda: u.int(0, 10)), (1, u.idx), (.4, lambda: '{valueOf(){emit("off");%sreturn 1}}' % u.ch('', '$detach(B);')))
            le = u.ch('', '', ',true', ',false', ',1', ',undefined', ',"x"')
            if u.p(.5): s += 't(()=>d.get%s(%s));' % (t, off + le if u.p(.97) else '')
            else: s += 't(()=>d.set%s(%s,%s%s));' % (t, off, tv(u, 'BigInt64Array' if 'Big' in t else 'Float64Array') if u.p(.95) else '{valueOf(){emit("sv");$detach(B);return 1}}', le)
            if u.p(.04): s += '$detach(B);'
        s += 't(()=>[d.byteLength,d.byteOffset]);'
        return s + 'return bt'
    if u.p(.12):   # buffers
        for _ in range(u.n(1, 4)):
            s += 't(()=>%s);' % u.ch('B.slice(%s)' % u.args(u.idx, u.idx), 'new ArrayBuffer(%s)' % u.ch('-1', 'NaN', '"3"', '2**53', '-0.5', '1.9', '{valueOf(){emit("al");return 3}}', 'undefined', '$y', '3n', '6', 'null'), 'ArrayBuffer.isView(%s)' % u.ch('bt', 'B', 'new DataView(B)', '1', ''), 'B.byteLength', 'ArrayBuffer(8)', 'B.slice(1).slice(1)', 'Object.getOwnPropertyDescriptor(ArrayBuffer.prototype,"byteLength").get.call(%s)' % u.ch('{}', 'B', 'new SharedArrayBuffer(8)', '1'), 'new SharedArrayBuffer(8).slice(%s).byteLength' % u.args(u.idx, u.idx), 'ArrayBuffer.prototype.slice.call(new SharedArrayBuffer(8))',
                '(B.constructor={[Symbol.species]:function(n){emit("sp",n);return %s}},B.slice(%s))' % (u.ch('new ArrayBuffer(n)', 'new ArrayBuffer(n+4)', 'new ArrayBuffer(0)', 'B', '{}', 'new SharedArrayBuffer(n)'), u.args(lambda: u.int(0, 4), u.idx)), '$detach(B)', 'ArrayBuffer[Symbol.species]===ArrayBuffer', 'Object.prototype.toString.call(B)')
        return s + 'return B'
    s += 'let o;t(()=>o=%s);if(!o)return;let q=%s;' % (mk(u, T), 'new %s([%s])' % ((lambda X: (X, ','.join(tv(u, X, True).replace('"x"', '1').replace('{valueOf(){emit("vo");return 5}}', '3') for _ in range(u.n(0, 4)))))(T if u.p(.4) else u.pick(TA))))
    if u.p(.1): s += 'o.constructor={[Symbol.species]:%s};' % u.ch(u.pick([x for x in TA if x.startswith('Big') == T.startswith('Big')]), 'function(n){emit("sp",n);return %s}' % u.ch('new %s(n)' % ('BigUint64Array' if T.startswith('Big') else 'Uint8Array'), 'new %s(9)' % ('BigInt64Array' if T.startswith('Big') else 'Float64Array'), 'o', '[]', 'new %s(0)' % T), 'undefined', '1', 'function(...a){emit("sp",a.length);return new %s(...a)}' % T)
    for _ in range(u.n(1, 5)):
        k = u.n(0, 20)
        if k < 11: s += 'c=0;t(()=>o.%s);' % tcall(u, T)
        elif k < 14: s += 't(()=>o[%s]=%s);' % (u.ch(u.int(0, 5), '"-0"', '"1.5"', '-1', '99', '"foo"', '"1"', 'o.length'), tv(u, T))
        elif k < 15: s += 't(()=>%s);' % u.ch('o[%s]' % u.idx().replace('$y', '0'), '%s in o' % u.ch('0', '"-0"', '"1.5"', '-1', '1', '99', '"x"', 'o.length'), 'delete o[%s]' % u.ch('0', '"-0"', '99', '"x"', '-1'), 'Reflect.ownKeys(o)', 'Object.getOwnPropertyDescriptor(o,%s)' % u.ch('0', '"-0"', '99', '-1'), 'Object.defineProperty(o,%s,{value:%s%s})' % (u.ch('0', '1', '99', '"-0"', '"x"'), tv(u, T), u.ch('', ',writable:true,enumerable:true,configurable:true', ',configurable:false', ',enumerable:false', ',writable:false')), 'o.hasOwnProperty(1)')
        elif k < 17: s += 't(()=>[o.length,o.byteLength,o.byteOffset,o.BYTES_PER_ELEMENT,o.buffer===B,o[Symbol.toStringTag]]);'
        elif k < 18 and u.p(.4): s += '$detach(%s);t(()=>[o.length,o.byteLength,o.byteOffset,o[0]]);' % u.ch('B', 'o.buffer', 'q.buffer')
        elif k < 19: s += 't(()=>%s);' % u.ch('Array.prototype.%s.call(o%s)' % u.ch(('concat', ''), ('slice', ',1'), ('push', ',1'), ('indexOf', ',1'), ('join', ''), ('fill', ',1'), ('pop', '')), '[...o]', 'Array.from(o)', '%s.prototype.fill.call(%s,1)' % (T, u.ch('[]', '{}', 'q')), '%s(1)' % T, '%s.from.call(Array,[1])' % T, 'Object.getPrototypeOf(%s)()' % T, 'new (Object.getPrototypeOf(%s))()' % T, 'Object.getPrototypeOf(%s).from.call(%s,[1,2])' % (T, u.pick(TA + ['Array', 'Object'])), '%s.BYTES_PER_ELEMENT' % T, 'Object.entries(o)', 'JSON.stringify(o,(k,v)=>typeof v=="bigint"?"b":v)')
        else: s += '{let it=o[Symbol.iterator]();for(let i=0;i<%d;i++){if(t(()=>it.next()).done)break;%s}}' % (u.n(1, 4), 'if(i==1){$detach(o.buffer);t(()=>it.next());break}' if u.p(.2) else '')
    if 'o.constructor=' in s: s = s.replace('$detach(', '(')   # V8 checks detached species results differently
    return s + 'try{t(()=>bt)}catch(e){}return o'
C23PRE = 'const rk=x=>x===x&&x-x===0?x:1e9;'.replace('x===x&&x-x===0?x:1e9','typeof x=="bigint"?Number(x):x===x&&x-x===0?x:1e300')+'\n'
