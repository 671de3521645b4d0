"""Generators for objects (C14), proxies (C15), collections (C22), symbols and errors (C33)"""
from libgen import U

# ------------------------------------------------------------------ C14
def desc(u, d=1):
    k = u.n(0, 9)
    parts = []
    if k < 6:
        if u.p(.75): parts.append('value:' + (u.val(0) if u.p(.8) else u.num()))
        if u.p(.6): parts.append('writable:' + u.ch('true', 'false', 'true', '1', 'undefined'))
    elif k < 9:
        if u.p(.7): parts.append('get:' + u.ch('function(){emit("g",this===o);return 7}', 'undefined', '()=>8', '$G'))
        if u.p(.6): parts.append('set:' + u.ch('function(v){emit("s",this===o,$S(v,1))}', 'undefined', '$G'))
    else:
        parts.append(u.ch('get:1', 'value:1,get(){}', 'set:{}', 'writable:true,set(v){}', 'value:3'))
    if getattr(u, 'en', 0): parts.append('enumerable:true')
    elif u.p(.6): parts.append('enumerable:' + u.ch('true', 'false', 'true'))
    if u.p(.6): parts.append('configurable:' + u.ch('true', 'false', 'true'))
    u.r.shuffle(parts)
    return '{' + ','.join(parts) + '}'

def mkobj(u):
    return u.wt(
        (4, lambda: '({' + ','.join(u.pick(['a:1', 'b:2', '1:"x"', '0:"y"', 'get c(){return 5}', 'set d(v){emit("sd",$S(v,1))}', '[$y]:3', '"3":4', 'e:{}', 'length:2', '10:1'])
                                   for _ in range(u.n(0, 5))) + '})'),
        (2, lambda: '[' + ','.join(u.pick(['1', '2', '', '"x"', '{}']) for _ in range(u.n(0, 5))) + ']'),
        (1, lambda: 'Object.create(' + u.ch('null', '{a:1,get b(){emit("pg",this===o);return 2},set b(v){emit("ps",this===o)}}', 'Object.freeze({a:1,c:2})', '[1,2]', 'Object.defineProperty({},"a",{value:9})') +
            (',{a:{value:1},b:{get(){return 1},enumerable:true}}' if u.p(.3) else '') + ')'),
        (1, lambda: 'new String(' + u.str(3) + ')'),
        (1, lambda: '(function(){"use strict";return arguments})(1,2,3)'),
        (1, lambda: '(function(a,b){var r=arguments;%sreturn r})(1,2,3)' % u.ch('', 'a=9;', 'r[0]=7;', 'Object.freeze(r);a=5;', 'delete r[0];a=6;', 'Object.defineProperty(r,"0",{writable:false});a=8;', 'Object.defineProperty(r,"1",{value:4});b=3;')),
        (1, lambda: 'new %s(%s)' % (u.ch('Uint8Array', 'Int16Array', 'Float64Array', 'BigInt64Array'), u.n(0, 3))),
        (.5, lambda: u.ch('((x,y)=>1)', '(class A{static p=1})', '/x/g', 'new Date(0)', 'new Number(3)', 'Object(Symbol("q"))', 'new (class{a=1;#b=2;constructor(){this.c=3}})', 'new Map([[1,2]])')))

def op(u):
    k = u.key()
    return u.wt(
        (5, lambda: 'Object.defineProperty(o,%s,%s)' % (k, desc(u))),
        (3, lambda: 'Reflect.defineProperty(o,%s,%s)' % (k, desc(u))),
        (4, lambda: 'o[%s]=%s' % (k, u.val(0))),
        (2, lambda: '(()=>{"use strict";o[%s]=%s})()' % (k, u.val(0))),
        (3, lambda: 'delete o[%s]' % k),
        (1, lambda: '(()=>{"use strict";return delete o[%s]})()' % k),
        (1, lambda: 'Reflect.deleteProperty(o,%s)' % k),
        (1, lambda: u.ch('Object.freeze(o)', 'Object.seal(o)', 'Object.preventExtensions(o)', 'Reflect.preventExtensions(o)')),
        (1, lambda: u.ch('Object.isFrozen(o)', 'Object.isSealed(o)', 'Object.isExtensible(o)', 'Reflect.isExtensible(o)')),
        (1.5, lambda: '%s.setPrototypeOf(o,%s)' % (u.ch('Object', 'Reflect'), u.ch('null', 'p', 'o', 'Object.create(o)', 'Array.prototype', 'undefined', '1', '{a:5,set b(v){emit("q")}}', 'Object.getPrototypeOf(o)'))),
        (1, lambda: 'o.__proto__=%s' % u.ch('null', 'p', 'o', '1', 'Object.create(o)')),
        (2, lambda: 'Reflect.get(o,%s%s)' % (k, u.ch('', ',p', ',1'))),
        (3, lambda: 'Reflect.set(o,%s,%s%s)' % (k, u.val(0), u.ch('', ',p', ',1', ',o', ',Object.create(o)', ',Object.freeze({})', ',[]'))),
        (2, lambda: u.ch('%s in o', 'Object.hasOwn(o,%s)', 'Reflect.has(o,%s)', 'Object.prototype.hasOwnProperty.call(o,%s)', 'Object.prototype.propertyIsEnumerable.call(o,%s)') % k),
        (1, lambda: u.ch('Object.getOwnPropertyDescriptor(o,%s)', 'Reflect.getOwnPropertyDescriptor(o,%s)') % k),
        (3, lambda: u.ch('Reflect.ownKeys(o).map(x=>$S(x)).join()', 'Object.keys(o)', 'Object.values(o)', 'Object.entries(o)', 'Object.getOwnPropertyNames(o)', 'Object.getOwnPropertySymbols(o)', 'Object.getOwnPropertyDescriptors(o)')),
        (2, lambda: '(()=>{let l=[];for(let k in o){l.push(k);%s}return l})()' % u.ch('', '', 'if(l.length<9){' + u.ch('delete o.foo', 'delete o.e', 'delete p.foo') + '}')),
        (1, lambda: 'Object.assign(%s)' % u.ch('o,{a:1,b:2,[$y]:3}', '{},o', 'o,p', 'o,null,"ab",1,{get a(){emit("ga");return 1}}', 'o,o')),
        (1, lambda: 'Object.defineProperties(o,{%s})' % ','.join('%s:%s' % (u.pick(['a', 'b', 'c', '1', '5']), desc(u)) for _ in range(u.n(0, 3)))),
        (.7, lambda: u.ch('o.__defineGetter__(%s,()=>42)', 'o.__defineSetter__(%s,v=>emit("ds"))', 'o.__lookupGetter__(%s)', 'o.__lookupSetter__(%s)') % k),
        (.7, lambda: '({...o})'),
        (.5, lambda: 'o.length=%s' % u.ch('0', '1', '3', '10', '2**32-1', '2**32', '-1', '1.5', '"2"', 'undefined', '{valueOf(){emit("lv");return 2}}')),
        (.5, lambda: u.ch('Object.fromEntries(Object.entries(o))', 'typeof o.toString', 'Object.prototype.toString.call(o)', 'Object.prototype.isPrototypeOf.call(p,o)', 'Object.prototype.valueOf.call(o)===o', 'p.isPrototypeOf(o)', 'o.toLocaleString===undefined')),
        (.4, lambda: 'Object.fromEntries(%s)' % u.ch('[["a",1],["b",2],["a",3]]', 'new Map([[1,2]])', '[[$y,1],[1,2]]', '[1]', 'null', '[[]]', '"ab"')),
        (.4, lambda: 'Object.is(%s,%s)' % (u.prim(), u.prim())))

def c14(u):
    m = mkobj(u)
    u.en = 'arguments' in m and 'use strict' not in m   # V8 hides non-enumerable elements of mapped arguments
    ta = '64Array' in m or 't8Array' in m or 't16Array' in m
    s = 'let o=%s,p=%s;' % (m, u.ch('{b:1,get c(){emit("pc",this===o);return 3},set c(v){emit("psc",this===o)},x:4}', '[7,8]', 'Object.create({z:1},{a:{value:1,enumerable:true}})', 'new String("pq")', '{e:1,foo:2}', '{}'))
    s += 'const $G=function(){emit("G",this===o,arguments.length)};'
    for _ in range(u.n(3, 10)):
        x = op(u)
        # receivers and sealing of typed arrays changed between editions
        while ta and 'length' in x or (ta or 'arguments' in m) and ('Object.seal' in x or 'Object.freeze(o' in x) or m[0] == '[' and ('isSealed' in x or 'isFrozen' in x) or ta and ('Reflect.set(' in x or 'Object.seal' in x or 'Object.freeze(o' in x or 'isSealed' in x or 'isFrozen' in x or 'k in o' in x) or m[0] == '[' and 'Object.freeze(o' in x: x = op(u)
        # V8 forgets that elements are sealed when they become sparse
        x = x.replace('Object.seal(o)', 'Object.seal(o=Object.fromEntries(Object.entries(o).filter(([k])=>isNaN(k))))')
        s += 't(()=>%s);' % x
    return s + 'return o'

# ------------------------------------------------------------------ C15
TRAPS = ['getPrototypeOf', 'setPrototypeOf', 'isExtensible', 'preventExtensions', 'getOwnPropertyDescriptor', 'defineProperty', 'has', 'get', 'set', 'deleteProperty', 'ownKeys']
def target(u):
    return u.wt((5, lambda: '({' + ','.join(u.pick(['a:1', 'b:2', '1:3', 'get c(){emit("tgc");return 5}', 'set d(v){emit("tsd")}', '[$y]:3']) for _ in range(u.n(0, 4))) + '})'),
                (2, lambda: 'Object.defineProperties({x:1},{a:%s,b:%s})' % (desc(u).replace('$G', 'undefined'), u.ch('{value:1}', '{value:2,writable:true}', '{get:undefined,set(v){}}', '{get(){return 3}}', '{value:1,configurable:true}'))),
                (1, lambda: u.ch('Object.freeze({a:1,b:2})', 'Object.seal({a:1,b:2})', 'Object.preventExtensions({a:1,get b(){return 1}})', 'Object.preventExtensions(Object.create({q:1},{a:{value:1}}))')),
                (1, lambda: '[1,2,3]'), (.5, lambda: 'Object.freeze([1,2])'),
                (1, lambda: '(function f(a,b){"use strict";emit("call",$S(this,1),$S([...arguments],2),new.target===undefined);return 5})'),
                (.5, lambda: '(class C{constructor(...a){emit("cons",$S(a,2));this.z=1}})'), (.4, lambda: '(()=>3)'), (.8, lambda: 'new Proxy(%s,%s)' % (u.ch('{a:1}','Object.freeze({a:1})','Object.preventExtensions({a:1,b:2})','[1,2]'), u.ch('{}','{isExtensible(){ev("iie");throw "IE"}}','{isExtensible(x){ev("iie2");return Reflect.isExtensible(x)},getOwnPropertyDescriptor(x,k){ev("igd",$S(k));return Reflect.getOwnPropertyDescriptor(x,k)},getPrototypeOf(x){ev("igp");return Reflect.getPrototypeOf(x)},defineProperty(x,k,d){ev("idp",$S(k),D(d));return Reflect.defineProperty(x,k,d)},ownKeys(x){ev("iok");return Reflect.ownKeys(x)}}','{getOwnPropertyDescriptor(x,k){ev("igd");throw "GD"}}','{ownKeys(){ev("iok");throw "OK"},getPrototypeOf(){throw "GP"}}'))),
                (.3, lambda: 'new String("ab")'))

def trap_body(u, t):
    rr = 'Reflect.%s(...A)' % t
    if t == 'getPrototypeOf': v = u.ch('null', 'Object.prototype', '{}', '1', 'undefined', '"s"', 'Array.prototype', '()=>1')
    elif t in ('setPrototypeOf', 'isExtensible', 'preventExtensions', 'has', 'deleteProperty', 'defineProperty', 'set'): v = u.ch('true', 'false', '0', '1', 'undefined', '"x"', '!' + rr, '(%s,true)' % rr)
    elif t == 'getOwnPropertyDescriptor': v = u.ch('undefined', desc(u).replace('$G', 'undefined').replace('o)', '0)').replace('this===o', '1'), '{value:1,writable:true,enumerable:true,configurable:true}', '{value:1,configurable:false}', 'null', '1', '{get(){},configurable:true}',
                                                           '{value:1,writable:false,enumerable:false,configurable:false}', '{...(%s||{}),configurable:true}' % rr, '{...(%s||{}),writable:false,configurable:false}' % rr)
    elif t == 'get': v = u.val(0)
    elif t == 'ownKeys': v = u.ch('[]', '["a"]', '["a","b"]', '["b","a",$y]', '["a","a"]', '[1]', '{length:2,0:"a",1:"b"}', '"ab"', '[...%s,"zz"]' % rr, '%s.slice(1)' % rr, '[...%s].reverse()' % rr, '["a",{}]', '["a",undefined]', 'null', '[$y,"x","a"]')
    else: v = u.val(0)
    return u.wt((5, rr), (6, v), (.6, '(()=>{throw "th"})()'))

def handler(u, dense):
    parts = []
    for t in TRAPS + ['apply', 'construct']:
        if u.p(dense):
            parts.append('%s(...A){ev("%s",A.length,A.slice(1).map(x=>x===p?"P":x===o?"O":x===T?"T":D(x)).join(" "));return %s}' % (t, t, trap_body(u, t) if t not in ('apply', 'construct') else
                         u.wt((3, 'Reflect.%s(...A)' % t), (2, u.ch('{}', '1', 'null', 'undefined', '[]', 'A[1]')))))
        elif u.p(.06):
            parts.append('%s:%s' % (t, u.ch('undefined', 'null', '1', '{}', '"x"')))
    return '{' + ','.join(parts) + '}'

def c15(u):
    s = '$f=0;let T=%s,o;' % target(u)
    if u.p(.3): s += 't(()=>%s);' % u.ch('Object.freeze(T)', 'Object.preventExtensions(T)', 'Object.preventExtensions(T)' if '1' in s else 'Object.seal(T)', 'Object.defineProperty(T,"a",{value:1,configurable:false})', 'Object.defineProperty(T,"a",{get:undefined,set:undefined,configurable:false})', 'Object.defineProperty(T,"a",{value:1,writable:false,configurable:false})')
    s += 'let h=%s,p;' % handler(u, u.ch(.25, .5, .9))
    rev = u.p(.15)
    if rev: s += 'let R=Proxy.revocable(T,h);p=R.proxy;'
    else: s += 'p=new Proxy(T,h);'
    s += '$q.add(p);'
    s += 'o=p;' if u.p(.85) else 'o=Object.create(p);'
    def g():
        while 1:
            x = op(u).replace('$G', 'undefined').replace('Object.seal', 'Object.preventExtensions')
            # a prototype chain through the proxy itself can be endless
            if 'rototypeOf(o' in x and ('(o,o)' in x or '(o,p)' in x or 'create(o)' in x) or '__proto__=o' in x or '__proto__=p' in x or '__proto__=Obj' in x: continue
            if '429496729' in x or 'length' in x and '2**' in x or x.startswith('o["length"]') or '"length",' in x and ',' in x: continue   # endless walks over huge arrays
            if 'for(let k in' in x: continue   # the order of the traps is up to the implementation
            return x
    for i in range(u.n(2, 7)):
        s += 't(()=>%s);' % u.wt((8, g), (1, lambda: u.ch('o(1,2)', 'new o(3)', 'Reflect.apply(p,1,[2])', 'Reflect.construct(p,[1],%s)' % u.ch('p', 'Array', 'function(){}', '1'), 'o.call(4,5)', 'typeof o', 'Array.isArray(o)', 'o instanceof Object', '[...o]', 'Object.prototype.toString.call(o)', '({...o})', '(({a,...r})=>r)(p)', '`${o}`', 'o+""', 'Array.prototype.push.call(o,1)', 'class extends o{}', 'typeof Function.prototype.toString.call(o)', 'o==o')))
        if rev and u.p(.3): s += 'R.revoke();'
    if u.p(.1): s += 't(()=>typeof new Proxy(%s,%s));' % (u.ch('1', 'T', 'null', 'p'), u.ch('1', '{}', 'undefined', 'p'))
    return s + 'return T'

C15PRE = '''const $q=new WeakSet;function t(f){let r;try{r=f()}catch(e){emit("!",$err(e));return}emit("=",$q.has(r)?"P":$S(r));return r}
let $f=0;function ev(...a){if(++$f>120)throw "fuel";emit(...a)}
function D(x){if(Array.isArray(x))return "A"+x.length;if(typeof x==="object"&&x)return Object.getPrototypeOf(x)===Object.prototype?$S(x,1):"o";return typeof x==="function"?"f":$S(x)}
'''
# ------------------------------------------------------------------ C22
MK = ['0', '-0', 'NaN', '1', '2', '"1"', '"a"', '1n', '2n**70n', 'true', 'null', 'undefined', '$y', 'k1', 'k2', 'k3', '""', '1.5', 'Infinity', '2**40', '"b"', '-1', '"__proto__"', '0/0', 'BigInt(2)**70n', '"a"+""', '4294967296', '3', '4', '5', '6', '7', '8', '9', '10', '11', '12']
def c22(u):
    map_ = u.p(.6)
    C = 'Map' if map_ else 'Set'
    ks = [u.pick(MK) for _ in range(u.n(1, 12))]
    k = lambda: u.pick(ks)
    v = lambda: u.int(0, 99)
    ini = ','.join(('[%s,%s]' % (k(), v()) if map_ else k()) for _ in range(u.n(0, 4)))
    s = 'const k1={},k2=[],k3=()=>1;let m=new %s(%s),its=[];' % (C, '[%s]' % ini if u.p(.9) else u.ch('', 'null', 'undefined', '"ab"', '[[1,2],[3]]', '[1]', 'new Map([[1,2]])', 'new Set([[1,2]])', '{}', '5', '[[k1,1]].values()'))
    def mut(dep=0):
        return u.wt((5, lambda: 'm.%s' % ('set(%s,%s)' % (k(), v()) if map_ else 'add(%s)' % k())),
                    (4, lambda: 'm.delete(%s)' % k()), (.5, lambda: 'm.clear()'), (1, lambda: 'm.has(%s)' % k()),
                    (1, lambda: 'm.size'), (1 if map_ else 0, lambda: 'm.get(%s)' % k()))
    n = 0
    for _ in range(u.n(4, 25)):
        s += u.wt((8, lambda: 't(()=>%s);' % mut()),
                  (1.5, lambda: 'its.push(m%s);' % u.ch('.keys()', '.values()', '.entries()', '[Symbol.iterator]()')),
                  (4, lambda: 'if(its.length)t(()=>its[%d%%its.length].next());' % u.n(0, 3)),
                  (1, lambda: '{let c=0;m.forEach(function(a,b,z){emit("f",$S(a,1),$S(b,1),z===m,this===m);if(c++<6){%s}}%s);}' % (mut() if u.p(.7) else '', u.ch('', ',m'))),
                  (1, lambda: '{let c=0;for(let x of m){emit("o",$S(x,2));if(c++>9)break;%s}}' % (mut() if u.p(.7) else '')),
                  (.3, lambda: 't(()=>[...m]);'), (.2, lambda: 't(()=>%s);' % u.ch('m.set(1)', 'm.add', 'Map.prototype.get.call({},1)', 'Set.prototype.has.call(m,1)', 'Map()', 'Set()', 'm.constructor[Symbol.species]===m.constructor', 'Map.prototype.entries===Map.prototype[Symbol.iterator]', 'Set.prototype.keys===Set.prototype.values', 'its.length&&Object.prototype.toString.call(its[0])', 'new m.constructor(m)')),
                  (.2, lambda: 'for(let i=0;i<%d;i++)m.%s;' % (u.n(10, 80), 'set(i%%%d,i)' % u.n(5, 50) if map_ else 'add(i*%d)' % u.n(1, 9))),
                  (.15, lambda: 'for(let i=0;i<%d;i++)m.delete(i*%d);' % (u.n(10, 80), u.n(1, 3))))
    return s + 't(()=>[...m].length);return its.length?[m,its[0].next(),its[its.length-1].next()]:m'

# ------------------------------------------------------------------ C33
EQ = ['0', '-0', 'NaN', '1', '"1"', '"0"', '""', 'true', 'false', 'null', 'undefined', '1n', '0n', '-1n', '2n**64n', '2**64', '"18446744073709551616"', '"1n"', '" 1 "', '"abc"', '[]', '[1]', '[[]]', '{}', 'A', 'A', 'S1', 'S2', 'Symbol.iterator', 'Symbol.for("k")', 'Object("a")', 'Object(1)', 'Object(S1)', 'Object(1n)', '"a"', '"A"', 'new Date(0)', '()=>1', '1.5', '"1.5"', '"0x1"', '"1e0"', 'Infinity', '"Infinity"', '2**53', '2n**53n', '9007199254740993n', '"9007199254740993"', '$V("v",1)', '$V("w","1",1n)', '$V("z",{},{})', '{toString(){return "a"},valueOf(){return {}}}', '{[Symbol.toPrimitive](h){emit("tp",h);return h==="number"?2:"a"}}', '{[Symbol.toPrimitive]:1}', '{[Symbol.toPrimitive]:null,valueOf(){return 3}}']
ERRS = ['Error', 'TypeError', 'RangeError', 'SyntaxError', 'ReferenceError', 'EvalError', 'URIError']
def c33(u):
    e = lambda: u.pick(EQ)
    def err():
        E = u.pick(ERRS)
        msg = u.ch('', '"m"', 'undefined', 'null', '1', '{toString(){emit("ts");return "M"}}', '$y', '""', '[1,2]')
        opt = u.ch('', '{}', '{cause:0}', '{cause:undefined}', '{get cause(){emit("gc");return 1}}', '1', 'null', 'Object.create({cause:2})', '$P("o",{cause:3})', 'undefined')
        a = msg + (',' + opt if opt and msg else '')
        x = u.wt((3, 'new %s(%s)' % (E, a)), (2, '%s(%s)' % (E, a)), (1, 'Reflect.construct(%s,[%s],%s)' % (E, a, u.ch('Array', 'class extends Error{}', 'function(){}', 'Object.assign(function(){},{prototype:1})'))),
                 (1, 'new (class X extends %s{constructor(...a){super(...a);this.z=1}})(%s)' % (E, a)))
        return 'let e=%s;for(let k of ["message","cause","name","constructor"])t(()=>Object.getOwnPropertyDescriptor(e,k));t(()=>Object.getPrototypeOf(e)===%s.prototype);t(()=>e instanceof Error);t(()=>e.toString());t(()=>Object.prototype.toString.call(e));return Object.keys(e)' % (x, E)
    def agg():
        return 'let e=%sAggregateError(%s);t(()=>Object.getOwnPropertyDescriptor(e,"errors"));t(()=>Object.getOwnPropertyDescriptor(e,"message"));t(()=>Object.getOwnPropertyDescriptor(e,"cause"));return [e instanceof Error,e.name,String(e),Object.getPrototypeOf(AggregateError)===Error,AggregateError.length]' % (u.ch('new ', ''), u.ch('[1,2]', '"ab"', 'new Set([1])', '1', '', '[],"m"', '[1],"m",{cause:2}', '(function*(){yield 1;throw "g"})()', '{[Symbol.iterator]:1}', '$P("i",[1])', '[],{toString(){emit("s");return "q"}},$P("o",{cause:1})', 'undefined'))
    def tos():
        return 'return Error.prototype.toString.call(%s)' % u.ch('{name:"N",message:"M"}', '{}', '{name:"",message:"M"}', '{name:"N",message:""}', '{name:undefined,message:undefined}', '1', 'null', '{get name(){emit("n");return 1},get message(){emit("m");return 2}}', '{name:null,message:null}', '{name:$y}', '{name:$V("n","x"),message:$V("m","y")}', '$P("e",{name:"a",message:"b"})')
    def sym():
        d = u.ch('', 'undefined', '"d"', '1', 'null', '$V("d","x")', '""', 'S1', '{}')
        return u.ch('return [Symbol(%s).description,Symbol(%s).toString()]' % (d, d), 'return new Symbol()', 'return Symbol.for(%s)===Symbol.for(%s)' % (d or '"k"', u.ch('"d"', '"k"', '"1"', d or '1')),
                    'return Symbol.keyFor(%s)' % u.ch('Symbol.for("k")', 'S1', 'Symbol.iterator', '1', 'Symbol.for()', '"k"', 'Symbol.for("")', 'Object(Symbol.for("k"))'),
                    'return Object(S1)%sS1' % u.ch('==', '===', '+', '<', '!='), 'return S1%s' % u.ch('+""', '+1', '-1', '.description', '.toString()', '.valueOf()', '[Symbol.toPrimitive]()', '.constructor===Symbol', '>1', '|0', '==1'),
                    'return `${%s}`' % u.ch('S1', 'Object(S1)', 'String(S1)'), 'return [String(S1),Boolean(S1),Number(S1)]', 'return Object.prototype.toString.call(S1)',
                    'return Object.getOwnPropertyNames(Symbol).sort()', 'return ["iterator","asyncIterator","hasInstance","isConcatSpreadable","match","matchAll","replace","search","species","split","toPrimitive","toStringTag","unscopables"].map(n=>[n,String(Symbol[n]),JSON.stringify(Object.getOwnPropertyDescriptor(Symbol,n)),Symbol[n]===$createRealm().Symbol[n]])',
                    'let s=Symbol("q"),o={[s]:1,a:2};return [o[s],o[Object(s)],s in o,Object.keys(o).length,JSON.stringify(o),Object.getOwnPropertySymbols(o)[0]===s,Object.assign({},o)[s]]',
                    'let d=Object.getOwnPropertyDescriptor(Symbol.prototype,"description");return [typeof d.get,d.set,d.enumerable,d.get.call(Object(S1)),t(()=>d.get.call(1))]',
                    'return Symbol.prototype[Symbol.toPrimitive].call(%s)===S1' % u.ch('S1', 'Object(S1)', '1', '{}'), 'return Symbol.prototype.%s.call(%s)' % (u.ch('toString', 'valueOf'), u.ch('S1', 'Object(S1)', '"s"', '{}', 'undefined')))
    def wk():
        return u.ch(
            'return %s instanceof %s' % (u.ch('1', '{}', '[]', '()=>1', 'Object.create(Array.prototype)'), u.ch('{[Symbol.hasInstance](v){emit("hi",$S(v,1));return %s}}' % u.ch('1', '0', '"x"', 'undefined'), 'Object', 'Array', '{}', '1', '()=>1', 'function(){}.bind()', '{[Symbol.hasInstance]:undefined}', '{[Symbol.hasInstance]:1}', 'Object.assign(function(){},{prototype:1})', '(class{static [Symbol.hasInstance](v){emit("s");return true}})', 'null')),
            'return Object.prototype.toString.call(%s)' % u.ch('{[Symbol.toStringTag]:"X"}', '{[Symbol.toStringTag]:1}', 'null', 'undefined', '[]', '(()=>1)', 'function*(){}', 'new Error', 'true', '1', '""', '$y', '1n', 'new Date', '/x/', '(function(){return arguments})()', 'new Map', 'new Promise(()=>1)', 'JSON', 'Math', 'globalThis.Reflect', 'Atomics', 'new Proxy([],{})', 'new Proxy(()=>1,{})', 'Object.assign([],{[Symbol.toStringTag]:"Y"})', 'new Set().values()', '(function*(){})()', 'new DataView(new ArrayBuffer(1))', 'Int8Array', 'new Int8Array', 'Symbol.prototype', 'new WeakRef({})', 'async()=>1', 'class{}'),
            'return [].concat(%s)' % u.ch('{length:2,0:"a",1:"b",[Symbol.isConcatSpreadable]:true}', 'Object.assign([1,2],{[Symbol.isConcatSpreadable]:false})', 'Object.assign(new String("ab"),{[Symbol.isConcatSpreadable]:true})', '{get [Symbol.isConcatSpreadable](){emit("ics");return 0},length:1}', '(()=>{let f=(a,b)=>1;f[Symbol.isConcatSpreadable]=1;return f})()'),
            'with({a:1,get [Symbol.unscopables](){emit("un");return %s}}){return typeof a}' % u.ch('{a:true}', '{a:false}', 'undefined', '1', '{get a(){emit("ua");return 1}}'),
            'return "x-y".%s(%s)' % tuple(u.ch(('split', '{[Symbol.split](s,l){emit("sp",s,l);return 5}}'), ('replace', '{[Symbol.replace](s,l){emit("rp",s,l);return 5}},"q"'), ('match', '{[Symbol.match](s){emit("m",s);return 5}}'), ('search', '{[Symbol.search](s){emit("se",s);return 5}}'), ('matchAll', '{[Symbol.matchAll](s){emit("ma",s);return 5}}'), ('replaceAll', '{[Symbol.replace](s,l){emit("ra",s,l);return 5}},"q"'), ('includes', '{[Symbol.match]:true,toString(){return "x"}}'), ('startsWith', 'Object.assign(/x/,{[Symbol.match]:false,toString(){return "x"}})'), ('split', '{[Symbol.split]:null,toString(){return "-"}}'), ('match', '{[Symbol.match]:undefined,toString(){return "y"}}'), ('endsWith', '/y/'))),
            'class AA extends Array{static get [Symbol.species](){emit("spc");return %s}};let r=new A(1,2,3).%s;return [r.constructor===AA,r.length]' % (u.ch('Array', 'undefined', 'null', 'AA', 'function(n){emit("n",n)}', '1', 'Object', '()=>1'), u.ch('map(x=>x)', 'filter(x=>x>1)', 'slice(1)', 'splice(0,1)', 'concat([1])', 'flat()', 'flatMap(x=>[x])')),
            'return [..."ab",...{*[Symbol.iterator](){yield 1}},...%s]' % u.ch('{[Symbol.iterator]:null}', '{[Symbol.iterator](){return {next(){return {done:true}}}}}', '{[Symbol.iterator](){return 1}}', '[7]', '{[Symbol.iterator]:undefined}'),
            'let d=%s;return [d+"",d+1,`${d}`,Number(d)]' % u.ch('new Date(0)', '{[Symbol.toPrimitive](h){return h}}', '{[Symbol.toPrimitive](h){return {}}}', '{valueOf(){return 1},toString(){return 2}}', '{valueOf:1,toString(){return 2}}', '{valueOf(){return {}},toString(){return {}}}', 'Object.create(null)'),
            'return Date.prototype[Symbol.toPrimitive].call(%s,%s)' % (u.ch('new Date(0)', '{valueOf(){return 1},toString(){return "s"}}', '1', '{}'), u.ch('"number"', '"string"', '"default"', '"x"', 'undefined', '1', '')))
    body = u.wt((8, lambda: 'let a=%s,b=%s;return [a==b,b==a,a===b,Object.is(a,b),[a].includes(b),[a].indexOf(b),new Set([a,b]).size,a!=b,a!==b,new Map([[a,1]]).has(b),(()=>{switch(a){case b:return 1}return 0})()]' % (e(), e())),
                (1, lambda: 'let a=%s,b=%s;return [t(()=>a<b),t(()=>a>b),t(()=>a<=b),t(()=>a>=b),t(()=>a+b)]' % (e(), e())),
                (4, err), (2, agg), (2, tos), (4, sym), (6, wk),
                (.5, lambda: 'return [typeof (%s),Boolean(%s),!(%s)]' % ((e(),) * 3)), (.5, lambda: 'return [t(()=>String(%s)),t(()=>Number(%s))]' % (e(), e())))
    return 'const A={},S1=Symbol("s"),S2=Symbol("s");' + body
