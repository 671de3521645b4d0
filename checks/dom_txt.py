"""Library generators: numbers (C16), big integers (C17), strings (C18), JSON (C20), dates (C24)."""
import struct, math, re
from libgen import U, esc, EDGE, CHARS
from fractions import Fraction

# ---------------------------------------------------------------- numbers
def dbl(u):
    """a random finite double"""
    k = u.n(0, 11)
    if k < 3:
        while 1:
            x = struct.unpack('<d', struct.pack('<Q', u.r.getrandbits(64)))[0]
            if math.isfinite(x): return x
    if k < 5: return float(u.n(-1000, 1000)) / u.ch(1, 2, 4, 8, 3, 7, 10, 100, 1000)
    if k < 7: return float(u.r.getrandbits(u.n(1, 70))) * u.ch(1, -1)
    if k < 8: return u.r.uniform(-1, 1) * 10.0 ** u.n(-25, 25)
    if k < 9: return math.ldexp(1.0, u.n(-1074, 1023)) * u.ch(1, -1, 1, 1 + 2**-52 if 1 else 1)
    if k < 10: return (u.n(0, 2**20) + u.ch(.5, .25, .75, .125, .375)) * u.ch(1, -1)
    if k < 11: return float('%d.%de%d' % (u.n(0, 9), u.n(0, 999), u.n(-30, 30)))
    return math.nextafter(u.ch(1.0, 2.0**31, 2.0**32, 2.0**53, 10.0, 1e21, 1e-6, 1e-7, .5, 100.0, 2.0**-1022), u.ch(math.inf, -math.inf))
def lit(x):
    if x != x: return 'NaN'
    if math.isinf(x): return '-Infinity' if x < 0 else 'Infinity'
    s = repr(x)
    return '(%s)' % s if x < 0 or s[0] == '-' else s.replace('e+', 'e')
def par(x): return '(%s)' % x if x[0] in '-{(' or '*' in x else x
def num(u): return par(u.wt((6, lambda: lit(dbl(u))), (2, lambda: u.pick(EDGE)), (1, lambda: u.int(-5, 20))))
def exact_dec(fr):
    """decimal expansion of a dyadic rational"""
    s = '-' if fr < 0 else ''
    fr = abs(fr)
    n = fr.numerator; d = fr.denominator; k = d.bit_length() - 1
    digs = str(n * 5 ** k)
    if k == 0: return s + digs
    digs = digs.rjust(k + 1, '0')
    return s + digs[:-k] + '.' + digs[-k:]
def declit(u):
    """decimal text whose nearest double is interesting"""
    k = u.n(0, 9)
    if k < 3:   # around the midpoint of two doubles
        while 1:
            x = abs(dbl(u))
            if 1e-40 < x < 1e60: break
        y = math.nextafter(x, math.inf)
        m = (Fraction(x) + Fraction(y)) / 2
        t = exact_dec(m)
        if '.' not in t: t += '.'
        r = u.n(0, 3)
        if r == 1: t += '0' * u.n(0, 30) + '1'
        elif r == 2:
            t = t.rstrip('.')
            i = max(i for i, c in enumerate(t) if c in '123456789')
            t = t[:i] + str(int(t[i]) - 1) + '9' * u.n(1, 20) if '.' in t[:i] else t
        return t.rstrip('.') if u.p(.5) else t
    d = ''.join(u.ch(*'0123456789') for _ in range(u.wt((3, lambda: u.n(1, 6)), (3, lambda: u.n(15, 21)), (1, lambda: u.n(22, 60)))))
    if k < 5: return (d.lstrip('0') or '0') + ('e%s%d' % (u.ch('', '+', '-'), u.wt((3, lambda: u.n(0, 30)), (2, lambda: u.n(280, 345)))) if u.p(.6) else '')
    i = u.n(0, len(d))
    a = d[:i].lstrip('0') or '0'
    return a + '.' + (d[i:] or '0') + ('%s%s%d' % (u.ch('e', 'E'), u.ch('', '+', '-'), u.wt((3, lambda: u.n(0, 30)), (2, lambda: u.n(280, 345)))) if u.p(.6) else '')
def numstr(u):
    """string for Number(), parseFloat, parseInt"""
    s = u.wt((5, lambda: declit(u)), (1, lambda: u.ch('0x', '0b', '0o', '0X', '0B', '0O') + ''.join(u.ch(*'0110127a9fFgz_') for _ in range(u.n(0, 9)))),
             (1, lambda: u.ch('Infinity', '-Infinity', '+Infinity', 'infinity', 'Infinityx', 'NaN', 'Inf', '', '.', '+', '-', 'e5', '.e1', '1e', '1e+', '5.', '.5', '00012', '1_000', '1n', '0x', '--1', '+-1', '1 2', '1,2', '0.0000001', '1e1000', '-1e1000', '1e-1000', '-0', '-0.0', '0e0', '08', '010', '1e0005', '1.e2')),
             (1, lambda: u.rawstr(5)))
    if u.p(.25): s = u.ch('+', '-', '- ', '') + s
    if u.p(.2): s = u.pick([' ', '\t', '\n', '\u2028', '\ufeff', '\u3000', '\xa0', '\v', '\0', '\u180e', '\u200b', '\x85']) * u.n(1, 2) + s
    if u.p(.2): s += u.pick([' ', '\n', '\u2029', 'px', 'e', '.', 'x', '\0', '\ufeff', '_', '1', '\ud800'])
    return s
T1 = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'expm1', 'log', 'log2', 'log10', 'log1p', 'cbrt']
SP = ['0', '-0', 'NaN', 'Infinity', '-Infinity', '1', '-1', 'undefined', 'null', '""', '"x"', '[]']
def c16(u):
    k = u.n(0, 22)
    T = lambda e: 't(()=>%s);' % e
    s = ''
    for _ in range(u.n(3, 7)):
        k = u.n(0, 25)
        if k < 3: s += T('%s%s%s' % (num(u), u.ch('+', '-', '*', '/', '%', '+', '*', '/', '%', '&', '|', '^', '<<', '>>', '>>>', '<', '<=', '==', '==='), num(u)))
        elif k < 4: s += T('%s%s' % (u.ch('~', '-', '+'), num(u)))
        elif k < 5: s += T('[%s|0,%s>>>0]' % ((num(u),) * 2))
        elif k < 7: s += T(declit(u).replace('e+', 'e'))
        elif k < 10: s += T('Number(%s)' % esc(numstr(u)))
        elif k < 11: s += T('%s%s' % (u.ch('+', '1*', '-', '0|', '~~'), esc(numstr(u))))
        elif k < 13: s += T('parseFloat(%s)' % esc(numstr(u)))
        elif k < 15:
            s += T('parseInt(%s%s)' % (u.wt((3, lambda: esc(numstr(u))), (1, lambda: num(u)), (2, lambda: esc(''.join(u.ch(*'0123456789abcxyzXF') for _ in range(u.n(1, 9)))))),
                                      u.wt((3, ''), (3, ',10'), (2, ',16'), (2, lambda: ',' + u.ch('2', '8', '4', '32', '0', 'undefined', '1', '37', '-1', '"16"', '4294967298', 'NaN', '2.9')))))
        elif k < 16:   # small integers in any radix
            r = u.n(2, 36); D = '0123456789abcdefghijklmnopqrstuvwxyz'
            s += T('parseInt("%s",%d)' % (''.join(u.pick(D[:r]) for _ in range(u.n(1, 9))), r))
        elif k < 17: s += T('(%d).toString(%s)' % (u.r.getrandbits(u.n(1, 53)) * u.ch(1, -1), u.wt((6, lambda: str(u.n(2, 36))), (1, lambda: u.ch('undefined', '1', '37', '0', '"16"', 'null', 'NaN', '2.5', '-2', 'Infinity', '2n', '{valueOf(){emit("rx");return 2}}')))))
        elif k < 18:
            x = dbl(u)
            s += T('(%s).toString(%d)' % (lit(x), u.n(2, 36) if abs(x) < 2**53 else u.ch(2, 4, 8, 16, 32)))
        elif k < 20: s += T('(%s).%s(%s)' % (num(u), u.ch('toFixed', 'toExponential', 'toPrecision'), u.wt((8, lambda: u.int(0, 21)), (2, lambda: u.int(0, 100)), (1, lambda: u.ch('', 'undefined', '-1', '101', 'NaN', '"3"', 'Infinity', '{valueOf(){emit("fd");return 4}}', '1.9', '0')))))
        elif k < 21: s += T('[%s,%s].map(String)' % (num(u), num(u)))
        elif k < 23: s += T('Math.%s(%s)' % (u.wt((4, lambda: u.ch('abs', 'ceil', 'floor', 'round', 'trunc', 'sign', 'sqrt', 'fround', 'clz32')), (1, 'x')) if 0 else u.ch('abs', 'ceil', 'floor', 'round', 'trunc', 'sign', 'sqrt', 'fround', 'clz32', 'round', 'fround'), num(u) if u.p(.9) else u.val(1)))
        elif k < 24: s += T('Math.%s(%s)' % (u.ch('min', 'max', 'imul', 'min', 'max', 'hypot', 'atan2', 'pow') if 0 else u.ch('min', 'max', 'imul'), ','.join(num(u) if u.p(.93) else u.val(0) for _ in range(u.n(0, 4)))))
        elif k < 25:
            z = u.n(0, 6)
            if z == 0: s += T('Math.%s(%s)' % (u.pick(T1), u.pick(SP)))
            elif z == 1: s += T('+Math.%s(%s).toPrecision(10)' % (u.pick(T1), lit(u.r.uniform(-3, 3) * u.ch(1, 1, 10, .01, 1e-9))))
            elif z == 2: s += T('%s(%s)(%s)' % (u.ch('((a)=>(b)=>a**b)', '((a)=>(b)=>Math.pow(a,b))', '((a)=>(b)=>Math.atan2(a,b))', '((a)=>(b)=>Math.hypot(a,b))'), u.ch('0', '-0', 'NaN', 'Infinity', '-Infinity', '1', '-1'), u.ch('0', '-0', 'NaN', 'Infinity', '-Infinity', '1', '-1', '3', '2', '-3', '0.5', '-2')) if u.p(.99) else '1')
            elif z == 3: s += T('+(%s).toPrecision(10)' % u.ch('%s**%s', 'Math.pow(%s,%s)', 'Math.atan2(%s,%s)', 'Math.hypot(%s,%s)') % (lit(abs(u.r.uniform(.1, 30))), lit(u.r.uniform(-9, 9))))
            elif z == 4: s += T('%d**%d' % (u.n(-9, 9), u.n(0, 15)) if 0 else '(%d)**%d' % (u.n(-9, 9), u.n(0, 15)))
            elif z == 5: s += T('Math.hypot(%s)' % ','.join(u.pick(SP) for _ in range(u.n(0, 3))))
            else: s += T('{let x=Math.random();x>=0&&x<1}' if 0 else '((x)=>x>=0&&x<1)(Math.random())')
        else: s += T('Number.%s(%s)' % (u.ch('isInteger', 'isSafeInteger', 'isFinite', 'isNaN'), num(u) if u.p(.7) else u.val(1)) if u.p(.7) else u.ch('isNaN(%s)', 'isFinite(%s)', 'new Number(%s)', 'Number(%s)', 'Object.is(%s,-0)', '1/%s') % (num(u) if u.p(.7) else u.val(1)))
    return s

# ---------------------------------------------------------------- big integers
def big(u, mx=300):
    k = u.n(0, 9)
    if k < 2: v = u.n(0, 10)
    elif k < 4: v = u.r.getrandbits(u.n(1, mx))
    elif k < 6: v = 2 ** u.n(0, mx) + u.n(-1, 1)
    elif k < 8: v = u.r.getrandbits(u.n(25, 70)) << u.n(0, mx)
    elif k < 9: v = 10 ** u.n(0, mx // 4) + u.n(-1, 1)
    else: v = sum(u.ch(0, 0xffffffff, 1, 0x80000000, 0x7fffffff) << (32 * i) for i in range(u.n(1, mx // 32)))
    return v * u.ch(1, 1, -1)
def bl(u, mx=300):
    v = big(u, mx); a = abs(v)
    t = u.wt((6, '%dn' % a), (1, '0x%xn' % a), (.5, '0b%sn' % bin(a)[2:]), (.5, '0o%on' % a))
    return '(-%s)' % t if v < 0 else t
def c17(u):
    T = lambda e: 't(()=>%s);' % e
    s = ''
    for _ in range(u.n(4, 8)):
        k = u.n(0, 20)
        if k < 6: s += T('%s%s%s' % (bl(u), u.ch('+', '-', '*', '/', '%', '*', '/', '%'), bl(u)))
        elif k < 8: s += T('%s%s%s' % (bl(u), u.ch('&', '|', '^'), bl(u)))
        elif k < 10: s += T('%s%s%s' % (bl(u), u.ch('<<', '>>', '>>', '<<'), u.wt((8, lambda: '%s' % ('%dn' % u.n(0, 130))), (2, lambda: '(-%dn)' % u.n(0, 130)), (.4, lambda: bl(u) if 0 else '0n'))))
        elif k < 11: s += T('%s**%s' % (bl(u, 60), u.ch('%dn' % u.n(0, 20), '%dn' % u.n(0, 5), '(-1n)', '0n', '1n')))
        elif k < 12: s += T('BigInt.%s(%s,%s)' % (u.ch('asIntN', 'asUintN'), u.wt((8, lambda: u.int(0, 130)), (2, lambda: u.ch('31', '32', '33', '63', '64', '65')), (.5, lambda: u.ch('-1', '"8"', '1.5', 'undefined', 'NaN', '{valueOf(){emit("bits");return 9}}'))), bl(u) if u.p(.95) else u.val(1)))
        elif k < 13: s += T('(%s).toString(%s)' % (bl(u), u.wt((3, ''), (6, lambda: str(u.n(2, 36))), (.5, lambda: u.ch('1', '37', '0', 'undefined', '"16"')))))
        elif k < 14:
            v = big(u)
            t = u.wt((5, str(v)), (1, hex(abs(v))), (1, bin(abs(v))), (1, oct(abs(v))), (.5, '+' + str(abs(v))), (.5, lambda: numstr(u)), (.3, '-0x1'), (.3, str(v) + 'n'), (.3, ''), (.3, '000' + str(abs(v))))
            if u.p(.2): t = u.ch(' ', '\n', '\ufeff') + t + u.ch('', ' ')
            s += T('%s(%s)' % (u.ch('BigInt', 'BigInt', 'BigInt', '1n==', '5n<'), esc(t)))
        elif k < 15: s += T('BigInt(%s)' % u.wt((6, lambda: num(u)), (2, lambda: u.val(1)), (1, lambda: bl(u))))
        elif k < 16: s += T('Number(%s)' % bl(u, 1100) if u.p(.7) else '[parseInt(%s),parseFloat(%s),isNaN(Number(%s))]' % (bl(u), bl(u), bl(u)))
        elif k < 17:
            v = big(u, 120)
            try: f = float(v)
            except OverflowError: f = 1.0
            y = u.wt((4, lambda: lit(f)), (2, lambda: lit(math.nextafter(f, math.inf))), (2, lambda: lit(math.nextafter(f, -math.inf))), (3, lambda: num(u)), (3, lambda: bl(u)), (1, lambda: esc(str(v))), (1, lambda: '%dn' % (v + u.n(-1, 1)) if v > 1 else '0n'), (1, lambda: par(u.val(1))))
            x = '(%dn)' % v
            if u.p(.5): x, y = y, x
            s += T('%s%s%s' % (x, u.ch('<', '>', '<=', '>=', '==', '===', '!='), y))
        elif k < 18: s += T('%s%s' % (u.ch('-', '~', '!', 'typeof ', '+', 'void '), bl(u)) if u.p(.7) else '(x=>[%s,x])(%s)' % (u.ch('x++', '++x', 'x--', '--x'), bl(u)))
        elif k < 19: s += T('%s%s%s' % (bl(u), u.ch('+', '-', '*', '/', '%', '**', '&', '|', '^', '<<', '>>', '>>>'), par(u.val(1))) if u.p(.5) else '%s%s%s' % (par(u.val(1)), u.ch('+', '-', '*', '/', '%', '&', '|', '>>', '>>>'), bl(u)))
        elif k < 20: s += T(u.ch('new BigInt(1)', 'BigInt()', 'Object(%s)+1n' % bl(u), 'Object(%s)==%s' % ((bl(u),) * 2), '1n/0n', '1n%0n', '(-0n)', 'new BigInt64Array([%s])[0]' % bl(u), 'new BigUint64Array([%s])[0]' % bl(u), 'BigInt.asUintN(64,%s)' % bl(u), 'BigInt.prototype.valueOf.call(%s)' % bl(u), 'BigInt.prototype.toString.call(%s)' % u.ch('1', '{}', '"1"', 'Object(3n)'), '[%s,%s,%s].sort()' % (bl(u), bl(u), bl(u)), '[%s,%s,%s].sort((a,b)=>a<b?-1:a>b?1:0)' % (bl(u), bl(u), bl(u)), '[1n,2n].includes(%s)' % bl(u, 3) if 0 else '[1n,2n].indexOf(2n)', 'new Map([[%s,1]]).get(1n)' % bl(u), '({[%s]:1})' % bl(u), '[][%s]' % bl(u, 40)))
        else:  # algebraic identities on larger operands
            a, b = bl(u, 900), bl(u, 700)
            s += 't(()=>{let a=%s,b=%s;if(b==0n)return;let q=a/b,r=a%%b;return [q*b+r===a,(r<0n?-r:r)<(b<0n?-b:b),(a*b)/b===a,a-b+b===a,(a<<77n)>>77n===a,(a^b)^b===a,(a&b)+(a|b)===a+b,~a===-a-1n,BigInt(String(a))===a,BigInt("0x"+(a<0n?-a:a).toString(16))===(a<0n?-a:a),BigInt.asIntN(900,a)===a,String(q),String(r)]});' % (a, b)
    return s

# ---------------------------------------------------------------- strings
def st(u, n=8): return u.str(n)
def c18(u):
    T = lambda e: 't(()=>%s);' % e
    i = u.idx
    a, b, c = u.rawstr(10), u.rawstr(3), u.rawstr(2)
    if u.p(.4) and a: k = u.n(0, len(a) - 1); b = a[k:k + u.n(1, 3)]
    if u.p(.1): b = a
    s = 'let a=%s,b=%s,c=%s;' % (esc(a), esc(b), esc(c))
    if u.p(.2): s = s.replace('let a=', 'let a=%s+' % esc(u.rawstr(4)))
    if u.p(.1): s += 'a=%s;' % u.ch('a.slice(1)', 'a+a+b', 'a.substring(0,a.length-1)', '[...a].reverse().join("")', 'a.split("").reverse().join(b)', 'a.repeat(3)', '`${b}${a}`')
    recv = lambda: u.wt((12, 'a'), (1, lambda: 'String.prototype'), (.0, ''))
    S = lambda: u.wt((4, 'b'), (2, 'c'), (1, 'a'), (1, lambda: st(u, 3)), (.5, '""'), (.5, lambda: u.val(1)), (.2, '/a/'), (.3, lambda: u.hook(st(u, 2))))
    for _ in range(u.n(3, 7)):
        m = u.wt((2, lambda: '%s(%s)' % (u.ch('charAt', 'charCodeAt', 'codePointAt', 'at'), u.args(i))),
            (3, lambda: '%s(%s)' % (u.ch('indexOf', 'lastIndexOf', 'includes', 'startsWith', 'endsWith'), u.args(S, i))),
            (3, lambda: '%s(%s)' % (u.ch('slice', 'substring'), u.args(i, i))),
            (2, lambda: '%s(%s)' % (u.ch('padStart', 'padEnd'), u.args(lambda: u.wt((6, lambda: u.int(-1, 16)), (1, lambda: u.pick(['NaN', '"5"', 'undefined', '-Infinity', '3.7', u.hook('7'), '2**40', '2**53', 'Infinity']))), S))),
            (1, lambda: 'repeat(%s)' % u.wt((6, lambda: u.int(-1, 6)), (1, lambda: u.pick(['Infinity', 'NaN', '"2"', '-0', '2**63', '2**60', '2**62', '1.9', '-0.5', '2**53', 'undefined', u.hook('2')])))),
            (1.5, lambda: '%s()' % u.ch('trim', 'trimStart', 'trimEnd')),
            (3, lambda: '%s()' % u.ch('toUpperCase', 'toLowerCase', 'toUpperCase', 'toLowerCase', 'toLocaleUpperCase', 'toLocaleLowerCase')),
            (2, lambda: 'normalize(%s)' % u.ch('', '"NFC"', '"NFD"', '"NFKC"', '"NFKD"', '"NFC"', '"NFD"', '"nfc"', 'undefined', 'null', '""')),
            (3, lambda: 'split(%s)' % u.args(lambda: u.wt((6, S), (2, '""'), (.5, 'undefined'), (.5, '{[Symbol.split](s,l){emit("sp",s,l);return 1}}')), lambda: u.wt((3, lambda: u.int(0, 4)), (1, i)))),
            (3, lambda: '%s(%s,%s)' % (u.ch('replace', 'replaceAll'), u.wt((8, S), (.5, '{[Symbol.replace](s,r){emit("rp",s,r);return 1}}'), (.5, 'null')), u.wt((3, S), (3, lambda: esc(''.join(u.ch('$', '$$', '$&', '$`', "$'", '$1', '$0', '$<a>', 'x', '-', '$10') for _ in range(u.n(1, 4))))), (2, '(...x)=>{emit("f",...x);return "<"+x[0]+">"}'), (1, 'function(m){return m==="a"?undefined:"$&"}')))),
            (1, lambda: 'concat(%s)' % u.args(S, S)),
            (.5, 'toString()'), (.5, 'valueOf()'))
        k = u.n(0, 30)
        if k < 18: s += T('%s.%s' % ('a', m))
        elif k < 19: s += T('String.prototype.%s' % (m.replace('(', '.call(%s,' % u.ch('undefined', 'null', '123', 'true', '[1,2]', '{}', '$y', '12n', '{toString(){emit("ts");return a}}', 'Object(a)'), 1)).replace(',)', ')'))
        elif k < 21: s += T('%s' % u.ch('[...a]', 'Array.from(a)', '[...a].map(x=>x.codePointAt(0))', 'a.split("")', '[...a].length', 'Object.keys(a)', 'Object.getOwnPropertyNames(Object(a))', '(()=>{let r=[];for(let x of a)r.push(x);return r})()', 'a[%s]' % u.idx(), 'a[Symbol.iterator]().next()', '(()=>{let r=[];for(let k in a)r.push(k);return r})()', 'a.length', 'Object.getOwnPropertyDescriptor(a,%s)' % u.int(0, 5), 'Object.entries(a)', '%s in Object(a)' % u.int(0, 5)))
        elif k < 23: s += T(u.ch('[a<b,a>b,a<=b,a===b,a==b,a<c,b<c,a+b<b+a]','[a.localeCompare(a)===0,Math.sign(a.localeCompare(b))===-Math.sign(b.localeCompare(a)),a.localeCompare(a+"x")<0,Math.sign("q".localeCompare("z"))]'))
        elif k < 24: s += T('%s(%s)' % (u.ch('String.fromCharCode', 'String.fromCodePoint'), ','.join(u.wt((5, lambda: str(u.n(0, 0x10ffff))), (3, lambda: str(u.n(0xd700, 0xe100))), (2, lambda: u.pick(['0', '65', '0x10ffff', '65536', '"97"'])), (.4, lambda: u.pick(['-1', '0x110000', '1.5', 'NaN', 'undefined', '"x"', '2**32+65'] if 1 else []))) for _ in range(u.n(0, 4)))))
        elif k < 25: s += T('String.raw(%s)' % u.ch('{raw:["x","y","z"]},%s' % u.args(S, S), '{raw:"abc"},1,2,3', '{raw:{length:%s,0:b,1:c,2:a}},%s' % (u.int(-1, 4), u.args(S, S)), '{}', '{raw:[]}', 'undefined', '{raw:null}'))
        elif k < 28:
            f = u.ch('encodeURIComponent', 'encodeURI', 'decodeURIComponent', 'decodeURI', 'decodeURIComponent', 'decodeURI')
            if f[0] == 'e': e = u.wt((4, 'a'), (2, lambda: st(u, 6)), (.5, lambda: u.val(1)))
            else:
                def pe():
                    k = u.n(0, 8)
                    if k < 2:
                        cp = u.ch(u.n(0, 127), u.n(128, 0x7ff), u.n(0x800, 0xffff), u.n(0x10000, 0x10ffff), u.n(0xd7f0, 0xe010))
                        bs = chr(cp).encode('utf-8', 'surrogatepass')
                    elif k < 3: bs = bytes([u.ch(0xc0, 0xc1, 0xe0, 0xf0, 0xf4, 0xf5, 0xf8, 0xfc, 0xff, 0x80, 0xbf), u.n(0x7f, 0xc0), u.n(0x80, 0xbf), u.n(0x80, 0xbf)][:u.n(1, 4)])
                    elif k < 5: return u.ch('%23', '%24', '%26', '%2b', '%2B', '%2C', '%2f', '%3A', '%3b', '%3D', '%3F', '%40', '%41', '%25', '%20')
                    elif k < 6: return u.ch('%', '%1', '%g0', '%0g', '%u0041', '%%', '%ZZ', '% 1')
                    else: return u.rawstr(2)
                    if u.p(.1): bs = bs[:-1]
                    return ''.join('%%%s' % (('%02x' if u.p(.5) else '%02X') % b) for b in bs)
                e = u.wt((9, lambda: esc(''.join(pe() for _ in range(u.n(1, 4))))), (1, lambda: 'encodeURIComponent(%s)' % st(u, 5)), (.3, lambda: u.val(1)))
            s += T('%s(%s)' % (f, e))
        elif k < 29: s += T(u.ch('String(%s)' % u.val(2), 'new String(%s)' % u.val(1), '`${%s}`' % u.val(1), 'String()', 'new String(a).length', 'JSON.stringify(a)', 'a.concat(b).length', '({[a]:1})', 'Symbol(a).toString()', 'Symbol.for(a).description===a', '(()=>{let o={};o[a]=1;o[b]=2;return [Object.keys(o),o[a+""],a in o]})()', 'new Set([a,b,c,a+"",b+c]).size', 'eval(JSON.stringify(a))===a', 'a.substring(1)+a.substring(0,1)', '(a+b).indexOf(b)', '(a+b).endsWith(b)', '(a+b).startsWith(a)', 'a.at(-1)'))
        else: s += T('(x=>[x.normalize("NFC")===x.normalize("NFD").normalize("NFC"),x.toUpperCase(),x.toLowerCase(),x.normalize("NFKD")])(%s)' % esc(''.join(chr(u.ch(u.n(0xa0, 0x180), u.n(0x265, 0x600), u.n(0x1e00, 0x2000), u.n(0xac00, 0xac50), u.n(0x1100, 0x11ff), u.n(0xf900, 0xfb10), u.n(0x10400, 0x10450), u.n(0x300, 0x340), 0x3a3, 97)) for _ in range(u.n(1, 4)))))
    return s

# ---------------------------------------------------------------- JSON
def jtext(u, d=3):
    ws = lambda: u.wt((8, ''), (1, lambda: ''.join(u.ch(' ', '\n', '\t', '\r') for _ in range(u.n(1, 2)))))
    k = u.n(0, 11)
    if d <= 0 and k > 6: k = u.n(0, 6)
    if k < 2: r = jnum(u)
    elif k < 4: r = jstr(u)
    elif k < 7: r = u.ch('null', 'true', 'false', '0', '-0', '1', '""', '[]', '{}')
    elif k < 9: r = '[' + ','.join(jtext(u, d - 1) for _ in range(u.n(0, 4))) + ws() + ']'
    else: r = '{' + ','.join(ws() + jkey(u) + ws() + ':' + jtext(u, d - 1) for _ in range(u.n(0, 4))) + ws() + '}'
    return ws() + r + ws()
def jdec(t):
    m = re.fullmatch(r'(\d*)(?:\.(\d*))?([eE].*)?', t)
    return (m[1].lstrip('0') or '0') + ('.' + m[2] if m[2] else '') + (m[3] or '')
def jnum(u): return u.wt((3, lambda: str(u.n(-100, 100))), (3, lambda: ('-' if u.p(.3) else '') + jdec(declit(u))), (1, lambda: u.ch('1e5', '1E+5', '0.5', '0e1', '1.0', '-0.0', '9007199254740993', '1e400', '-1e400', '1e-400')))
def jkey(u): return u.wt((5, lambda: '"%s"' % u.ch('a', 'b', 'c', '1', '0', '', 'toJSON', '__proto__', 'length', '01')), (1, lambda: jstr(u)))
def jstr(u):
    o = ''
    for ch in u.rawstr(5):
        k = u.n(0, 9)
        if k < 2 and ord(ch) < 0x10000: o += '\\u%04x' % ord(ch) if u.p(.5) else '\\u%04X' % ord(ch)
        elif ch in '"\\': o += '\\' + ch
        elif ord(ch) < 32: o += {'\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(ch, '\\u%04x' % ord(ch))
        else: o += ch
    if u.p(.2): o += u.ch('\\b', '\\f', '\\n', '\\r', '\\t', '\\/', '\\\\', '\\"', '\\ud83d\\ude00', '\\ud800', '\\u0000')
    return '"%s"' % o
def jbad(u):
    """text that no relaxed reading makes valid (the engine accepts comments, trailing commas, unquoted keys and script literals on purpose)"""
    s = jtext(u).strip(); t = jtext(u, 1).strip()
    return u.wt((2, lambda: s + u.ch(']', '}', ':', ',', ' 1', '@', '"', ' null', '{', '[')), (2, lambda: s[:-1] if s[-1] in ']}"' else s + ']'), (1, lambda: u.ch(']', '}', ':', ',', '@', '1 ', '{', '[', '{"a"', '"x"', '*', '=') + s),
        (1, '[%s %s]' % (s, t)), (1, '{"a" %s}' % s), (1, '{"a":%s "b":%s}' % (s, t)), (1, '{"a":%s,,"b":%s}' % (s, t)), (1, '[,%s]' % s), (1, '[%s,,%s]' % (s, t)), (1, '{:%s}' % s), (1, '{"a"::%s}' % s), (1, '{"a":}'), (1, '[%s}' % s), (1, '{"a":%s]' % s),
        (1, lambda: u.ch('nul', 'tru', 'fals', 'True', 'NULL', 'nullx', 'undefined', '', ' ', '\n', '"\\u12"', '"\\u12g4"', '"\\u"', '"a\nb"', '"', '"\\', '"\\"', '-', '--1', '1e', '1e+', '1.2.3', '1-', '-x', '0x', '[1', '{', '[', '{"a', '{"a":', '{"a":1', '{"a":1,', '[1,', '1,2', '+', '-]', '(1)', '[(1)]', '1;')))
def jval(u, d=3):
    k = u.n(0, 24)
    if d <= 0 and k > 14: k = u.n(0, 14)
    if k < 4: return num(u)
    if k < 8: return u.str(5)
    if k < 11: return u.ch('null', 'true', 'false', 'undefined', '()=>1', '$y', '""', '0')
    if k < 12: return u.ch('new Number(%s)' % num(u), 'new String(%s)' % u.str(3), 'new Boolean(false)', 'Object($y)', 'new Date(0)', 'new Date(NaN)', '/x/', 'new Map', 'new Error("m")' if 0 else 'new Set', 'Object(1n)' if u.p(.3) else 'new Number(1)', 'Math', 'new Uint8Array(2)', 'new Proxy([1,2],{})', 'new Proxy({a:1},{})', 'new ($C=class{x=1;get y(){return 2}})' if 0 else 'new class{x=1;get y(){return 2}}', 'function(){}', 'new ArrayBuffer(1)')
    if k < 13: return u.ch('{toJSON(k){emit("tj",k);return %s}}' % jval(u, 0), '{toJSON:1,a:2}', '{toJSON(){return this}}' if 0 else '{toJSON(k){return k+"!"}}', '{get a(){emit("ga");return %s},b:1}' % jval(u, 0), '{a:1,get b(){throw "x"}}' if u.p(.3) else '{get z(){return 1}}')
    if k < 14: return '$C(%s)' % u.ch('new Number(3)', 'new String("q")') if 0 else '[%s].at(0)' % jval(u, d - 1)
    if k < 15: return '1n' if u.p(.15) else '1'
    if k < 20: return '[' + ','.join(jval(u, d - 1) if u.p(.95) else '' for _ in range(u.n(0, 4))) + ']'
    return '({' + ','.join('%s:%s' % (u.wt((6, lambda: '"%s"' % u.ch('a', 'b', 'c', 'd', '1', '0', '10', 'x y')), (1, lambda: u.str(3)), (.3, '[$y]'), (.3, '["__proto__"]')), jval(u, d - 1)) for _ in range(u.n(0, 4))) + '})'
def c20(u):
    T = lambda e: 't(()=>%s);' % e
    s = ''
    for _ in range(u.n(2, 4)):
        k = u.n(0, 11)
        if k < 3:
            j = jtext(u) if u.p(.7) else jbad(u)
            s += T('JSON.parse(%s)' % esc(j))
        elif k < 5:
            rev = u.ch('function(k,v){emit("rv",k,$S(v,1),$S(this,1));return v}', 'function(k,v){emit("rv",k);if(typeof v=="number")return v+1;return v}', 'function(k,v){emit("rv",k);return k===%s?undefined:v}' % u.ch('"a"', '"0"', '"1"', '"b"', '""'),
                       'function(k,v){emit("rv",k);if(k==="a"&&this&&typeof this=="object"){%s}return v}' % u.ch('delete this.b', 'this.b={n:1}', 'this.c=[9]', 'this[1]=7', 'Object.freeze(this)', 'if(Array.isArray(this.b))this.b.length=0'), '(k,v)=>Array.isArray(v)?{l:v.length}:v', '1', 'null', '{}',
                       '(n=>function(k,v){emit("rv",k);if(k==="0"&&Array.isArray(this)&&!n++){%s}return v})(0)' % u.ch('this.length=1', 'this.push(5)', 'this[1]={q:1}', 'delete this[1]', 'Object.defineProperty(this,"1",{configurable:false})', 'this[1]=new Proxy([1,2],{})', 'this[1]=new Proxy({a:1},{ownKeys(t){emit("ok");return Reflect.ownKeys(t)}})'), 'function(k,v){if(k==="b")throw "rv";return v}')
            s += T('JSON.parse(%s,%s)' % (esc(jtext(u)), rev))
        elif k < 6: s += T('JSON.parse(%s)' % u.ch('null','true','1','-0','[1]','[[2]]','undefined','{}','Symbol()','12n','()=>1','{toString(){emit("ts");return "[1]"}}','{valueOf(){return "[1]"},toString(){return "2"}}','["[3]"]','new String("{}")','1e21','1e-7','{[Symbol.toPrimitive](h){emit(h);return "7"}}','[1,2]','{toString(){throw "x"}}'))
        elif k < 10:
            rep = u.wt((4, ''), (2, ',null'), (1, ',function(k,v){emit("rp",k,$S(v,1),$S(this,1));return v}'), (1, ',function(k,v){return typeof v=="number"?undefined:v}'), (1, ',(k,v)=>k===""?v:Array.isArray(v)?v.length:v'), (1.5, lambda: ',[%s]' % ','.join(u.ch('"a"', '"b"', '1', '"1"', 'new String("c")', 'new Number(0)', '$y', 'null', '"a"', '{}', '10') for _ in range(u.n(0, 4)))), (.3, ',new Proxy(["b","a"],{})'), (.3, ',(k,v)=>{if(k==="a")throw "rp";return v}'), (.3, ',{length:1,0:"a"}'))
            ind = ''
            if u.p(.35): ind = (',' if rep else ',null,') if not rep else ','; ind += u.ch('2', '" "', '"--"', '11', '1.9', '"\\t"', '"0123456789ab"', '-1', 'new Number(3)', 'new String("z")', 'true', 'null', '""', 'NaN', '{}', '"1"', u.str(3).replace('\\u0000', ''))
            v = jval(u)
            s += T('JSON.stringify(%s%s%s)' % (v, rep, ind))
        elif k < 11: s += T('((v)=>{let j=JSON.stringify(v),w=JSON.stringify(JSON.parse(j));return [j===w,j]})(%s)' % u.ch(jtextval(u), jtextval(u)))
        else: s += T(u.ch('(()=>{let a=[];a[0]=a;return JSON.stringify(a)})()' if 0 else '(()=>{let a={b:{}};a.b.c=a;try{JSON.stringify(a)}catch(e){return e.constructor.name}})()', '(()=>{let a=[1],b={x:a,y:a};return JSON.stringify(b)})()', '(()=>{let p=[];for(let i=0;i<50;i++)p=[p];return JSON.stringify(p)===JSON.stringify(JSON.parse(JSON.stringify(p)))})()', 'JSON.stringify()', 'JSON.parse()', 'JSON[Symbol.toStringTag]', 'JSON.stringify("\\ud83d\\ude00\\ud83d")', 'JSON.stringify({[Symbol()]:1})', 'JSON.stringify(Object.create({a:1}))', 'JSON.stringify(Object.defineProperty({b:2},"a",{value:1}))', 'JSON.stringify(new Proxy({a:1,b:2},{ownKeys(t){emit("ok");return ["b","a"]},get(t,k){emit("g",String(k));return t[k]}}))', 'JSON.stringify(%s)===JSON.stringify(%s,undefined,0)' % ((jval(u, 2),) * 2)))
    return s
def jtextval(u): return '(%s)' % jtext(u).replace('"__proto__"', '"proto"').replace('\u2028', '')

# ---------------------------------------------------------------- dates
def tv(u):
    k = u.n(0, 9)
    if k < 2: return str(u.n(-10**6, 10**6))
    if k < 4: return str(u.n(-8640000000000000, 8640000000000000))
    if k < 6: return str(u.n(-10**13, 10**13))
    if k < 7: return str(u.n(-100000, 100000) * 86400000 + u.ch(0, -1, 1, 86399999))
    if k < 8: return u.ch('8640000000000000', '-8640000000000000', '8640000000000001', '-8640000000000001', 'NaN', 'Infinity', '0', '-0', '1e15', '-62198755200000', '253402300800000', '-62167219200000', '951782400000', '1.9', '-1.9', '8639999999999999.5')
    return str(u.n(0, 4102444800000))
def di(u, a, b): return u.wt((10, lambda: u.int(a, b)), (2, lambda: u.int(a * 3 - 40, b * 3 + 40)), (.8, lambda: u.pick(['NaN', '1.9', '-1.9', 'Infinity', '"3"', 'undefined', 'null', '-0', '1e9', '-1e9', '1e20', '{}', 'true'])), (.3, lambda: u.hook(u.int(0, 9))), (.05, '1n'), (.05, '$y'))
YR = lambda u: u.wt((5, lambda: u.int(1900, 2100)), (3, lambda: u.int(-500, 3000)), (2, lambda: u.int(-271830, 275770)), (2, lambda: u.int(0, 99)), (.5, lambda: di(u, 0, 99)))
FL = [lambda u: YR(u), lambda u: di(u, 0, 11), lambda u: di(u, 1, 31), lambda u: di(u, 0, 23), lambda u: di(u, 0, 59), lambda u: di(u, 0, 59), lambda u: di(u, 0, 999)]
def fields(u, n): return ','.join(FL[i](u) for i in range(n))
DAYS = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat']; MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
def isod(u):
    y = u.wt((8, lambda: '%04d' % u.n(0, 9999)), (2, lambda: u.ch('+', '-') + '%06d' % u.n(0, 280000)), (.2, '+000000'))
    bad = u.p(.12) and abs(int(y)) > 99    # the reference re-reads malformed small years with its legacy parser
    s = y
    if u.p(.9):
        s += '-%02d' % u.n(1, 13 if bad else 12)
        if u.p(.9): s += '-%02d' % (u.ch(0, 32) if bad else u.n(1, 28))
    if u.p(.75):
        s += 'T%02d:%02d' % (u.n(0, 23), u.n(0, 60 if bad else 59))
        if u.p(.8):
            s += ':%02d' % u.n(0, 60 if bad else 59)
            if u.p(.7): s += '.%03d' % u.n(0, 999)
        if u.p(.1): s = s[:s.index('T')] + u.ch('T24:00', 'T24:00:00', 'T24:00:00.000') if 'T' in s else s
        s += u.wt((3, 'Z'), (2, ''), (2, lambda: '%s%02d:%02d' % (u.ch('+', '-'), u.n(0, 23), u.n(0, 59))))
    return s
G = ['Date', 'Day', 'FullYear', 'Hours', 'Milliseconds', 'Minutes', 'Month', 'Seconds']
def c24(u):
    T = lambda e: 't(()=>%s);' % e
    s = ''
    s += 'let d;t(()=>d=%s);if(!d)return;' % u.wt((5, lambda: 'new Date(%s)' % tv(u)), (4, lambda: 'new Date(%s)' % fields(u, u.n(2, 7))), (1.5, lambda: 'new Date(Date.UTC(%s))' % fields(u, u.n(1, 7))), (2, lambda: 'new Date(%s)' % esc(isod(u))), (.7, lambda: 'new Date(%s)' % u.ch('new Date(5)', 'null', 'true', '"x"', '""', '{valueOf(){emit("dv");return 7}}', '{[Symbol.toPrimitive](h){emit("tp",h);return 9}}', '[]', '$y', '1n', 'undefined', '[2020,1]' if 0 else '{}')))
    for _ in range(u.n(2, 7)):
        k = u.n(0, 20)
        if k < 4: s += T('[%s]' % ','.join('d.get%s%s()' % (u.ch('', 'UTC'), u.pick(G)) for _ in range(u.n(2, 6))) )
        elif k < 6: s += T('d.%s()' % u.ch('getTime', 'valueOf', 'getTimezoneOffset', 'toISOString', 'toJSON', 'toString', 'toUTCString', 'toDateString', 'toTimeString', 'toISOString', 'toUTCString', 'toString'))
        elif k < 13:
            m, n, f = u.ch(('FullYear', 3, 0), ('Month', 2, 1), ('Date', 1, 2), ('Hours', 4, 3), ('Minutes', 3, 4), ('Seconds', 2, 5), ('Milliseconds', 1, 6))
            k2 = u.n(1, n) if u.p(.95) else u.n(0, 5)
            s += T('[d.set%s%s(%s),d.getTime()]' % (u.ch('', 'UTC'), m, ','.join(FL[min(f + j, 6)](u).replace('$V(', '(' if j else '$V(').replace('1n' if j else '?', '1').replace('$y' if j else '?', '2') for j in range(k2))))
        elif k < 14: s += T('d.setTime(%s)' % u.wt((5, lambda: tv(u)), (1, lambda: u.val(1))))
        elif k < 16: s += T('Date.parse(%s)' % esc(isod(u)))
        elif k < 17: s += T('Date.UTC(%s)' % fields(u, u.n(0, 7)))
        elif k < 18: s += T('d.getFullYear()<100||[Date.parse(d.toISOString())===+d,Date.parse(d.toString())===Math.floor(d/1000)*1000,Date.parse(d.toUTCString())===Math.floor(d/1000)*1000,new Date(d.getFullYear(),d.getMonth(),d.getDate(),d.getHours(),d.getMinutes(),d.getSeconds(),d.getMilliseconds()).getTime()===+d]')
        elif k < 19: s += T(u.ch('d+1', 'd-1', '`${d}`', 'd*1', 'd<new Date(0)', '[d[Symbol.toPrimitive]("%s")]' % u.ch('number', 'string', 'default', 'x'), 'Date.prototype.%s.call(%s)' % (u.ch('getTime', 'getDay', 'toString', 'valueOf', 'toISOString', 'setTime', 'toJSON'), u.ch('{}', '1', 'Date.prototype', '{toISOString(){emit("ti");return 3}}', '{valueOf(){return NaN},toISOString:1}')), 'typeof Date()', 'Date.length', 'isNaN(new Date)', 'new Date(d)-d', 'Object.prototype.toString.call(d)', 'JSON.stringify({d})', 'd.foo=1', 'new Date(2020,0)-new Date(2019,0)', 'Date.prototype[Symbol.toPrimitive].call(%s,"number")' % u.ch('{valueOf(){return 4}}', '1', '{toString(){return "s"},valueOf:1}')))
        else: s += T('[d.getUTCFullYear(),d.getUTCMonth(),d.getUTCDate(),d.getUTCDay(),d.getUTCHours(),d.getUTCMinutes(),d.getUTCSeconds(),d.getUTCMilliseconds()]')
    return s + 'return d'
