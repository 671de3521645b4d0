"""Value pools and helpers shared by the generators of library units.  A unit is
a function body; units are packed into cases as $T(()=>{unit})."""
import json, random, re
import rv

def esc(s):
    o = ['"']
    for c in s:
        n = ord(c)
        if 32 <= n < 127 and c not in '"\\': o.append(c)
        elif n < 0x10000: o.append('\\u%04x' % n)
        else:
            n -= 0x10000
            o.append('\\u%04x\\u%04x' % (0xd800 + (n >> 10), 0xdc00 + (n & 0x3ff)))
    return ''.join(o) + '"'

INTS = ['0', '1', '2', '3', '-1', '-2', '5', '7', '10', '100']
EDGE = ['-0', 'NaN', 'Infinity', '-Infinity', '0.5', '-0.5', '1.5', '-1.5', '2**31', '2**32', '2**32-1', '2**31-1', '-(2**31)', '2**53',
        '2**53-1', '-(2**53)', '2**64', '1e21', '1e300', '5e-324', '255', '256', '65535', '65536', '4294967296.5', '0.1', '123456.789', '1e-7', '1.7976931348623157e308',
        '-(2**63)', '2**63', '2**63+2048', '-2147483649', '4294967297']
WEIRD = ['undefined', 'null', 'true', 'false', '""', '"1"', '"-1"', '" 2 "', '"abc"', '"0x10"', '"1e1"', '"NaN"', '"Infinity"', '[]', '[3]', '[1,2]', '{}', '()=>1']
BIG = ['0n', '1n', '-1n', '5n', '2n**64n', '-(2n**63n)', '123456789012345678901234567890n']
CHARS = ['a', 'b', 'A', 'Z', 'z', '0', '9', ' ', '\t', '\n', '\r', '.', ',', '-', '_', '$', '\\', '/', '"', "'", '\0', '\x7f', '\x80', '\xa0', 'é', 'ß',
         'İ', 'ı', 'Σ', 'σ', 'ς', 'ŉ', 'ǅ', 'ﬁ', 'K', 'Å', 'ſ', 'Ω', 'Ω', '\u0301', '\u0307', '\u200d', '\u2028', '\u2029', '\ufeff', '\u3000', '中', '가', 'ᄀ', 'ᅡ',
         '\ud800', '\udbff', '\udc00', '\udfff', '😀', '𝒳', '𐐀', '𐐨', '\U0010ffff', '\uffff', '\ufffd', '%', '+', '&', '#', 'x', 'u', 'n']

class U:
    def __init__(self, r):
        self.r = r
        self.nv = 0
    def ch(self, *a): return self.r.choice(a)
    def pick(self, l): return self.r.choice(l)
    def p(self, x): return self.r.random() < x
    def n(self, a, b): return self.r.randint(a, b)
    def wt(self, *pairs):
        t = sum(w for w, _ in pairs); x = self.r.random() * t
        for w, f in pairs:
            x -= w
            if x <= 0: return f() if callable(f) else f
        f = pairs[-1][1]
        return f() if callable(f) else f
    def int(self, a=-3, b=12): return str(self.n(a, b))
    def num(self):
        return self.wt((5, lambda: self.pick(INTS)), (3, lambda: self.pick(EDGE)), (2, lambda: self.int()), (1, lambda: repr(self.r.uniform(-1000, 1000))),
                       (1, lambda: str(self.r.getrandbits(self.n(1, 64)))))
    def rawstr(self, maxlen=8, chars=None):
        chars = chars or CHARS
        k = self.n(0, maxlen)
        if self.p(.5):
            return ''.join(self.r.choice('abcxyzAB01 .-') for _ in range(k))
        return ''.join(self.r.choice(chars) for _ in range(k))
    def str(self, maxlen=8, chars=None): return esc(self.rawstr(maxlen, chars))
    def key(self): return self.wt((4, lambda: '"%s"' % self.pick(list('abcde') + ['foo', 'length', 'constructor', '__proto__x', 'toString'])),
                                  (3, lambda: str(self.n(0, 6))), (1, lambda: self.pick(['"01"', '"-0"', '"1.5"', '-1', '4294967294', '4294967295', '4294967296', '"9007199254740993"', '""', '" 1"', '"-1"', '"1e3"'])),
                                  (1, 'Symbol.iterator'), (1, '$y'))
    def prim(self):
        return self.wt((4, self.num), (3, lambda: self.str(4)), (2, lambda: self.ch('undefined', 'null', 'true', 'false')), (1, lambda: self.pick(BIG)), (.3, '$y'))
    def hook(self, prim=None):
        """an object whose conversions are events"""
        self.nv += 1
        v = prim or self.prim()
        if self.p(.5): return '$V("v%d",%s)' % (self.nv, v)
        return '$V("v%d",%s,%s)' % (self.nv, self.prim(), v)
    def val(self, d=2):
        return self.wt((6, self.prim), (1.5, lambda: self.pick(WEIRD)), (1 if d else 0, lambda: self.arr(d - 1)), (1 if d else 0, lambda: self.obj(d - 1)), (.6, self.hook))
    def arr(self, d=1):
        k = self.n(0, 5)
        return '[' + ','.join('' if self.p(.1) and k > 1 and i < k - 1 else self.val(d) for i in range(k)) + ']'
    def obj(self, d=1):
        return '({' + ','.join('%s:%s' % (self.pick(['a', 'b', 'c', '1', '0', 'length', '2', 'x']), self.val(d)) for _ in range(self.n(0, 4))) + '})'
    def idx(self):
        """an argument where an integer is expected"""
        return self.wt((6, lambda: self.int(-5, 10)), (2, lambda: self.pick(EDGE)), (1, lambda: self.pick(WEIRD)), (1, lambda: self.hook(self.int(-3, 8))), (.1, lambda: self.pick(BIG)), (.1, '$y'))
    def args(self, *fs):
        """arguments from the given makers; the tail may be missing"""
        k = len(fs)
        if self.p(.2): fs = fs[:self.n(0, k)]
        a = [f() if callable(f) else f for f in fs]
        if len(a) == k and self.p(.04): a.append(self.val())
        return ','.join(a)

PRE = '''const $y=Symbol("y");var $n=0;
function t(f){let r;try{r=f()}catch(e){emit("!",$err(e));return}emit("=",$S(r));return r}
'''

def units(gen, seed, n):
    out = []
    for i in range(n):
        r = random.Random('%s/%d' % (seed, i))
        out.append(gen(U(r)))
    return out

def cases(gen, seed, n, per, prefix, pre=''):
    cs = rv.pack(units(gen, seed, n), per, prefix)
    for c in cs: c.src = PRE + pre + c.src
    return cs

def canon(lines):
    # the time zone name after a date string is implementation defined
    # so is the white space of native functions
    return [re.sub(r'\(\) ?\{ ?\[native code\] ?\}', '(){[native code]}', l.replace(' (Coordinated Universal Time)', '')) if 'native code' in l or '(Coord' in l else l for l in lines]

def run(chk, gen, quick, thorough, per=12, pre='', rule='', asan_part=.12, opts=(), canon=canon, seedtag=''):
    """quick/thorough: number of units; the first asan_part of them also under ASan/UBSan"""
    n = chk.n(quick, thorough)
    tag = seedtag or chk.prop.lower()
    cs = cases(gen, 'lib/%d/%s' % (chk.seed, tag), n, per, tag, pre)
    na = max(1, int(len(cs) * asan_part))
    exe = rv.build_drv('asan', extra=())
    rv.diff_ref(chk, exe, cs[:na], opts, cpu=30, label=tag + 'a', canon=canon)
    exe = rv.build_drv('plain')
    for i in range(na, len(cs), 5000):
        rv.diff_ref(chk, exe, cs[i:i + 5000], opts, cpu=30, label=tag + str(i), canon=canon)
    chk.count('units', n)
    if rule: chk.cov['rule'] = rule
