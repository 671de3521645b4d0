"""Regular expressions (C19)."""
from libgen import U, esc

CH = list('aabbAB01 _-') + ['é', 'ſ', 'k', 'K', 'K', 'ß', 'σ', 'ς', 'Σ', 'İ', 'ı', '\n', '\u2028', '😀', '\ud83d', '\ude00', '𐐀', '𐐨', 'x', '.']
UCH = ['é', 'ſ', 'k', 'K', 'K', 'σ', 'ς', 'Σ', '😀', '𐐀', '𐐨', 'Å', 'Å']
class P:
    def __init__(self, u, uni):
        self.u, self.uni, self.ng, self.names, self.refs = u, uni, 0, [], []
    def char(self):
        u = self.u
        return u.wt((12, lambda: u.pick(list('abAB01x'))), (1, lambda: u.pick(UCH) if u.p(.6) else u.pick(['_', '-', ' ', 'é', '😀'])), (.6, lambda: u.pick(['\\n', '\\t', '\\x61', '\\u0041', '\\cJ', '\\.', '\\/', '\\x00', '\\u2028', '\\$', '\\^', '\\r', '\\v', '\\f', '\\u00e9'])),
                    (.5, lambda: u.pick(['\\u{61}', '\\u{1f600}', '\\ud83d\\ude00', '\\u{10428}', '\\ud83d']) if self.uni else u.pick(['\\ud83d', '\\ude00', '\\e' if 0 else '\\x41'])))
    def esc(self):
        u = self.u
        if self.uni and u.p(.25): return '\\%s{%s}' % (u.ch('p', 'P'), u.ch('L', 'Lu', 'Ll', 'N', 'Nd', 'ASCII', 'Alphabetic', 'Script=Greek', 'Script=Latin', 'sc=Deseret', 'scx=Greek', 'Any', 'White_Space', 'Uppercase', 'Emoji', 'gc=Lu', 'Letter', 'ID_Start', 'Lowercase'))
        return '\\' + u.pick('dDwWsS')
    def cls(self):
        u = self.u
        s = '[' + u.ch('', '', '^')
        for _ in range(u.n(0, 4)):
            k = u.n(0, 9)
            if k < 4: s += u.pick(['a', 'b', 'A', '0', '1', 'x', '_', ' ', '.', '*', '(', '$', '|'])
            elif k < 6: s += u.pick(['a-c', 'A-B', '0-9', 'a-z', 'A-z', '\\x61-\\x7a', '\\u0000-\\uffff', '\\0-a', '_-b', 'α-ω', 'K-ſ', '\\ud83d-\\ude00' if not self.uni else '😀-😂', 'ß-ÿ', '!-~'])
            elif k < 8: s += self.esc()
            elif k < 9: s += u.pick(['\\n', '\\b', '\\]', '\\-' if self.uni else '\\]', '\\^', '\\\\', '\\cA', '\\u0061'])
            else: s += u.pick(UCH)
        if u.p(.08): s += '-'
        return s + ']'
    def quant(self):
        u = self.u
        return u.pick(['*', '+', '?', '{0}', '{1}', '{2}', '{0,1}', '{1,2}', '{2,}', '{0,}', '{1,3}', '{0,2}']) + u.ch('', '', '?')
    def group(self, d):
        u = self.u; k = u.n(0, 9)
        if k < 5:
            self.ng += 1; return '(%s)' % self.dis(d - 1)
        if k < 7:
            self.ng += 1; n = u.pick(['n', 'a', '$', '_b', 'é', 'yy', 'a1', 'zz'])
            while n in self.names: n += 'x'
            self.names.append(n); return '(?<%s>%s)' % (n, self.dis(d - 1))
        return '(?:%s)' % self.dis(d - 1)
    def term(self, d):
        u = self.u; k = u.n(0, 29)
        if k < 2: return u.pick(['^', '$', '\\b', '\\B'])
        if k < 5 and d > 0: return '(?%s%s)' % (u.pick(['=', '!', '<=', '<!']), self.dis(d - 1))
        if k < 8: return '\x01'      # a reference, resolved when the group count is known
        if k < 15 and d > 0: a = self.group(d)
        elif k < 18: a = self.cls()
        elif k < 20: a = self.esc()
        elif k < 22: a = '.'
        else: a = self.char()
        return a + (self.quant() if u.p(.4) else '')
    def alt(self, d): return ''.join(self.term(d) for _ in range(self.u.n(0 if self.u.p(.15) else 1, 3)))
    def dis(self, d): return '|'.join(self.alt(d) for _ in range(self.u.wt((6, 1), (2, 2), (.7, 3))))
    def make(self):
        u = self.u
        s = self.dis(3)
        o = ''
        for i, c in enumerate(s):
            if c != '\x01': o += c; continue
            nx = s[i + 1:i + 2]
            if self.names and u.p(.5): o += '\\k<%s>' % u.pick(self.names)
            elif self.ng: o += '\\%d' % u.n(1, self.ng) + ('(?:)' if nx.isdigit() else '') + (self.quant() if u.p(.2) and not nx.isdigit() else '')
            else: o += 'a'
        return o or '(?:)'
def subj(u, pat=''):
    k = u.n(0, 12)
    s = ''.join(u.pick(CH) if u.p(.5) else u.pick('ab') for _ in range(k))
    return s
def repl(u):
    return esc(''.join(u.pick(['$1', '$2', '$&', '$`', "$'", '$$', '$', '$0', '$10', '$01', '$<n>', '$<a>', '$<', 'x', '-', '$3', '$12', '$<zz>', '$<none>']) for _ in range(u.n(0, 4))))
def flags(u, uni):
    return ''.join(f for f in 'dgimsy' if u.p({'d': .1, 'g': .4, 'i': .35, 'm': .25, 's': .25, 'y': .15}[f])) + ('u' if uni else '')

def inv(u):
    """patterns in Unicode mode near the border of validity: accepted or SyntaxError, as text"""
    p = P(u, True).make()
    for _ in range(u.n(1, 2)):
        i = u.n(0, len(p)); k = u.n(0, 3)
        if k == 0 and i < len(p): p = p[:i] + p[i + 1:]
        elif k == 1: p = p[:i] + u.pick(list('()[]{}*+?|\\^$-1,<>=!:kupdx0/') + ['(?', '(?<', '{1', '{2,1}', '\\u', '\\u{', '\\x', '\\c', '\\k<', '\\1', '\\9', '[b-a]', '[\\d-z]', '\\p{Foo}', '\\p', '(?<n>', '**', '{', '}', '\\-', '[\\-]', '\\00', '(?<a>)', '(?=a)*', '(?<=a)?', '\\u{110000}', '\\P{Any}']) + p[i:]
        elif k == 2 and i < len(p): p = p[:i] + p[i:i + 3] + p[i:]
        else: p = p[:i]
    return p

def c19(u):
    uni = u.p(.45)
    k = u.n(0, 19)
    if k < 2:
        f = u.wt((5, 'u'), (1, lambda: u.pick(['gg', 'x', 'gimsuyd', 'U', 'ug', 'guig', ' ', 'ii', 'gu\\u0000'])))
        return 't(()=>{let r=new RegExp(%s,%s);return [r.flags,r.test(%s)]});' % (esc(inv(u)), esc(f) if '\\' not in f else '"%s"' % f, esc(subj(u)))
    p = P(u, uni); pat = p.make(); fl = flags(u, uni)
    s = 'let r;t(()=>{r=new RegExp(%s,"%s");return r.source===%s});if(!r)return;' % (esc(pat), fl, esc(pat).replace('/', '/'))
    def li(): return '' if uni and not bmp else u.wt((6, lambda: ''), (2, lambda: 'r.lastIndex=%d;' % u.n(0, 8)), (.3, 'r.lastIndex=-1;'), (.3, 'r.lastIndex="2";'), (.2, 'r.lastIndex=Infinity;'), (.2, 'r.lastIndex=NaN;'), (.2, 'r.lastIndex={valueOf(){emit("li");return 1}};'))
    # positions in the middle of a surrogate pair (lastIndex, zero-width assertions): V8 matches there
    bmp = uni and (u.p(.6) or any(x in pat for x in ('\\B', '\\b', '(?!', '(?=', '(?<!', '(?<=')))
    for _ in range(u.n(2, 5)):
        x = subj(u)
        if bmp: x = ''.join(c for c in x if c < '\ud800' or '\ue000' <= c <= '\uffff')
        x = esc(x)
        if uni and not bmp: s += 'r.lastIndex=0;'
        k = u.n(0, 21)
        if k < 8: s += '%st(()=>[r.exec(%s),r.lastIndex]);' % (li(), x)
        elif k < 9: s += '%st(()=>[r.test(%s),r.lastIndex]);' % (li(), x)
        elif k < 11: s += '%st(()=>[%s.match(r),r.lastIndex]);' % (li(), x)
        elif k < 12: s += '%st(()=>[[...%s.matchAll(new RegExp(r,"g"+r.flags.replace("g","")))],r.lastIndex]);' % (li(), x)
        elif k < 15: s += '%st(()=>[%s.replace(r,%s),r.lastIndex]);' % (li(), x, repl(u))
        elif k < 16: s += '%st(()=>[%s.replace(r,(...a)=>{emit("f",$S(a));return %s}),r.lastIndex]);' % (li(), x, u.ch('"$1"', 'a.length', 'undefined', '"<"+a[0]+">"'))
        elif k < 18: s += '%st(()=>[%s.split(r%s),r.lastIndex]);' % (li(), x, u.ch('', '', ',2', ',0', ',-1', ',1'))
        elif k < 19: s += '%st(()=>[%s.search(r),r.lastIndex]);' % (li(), x)
        elif k < 20: s += 't(()=>{let d=r.hasIndices?0:new RegExp(r,r.flags+"d").exec(%s);return d&&d.indices});' % x
        else: s += u.pick(['t(()=>[r.flags,r.global,r.ignoreCase,r.multiline,r.dotAll,r.unicode,r.sticky,r.hasIndices]);', 't(()=>{let q=new RegExp(r);return [q.source===r.source,q.flags,q===RegExp(r),RegExp(r)===r]});', 't(()=>new RegExp(r.source,r.flags).test(%s)===new RegExp(r).test(%s));' % (x, x),
                          't(()=>{let q=new RegExp(r);q.exec=function(v){emit("ex",v);return %s};return [q.test(%s),%s.replace(q,"[$1]")]});' % (u.ch('null', '{index:1,length:2,0:"z",1:"y"}', '1', 'undefined', '{index:-1,length:1,0:"b",groups:{n:1}}') if 'g' not in fl else 'null', x, x),
                          't(()=>{class Q extends RegExp{constructor(...a){emit("Q",$S(a[1]));super(...a)}static get [Symbol.species](){emit("sp");return RegExp}};let q=new Q(r.source,r.flags);return %s.split(q)});' % x,
                          't(()=>eval("/"+r.source+"/"+r.flags).exec(%s));' % x, 't(()=>eval(String(r)).exec(%s));' % x])
    return s
