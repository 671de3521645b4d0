"""Hostile programs (C01): token-level mutations of generated programs under ASan and UBSan with random collections."""
import re
import rv, mem
TOK = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|`|[A-Za-z_$][\w$]*|#[\w$]+|\d[\w.]*|=>|\.\.\.|\?\?=?|\?\.|[*/%+\-&|^<>=!]=*|\s+|[^\s]')
HOST = ['-1', '0', '2**53', '4294967295', '2147483648', '-2147483649', 'Infinity', 'NaN', '-0', 'null', 'undefined', '1n', '-1n', '2n**64n', '""', '"\\ud800"', '[]', '{}', '[,]', '({})', 'this', 'arguments', 'new.target',
        'Symbol()', 'Symbol.iterator', 'new Proxy({},{})', 'new Proxy(function(){},{})', 'Object.create(null)', 'Object.freeze([1,2,3])', 'new Uint8Array(8)', 'new ArrayBuffer(8)', 'new Map([[1,2]])', 'new Set([1])', '/x/g', 'new Date(NaN)',
        'async function(){}', 'function*(){}', 'async()=>{}', 'class{}', 'class extends Array{}', 'class extends null{}', 'super', 'super.x', 'yield', 'yield*', 'await', '...', '?.', '#p', '`${1}`', 'delete', 'typeof', 'void', 'in', 'instanceof', 'throw', 'return', 'break', 'continue',
        'for', 'of', 'let', 'const', 'var', 'static', 'get', 'set', 'async', 'with', 'try', 'finally', 'catch', 'switch', 'case', 'default', 'if', 'else', 'do', 'while', 'new', 'eval("x")', 'Function("return this")()', 'globalThis', '$gc()', '{valueOf(){$gc();return 1}}', '{toString(){throw 1}}', '{get length(){$gc();return 3},0:1}', '{then(r){r(1)}}', '{[Symbol.iterator](){return{next(){return{}}}}}', '{next(){$gc()},return(){throw 2}}',
        'Reflect.construct', 'Reflect.ownKeys', 'Object.defineProperty', 'Object.setPrototypeOf', '.length=0', '.length', '.constructor', '.prototype', '.call(null)', '.apply(this,arguments)', '.bind()', '[Symbol.species]', '.then', '.next()', '.return()', '.throw()', '()', '[0]', '[-1]', '=', '=>', '**', '??', '||=', '>>>', ',', ';', '\n', '(', ')', '[', ']', '{', '}', ':', '?']
def mutate(r, src, pool):
    t = TOK.findall(src)
    for _ in range(r.choice((1, 1, 1, 2, 2, 3, 5))):
        if not t: break
        k = r.randrange(9); i = r.randrange(len(t))
        if k == 0: del t[i]
        elif k == 1: t.insert(i, t[i])
        elif k == 2: j = r.randrange(len(t)); t[i], t[j] = t[j], t[i]
        elif k == 3: t[i] = r.choice(pool)
        elif k == 4: t.insert(i, r.choice(pool))
        elif k == 5: t[i] = r.choice(HOST)
        elif k == 6: t.insert(i, r.choice(HOST))
        elif k == 7:                     # replace an identifier or literal by a hostile value of the same place
            c = [j for j, x in enumerate(t) if re.match(r'[\w"]', x)]
            if c: t[r.choice(c)] = r.choice(HOST[:60])
        else: j = min(len(t), i + r.randrange(1, 6)); p = r.randrange(len(t)); t[p:p] = t[i:j]
    return ''.join(t)
def cases(seed, r, nl, nu, nm):
    base = mem.corpus(seed, nl, nu, per=1)
    pool = sorted({x for c in r.sample(base, min(200, len(base))) for x in TOK.findall(c.src) if x.strip()})
    out = []
    for c in base:
        for k in range(nm):
            n = c.src.find('$T(')
            pre, body = (c.src[:n], c.src[n:]) if n > 0 else ('', c.src)
            out.append(rv.Case('%s~%d' % (c.id, k), pre + mutate(r, body, pool), c.mode))
    return out
def bytemut(r, b):
    b = bytearray(b)
    for _ in range(r.choice((1, 1, 2, 4, 8))):
        i = r.randrange(len(b) + 1); k = r.randrange(5)
        if k == 0 and i < len(b): b[i] ^= 1 << r.randrange(8)
        elif k == 1: b.insert(i, r.choice((0, 0x80, 0xff, 0xc0, 0xe2, 0xf0, 0xed, 0x0a, 0x0d, 0x5c, 0x60, 0x24, 0x7b, 0x22, 0x2f)))
        elif k == 2: del b[i:i + r.randrange(1, 4)]
        elif k == 3: b[i:i] = r.choice((b'\xe2\x80\xa8', b'\xed\xa0\x80', b'\xf0\x9f\x98', b'\xef\xbb\xbf', b'\\u{1F600}', b'\\u{110000}', b'\\ud800', b'/*', b'<!--', b'#!', b'//', b'`${', b'\\'))
        else: b = b[:i]
    return bytes(b)
DEEP = 'let d=0;(function f(){d++;return 1+f()})()'
def recursion(src_cases):
    """stack exhaustion is the known finding only where the program itself recurses without bound"""
    ref = rv.run_ref(src_cases)
    return {c.id for c in src_cases if c.id not in ref or ref[c.id].status != 'ok' or any('RangeError' in l for l in ref[c.id].lines)}
def c01(chk):
    r = chk.rng('c01')
    exe = rv.build_drv('asan')
    cs = cases('c01/%d' % chk.seed, r, chk.n(60, 1000), chk.n(100, 2000), chk.n(4, 8))
    for i in range(len(cs)):
        if i % 9 == 0:
            b = cs[i].src
            cs[i] = rv.Case(cs[i].id + 'b', bytemut(r, b.encode('utf-8', 'surrogatepass')), 'raw')
    got = rv.run_drv(exe, cs, ('--gc-rand', '60', str(r.getrandbits(20))), 5)
    ends, deep = {}, []
    for c in cs:
        g = got.get(c.id)
        if g is None: raise rv.HarnessError('no result for ' + c.id)
        ends[g.status] = ends.get(g.status, 0) + 1
        if g.status in ('crash', 'exitcrash'):
            if 'stack-overflow' in g.err and c.mode != 'raw': deep.append((c, g)); continue
            chk.violation(rv.vkey(c, 'crash'), rv.san_summary(g.err), c, {'stderr': g.err[-6000:]}); continue
        if g.status != 'ok': chk.inconclusive += 1; continue
        chk.saw('\n'.join(g.lines) or c.id, True)
    c = rv.Case('corpus/unbounded-recursion', DEEP, 'script')
    g = rv.run_drv(rv.build_drv('plain'), [c], (), 10)[c.id]
    if g.status in ('crash', 'exitcrash'): chk.violation(rv.vkey(c, 'crash'), 'unbounded recursion exhausts the native stack instead of raising RangeError', c)
    if deep:
        known = recursion([c for c, g in deep])
        for c, g in deep:
            key = 'crash:corpus/unbounded-recursion' if c.id in known else rv.vkey(c, 'crash')
            chk.violation(key, 'native stack exhausted: ' + rv.san_summary(g.err), c, {'stderr': g.err[-3000:]})
    chk.cov['ends'] = ends
    chk.cov['rule'] = 'programs of every language and library generator after token-level mutations (deleted, repeated, exchanged, foreign and hostile tokens) or byte-level mutations (truncation, bit flips, malformed UTF-8), run under ASan and UBSan with assertions on and collections at random allocations; any report, signal or failed assertion is a violation; distinct = distinct traces'
    c = cs[r.randrange(len(cs))]
    chk.sample({'case': c.id, 'src': str(c.src)[:900]})
