"""Library generators: generators driven step by step (C11), promises, async functions and async generators (C12)."""
from libgen import U

class B:
    """random bodies of generators and async functions; every step is an event"""
    def __init__(self, u, asy, gen):
        self.u, self.asy, self.gen, self.n, self.v, self.lab = u, asy, gen, 0, 0, 0
    def id(self): self.n += 1; return self.n
    def val(self):
        u = self.u
        s = [(6, lambda: str(u.n(1, 9))), (1, lambda: '"s"'), (1, 'undefined'), (.7, '{value:1,done:true}'), (.5, '[1,2]')]
        if self.asy:
            i = self.id()
            s += [(1.5, lambda: 'Promise.resolve(%d)' % u.n(1, 9)), (1.5, lambda: 'Promise.reject("r%d")' % i), (.8, lambda: '{then(a,b){emit("th%d");a(%d)}}' % (i, i)),
                  (.6, lambda: '{then(a,b){emit("tj%d");b("j%d")}}' % (i, i)), (.3, lambda: '{get then(){emit("gt%d");throw "g%d"}}' % (i, i)), (.3, '{then:1}'), (.4, lambda: '{then(a,b){emit("tt%d");a(1);b(2);throw 3}}' % i),
                  (.5, lambda: 'new Promise((a,b)=>{%s})' % u.ch('a(Promise.resolve(5))', 'b(6)', 'throw 7', 'a(8);b(9)', 'Promise.resolve().then(()=>a(4))', 'Promise.resolve().then(()=>b(4))')), (.3, lambda: '(async()=>{emit("af%d");await 0;emit("ag%d");%s})()' % (i, i, u.ch('return 3', 'throw 4', 'return Promise.reject(5)')))]
        return u.wt(*s)
    def expr(self):
        u = self.u
        k = [(3, self.val)]
        if self.gen: k.append((5, lambda: '(yield %s)' % self.val()))
        if self.asy: k.append((4, lambda: '(await %s)' % self.val()))
        if self.gen: k.append((1.2, lambda: '(yield* %s)' % self.iter()))
        return u.wt(*k)
    def iter(self, sync=False):
        """an iterable whose protocol steps are events"""
        u = self.u; i = self.id()
        k = u.n(0, 9)
        if k < 2: return '[%s]' % ','.join(self.val() for _ in range(u.n(0, 3)))
        if k < 3: return u.ch('"ab"', 'new Set([1,2])', '[]', 'null', 'undefined', '{}', '5', '{[Symbol.iterator]:1}', '{[Symbol.iterator](){return 1}}')
        if k < 5 and self.n < 14:
            b = B(u, self.asy and not sync and u.p(.6), True); b.n = self.n + 10
            s = '(%sfunction*(){%s})()' % ('async ' if b.asy else '', b.block(1)); self.n = b.n
            return s
        sym = 'asyncIterator' if self.asy and not sync and u.p(.5) else 'iterator'
        val = lambda: self.val() if u.p(.5) else str(u.n(1, 9))
        def res(last=False):
            return u.wt((10, lambda: '{value:%s,done:%s}' % (val(), u.ch('n%d>%d' % (i, u.n(0, 3)), 'n%d>1' % i, 'true' if last else 'n%d>2' % i))), (.5, '1'), (.3, 'undefined'), (.6, lambda: '{get value(){emit("gv%d");return 1},get done(){emit("gd%d");return n%d>1}}' % (i, i, i)),
                        (.4, '{get done(){throw "gd"}}'), (.3, '{get value(){throw "gv"},done:%s}' % u.ch('true', 'false')), (.4, '{done:n%d>2}' % i), (1 if sym[0] == 'a' else 0, lambda: 'Promise.resolve({value:%s,done:n%d>1})' % (val(), i)), (.6 if sym[0] == 'a' else 0, 'Promise.reject("pr")'))
        m = 'next(v){emit("nx%d",$S(v));n%d++;%s}' % (i, i, u.wt((9, lambda: 'return ' + res()), (.6, lambda: 'if(n%d>1)throw "nt";return %s' % (i, res()))))
        for nm in ('return', 'throw'):
            x = u.n(0, 9)
            if x < 6: m += ',%s(v){emit("%s%d",$S(v),arguments.length);n%d++;return %s}' % (nm, nm[0] + 'x', i, i, res(True))
            elif x < 7: m += ',%s(v){emit("%s%d",$S(v));throw "%st"}' % (nm, nm[0] + 'x', i, nm)
            elif x < 8: m += ',get %s(){emit("g%s%d");return %s}' % (nm, nm[0], i, u.ch('undefined', 'null', '1', '()=>({value:1,done:true})', '()=>1'))
        return '((n%d)=>({[Symbol.%s](){emit("it%d");return {%s}}}))(0)' % (i, sym, i, m)
    def stmt(self, d):
        u = self.u; i = self.id()
        k = u.n(0, 21)
        if d <= 0 and k > 11: k = u.n(0, 11)
        if k < 3: return 'emit("b%d");' % i
        if k < 7: return 'emit("x%d",$S(%s));' % (i, self.expr())
        if k < 9: return '(%s);' % self.expr()
        if k < 10: return u.wt((2, lambda: 'return %s;' % self.expr()), (1, 'return;')) if u.p(.5) else 'emit("y%d",$S([%s,%s]));' % (i, self.expr(), self.expr())
        if k < 11: return 'if(c%s%d)throw %s;' % (u.ch('<', '>', '=='), u.n(0, 3), self.expr()) if u.p(.6) else 'throw %s;' % self.val()
        if k < 12: return 'c++;'
        if k < 17:
            x = u.n(0, 2)
            c = 'catch(e){emit("c%d",$S(e));%s}' % (i, self.block(d - 1, 2)) if x != 1 else ''
            f = 'finally{emit("f%d");%s}' % (i, self.block(d - 1, 2)) if x else ''
            return 'try{%s}%s%s' % (self.block(d - 1, 3), c, f)
        if k < 18: return 'for(let i=0;i<%d;i++){%s%s}' % (u.n(1, 3), self.block(d - 1, 2), u.ch('', 'if(i)break;', 'if(i)continue;', ''))
        if k < 20:
            aw = self.asy and u.p(.7)
            return 'for%s(%s of %s){emit("o%d",$S(x));%s%s}' % (' await' if aw else '', u.ch('const x', 'let x'), self.iter(), i, self.block(d - 1, 2), u.ch('', 'break;', 'continue;', 'if(c>1)break;', 'return 9;', 'throw "ot";'))
        if k < 21: return '{let [p,%s]=%s;emit("d%d",$S(p));}' % (u.ch('q', '...q', 'q=%s' % self.expr(), ''), self.iter(), i)
        return 'L%d:{%sif(c>%d)break L%d;%s}' % (i, self.stmt(d - 1), u.n(0, 2), i, self.stmt(d - 1))
    def block(self, d, k=3): return ''.join(self.stmt(d) for _ in range(self.u.n(1, k)))
    def body(self): return 'let c=0;' + ''.join(self.stmt(2) for _ in range(self.u.n(1, 4)))

CONS = ['Array.from(%s)', 'Array.from(%s,(x,i)=>{emit("m",$S(x));if(i>1)throw "mt";return x})', '(class extends Array{constructor(){super();if(KK)Object.freeze(this)}}).from(%s)', 'new Map(%s)', 'new Set(%s)', 'new WeakMap(%s)', 'new WeakSet(%s)', 'new Uint8Array(%s)',
        'Uint8Array.from(%s,x=>{emit("m");if(KK)throw "mt";return x})', 'new AggregateError(%s)', '[...%s]', 'Math.max(...%s)', 'new Array(...%s)', '{let [a,...b]=%s;return [a,b]}', '{let [a]=%s;return a}', '{let [,,a]=%s;return a}', '{let [[a]]=%s;return a}', '{let a;[a.b]=%s}', '{let [a=emit("df")]=%s;return a}',
        '{let o={set x(v){emit("st");if(KK)throw "st"}};[o.x]=%s}', '{let o={};[o.x,...o.y]=%s;return o}', '{[]=%s}', '{let []=%s}', '{(([a,b])=>emit(a,b))(%s)}', '{for(let x of %s){emit("o",$S(x));if(KK)throw "ot";else break}}', '{for(let [x] of %s)emit("o",$S(x))}', '{lb:for(let i of [1,2])for(let x of %s){emit("o",$S(x));if(KK)continue lb;break lb}}',
        '{let s=Set.prototype.add;Set.prototype.add=function(v){emit("ad");if(KK)throw "at";return s.call(this,v)};try{new Set(%s)}finally{Set.prototype.add=s}}', '{let s=Map.prototype.set;Map.prototype.set=KK?1:()=>{throw "at"};try{new Map(%s)}finally{Map.prototype.set=s}}']
def cons(u):
    b = B(u, False, True); b.n = 20
    c = u.pick(CONS).replace('KK', u.ch('true', 'false', '1', '0'))
    e = c % b.iter(True)
    return ('t(()=>%s);' % e if e[0] == '{' else 't(()=>(%s));' % e)

def c11(u):
    if u.p(.2): return cons(u) + cons(u)
    b = B(u, False, True)
    body = b.body()
    k = u.n(0, 9)
    if k < 7: g = u.wt((5, '(function*(){%s})()' % body), (1, '({*m(){%s}}).m()' % body), (1, '(new class{*m(){%s}}).m()' % body), (.7, '(function*(a=%s,...r){%s})(%s)' % (u.ch('1', 'emit("da")', '(()=>{throw "dp"})()'), body, u.ch('', '2', '1,2,3'))))
    else: g = '(function*(){%sreturn yield*(function*(){%s})()})()' % (u.ch('', 'yield 0;', 'try{yield 0}finally{emit("of")}'), body)
    s = 'let g;t(()=>g=%s);if(!g)return;' % g
    if u.p(.12): s += 'let h=g;g={[Symbol.iterator](){return this},next(v){return h.next(v)},return(v){return h.return(v)},throw(v){return h.throw(v)}};'
    if u.p(.7):
        for _ in range(u.n(2, 7)):
            s += 't(()=>g.%s(%s));' % (u.wt((6, 'next'), (2, 'throw'), (2, 'return')), u.ch('', '1', '"v"', 'undefined', '{a:1}', '2'))
    else:
        s += u.ch('t(()=>[...g]);', 't(()=>Array.from(g));', 't(()=>{for(let x of g){emit("l",$S(x));%s}});' % u.ch('', 'break', 'throw "lt"', 'if(x>3)break', 'g.next()', 'g.return(5)', 'try{g.throw("gt")}catch(e){emit("lc",$S(e))}'),
                  't(()=>{let [a,%s]=g;return [a,b]});' % u.ch('b', '...b', ',b', 'b=9,c'), 't(()=>new Map(g));', 't(()=>Math.max(...g));', 't(()=>{let r=[];let x;for([x] of [g])r.push(x);return r});', 't(()=>{return (function*(){yield* g})().next()});', 't(()=>[...(function*(){let r=yield* g;yield r})()]);',
                  't(()=>{let o=(function*(){try{yield* g}finally{emit("fo")}})();return [o.next(),o.%s(7),o.next()]});' % u.ch('return', 'throw', 'next'))
        s += 't(()=>g.next());'
    if u.p(.1): s += 't(()=>g.%s.call(%s));' % (u.ch('next', 'return', 'throw'), u.ch('{}', 'undefined', '(function*(){})', '(async function*(){})()', 'Object.create(g)'))
    return s

def run_async(b, u, nm):
    return '.then(v=>{emit("%s",$S(v));%s},e=>{emit("%s!",$S(e));%s});' % (nm, '', nm, '')

def c12(u):
    k = u.n(0, 11)
    rep = lambda e, nm: 'try{let p=%s;emit("P%s",p instanceof Promise);p.then(v=>emit("%s",$S(v)),e=>emit("%s!",$S(e)))}catch(e){emit("%s?",$S(e))}' % (e, nm, nm, nm, nm)
    b = B(u, True, k < 6)
    if k < 5:   # request queues of async generators
        body = b.body() if u.p(.75) else u.ch('', 'yield 1;', 'yield 1;yield 2;', 'return 1;', 'throw 1;', 'try{yield 1}finally{emit("f");yield 2}', 'try{yield 1}finally{await 0;emit("f")}')
        s = 'let g=(async function*(){%s})();' % body
        m = lambda: u.wt((4, 'next'), (2, 'throw'), (3.5, 'return'))
        for i in range(u.n(2, 6)):
            nm = 'q%d' % i
            mm = m()
            # V8 resumes a delegating generator with next() when the operand of return() rejects
            e = 'g.%s(%s)' % (mm, (str(u.n(1, 9)) if mm == 'return' and 'yield*' in body else b.val()) if u.p(.7) else '')
            if u.p(.15): s += 'Promise.resolve()%s.then(()=>{%s});' % ('.then()' * u.n(0, 4), rep(e, nm))
            elif u.p(.15) and i: s += 'g.next().then(()=>{%s},()=>{%s});' % (rep(e, nm), rep(e, nm + 'x'))
            else: s += rep(e, nm)
        if u.p(.1): s += rep('g.%s.call(%s)' % (m(), u.ch('{}', 'undefined', '(function*(){})()', 'Object.create(g)')), 'bad')
        return s
    if k < 6:   # delegation and loops over async generators
        it = b.iter()
        return u.ch(rep('(async()=>{for await(const x of %s){emit("o",$S(x));%s}emit("z")})()' % (it, u.ch('', 'break', 'return 1', 'throw "t"', 'await %s' % b.val(), 'continue')), 'l'),
                    'let g=(async function*(){try{let r=yield* %s;emit("r",$S(r))}catch(e){emit("c",$S(e))}finally{emit("f")}})();' % it + ''.join(rep(u.ch('g.next(%s)', 'g.next(%s)', 'g.throw(%s)') % (b.val() if u.p(.5) else '') if u.p(.75) else 'g.return(%d)' % i, 'q%d' % i) for i in range(u.n(2, 4))))
    if k < 8:   # async functions
        f = u.ch('(async function(){%s})()', '(async()=>{%s})()', '({async m(){%s}}).m()', '(new class{async m(){%s}}).m()') % b.body()
        s = rep(f, 'a')
        if u.p(.5): s += rep('(async()=>{%s})()' % b.body(), 'a2')
        return s
    if k < 10:   # combinators
        C = u.wt((8, 'Promise'), (1, '(class extends Promise{constructor(x){emit("k");super(x)}})'), (1, '(class extends Promise{static resolve(v){emit("res",$S(v));return %s}})' % u.ch('super.resolve(v)', '{then(a,b){emit("tn");a(7)}}', '1', '{then(a,b){a(1);a(2);b(3)}}')), (.4, '(class extends Promise{static get resolve(){emit("gr");return %s}})' % u.ch('1', 'undefined', '()=>({then(a,b){b(4)}})')), (.4, '{}'), (.3, 'function(x){emit("fc");x(v=>emit("R",$S(v)),e=>emit("J",$S(e)))}'))
        m = u.ch('all', 'allSettled', 'race', 'any', 'all', 'any')
        it = '[%s]' % ','.join(b.val() for _ in range(u.n(0, 4))) if u.p(.7) else b.iter(True)
        return rep('Promise.%s.call(%s,%s)' % (m, C, it), 'm')
    # chains
    s = 'let A,R,p=new Promise((a,b)=>{A=a;R=b;%s});' % u.ch('', '', 'a(%s);' % b.val(), 'b(1);', 'throw "ex";', 'a(1);throw 2;')
    for i in range(u.n(2, 6)):
        x = u.n(0, 9); j = b.id()
        h = lambda: u.wt((5, '(v)=>{emit("h%d",$S(v));return %s}' % (j, b.val())), (1, '(v)=>{emit("h%d",$S(v));throw %s}' % (j, b.val())), (1, 'undefined'), (.5, '1'))
        if x < 3: s += 'p=p.then(%s%s);' % (h(), ',' + h() if u.p(.5) else '')
        elif x < 4: s += 'p=p.catch(%s);' % h()
        elif x < 6: s += 'p=p.finally(%s);' % h()
        elif x < 7: s += u.ch('A', 'R') + '(%s);' % u.ch(b.val(), 'p')
        elif x < 8: s += 'p.then(%s,%s);' % (h(), h())
        elif x < 9: s += u.ch('p=Promise.resolve(p);', 'p=Promise.resolve(%s);' % b.val(), 'p=Promise.reject(%s);p.catch(()=>{});' % b.val(), 'p.then=function(a,b){emit("ot");return Promise.prototype.then.call(this,a,b)};', 'p.constructor=class extends Promise{constructor(x){emit("sp");super(x)}};', 'p.constructor={[Symbol.species]:%s};' % u.ch('undefined', 'null', '1', 'Promise', 'class extends Promise{}'))
        else: s += 'Promise.resolve().then(()=>%s(%s));' % (u.ch('A', 'R'), b.val())
    s += u.ch('A(3);', 'R(4);', 'A(Promise.resolve(5));', '')
    return s + rep('p.then()', 'p')
