"""Random ECMAScript programs whose every effect is an event.

Programs are self-contained and terminate by construction (a fuel counter is
consulted by every loop and function body).  emit() calls placed inside
expressions make evaluation order, side effects and completions visible."""

PRE = '''var $f=%d,$n=0;
Function.prototype.toString=function(){return "FN"};
Error.prototype.toString=function(){return "ER"};
Array.prototype.toString=function(){return "AR"};
function $h(k){ try { if (typeof k==="function") { let p=k.prototype; if (typeof p==="object") { Reflect.construct(Object,[],k); return k } } } catch(e) {} return Object }
function $gn(v){ return v===globalThis || $ps.has(v) ? {gt:1} : v }
var $P0=$P, $ps=new Set(); $P=(n,o,...r)=>{ let a=[n,o===globalThis?{gt:1}:o,...r], p=$P0(...a); $ps.add(p); return p };
function $F(){ if(--$f<0) { if ($f<-300) throw "fuel!"; return true } return false }
function $G(){ if(--$f<0) throw "fuel" }
function t(n,v){ $G(); if(++$n<1500) emit(n, typeof v==="object"||typeof v==="function"? (v===null?"null":Array.isArray(v)?"arr":typeof v) : v); return v }
function $it(n,a,o){ let i=0; return { [Symbol.iterator](){ emit("it",n); return { next(v){ emit("next",n,typeof v); $G(); if(o&&o.tn===i) throw "tn"+n; return i<a.length?{value:a[i++],done:false}:{value:undefined,done:true} }, return(v){ emit("ret",n,typeof v); if(o&&o.tr) throw "tr"+n; return o&&o.rp?1:{} } } } } }
function $k(v){ return typeof v==="object"||typeof v==="function"? "ob" : v==="length"? "len" : v }
function $o(n,p){ return {[Symbol.toPrimitive](h){ emit("prim",n,h); $G(); if(p===Symbol.iterator) throw "tp"+n; return p }} }
function $ac(n,v,c){ let k={ get x(){ emit("getx",n); return v }, set x(z){ emit("setx",n,typeof z); v=z }, y:1 }; return k }
'''

NUMS = ['0', '1', '2', '3', '-1', '-0', '0.5', '-2.5', 'NaN', 'Infinity', '-Infinity', '1e21', '4294967295', '2147483647',
        '-2147483648', '4294967296', '9007199254740991', '1e-7', '255', '0x10', '0b101', '0o17', '1_000', '.5', '5.']
STRS = ['""', '"a"', '"b"', '"1"', '" 2 "', '"0x1f"', '"abc"', "'x'", '"length"', '"\\u0041"', '"1e3"', '"\\n"', '"null"', '"-0"']
IDS = ['a', 'b', 'c', 'd', 'x', 'y', 'z', 'w', 'of', 'async', 'get', 'set', 'static1', 'let1', 'u', 'v']
PROPS = ['a', 'b', 'c', 'x', 'y', 'z', 'length', 'if', 'of', 'get', 'set', 'async', 'static', 'await', 'default', 'new']
TPROPS = [p for p in PROPS if p != 'length']
BIN = ['+', '-', '*', '/', '%', '**', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '&', '|', '^', '<<', '>>', '>>>']
ASG = ['=', '=', '=', '+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '>>>=', '&=', '|=', '^=', '&&=', '||=', '??=']


class Fn:
    def __init__(s, kind='top', gen=False, asy=False, arrow=False, method=False, ctor=False, derived=False, strict=False, args=True, sfield=False):
        s.kind, s.gen, s.asy, s.arrow, s.method, s.ctor, s.derived, s.strict, s.args = kind, gen, asy, arrow, method, ctor, derived, strict, args
        s.super_ok = method


class Gen:
    def __init__(self, rng, strict=False, feat=(), boost=None):
        self.r = rng
        self.strict = strict
        self.k = 0
        self.scopes = [[]]      # each: list of (name, kind)
        self.fns = [Fn(strict=strict)]
        self.labels = []
        self.loop = 0
        self.brk = 0
        self.budget = 120
        self.feat = set(feat)
        self.priv = []
        self.privro = set()
        self.noawait = 0
        self.noyield = 0
        self.sf = 0             # inside class static block / field initialiser: no `arguments`
        self.bigok = True
        for n, k in (boost or {}).items():
            l = 'EX' if n.startswith('e_') else 'ST'
            setattr(self, l, getattr(self, l) + [getattr(Gen, n)] * k)

    # ---- helpers
    def c(self, *a): return self.r.choice(a)
    def p(self, x): return self.r.random() < x
    def id(self):
        self.k += 1
        return self.k
    def fresh(self): return self.r.choice('abcdxyzwuv') + (str(self.id()) if self.p(.5) else '')
    def fn(self): return self.fns[-1]
    def vars(self):
        return [v for s in self.scopes for v in s]
    def var(self, assignable=False):
        vs = [n for n, k in self.vars() if not assignable or k != 'const' or self.p(.1)]
        if not vs or self.p(.02):
            return self.c('undef1', 'undefined') if not assignable else self.c('g1', 'g2')
        return self.r.choice(vs)
    def decl(self, n, k): self.scopes[-1].append((n, k))

    # ---- expressions
    def lit(self):
        x = self.r.random()
        if x < .35: return self.r.choice(NUMS)
        if x < .6: return self.r.choice(STRS)
        if x < .7: return self.c('true', 'false')
        if x < .78: return self.c('null', 'undefined', 'void 0')
        if x < .82 and self.bigok: return self.c('0n', '1n', '-1n', '10n', '0xffn', '123456789012345678901234567890n')
        if x < .88: return '$o(%d,%s)' % (self.id(), self.c('1', '"s"', '2', '0', 'Symbol.iterator' if self.p(.3) else '5', 'true', 'null', '{}' if self.p(.3) else '-1'))
        if x < .93: return '[%s]' % ','.join(self.r.choice(NUMS) for _ in range(self.r.randrange(4)))
        if x < .97: return '{%s}' % ','.join('%s:%s' % (self.r.choice(PROPS), self.r.choice(NUMS)) for _ in range(self.r.randrange(3))) if 0 else '({%s})' % ','.join('%s:%s' % (self.r.choice(PROPS), self.r.choice(NUMS)) for _ in range(self.r.randrange(3)))
        return '`a${%s}b`' % self.r.choice(NUMS)

    def ex(self, d=3):
        """an AssignmentExpression, parenthesised when needed"""
        self.budget -= 1
        if d <= 0 or self.budget < 0:
            return self.var() if self.p(.5) else self.lit()
        f = self.r.choice(self.EX)
        return f(self, d - 1)

    def e_lit(self, d): return self.lit()
    def e_var(self, d): return self.var()
    def e_trace(self, d): return 't(%d,%s)' % (self.id(), self.ex(d))
    def e_bin(self, d):
        op = self.r.choice(BIN)
        a, b = self.ex(d), self.ex(d)
        if op == '**': return '((%s)**(%s))' % (a, b)
        if op in ('&&', '||', '??'): return '((%s)%s(%s))' % (a, op, b)
        return '(%s %s %s)' % (self.par(a), op, self.par(b))
    def par(self, s):
        return '(%s)' % s
    def e_log(self, d):
        return '(%s %s %s)' % (self.par(self.ex(d)), self.c('&&', '||', '??'), self.par(self.ex(d)))
    def e_cond(self, d): return '(%s?%s:%s)' % (self.par(self.ex(d)), self.ex(d), self.ex(d))
    def e_comma(self, d): return '(%s,%s)' % (self.ex(d), self.ex(d))
    def e_un(self, d):
        op = self.c('typeof ', 'void ', '!', '-', '+', '~', '-')
        return '(%s(%s))' % (op, self.ex(d))
    def e_typeof(self, d): return '(typeof %s)' % self.c(self.var(), 'undeclared1')
    def e_upd(self, d):
        tg = self.target(d)
        return self.c('(%s++)', '(%s--)', '(++%s)', '(--%s)') % tg
    def target(self, d):
        x = self.r.random()
        if x < .55: return self.var(True)
        if x < .8: return '%s.%s' % (self.obj(d), self.r.choice(TPROPS))
        if x < .95: return '%s[$k(%s)]' % (self.obj(d), self.ex(d))
        if self.priv and self.p(.7):
            w = [n for n in self.priv if n not in self.privro]
            if w: return '%s.#%s' % (self.c('this', self.var()), self.r.choice(w))
        if self.superok(): return 'super.%s' % self.r.choice(PROPS)
        return self.var(True)
    def superok(self):
        return self.fn().super_ok
    def obj(self, d):
        x = self.r.random()
        if x < .6: return self.var()
        if x < .75: return '$ac(%d,%s)' % (self.id(), self.r.choice(NUMS))
        if x < .85: return 'this' if self.thisok() else self.var()
        return '(%s)' % self.ex(d)
    def thisok(self): return True
    def e_asg(self, d):
        op = self.r.choice(ASG)
        return '(%s %s %s)' % (self.target(d), op, self.ex(d))
    def e_dasg(self, d):
        pat = self.pattern(2, None)
        return '(%s = %s)' % (pat, self.dsrc(pat, d))
    def e_mem(self, d):
        x = self.r.random()
        o = self.obj(d)
        if x < .4: return '%s.%s' % (o, self.r.choice(PROPS))
        if x < .7: return '%s[$k(%s)]' % (o, self.ex(d))
        if x < .8: return '%s?.%s' % (o, self.r.choice(PROPS))
        if x < .86: return '%s?.[$k(%s)]' % (o, self.ex(d))
        if x < .9: return '%s?.%s.%s' % (o, self.r.choice(PROPS), self.r.choice(PROPS))
        if x < .95 and self.priv:
            n = self.r.choice(self.priv)
            return self.c('%s.#%s' % (o, n), '(#%s in %s)' % (n, self.par(self.var())), '%s?.#%s' % (o, n))
        if self.superok(): return 'super.%s' % self.r.choice(PROPS) if self.p(.6) else 'super[$k(%s)]' % self.ex(d)
        return '%s.length' % o
    def e_del(self, d):
        return '(delete %s.%s)' % (self.obj(d), self.r.choice(PROPS)) if self.p(.6) else '(delete %s[$k(%s)])' % (self.obj(d), self.ex(d))
    def e_in(self, d): return '(%s in %s)' % (self.par(self.ex(d)), self.par(self.obj(d)))
    def e_inst(self, d): return '(%s instanceof %s)' % (self.par(self.ex(d)), self.c('Object', 'Array', 'Function', self.par(self.var())))
    def e_call(self, d):
        x = self.r.random()
        fs = [n for n, k in self.vars() if k in ('fn', 'class')]
        if x < .5 and fs: f = self.r.choice(fs)
        elif x < .7: f = '%s.%s' % (self.obj(d), self.r.choice(PROPS))
        elif x < .8: f = '(%s)' % self.fexpr(d)
        elif x < .85: f = '%s?.' % self.var()
        elif x < .88 and self.superok(): f = 'super.%s' % self.r.choice(PROPS)
        elif x < .92 and self.priv: f = 'this.#%s' % self.r.choice(self.priv)
        else: f = self.var()
        return ('($G(),%s(%s))' if self.noyield else '%s(%s)') % (f, self.args(d))
    def args(self, d):
        a = []
        for _ in range(self.r.randrange(4)):
            a.append(('...$it(%d,[%s])' % (self.id(), self.ex(d))) if self.p(.1) else self.ex(d))
        return ','.join(a)
    def e_new(self, d):
        cs = [n for n, k in self.vars() if k in ('fn', 'class')]
        f = self.r.choice(cs) if cs and self.p(.8) else self.c('Object', 'Array', self.par(self.var()))
        a = self.args(d)
        if f == 'Array': a = self.c('', '3', '1,2')
        return ('($G(),new %s(%s))' if self.noyield else 'new %s(%s)') % (f, a) if self.p(.85) else '($G(),new %s)' % f
    def e_arr(self, d):
        a = []
        for _ in range(self.r.randrange(5)):
            x = self.r.random()
            a.append('' if x < .07 else '...$it(%d,[%s,%s])' % (self.id(), self.ex(d), self.ex(d)) if x < .15 else self.ex(d))
        return '[%s]' % ','.join(a)
    def e_objlit(self, d):
        a = []
        proto = False
        for _ in range(self.r.randrange(5)):
            x = self.r.random()
            k = self.pname(d)
            if x < .35: a.append('%s:%s' % (k, self.ex(d)))
            elif x < .42:
                v = self.var()
                a.append(v if v != 'this' else 'q:1')
            elif x < .5: a.append('...$gn(%s)' % self.ex(d))
            elif x < .6: a.append('get %s(){%s}' % (k, self.body(d, Fn('m', method=True, strict=self.fn().strict), [])))
            elif x < .68: a.append('set %s(v){%s}' % (k, self.body(d, Fn('m', method=True, strict=self.fn().strict), ['v'])))
            elif x < .82: a.append(self.method(d))
            elif x < .87 and not proto:
                proto = True
                a.append('__proto__:%s' % self.ex(d))
            else: a.append('%s:%s' % (k, self.fexpr(d)))
        a.sort(key=lambda x: x.startswith(('get ', 'set ')) and '(){' in x or x.startswith('set '))
        return '({%s})' % ','.join(a)
    def pname(self, d):
        x = self.r.random()
        if x < .7: return self.r.choice(PROPS)
        if x < .8: return self.c('0', '1', '2', '"s"', '1.5', '0x10')
        return '[%s]' % self.ex(d)
    def cname(self):
        x = self.r.random()
        if x < .7: return self.r.choice(TPROPS)
        if x < .8: return self.c('0', '1', '2', '"s"', '1.5', '0x10')
        return '[$k(t(%d,%s))]' % (self.id(), self.c('1', '"cx"', 'null', '"y"', '2.5'))
    def method(self, d, strict=None, cls=False):
        strict = self.fn().strict if strict is None else strict
        x = self.r.random()
        g = a = False
        pre = ''
        if 'gen' in self.feat and x < .2: g, pre = True, '*'
        elif 'async' in self.feat and x < .35: a, pre = True, 'async '
        elif 'agen' in self.feat and x < .42: a = g = True; pre = 'async *'
        ps, names = self.params(d)
        return '%s%s(%s){%s}' % (pre, (self.cname() if cls else self.pname(d)) if self.p(.9) else 'm', ps, self.body(d, Fn('m', gen=g, asy=a, method=True, strict=strict), names))
    def params(self, d, simple=False):
        ps, names = [], []
        n = self.r.randrange(4)
        for i in range(n):
            x = self.r.random()
            if x < .6 or simple:
                v = 'p%d' % self.id(); names.append(v); ps.append(v)
            elif x < .8:
                v = 'p%d' % self.id(); names.append(v)
                ps.append('%s=%s' % (v, self.noyaw(lambda: self.ex(min(d, 1)))))
            elif x < .93:
                loc = []
                ps.append(self.noyaw(lambda: self.pattern(2, loc) + ('=%s' % self.c('[]', '{}', '[1,2]', '{a:1,b:2}') if self.p(.6) else '')))
                names += loc
            elif i == n - 1:
                v = 'p%d' % self.id(); names.append(v); ps.append('...' + v)
            else:
                v = 'p%d' % self.id(); names.append(v); ps.append(v)
        return ','.join(ps), names
    def noyaw(self, f):
        self.noyield += 1; self.noawait += 1
        try: return f()
        finally: self.noyield -= 1; self.noawait -= 1
    def pattern(self, d, loc, kind='let'):
        """binding pattern when loc is a list (collects names), else assignment pattern"""
        def tgt(ob=False):
            if loc is not None:
                n = 'q%d' % self.id(); loc.append(n); return n
            if ob:
                v = self.r.choice([n for n, k in self.vars() if n.isidentifier() and k not in ('const',)] or ['g1'])
                return v
            return self.target(1)
        def elem(ob=False):
            x = self.r.random()
            s = self.pattern(d - 1, loc) if d > 0 and x < .2 else tgt(ob)
            if self.p(.3): s += '=%s' % self.ex(1)
            return s
        if self.p(.5):
            a = []
            for _ in range(self.r.randrange(1, 4)):
                a.append('' if self.p(.12) else elem())
            if self.p(.25): a.append('...' + (tgt() if self.p(.8) or d <= 0 else self.pattern(0, loc)))
            elif a and a[-1] == '': a.append('')
            return '[%s]' % ','.join(a)
        a = []
        for _ in range(self.r.randrange(1, 4)):
            x = self.r.random()
            if x < .3 and loc is None:
                a.append(tgt(True))
            else:
                a.append('%s:%s' % (self.c(self.r.choice(PROPS), self.r.choice(PROPS), '[$k(%s)]' % self.ex(1), '0'), elem(True)))
        if self.p(.2): a.append('...' + tgt(True))
        return '{%s}' % ','.join(a)
    def dsrc(self, pat, d):
        x = self.r.random()
        if pat.startswith('['):
            if x < .5: return '$it(%d,[%s]%s)' % (self.id(), ','.join(self.ex(1) for _ in range(self.r.randrange(4))), self.c('', '', ',{tr:1}', ',{tn:1}', ',{rp:1}'))
            if x < .9: return '[%s]' % ','.join(self.ex(1) for _ in range(self.r.randrange(4)))
            return self.ex(d)
        if x < .5: return '{%s}' % ','.join('%s:%s' % (self.r.choice(PROPS), self.ex(1)) for _ in range(self.r.randrange(4)))
        if x < .9: return '$P(%d,{%s})' % (self.id(), ','.join('%s:%s' % (self.r.choice(PROPS), self.ex(1)) for _ in range(self.r.randrange(4))))
        return self.ex(d)
    def fexpr(self, d):
        x = self.r.random()
        st = self.fn().strict
        if x < .3:
            ps, names = self.params(d)
            if self.p(.5):
                cur = self.fn()
                f = Fn('arrow', arrow=True, strict=st, method=False); f.super_ok = cur.super_ok
                return '((%s)=>{%s})' % (ps, self.body(d, f, names))
            self.scopes.append([(n, 'let') for n in names])
            f = Fn('arrow', arrow=True, strict=st); f.super_ok = self.fn().super_ok
            s = self.sub(f, lambda: self.ex(d))
            self.scopes.pop()
            if s.lstrip().startswith('{'): s = '(%s)' % s
            return '((%s)=>%s)' % (ps, s)
        if 'async' in self.feat and x < .4:
            ps, names = self.params(d)
            f = Fn('arrow', arrow=True, asy=True, strict=st); f.super_ok = self.fn().super_ok
            return '(async (%s)=>{%s})' % (ps, self.body(d, f, names))
        g = a = False
        pre = 'function'
        if 'gen' in self.feat and x < .55: g, pre = True, 'function*'
        elif 'async' in self.feat and x < .62: a, pre = True, 'async function'
        elif 'agen' in self.feat and x < .68: a = g = True; pre = 'async function*'
        ps, names = self.params(d)
        nm = ''
        sc = []
        if self.p(.4):
            nm = 'fx%d' % self.id(); sc = [(nm, 'const')]
        self.scopes.append(sc)
        b = self.body(d, Fn('f', gen=g, asy=a, strict=st), names)
        self.scopes.pop()
        return '(%s %s(%s){%s})' % (pre, nm, ps, b)
    def e_fn(self, d): return self.fexpr(d)
    def e_class(self, d): return '(%s)' % self.klass(d, 'C%d' % self.id() if self.p(.5) else '')
    def e_this(self, d): return self.c('this', 'this', 'new.target' if len(self.fns) > 1 and self.fns[-1].kind != 'static' else 'this')
    def e_args(self, d):
        if self.sf or not any(not f.arrow and f.kind in ('f', 'm') for f in self.fns[1:]): return self.lit()
        return self.c('arguments.length', 'arguments[0]', 'arguments[%s]' % self.c('0', '1', '2'), '[...arguments].length', '(arguments[0]=%s)' % self.ex(0))
    def e_tmpl(self, d): return '`%s${%s}%s${%s}`' % (self.c('', 'a'), self.ex(d), self.c('-', ''), self.ex(d))
    def e_tag(self, d): return '((s,...v)=>t(%d,s.raw.join("|")+v.length))`a${%s}\\n${%s}c`' % (self.id(), self.ex(d), self.ex(d))
    def e_eval(self, d):
        if 'eval' not in self.feat: return self.ex(d)
        ind = self.p(.33)
        old = self.scopes
        if ind: self.scopes = [old[0]]
        s = self.noyaw(lambda: self.ex(min(d, 1)))
        self.scopes = old
        return '%s(%s)' % ('(0,eval)' if ind else 'eval', jsq(s))
    def e_yield(self, d):
        f = self.fn()
        if not f.gen or self.noyield: return self.ex(d)
        x = self.r.random()
        if x < .6: return '(yield %s)' % self.ex(d)
        if x < .7: return '(yield)'
        if f.asy: return '(yield* $it(%d,[%s,%s]))' % (self.id(), self.ex(0), self.ex(0))
        return '(yield* $it(%d,[%s,%s]%s))' % (self.id(), self.ex(0), self.ex(0), self.c('', ',{tr:1}', ',{tn:1}', ',{rp:1}'))
    def e_await(self, d):
        if not self.fn().asy or self.noawait: return self.ex(d)
        return '(await %s)' % self.c(self.ex(d), 'Promise.resolve(%s)' % self.ex(d), '{then(r,j){emit("then",%d);%s(%s)}}' % (self.id(), self.c('r', 'r', 'j'), self.r.choice(NUMS)), 'Promise.reject(%s)' % self.r.choice(NUMS))
    EX = ([e_lit] * 4 + [e_var] * 6 + [e_trace] * 12 + [e_bin] * 8 + [e_log] * 4 + [e_cond] * 3 + [e_comma] * 2 + [e_un] * 3 + [e_typeof] +
          [e_upd] * 4 + [e_asg] * 8 + [e_dasg] * 2 + [e_mem] * 8 + [e_del] * 2 + [e_in] + [e_inst] + [e_call] * 8 + [e_new] * 3 +
          [e_arr] * 3 + [e_objlit] * 4 + [e_fn] * 4 + [e_class] + [e_this] * 2 + [e_args] * 2 + [e_tmpl] * 2 + [e_tag] + [e_eval] +
          [e_yield] * 8 + [e_await] * 8)

    # ---- classes
    def klass(self, d, name):
        ext = ''
        derived = False
        st = True
        if self.p(.4):
            cs = [n for n, k in self.vars() if k == 'class']
            ext = ' extends %s' % ('$h(%s)' % self.r.choice(cs) if cs and self.p(.7) else self.c('Object', 'Array', 'null' if self.p(.2) else 'Object', 'class{constructor(){emit("base")}}', 'Map'))
            derived = True
        npriv = self.r.randrange(3) if self.p(.5) else 0
        old = self.priv
        mine = ['f%d' % self.id() for _ in range(npriv)]
        self.priv = self.priv + mine
        self.scopes.append([(name, 'const')] if name else [])
        a = []
        oldsf = self.sf
        px = {}
        for n in mine:
            x = px[n] = self.r.random()
            if x >= .6: self.privro.add(n)
            if x >= .9: self.privro.discard(n)
        for n in mine:
            x = px[n]
            stat = self.c('', '', 'static ')
            if x < .5: a.append('%s#%s=%s;' % (stat, n, self.field(1)))
            elif x < .6: a.append('%s#%s;' % (stat, n))
            elif x < .85: a.append('%s#%s(p){%s}' % (stat, n, self.mbody(d, ['p'])))
            else:
                a.append('%sget #%s(){%s}' % (stat, n, self.mbody(d, [])))
                if x >= .9: a.append('%sset #%s(v){%s}' % (stat, n, self.mbody(d, ['v'])))
        hasctor = False
        for _ in range(self.r.randrange(1, 5)):
            x = self.r.random()
            stat = self.c('', '', 'static ')
            k = self.cname()
            if k == 'length' and 'Array' in ext: k = 'len1'
            if x < .3:
                self.sf += 0
                a.append(stat + self.method(d, True, cls=True))
            elif x < .4: a.append('%sget %s(){%s}' % (stat, k, self.mbody(d, [])))
            elif x < .5: a.append('%sset %s(v){%s}' % (stat, k, self.mbody(d, ['v'])))
            elif x < .75: a.append('%s%s=%s;' % (stat, k, self.field(1)))
            elif x < .8: a.append('%s%s;' % (stat, k))
            elif x < .86:
                f = Fn('static', method=True, strict=True)
                self.sf += 1
                self.labels, ol = [], self.labels; self.loop, olp = 0, self.loop; self.brk, ob = 0, self.brk
                self.noawait += 1
                self.scopes.append([])
                s = self.sub(f, lambda: self.stmts(d - 1, 2))
                self.scopes.pop()
                self.noawait -= 1
                self.labels, self.loop, self.brk = ol, olp, ob
                self.sf -= 1
                a.append('static{%s}' % s)
            elif not hasctor:
                hasctor = True
                ps, names = self.params(d)
                f = Fn('m', method=True, ctor=True, derived=derived, strict=True)
                b = self.body(d, f, names)
                if derived: b = '%s;%s' % ('super(%s)' % self.noyaw(lambda: self.c('', '1', '...arguments')), b) if self.p(.85) else b
                a.append('constructor(%s){%s}' % (ps, b))
        self.scopes.pop()
        self.priv = old
        self.r.shuffle(a) if 0 else None
        return 'class %s%s{%s}' % (name, ext, ' '.join(a))
    def field(self, d):
        f = Fn('static', method=True, strict=True)
        self.sf += 1
        s = self.sub(f, lambda: self.noyaw(lambda: self.ex(d)))
        self.sf -= 1
        return '($G(),%s)' % s if 'new ' in s or '(' in s.replace('(-', '') else s
    def mbody(self, d, names): return self.body(d, Fn('m', method=True, strict=True), names)
    def sub(self, f, g):
        self.fns.append(f)
        ny, na = self.noyield, self.noawait
        if not f.arrow or True: self.noyield, self.noawait = (ny if f.kind == 'static' else 0), (na if f.kind == 'static' else 0)
        try: return g()
        finally:
            self.fns.pop(); self.noyield, self.noawait = ny, na

    def body(self, d, f, names):
        self.labels, ol = [], self.labels
        self.loop, olp = 0, self.loop
        self.brk, ob = 0, self.brk
        osf = self.sf
        if not f.arrow: self.sf = 0
        self.scopes.append([(n, 'let') for n in names])
        s = '$G();' + self.sub(f, lambda: self.stmts(d - 1, self.r.randrange(1, 4)) + ('return %s;' % self.ex(max(d - 1, 0)) if self.p(.6) and f.kind != 'static' else ''))
        self.scopes.pop()
        self.labels, self.loop, self.brk, self.sf = ol, olp, ob, osf
        return s

    # ---- statements
    def stmts(self, d, n):
        out = []
        for _ in range(n):
            if self.budget < 0: break
            out.append(self.st(d))
        return ' '.join(out)
    def st(self, d):
        self.budget -= 1
        if d <= 0: return self.r.choice([self.s_expr, self.s_decl])(d)
        return self.r.choice(self.ST)(self, d)
    def block(self, d, n=None):
        self.scopes.append([])
        s = self.stmts(d - 1, n or self.r.randrange(1, 4))
        self.scopes.pop()
        return '{%s}' % s
    def guard(self, e):
        return e if not e.lstrip('(').startswith(('function', 'class', 'let', 'async')) or e.startswith('(') else '(%s)' % e
    def s_expr(self, d):
        e = self.ex(min(d, 3))
        if e.startswith(('{', 'function', 'class', 'async', 'let')): e = '(%s)' % e
        if e.startswith('(') or e.startswith('[') or e.startswith('`'): e = ';' + e if 0 else e
        return e + ';'
    def s_trace(self, d): return 't(%d,%s);' % (self.id(), self.ex(min(d, 3)))
    def s_decl(self, d):
        k = self.c('let', 'const', 'var', 'let')
        if k == 'var' and self.fn().kind == 'static' and 0: k = 'let'
        if self.p(.2):
            loc = []
            pat = self.pattern(2, loc)
            s = '%s %s=%s;' % (k, pat, self.dsrc(pat, 1))
            for n in loc: self.decl(n, k)
            return s
        n = 'v%d' % self.id()
        s = '%s %s=%s;' % (k, n, self.ex(min(d, 3)))
        if self.p(.04): s = '%s %s;' % ('let', n)
        self.decl(n, k if s != 'let %s;' % n else 'let')
        return s
    def s_tdz(self, d):
        n = 'z%d' % self.id()
        self.scopes.append([(n, 'let')])
        s = self.st(d - 1)
        self.scopes.pop()
        return '{%s let %s=%s; %s}' % ('try{t(%d,%s)}catch(e){t(%d,$err(e))}' % (self.id(), self.c(n, 'typeof ' + n, n + '=1', '(()=>%s)()' % n), self.id()), n, self.lit(), s) if 1 else s
    def s_fn(self, d):
        n = 'f%d' % self.id()
        x = self.r.random()
        g = a = False
        pre = 'function'
        if 'gen' in self.feat and x < .25: g, pre = True, 'function*'
        elif 'async' in self.feat and x < .45: a, pre = True, 'async function'
        elif 'agen' in self.feat and x < .6: a = g = True; pre = 'async function*'
        self.decl(n, 'fn')
        ps, names = self.params(d)
        use = False
        if self.p(.15) and all(c not in ps for c in '=[{.'): use = True
        f = Fn('f', gen=g, asy=a, strict=self.fn().strict or use)
        b = self.body(d, f, names)
        if use: b = '"use strict";' + b
        return '%s %s(%s){%s}' % (pre, n, ps, b)
    def s_class(self, d):
        n = 'K%d' % self.id()
        s = self.klass(d, n)
        self.decl(n, 'class')
        return s + ';'
    def s_if(self, d):
        s = 'if(%s)%s' % (self.ex(2), self.block(d))
        if self.p(.5): s += 'else ' + self.block(d)
        return s
    def lab(self, d, f):
        if self.p(.3):
            l = 'L%d' % self.id()
            self.labels.append((l, 'loop'))
            s = '%s:%s' % (l, f())
            self.labels.pop()
            return s
        return f()
    def loopbody(self, d, own=()):
        self.loop += 1; self.brk += 1
        self.scopes.append([(n, 'let') for n in own])
        s = 'if($F())break;' + self.stmts(d - 1, self.r.randrange(1, 4))
        self.scopes.pop()
        self.loop -= 1; self.brk -= 1
        return '{%s}' % s
    def s_for(self, d):
        v = 'i%d' % self.id()
        k = self.c('let', 'let', 'var')
        if k == 'var': self.decl(v, 'var')
        def f():
            cap = self.c('', '', ',h%d=()=>%s' % (self.id(), v))
            return 'for(%s %s=0%s;%s<%d;%s)%s' % (k, v, cap, v, self.r.randrange(1, 4), self.c(v + '++', v + '+=1', 't(%d,++%s)' % (self.id(), v)), self.loopbody(d, [v]))
        return self.lab(d, f)
    def s_forin(self, d):
        def f():
            x = self.r.random()
            if x < .6:
                v = 'k%d' % self.id()
                h = '%s %s' % (self.c('let', 'const', 'var'), v)
                if h.startswith('var'): self.decl(v, 'var')
                own = [v]
            else:
                h, own = self.target(1), []
            o = self.c('{a:1,b:2,1:3}', '$gn(%s)' % self.ex(1), '[5,6]', '"ab"', 'null', '{__proto__:{q:1},r:2}')
            return 'for(%s in %s)%s' % (h, o, self.loopbody(d, own))
        return self.lab(d, f)
    def s_forof(self, d):
        def f():
            x = self.r.random()
            if x < .5:
                v = 'k%d' % self.id()
                h = '%s %s' % (self.c('let', 'const', 'var'), v)
                if h.startswith('var'): self.decl(v, 'var')
                own = [v]
            elif x < .7:
                own = []
                pat = self.pattern(1, own)
                h = '%s %s' % (self.c('let', 'const'), pat)
            elif x < .85:
                h, own = self.target(1), []
                if h.startswith(('async', 'let')) or h.endswith('.async'): h = 'g1'
            else:
                h, own = self.pattern(1, None), []
            o = '$it(%d,[%s]%s)' % (self.id(), ','.join(self.ex(1) for _ in range(self.r.randrange(4))), self.c('', '', '', ',{tr:1}', ',{tn:1}', ',{rp:1}'))
            if self.p(.2): o = self.c('[1,2,3]', '"xyz"', 'new Set([1,2])', self.ex(1), '[[1,2],[3]]', 'Object.entries({a:1,b:2})')
            aw = ''
            if self.fn().asy and not self.noawait and self.p(.5): aw = ' await'
            return 'for%s(%s of %s)%s' % (aw, h, o, self.loopbody(d, own))
        return self.lab(d, f)
    def s_while(self, d):
        n = 'n%d' % self.id()
        if self.p(.5): return 'let %s=0;' % n + self.lab(d, lambda: 'while(%s++<%d)%s' % (n, self.r.randrange(1, 4), self.loopbody(d, [])))
        return 'let %s=0;' % n + self.lab(d, lambda: 'do %s while(%s++<%d);' % (self.loopbody(d, []), n, self.r.randrange(1, 3)))
    def s_switch(self, d):
        self.brk += 1
        self.scopes.append([])
        cs = []
        n = self.r.randrange(1, 5)
        df = self.r.randrange(n) if self.p(.6) else -1
        for i in range(n):
            h = 'default:' if i == df else 'case %s:' % (self.ex(1) if self.p(.4) else self.c('1', '2', '"a"', 't(%d,%s)' % (self.id(), self.c('1', '2', '0'))))
            cs.append(h + self.stmts(d - 1, self.r.randrange(0, 3)) + (self.c('break;', '') if self.p(.6) else ''))
        self.scopes.pop()
        self.brk -= 1
        return 'switch(%s){%s}' % (self.c(self.ex(2), '1', '2', 't(%d,1)' % self.id()), ' '.join(cs))
    def s_try(self, d):
        s = 'try%s' % self.block(d)
        x = self.r.random()
        if x < .8:
            v = 'e%d' % self.id()
            self.scopes.append([(v, 'let')])
            y = self.r.random()
            if y < .7: s += 'catch(%s){t(%d,$err(%s));%s}' % (v, self.id(), v, self.stmts(d - 1, 2))
            elif y < .85: s += 'catch{t(%d,0);%s}' % (self.id(), self.block(d))
            else: s += 'catch({a:%s=1}){t(%d,0);%s}' % (v, self.id(), self.stmts(d - 1, 2))
            self.scopes.pop()
        if x > .5: s += 'finally%s' % self.block(d)
        return s
    def s_throw(self, d): return 'if(%s)throw %s;' % (self.c('t(%d,1)' % self.id(), self.ex(1), '$F()'), self.ex(2))
    def s_jump(self, d):
        o = []
        if self.brk: o += ['break;'] * 2
        if self.loop: o += ['continue;'] * 2
        for l, k in self.labels:
            o.append('break %s;' % l)
            if k == 'loop': o.append('continue %s;' % l)
        if len(self.fns) > 1 and self.fn().kind != 'static': o.append('return %s;' % self.ex(1))
        if not o: return self.s_trace(d)
        j = self.r.choice(o)
        return 'if(%s)%s' % (self.c('t(%d,%s)' % (self.id(), self.c('1', '0')), self.ex(1)), '{%s}' % j if self.p(.5) else j)
    def s_label(self, d):
        l = 'L%d' % self.id()
        self.labels.append((l, 'block'))
        s = '%s:%s' % (l, self.block(d))
        self.labels.pop()
        return s
    def s_block(self, d): return self.block(d)
    def s_with(self, d):
        if self.fn().strict or self.strict or any(f.strict for f in self.fns): return self.s_trace(d)
        self.scopes.append([(n, 'let') for n in ('x', 'y', 'a')])
        s = 'with(%s){%s}' % (self.c('{x:1,y:2,a:t(%d,3)}' % self.id(), '$ac(%d,1)' % self.id(), '{a:1,x:2,y:3,[Symbol.unscopables]:{a:true}}'), self.stmts(d - 1, 2))
        self.scopes.pop()
        return s
    def s_empty(self, d): return self.c(';', 'debugger;', '{}')
    def s_evalst(self, d):
        if 'eval' not in self.feat: return self.s_trace(d)
        self.budget -= 3
        b = self.labels, self.loop, self.brk
        self.labels, self.loop, self.brk = [], 0, 0
        ind = self.p(.33)
        old = self.scopes
        if ind: self.scopes = [old[0]]
        self.scopes = self.scopes + [[]]
        f = Fn('static', strict=self.fn().strict, arrow=True); f.super_ok = False
        s = self.sub(f, lambda: self.noyaw(lambda: self.stmts(min(d - 1, 2), 2)))
        self.scopes = old
        self.labels, self.loop, self.brk = b
        return 't(%d,%s(%s));' % (self.id(), '(0,eval)' if ind else 'eval', jsq(s))
    ST = ([s_expr] * 5 + [s_trace] * 8 + [s_decl] * 8 + [s_tdz] + [s_fn] * 5 + [s_class] * 3 + [s_if] * 4 + [s_for] * 3 + [s_forin] * 2 +
          [s_forof] * 4 + [s_while] * 2 + [s_switch] * 3 + [s_try] * 5 + [s_throw] * 3 + [s_jump] * 6 + [s_label] * 2 + [s_block] * 2 +
          [s_with] + [s_empty] + [s_evalst] * 2)

    def program(self, n=8, d=4, fuel=150):
        self.scopes = [[]]
        parts = []
        body = []
        for _ in range(n):
            if self.budget < 0: self.budget = 25
            body.append('try{%s}catch(e){emit("top",$err(e))}' % self.st(d) if self.p(.5) and 0 else self.top(d))
        names = [v for v, k in self.scopes[0] if k != 'x']
        tail = []
        for v in names[:14]:
            tail.append('try{emit(%s,$S(%s,3))}catch(e){emit("end",%s,$err(e))}' % (jsq(v), v, jsq(v)))
        for v, k in self.scopes[0]:
            if k == 'fn':
                body.append('$T(()=>%s(%s));' % (v, self.args(1)))
                if self.feat & {'gen', 'agen', 'async'}:
                    body.append('$drive(()=>%s(%s));' % (v, self.args(0)))
            if k == 'class': body.append('$T(()=>new %s(%s));' % (v, self.args(1)))
        return (PRE % fuel) + DRIVE + '\n'.join(body) + '\n' + '\n'.join(tail)
    def top(self, d):
        x = self.r.random()
        if x < .16:
            n = 'v%d' % self.id()
            k = self.c('let', 'var', 'const', 'let')
            r = '%s %s=%s;' % (k, n, self.lit() if self.p(.6) else '[1,{a:2,x:"s"},3]' if self.p(.5) else '{a:1,x:{b:2},length:2}')
            self.decl(n, k)
            return r
        if x < .4: return self.s_fn(d)
        if x < .52:
            n = 'K%d' % self.id()
            s = self.klass(d, n)
            self.decl(n, 'class')
            return 'var %s; try{%s=%s}catch(e){emit("cls",$err(e))}' % (n, n, s)
        self.scopes.append([])
        s = self.stmts(d, self.r.randrange(1, 4))
        self.scopes.pop()
        return 'try{%s}catch(e){emit("top",$err(e))}' % s
DRIVE = '''function $drive(f){ let g; try { g=f(); } catch(e) { emit("dr",$err(e)); return }
 if (g && typeof g.then==="function") { g.then(v=>emit("ful",typeof v), e=>emit("rej",$err(e))); return }
 if (g && typeof g.next==="function") { let ops=["next","next","throw","next","return","next"]; let show=r=>{ if (r&&typeof r.then==="function") r.then(q=>emit("ar",String(q&&q.done),typeof (q&&q.value)),e=>emit("arj",$err(e))); else emit("r",String(r&&r.done),typeof (r&&r.value)) };
  for (let o of ops) { try { show(g[o](o)) } catch(e) { emit("ge",$err(e)) } } } }
'''

def jsq(s):
    o = ['"']
    for ch in s:
        n = ord(ch)
        if ch in '"\\': o.append('\\' + ch)
        elif 32 <= n < 127: o.append(ch)
        elif n < 0x10000: o.append('\\u%04x' % n)
        else:
            n -= 0x10000
            o.append('\\u%04x\\u%04x' % (0xd800 + (n >> 10), 0xdc00 + (n & 0x3ff)))
    o.append('"')
    return ''.join(o)
