"""Collector monitors: C02 (when a collection runs is unobservable), C03 (nothing leaks, memory stays bounded)."""
import random
import rv, lang, libgen, jsgen
from concurrent.futures import ThreadPoolExecutor

def corpus(seed, nl, nu, per=2):
    """programs of every language focus and units of every library generator"""
    import props
    cs = []
    for p in sorted(lang.FOCUS):
        cs += lang.programs(p, '%s/l' % seed, nl)
    for p in sorted(props.GENS):
        cs += libgen.cases(props.GENS[p], '%s/u/%s' % (seed, p), nu, per, p.lower() + 'u', props.PRES.get(p, ''))
    return cs

def norm(lines):
    return lines

def c02(chk):
    cs = corpus('c02/%d' % chk.seed, chk.n(16, 400), chk.n(40, 1000))
    # weak references and finalization are the only things that may see a collection
    cs = [c for c in cs if not any(w in c.src for w in ('WeakRef', 'FinalizationRegistry'))]
    exe = rv.build_drv('asan')
    base = rv.run_drv(exe, cs, (), 30)
    r = chk.rng('sched')
    sched = [('every1', ['--gc-every', '1']), ('every3', ['--gc-every', '3']), ('rand', ['--gc-rand', '7', str(r.getrandbits(20))])]
    gcs = 0
    for k, (name, opts) in enumerate(sched):
        sub = cs[k::3] if chk.quick() else cs
        got = rv.run_drv(exe, sub, opts, 60, chunk=8)
        for c in sub:
            b, g = base.get(c.id), got.get(c.id)
            if b is None or g is None: raise rv.HarnessError('no result for ' + c.id)
            if b.status != 'ok': chk.inconclusive += 1; continue
            gcs += g.info.get('gc', 0)
            if g.status == 'crash' or g.status == 'exitcrash':
                chk.violation(rv.vkey(c, 'gc-crash'), '%s: %s' % (name, rv.san_summary(g.err)), c, {'stderr': g.err[-6000:], 'schedule': opts}); continue
            if g.status != 'ok': chk.inconclusive += 1; continue
            chk.saw(name + '\n' + '\n'.join(g.lines), g.info.get('gc', 0) > 0)
            d = rv.first_diff(b.lines, g.lines)
            if d:
                chk.violation(rv.vkey(c, 'gc-diff'), '%s: without collections [%s] with [%s]' % (name, d[1][:200], d[2][:200]), c, {'schedule': opts})
    chk.count('forced_collections', gcs)
    chk.cov['rule'] = 'programs of every language and library generator run with collections forced at every allocation, every third, and at random ones; the complete event trace must equal the trace without forced collections, under ASan/UBSan; distinct = distinct (schedule, trace)'
    c = cs[r.randrange(len(cs))]
    chk.sample({'case': c.id, 'src': c.src[:600]})

ROUND = '''%s
(async()=>{
const $w=()=>{$n=0;try{%s}catch(e){emit("w",$err(e))}};
const $f=()=>{%s
};
let $m=[];
for(let k=0;k<8;k++){
  for(let i=0;i<5;i++){$w()}
  for(let j=0;j<30;j++)await 0;
  $gc();$gc();$m.push($mem());
}
emit("M",$m.join(" "));
})();
'''

def rounds(seed, nu):
    import props
    cs = []
    for p in sorted(props.GENS):
        us = libgen.units(props.GENS[p], '%s/r/%s' % (seed, p), nu)
        for i, u in enumerate(us):
            cs.append(rv.Case('r%s/%d' % (p.lower(), i), ROUND % (libgen.PRE + props.PRES.get(p, ''), '$f()', u), 'script'))
    return cs

def growth(l):
    # bytes per round at the end of the run, after caches have filled
    return min(l[i + 1] - l[i] for i in range(len(l) - 4, len(l) - 1))

def c03(chk):
    # 1: what a freed runtime leaves behind (the engine's own byte accounting)
    exe = rv.build_drv('asan')
    cs = corpus('c03/%d' % chk.seed, chk.n(25, 1500), chk.n(60, 3000), per=4)
    r = chk.rng('x')
    got = rv.run_drv(exe, cs, ('--gc-rand', '300', str(r.getrandbits(20))), 30)
    for c in cs:
        g = got.get(c.id)
        if g is None: raise rv.HarnessError('no result for ' + c.id)
        if g.status in ('crash', 'exitcrash'):
            chk.violation(rv.vkey(c, 'crash'), rv.san_summary(g.err), c, {'stderr': g.err[-6000:]}); continue
        if g.status != 'ok': chk.inconclusive += 1; continue
        chk.saw('\n'.join(g.lines), True)
        if 'unfreed memory' in g.err: chk.violation(rv.vkey(c, 'unfreed'), 'after freeing the runtime: ' + g.err.strip()[:200], c)
    # 2: repeating a bounded workload keeps the memory in use bounded
    exe = rv.build_drv('plain')
    cs = rounds('c03/%d' % chk.seed, chk.n(120, 4000))
    got = rv.run_drv(exe, cs, (), 30)
    for c in cs:
        g = got.get(c.id)
        if g is None: raise rv.HarnessError('no result for ' + c.id)
        m = [l for l in g.lines if l.startswith('e "M"')]
        if g.status in ('crash', 'exitcrash'): chk.violation(rv.vkey(c, 'crash'), rv.san_summary(g.err), c); continue
        if 'unfreed memory' in g.err: chk.violation(rv.vkey(c, 'unfreed'), 'after freeing the runtime: ' + g.err.strip()[:200], c)
        if g.status != 'ok' or not m: chk.count('not_repeatable'); continue
        l = [int(x) for x in m[0].split('"')[3].split()]
        chk.saw('%s %s' % (c.id, l), len(g.lines) > 8)
        k = growth(l)
        if k > 0: chk.violation(rv.vkey(c, 'grows'), 'memory in use after collections grows by at least %d bytes in each of the last rounds: %s' % (k, l), c)
    chk.cov['rule'] = 'programs of every generator run to the end (some with errors, unfinished generators and promises) and the runtime is freed: nothing may stay allocated; units repeated in rounds of 5 with collections between rounds: memory in use must stop growing; distinct = distinct traces / memory histories'
    c = cs[r.randrange(len(cs))]
    chk.sample({'case': c.id, 'src': c.src[:900]})
