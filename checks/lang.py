"""Random-program monitors (C06-C12): every event a generated program emits is
compared, in order, with the trace of the reference engine."""
import random
import rv, jsgen

FOCUS = {
    # property: list of (weight, strict, features, boosts, statements per program)
    'C06': [(3, 0, (), dict(e_bin=12, e_upd=6, e_un=5, e_asg=8, e_log=5, e_cond=3, e_del=4, e_in=3, e_mem=4), 6),
            (2, 1, (), dict(e_bin=12, e_upd=6, e_un=5, e_asg=8, e_log=5, e_cond=3, e_del=4, e_in=3, e_mem=4), 6)],
    'C07': [(3, 0, (), dict(s_try=12, s_jump=14, s_switch=8, s_label=8, s_forof=8, s_for=6, s_while=4), 6),
            (2, 1, (), dict(s_try=12, s_jump=14, s_switch=8, s_label=8, s_forof=8, s_for=6, s_while=4), 6),
            (1, 0, ('gen',), dict(s_try=12, s_jump=14, s_forof=10), 6)],
    'C08': [(3, 0, ('eval',), dict(s_decl=10, s_tdz=8, s_fn=6, s_with=5, s_block=5, s_evalst=6, e_eval=6, e_fn=8, s_for=6, e_var=8), 6),
            (2, 1, ('eval',), dict(s_decl=10, s_tdz=8, s_fn=6, s_block=5, s_evalst=6, e_eval=6, e_fn=8, s_for=6, e_var=8), 6),
            (1, 0, (), dict(s_decl=10, s_tdz=8, s_fn=8, e_fn=10, s_for=6), 6)],
    'C09': [(2, 0, (), dict(e_class=14, s_class=12, e_new=8, e_fn=8, e_call=8, e_this=5, e_args=5), 5),
            (2, 1, (), dict(e_class=14, s_class=12, e_new=8, e_fn=8, e_call=8, e_this=5, e_args=5), 5),
            (1, 1, ('gen', 'async'), dict(e_class=14, s_class=12, e_new=8), 5)],
    'C10': [(3, 0, (), dict(e_dasg=14, s_decl=12, s_forof=5, e_arr=8, e_objlit=8, e_tmpl=6, e_tag=6, e_call=6, e_fn=6), 6),
            (2, 1, (), dict(e_dasg=14, s_decl=12, s_forof=5, e_arr=8, e_objlit=8, e_tmpl=6, e_tag=6, e_call=6, e_fn=6), 6)],
    'C11': [(3, 0, ('gen',), dict(e_yield=16, s_forof=8, s_try=6, s_fn=6, e_dasg=5, s_jump=5), 6),
            (2, 1, ('gen',), dict(e_yield=16, s_forof=8, s_try=6, s_fn=6, e_dasg=5, s_jump=5), 6)],
    'C12': [(2, 0, ('gen', 'async'), dict(e_await=14, e_yield=4, s_try=6, s_fn=6, s_forof=5), 6),
            (2, 0, ('gen', 'async', 'agen'), dict(e_await=10, e_yield=10, s_try=6, s_fn=6, s_forof=5), 6),
            (2, 1, ('gen', 'async', 'agen'), dict(e_await=10, e_yield=10, s_try=6, s_fn=6, s_forof=5), 6)],
}

def programs(prop, rng_seed, n, focus=None):
    fo = focus or FOCUS[prop]
    bag = [f for f in fo for _ in range(f[0])]
    out = []
    for i in range(n):
        w, strict, feat, boost, k = bag[i % len(bag)]
        r = random.Random('%s/%d' % (rng_seed, i))
        g = jsgen.Gen(r, strict=bool(strict), feat=feat, boost=boost)
        g.fns[0].strict = bool(strict)
        out.append(rv.Case('%s/%d' % (prop.lower(), i), g.program(n=k), 'strict' if strict else 'script'))
    return out

def fuzz(chk, prop, quick=(900, 7000), thorough=(20000, 150000)):
    """ASan/UBSan build on the first part, fast build on the second"""
    na, npl = chk.n(quick[0], thorough[0]), chk.n(quick[1], thorough[1])
    seed = 'lang/%d/%s' % (chk.seed, prop)
    cs = programs(prop, seed, na + npl)
    a, b = cs[:na], cs[na:]
    exe = rv.build_drv('asan')
    rv.diff_ref(chk, exe, a, cpu=20, label='asan')
    exe = rv.build_drv('plain')
    for i in range(0, len(b), 20000):
        rv.diff_ref(chk, exe, b[i:i + 20000], cpu=20, label='plain%d' % i)
    chk.cov['programs'] = len(cs)
    chk.cov['rule'] = ('generated ECMAScript programs focused on this property; each emits an ordered event trace (values, '
                       'conversions, iterator and proxy protocol steps, completions) compared event by event with the reference; '
                       'distinct = distinct traces')
