"""property id -> check function"""
import rv, lang, libgen, dom_obj, dom_arr, dom_txt, dom_gen, dom_re, mem, robust
CHECKS = {}
def check(p):
    def d(f):
        CHECKS[p] = f
        return f
    return d
for _p in lang.FOCUS:
    CHECKS[_p] = (lambda p: lambda chk: lang.fuzz(chk, p))(_p)
# library units: property -> (generator, quick units, thorough units, rule)
GENS, PRES, CANON, SIZES, RULES = {}, {}, {}, {}, {}
def lib(p, gen, quick, thorough, rule, pre='', canon=libgen.canon):
    GENS[p] = gen; SIZES[p] = (quick, thorough); RULES[p] = rule
    if pre: PRES[p] = pre
    CANON[p] = canon
    CHECKS[p] = lambda chk: libgen.run(chk, gen, quick, thorough, pre=pre, rule=rule, canon=canon)
R = 'random units from the generator of this property, packed into programs; every step result, conversion and completion is an event compared with the reference; distinct = distinct traces'
lib('C14', dom_obj.c14, 60000, 1000000, R)
lib('C15', dom_obj.c15, 60000, 1000000, R, pre=dom_obj.C15PRE)
lib('C22', dom_obj.c22, 50000, 800000, R)
lib('C33', dom_obj.c33, 60000, 800000, R)
lib('C21', dom_arr.c21, 60000, 1000000, R, pre=dom_arr.C21PRE)
lib('C23', dom_arr.c23, 60000, 1000000, R, pre=dom_arr.C23PRE)
lib('C16', dom_txt.c16, 60000, 1000000, R)
lib('C17', dom_txt.c17, 40000, 800000, R)
lib('C18', dom_txt.c18, 60000, 1000000, R)
lib('C19', dom_re.c19, 28000, 600000, R)
lib('C20', dom_txt.c20, 60000, 1000000, R)
lib('C24', dom_txt.c24, 60000, 1000000, R)
def both(p, gen, quick, thorough):
    GENS[p] = gen; SIZES[p] = (quick, thorough); CANON[p] = libgen.canon
    f = CHECKS[p]
    def g(chk):
        lang.fuzz(chk, p, (600, 4500))
        libgen.run(chk, gen, quick, thorough, per=8)
    CHECKS[p] = g
both('C11', dom_gen.c11, 40000, 600000)
both('C12', dom_gen.c12, 40000, 600000)
CHECKS['C01'] = robust.c01
CHECKS['C02'] = mem.c02
CHECKS['C03'] = mem.c03
NOTES = {}
LATER = 'no monitor was built within the session: %s; the family applies'
NA = {
 'C04': LATER % 'needs weak-reference and finalizer oracles over forced collections',
 'C05': LATER % 'needs an Annex-B-free reference parser, the available one (V8) accepts a different language',
 'C13': LATER % 'needs a multi-file module graph driver',
 'C25': LATER % 'needs an embedding driver with several agents under ThreadSanitizer',
 'C26': LATER % 'realms are used by other drivers, the embedding API has no driver of its own',
 'C27': LATER % 'needs a file-system scratch driver for the extension functions',
 'C28': LATER % 'needs generated C bindings and a comparison driver; the stable tests sample it',
 'C29': LATER % 'needs module loading in the driver',
 'C30': LATER % 'needs a process-level driver for the command line',
 'C31': LATER % 'needs one build per configuration and trace comparison',
 'C32': LATER % 'needs unit drivers for the C containers',
}
