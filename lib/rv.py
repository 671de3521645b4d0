"""Framework of the runtime monitors: builds /repo's current tree with
sanitizers, executes streams of cases in it, records the event trace each case
leaves at the engine's observable boundary, and hands traces to oracles."""
import os, sys, re, glob, json, time, random, shutil, subprocess, tempfile, hashlib, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
NCPU = min(8, os.cpu_count() or 4)
LIBS = ['-lm', '-lpthread', '-ldl', '-licuuc', '-licudata', '-lstdc++', '-lffi']
SAN = ['-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute']
VARIANTS = {
    'asan': dict(opt='-O1', flags=SAN),
    'plain': dict(opt='-O1', flags=['-g']),
    'tsan': dict(opt='-O1', flags=['-g', '-fno-omit-frame-pointer', '-fsanitize=thread']),
}
ENV_SAN = {
    'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=1:exitcode=99:max_allocation_size_mb=3000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
    'LSAN_OPTIONS': 'exitcode=0',
}

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        base = os.environ.get('RV_TMP') or tempfile.gettempdir()
        _tmp = tempfile.mkdtemp(prefix='rv-', dir=base)
        if not os.environ.get('RV_KEEP'):
            atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

class HarnessError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

_builds = {}
def build_lib(variant='asan', mkvars=(), name=None):
    """libratjs.a of the current tree; returns the output directory"""
    key = (variant, tuple(mkvars))
    if key in _builds:
        return _builds[key]
    v = VARIANTS[variant]
    o = os.path.join(tmpdir(), 'b-' + (name or variant))
    os.makedirs(o)
    cc = os.path.join(o, 'cc.sh')
    with open(cc, 'w') as f:
        f.write('#!/bin/bash\na=(); for x in "$@"; do [ "$x" = -O2 ] && x=%s; a+=("$x"); done\n'
                'exec gcc "${a[@]}" %s\n' % (v['opt'], ' '.join(v['flags'])))
    os.chmod(cc, 0o755)
    t = time.time()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    r = sh(['make', 'O=' + o, *mkvars, 'config'], cwd=REPO, env=env, timeout=300)
    if r.returncode:
        raise HarnessError('config failed:\n' + r.stdout[-3000:])
    r = sh(['make', 'O=' + o, *mkvars, 'CC=' + cc, '-j%d' % NCPU, o + '/libratjs.a'], cwd=REPO, env=env, timeout=800)
    if r.returncode or not os.path.exists(o + '/libratjs.a'):
        raise HarnessError('build failed:\n' + r.stdout[-6000:])
    log('built libratjs.a [%s] in %.1fs' % (name or variant, time.time() - t))
    _builds[key] = o
    return o

def build_prog(src, out, variant='asan', mkvars=(), name=None, extra=(), internal=True):
    o = build_lib(variant, mkvars, name)
    exe = os.path.join(o, out)
    if os.path.exists(exe):
        return exe
    inc = ['-I' + REPO + '/include', '-I' + o + '/include']
    if internal:
        inc += ['-I' + REPO + '/src/lib', '-I' + o + '/src/lib', '-I' + REPO + '/src/lib/include']
    srcs = [s if s.startswith('/') else os.path.join(H, s) for s in ([src] if isinstance(src, str) else src)]
    cmd = ['gcc', VARIANTS[variant]['opt'], *VARIANTS[variant]['flags'], '-w', *inc, '-o', exe, *srcs,
           o + '/libratjs.a', *extra, *LIBS]
    r = sh(cmd, cwd=REPO, timeout=300)
    if r.returncode:
        raise HarnessError('link failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return exe

def build_drv(variant='asan', mkvars=(), name=None, extra=()):
    return build_prog('drv.c', 'rjsdrv', variant, mkvars, name, ['-Wl,--wrap=rjs_gc_add', *extra])

def log(*a):
    print('#', *a, file=sys.stderr, flush=True)

class Case:
    __slots__ = ('id', 'mode', 'src', 'meta')
    def __init__(self, id, src, mode='script', meta=None):
        self.id, self.mode, self.src, self.meta = id, mode, src, meta

class Res:
    __slots__ = ('status', 'lines', 'info', 'err')
    def __init__(self):
        self.status, self.lines, self.info, self.err = 'missing', [], {}, ''
    def __repr__(self):
        return 'Res(%s,%d)' % (self.status, len(self.lines))

def write_stream(cases, path):
    with open(path, 'wb') as f:
        for c in cases:
            b = c.src if isinstance(c.src, bytes) else c.src.encode('utf-8', 'surrogatepass')
            f.write(b'#CASE %s %s %d\n' % (c.id.encode(), c.mode.encode(), len(b)))
            f.write(b + b'\n')

def parse_trace(data, res):
    """fills res {id: Res}; returns the id left open (started, not ended) or None"""
    cur = None
    for line in data.split('\n'):
        t = line[:2]
        if t == 'B ':
            cur = line[2:]
            r = res[cur] = Res()
            r.status = 'open'
        elif cur is None:
            continue
        elif t == 'E ':
            for kv in line.split()[2:]:
                k, _, v = kv.partition('=')
                r.info[k] = int(v)
            if r.status == 'open': r.status = 'ok'
            cur = None
        elif t == 'X ':
            r.status = 'timeout'
        elif line:
            r.lines.append(line)
    return cur

def _run_chunk(argv, cases, env, wall, tag):
    out = {}
    todo = cases
    n = 0
    while todo:
        path = os.path.join(tmpdir(), 's-%s-%d' % (tag, n)); n += 1
        write_stream(todo, path)
        killed = False
        p = subprocess.Popen(argv + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=tmpdir(),
                             start_new_session=True)
        try:
            so, se = p.communicate(timeout=wall)
        except subprocess.TimeoutExpired:
            killed = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            so, se = p.communicate()
        os.unlink(path)
        so = so.decode('latin-1'); se = se.decode('utf-8', 'replace')
        before = len(out)
        op = parse_trace(so, out)
        # stderr is segmented by "@@B id" marks
        if '@@B ' in se:
            for seg in se.split('@@B ')[1:]:
                i, _, txt = seg.partition('\n')
                if txt.strip() and i in out:
                    out[i].err = txt[:8000]
        if op is None and p.returncode == 0:
            break
        if op is None:
            if argv[0] == 'node':
                # the reference buffers its output: skip the case it died in
                k = next((i for i, c in enumerate(todo) if c.id not in out), None)
                if k is None: break
                out[todo[k].id] = r = Res(); r.status = 'crash'
                todo = todo[k + 1:]
                continue
            # died outside any case (exit-time report): attribute to the last one
            if len(out) == before:
                raise HarnessError('executor failed rc=%s: %s' % (p.returncode, se[-3000:]))
            last = todo[-1].id
            if last in out:
                out[last].status = 'exitcrash'; out[last].err = se[-8000:]
                break
            raise HarnessError('executor stopped early rc=%s: %s' % (p.returncode, se[-3000:]))
        r = out[op]
        if killed:
            r.status = 'timeout'
        elif r.status != 'timeout':
            r.status = 'crash'
            r.info['rc'] = p.returncode
            if not r.err:
                r.err = se[-8000:]
        k = next(i for i, c in enumerate(todo) if c.id == op)
        todo = todo[k + 1:]
    return out

def run_cases(argv, cases, env=None, chunk=None, wall=300, jobs=NCPU):
    e = dict(os.environ); e.update(ENV_SAN); e.update(env or {}); e['TZ'] = e.get('RV_TZ', 'UTC'); e['LC_ALL'] = 'C.UTF-8'
    if chunk is None:
        chunk = max(1, min(60, (len(cases) + jobs - 1) // jobs))
    chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        tag = hashlib.md5(repr((argv, time.time(), random.random())).encode()).hexdigest()[:8]
        for r in ex.map(lambda ic: _run_chunk(argv, ic[1], e, wall, '%s-%d' % (tag, ic[0])), list(enumerate(chunks))):
            res.update(r)
    return res

PRELUDE = os.path.join(H, 'prelude.js')

def drv_argv(exe, cpu=10, *opts):
    return [exe, '--cpu', str(cpu), '--prelude', PRELUDE, *opts]

def run_drv(exe, cases, opts=(), cpu=10, env=None, chunk=None):
    res = run_cases(drv_argv(exe, cpu, *opts), cases, env, chunk)
    again = [c for c in cases if res.get(c.id) is not None and res[c.id].status == 'timeout']
    if again:
        r2 = run_cases(drv_argv(exe, cpu * 4, *opts), again[:16], env, 1)
        for c in again[:16]:
            r = r2[c.id]
            res[c.id] = r
            if r.status == 'timeout':
                r.status = 'hang'
    return res

def run_ref(cases, opts=(), env=None):
    argv = ['node', '--experimental-vm-modules', '--no-warnings', '--stack-size=4000', '--expose-gc', *opts,
            os.path.join(H, 'ref.js'), '--prelude', PRELUDE]
    return run_cases(argv, cases, env, 100)

def san_summary(err):
    """a stable short form of a sanitizer report / abort"""
    m = re.search(r'SUMMARY: (\w+Sanitizer: .*)', err)
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', err)
    fn = [f for f, p in fr if '/src/' in p or 'ratjs' in p][:3]
    m2 = re.search(r'([\w./-]+:\d+:\d+): runtime error: (.*)', err)
    if m2: return 'ubsan: %s (%s)' % (m2.group(2)[:120], '<'.join(fn))
    m3 = re.search(r"Assertion `.*' failed", err)
    if m3: return 'assert: ' + m3.group(0)[:160]
    m4 = re.search(r'ERROR: (\w+Sanitizer: [\w-]+)', err)
    if m4: return 'asan: %s (%s)' % (m4.group(1), '<'.join(fn))
    if m: return m.group(1)[:160]
    return 'died: ' + err.strip().split('\n')[-1][:160]

# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        try: self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError: self.seed = 1
        self.t0 = time.time()
        self.level = level
        self.viol = []
        self.known_hit = {}
        self.cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': []}
        self.assumptions = []
        self.inconclusive = 0
        self.sigs = set()
        for f in glob.glob('%s/evidence/replay/%s-*.json' % (VERIF, prop)): os.unlink(f)
        self.known = {}
        kf = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    self.known[m.group(2)] = m.group(3).strip()
    def quick(self): return self.tier == 'quick'
    def n(self, quick, thorough=None):
        s = float(os.environ.get('RV_SCALE', '1'))
        v = quick if self.quick() else (thorough if thorough is not None else quick * 12)
        return max(1, int(v * s))
    def rng(self, *tag):
        return random.Random('%d/%s/%s' % (self.seed, self.prop, '/'.join(map(str, tag))))
    def saw(self, sig, nontrivial=True):
        self.cov['evaluations'] += 1
        if nontrivial:
            self.sigs.add(hashlib.md5(sig.encode('utf-8', 'replace') if isinstance(sig, str) else sig).digest()[:10])
    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n
    def sample(self, s, limit=6):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(s[:1500] if isinstance(s, str) else s)
    def violation(self, key, what, case=None, extra=None):
        if key in self.known:
            self.known_hit[key] = what
            return
        if any(v['key'] == key for v in self.viol):
            return
        v = {'key': key, 'what': what}
        if case is not None:
            v['mode'] = case.mode
            v['src'] = case.src if isinstance(case.src, str) else case.src.decode('utf-8', 'replace')
        if extra: v['detail'] = extra
        self.viol.append(v)
    def finish(self):
        c = self.cov
        c['distinct_nontrivial'] = len(self.sigs) if self.sigs else c['distinct_nontrivial']
        c['inconclusive'] = self.inconclusive
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': c, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.viol), 'known_findings': sorted(self.known_hit)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.prop, 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(self.known_hit):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, self.known[k]))
        log('%s: %d evaluations, %d distinct, %d inconclusive, %.1fs' % (
            self.prop, c['evaluations'], c['distinct_nontrivial'], self.inconclusive, time.time() - self.t0))
        if not self.viol:
            if c['evaluations'] == 0 or c['distinct_nontrivial'] < 2:
                print('nothing observed', file=sys.stderr)
                return 2
            if self.inconclusive > max(20, c['evaluations'] // 5):
                print('too many inconclusive runs', file=sys.stderr)
                return 2
            return 0
        d = VERIF + '/evidence/replay'
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(self.viol[:25]):
            p = '%s/%s-%d.json' % (d, self.prop, i)
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            print('  %s :: %s' % (v['key'], v['what'][:400].replace('\n', ' | ')))
        if len(self.viol) > 25:
            print('  ... %d more' % (len(self.viol) - 25))
        return 1

def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else '<end>'
        y = b[i] if i < len(b) else '<end>'
        if x != y:
            return i, x, y
    return None

def pack(units, per, prefix, mode='script', wrap=True):
    """groups small snippets (each an expression or a function body) into cases"""
    out = []
    for i in range(0, len(units), per):
        g = units[i:i + per]
        src = '\n'.join(('$T(()=>{' + u + '\n});' if wrap else u) for u in g)
        out.append(Case('%s/%d' % (prefix, i // per), src, mode, g))
    return out

def unit_of(case, lines, idx):
    """the unit of a packed case at whose completion event the traces diverge"""
    if not case.meta: return None
    seen = 0
    for l in lines[:idx]:
        m = re.match(r'e "T(\d+)" ', l)
        if m: seen = int(m.group(1))
    return case.meta[seen] if seen < len(case.meta) else case.meta[-1]

def diff_ref(chk, exe, cases, opts=(), cpu=10, ref=None, label='', crash_only=False, canon=None, drv_res=None):
    """runs cases in the engine and in the reference, reports every divergence"""
    with ThreadPoolExecutor(2) as ex:
        fr = ex.submit(run_ref, cases) if ref is None and not crash_only else None
        got = drv_res or run_drv(exe, cases, opts, cpu)
        want = fr.result() if fr else (ref or {})
    ev = 0
    for c in cases:
        g = got.get(c.id)
        if g is None or g.status in ('missing', 'open'):
            raise HarnessError('no result for case ' + c.id)
        gl = g.lines
        if canon: gl = canon(gl)
        ev += len(gl)
        chk.saw(('\n'.join(gl)) or c.id, len(gl) > 0)
        if g.status in ('crash', 'exitcrash'):
            chk.violation(vkey(c, 'crash'), san_summary(g.err), c, {'stderr': g.err[-6000:], 'trace': gl[-20:]})
            continue
        if crash_only:
            if g.status in ('timeout', 'hang'): chk.inconclusive += 1
            continue
        w = want.get(c.id)
        if w is None or w.status != 'ok':
            chk.inconclusive += 1
            continue
        if g.status == 'hang':
            chk.violation(vkey(c, 'hang'), 'does not terminate (reference does)', c, {'trace': gl[-20:]})
            continue
        if g.status == 'timeout':
            chk.inconclusive += 1
            continue
        wl = canon(w.lines) if canon else w.lines
        d = first_diff(wl, gl)
        if d:
            i, x, y = d
            u = unit_of(c, wl, i)
            chk.violation(vkey(c, 'diff', u), 'expected [%s] got [%s]%s' % (x[:200], y[:200], (' in: ' + u[:300]) if u else ''), c,
                          {'at': i, 'expected': wl[max(0, i - 5):i + 5], 'got': gl[max(0, i - 5):i + 5]})
        if 'unfreed memory' in g.err:
            chk.violation(vkey(c, 'unfreed'), g.err.strip()[:200], c)
    chk.count('trace_events', ev)
    if cases:
        k = chk.rng('sample', label).randrange(len(cases))
        c = cases[k]
        chk.sample({'case': c.id, 'src': c.src[:700] if isinstance(c.src, str) else repr(c.src[:700]), 'trace': got[c.id].lines[:12]})
    return got, want

def vkey(c, kind, unit=None):
    if not c.id.startswith('corpus'):
        s = unit if unit is not None else c.src
        if isinstance(s, str): s = s.encode('utf-8', 'surrogatepass')
        return '%s:%s:%s' % (kind, c.id.split('/')[0], hashlib.sha1(s).hexdigest()[:12])
    return '%s:%s' % (kind, c.id)

def main(fn, prop, **kw):
    chk = Check(prop, **kw)
    try:
        fn(chk)
        rc = chk.finish()
    except HarnessError as e:
        print('harness error: %s' % e, file=sys.stderr)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print('harness timeout: %s' % e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
