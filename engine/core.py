"""Shared plumbing: IR generation from /repo, obligations, reporting, evidence."""
import os, sys, re, json, time, subprocess, tempfile, shutil, atexit, multiprocessing, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import llir
from absint import *

CLANG = shutil.which('clang') or '/usr/bin/clang'
OPT = next((p for p in ('/usr/lib/llvm-18/bin/opt', shutil.which('opt') or '') if p and os.path.exists(p)), None)
BASE_LIB = ('alt_az ades2mpc astfuncs big_vsop brentmin cgi_func classel conbound cospar date delta_t de_plan '
  'dist_pa eart2000 elp82dat eop_prec getplane get_time jsats lunar2 miscell moid mpc_code mpc_fmt mpc_fmt2 '
  'nanosecs nutation obliquit pluto precess showelem snprintf sof spline ssats triton unpack vislimit vsopson').split()

class AnalysisBroken(Exception):
    """the analysis could not be carried out (not a verdict on the property)"""

_tmp = None
def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vlunar.')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp

def lib_sources():
    """the library's translation units, from the makefile (all that go into liblunar)"""
    names = []
    mk = os.path.join(REPO, 'makefile')
    try:
        out = subprocess.run(['make', '-C', REPO, '-f', 'makefile', '-pnq', '_no_such_target_'], capture_output=True, text=True, timeout=60).stdout
        m = re.search(r'^OBJS\s*:?=\s*(.*)$', out, re.M)
        if m: names = [x[:-2] for x in m.group(1).split() if x.endswith('.o')]
    except Exception: pass
    if len(names) < 20: names = list(BASE_LIB)
    r = []
    for n in names:
        for e in ('.cpp', '.c'):
            if os.path.exists(os.path.join(REPO, n + e)): r.append(n + e); break
    return r

def all_sources():
    return sorted(f for f in os.listdir(REPO) if f.endswith(('.c', '.cpp')))

FLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-exceptions', '-g', '-w', '-S', '-emit-llvm', '-D_GNU_SOURCE=1']
def _compile(job):
    src, defs = job
    d = scratch()
    tag = src + ('.' + hashlib.md5(' '.join(defs).encode()).hexdigest()[:6] if defs else '')
    raw = os.path.join(d, tag + '.raw'); out = os.path.join(d, tag + '.ll')
    path = os.path.join(REPO, src)
    tries = [['-x', 'c' if src.endswith('.c') else 'c++']]
    if src.endswith('.cpp'): tries.append(['-x', 'c++', '-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inc', 'nothrow.h')]); tries.append(['-x', 'c', '-include', 'stdbool.h'])
    err = ''
    for t in tries:
        r = subprocess.run([CLANG] + FLAGS + list(defs) + ['-I', REPO] + t + [path, '-o', raw], capture_output=True, text=True)
        if r.returncode == 0: break
        err = err or r.stderr
    else:
        return (src, None, err)
    r = subprocess.run([OPT, '-passes=sroa', '-S', raw, '-o', out], capture_output=True, text=True)
    os.unlink(raw)
    if r.returncode: return (src, None, r.stderr)
    return (src, out, '')

def modules(srcs, defs=(), must=True):
    """compile to LLVM IR (in parallel) and parse"""
    scratch()
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(_compile, [(s, tuple(defs)) for s in srcs]))
    ms = []; bad = []
    for s, p, e in res:
        if p is None: bad.append((s, e)); continue
        ms.append(llir.Module(p, s))
    if bad and must: raise AnalysisBroken('cannot compile %s: %s' % (bad[0][0], bad[0][1][:400]))
    return ms

_progs = {}
def program(extra=(), lib=True, defs=()):
    """library (+ given program units) as one analysed program"""
    k = (tuple(extra), lib, tuple(defs))
    if k not in _progs:
        srcs = (lib_sources() if lib else []) + [x for x in extra]
        _progs[k] = Prog(modules(list(dict.fromkeys(srcs)), defs))
    return _progs[k]

def units(srcs, defs=()):
    k = ('u', tuple(srcs), tuple(defs))
    if k not in _progs: _progs[k] = Prog(modules(list(srcs), defs))
    return _progs[k]

_lay = {}
def layout(headers, *fields):
    """record layout, from the compiler: {field: (byte offset, type)} of the record declared in headers having all the given fields; '' -> (size, '')"""
    k = tuple(headers)
    if k not in _lay:
        p = os.path.join(scratch(), 'lay_%s.cpp' % hashlib.md5(' '.join(k).encode()).hexdigest()[:8])
        open(p, 'w').write(''.join('#include "%s"\n' % h for h in ('stdio.h', 'stddef.h', 'stdint.h', 'stdbool.h') + k))
        r = subprocess.run([CLANG + '++' if os.path.exists(CLANG + '++') else CLANG, '-x', 'c++', '-w', '-I', REPO, '-fsyntax-only', '-Xclang', '-fdump-record-layouts-complete', p], capture_output=True, text=True)
        recs = []; cur = None
        for l in r.stdout.splitlines():
            m = re.match(r'\s*(\d+) \|( +)(.*)$', l)
            if '*** Dumping' in l: cur = None
            elif m:
                o, ind, t = int(m.group(1)), len(m.group(2)), m.group(3)
                if ind == 1: cur = {}; recs.append(cur)
                elif ind == 3 and cur is not None:
                    ty, _, nm = t.rpartition(' '); cur[nm] = (o, ty.strip())
            elif cur is not None and 'sizeof=' in l: cur[''] = (int(re.search(r'sizeof=(\d+)', l).group(1)), '')
        _lay[k] = recs
    for c in _lay[k]:
        if all(f in c for f in fields): return c
    raise AnalysisBroken('no record with fields %s in %s' % (fields, headers))

def need(prog, name, file=None):
    try: return prog.find(name, file)
    except KeyError as e: raise AnalysisBroken(str(e))

def where(f, line=None):
    nm, file, ln = f.module.func_src(f)
    return '%s:%s %s()' % (f.module.src, line if line else ln, nm)

# ------------------------------------------------------------------ reporting
class Rep:
    """collects obligations of one check"""
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.ok = 0; self.bad = []; self.und = []; self.groups = {}
        self.samples = []; self.info = {}; self.funcs = set()
        self.minimum = 1
    def add(self, group, verdict, key, detail='', site=''):
        """verdict: True holds, False violated, None undecided. key: stable identifier of the obligation"""
        g = self.groups.setdefault(group, [0, 0, 0])
        if verdict is True:
            self.ok += 1; g[0] += 1
            if g[0] <= 1 and len(self.samples) < 60: self.samples.append({'rule': group, 'obligation': key, 'detail': str(detail)[:300], 'verdict': 'discharged'})
        elif verdict is False:
            g[1] += 1; self.bad.append({'rule': group, 'key': key, 'detail': str(detail)[:600], 'site': site})
        else:
            g[2] += 1; self.und.append({'rule': group, 'key': key, 'detail': str(detail)[:300], 'site': site})
    def merge(self, items):
        for it in items: self.add(*it)
    def note_funcs(self, interp):
        for f in interp.analysed: self.funcs.add(f)

def known_findings(prop):
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)$', l)
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

def finish(rep, level, rule, technique, trusted=None, assumptions=None):
    known = dict(known_findings(rep.prop))
    vio = []; seen = set()
    for b in rep.bad:
        if b['key'].replace(' ', '_') in known: seen.add(b['key'].replace(' ', '_'))
        else: vio.append(b)
    total = rep.ok + len(rep.bad) + len(rep.und)
    ev = {'property': rep.prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': {}, 'wall_s': round(time.time() - rep.t0, 2), 'violations': len(vio)}
    c = ev['coverage']
    c['obligations'] = total; c['discharged'] = rep.ok; c['undecided'] = len(rep.und); c['known_findings_reproduced'] = len(seen)
    c['violations'] = vio[:20]
    c['undecided_list'] = rep.und[:40]
    c['by_rule'] = {g: {'discharged': v[0], 'violated': v[1], 'undecided': v[2]} for g, v in rep.groups.items()}
    c['functions_analysed'] = sorted(rep.funcs)
    c['rule'] = rule; c['technique'] = technique; c['samples'] = rep.samples
    c['explanation'] = rule
    c['checker_cmd'] = 'python3 check.py %s %s' % (rep.prop, rep.tier)
    c['trusted_base'] = trusted or ['clang 18 front end (source to LLVM IR) and opt sroa', '/verif/engine (IR parser, abstract interpreter)', 'the oracle tables in /verif/props']
    c.update(rep.info)
    if assumptions: ev['assumptions'] = assumptions
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', rep.prop + '.json'), 'w'), indent=1, default=str)
    for k in sorted(seen): print('KNOWN-FINDING: property=%s %s' % (rep.prop, known[k]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (rep.prop, total, rep.ok, len(rep.und), len(vio), time.time() - rep.t0))
    for g, v in rep.groups.items(): print('   %-40s ok %d  violated %d  undecided %d' % (g, v[0], v[1], v[2]))
    for u in rep.und[:5]: print('   undecided: [%s] %s %s' % (u['rule'], u['key'], u['detail'][:150]))
    if vio:
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, rep.prop + '.json')
        json.dump({'property': rep.prop, 'violations': vio}, open(p, 'w'), indent=1, default=str)
        for b in vio[:8]: print('  violated [%s] %s at %s: %s' % (b['rule'], b['key'], b['site'], b['detail'][:300]))
        print('VIOLATION property=%s replay=%s' % (rep.prop, p))
        return 1
    if rep.ok < rep.minimum:
        print('ANALYSIS-BROKEN: only %d obligations discharged, expected at least %d' % (rep.ok, rep.minimum))
        return 3
    return 0

# ------------------------------------------------------------------ parallel map
_work = None
def _run1(i): return _work[0](_work[1][i])
def pmap(fn, items, chunk=None, procs=8):
    """fork-parallel map (workers inherit the parsed program)"""
    global _work
    items = list(items)
    if len(items) <= 1 or os.environ.get('VSERIAL'): return [fn(x) for x in items]
    _work = (fn, items)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, len(items))) as p:
        return p.map(_run1, range(len(items)), chunk or max(1, len(items) // (procs * 8)))
