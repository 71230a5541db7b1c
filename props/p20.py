"""P20: orientations, rotation rates and radii of planets and satellites as given by cospar.txt."""
import core, re, os, math, signal, fmt, ident, llir
from alg import *
from poly import PI_A
import poly as PL
from vfile import VFiles
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR on virtual data files (the real cospar.txt and small ones covering its grammar) with a symbolic instant; results compared in normal form with an independent reading of the file; open, allocation faults and call histories enumerated'
RULE = ('for every object of the file and every rotation system the returned frame must have the pole, prime meridian and 90-degree direction which the series of the file give at the instant asked for; '
        'unknown objects, missing files and failing allocations are reported and return determinate values; no result depends on earlier calls.')
PIp = Poly.var(PI_A); J2000 = 2451545
SRC = ['cospar.cpp', 'miscell.cpp']

class TextFiles(VFiles):
    """virtual text files with concrete contents"""
    def __init__(self, r, texts, fault=None):
        VFiles.__init__(self, r, {}, fault); self.texts = texts
        for n, t in texts.items(): self.files[n] = r.arr([], size=len(t), name=n)
        r.I.hooks.update(fgets=self.fgets, feof=self.feof, realloc=self.realloc, getc=self.getc, fgetc=self.getc, fread=self.fread)
        for n, t in texts.items():
            for i, c in enumerate(t): r.I.store(r.st, Ptr(self.files[n].obj, K(i)), K(c if c < 128 else c - 256), llir.I8, None, r.m)
    def feof(self, I, st, a, ins, m): f = self.f(a[0], 'feof'); return st, K(1 if f[1] >= len(self.texts[f[2]]) else 0)
    def realloc(self, I, st, a, ins, m):
        if isinstance(a[0], Ptr) and a[0].obj is None: return self.alloc(I, st, a[1].c, 'undef')
        raise Imprecise('realloc')
    def getc(self, I, st, a, ins, m):
        f = self.f(a[0], 'fgetc'); t = self.texts[f[2]]
        if f[1] >= len(t): return st, K(-1)
        f[1] += 1; return st, K(t[f[1] - 1])
    def fgets(self, I, st, a, ins, m):
        f = self.f(a[2], 'fgets'); t = self.texts[f[2]]; n = a[1].c; p = f[1]
        if n is None: raise Imprecise('length of a line not known')
        if self.hit('fread') or p >= len(t): return st, NULL
        e = t.find(b'\n', p, p + int(n) - 1); e = e + 1 if e >= 0 else min(len(t), p + int(n) - 1)
        for i, c in enumerate(t[p:e] + b'\0'): I.store(st, Ptr(a[0].obj, a[0].off + K(i)), K(c if c < 128 else c - 256), llir.I8, ins, m)
        f[1] = e; return st, a[0]

# ---------------------------------------------------------------- an independent reading of the file
NUM = r'[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?'
TERM = re.compile(r'([+-](?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)(?:(d2|T2|d|T)|(sin|cos)(\d*)([A-Z])(\d+))')
class Data:
    def __init__(self, text):
        self.remap = []; self.obj = {}; self.order = []; self.odd = []; cur = None; args = {}; planet = None
        for ln, l in enumerate(text.decode('latin1').split('\n'), 1):
            if l.startswith('END'): break
            l = l.rstrip('\r').split('#')[0]
            if any(not ' ' <= c <= '~' for c in l.rstrip()): self.odd.append((ln, l.strip()))
            if l.startswith('Remap:'): x = l[6:].split(); self.remap += [(int(x[i]), int(x[i + 1])) for i in range(0, len(x) - 1, 2)]; continue
            l = l.replace(' ', '')
            if l.startswith('Planet:'): planet = l[7]; args = {}; cur = None
            elif l.startswith('Obj:'): cur = {'r': [], 'W': [], 'args': args, 'line': ln}; n = int(re.match(r'-?\d+', l[4:]).group()); self.obj.setdefault(n, cur); self.order.append(n)
            elif cur is None and planet and re.match(re.escape(planet) + r'\d+=', l):
                k, v = l.split('=', 1); m = re.match('(%s)(%s)([dT])' % (NUM, NUM), v); args[k] = (Fr(m.group(1)), Fr(m.group(2)), m.group(3))
            elif cur is not None and l:
                k, v = l.split('=', 1) if '=' in l else (l, '')
                if k == 'r': cur['r'] = [Fr(x) for x in v.split(',')]
                elif k[0] in 'ad': cur[k[0]] = self.series(v, ln)
                elif k[0] == 'W': cur['W'].append((int(k[1:] or 0), self.series(v, ln)))
    def series(self, v, ln):
        c = re.match(NUM, v); pos = c.end(); terms = [(Fr(c.group()), '', None)]
        for m in TERM.finditer(v, pos):
            if m.group(2): terms.append((Fr(m.group(1)), m.group(2), None))
            else: terms.append((Fr(m.group(1)), m.group(3), (int(m.group(4) or 1), m.group(5) + m.group(6), ln)))
        return terms
    def find(self, n):
        if 9 < n < 1000:
            for new, old in self.remap:
                if n == old: n = new
        return self.obj.get(n)
    def W(self, o, sysno):
        for k, s in o['W']:
            if k == 0 or k == sysno: return s
    def value(self, o, s, d):
        t = d.scale(Fr(1, 36525)); v = ZERO
        for c, k, a in s:
            if k == '': x = K(1)
            elif k[0] in 'dT': x = d if k[0] == 'd' else t; x = x * x if k[1:] else x
            else:
                c0, c1, u = o['args'][a[1]]; x = sincos((K(c0) + (d if u == 'd' else t).scale(c1)) * PIp.scale(Fr(a[0], 180)))[1 if k == 'cos' else 0]
            v = v + x.scale(c)
        return v
    def retro(self, s): return any(c < 0 and k in ('d', 'T') for c, k, a in s)
    def rate(self, s):
        for c, k, a in s:
            if k == 'd': return c
    def frame(self, o, sysno, d):
        deg = PIp.scale(Fr(1, 180)); w = self.W(o, sysno)
        (sa, ca), (sd, cd), (sw, cw) = sincos(self.value(o, o['a'], d) * deg), sincos(self.value(o, o['d'], d) * deg), sincos(self.value(o, w, d) * deg)
        N = [-sa, ca, ZERO]; M = [-(ca * sd), -(sa * sd), cd]; sg = 1 if self.retro(w) else -1
        return [N[i] * cw + M[i] * sw for i in range(3)] + [(M[i] * cw - N[i] * sw).scale(sg) for i in range(3)] + [ca * cd, sa * cd, sd]

# ---------------------------------------------------------------- runs
def numbers(v):
    """sines and cosines of given angles as numbers"""
    if not isinstance(v, Poly): return v
    mp = {}
    for a in v.atoms():
        k = PL.ATOMS[a].key
        if k[0] in ('sin', 'cos') and all(m == () or m == ((PI_A.id, 1),) for m in k[1].t):
            mp[a] = K(Fr(getattr(math, k[0])(float(sum(c * (Fr(math.pi) if m else 1) for m, c in k[1].t.items())))))
    return PL.subst(v, mp) if mp else v
class Collect:
    def __init__(self, out, G, key, site): self.out = out; self.a = (G, key, site)
    def __enter__(self): return self
    def __exit__(self, t, e, tb):
        if t is None: return
        if issubclass(t, (BadAccess, Aborts)): self.out.append((self.a[0], False, self.a[1], str(e), self.a[2])); return True
        if issubclass(t, (Imprecise, llir.IRError, ident.NoVal, OverflowError, TypeError, AttributeError, IndexError, ValueError, KeyError)): self.out.append((self.a[0], None, self.a[1], repr(e), self.a[2])); return True
def alarm(*a): raise Imprecise('time limit')
def limited(fn, sec):
    """a call that wanders off (values unknown) is given up"""
    old = signal.signal(signal.SIGALRM, alarm); signal.alarm(sec)
    try: return fn()
    finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)
SMALL = b"""# comment
Remap: 2001 10  2002 28\r
Remap: 2003 29 2005 173

Obj: -2 # first, before any planet
   a0=12.5
   d0 = -33.25
   W = 4+ 712.143d      # note
   (a remark)
Planet: A
  A1=10.5+2.25d

  A2 = 20.25 + 33.5T   # +1T2
  A3=30-4.5T
  A4=40+.5d
  A5=50+5T
  A6=60+6T
  A7=70+7T
  A8=80+8T
  A9=90+9T
  A10=100-10T
  A11=110+11T
  A12=120+12.125d

Obj: 2001
   r=10.5,9.25,8
   a0=-14.25 -0.5T +1.25 sin A1 -2.5 cos 2A3 +0.125T2
   d0=67.5+.25d-3.5 cos A12 +1e-3d2
   W2=10+100d
   W3=-20.5-200.5d
   W=30 +300.25d -7.5d2 +0.5 sin A10 -0.25 sin 3A11 -1.5T2
Obj: 2002 # retrograde\r
   W=1-50.5d+0.25cosA2\r
   d0=-1.5 - 2.5 sin 9A4\r
   a0=2.5\r
   r=7,6\r
Obj: 2003
   a0= 1
   d0=2
   W= 3 -4.5T
   r=1234.5
Planet: B
  B0=1.5+1T
  B1=2.5+2T
  B2=3.5+3T

Obj: 12345
   a0=5 + 1 sin B0
   d0=6 + 1 cos B1 + 2 cos 2B2
   W3=77+7.5d
   W=8-9d
Obj: 2005
   a0=9
   d0=10
   W=11+13d-12d2
"""
OTHER = b"Remap: 2003 29\nPlanet: C\n  C1=5+6d\nObj: 2001\n r=1,2,3\n a0=80 +3 sin C1\n d0=10\n W=7-8.5d\nObj: 2003\n r=9\n a0=1\n d0=1\n W=1+22.5d\nEND\nObj: 2002\n a0=1\n d0=1\n W=1+1d\n"
AFTER = SMALL + b"END of data\nObj: 2004\n   a0=1\n   d0=2\n   W=3+4d\nPlanet: Z\n"
def name_arg(r, s):
    p = r.arr([], size=len(s) + 1, name='file name')
    for i, c in enumerate(s.encode() + b'\0'): r.I.store(r.st, Ptr(p.obj, K(i)), K(c), llir.I8, None, r.m)
    return p
def mkrun(P, texts, fault=None):
    r = Run(P, True); r.I.exact = True; r.V = TextFiles(r, texts, fault); r.tds = []; r.prec = []
    def td(I, st, a, ins, m): r.tds.append(a[0]); return st, TD
    def sp(I, st, a, ins, m):
        r.prec.append(a[1])
        for i in range(9): I.store(st, Ptr(a[0].obj, a[0].off + K(8 * i)), EM[i], D, ins, m)
        return st, ZERO
    r.I.hooks.update(td_minus_ut=td, setup_precession_with_nutation_eops=sp); return r
TD = S('delta t', 60, 70); EM = V('earth', 9)
def sub(r):
    """the same interpreter continuing from a copy of the state"""
    r.st = r.st.copy(); return r
FN = {}
def orient(r, n, sysno, jd):
    o = r.arr([None] * 9, name='matrix'); v = limited(lambda: r.call(FN['calc_planet_orientation'], K(n), K(sysno), jd, o), 60); return v, r.get(o, 9)
def det(v, what):
    if v.c is None: return None
    return v.c
# instants at which no argument of the file passes through zero: just after J2000, far in the future and the past; and given ones
def spans(tier):
    L = [('after J2000', K(J2000) + S('days', Fr(1, 100), Fr(1, 50))), ('far future', K(J2000) + S('days+', 36525 * 2000, 36525 * 3000)), ('far past', K(J2000) - S('days-', 36525 * 2000, 36525 * 3000))]
    G = ['2451544.5', '2415020.5', '2460310.25'] + (['2305447.5', '2816787.5', '2469807.5', '1721057.5'] if tier != 'quick' else [])
    return L + [('JD ' + g, K(Fr(g))) for g in G]

def check(G, key, r, dat, n, sysno, jd, site):
    """one obligation set for one call; returns tuples for rep.add"""
    out = []; add = lambda ok, k, d: out.append((G, ok, k, d, site))
    try:
        v, got = orient(r, n, sysno, jd); d = jd + TD.scale(Fr(1, 86400)) - K(J2000)
        o = dat.find(n); add(v.c == (0 if o else -1) if v.c is not None else None, key + (': known' if o else ': not in the file'), 'returns %s' % v)
        if o and v.c == 0:
            for i, (g, w) in enumerate(zip(got, dat.frame(o, sysno, d))):
                ok, why = ident.same(numbers(g), numbers(w), ntol=1e-6 if 'far' in key else 1e-9); add(ok, '%s: %s[%d]' % (key, ('prime meridian', '90 degrees', 'pole')[i // 3], i % 3), '%s; value %s; required %s' % (why, str(g)[:120], str(w)[:120]))
        elif not o:
            bad = [i for i, g in enumerate(got) if 'never' in str(g) or 'undef' in str(g) or not isinstance(g, Poly)]; add(not bad, key + ': determinate values', 'elements %s' % bad)
    except BadAccess as e: add(False, key, 'access outside its object: %s' % e)
    except Aborts as e: add(False, key, str(e))
    except (Imprecise, llir.IRError, ident.NoVal, OverflowError, TypeError, AttributeError, IndexError, ValueError, KeyError) as e: add(None, key, repr(e))
    return out
def run(rep):
    fmt.install(); P = core.units(SRC); PL.EXPAND_TRIG[0] = False
    for n in ('load_cospar_file', 'planet_rotation_rate', 'planet_radii', 'calc_planet_orientation'): FN[n] = core.need(P, n)
    realfile(rep, P); small(rep, P); faults(rep, P); histories(rep, P)
    rep.minimum = 300
def objects(dat, tier):
    ns = list(dict.fromkeys(dat.order)) + sorted({o for n, o in dat.remap}) + [3999, 99, 998, 1000, 5017, -3, 1234567]
    return [n for n in ns if n != 3]
def realfile(rep, P):
    G = 'cospar.txt'; path = os.path.join(core.REPO, 'cospar.txt')
    try: text = open(path, 'rb').read()
    except OSError: raise core.AnalysisBroken('cospar.txt is missing')
    dat = Data(text); site = where(FN['calc_planet_orientation'])
    rep.add(G, not dat.odd, 'only printable ASCII in the data lines: anything else ends the line', '; '.join('line %d: %s' % x for x in dat.odd), 'cospar.txt')
    for n, o in dat.obj.items():
        for k, s in [('a', o.get('a')), ('d', o.get('d'))] + o['W']:
            if s is None: rep.add(G, False, 'object %d has %s0' % (n, k), '', 'cospar.txt:%d' % o['line']); continue
            a = [(t[1], t[2][:2]) for t in s if t[2]]; dup = [x for x in a if a.count(x) > 1]
            rep.add(G, not dup, 'object %d, %s: every term once' % (n, k if k in ('a', 'd') else 'W'), str(dup[:1]), 'cospar.txt:%d' % o['line'])
            mis = [t[2][1] for t in s if t[2] and t[2][1] not in o['args']]
            rep.add(G, not mis, 'object %d, %s: arguments defined' % (n, k if k in ('a', 'd') else 'W'), str(mis), 'cospar.txt:%d' % o['line'])
    r = mkrun(P, {'cospar.txt': text})
    with guard(rep, G, 'loading the file', where(FN['load_cospar_file'])):
        v = r.call(FN['load_cospar_file'], name_arg(r, 'cospar.txt')); rep.note_funcs(r.I)
        rep.add(G, v.c == 0 if v.c is not None else None, 'loading the file', 'returns %s' % v, where(FN['load_cospar_file']))
        rep.add(G, not r.V.open, 'file closed after loading', '; '.join(r.V.leaks()), where(FN['load_cospar_file']))
        base = r.st
        jobs = [(n, sysno, nm, jd) for n in objects(dat, rep.tier) for sysno in ((0, 1, 2, 3) if n in (0, 2, 5, 6, 7, 3001) else (0, 2)) for nm, jd in spans(rep.tier)
                if not (n in (5, 6) and 'past' in nm and sysno) or rep.tier != 'quick']
        def job(j):
            n, sysno, nm, jd = j; r.st = base.copy(); return check(G, 'object %d, system %d, %s' % (n, sysno, nm), r, dat, n, sysno, jd, site)
        for out in core.pmap(job, jobs): 
            for x in out: rep.add(*x)
        ns = objects(dat, rep.tier); j0, j1 = K(Fr('2451544.5')), K(Fr('2460310.25'))
        def pair(i):        # calls one after the other
            n, k = ns[i], ns[i - 1]; r.st = base.copy(); out = []; f, g = FN['planet_rotation_rate'], FN['planet_radii']
            with Collect(out, G, 'objects %d and %d in turn' % (n, k), site):
                orient(r, n, 0, j0); r.call(f, K(n), ZERO)
                for a, b, j in ((n, 2, j0), (k, 2, j0), (k, 2, j1), (k, 3, j1), (n, 3, j1), (n, 3, j1)):
                    out += check(G, 'objects %d and %d in turn: object %d, system %d' % (n, k, a, b), r, dat, a, b, j, site)
                    v = r.call(f, K(a), K(b)); o = dat.find(a); w = dat.rate(dat.W(o, b)) if o else Fr(0)
                    if w is not None: ok, why = ident.same(v, K(w), ntol=1e-12); out.append((G, ok, 'objects %d and %d in turn: rotation rate of %d, system %d' % (n, k, a, b), why, where(f)))
            return out
        for out in core.pmap(pair, range(len(ns))):
            for x in out: rep.add(*x)
        r.st = base.copy(); r.tds.clear(); orient(r, 5, 0, K(Fr('2451544.5'))); rep.note_funcs(r.I)
        rep.add(G, len(r.tds) == 1 and r.tds[0].c == Fr('2451544.5'), 'delta T taken at the instant given', str(r.tds), site)
        rates(rep, G, r, base, dat, objects(dat, rep.tier) + [3])
def rates(rep, G, r, base, dat, ns):
    f, g = FN['planet_rotation_rate'], FN['planet_radii']
    for n in ns:
        o = dat.find(n)
        for sysno in (0, 1, 2, 3):
            key = 'object %d, system %d: rotation rate' % (n, sysno)
            with guard(rep, G, key, where(f)):
                r.st = base.copy(); v = r.call(f, K(n), K(sysno)); w = dat.rate(dat.W(o, sysno)) if o else Fr(0)
                if w is None: continue
                ok, why = ident.same(v, K(w), ntol=1e-12); rep.add(G, ok, key, why, where(f))
        key = 'object %d: radii' % n
        with guard(rep, G, key, where(g)):
            r.st = base.copy(); p = r.arr([None] * 3, name='radii'); v = r.call(g, K(n), p)
            rep.add(G, v.c == (0 if o else -1) if v.c is not None else None, key + ': return value', 'returns %s' % v, where(g))
            w = (o['r'] if o else []) + [Fr(0)] * 3
            for i, x in enumerate(r.get(p, 3)): ok, why = ident.same(x, K(w[i]), ntol=1e-12); rep.add(G, ok, '%s[%d]' % (key, i), why, where(g))
    rep.note_funcs(r.I)
def small(rep, P):
    site = where(FN['calc_planet_orientation'])
    for nm, text in (('small file', SMALL), ('small file, no newline at the end', SMALL.rstrip()), ('file going on after END', AFTER), ('other file', OTHER), ('file with CR LF', SMALL.replace(b'\r', b'').replace(b'\n', b'\r\n'))):
        G = nm; dat = Data(text)
        with guard(rep, G, nm, site):
            r = mkrun(P, {'cospar.txt': text}); v = r.call(FN['load_cospar_file'], name_arg(r, 'cospar.txt')); base = r.st
            rep.add(G, v.c == 0 if v.c is not None else None, 'loading', 'returns %s' % v, site)
            ns = [-2, 2001, 2002, 2003, 12345, 2005, 10, 28, 29, 173, 2004, 11, 7]
            for n in ns:
                for sysno in (0, 1, 2, 3):
                    for sp, jd in spans(rep.tier)[:4 if rep.tier == 'quick' else None]:
                        r.st = base.copy()
                        for x in check(G, 'object %d, system %d, %s' % (n, sysno, sp), r, dat, n, sysno, jd, site): rep.add(*x)
            rates(rep, G, r, base, dat, ns)
def determinate(vs): return [i for i, g in enumerate(vs) if not isinstance(g, Poly) or 'never' in str(g) or 'undef' in str(g)]
def faults(rep, P):
    G = 'failures'; dat = Data(SMALL); jd = K(Fr('2451544.5')); f, g, h = FN['calc_planet_orientation'], FN['planet_rotation_rate'], FN['planet_radii']; ld = FN['load_cospar_file']
    for nm, texts, fault in (('no file', {}, None), ('the file cannot be opened', {'cospar.txt': SMALL}, ('fopen', 1)), ('no memory', {'cospar.txt': SMALL}, ('malloc', 1))):
        for entry in ('orientation', 'rate', 'radii', 'load'):
            key = '%s: %s' % (nm, entry)
            with guard(rep, G, key, where(f)):
                r = mkrun(P, texts, fault); vals = []; bad = lambda: None
                if entry == 'orientation': v, vals = orient(r, 2001, 0, jd); ok = v.c != 0 if v.c is not None else None
                elif entry == 'rate': v = r.call(g, K(2001), ZERO); ok = v.c == 0 if v.c is not None else None; vals = [v]
                elif entry == 'radii': p = r.arr([None] * 3, name='radii'); v = r.call(h, K(2001), p); ok = v.c != 0 if v.c is not None else None; vals = r.get(p, 3)
                else: v = r.call(ld, name_arg(r, 'cospar.txt')); ok = v.c != 0 if v.c is not None else None
                rep.add(G, ok, key + ': reported', 'returns %s' % v, where(f))
                d = determinate(vals); rep.add(G, not d, key + ': determinate values', 'elements %s' % d, where(f))
                rep.add(G, not r.V.open, key + ': nothing left open', '; '.join(r.V.leaks()), where(f))
                if texts:       # the next call finds the file
                    for i, x in enumerate(check(G, key + ', then an orientation', r, dat, 2002, 0, jd, where(f))): rep.add(*x)
                    r.V.fault = None
                    o = r.call(g, K(2001), ZERO); ok, why = ident.same(o, K(Fr('300.25'))); rep.add(G, ok, key + ', then a rate', why, where(g))
                    for x in check(G, key + ', then the same orientation', r, dat, 2001, 0, jd, where(f)): rep.add(*x)
def histories(rep, P):
    G = 'call histories'; A, B = Data(SMALL), Data(OTHER); j0, j1 = K(Fr('2451544.5')), K(Fr('2460310.25')); f, g, h, ld = (FN[x] for x in ('calc_planet_orientation', 'planet_rotation_rate', 'planet_radii', 'load_cospar_file'))
    def files(): return mkrun(P, {'cospar.txt': SMALL, 'other.txt': OTHER})
    def do(r, key, dat, steps):
        for i, s in enumerate(steps):
            k = '%s, step %d %s' % (key, i + 1, s[0])
            with guard(rep, G, k, where(f)):
                if s[0] == 'load':
                    v = r.call(ld, name_arg(r, s[1]) if s[1] else NULL); dat = {'other.txt': B, 'missing.txt': A, None: A}.get(s[1], A)
                    rep.add(G, (v.c != 0) == (s[1] == 'missing.txt') if v.c is not None else None, k, 'returns %s' % v, where(ld))
                elif s[0] == 'rate':
                    o = dat.find(s[1]); v = r.call(g, K(s[1]), K(s[2])); w = dat.rate(dat.W(o, s[2])) if o else Fr(0); ok, why = ident.same(v, K(w), ntol=1e-12); rep.add(G, ok, k + ' %d/%d' % s[1:], why, where(g))
                elif s[0] == 'radii':
                    o = dat.find(s[1]); p = r.arr([None] * 3, name='radii'); v = r.call(h, K(s[1]), p); w = (o['r'] if o else []) + [Fr(0)] * 3
                    rep.add(G, v.c == (0 if o else -1) if v.c is not None else None, k + ': return value', 'returns %s' % v, where(h))
                    for q, x in enumerate(r.get(p, 3)): ok, why = ident.same(x, K(w[q]), ntol=1e-12); rep.add(G, ok, '%s %d[%d]' % (k, s[1], q), why, where(h))
                elif s[1] == 3:
                    nm = len(r.prec); v, got = orient(r, 3, s[2], s[3]); rep.add(G, v.c == 0 if v.c is not None else None, k + ' Earth', 'returns %s' % v, where(f))
                    for q, (a, b) in enumerate(zip(got, EM)): ok, why = ident.same(a, -b if q in (3, 4, 5) else b); rep.add(G, ok, '%s Earth[%d]' % (k, q), why, where(f))
                    if len(r.prec) > nm: ok, why = ident.same(r.prec[-1], K(2000) + (s[3] + TD.scale(Fr(1, 86400)) - K(J2000)).scale(Fr(4, 1461)), ntol=1e-12); rep.add(G, ok, k + ' Earth: epoch', why, where(f))
                else:
                    for x in check(G, '%s %d/%d' % (k, s[1], s[2]), r, dat, s[1], s[2], s[3], where(f)): rep.add(*x)
        lk = r.V.open; rep.add(G, not lk, key + ': nothing left open', str(r.V.leaks()), where(f))
        with guard(rep, G, key, where(ld)): r.call(ld, NULL); rep.add(G, not r.V.heap, key + ': all memory freed on request', '; '.join(r.V.leaks()), where(ld)); rep.note_funcs(r.I)
    O = 'orientation'
    do(files(), 'first call', A, [('radii', 2001), ('radii', 2002), ('radii', 2004)])
    do(files(), 'first call rate', A, [('rate', 2001, 0), ('rate', 2001, 2), ('rate', 2001, 2), ('rate', 2002, 2), ('rate', 2004, 0), ('rate', 2004, 0), ('rate', 2001, 3), ('rate', 2002, 3), ('rate', 3, 0), ('rate', -2, 0)])
    do(files(), 'first call orientation', A, [(O, 2001, 0, j0), (O, 2001, 0, j0), (O, 2001, 2, j0), (O, 2001, 2, j1), (O, 2002, 2, j1), (O, 2004, 2, j1), (O, 2004, 2, j1), (O, 2001, 2, j1), (O, 2001, 0, j1), (O, 3, 0, j1), (O, 3, 0, j1), (O, 2001, 0, j1), (O, 3, 0, j0), (O, 2002, 0, j0), (O, 2002, 0, j0)])
    do(files(), 'Earth first', A, [(O, 3, 0, j0), (O, 3, 0, j0), (O, 3, 0, j1), (O, 2003, 0, j1), (O, 3, 0, j1)])
    do(files(), 'mixed', A, [(O, 2001, 0, j0), ('rate', 2002, 0), ('radii', 2003), (O, 2001, 0, j0), ('rate', 2001, 0), ('radii', 10), (O, 10, 0, j0), (O, 28, 0, j0), (O, 2003, 0, j0)])
    do(files(), 'another file', A, [(O, 2001, 0, j0), ('rate', 2001, 0), ('radii', 2001), ('load', 'other.txt'), (O, 2001, 0, j0), ('rate', 2001, 0), ('radii', 2001), (O, 2002, 0, j0), ('load', None), (O, 2002, 0, j0), (O, 2001, 0, j0), ('rate', 2001, 0), ('radii', 2001)])
    do(files(), 'unloading in between', A, [('load', None), ('load', None), ('radii', 2002), ('load', None), ('rate', 2002, 0), ('load', None), (O, 2002, 0, j1), ('load', None), (O, 2002, 0, j1)])
    do(files(), 'a missing file', A, [('load', 'missing.txt'), (O, 2001, 0, j0), ('load', 'other.txt'), ('load', 'missing.txt'), (O, 2001, 0, j0), ('rate', 2001, 0), ('radii', 2003)])
    do(files(), 'loading first', B, [('load', 'other.txt'), ('radii', 2001), ('rate', 2003, 0), (O, 2003, 0, j0), ('load', 'other.txt'), ('radii', 2003), ('rate', 2003, 0), (O, 2003, 0, j0)])
