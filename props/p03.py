"""P03: TD-UTC, TDB-TDT, TDB-UTC for every instant."""
import core, cal
from core import *
from fractions import Fraction as Fr
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR with instants as interval atoms partitioned at the published change dates; affine results compared with USNO/IERS tables'
RULE = ('td_minus_utc is interpreted with its argument an interval atom over each closed-open span between published changes (and at each boundary instant); '
        'the affine result must equal the published rate/offset within 1e-6 s. Predicted leap seconds: per half year, td_minus_ut is an opaque function and the result '
        'must be 32.184+floor(Delta-T(mid half year)+.5-32.184). tdb_minus_tdt must be the published series term for term.')
def mjd(y, mo=1, d=1):
    s, m = cal.greg(y); return s + sum(m[:mo - 1]) + d - 1 - 2400001
# USNO tai-utc.dat: start, offset, reference MJD, rate
RUBBER = [((1961, 1), '1.4228180', 37300, '0.001296'), ((1961, 8), '1.3728180', 37300, '0.001296'), ((1962, 1), '1.8458580', 37665, '0.0011232'),
 ((1963, 11), '1.9458580', 37665, '0.0011232'), ((1964, 1), '3.2401300', 38761, '0.001296'), ((1964, 4), '3.3401300', 38761, '0.001296'),
 ((1964, 9), '3.4401300', 38761, '0.001296'), ((1965, 1), '3.5401300', 38761, '0.001296'), ((1965, 3), '3.6401300', 38761, '0.001296'),
 ((1965, 7), '3.7401300', 38761, '0.001296'), ((1965, 9), '3.8401300', 38761, '0.001296'), ((1966, 1), '4.3131700', 39126, '0.002592'),
 ((1968, 2), '4.2131700', 39126, '0.002592')]
LEAPS = [(1972, 1), (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7), (1983, 7),
 (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
PRED = mjd(2021, 12)
TT = Fr('32.184')
EPS = Fr(1, 2**30)
TDB = [('1656.6894e-6', '628.30758494', '6.2400497'), ('22.4175e-6', '575.33848843', '4.2969771'), ('13.8399e-6', '1256.61516988', '6.1968995'),
       ('4.7701e-6', '52.96909651', '0.4444038'), ('4.6767e-6', '606.97767539', '4.0211937'), ('2.2566e-6', '21.32990954', '5.5431320')]
TOL = Fr(1, 10**6)

def close(I, s, v, want, tol=TOL):
    """True/False/None: |v-want|<=tol over the whole abstract value"""
    if not isinstance(v, Poly): return None
    d = v - want
    lo, hi = I.rng(d, s)
    if -tol <= lo and hi <= tol: return True
    if lo > tol or hi < -tol: return False
    if all(ATOMS[a].key[0] == 'mjd' for a in d.atoms()): return False     # affine in the instant and not within tolerance
    return None
def tvar(lo, hi):
    return Poly.var(atom(('mjd', lo, hi), lo, hi, False, 'mjd'))

def ut_hook(log):
    def h(I, st, args, ins, m):
        log.append(args[0]); return st, Poly.var(atom(('td_minus_ut', args[0]), -INF, INF))
    return h

def spans(I, f, st0, lo, hi, want, rep, group, tag, depth=0, mask=None):
    """interval [lo,hi): closed-form obligation, bisected while undecided"""
    t = tvar(lo, hi - EPS) if hi > lo else K(lo)
    try:
        I.strict = True
        st = st0()
        r = I.call(f, [t + K(Fr('2400000.5'))], st)
        s, v = r
        ok = close(I, s, I.resolve(v, s), want(t))
        why = 'result %s, published %s' % (v, want(t))
    except Imprecise as e: ok = None; why = repr(e)
    if ok is None and depth < 12 and hi - lo > 1:
        mid = Fr((lo + hi) // 2) if hi - lo >= 2 else (lo + hi) / 2
        spans(I, f, st0, lo, mid, want, rep, group, tag, depth + 1); spans(I, f, st0, mid, hi, want, rep, group, tag, depth + 1)
        return
    if ok is None and I.strict:
        try:
            I.strict = False
            st = st0(); s, v = I.call(f, [t + K(Fr('2400000.5'))], st)
            ok = close(I, s, I.resolve(v, s), want(t)); why = 'result %s, published %s' % (v, want(t))
        except Imprecise as e: why = repr(e)
    rep.add(group, ok, '%s:%s..%s' % (tag, float(lo), float(hi)), why, where(f))

def rubber(rep, I, f):
    b = [mjd(*r[0]) for r in RUBBER] + [mjd(1972)]
    for i, (st, off, ref, rate) in enumerate(RUBBER):
        w = lambda t, off=off, ref=ref, rate=rate: (t - K(ref)).scale(Fr(rate)) + K(Fr(off) + TT)
        for lo, hi in ((b[i], b[i + 1]), (b[i], b[i])):
            spans(I, f, State, Fr(lo), Fr(hi), w, rep, 'rates 1961-1971', 'from %d-%02d' % st)
def leaps(rep, I, f):
    b = [mjd(*r) for r in LEAPS] + [PRED]
    for i, l in enumerate(LEAPS):
        w = lambda t, i=i: K(10 + i + TT)
        for lo, hi in ((b[i], b[i + 1]), (b[i], b[i]), (b[i], b[i] + 1), (b[i + 1] - 1, b[i + 1])):
            spans(I, f, State, Fr(lo), Fr(hi), w, rep, 'leap seconds 1972-2021', 'from %d-%02d' % l)
def FL(I, u): return I.floor(u + K(Fr(1, 2) - TT), State())
def predspan(I, f, lo, hi, mid, rep, tag, depth=0):
    # the argument split into whole day + fraction so integer truncation stays exact
    if hi > lo:
        d = Poly.var(atom(('mjd', lo, hi - 1), lo, hi - 1, True, 'day')) if hi - 1 > lo else K(lo)
        t = d + Poly.var(atom(('frac',), 0, 1 - EPS, False, 'frac'))
    else: t = K(lo)
    und = None
    try:
        I.strict = True
        s, v = I.call(f, [t + K(Fr('2400000.5'))], State())
        U = Poly.var(atom(('td_minus_ut', mid), -INF, INF))
        d = I.resolve(v, s) - K(TT)
        # accept any value equal to floor(U+.5-32.184) up to double rounding of the constants
        fl = [ATOMS[a] for a in d.atoms()]
        ok = False
        if len(fl) == 1 and fl[0].key[0] == 'floor':
            base = d - Poly.var(fl[0])
            e = fl[0].key[1] - U
            tot = e.c + base.c if (e.c is not None and base.c is not None) else None
            if tot is not None and base.isint() is not None:
                ib = round(base.c)
                ok = abs(base.c - ib) < TOL and abs(e.c + ib - (Fr(1, 2) - TT)) < TOL
        rep.items.append(('predicted leap seconds: half-year rule', ok, tag, 'result %s; expected 32.184+floor(DeltaT(%s)+.5-32.184)' % (v, float(mid.c)), where(f)))
        return
    except OpenBranch as e: und = repr(e)
    except Imprecise as e: und = repr(e)
    if hi - lo > 1 and depth < 12:
        h = (lo + hi) // 2
        predspan(I, f, lo, Fr(h), mid, rep, tag, depth + 1); predspan(I, f, Fr(h), hi, mid, rep, tag, depth + 1)
    else: rep.items.append(('predicted leap seconds: half-year rule', None, tag, und, where(f)))
core.Rep.items = None

def run(rep):
    global PROG
    PROG = core.units(['delta_t.cpp', 'eop_prec.cpp', 'spline.cpp'])
    I = Interp(PROG); f = core.need(PROG, 'td_minus_utc')
    rubber(rep, I, f); leaps(rep, I, f)
    ys = range(2021, 3000 if rep.tier == 'quick' else 15000)
    for out, fs in core.pmap(predjob_, ys): rep.merge(out); rep.funcs |= fs
    # before 1961: UT
    for lo, hi in ((-10**7, mjd(1900)), (mjd(1900), mjd(1961)), (mjd(1961) - 1, mjd(1961))):
        log = []; I.hooks['td_minus_ut'] = ut_hook(log)
        t = tvar(Fr(lo), Fr(hi) - EPS) + K(Fr('2400000.5'))
        I.strict = False
        s, v = I.call(f, [t], State())
        w = Poly.var(atom(('td_minus_ut', t), -INF, INF))
        rep.add('UTC = UT before 1961', close(I, s, v, w), '%d..%d' % (lo, hi), 'result %s' % v, where(f))
    # predictions switched off after a date
    cut = mjd(2021); g = None
    for m in PROG.modules:
        if 'mjd_end_of_predictive_leap_seconds' in m.globals: g = (m, 'mjd_end_of_predictive_leap_seconds')
    if g is None: raise AnalysisBroken('mjd_end_of_predictive_leap_seconds not found')
    for lo, hi in ((cut, PRED), (PRED, mjd(2100)), (mjd(2100), mjd(2200))):
        st = State(); o = I.gobj(st, *g); I.store(st, Ptr(o.id, ZERO), K(cut), llir.I32, None, g[0])
        s, v = I.call(f, [tvar(Fr(lo), Fr(hi) - EPS) + K(Fr('2400000.5'))], st)
        rep.add('no predicted leap seconds after the cut-off', close(I, s, v, K(37 + TT)), '%d..%d' % (lo, hi), 'result %s' % v, where(f))
    # TDB-TDT series
    f2 = core.need(PROG, 'tdb_minus_tdt'); I = Interp(PROG)
    t = Poly.var(atom(('T',), -1000, 1000, False, 'T'))
    s, v = I.call(f2, [t], State())
    rep.add('TDB-TDT series', series(v, t), 'six terms', 'result %s' % v, where(f2))
    # TDB-UTC = (TDB-TDT)(same instant) + TD-UTC
    f3 = core.need(PROG, 'tdb_minus_utc')
    jd = Poly.var(atom(('jd',), 0, 10**7, False, 'jd'))
    A = {}
    def h1(I, st, a, ins, m): A['tdb'] = a[0]; return st, Poly.var(atom(('o', 1), -INF, INF))
    def h2(I, st, a, ins, m): A['utc'] = a[0]; return st, Poly.var(atom(('o', 2), -INF, INF))
    I.hooks['tdb_minus_tdt'] = h1; I.hooks['td_minus_utc'] = h2
    s, v = I.call(f3, [jd], State())
    if set(A) == {'tdb', 'utc'}:
        ok = v == Poly.var(atom(('o', 1))) + Poly.var(atom(('o', 2)))
        rep.add('TDB-UTC = (TDB-TDT)+(TD-UTC), in seconds', ok, 'sum', 'result %s' % v, where(f3))
        dd = A['tdb'] - (jd - K(2451545)).scale(Fr(1, 36525)); lo, hi = I.rng(dd, s)
        rep.add('TDB-UTC = (TDB-TDT)+(TD-UTC), in seconds', max(abs(lo), abs(hi)) < Fr(1, 1000), 'argument of TDB-TDT', 'centuries %s' % A['tdb'], where(f3))
        lo, hi = I.rng(A['utc'] - jd, s)
        rep.add('TDB-UTC = (TDB-TDT)+(TD-UTC), in seconds', max(abs(lo), abs(hi)) < Fr(1, 10**6), 'argument of TD-UTC', 'jd %s' % A['utc'], where(f3))
    else:
        I = Interp(PROG)
        for lo, hi in ((mjd(2017), PRED), (mjd(1990), mjd(1991))):
            t = tvar(Fr(lo), Fr(hi) - EPS); s, v = I.call(f3, [t + K(Fr('2400000.5'))], State())
            n = sum(1 for l in LEAPS if mjd(*l) <= lo) + 9
            tc = (t + K(Fr('2400000.5') - 2451545)).scale(Fr(1, 36525))
            rep.add('TDB-UTC = (TDB-TDT)+(TD-UTC), in seconds', series(v - K(n + TT), tc), '%d' % lo, 'result %s' % v, where(f3))
    rep.minimum = 300

def predjob_(y):
    core.Rep.items = None
    r = core.Rep('x', 'x'); r.items = []
    I = Interp(PROG); f = core.need(PROG, 'td_minus_utc')
    log = []; I.hooks['td_minus_ut'] = ut_hook(log)
    for lo, hi in ((mjd(y), mjd(y, 7)), (mjd(y, 7), mjd(y + 1))):
        mid = K(Fr('2400000.5') + Fr(lo + hi, 2))
        lo2 = max(lo, PRED)
        if lo2 >= hi: continue
        for a, b in ((lo2, hi), (lo2, lo2), (hi - 1, hi)): predspan(I, f, Fr(a), Fr(b), mid, r, '%d:%d-%d' % (y, a, b))
    return r.items, I.analysed

def series(v, t):
    """v == sum A sin(w t + p): the cos/sin coefficients of each frequency are extracted from the polynomial and compared"""
    import math
    if not isinstance(v, Poly): return None
    (ta,) = t.atoms(); tc = Fr(t.t[((ta, 1),)])
    t0 = t - Poly.var(ATOMS[ta]).scale(tc)
    got = {}
    def cnum(p):
        r = 0.0
        for m, c in p.t.items():
            x = float(c)
            for a, n in m:
                k = ATOMS[a].key
                if k[0] == 'pi': y = math.pi
                elif k[0] in ('sin', 'cos'):
                    y = cnum(k[1])
                    if y is None: return None
                    y = getattr(math, k[0])(y)
                else: return None
                x *= y ** n
            r += x
        return r
    for m, c in v.t.items():
        x = float(c); w = None; kind = None
        for a, n in m:
            k = ATOMS[a].key
            if k[0] in ('sin', 'cos') and ta in k[1].atoms():
                arg = k[1]
                if n != 1 or kind is not None or set(arg.t) - {((ta, 1),), ()}: return None
                w = Fr(arg.t[((ta, 1),)]) / tc; kind = k[0]
                if arg.t.get((), 0): return None
            else:
                y = cnum(Poly.var(ATOMS[a]))
                if y is None: return None
                x *= y ** n
        if kind is None:
            if abs(x) > 1e-9: return False
            continue
        sg = 1
        if w < 0: w, sg = -w, (-1 if kind == 'sin' else 1)
        g = got.setdefault(round(float(w), 7), [0.0, 0.0]); g[0 if kind == 'sin' else 1] += sg * x
    off = cnum(t0)
    want = {}
    for a, w, p in TDB:
        a, w, p = float(a), float(w), float(p) + float(w) * off / 1.0
        want[round(w, 7)] = (a * math.cos(p), a * math.sin(p))
    for w in set(want) | set(got):
        x, y = want.get(w, (0, 0)), got.get(w, (0, 0))
        if abs(x[0] - y[0]) > 1e-9 or abs(x[1] - y[1]) > 1e-9: return False
    return True
