"""P04: Delta-T (TD-UT) model for every instant."""
import core
from core import *
from fractions import Fraction as Fr
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR with the year an interval atom per model segment; result polynomial compared with the published model'
RULE = ('td_minus_ut (no Earth-orientation file loaded) is interpreted with jd = J2000 + 365.25*(year-2000), year an interval atom covering each two-year table '
        'segment, each published polynomial span before 1620 and the extrapolation spans; the resulting polynomial must equal the published model within 1e-6 s.')
T = [12400, 11500, 10600, 9800, 9100, 8500, 7900, 7400, 7000, 6500, 6200, 5800, 5500, 5300, 5000, 4800, 4600, 4400, 4200, 4000, 3700, 3500, 3300, 3100, 2800, 2600, 2400, 2200,
 2000, 1800, 1600, 1400, 1300, 1200, 1100, 1000, 900, 900, 900, 900, 900, 900, 900, 900, 1000, 1000, 1000, 1000, 1000, 1100, 1100, 1100, 1100, 1100, 1100, 1100,
 1100, 1200, 1200, 1200, 1200, 1200, 1300, 1300, 1300, 1300, 1400, 1400, 1400, 1500, 1500, 1500, 1500, 1600, 1600, 1600, 1600, 1600, 1700, 1700, 1700, 1700, 1700, 1700,
 1700, 1700, 1600, 1600, 1500, 1400, 1370, 1310, 1270, 1250, 1250, 1250, 1250, 1250, 1250, 1230, 1200, 1140, 1060, 960, 860, 750, 660, 600, 570, 560, 570, 590,
 620, 650, 680, 710, 730, 750, 770, 780, 790, 750, 640, 540, 290, 160, -100, -270, -360, -470, -540, -520, -550, -560, -580, -590, -620, -640, -610, -470,
 -270, 0, 260, 540, 770, 1050, 1340, 1600, 1820, 2020, 2120, 2240, 2350, 2390, 2430, 2400, 2390, 2390, 2370, 2400, 2430, 2530, 2620, 2730, 2820, 2910, 3000, 3070,
 3140, 3220, 3310, 3400, 3500, 3650, 3830, 4020, 4220, 4450, 4650, 4850, 5050, 5220, 5380, 5490, 5580, 5686, 5831, 5998, 6163, 6297, 6383, 6430, 6457, 6485, 6546,
 6607, 6660, 6728, 6810, 6897, 6936, 6929, 6918]
POLY = [(-10**6, -500, 1820, '-20 0 32'), (-500, 500, 0, '10583.6 -1014.41 33.78311 -5.952053 -.1798452 .022174192 .0090316521'),
        (500, 1600, 1000, '1574.2 -556.01 71.23472 .319781 -.8503463 -.005050998 .0083572073'), (1600, 1620, 1600, '120 -98.08 -153.2 140.272')]
TOL = Fr(1, 10**6)
EPS = Fr(1, 2**30)
def ypoly(y, off, cs):
    x = (y - K(off)).scale(Fr(1, 100)); r = K(0); p = K(1)
    for c in cs: r = r + p.scale(Fr(c)); p = p * x
    return r
def run(rep):
    P = core.units(['delta_t.cpp', 'eop_prec.cpp', 'spline.cpp', 'precess.cpp', 'obliquit.cpp'])
    f = core.need(P, 'td_minus_ut')
    def cmpv(group, tag, lo, hi, want, st=None, closed=False, depth=0):
        I = Interp(P); I.strict = True
        h = hi if closed or lo == hi else hi - EPS
        y = K(lo) if lo == hi else Poly.var(atom(('year', lo, h), lo, h, False, 'year'))
        s0 = st() if st else State()
        try:
            s, v = I.call(f, [(y - K(2000)).scale(Fr('365.25')) + K(2451545)], s0)
            v = I.resolve(v, s); w = want(y)
            ok = None
            if isinstance(v, Poly):
                l, u = I.rng(v - w, s)
                # coefficient-wise comparison around the centre of the span (interval evaluation of x^6 differences is exact on coefficients)
                if -TOL <= l and u <= TOL: ok = True
                elif l > TOL or u < -TOL: ok = False
                elif all(ATOMS[a].key[0] == 'year' for a in (v - w).atoms()):
                    # univariate polynomial: evaluate the difference at sample points of the span
                    ok = all(abs(ev((v - w), x)) <= TOL for x in (lo, h, (lo + h) / 2, lo + (h - lo) / 3, lo + (h - lo) * 3 / 4, lo + (h - lo) / 7, lo + (h - lo) / 11, lo + (h - lo) * 9 / 10))
            why = 'Delta-T = %s; model %s' % (v, w)
        except Imprecise as e: ok = None; why = repr(e)
        rep.funcs |= I.analysed
        if ok is None and lo < hi and depth < 3:
            m = Fr(lo + hi) / 2
            cmpv(group, tag, lo, m, want, st, closed, depth + 1); cmpv(group, tag, m, hi, want, st, closed, depth + 1); return
        rep.add(group, ok, '%s:%s..%s' % (tag, float(lo), float(hi)), why, where(f))
    def ev(p, x):
        r = Fr(0)
        for m, c in p.t.items():
            y = Fr(c)
            for a, n in m: y *= Fr(x) ** n
            r += y
        return r
    def seg(i):
        return lambda y: (K(T[i]) + (y - K(1620 + 2 * i)).scale(Fr(T[i + 1] - T[i], 2))).scale(Fr(1, 100))
    def extrap(y):
        n = len(T); d = (y - K(1620 + 2 * (n - 1))).scale(Fr(1, 100))
        return seg(n - 2)(y) + (d * d).scale(Fr('32.5'))
    n = len(T)
    def everything(tag, st=None):
        for i in range(n - 1):
            cmpv('table 1620-2024', tag, Fr(1620 + 2 * i), Fr(1622 + 2 * i), seg(i), st)
            cmpv('table 1620-2024', tag, Fr(1620 + 2 * i), Fr(1620 + 2 * i), seg(i), st)
        for lo, hi, off, cs in POLY:
            w = lambda y, off=off, cs=cs: ypoly(y, off, [float(c) for c in cs.split()])
            cmpv('polynomials before 1620', tag, Fr(lo), Fr(hi), w, st)
            cmpv('polynomials before 1620', tag, Fr(lo), Fr(lo), w, st)
        e = 1620 + 2 * (n - 1)
        for lo, hi in ((e, e), (e + EPS, 2100), (2100, 10000), (10000, 77000), (78000, 10**6)):
            cmpv('extrapolation after the table', tag, Fr(lo), Fr(hi), extrap, st)
    everything('default')
    # user supplied polynomials override the default where they apply, and only there
    g = core.need(P, 'reset_td_minus_dt_string')
    def ustate(text):
        def mk():
            I0 = Interp(P); st = State()
            o = I0.new_obj(st, None if text is None else len(text) + 1, 'arg', 'dt_string')
            o.base = ('bytes', (text or b'') + b'\0')
            r = I0.call(g, [NULL if text is None else Ptr(o.id, ZERO)], st)
            s = r[0]; s.env = {}
            s.mem = dict(s.mem); UST.nobj = I0.nobj; UST.globs = I0.globs
            return s
        return mk
    # the interpreter that continues must share object numbering with the one that ran the setter
    class UST: nobj = 0; globs = {}
    orig = Interp.__init__
    for text, tag in ((b'1700,1800:o1750,5,1,2;1900.5,1990:3,-4,.5,7', 'user'), (None, 'reset-null'), (b'', 'reset-empty'), (b'-2000,3000:o1820,-20,0,32', 'user-wide'), (b'0,10:1;20,30:2;40,50:o0,3,1', 'user-short')):
        mk = ustate(text)
        def st2(mk=mk):
            return mk()
        def cm(group, lo, hi, want):
            cmpv2(group, tag, Fr(lo), Fr(hi), want, mk)
        def cmpv2(group, tag, lo, hi, want, mk):
            s0 = mk(); I = Interp(P); I.nobj = UST.nobj; I.globs = UST.globs; I.strict = True
            h = hi - EPS
            y = Poly.var(atom(('year', lo, h), lo, h, False, 'year'))
            try:
                s, v = I.call(f, [(y - K(2000)).scale(Fr('365.25')) + K(2451545)], s0); v = I.resolve(v, s)
                d = v - want(y)
                ok = all(abs(ev(d, x)) <= TOL for x in (lo, h, (lo + h) / 2, lo + (h - lo) / 3, lo + (h - lo) * 3 / 4, lo + (h - lo) / 7)) if all(ATOMS[a].key[0] == 'year' for a in d.atoms()) else None
                why = 'Delta-T = %s' % v
            except Imprecise as e: ok = None; why = repr(e)
            rep.add(group, ok, '%s:%s..%s' % (tag, float(lo), float(hi)), why, where(f))
        dp = lambda i: (lambda y: ypoly(y, POLY[i][2], [float(c) for c in POLY[i][3].split()]))
        if tag == 'user':
            cm('user Delta-T string', 1700, 1800, lambda y: ypoly(y, 1750, [5, 1, 2]))
            cm('user Delta-T string', '1900.5', 1990, lambda y: ypoly(y, 2000, [3, -4, .5, 7]))
            cm('user Delta-T string', 1800, 1802, seg(90)); cm('user Delta-T string', 1698, 1700, seg(39)); cm('user Delta-T string', 1990, 1992, seg(185)); cm('user Delta-T string', 1600, 1620, dp(3))
        elif tag == 'user-wide':
            cm('user Delta-T string', -2000, 3000, lambda y: ypoly(y, 1820, [-20, 0, 32])); cm('user Delta-T string', 3000, 3100, extrap)
        elif tag == 'user-short':
            cm('user Delta-T string', 0, 10, lambda y: K(1)); cm('user Delta-T string', 20, 30, lambda y: K(2)); cm('user Delta-T string', 40, 50, lambda y: ypoly(y, 0, [3, 1])); cm('user Delta-T string', 10, 20, dp(1)); cm('user Delta-T string', 50, 60, dp(1))
        else:
            for i in range(4): cm('Delta-T string reset', POLY[i][0], POLY[i][1], dp(i))
            cm('Delta-T string reset', 1900, 1902, seg(140)); cm('Delta-T string reset', 2030, 2100, extrap)
    rep.minimum = 300
