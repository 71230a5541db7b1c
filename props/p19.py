"""P19: theories evaluated from data files: VSOP (small and full), lunar theory (Meeus ch. 47), ELP-2000/82B, PS-1996; combined planetary positions."""
import core, math, random, ident, struct
from alg import *
from poly import PI_A
import poly as PL
from p18 import angle
from p10 import feasible
from absint import cmp_cond
from vfile import VFiles
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR on data blocks and virtual files whose numbers are symbolic; results compared in normal form with the documented series; every allocation, open and read may fail'
RULE = ('the coefficients of the data are symbols: the result must be the documented Poisson series in them, for every planet and coordinate; terms may be left out only up to the requested precision; '
        'on every failing file operation the documented error is returned, nothing stays open or allocated, and the next call is unaffected.')
PIp = Poly.var(PI_A); k_ = lambda s: K(Fr(s)); TWO_PI = PIp.scale(2)
I8, I16, I32 = llir.I8, llir.Ty('int', 16), llir.I32
SRC = ['vsopson.cpp', 'lunar2.cpp', 'getplane.cpp', 'big_vsop.cpp', 'elp82dat.cpp', 'de_plan.cpp', 'miscell.cpp']

def run(rep):
    P = core.units(SRC)
    PL.EXPAND_TRIG[0] = False
    for fn in (vsop, bigvsop, moon, planet, elp, ps1996): fn(rep, P)
    rep.minimum = 200

class XRun(Run):
    def __init__(self, P): Run.__init__(self, P); self.I.exact = True
CONC = [False]
def sym(nm, i, lo, hi, isint=False):
    if CONC[0]:     # a singleton: one member of the class of all files
        x = random.Random('%s %s' % (nm, i)).uniform(float(lo) * .9 + float(hi) * .1, float(hi) * .9 + float(lo) * .1)
        return K(int(x)) if isint else K(Fr(x))
    return Poly.var(atom(('in', nm, i, lo, hi), lo, hi, isint, '%s%s' % (nm, i)))
def red(x, sign, per):
    x = math.fmod(x, per); return x if x * sign >= 0 else x + sign * per
ident.CUSTOM['reduced'] = red
def unmatched(rep, G, key, v, want, site):
    """the reduction to a full turn was not recognised: only a witness decides"""
    ok, why = ident.same(v, want, mod=2 * math.pi)
    rep.add(G, False if ok is False else None, key, 'one reduction to a full turn expected; ' + why, site)
def put(r, p, off, v, ty): r.I.store(r.st, Ptr(p.obj, p.off + K(off)), v, ty, None, r.m)
def reducer(r, per, sign):
    """fmod by a full turn: a number equal to the argument up to whole turns, of the given sign"""
    r.mods = []
    def fm(I, st, a, ins, m):
        if not PL.is_zero(ident.canon(a[1] - per), Fr(1, 10**9), 1): return st, Poly.var(atom(('fmod', a[0], a[1])))
        hi = per.scale(sign)
        lo_, hi_ = (0, Fr(62831, 10000) if per is TWO_PI else per.c) if sign > 0 else (-(Fr(62831, 10000) if per is TWO_PI else per.c), -Fr(1, 1000))
        y = Poly.var(atom(('reduced', a[0], K(sign), per), lo_, hi_))
        r.mods.append((y, a[0])); return st, y
    r.I.hooks['fmod'] = fm

# ---------------------------------------------------------------- VSOP
ANCH = [(0, 0), (1, 38), (10, 120), (134, 0x93e), (144, 0x97e)]
def index(i):
    for (a, x), (b, y) in zip(ANCH, ANCH[1:]):
        if a <= i <= b: return x + (y - x) * (i - a) // (b - a)
HEAD = [index(i) for i in range(145)]
def vdata(r, planet, value, coef):
    """the data block: header, and the terms of one coordinate of one planet; everything else unset"""
    p = r.arr([], size=60874, name='vsop data')
    for i, x in enumerate(HEAD): put(r, p, 2 * i, K(x), I16)
    put(r, p, 0xea0a, K(ord('q')), I8)
    terms(r, p, coef); return p
def terms(r, p, coef):
    for n, c in coef.items():
        for j in range(3): put(r, p, 290 + 24 * n + 8 * j, c[j], D)
    for n in {x + d for x in coef for d in (-2, -1, 1, 2)} - set(coef):     # the neighbours: other series
        if not 0 <= n < HEAD[144]: continue
        for j, x in enumerate((Fr(n * 16 + 77), Fr(1, 3) + n % 7, Fr(12 + n % 5))): put(r, p, 290 + 24 * n + 8 * j, K(Fr(float(x))), D)
def vrange(planet, value, n):
    k = (planet - 1) * 18 + value * 6 + n; return range(HEAD[k], HEAD[k + 1])
def vcoef(planet, value):
    return {n: (sym('A', n, 1, 9) if n % 3 else sym('A', n, -9, -1), sym('B', n, 0, 7), sym('C', n, 0, 1000)) for k in range(6) for n in vrange(planet, value, k)}
def series(coef, planet, value, t, keep=lambda n, k: True):
    tau = t.scale(Fr(1, 10)); v = ZERO; pw = K(1)
    for k in range(6):
        s = ZERO
        for n in vrange(planet, value, k):
            if keep(n, k): A, B, C = coef[n]; s = s + A * sincos(B + C * tau)[1]
        v = v + s * pw; pw = pw * tau
    return v

def vsop(rep, P):
    f = core.need(P, 'calc_vsop_loc'); G = 'VSOP series (short form)'
    for planet in range(1, 9):
        for value in range(3):
            for sign, conc in (((1, 0), (-1, 0)) if value == 0 else ((1, 0),)) + (((1, 1),) if planet in (1, 6, 8) else ()):
                key = 'planet %d coordinate %d%s%s' % (planet, value, '' if sign > 0 else ' (reduced to a negative angle)', ', given values' if conc else ''); CONC[0] = conc
                with guard(rep, G, key, where(f)):
                    r = XRun(P); reducer(r, TWO_PI, sign); t = S('centuries', Fr(1, 10), 20)
                    co = vcoef(planet, value); p = vdata(r, planet, value, co)
                    v = r.call(f, p, K(planet), K(value), t, ZERO); rep.note_funcs(r.I)
                    want = series(co, planet, value, t).scale(Fr(1, 10**8))
                    if value == 0:
                        if len(r.mods) != 1: unmatched(rep, G, key, v, want, where(f)); continue
                        ok, why = ident.same(r.mods[0][1], want, ntol=1e-12); rep.add(G, ok, key, why, where(f))
                        y = r.mods[0][0]; ok, why = ident.same(v, y if sign > 0 else y + TWO_PI, ntol=1e-12); rep.add(G, ok, key + ': between 0 and 2 pi', why, where(f))
                    else:
                        ok, why = ident.same(v, want, ntol=1e-12); rep.add(G, ok, key, why, where(f))
    CONC[0] = 0
    with guard(rep, G, 'the Sun', where(f)):
        for value in range(3):
            r = XRun(P); v = r.call(f, r.arr([], size=60874, name='vsop data'), ZERO, K(value), S('centuries', -20, 20), ZERO)
            rep.add(G, v.c == 0 if v.c is not None else None, 'the Sun is at the origin, coordinate %d' % value, 'returns %s' % v, where(f))
    # precision: a term of the k-th series may be left out only if |A t^k| is at most the precision
    for tt, planet, value in ((20, 3, 2), (-20, 2, 1), (5, 5, 2), (0, 4, 1), (-3, 6, 2)):
        key = 'precision, t=%d centuries' % tt
        with guard(rep, G, key, where(f)): precision(rep, G, key, P, f, planet, value, tt)
def amplitudes(planet, value, tt, prec):
    """amplitudes on either side of the limit of each power"""
    co = {}; keep = set()
    for k in range(6):
        lim = Fr(prec) / (abs(Fr(tt, 10)) ** k if tt else 1)
        for j, n in enumerate(vrange(planet, value, k)):
            big = j % 2 == 0
            a = lim * (Fr(11, 10) if big else Fr(9, 10)) * (1 if j % 4 < 2 else -1)
            co[n] = (K(Fr(float(a))), sym('B', n, 0, 7), sym('C', n, 0, 1000))
            if big: keep.add(n)
    return co, keep
def precision(rep, G, key, P, f, planet, value, tt):
    for pr in (6, -6):
        r = XRun(P); reducer(r, TWO_PI, 1); co, keep = amplitudes(planet, value, tt, 6); p = vdata(r, planet, value, co)
        v = r.call(f, p, K(planet), K(value), K(tt), K(pr))
        want = series(co, planet, value, K(tt), lambda n, k: n in keep).scale(Fr(1, 10**8))
        ok, why = ident.same(v, want, ntol=1e-12); rep.add(G, ok, '%s, limit %d' % (key, pr), why, where(f))

def bfile(r, planet, coef, size=None):
    p = r.arr([], size=290 + 24 * HEAD[144] if size is None else size, name='big_vsop.bin')
    for i, x in enumerate(HEAD): put(r, p, 2 * i, K(x), I16)
    terms(r, p, coef); return p
def big_want(r, rep, G, key, o, v, coefs, planet, t, site, keep=lambda n, k: True, sign=1):
    rep.add(G, v.c == 0 if v.c is not None else None, key + ': returns 0', 'returns %s' % v, site)
    g = r.get(o, 3)
    for value in range(3):
        want = series(coefs, planet, value, t, keep); got = g[value]
        if value == 0:
            if len(r.mods) != 1: unmatched(rep, G, key, got, want, site); continue
            ok, why = ident.same(got, r.mods[0][0] if sign > 0 else r.mods[0][0] + TWO_PI); rep.add(G, ok, key + ': longitude between 0 and 2 pi', why, site)
            got = r.mods[0][1]
        ok, why = ident.same(got, want, ntol=1e-12); rep.add(G, ok, '%s: coordinate %d' % (key, value), why, site)
def bigvsop(rep, P):
    f = core.need(P, 'calc_big_vsop_loc'); G = 'VSOP series (full form)'; t = S('centuries', Fr(1, 10), 20); site = where(f)
    allc = lambda pl: {n: c for v in range(3) for n, c in vcoef(pl, v).items()}
    for planet in range(1, 9):
        with guard(rep, G, 'planet %d' % planet, site):
            for own, conc in ((0, 0), (1, 0)) + (((0, 1),) if planet in (2, 7) else ()):
                sign = 1 if own or planet % 2 else -1; CONC[0] = conc
                r = XRun(P); reducer(r, TWO_PI, sign); co = allc(planet); V = VFiles(r, {'big_vsop.bin': bfile(r, planet, co)})
                o = r.arr([None] * 3, name='coordinates'); h = NULL if own else V.handle('big_vsop.bin'); keep = {h.obj}
                v = r.call(f, h, K(planet), o, t, ZERO); rep.note_funcs(r.I)
                key = 'planet %d%s%s' % (planet, ', opening the file itself' if own else '', ', given values' if conc else '')
                big_want(r, rep, G, key, o, v, co, planet, t, site, sign=sign)
                lk = V.leaks(keep); rep.add(G, not lk, key + ': no file left open', '; '.join(lk), site)
    CONC[0] = 0
    with guard(rep, G, 'the Sun', site):
        r = XRun(P); V = VFiles(r, {}); o = r.arr([None] * 3, name='coordinates'); v = r.call(f, NULL, ZERO, o, t, ZERO)
        rep.add(G, v.c == 0 and all(x.c == 0 for x in r.get(o, 3)), 'the Sun is at the origin', str((v, r.get(o, 3))), site)
    with guard(rep, G, 'no file', site):
        r = XRun(P); V = VFiles(r, {}); o = r.arr([None] * 3, name='coordinates'); v = r.call(f, NULL, K(3), o, t, ZERO)
        rep.add(G, v.c is not None and v.c < 0, 'a missing file is an error', 'returns %s' % v, site)
    # histories: two and three calls, with or without failures in between
    for tt, planet in ((20, 3), (5, 5), (0, 4)):
        with guard(rep, G, 'precision, t=%d' % tt, site):
            co = {}; kp = set()
            for v in range(3):
                c, k = amplitudes(planet, v, tt, 6); co.update(c); kp |= k
            r = XRun(P); reducer(r, TWO_PI, 1); V = VFiles(r, {'big_vsop.bin': bfile(r, planet, co)}); o = r.arr([None] * 3, name='coordinates')
            v = r.call(f, V.handle('big_vsop.bin'), K(planet), o, K(tt), K(6))
            big_want(r, rep, G, 'precision, t=%d centuries' % tt, o, v, co, planet, K(tt), site, lambda n, k: n in kp)
    for fault, part in ((1, 0), (2, 0), (3, 0), (40, 0), (1, .5), (2, .5), (90, .5)):
        for first, second in ((3, 3), (3, 5), (5, 4)):
            key = 'planet %d, then planet %d with read %d %s, then planet %d' % (first, second, fault, 'partial' if part else 'failing', first)
            with guard(rep, G, key, site):
                r = XRun(P); reducer(r, TWO_PI, 1); co = allc(first); co2 = dict(allc(second)); co2.update(co)
                V = VFiles(r, {'big_vsop.bin': bfile(r, first, co2)}); o = r.arr([None] * 3, name='coordinates')
                v = r.call(f, NULL, K(first), o, t, ZERO)
                big_want(r, rep, G, key + ' (1st)', o, v, co, first, t, site)
                V.fault = ('fread', V.count['fread'] + fault); V.part = part; r.mods.clear()
                v = r.call(f, NULL, K(second), o, t, ZERO)
                rep.add(G, v.c is not None and v.c < 0, key + ': the failure is reported', 'returns %s' % v, site)
                lk = V.leaks(); rep.add(G, not lk, key + ': no file left open', '; '.join(lk), site)
                V.open.clear(); V.fault = None; r.mods.clear()
                v = r.call(f, NULL, K(first), o, t, ZERO)
                big_want(r, rep, G, key + ' (3rd)', o, v, co, first, t, site)

# ---------------------------------------------------------------- the Moon, Meeus ch. 47
LON, LAT, FUND = 59354, 59354 + 720, 59354 + 1200
MULT = [(0, 0, 1, 0), (2, 0, -1, 0), (2, 0, 0, 0), (0, 0, 2, 0), (0, 1, 0, 0), (0, 0, 0, 2), (2, 0, -2, 0), (2, -1, -1, 0), (2, 0, 1, 0), (2, -1, 0, 0), (0, 1, -1, 0), (1, 0, 0, 0), (0, 1, 1, 0), (2, 0, 0, -2), (0, 0, 1, 2),
        (4, 0, -1, 0), (0, 0, 3, 0), (4, 0, -2, 0), (2, 1, -1, 0), (2, -2, 0, 0), (2, -2, -1, 0), (1, 1, 0, 0), (2, 2, 0, 0), (0, -2, 3, -2), (3, 1, -2, 2)]
LMULT = [(0, 0, 0, 1)] + [(d, m, mp, f + 1 if i % 2 else f - 1) for i, (d, m, mp, f) in enumerate(MULT[1:])]
def moon_data(r, lon=None, lat=None, fund=None):
    p = r.arr([], size=60874, name='vsop data')
    for i, x in enumerate(HEAD): put(r, p, 2 * i, K(x), I16)
    for i, (mul, a) in enumerate(lon or []):
        for j in range(4): put(r, p, LON + 12 * i + j, K(mul[j]), I8)
        put(r, p, LON + 12 * i + 4, a[0], I32); put(r, p, LON + 12 * i + 8, a[1], I32)
    for i, (mul, a) in enumerate(lat or []):
        for j in range(4): put(r, p, LAT + 8 * i + j, K(mul[j]), I8)
        put(r, p, LAT + 8 * i + 4, a, I32)
    for i, v in enumerate(fund or []): put(r, p, FUND + 8 * i, v, D)
    return p
def moon(rep, P):
    F1, F2, F3 = core.need(P, 'lunar_fundamentals'), core.need(P, 'lunar_lon_and_dist'), core.need(P, 'lunar_lat')
    G = 'lunar theory (Meeus ch. 47)'; R = PIp.scale(Fr(1, 180)); t = S('centuries', -30, 30)
    names = ["L'", 'D', 'M', "M'", 'F', 'A1', 'A2', 'A3']
    for sign in (1, -1):
        with guard(rep, G, 'fundamental arguments', where(F1)):
            r = XRun(P); reducer(r, K(360), sign)
            co = [sym('q', i, -10**6, 10**6) for i in range(25)]
            co[0] = K(Fr(struct.unpack('<d', struct.pack('<II', 0x6ed5a0b1, struct.unpack('<II', struct.pack('<d', 218.3164591))[1]))[0]))
            p = moon_data(r, fund=co); o = r.arr([None] * 9, name='fundamental arguments')
            v = r.call(F1, p, t, o); rep.note_funcs(r.I); g = r.get(o, 9)
            T2 = t * t
            want = [sum((co[5 * i + j] * (t ** j if j else K(1)) for j in range(5)), ZERO) for i in range(5)] + \
                   [k_(a) + t.scale(Fr(b)) for a, b in (('119.75', '131.849'), ('53.09', '479264.290'), ('313.45', '481266.484'))]
            if len(r.mods) != 8: rep.add(G, None, 'fundamental arguments', 'eight reductions expected, %d found' % len(r.mods), where(F1))
            else:
                for nm, x, (y, a), w in zip(names, g, r.mods, want):
                    ok, why = ident.same(a, w, ntol=1e-12); rep.add(G, ok, 'argument %s' % nm, why, where(F1))
                    ok, why = ident.same(x, (y if sign > 0 else y + K(360)) * R, ntol=1e-12); rep.add(G, ok, 'argument %s in radians, between 0 and 2 pi (%d)' % (nm, sign), why, where(F1))
            rep.add(G, g[8] == t, 'the ninth value is the time', str(g[8]), where(F1))
    ang = [sym('arg', i, Fr(1, 10), Fr(62, 10)) for i in range(8)]; T_ = S('T', -30, 30); E = K(1) - T_.scale(Fr('.002516')) - (T_ * T_).scale(Fr('.0000074'))
    Lp, Dd, M, Mp, F, A1, A2, A3 = ang
    pad = lambda rows: rows + [(rows[1][0], None)] * (60 - len(rows))
    def argm(mul): return Dd.scale(mul[0]) + M.scale(mul[1]) + Mp.scale(mul[2]) + F.scale(mul[3])
    def Ep(mul):
        e = K(1)
        for _ in range(abs(mul[1])): e = e * E
        return e
    def rows(lohi, muls):
        out = []
        for i in range(60):
            s = 1 if i % 3 else -1
            out.append((muls[i] if i < len(muls) else muls[1 + i % (len(muls) - 1)], s))
        return out
    def amp(nm, i, s, lo, hi): return sym(nm, i, *((lo, hi) if s > 0 else (-hi, -lo)), isint=True)
    si = lambda x: sincos(x)[0]
    # longitude and distance
    def one(key, prec, small, zero, swing=0):
        with guard(rep, G, key, where(F2)):
            data = []
            for i, (mul, s) in enumerate(rows(None, MULT)):
                a, b = amp('SL', i, s, small + 1, small + 3000), amp('SR', i, -s, small + 1, small + 3000)
                if zero and i % 4 == 1: a = ZERO
                if zero and i % 4 == 2: b = ZERO
                if not i and swing: a = amp('SL swing', i, swing, 150000000, 200000000)
                data.append((mul, (a, b)))
            n = 0
            def body(r):
                r.I.exact = True
                fund = r.arr(ang + [T_], name='fundamental arguments'); r.o1 = r.arr([None], name='longitude'); r.o2 = r.arr([None], name='distance')
                return r.call(F2, moon_data(r, lon=data), fund, r.o1, r.o2, K(prec))
            add = si(A1).scale(3958) + si(Lp - F).scale(1962) + si(A2).scale(318) if prec < 3958 else ZERO
            wl = Lp.scale(180) * ident_inv_pi()
            sl = sum((a * si(argm(mul)) * Ep(mul) for mul, (a, b) in data), ZERO) + add
            sr = sum((b * sincos(argm(mul))[1] * Ep(mul) for mul, (a, b) in data), ZERO)
            for r, conds, v in paths(P, body):
                n += 1; rep.note_funcs(r.I)
                ok, why = ident.same(r.get1(r.o2, D), k_('385000.56') + sr.scale(Fr(1, 1000)), ntol=1e-12); rep.add(G, ok, '%s: distance, branch %d' % (key, n), why, where(F2))
                got = r.get1(r.o1, D); neg = lambda p: any(c.op in ('le', 'lt') and PL.is_zero(c.p - p, Fr(1, 10**9), 1) for c in conds)
                lo, hi = r.I.rng(got, r.st); ok = (lo >= 0 or neg(-got)) and (hi <= 360 or neg(got - K(360)))
                bad = not ok and (feasible(list(conds) + [cmp_cond('lt', got + K(Fr(1, 100)))]) or feasible(list(conds) + [cmp_cond('lt', K(360 + Fr(1, 100)) - got)]))
                rep.add(G, ok or (False if bad else None), '%s: longitude from 0 to 360, branch %d' % (key, n), 'on this path from %s to %s' % (lo, hi), where(F2))
                w = wl + sl.scale(Fr(1, 10**6))
                d = ident.canon(got - w); d = d - K(round(d.t.get((), 0) / 360) * 360)
                if PL.is_zero(d, Fr(1, 10**9), 1): rep.add(G, True, '%s: longitude, branch %d' % (key, n), 'equal up to whole turns', where(F2))
                else: ok, why = ident.same(got, w, mod=360); rep.add(G, ok, '%s: longitude, branch %d' % (key, n), why, where(F2))
    one('longitude, all terms', 0, 0, True)
    one('longitude, large positive sum', 0, 0, True, 1); one('longitude, large negative sum', 0, 0, True, -1)
    one('longitude, precision 3957', 3957, 3957, False)
    one('longitude, precision 5000', 5000, 5000, False)
    with guard(rep, G, 'terms left out', where(F2)):
        data = []; keep = []
        for i, (mul, s) in enumerate(rows(None, MULT)):
            a, b = [(5001, 7), (-5001, 5000), (4999, 5001), (0, -5001), (5000, -5000), (-300, 4999), (0, 0)][i % 7]; keep.append(max(abs(a), abs(b)) > 5000)
            data.append((mul, (K(a), K(b))))
        def body(r):
            r.I.exact = True
            fund = r.arr([K(Fr(1, 1))] + ang[1:] + [T_], name='fundamental arguments'); r.o1 = r.arr([None], name='longitude'); r.o2 = r.arr([None], name='distance')
            return r.call(F2, moon_data(r, lon=data), fund, r.o1, r.o2, K(5000))
        for r, conds, v in paths(P, body):
            sr = sum((b * sincos(argm(mul))[1] * Ep(mul) for (mul, (a, b)), k in zip(data, keep) if k), ZERO)
            sl = sum((a * si(argm(mul)) * Ep(mul) for (mul, (a, b)), k in zip(data, keep) if k), ZERO)
            ok, why = ident.same(r.get1(r.o2, D), k_('385000.56') + sr.scale(Fr(1, 1000)), ntol=1e-12); rep.add(G, ok, 'terms of distance kept at precision 5000', why, where(F2))
            ok, why = ident.same(r.get1(r.o1, D), ident_inv_pi().scale(180) + sl.scale(Fr(1, 10**6)), ntol=1e-12); rep.add(G, ok, 'terms of longitude kept at precision 5000', why, where(F2))
    # latitude
    for key, prec, small in (('latitude, all terms', 0, 0), ('latitude, precision 2234', 2234, 2234), ('latitude, precision 4000', 4000, 4000)):
        with guard(rep, G, key, where(F3)):
            data = [(mul, amp('SB', i, s, small + 1, small + 3000)) for i, (mul, s) in enumerate(rows(None, LMULT))]
            r = XRun(P); v = r.call(F3, moon_data(r, lat=data), r.arr(ang + [T_], name='fundamental arguments'), K(prec)); rep.note_funcs(r.I)
            add = si(Lp).scale(-2235) + si(A3).scale(382) + si(A1 - F).scale(175) + si(A1 + F).scale(175) + si(Lp - Mp).scale(127) - si(Lp + Mp).scale(115) if prec < 2235 else ZERO
            want = (sum((a * si(argm(mul)) * Ep(mul) for mul, a in data), ZERO) + add).scale(Fr(1, 10**6))
            ok, why = ident.same(v, want, ntol=1e-12); rep.add(G, ok, key, why, where(F3))
    with guard(rep, G, 'terms of latitude left out', where(F3)):
        data = [(mul, K((5001 if i % 3 else 5000) * (1 if i % 2 else -1))) for i, (mul, s) in enumerate(rows(None, LMULT))]
        r = XRun(P); v = r.call(F3, moon_data(r, lat=data), r.arr(ang + [T_], name='fundamental arguments'), K(5000))
        want = sum((a * si(argm(mul)) * Ep(mul) for i, (mul, a) in enumerate(data) if i % 3), ZERO).scale(Fr(1, 10**6))
        ok, why = ident.same(v, want, ntol=1e-12); rep.add(G, ok, 'terms of latitude kept at precision 5000', why, where(F3))
def ident_inv_pi(): return Poly({((PI_A.id if hasattr(PI_A, 'id') else PI_A, -1),): Fr(1)})

# ---------------------------------------------------------------- combined planetary positions
def planet(rep, P):
    f = core.need(P, 'compute_planet'); G = 'positions in five frames'; t = S('centuries', -30, 30); R = PIp.scale(Fr(1, 180)); site = where(f)
    MAT = V('precession', 9, -1, 1); OBL = S('obliquity', Fr(3, 10), Fr(1, 2))
    for pl in list(range(0, 9)) + [10]:
        with guard(rep, G, 'planet %d' % pl, site):
            r = XRun(P); rec = dict(prec=[], obl=[], vsop=[], fund=[], lon=[], lat=[]); o = r.arr([None] * 15, name='positions')
            data = r.arr([], size=60874, name='vsop data')
            c3 = [S('coord%d' % i, Fr(-3, 2) if i == 1 else Fr(1, 10), Fr(3, 2) if i == 1 else 6) for i in range(3)]
            def loc(I, st, a, ins, m):
                rec['vsop'].append((a[0] == data, a[1].c, a[2].c, a[3], a[4])); return st, c3[int(a[2].c)]
            def sp(I, st, a, ins, m):
                rec['prec'].append((a[1], a[2]))
                for i in range(9): I.store(st, Ptr(a[0].obj, a[0].off + K(8 * i)), MAT[i], D, None, m)
                return st, ZERO
            def mo(I, st, a, ins, m): rec['obl'].append(a[0]); return st, OBL
            def pv(I, st, a, ins, m):
                x = [I.load(st, Ptr(a[1].obj, a[1].off + K(8 * i)), D, None, m) for i in range(3)]; M = [I.load(st, Ptr(a[0].obj, a[0].off + K(8 * i)), D, None, m) for i in range(9)]
                for i, y in enumerate(mv(M, x)): I.store(st, Ptr(a[2].obj, a[2].off + K(8 * i)), y, D, None, m)
                return st, ZERO
            fu = V('fund', 9)
            def lf(I, st, a, ins, m):
                rec['fund'].append((a[0] == data, a[1]))
                for i in range(9): I.store(st, Ptr(a[2].obj, a[2].off + K(8 * i)), fu[i], D, None, m)
                return st, ZERO
            def isf(I, st, p, m): return [I.load(st, Ptr(p.obj, p.off + K(8 * i)), D, None, m) for i in range(9)] == fu
            def ll(I, st, a, ins, m):
                rec['lon'].append((a[0] == data, isf(I, st, a[1], m), a[4].c))
                I.store(st, a[2], c3[0], D, None, m); I.store(st, a[3], c3[2], D, None, m); return st, ZERO
            def lb(I, st, a, ins, m): rec['lat'].append((a[0] == data, isf(I, st, a[1], m), a[2].c)); return st, c3[1]
            r.I.hooks.update(calc_vsop_loc=loc, setup_precession=sp, mean_obliquity=mo, precess_vector=pv, lunar_fundamentals=lf, lunar_lon_and_dist=ll, lunar_lat=lb)
            v = r.call(f, data, K(pl), t, o); rep.note_funcs(r.I); nm = 'planet %d' % pl if pl != 10 else 'Moon'
            lon, lat, rad = c3
            if pl == 10:
                lon, lat, rad = lon * R, lat * R, rad.scale(1 / Fr('149597870.7'))
                rep.add(G, rec['fund'] == [(True, t)] and rec['lon'] == [(True, True, 0)] and rec['lat'] == [(True, True, 0)] and not rec['vsop'], nm + ': full lunar theory', str({k: rec[k] for k in ('fund', 'lon', 'lat')})[:200], site)
            else:
                w = {(True, pl, i) for i in range(3)}
                rep.add(G, {x[:3] for x in rec['vsop']} == w and all(x[3] == t and x[4].c == 0 for x in rec['vsop']), nm + ': full planetary theory', str(rec['vsop'])[:200], site)
            g = r.get(o, 15)
            eqv(rep, G, nm + ': spherical', g[:3], [lon, lat, rad], site, ntol=1e-9)
            (sl, cl), (sb, cb) = sincos(lon), sincos(lat); e = [cl * cb * rad, sl * cb * rad, sb * rad]
            eqv(rep, G, nm + ': ecliptic of date', g[3:6], e, site, ntol=1e-9)
            q = mv(Rx(OBL), e); eqv(rep, G, nm + ': equator of date', g[6:9], q, site, ntol=1e-9)
            j = mv(MAT, q); eqv(rep, G, nm + ': equator J2000', g[9:12], j, site, ntol=1e-9)
            eqv(rep, G, nm + ': ecliptic J2000', g[12:15], mv(Rx(K(-Fr(math.radians(23.4392911)))), j), site, ntol=1e-9)
            eqv(rep, G, nm + ': epochs of the precession', [x for y in rec['prec'] for x in y], [K(2000) + t.scale(100), K(2000)], site)
            eqv(rep, G, nm + ': obliquity of date', rec['obl'], [t], site)

# ---------------------------------------------------------------- ELP-2000/82B
KIND = [0, 1, 1, 3, 3, 5, 5, 7, 7, 7, 7, 7]         # record layout of the twelve groups of three series
FIELDS = {0: ['D', "l'", 'l', 'F'], 1: ['d', "m'", 'm', 'f', 'zeta'], 7: ['d', "m'", 'm', 'f'],
          3: ['Me', 'V', 'T', 'Ma', 'J', 'S', 'U', 'N', 'd', 'm', 'f'], 5: ['Me', 'V', 'T', 'Ma', 'J', 'S', 'U', 'd', "m'", 'm', 'f']}
def arcsec(d, m=0, s='0'): return float(Fr(d) + Fr(m, 60) + Fr(s) / 3600)
def elp_series(i, n=None, lim=None):
    """terms of series i: (amplitude, phase, multipliers)"""
    kind = KIND[i // 3]; nf = len(FIELDS[kind]); out = []
    for j in range(nf + 2 if n is None else n):
        mul = [0] * nf
        mul[j % nf] = (1, -1, 2, -3, 7)[(i + j) % 5]
        if j >= nf: mul[(j + 1 + i) % nf] = -2; mul[(j + 2) % nf] = 1
        neg = (i + j) % 3 == 0
        out.append((sym('amp', (i, j), -9000000, -1, True) if neg else sym('amp', (i, j), 1, 9000000, True), sym('phase', (i, j), -36000000, 36000000, True) if kind else ZERO, mul))
    return out
def elp_file(r, ser, order=None, cut=0):
    kind = lambda i: KIND[i // 3]; rec = lambda i: (8 if kind(i) == 0 else 8 + len(FIELDS[kind(i)]))
    order = order or list(range(36)); pos = 608; offs = {}
    for i in order: offs[i] = pos; pos += rec(i) * len(ser.get(i, ()))
    p = r.arr([], size=pos - cut, name='elp82.dat')
    for i in range(37):
        put(r, p, 8 * i, K(offs.get(i, pos)), I32); put(r, p, 8 * i + 4, K(len(ser.get(i, ()))), I32)
    co = [sym('poly', i, -10**6, 10**6) for i in range(39)]
    for i, c in enumerate(co): put(r, p, 296 + 8 * i, c, D)
    for i in order:
        for j, (a, ph, mul) in enumerate(ser.get(i, ())):
            o = offs[i] + j * rec(i)
            if o + rec(i) > pos - cut: break
            put(r, p, o, a, I32); b = 4
            if kind(i): put(r, p, o + 4, ph, I32); b = 8
            for q, x in enumerate(mul): put(r, p, o + b + q, K(x), I8)
    return p, co
def elp_args(r, co, t, sign):
    """the fundamental arguments, as the function reduced them"""
    rad = math.pi / 180
    W1, W2, W3, T_, OH = [(arcsec(*a) * rad, b / 3600 * rad) for a, b in (((218, 18, '59.95571'), 1732559343.73604), ((83, 21, '11.67475'), 14643420.2632), ((125, 2, '40.39816'), -6967919.3622), ((100, 27, '59.22059'), 129597742.2758), ((102, 56, '14.42753'), 1161.2283))]
    lin = lambda a, b: K(Fr(a)) + t.scale(Fr(b))
    q = [sum((co[5 * i + j] * (t ** j if j else K(1)) for j in range(5)), ZERO) for i in range(5)]
    pi = K(Fr(math.pi))
    A = {'W1': q[0], 'D': q[0] - q[3] + pi, "l'": q[3] - q[4], 'l': q[0] - q[1], 'F': q[0] - q[2]}
    for i, nm in enumerate(['Me', 'V', 'Ma', 'J', 'S', 'U', 'N']): A[nm] = co[25 + i] + t * co[32 + i]
    A['zeta'] = lin(W1[0], W1[1] + 5029.0966 / 3600 * rad)
    A['d'] = lin(W1[0] - T_[0] + math.pi, W1[1] - T_[1]); A["m'"] = lin(T_[0] - OH[0], T_[1] - OH[1]); A['m'] = lin(W1[0] - W2[0], W1[1] - W2[1]); A['f'] = lin(W1[0] - W3[0], W1[1] - W3[1]); A['T'] = lin(*T_)
    out = {}
    for nm, w in A.items():
        for y, a in r.mods:
            if PL.is_zero(ident.canon(a - w), Fr(1, 10**9), 1): out[nm] = y if sign > 0 else y + TWO_PI; break
        else: out[nm] = w       # not among those reduced: only a witness decides
    return out
def elp_uvr(ser, arg, t, keep=lambda i, j: True):
    u = arg['W1'] + sincos(arg['l'])[0].scale(Fr('22639.58578') * Fr(math.pi / 180 / 3600)); v = ZERO; rr = k_('385000.52719')
    for i in range(36):
        s = ZERO
        for j, (a, ph, mul) in enumerate(ser.get(i, ())):
            if not keep(i, j): continue
            x = sum((arg[nm].scale(m) for nm, m in zip(FIELDS[KIND[i // 3]], mul) if m), ZERO) + ph.scale(Fr(math.pi / 180 / 100000))
            s = s + a * sincos(x)[1 if i == 2 else 0]
        s = s.scale(Fr(1, 10**5)) * (t if i // 3 in (2, 4, 6, 8) else t * t if i // 3 == 11 else K(1))
        if i % 3 == 2: rr = rr + s
        elif i % 3 == 1: v = v + s.scale(Fr(math.pi / 180 / 3600))
        else: u = u + s.scale(Fr(math.pi / 180 / 3600))
    return u, v, rr
def elp_xyz(u, v, rr, t):
    (su, cu), (sv, cv) = sincos(u), sincos(v); x = [rr * cu * cv, rr * su * cv, rr * sv]
    p = q = ZERO
    for n, (a, b) in enumerate((('0.10180391e-4', '-0.113469002e-3'), ('0.47020439e-6', '0.12372674e-6'), ('-0.5417367e-9', '0.1265417e-8'), ('-0.2507948e-11', '-0.1371808e-11'), ('0.463486e-14', '-0.320334e-14')), 1):
        p = p + (t ** n).scale(Fr(a)); q = q + (t ** n).scale(Fr(b))
    rt = sqrt_(K(1) - p * p - q * q).scale(2)
    M = [K(1) - (p * p).scale(2), (p * q).scale(2), p * rt, (p * q).scale(2), K(1) - (q * q).scale(2), -(q * rt), -(p * rt), q * rt, K(1) - (p * p).scale(2) - (q * q).scale(2)]
    return mv(M, x) + [rr]
def elp(rep, P):
    f = core.need(P, 'compute_elp_xyz'); G = 'ELP-2000/82B'; site = where(f)
    def offset(t): x = t.scale(100) + K(45); return t + (x * x).scale(-Fr('.000091') * (26 - Fr('23.8946')) / (86400 * 36525))
    def one(key, ser, sign=1, own=False, prec=ZERO, t=None, keep=lambda i, j: True, order=None, offs=0):
        with guard(rep, G, key, site):
            t = S('centuries', -30, 30) if t is None else t
            r = XRun(P); reducer(r, TWO_PI, sign); fp, co = elp_file(r, ser, order); V = VFiles(r, {'elp82.dat': fp}); o = r.arr([None] * 4, name='position')
            h = NULL if own else V.handle('elp82.dat')
            if not own: V.open[h.obj][1] = offs
            v = r.call(f, h, t, prec, o); rep.note_funcs(r.I)
            rep.add(G, v.c == 0 if v.c is not None else None, key + ': returns 0', 'returns %s' % v, site)
            lk = V.leaks({h.obj}); rep.add(G, not lk, key + ': nothing left open or allocated', '; '.join(lk), site)
            g = r.get(o, 4); tt = offset(t); arg = elp_args(r, co, tt, sign); u, w, rr = elp_uvr(ser, arg, tt, keep)
            ok, why = ident.same(g[3], rr, ntol=1e-11); rep.add(G, ok, key + ': distance', why, site)
            if ok: eqv(rep, G, key + ': position', g[:3], elp_xyz(u, w, rr, tt)[:3], site, ntol=1e-9)
            else: eqv(rep, G, key + ': position', g[:3], elp_xyz(u, w, g[3], tt)[:3], site, ntol=1e-9)
    one('no periodic terms', {})
    one('no periodic terms, negative angles', {}, sign=-1, own=True)
    for i in range(36): one('series %d' % (i + 1), {i: elp_series(i)}, own=i % 2, sign=1 if i % 3 else -1)
    one('all series together', {i: elp_series(i, 3) for i in range(36)}, t=K(Fr(-13, 4)), offs=77)
    # more terms than fit into the buffer, at the end of the file
    one('1251 terms', {0: elp_series(0, 1251)}, t=K(Fr(3, 2)), order=[i for i in range(36) if i] + [0])
    if rep.tier == 'thorough': one('527 terms', {11: elp_series(11, 527), 12: elp_series(12, 700)}, t=K(Fr(3, 2)), order=[i for i in range(36) if i not in (11, 12)] + [12, 11])
    # precision: a series ends at the first term below the precision
    for i in (0, 1, 2, 5, 9, 14, 34):
        asec = Fr(1, 2); pr = Fr(float(asec) * math.pi / 180 / 3600)
        lim = float(pr) * (384747980.674 / 1000 if i % 3 == 2 else 180 * 3600 / math.pi) * 1e5
        ser = elp_series(i); ser = [(K(int(lim * q)), ph, mul) for q, (a, ph, mul) in zip((3, -2, 1.01, -1.01, -.99, .5, -.3, .2, .1, .1, .1, .1, .1), ser)]
        one('precision, series %d' % (i + 1), {i: ser}, prec=K(pr), keep=lambda i_, j: j < 4, own=True)
    # failures
    ser = {0: elp_series(0, 5), 4: elp_series(4, 2), 35: elp_series(35, 3)}
    for fault in [('fopen', 1), ('malloc', 1), ('malloc', 2), ('malloc', 4), ('fread', 1), ('fread', 2), ('fread', 3), ('fread', 4)]:
        for own in (1, 0):
            if fault[0] == 'fopen' and not own: continue
            for part in (0, .5):
                if part and fault[0] != 'fread': continue
                key = 'the %s call number %d %s%s' % (fault + ('gives a part only' if part else 'fails', ', opening the file itself' if own else ''))
                with guard(rep, G, key, site):
                    r = XRun(P); reducer(r, TWO_PI, 1); fp, co = elp_file(r, ser); V = VFiles(r, {'elp82.dat': fp}, fault); V.part = part; o = r.arr([None] * 4, name='position')
                    h = NULL if own else V.handle('elp82.dat'); v = r.call(f, h, S('centuries', -30, 30), ZERO, o)
                    rep.add(G, v.c != 0 if v.c is not None else None, key + ': reported', 'returns %s' % v, site)
                    lk = V.leaks({h.obj}); rep.add(G, not lk, key + ': nothing left open or allocated', '; '.join(lk), site)

# ---------------------------------------------------------------- PS-1996
def ps_file(r, nf, nblocks, flags, planet):
    """header, frequencies, block sizes, blocks; flags[b][i]: six storage classes of the i-th set in block b"""
    total = sum(nf); start = 40 + 4 * planet; p = r.arr([], size=100000, name='ps_1996.dat')
    for i in range(10): put(r, p, 4 * i, K(start if i == planet - 1 else 90000), I32)
    o = start
    put(r, p, o, K(2415000), D); put(r, p, o + 8, K(800), D)
    for i in range(3): put(r, p, o + 16 + 2 * i, K(nf[i]), I16)
    put(r, p, o + 22, K(nblocks), I16); put(r, p, o + 24, K(total), I16); o += 26
    fq = [sym('fq', i, Fr(1, 10), 3) for i in range(total)]
    for x in fq: put(r, p, o, x, D); o += 8
    szs = [96 + sum(2 + sum((1, 2, 4, 8)[c] for c in row) for row in flags[b]) for b in range(nblocks)]
    for x in szs: put(r, p, o, K(x), I16); o += 2
    blocks = []
    for b in range(nblocks):
        sec = [sym('sec%d' % b, i, -10**9, 10**9) for i in range(12)]; terms = []; o0 = o
        for x in sec: put(r, p, o, x, D); o += 8
        for i, row in enumerate(flags[b]):
            fl = sum(c << 2 * j for j, c in enumerate(row)); put(r, p, o, K(fl if fl < 32768 else fl - 65536), I16); o += 2
            for j, c in enumerate(row):
                x = sym('term%d' % b, (i, j, c), *((-128, 127, True), (-32768, 32767, True), (-2**31, 2**31 - 1, True), (-10**12, 10**12))[c])
                put(r, p, o, x, (I8, I16, I32, D)[c]); o += (1, 2, 4, 8)[c]; terms.append(x)
        assert o - o0 == szs[b]; blocks.append((sec, terms))
    r.st.mem[p.obj].size = o
    return p, fq, blocks
def ps1996(rep, P):
    f, g_, u_ = core.need(P, 'load_ps1996_series'), core.need(P, 'get_ps1996_position'), core.need(P, 'unload_ps1996_series'); G = 'PS-1996'; site = where(g_)
    import itertools
    allf = [tuple((a + j * s) % 4 for j in range(6)) for a in range(4) for s in range(4)]
    for nf, block, planet, own, conc in (((2, 1, 1), 0, 1, 0, 0), ((2, 1, 1), 1, 6, 0, 1), ((1, 2, 3), 1, 4, 1, 0), ((3, 0, 2), 2, 9, 0, 0), ((0, 0, 0), 1, 5, 1, 0), ((5, 5, 6), 2, 2, 1, 0)):
        CONC[0] = conc; key = '%d+%d+%d terms, block %d, planet %d%s' % (nf + (block, planet, ', given values' if conc else ''))
        with guard(rep, G, key, where(f)):
            r = XRun(P); tot = sum(nf); flags = [[allf[(i + 5 * b) % 16] for i in range(tot)] for b in range(3)]
            fp, fq, blocks = ps_file(r, nf, 3, flags, planet); V = VFiles(r, {'ps_1996.dat': fp}); h = NULL if own else V.handle('ps_1996.dat')
            t0 = 2415000 + 800 * block; d = S('days into the block', 1, 799); jd = d + K(t0)
            p = r.call(f, h, jd, K(planet)); rep.note_funcs(r.I)
            okp = isinstance(p, Ptr) and p.obj is not None
            rep.add(G, okp, key + ': loaded', str(p), where(f))
            if not okp: continue
            lk = V.leaks({h.obj, p.obj}); rep.add(G, not lk, key + ': nothing but the result left open or allocated', '; '.join(lk), where(f))
            x = d.scale(Fr(1, 400)) - K(1); tau = d - K(400); sec, terms = blocks[block]
            pos = []; vel = []
            for c in range(3):
                s = sum((sec[4 * c + j] * (x ** j if j else K(1)) for j in range(4)), ZERO); ds = sum(((sec[4 * c + j] * (x ** (j - 1) if j > 1 else K(1))).scale(Fr(j, 400)) for j in range(1, 4)), ZERO)
                n = 0
                for m in range(3):
                    for _ in range(nf[m]):
                        a, b = terms[6 * n + 2 * c], terms[6 * n + 2 * c + 1]; si, cs = sincos(fq[n] * tau); xm = x ** m if m else K(1)
                        s = s + (a * cs + b * si) * xm
                        ds = ds + (b * cs - a * si) * fq[n] * xm
                        if m: ds = ds + (a * cs + b * si) * (x ** (m - 1) if m > 1 else K(1)).scale(Fr(m, 400))
                        n += 1
                pos.append(s.scale(Fr(1, 10**10))); vel.append(ds.scale(Fr(1, 10**10)))
            for cv in (1, 0):
                o = r.arr([None] * 6, name='state vector'); v = r.call(g_, jd, p, o, K(cv)); rep.note_funcs(r.I)
                rep.add(G, v.c == 0 if v.c is not None else None, key + ': returns 0', 'returns %s' % v, site)
                got = r.get(o, 3 + 3 * cv)
                for q, (a, b) in enumerate(zip(got, pos + vel)):
                    ok, why = ident.same(a, b, ntol=1e-11); rep.add(G, ok, '%s: %s' % (key, 'x y z vx vy vz'.split()[q]) + ('' if cv else ' (position only)'), why, site)
                if not cv:
                    nw = all('never-written' in str(y) for y in r.get(o, 6)[3:]); rep.add(G, nw, key + ': no velocity written when none is asked for', '', site)
            for lo, hi, nm in ((-500, Fr(-1, 100), 'before'), (Fr(80001, 100), 2000, 'after')):
                o = r.arr([None] * 6, name='state vector'); v = r.call(g_, K(t0) + S('out ' + nm, lo, hi), p, o, K(1)); rep.add(G, v.c is not None and v.c != 0, '%s: %s the span of the series is an error' % (key, nm), 'returns %s' % v, site)
            r.call(u_, p); lk = V.leaks({h.obj}); rep.add(G, not lk, key + ': unloading frees everything', '; '.join(lk), where(u_))
    CONC[0] = False
    for lo, hi in ((-5000, Fr(-1, 100)), (2400, 5000)):
        for own in (0, 1):
            key = 'instant outside the file (%s)' % ('before' if lo < 0 else 'after') + (', opening the file itself' if own else '')
            with guard(rep, G, key, where(f)):
                for rr_, conds, p in paths(P, lambda r: outside(r, f, lo, hi, own)):
                    rep.add(G, isinstance(p, Ptr) and p.obj is None, key + ': no series', str(p), where(f))
                    lk = rr_.V.leaks({rr_.h.obj}); rep.add(G, not lk, key + ': nothing left open or allocated', '; '.join(lk), where(f))
    for fault in [('fopen', 1)] + [('malloc', i) for i in (1, 2)] + [('fread', i) for i in range(1, 6)]:
        for own in (1, 0):
            if fault[0] == 'fopen' and not own: continue
            for part in (0, .5):
                if part and fault[0] != 'fread': continue
                key = 'the %s call number %d %s%s' % (fault + ('gives a part only' if part else 'fails', ', opening the file itself' if own else ''))
                with guard(rep, G, key, where(f)):
                    r = XRun(P); fp, fq, blocks = ps_file(r, (2, 1, 1), 3, [[allf[i] for i in range(4)]] * 3, 3); V = VFiles(r, {'ps_1996.dat': fp}, fault); V.part = part; h = NULL if own else V.handle('ps_1996.dat')
                    p = r.call(f, h, S('jd', 2415801, 2416599), K(3))
                    rep.add(G, isinstance(p, Ptr) and p.obj is None, key + ': no series', str(p), where(f))
                    lk = V.leaks({h.obj}); rep.add(G, not lk, key + ': nothing left open or allocated', '; '.join(lk), where(f))
def outside(r, f, lo, hi, own):
    r.I.exact = True
    fp, fq, blocks = ps_file(r, (2, 1, 1), 3, [[(0, 1, 2, 3, 0, 1)] * 4] * 3, 3); r.V = VFiles(r, {'ps_1996.dat': fp}); r.h = NULL if own else r.V.handle('ps_1996.dat')
    return r.call(f, r.h, K(2415000) + S('day', lo, hi), K(3))
