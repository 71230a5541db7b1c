"""P05: reference-frame transformations: exact inverses, compositions, history independence."""
import core, math
from alg import *
from poly import PI_A
import poly as PL
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR over a trigonometric polynomial domain (epochs, coordinates symbolic); normal-form identities'
RULE = ('precession set-up functions are interpreted with symbolic epochs (interval atoms) from every reachable cache history of length up to 3; the nine matrix entries must have the normal '
        'form of the IAU 1976 rotations composed through J2000, and be orthonormal. Coordinate functions are interpreted on symbolic coordinates; the trigonometric images of the results must be M v or transpose(M) v.')
PIp = Poly.var(PI_A)
AS = PIp.scale(Fr(1, 648000))
def poly3(t, cs):
    r = ZERO
    for c in reversed(cs): r = r * t + K(Fr(c))
    return r
def ecl_j2000(y):
    """IAU 1976 ecliptic precession J2000 -> year (Lieske): rotate to the node, tilt, rotate back with general precession"""
    t = (y - K(2000)).scale(Fr(1, 100))
    eta = t * poly3(t, ('47.0029', '-0.03302', '0.00006')) * AS
    pie = PIp.scale(Fr('174.876384') / 180) - t * poly3(t, ('869.8089', '-0.03536')) * AS
    p = t * poly3(t, ('5029.0966', '1.11113', '-0.00006')) * AS
    return mm(Rz(pie), mm(Rz(p), mm(Rx(-eta), Rz(-pie))))
def equ_j2000(y):
    t = (y - K(2000)).scale(Fr(1, 100))
    zeta = t * poly3(t, ('2306.2181', '0.30188', '0.017998')) * AS
    z = t * poly3(t, ('2306.2181', '1.09468', '0.018203')) * AS
    th = t * poly3(t, ('2004.3109', '-0.42665', '-0.041833')) * AS
    return mm(Rz(z), mm(Ry(-th), Rz(zeta)))
OB = (-4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45)
def obliq(t):
    u = t.scale(Fr(1, 100)); r = K(Fr('84381.448')); x = u
    for c in OB: r = r + x.scale(Fr(str(c))); x = x * u
    return r * AS
SRC = ['precess.cpp', 'miscell.cpp', 'obliquit.cpp', 'nutation.cpp', 'alt_az.cpp', 'eop_prec.cpp', 'spline.cpp', 'delta_t.cpp', 'dist_pa.cpp', 'snprintf.cpp', 'date.cpp']
def yr(name, lo, hi): return Poly.var(atom(('in', name, lo, hi), lo, hi, False, name))
def ortho(rep, group, key, M, site):
    I = mm(M, T(M))
    eqv(rep, group, key, I, ID, site)

def run(rep):
    P = core.units(SRC)
    PL.EXPAND_TRIG[0] = False
    f = core.need(P, 'setup_ecliptic_precession')
    spans = {'a': (2001, 2200), 'b': (2300, 5000), 'c': (-3000, -1), 'd': (1, 1900)}
    Y = {n: yr(n, *s) for n, s in spans.items()}; Y['J'] = K(2000)
    E = {n: ecl_j2000(Y[n]) for n in 'abcd'}; E['J'] = ID
    def want(x, y): return ID if x == y else mm(E[y], T(E[x]))
    def seq(pairs, group):
        key = ' then '.join('%s->%s' % p for p in pairs)
        with guard(rep, group, key, where(f)):
            r = Run(P); M = None
            for x, y in pairs:
                p = r.arr([None] * 9); r.call(f, p, Y[x], Y[y]); M = r.get(p, 9)
            eqv(rep, group, key, M, want(*pairs[-1]), where(f))
            rep.note_funcs(r.I)
    for x in 'abcdJ':
        for y in 'abcdJ': seq([(x, y)], 'ecliptic precession = IAU 1976 via J2000')
    hist = [('a', 'b'), ('J', 'a'), ('a', 'J'), ('c', 'd')]
    nxt = lambda x, y: [(x, y), (y, x), (x, x)] + [p for p in (('a', 'c'), ('c', 'b'), ('b', 'c'), ('c', 'a'), ('J', 'c'), ('c', 'J'), ('b', 'J'), ('J', 'b'), ('d', 'a'))]
    for h in hist:
        for n in nxt(*h):
            seq([h, n], 'history independence (2 calls)')
            if rep.tier != 'quick' or h in (('a', 'b'), ('J', 'a')):
                for k in (h, (h[1], h[0]), n, (n[1], n[0])): seq([h, n, k], 'history independence (3 calls)')
    # nearly equal epochs give the identity, and the cache survives them
    for lo, hi in ((Fr(-9, 10**6), 0), (0, Fr(9, 10**6))):
        with guard(rep, 'equal epochs', str(float(lo)), where(f)):
            r = Run(P); p = r.arr([None] * 9)
            d = Poly.var(atom(('in', 'dy', lo, hi), lo, hi, False, 'dy'))
            r.call(f, p, Y['a'], Y['a'] + d); eqv(rep, 'equal epochs', 'identity %s' % float(lo), r.get(p, 9), ID, where(f))
    ortho(rep, 'rotation matrices are orthonormal', 'ecliptic', E['a'], where(f))
    # the scale of the range: beyond +-10 millennia too
    with guard(rep, 'ecliptic precession = IAU 1976 via J2000', 'far', where(f)):
        for nm, lo, hi in (('far+', 12001, 10**5), ('far-', -10**5, -12000)):
            y = yr(nm, lo, hi); r = Run(P); p = r.arr([None] * 9); r.call(f, p, K(2000), y)
            eqv(rep, 'ecliptic precession = IAU 1976 via J2000', nm, r.get(p, 9), ecl_j2000(y), where(f))
    # equatorial
    g = core.need(P, 'setup_equatorial_precession_from_j2000')
    with guard(rep, 'equatorial precession = IAU 1976', 'J2000->y', where(g)):
        y = yr('ye', -10**5, 10**5); r = Run(P); p = r.arr([None] * 9); r.call(g, p, y); M = r.get(p, 9)
        eqv(rep, 'equatorial precession = IAU 1976', 'J2000->y', M, equ_j2000(y), where(g))
        ortho(rep, 'rotation matrices are orthonormal', 'equatorial', M, where(g)); rep.note_funcs(r.I)
    # obliquity
    ob = core.need(P, 'mean_obliquity')
    def obl(x, r):
        return r.call(ob, x)
    TC = {n: Poly.var(atom(('in', 't' + n, lo, hi), lo, hi, False, 't' + n)) for n, lo, hi in (('1', Fr(1, 1000), 50), ('2', -100, Fr(-1, 1000)), ('3', 51, 100))}
    for nm in TC:
        with guard(rep, 'obliquity series', nm, where(ob)):
            r = Run(P); eqv(rep, 'obliquity series', nm, [obl(TC[nm], r)], [obliq(TC[nm])], where(ob)); rep.note_funcs(r.I)
            for other in list(TC.values()) + [ZERO, K(200), K(-200)]:
                r = Run(P); obl(TC[nm], r); obl(other, r); eqv(rep, 'obliquity: history independence', '%s,%s,%s' % (nm, other, nm), [obl(TC[nm], r)], [obliq(TC[nm])], where(ob))
                r = Run(P); obl(other, r); eqv(rep, 'obliquity: history independence', '%s,%s' % (other, nm), [obl(TC[nm], r)], [obliq(TC[nm])], where(ob))
    with guard(rep, 'obliquity series', 'J2000, clipping', where(ob)):
        r = Run(P); eqv(rep, 'obliquity series', 'J2000', [obl(ZERO, r)], [AS.scale(Fr('84381.448'))], where(ob))
        for nm, lo, hi, v in (('after', Fr('100.0001'), 10**6, '22.611485556'), ('before', -10**6, Fr('-100.0001'), '24.232841111')):
            x = Poly.var(atom(('in', nm, lo, hi), lo, hi, False, 't')); r = Run(P)
            eqv(rep, 'obliquity series', 'clipped ' + nm, [obl(x, r)], [PIp.scale(Fr(v) / 180)], where(ob), ctol=1e-9)
    # mean equator to mean equator: Rx(e2) E Rx(-e1)
    h = core.need(P, 'setup_precession')
    def opaque_obl(r):
        def hk(I, st, a, ins, m): return st, Poly.var(atom(('obl', a[0]), Fr(2, 5), Fr(43, 100), False, None))
        r.I.hooks['mean_obliquity'] = hk
        return lambda y: Poly.var(atom(('obl', (y - K(2000)).scale(Fr(1, 100))), Fr(2, 5), Fr(43, 100), False, None))
    for x, y in (('a', 'b'), ('J', 'a'), ('a', 'J'), ('c', 'a')):
        with guard(rep, 'equatorial precession between epochs', '%s->%s' % (x, y), where(h)):
            r = Run(P); e = opaque_obl(r); p = r.arr([None] * 9); r.call(h, p, Y[x], Y[y])
            eqv(rep, 'equatorial precession between epochs', '%s->%s' % (x, y), r.get(p, 9), mm(Rx(e(Y[y])), mm(want(x, y), Rx(-e(Y[x])))), where(h)); rep.note_funcs(r.I)
    # with nutation: N P
    n = core.need(P, 'setup_precession_with_nutation_delta')
    for nm in ('setup_precession_with_nutation_delta', 'setup_precession_with_nutation'):
        n = core.need(P, nm)
        with guard(rep, 'precession with nutation', nm, where(n)):
            r = Run(P); e = opaque_obl(r); dl, do = S('dpsi', -100, 100), S('deps', -100, 100)
            tn = []
            def nut(I, st, a, ins, m):
                tn.append(a[0])
                for q, v in ((a[1], dl), (a[2], do)):
                    if isinstance(q, Ptr) and q.obj is not None: I.store(st, q, v, D, ins, m)
                return st, ZERO
            r.I.hooks['nutation'] = nut
            y = yr('yn', 1600, 2400); p = r.arr([None] * 9)
            ex, ey = (S('dx', -1, 1), S('dy', -1, 1)) if nm.endswith('delta') else (ZERO, ZERO)
            r.call(n, *([p, y, ex, ey] if nm.endswith('delta') else [p, y]))
            dpsi, deps, eps = dl * AS + ex, do * AS + ey, e(y)
            eqeq = dpsi * sincos(eps)[1]
            W = mm(Rz(-eqeq), mm(Rx(eps + deps), mm(Rz(dpsi), mm(Rx(-eps), equ_j2000(y)))))
            eqv(rep, 'precession with nutation', nm, r.get(p, 9), W, where(n)); rep.note_funcs(r.I)
            if tn: eqv(rep, 'precession with nutation', nm + ' instant of nutation', [tn[-1]], [(y - K(2000)).scale(Fr(1, 100))], where(n))
    # galactic / supergalactic
    GAL = [-.0548755604, -.8734370902, -.4838350155, .4941094279, -.4448296300, .7469822445, -.8676661490, -.1980763734, .4559837762]
    PL.EXPAND_TRIG[0] = True
    mats = {}
    for nm in ('j2000_to_galactic_matrix', 'j2000_to_supergalactic_matrix'):
        q = core.need(P, nm)
        with guard(rep, 'galactic frames', nm, where(q)):
            r = Run(P); p = r.call(q)
            M = r.get(p, 9); mats[nm] = M
            for i, (g_, w_) in enumerate(zip(mm(M, T(M)), ID)):
                d = g_ - w_
                rep.add('galactic frames', None if d.c is None else abs(d.c) < Fr(5, 10**8), '%s orthonormal[%d]' % (nm, i), 'M M^T = %s' % g_, where(q))
            det = dot(M[0:3], cross(M[3:6], M[6:9]))
            rep.add('galactic frames', None if det.c is None else abs(det.c - 1) < Fr(5, 10**8), '%s right-handed' % nm, 'determinant %s' % det, where(q))
            if 'super' not in nm:
                for i in range(9): rep.add('galactic frames', abs(float(M[i].c) - GAL[i]) < 1e-9, 'galactic matrix[%d]' % i, 'entry %s, Hipparcos introduction p 92: %s' % (M[i], GAL[i]), where(q))
            else:
                # supergalactic pole: galactic l=47.37, b=+6.32; origin l=137.37, b=0
                for row, l, b in ((2, 47.37, 6.32), (0, 137.37, 0.)):
                    l, b = math.radians(l), math.radians(b)
                    gv = [math.cos(b) * math.cos(l), math.cos(b) * math.sin(l), math.sin(b)]
                    w = [sum(GAL[3 * k + j] * gv[k] for k in range(3)) for j in range(3)]
                    for j in range(3): rep.add('galactic frames', abs(float(M[3 * row + j].c) - w[j]) < 2e-4, 'supergalactic axis %d[%d]' % (row, j), 'entry %s, definition %s' % (M[3 * row + j], w[j]), where(q))
            rep.note_funcs(r.I)
    coords(rep, P, mats)
    points(rep, P)
    eops(rep, P)
    rep.minimum = 300

def arms(p, depth=0):
    """all values a conditional value can take"""
    for a in p.atoms():
        k = ATOMS[a].key
        if k[0] in ('ite', 'phi') and ((a, 1),) in p.t:
            x, y = k[2], k[3]
            if not (isinstance(x, Poly) and isinstance(y, Poly)): return None
            rest = p - Poly({((a, 1),): p.t[((a, 1),)]})
            c = p.t[((a, 1),)]
            out = []
            for z in (x, y):
                r = arms(rest + z.scale(c), depth + 1) if depth < 60 else None
                if r is None: return None
                out += r
            return out
    return [p]

def angle_ok(I, s, got, y, x, old=None):
    """got is atan2(y,x) (sign and scale normalised) plus a multiple of 2 pi in every arm"""
    A = arms(got)
    if A is None: return None, 'unbounded adjustment'
    base = Poly.var(atom(('atan2', y, x), -libpi, libpi))
    res = True; why = ''
    for z in A:
        if any(ATOMS[q].key[0] == 'w' for q in z.atoms()): return None, 'widened'
        d = z - base
        q = d.t.get(((PI_A.id, 1),), 0)
        if d == PIp.scale(q) and q == int(q) and int(q) % 2 == 0: continue
        if not (z.atoms() - {PI_A.id}): continue                 # undefined direction
        ok, w = ident.same(sincos(z)[0] * sqrt_(y * y + x * x), y)
        ok2, w2 = ident.same(sincos(z)[1] * sqrt_(y * y + x * x), x)
        if ok is False or ok2 is False: return False, 'value %s: %s %s' % (z, w, w2)
        if ok is None or ok2 is None: res = None; why = 'value %s: %s' % (z, w if ok is None else w2)
    if res is not False:
        try: d = ident.differ(got, base, 1e-8, n=40, mod=2 * math.pi)
        except ident.NoVal as e: d = None
        if d is not None: return False, 'direction %.9g instead of %.9g with %s' % (d[1], d[2], ', '.join('%s=%.6g' % (PL.aname(a), x) for a, x in list(d[0].items())[:12]))
    return res, why
import libmodel
libpi = libmodel.PIQ

def coords(rep, P, mats):
    f = core.need(P, 'precess_ra_dec')
    M = V('m', 9, -1, 1)
    ra, dec = Poly.var(atom(('in', 'ra'), -Fr(3), Fr(3), False, 'ra')), Poly.var(atom(('in', 'dec'), Fr(-3, 2), Fr(3, 2), False, 'dec'))
    u = [sincos(ra)[1] * sincos(dec)[1], sincos(ra)[0] * sincos(dec)[1], sincos(dec)[0]]
    def case(group, key, fn, call, W, mk):
        with guard(rep, group, key, where(fn)):
            r = Run(P); out = call(r, mk(r)); rep.note_funcs(r.I)
            gra, gdec = out
            ok, why = angle_ok(r.I, r.st, gra, W[1], W[0])
            rep.add(group, ok, key + ' longitude', why, where(fn))
            s, why = ident.same(sincos_of_arms(gdec, W[2]), W[2])
            rep.add(group, s, key + ' latitude', why, where(fn))
    def sincos_of_arms(d, w):
        A = arms(d)
        if A is None: raise Imprecise('latitude')
        # inside the clamp the latitude is asin(w); the clamped arms are constants
        for z in A:
            if z.c is None and z.atoms() != {PI_A.id}: return sincos(z)[0]
        raise Imprecise('latitude constant')
    for back in (0, 1):
        W = mv(T(M) if back else M, u)
        for alias in (0, 1):
            def call(r, p):
                o = p if alias else r.arr([None] * 2)
                r.call(f, r.arr(M), o, p, K(back)); return r.get(o, 2)
            case('RA/dec through a rotation matrix', 'backward=%d in place=%d' % (back, alias), f, call, W, lambda r: r.arr([ra, dec]))
    # the longitude returned is the one within half a turn of the input longitude: input = theta + delta, theta the direction found
    for back in (0, 1):
        for k in range(-3, 4):
            for lo, hi in ((2 * k - 1, 2 * k), (2 * k, 2 * k + 1)):
                with guard(rep, 'longitude within half a turn of the input', '%d turns' % k, where(f)):
                    r = Run(P); th = Poly.var(atom(('in', 'theta'), -libpi, libpi, False, 'theta'))
                    e = Fr(1, 1000)
                    dl = Poly.var(atom(('in', 'delta', lo, hi), lo * libpi + e, hi * libpi - e, False, 'delta'))
                    r.I.hooks['atan2'] = lambda I, st, a, ins, m: (st, th)
                    o = r.arr([None] * 2)
                    r.call(f, r.arr([ZERO, ZERO, K(1), ZERO, ZERO, K(1), K(1), K(1), ZERO]), o, r.arr([th + dl, K(Fr(1, 2))]), K(back))
                    v = r.get(o, 1)[0]; d = v - th
                    q = d.t.get(((PI_A.id, 1),), 0)
                    w = PIp.scale(2 * k)
                    ok = True if d == w else None
                    if ok is None:
                        A = arms(d)
                        if A and all(z.c is not None or z.atoms() == {PI_A.id} for z in A): ok = all(abs(ident.nev(z, {}) - 2 * math.pi * k) < 1e-6 for z in A)
                    rep.add('longitude within half a turn of the input', ok, '%s, input %d turns away%s' % ('backward' if back else 'forward', k, ' (lower half)' if lo < 2 * k else ''), 'added %s' % d, where(f))
    for a, b, mname in (('ra_dec_to_galactic', 0, 'j2000_to_galactic_matrix'), ('galactic_to_ra_dec', 1, 'j2000_to_galactic_matrix'), ('ra_dec_to_supergalactic', 0, 'j2000_to_supergalactic_matrix'), ('supergalactic_to_ra_dec', 1, 'j2000_to_supergalactic_matrix')):
        g = core.need(P, a); Mm = mats.get(mname)
        if Mm is None: continue
        W = mv(T(Mm) if b else Mm, u)
        def call(r, p):
            x, y = r.arr([None]), r.arr([None])
            # argument order: (first, second, &latitude-like or ra, ...)
            if b: r.call(g, dec, ra, x, y); return r.get(x, 1) + r.get(y, 1)         # (lat, lon, *ra, *dec)
            r.call(g, ra, dec, x, y); return r.get(y, 1) + r.get(x, 1)               # (ra, dec, *lat, *lon)
        case('galactic coordinates', a, g, call, W, lambda r: None)

def points(rep, P):
    """precess_pt: the point (-ra, dec) precessed from one epoch to the other, whatever set-up direction is used"""
    f = core.need(P, 'precess_pt'); G = 'point precession between epochs'
    ra, dec = Poly.var(atom(('in', 'pra'), -Fr(3), Fr(3), False, 'ra')), Poly.var(atom(('in', 'pdec'), Fr(-3, 2), Fr(3, 2), False, 'dec'))
    M = V('pm', 9, -1, 1)
    u = [sincos(ra)[1] * sincos(dec)[1], sincos(ra)[0] * sincos(dec)[1], sincos(dec)[0]]
    Y = {'a': yr('pa', 2001, 2200), 'b': yr('pb', 2300, 5000), 'c': yr('pc', -3000, 1900), 'J': K(2000)}
    W = mv(M, u)
    for x in Y:
        for y in Y:
            for alias in (0, 1):
                if x == y and x != 'J' and alias: continue
                key = '%s->%s%s' % (x, y, ' in place' if alias else '')
                with guard(rep, G, key, where(f)):
                    r = Run(P)
                    def hk(I, st, a, ins, m):
                        if a[1] == Y[x] and a[2] == Y[y]: N = M
                        elif a[1] == Y[y] and a[2] == Y[x]: N = T(M)
                        else: raise Imprecise('other epochs')
                        for i in range(9): I.store(st, Ptr(a[0].obj, a[0].off + K(8 * i)), N[i], D, ins, m)
                        return st, ZERO
                    r.I.hooks['setup_precession'] = hk
                    ip = r.arr([-ra, dec]); o = ip if alias else r.arr([None] * 2)
                    r.call(f, o, ip, Y[x], Y[y]); g = r.get(o, 2)
                    if x == y: eqv(rep, G, key, g, [-ra, dec], where(f)); continue
                    ok, why = angle_ok(r.I, r.st, -g[0], W[1], W[0]); rep.add(G, ok, key + ' longitude', why, where(f))
                    A = arms(g[1]); z = [q for q in A if q.c is None and q.atoms() != {PI_A.id}]
                    ok, why = ident.same(sincos(z[0])[0], W[2]) if z else (None, 'constant')
                    rep.add(G, ok, key + ' latitude', why, where(f)); rep.note_funcs(r.I)

def eops(rep, P):
    """setup_precession_with_nutation_eops = PolarMotion Spin(GST(UT1)) N P with the loaded parameters"""
    f = core.need(P, 'setup_precession_with_nutation_eops'); G = 'Earth orientation matrix'
    with guard(rep, G, 'matrix', where(f)):
        r = Run(P); y = yr('ye', 1973, 2030); lay = core.layout(['watdefs.h', 'afuncs.h'], 'dX', 'dY', 'dPsi', 'dEps', 'tdt_minus_ut1')
        e = {n: S(n, -1, 1) for n in ('dX', 'dY', 'dPsi', 'dEps')}; dt = S('tdt_minus_ut1', 40, 90); N = V('np', 9, -1, 1)
        seen = {}
        def hg(I, st, a, ins, m):
            seen['jd'] = a[0]; seen['mask'] = a[2]
            for n, v in list(e.items()) + [('tdt_minus_ut1', dt)]: I.store(st, Ptr(a[1].obj, a[1].off + K(lay[n][0])), v, D, ins, m)
            return st, S('rv', 0, 31, True)
        def hn(I, st, a, ins, m):
            seen['delta'] = a[1:4]
            for i in range(9): I.store(st, Ptr(a[0].obj, a[0].off + K(8 * i)), N[i], D, ins, m)
            return st, ZERO
        def hs(I, st, a, ins, m):
            seen['ut1'] = a[0]; return st, S('gst', 0, 7)
        r.I.hooks.update({'get_earth_orientation_params': hg, 'setup_precession_with_nutation_delta': hn, 'green_sidereal_time': hs})
        p = r.arr([None] * 9); rv = r.call(f, p, y); rep.note_funcs(r.I)
        jd = K(2451545) + (y - K(2000)).scale(Fr('365.25'))
        eqv(rep, G, 'instant (JD of the year)', [seen['jd']], [jd], where(f))
        eqv(rep, G, 'all five parameters requested', [seen['mask']], [K(31)], where(f))
        eqv(rep, G, 'nutation set-up gets year, dPsi, dEps', seen['delta'], [y, e['dPsi'], e['dEps']], where(f))
        eqv(rep, G, 'UT1 = TDT - (TDT-UT1)', [seen['ut1']], [jd - dt.scale(Fr(1, 86400))], where(f), ctol=1e-9)
        eqv(rep, G, 'return value is the missing-data mask', [rv], [S('rv', 0, 31, True)], where(f))
        th = S('gst', 0, 7)
        W = mm(Rx(e['dY']), mm(Ry(e['dX']), mm(Rz(-th), N)))
        eqv(rep, G, 'matrix', r.get(p, 9), W, where(f))
