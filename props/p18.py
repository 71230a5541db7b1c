"""P18: satellite theories and fixed series: E5 (Galilean satellites), Dourneau (Saturn), Triton, Pluto (Meeus), VSOP87 Earth."""
import core, math, ident
from alg import *
from poly import PI_A
import poly as PL, theory as TH
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR with the time (and every data coefficient) symbolic; the output is compared, as a trigonometric normal form, with the published series'
RULE = ('each theory is interpreted once for all times; the resulting trigonometric expression must be, term by term, the published one: amplitudes, arguments, rates, frames; '
        'a satellite asked for alone and together with others has the same value; orbital elements are intercepted where they are handed to the two-body routine.')
PIp = Poly.var(PI_A)
_Run = Run
class Run(_Run):
    def __init__(self, P): _Run.__init__(self, P); self.I.exact = True
k_ = lambda s: K(Fr(s))
TWO_PI = PIp.scale(2)
MAT = V('precession', 9, -1, 1); OBL = S('obliquity', Fr(3, 10), Fr(1, 2))
ident.CUSTOM['turns'] = lambda x: 0

def run(rep):
    P = core.units(['jsats.cpp', 'ssats.cpp', 'triton.cpp', 'pluto.cpp', 'eart2000.cpp', 'miscell.cpp', 'precess.cpp', 'obliquit.cpp', 'astfuncs.cpp'])
    for fn in (jsats, ssats, triton, pluto, earth):
        PL.EXPAND_TRIG[0] = fn is triton
        fn(rep, P)
    rep.minimum = 100

def jsats(rep, P):
    f = core.need(P, 'calc_jsat_loc'); G = 'Galilean satellites (E5)'
    d = S('d', -10**5, 10**5); jd = d + k_('2443000.5')
    names = {1: 'Io', 2: 'Europa', 3: 'Ganymede', 4: 'Callisto', 5: 'pole of Jupiter'}
    want = {s: TH.e5(jd, s) for s in names}
    for mask in (1, 2, 4, 8, 16, 31, 6, 9):
        with guard(rep, G, 'mask %d' % mask, where(f)):
            r = Run(P); a = r.arr([None] * 15, name='positions'); r.call(f, jd, a, K(mask), ZERO); rep.note_funcs(r.I)
            g = r.get(a, 15)
            for s in names:
                if not mask >> (s - 1) & 1: continue
                eqv(rep, G, '%s (asked for: %d) %s' % (names[s], mask, 'direction' if s == 5 else 'position'), g[3 * s - 3:3 * s], want[s], where(f))

def whole(diff):
    """diff is a whole number of turns"""
    q = ident.canon(diff * Poly({((PI_A.id, -1),): Fr(1, 2)}))
    for m, c in q.t.items():
        n = round(c)
        if abs(c - n) > Fr(1, 10**9) or n and not Poly({m: 1}).isint(): return False
    return True

def angle(rep, G, key, got, want, site):
    try:
        if whole(got - want): rep.add(G, True, key, 'equal up to whole turns', site); return
    except (OverflowError, RecursionError, ZeroDivisionError): pass
    ok, why = ident.same(got, want, mod=2 * math.pi)
    rep.add(G, ok, key, '%s; value %s' % (why, str(got)[:150]), site)

def ssats(rep, P):
    f = core.need(P, 'calc_ssat_loc'); G = "Saturn's satellites (Dourneau)"
    names = ['Mimas', 'Enceladus', 'Tethys', 'Dione', 'Rhea', 'Titan', 'Hyperion', 'Iapetus']
    lay = core.layout(['watdefs.h', 'comets.h'], 'perih_time', 'asc_node', 'sideways')
    for sat, nm in enumerate(names):
        with guard(rep, G, nm, where(f)):
            d = S('d', -2 * 10**4, 8 * 10**4); jd = d + K(2400000 + int(TH.DOUR[sat][0]))
            A, E, I, Om, W, L = TH.dourneau(jd, sat)
            x = V('loc'); ty = years(jd)
            n = 0
            for r, conds, v in paths(P, lambda r: body(r, f, jd, sat, lay, x)):
                n += 1; rep.note_funcs(r.I)
                rec = r.rec; key = nm + ('' if n == 1 else ' (branch %d)' % n)
                if len(rec) != 2 or rec[0][0] != 'vectors' or rec[1][0] != 'position' or rec[0][1] != rec[1][1]:
                    rep.add(G, None, key + ': orbit', 'the elements are not handed to setup_orbit_vectors and comet_posn_part_ii: %s' % ([y[0] for y in rec],), where(f)); continue
                e = rec[1][2]
                # on this branch the conditions bound the angles; whole turns are free
                for q, w in (('ecc', E), ('major_axis', A), ('incl', I), ('q', A * (K(1) - E))):
                    ok, why = ident.same(e[q], w, ntol=1e-10); rep.add(G, ok, '%s: %s' % (key, q), '%s; value %s' % (why, str(e[q])[:200]), where(f))
                    ok2 = rec[0][2][q] == e[q]
                    rep.add(G, ok2 or None, '%s: %s unchanged between the two steps' % (key, q), '', where(f))
                for q, w in (('asc_node', Om), ('arg_per', W - Om), ('mean_anomaly', L - W)): angle(rep, G, '%s: %s' % (key, q), e[q], w, where(f))
                if n == 1: frame(rep, G, nm, r, sat, x, ty, where(f))
                rep.add(G, v.c == 0 if v.c is not None else None, key + ': returns 0', 'returns %s' % v, where(f))
    for sat in (-1, 9, 100):
        with guard(rep, G, 'no satellite %d' % sat, where(f)):
            r = Run(P); o = r.arr([None] * 3); v = r.call(f, S('jd', 2400000, 2500000), o, K(sat), ZERO)
            rep.add(G, v.c == -1 if v.c is not None else None, 'satellite number %d is refused' % sat, 'returns %s' % v, where(f))

def frame(rep, G, nm, r, sat, x, ty, site):
    """inner satellites: equator of Saturn -> ecliptic B1950; all: -> equator B1950 -> precession to the date -> ecliptic of date"""
    vec = x
    if sat < 4: vec = mv(Rz(TH.NODE0 * TH.RAD), mv(Rx(TH.INCL0 * TH.RAD), vec))
    vec = mv(Rx(k_('23.445792') * TH.RAD), vec)
    if len(r.prec) != 1 or len(r.obl) != 1: rep.add(G, None, nm + ': frame', 'one precession matrix and one obliquity expected: %s %s' % (r.prec, r.obl), site); return
    for key, g, w in (('precession from B1950', r.prec[0][0], K(1950)), ('precession to the date', r.prec[0][1], K(2000) + ty), ('obliquity of date', r.obl[0], ty.scale(Fr(1, 100)))):
        ok, why = ident.same(g, w, ntol=1e-12); rep.add(G, ok, '%s: %s' % (nm, key), why, site)
    vec = mv(Rx(-OBL), mv(MAT, vec))
    eqv(rep, G, nm + ': ecliptic of date', r.get(r.outp, 3), vec, site)

def years(jd): return (jd - K(2451545)).scale(Fr(100, 36525))
def body(r, f, jd, sat, lay, x):
    r.I.exact = True
    r.rec = []
    flds = ('ecc', 'major_axis', 'incl', 'q', 'asc_node', 'arg_per', 'mean_anomaly')
    def grab(I, st, p, m): return {q: I.load(st, Ptr(p.obj, p.off + K(lay[q][0])), D, None, m) for q in flds}
    def sov(I, st, a, ins, m):
        r.rec.append(('vectors', (a[0].obj, str(a[0].off)), grab(I, st, a[0], m))); return st, ZERO
    def pos(I, st, a, ins, m):
        r.rec.append(('position', (a[0].obj, str(a[0].off)), grab(I, st, a[0], m)))
        p = a[2]
        for i in range(3): I.store(st, Ptr(p.obj, p.off + K(8 * i)), x[i], D, None, m)
        return st, ZERO
    def fm(I, st, a, ins, m):
        if not PL.is_zero(ident.canon(a[1] - TWO_PI), Fr(1, 10**11), 1): return st, Poly.var(atom(('fmod', a[0], a[1])))
        n = Poly.var(atom(('turns', a[0]), -INF, INF, True))
        y = atom(('reduced', a[0]), Fr(-6284, 1000), Fr(6284, 1000))
        r.turn = (Poly.var(y), a[0])
        return st, a[0] + TWO_PI * n
    r.prec = []; r.obl = []
    def sp(I, st, a, ins, m):
        r.prec.append((a[1], a[2]))
        for i in range(9): I.store(st, Ptr(a[0].obj, a[0].off + K(8 * i)), MAT[i], D, None, m)
        return st, ZERO
    def mo(I, st, a, ins, m): r.obl.append(a[0]); return st, OBL
    r.I.hooks.update(setup_precession=sp, mean_obliquity=mo)
    r.I.hooks.update(setup_orbit_vectors=sov, comet_posn_part_ii=pos, fmod=fm)
    r.outp = r.arr([None] * 3, name='position')
    return r.call(f, jd, r.outp, K(sat), ZERO)

def triton(rep, P):
    f = core.need(P, 'calc_triton_loc'); G = 'Triton (Explanatory Supplement)'
    with guard(rep, G, 'position', where(f)):
        d = S('d', -10**5, 10**5); jd = d + k_('2433282.5')
        r = Run(P); o = r.arr([None] * 3, name='position'); pole = []; prec = []
        al, dl = S('pole_ra', 0, 7), S('pole_dec', Fr(1, 10), Fr(3, 2))
        def sp(I, st, a, ins, m):
            prec.append((a[0].obj, a[1], a[2]))
            for i in range(9): I.store(st, Ptr(a[0].obj, a[0].off + K(8 * i)), MAT[i], D, None, m)
            return st, ZERO
        def prd(I, st, a, ins, m):
            pole.append((a[0].obj, [I.load(st, Ptr(a[2].obj, a[2].off + K(8 * i)), D, None, m) for i in (0, 1)], a[3]))
            for i, v in enumerate((al, dl)): I.store(st, Ptr(a[1].obj, a[1].off + K(8 * i)), v, D, None, m)
            return st, ZERO
        r.I.hooks.update(setup_precession=sp, precess_ra_dec=prd)
        r.call(f, jd, o); rep.note_funcs(r.I)
        R = TH.RAD; deg = lambda s: k_(s) * R
        T_ = (jd - K(2451545)).scale(Fr(1, 36525))
        N = (k_('359.28') + T_.scale(Fr('54.308'))) * R
        th = (k_('151.401') + d.scale(Fr('.57806') * 100 / 36525)) * R
        u = (k_('200.913') + d.scale(Fr('61.2588532'))) * R
        g = deg('158.996'); a = deg('488.49').scale(Fr(1, 3600))
        (su, cu), (sg, cg), (st, ct) = sincos(u), sincos(g), sincos(th)
        # position on the invariable plane: rotation by theta of (cos u, sin u cos g, sin u sin g)
        p = [ct * cu - st * su * cg, st * cu + ct * su * cg, su * sg]
        (sN, cN), (s2, c2) = sincos(N), sincos(N.scale(2))
        ra = deg('298.72') + deg('2.58') * sN - deg('0.04') * s2
        de = deg('42.63') - deg('1.90') * cN + deg('0.01') * c2
        # the pole is given for J2000, the orbit computed in B1950, the vector returned in J2000
        if len(prec) != 1 or len(pole) != 1 or pole[0][0] != prec[0][0]: rep.add(G, None, 'frames', 'one precession matrix used for the pole expected', where(f)); return
        eqv(rep, G, 'precession between B1950 and J2000', prec[0][1:], [K(1950), K(2000)], where(f))
        eqv(rep, G, 'pole of the invariable plane', pole[0][1], [ra, de], where(f))
        rep.add(G, pole[0][2].c not in (0, None), 'the pole is precessed backwards, to B1950', 'direction flag %s' % pole[0][2], where(f))
        (sa, ca), (sd, cd) = sincos(al), sincos(dl)
        Z = [ca * cd, sa * cd, sd]; X = [-sa, ca, ZERO]; Y = [-ca * sd, -sa * sd, cd]
        v = [a * (X[i] * p[0] + Y[i] * p[1] + Z[i] * p[2]) for i in range(3)]
        eqv(rep, G, 'position', r.get(o, 3), mv(MAT, v), where(f), ntol=1e-11)

ROWS = [(0, 1, 0), (0, 1, 1), (0, 1, 2), (0, 1, 3), (0, 2, -2), (0, 2, -1), (0, 2, 0), (1, -1, 0), (1, -1, 1), (1, 0, -3), (1, 0, -2), (1, 0, 0), (1, 0, 1), (1, 0, 2), (1, 0, 3), (1, 0, 4),
        (2, 0, -6), (2, 0, -5), (2, 0, -4), (2, 0, -3), (2, 0, -2), (2, 0, -1), (2, 0, 0), (2, 0, 1), (2, 0, 2), (2, 0, 3), (3, 0, -2), (3, 0, -1), (3, 0, 0), (3, -2, 5), (1, -2, 0), (1, 1, -1), (0, -1, 1), (0, -2, 0), (0, 0, 7), (1, 2, -2)]
def pluto(rep, P):
    f = core.need(P, 'calc_pluto_loc'); G = 'Pluto (Meeus ch. 37)'
    I8, I16, I32 = llir.I8, llir.Ty('int', 16), llir.I32
    t = S('centuries', -20, 20); R = TH.RAD
    def data(r, big, small):
        p = r.arr([], size=60874, name='vsop data')
        put = lambda off, v, ty: r.I.store(r.st, Ptr(p.obj, K(off)), v, ty, None, r.m)
        for i, v in enumerate(big): put(58610 + 4 * i, v, I32)
        for n, (row, am) in enumerate(zip(ROWS, small)):
            o = 58610 + 42 * 4 + 16 * n
            for q, x in enumerate(row): put(o + q, K(x), I8)
            put(o + 3, ZERO, I8)
            for q, x in enumerate(am): put(o + 4 + 2 * q, x, I16)
        return p
    def oracle(big, small, keep):
        J, Sa, Pl = [(k_(a) + t.scale(Fr(b))) * R for a, b in (('34.35', '3034.9057'), ('50.08', '1222.1138'), ('238.96', '144.9600'))]
        v = [k_('238.956785') + t.scale(144 + Fr(96, 100)), -k_('3.908202'), k_('40.7247248')]
        args = [Pl.scale(i) for i in range(1, 7)] + [J - Pl] + [J.scale(a) + Sa.scale(b) + Pl.scale(c) for a, b, c in ROWS]
        co = [big[6 * i:6 * i + 6] for i in range(7)] + small
        for n, (a, c) in enumerate(zip(args, co)):
            if n >= 7 and not keep[n - 7]: continue
            si, cs = sincos(a)
            for q in range(3): v[q] = v[q] + (c[2 * q] * si + c[2 * q + 1] * cs).scale(Fr(1, 10**7 if q == 2 else 10**6))
        return [v[0] * R, v[1] * R, v[2]]
    sym = lambda nm, i, hi, lo=None: Poly.var(atom(('in', nm, i), -hi if lo is None else lo, hi, True, '%s%s' % (nm, i)))
    nm = ('longitude', 'latitude', 'distance')
    with guard(rep, G, 'all terms', where(f)):
        big = [sym('B', i, 10**9) for i in range(42)]; small = [[sym('A', (n, q), 32000) for q in range(6)] for n in range(36)]
        r = Run(P); p = data(r, big, small); o = r.arr([None] * 3, name='position'); r.call(f, p, o, t, K(-1)); rep.note_funcs(r.I)
        got, want = r.get(o, 3), oracle(big, small, [1] * 36)
        # one obligation per coefficient of the data: the partial derivative by that coefficient
        for q in range(3):
            for i, b in enumerate([x for x in big] + [y for z in small for y in z]):
                row = 'P*%d' % (i // 6 + 1) if i < 36 else 'J-P' if i < 42 else 'J*%d S*%d P*%d' % ROWS[(i - 42) // 6]
                if (i % 6) // 2 != q: continue
                a = next(iter(b.atoms()))
                ok, why = ident.same(part(got[q], a), part(want[q], a), ntol=1e-7)
                rep.add(G, ok, '%s: %s of %s' % (nm[q], 'sine cosine'.split()[i % 2], row), why, where(f))
            ok, why = ident.same(got[q], want[q], ntol=1e-9); rep.add(G, ok, nm[q] + ': whole sum', why, where(f))
    # terms are left out exactly when all their six coefficients are at most the requested precision
    for prec in (0, 50):
        with guard(rep, G, 'precision %d' % prec, where(f)):
            big = [K(1000 + 7 * i) for i in range(42)]; small = []; keep = []
            for n in range(36):
                am = [prec if n % 2 else -prec] * 6
                if n % 3: am[n % 6 if n < 12 else (n // 2) % 6] = (prec + 1) * (1 if n % 4 < 2 else -1); keep.append(1)
                else: keep.append(0)
                small.append([K(x) for x in am])
            r = Run(P); p = data(r, big, small); o = r.arr([None] * 3, name='position'); r.call(f, p, o, t, K(prec))
            eqv(rep, G, 'terms kept at precision %d' % prec, r.get(o, 3), oracle(big, small, keep), where(f), ntol=1e-11)

def part(p, a):
    """coefficient of the atom a in p (linear)"""
    return Poly({tuple((x, q) for x, q in m if x != a): c for m, c in p.t.items() if any(x == a for x, q in m)})

def earth(rep, P):
    f = core.need(P, 'get_earth_loc'); G = 'Earth (VSOP87)'
    with guard(rep, G, 'position', where(f)):
        t = S('t_millennia', -4, 4); r = Run(P); o = r.arr([None] * 6, name='position'); r.call(f, t, o); rep.note_funcs(r.I)
        L, B, Rr = TH.earth(t); (sl, cl), (sb, cb) = sincos(L), sincos(B)
        for key, g, w in zip(('x', 'y', 'z', 'longitude', 'latitude', 'distance'), r.get(o, 6), (Rr * cl * cb, Rr * sl * cb, Rr * sb, L, B, Rr)):
            ok, why = ident.same(g, w, ntol=1e-9); rep.add(G, ok, key, why, where(f))
