"""P08: published Earth and Moon series: IAU 1980 nutation, Greenwich sidereal time, lunar phase times."""
import core, math, ident
from alg import *
from poly import PI_A
import poly as PL
from nut80 import T80
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR over trigonometric polynomials in symbolic time; the computed value is decomposed into its terms, each compared with the published series'
RULE = ('the functions are interpreted with symbolic time; the resulting polynomial in t and sin/cos of linear combinations of the fundamental arguments is decomposed, every term is identified by its rate, '
        'and its amplitude, phase and secular parts must be the published ones; no further term may be present. Sidereal time: affine/cubic identity with the floor of the date an integer symbol.')
PIp = Poly.var(PI_A)
DEG = {'l': (134.96298, 477198.867398, 0.0086972, 1 / 56250), 'lp': (357.52772, 35999.050340, -0.0001603, -1 / 300000),
       'F': (93.27191, 483202.017538, -0.0036825, 1 / 327270), 'D': (297.85036, 445267.111480, -0.0019142, 1 / 189474), 'Om': (125.04452, -1934.136261, 0.0020708, 1 / 450000)}

def tcoef(p, tid, d):
    """coefficients of 1, t .. t^d of a polynomial in t whose coefficients are rational multiples of 1 and pi; None if other atoms occur"""
    r = [0.0] * (d + 1)
    for m, c in p.t.items():
        k = 0; x = float(c)
        for a, q in m:
            if a == tid: k = q
            elif a == PI_A.id: x *= math.pi ** q
            else: return None
        if not 0 <= k <= d: return None
        r[k] += x
    return r

def series(v, tid, oracle, tol):
    """decompose v = sum (c0 + c1 t) sin/cos(arg): {index: [sin0, sin1, cos0, cos1, argument ok]}, foreign terms, failure"""
    acc = [[0.0] * 4 + [True] for _ in oracle]; foreign = []; rest = ZERO
    for m, c in v.t.items():
        k = 0; tr = None; x = float(c)
        for a, q in m:
            key = PL.ATOMS[a].key
            if a == tid: k = q
            elif a == PI_A.id: x *= math.pi ** q
            elif key[0] in ('sin', 'cos') and q == 1 and tr is None: tr = key
            else: return None, None, None, 'term outside the domain: %s' % PL.aname(a)
        if tr is None: rest = rest + Poly({m: c}); continue
        if k > 1: foreign.append(('t^%d %s' % (k, tr[1]), x)); continue
        co = tcoef(tr[1], tid, 3)
        if co is None: return None, None, None, 'argument outside the domain'
        for j, (A, _) in enumerate(oracle):
            hit = None
            for s in (1, -1):
                if abs(co[1] - s * A[1]) < 1e-6 * max(1, abs(A[1])) * tol:
                    d = (co[0] - s * A[0]) / (math.pi / 2); h = round(d)
                    if abs(d - h) < 1e-5 * tol or True: hit = (s, h % 4, abs(d - h) * math.pi / 2, abs(co[2] - s * A[2]), abs(co[3] - s * A[3])); break
            if hit: break
        else: foreign.append((str(tr[1])[:80], x)); continue
        s, h, e0, e2, e3 = hit
        if e0 > 2e-7 or e2 > 1e-7 or e3 > 1e-9: acc[j][4] = 'argument off by %.3g + %.3g t^2 + %.3g t^3 rad' % (e0, e2, e3)
        # f(s A + h pi/2)
        f = tr[0] == 'sin'
        n = h + (0 if f else 1)                       # cos x = sin(x + pi/2)
        n %= 4
        # sin(sA + n pi/2): n=0 s sinA; 1 cosA; 2 -s sinA; 3 -cosA
        if n % 2 == 0: acc[j][k] += x * s * (1 if n == 0 else -1)
        else: acc[j][2 + k] += x * (1 if n == 1 else -1)
    return acc, foreign, rest, ''

def run(rep):
    P = core.units(['nutation.cpp', 'miscell.cpp', 'get_time.cpp', 'date.cpp', 'delta_t.cpp', 'snprintf.cpp'])
    PL.EXPAND_TRIG[0] = False
    nut(rep, P); gst(rep, P); phases(rep, P)
    rep.minimum = 100

def nut(rep, P):
    f = core.need(P, 'nutation'); G = 'IAU 1980 nutation'
    t = S('t', -60, 60); tid = next(iter(t.atoms()))
    R = math.pi / 180
    orc = []
    for row in T80:
        A = [sum(n * DEG[k][i] for n, k in zip(row[:5], ('l', 'lp', 'F', 'D', 'Om'))) * R for i in range(4)]
        orc.append((A, row))
    nm = lambda row: ','.join('%d' % x for x in row[:5])
    for want in ((1, 1), (1, 0), (0, 1)):
        case = '' if want == (1, 1) else (' (longitude only)' if want[0] else ' (obliquity only)')
        with guard(rep, G, 'nutation' + case, where(f)):
            r = Run(P); a, b = r.arr([None]), r.arr([None])
            r.call(f, t, a if want[0] else NULL, b if want[1] else NULL); rep.note_funcs(r.I)
            if want == (1, 1): both = [r.get(a, 1)[0], r.get(b, 1)[0]]
            else:
                q = want.index(1)
                eqv(rep, G, 'the value does not depend on whether the other one is asked for' + case, [r.get((a, b)[q], 1)[0]], [both[q]], where(f)); continue
            for on, p, c0, what, isin in ((want[0], a, 5, 'longitude', True), (want[1], b, 7, 'obliquity', False)):
                if not on: continue
                acc, foreign, rest, err = series(r.get(p, 1)[0], tid, orc, 1)
                if acc is None: rep.add(G, None, what + case, err, where(f)); continue
                rep.add(G, not foreign, 'no other term in ' + what + case, 'extra terms %s' % foreign[:3], where(f))
                rep.add(G, max([abs(float(c)) for c in rest.t.values()] or [0]) < 1e-9, 'no aperiodic part in ' + what + case, str(rest)[:200], where(f))
                for (A, row), g in zip(orc, acc):
                    v0, v1, o0, o1 = (g[0], g[1], g[2], g[3]) if isin else (g[2], g[3], g[0], g[1])
                    w0, w1 = row[c0] * 1e-4, row[c0 + 1] * 1e-4
                    ok = abs(v0 - w0) < 1e-8 or (not isin and abs(row[c0]) <= 2 and abs(v0) < 1e-8)
                    key = 'nutation:%s:amplitude:%s%s' % (what, nm(row), case)
                    rep.add(G, ok and abs(o0) < 1e-9 and abs(o1) < 1e-9, key, 'amplitude %.6f" (published %.4f"), out of phase %.3g' % (v0, w0, o0), where(f))
                    ok = abs(v1 - w1) < 1e-8
                    rep.add(G, ok, 'nutation:%s:rate:%s%s' % (what, nm(row), '' if ok else '=%.2f' % (v1 * 1e4)), 'secular part %.7f"/century, published %.5f' % (v1, w1), where(f))
                    if v0 or v1: rep.add(G, g[4] is True, 'nutation:%s:argument:%s%s' % (what, nm(row), case), g[4], where(f))

def gst(rep, P):
    """Meeus (12.4): theta0 = 280.46061837 + 360.98564736629 (JD - 2451545) + .000387933 T^2 - T^3/38710000 degrees, modulo whole turns"""
    f = core.need(P, 'green_sidereal_time'); G = 'Greenwich mean sidereal time'
    with guard(rep, G, 'formula', where(f)):
        r = Run(P); jd = S('jd', -10**8, 10**8)
        v = r.call(f, jd); rep.note_funcs(r.I)
        d = jd - K(2451545); T_ = d.scale(Fr(1, 36525))
        w = K(Fr('280.46061837')) + d.scale(Fr('360.98564736629')) + T_ * T_ * (K(Fr('0.000387933')) - T_.scale(Fr(1, 38710000)))
        w = w * PIp.scale(Fr(1, 180))
        diff = v - w
        # what is left must be a whole number of turns: 360 degrees times an integer-valued expression, up to rounding of the constants
        q = (diff * Poly({((PI_A.id, -1),): Fr(1, 2)}))
        ok = None; why = str(q)[:200]
        ic, fc = ZERO, ZERO
        for m, c in q.t.items():
            n = round(c)
            ic = ic + Poly({m: n}) if n else ic
            e = c - n
            if e: fc = fc + Poly({m: e})
        if ic.isint() if callable(ic.isint) else ic.isint:
            mx = 0
            for m, c in fc.t.items():
                s = abs(float(c))
                for a, p in m:
                    A = PL.ATOMS[a]; s *= (3e6 if a in jd.atoms() or A.hi == INF or A.hi > 3e6 else max(abs(float(A.lo)), abs(float(A.hi)), 1)) ** p
                mx = max(mx, s)
            if mx < 1e-8: ok = True; why = 'whole turns %s; rounding %.1e turn' % (ic, mx)
        if ok is None:
            dd = ident.differ(v, w, 1e-7, envs=[{next(iter(jd.atoms())): 2451545 + x} for x in (0., .25, .5, .9, -.25, 1234.5678, -5678.125, 40000.3, -40000.9, 365250.4)], mod=2 * math.pi)
            if dd: ok = False; why = 'at %s: %.9f instead of %.9f' % (list(dd[0].values())[0], dd[1] % (2 * math.pi), dd[2] % (2 * math.pi))
        rep.add(G, ok, 'formula', why, where(f))

# Meeus, Astronomical Algorithms, ch. 47/49 ("Phases of the Moon")
AMP = {  # M' M M'2 F2 M'-M M'+M M2 M'-2F M'+2F : (M', M, F) multiples
  'new': (-.40720, .17241, .01608, .01039, .00739, -.00514, .00208, -.00111, -.00057),
  'quarter': (-.62801, .17172, .00862, .00804, .00454, -.01183, .00204, -.00180, -.00070),
  'full': (-.40614, .17302, .01614, .01043, .00734, -.00515, .00209, -.00111, -.00057)}
ARGS = ((1, 0, 0), (0, 1, 0), (2, 0, 0), (0, 0, 2), (1, -1, 0), (1, 1, 0), (0, 2, 0), (1, 0, -2), (1, 0, 2))
def phases(rep, P):
    f = core.need(P, 'find_nearest_lunar_phase_time'); G = 'lunar phase times'
    for idx, nm, w in ((0, 'new', 0.0), (1, 'quarter', .00306), (2, 'full', 0.0), (3, 'quarter', -.00306)):
        with guard(rep, G, 'phase %d' % idx, where(f)):
            r = Run(P); t2k = S('t2k', -4e6, 4e6)
            n = S('n', -10**6, 10**6, True); seen = []
            fl = lambda I, st, a, ins, m: (seen.append(a[0]), (st, n))[1]
            for q in ('floorl', 'floor', 'llvm.floor.f80', 'llvm.floor.f64'): r.I.hooks[q] = fl
            v = r.call(f, K(idx), t2k); rep.note_funcs(r.I)
            if len(seen) != 1: rep.add(G, None, 'phase %d' % idx, 'lunation number not from one floor()', where(f)); continue
            k = n + K(Fr(idx, 4)); R = math.pi / 180
            # nearest: the argument of floor is (t - t0)/lunation - phase + 1/2
            warg = (t2k - K(Fr('5.09765'))).scale(1 / Fr('29.530588853')) - K(Fr(idx, 4)) + K(Fr(1, 2))
            ok, why = ident.same(seen[0], warg, ctol=1e-9); rep.add(G, ok, 'phase %d: nearest lunation' % idx, why, where(f))
            nid = next(iter(n.atoms()))
            F = {'mp': (201.5643, 385.81693528), 'm': (2.5534, 29.10535669), 'f': (160.7108, 390.67050274)}
            orc = []
            for am, a in zip(AMP[nm], ARGS):
                A1 = sum(x * F[y][1] for x, y in zip(a, ('mp', 'm', 'f'))) * R
                A0 = sum(x * (F[y][0] + F[y][1] * idx / 4) for x, y in zip(a, ('mp', 'm', 'f'))) * R
                orc.append(((A0, A1, 0, 0), am))
            acc, foreign, rest, err = series(v, nid, orc, 1)
            if acc is None: rep.add(G, None, 'phase %d' % idx, err, where(f)); continue
            rep.add(G, not foreign, 'phase %d: no other term' % idx, 'extra %s' % foreign[:3], where(f))
            for (A, am), g, a in zip(orc, acc, ARGS):
                rep.add(G, abs(g[0] - am) < 1e-7 and abs(g[1]) < 1e-12 and abs(g[2]) < 1e-7 and abs(g[3]) < 1e-12 and g[4] is True, 'phase %d: term %s' % (idx, a), 'amplitude %.7f, published %.5f; %s' % (g[0], am, g[4]), where(f))
            c = tcoef(rest, nid, 1)
            w0 = 5.09765 + .25 * idx * 29.530588853 + w
            rep.add(G, None if c is None else abs(c[0] - w0) < 1e-7 and abs(c[1] - 29.530588853) < 1e-12, 'phase %d: mean lunation' % idx, 'mean time %s, published %.6f + 29.530588853 n' % (c, w0), where(f))
