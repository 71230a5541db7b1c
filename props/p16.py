"""P16: two-body orbits: orbital frame, Kepler motion, classical elements from a state vector."""
import core, math, ident
from alg import *
from poly import PI_A, absval
import poly as PL
from p09 import rng, EXP, LOG
from p10 import cases, feasible
LEVEL = 'proof'
TECHNIQUE = ('abstract interpretation of LLVM IR on symbolic elements / symbolic state vectors (trigonometric, hyperbolic and radical normal forms), trace partitioning on open branches; '
             'results compared with the Keplerian relations')
RULE = ('orbit functions are interpreted with every element a symbol bounded to one regime (direct/retrograde/planar, elliptic/parabolic/hyperbolic, each quadrant of the argument of periapsis); '
        'each output field must have the normal form required by two-body motion, and the state vector -> elements map applied to the state vector of symbolic elements must return those elements.')
PIp = Poly.var(PI_A)
k_ = lambda s: K(Fr(s))
SQ2 = K(Fr(math.sqrt(2)))
KG2 = Fr('.01720209895') ** 2

def at1(nm, p): return Poly.var(atom((nm, p)))
def sch(p):
    if p.t and p.t[min(p.t)] < 0:
        s, c = sch(-p); return -s, c
    return Poly.var(atom(('sinh', p), *PL._mono('sinh', p))), Poly.var(atom(('cosh', p), 1, INF))
class E:
    """an ELEMENTS record of symbols"""
    lay = None
    def __init__(self, r, vals):
        L = E.lay
        self.r = r; self.p = r.arr([], size=L[''][0], name='elements')
        for n, v in vals.items():
            for i, x in enumerate(v if isinstance(v, list) else [v]): r.I.store(r.st, Ptr(self.p.obj, K(L[n][0] + 8 * i)), x, D, None, r.m)
    def get(self, n, i=0): return self.r.out(Ptr(self.p.obj, K(E.lay[n][0] + 8 * i)), D)
    def int(self, n): return self.r.out(Ptr(self.p.obj, K(E.lay[n][0])), llir.I32)
    def vec(self, n): return [self.get(n, i) for i in range(3)]

class Fix(dict):
    pass
def near(env_conds): return env_conds

def check(rep, G, key, conds, got, want, site, mod=None, tol=1e-7):
    """one obligation on one trace: normal-form equality (of sine and cosine when mod is set), else a witness inside the trace's conditions"""
    ATm = ident.ATOMS
    if not isinstance(got, Poly): rep.add(G, None, key, 'not a scalar: %r' % (got,), site); return
    if any(ATm[a].key[0] == 'never' for a in got.deep_atoms()): rep.add(G, False, key, 'the value is never written', site); return
    zero = lambda d: PL.is_zero(d, Fr(1, 10**11), 1)
    try:
        if zero(got - want): rep.add(G, True, key, 'equal normal forms', site); return
        if zero(ident.canon(got) - ident.canon(want)): rep.add(G, True, key, 'equal normal forms', site); return
        if mod:
            (a, b), (c, d) = sincos(got), sincos(want)
            if zero(a - c) and zero(b - d): rep.add(G, True, key, 'equal sines and cosines', site); return
    except (OverflowError, RecursionError, ZeroDivisionError): pass
    at = ident.leaves(got) | ident.leaves(want)
    for c in conds:
        for p in c.polys(): at |= ident.leaves(p)
    if any(ATm[a].key[0] in ('fresh', 'phi', 'w') for a in at): rep.add(G, None, key, 'opaque: %s' % str(got)[:200], site); return
    n = 0
    for env in ident.sample(at, 120):
        try:
            if not all(ident.ncond(c, env, {}) for c in conds): continue
            x, y = float(ident.nev(got, env)), float(ident.nev(want, env)); n += 1
        except (ident.NoVal, OverflowError): continue
        d = math.remainder(x - y, mod) if mod else x - y
        if abs(d) > tol * max(1, abs(x), abs(y)):
            rep.add(G, False, key, '%.10g instead of %.10g with %s' % (x, y, ', '.join('%s=%.6g' % (PL.aname(a), float(t)) for a, t in list(env.items())[:10])), site); return
    rep.add(G, None, key, 'no proof (%d valuations agree); value %s; required %s' % (n, str(got)[:120], str(want)[:120]), site)

def frame(O, i, w):
    """direction of periapsis and the direction 90 degrees ahead in the orbit"""
    (sO, cO), (si, ci), (sw, cw) = sincos(O), sincos(i), sincos(w)
    return [cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si], [-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si]

def run(rep):
    P = core.units(['astfuncs.cpp', 'classel.cpp', 'miscell.cpp'])
    E.lay = core.layout(['watdefs.h', 'comets.h'], 'perih_time', 'asc_node', 'sideways')
    PL.EXPAND_TRIG[0] = True; PL.REDUCE[0] = True
    global PROG
    PROG = P
    jobs = [(g, None) for g in (vectors, astfile, motion, series, noangles)] + [(kep1, c) for c in kclasses()] + [(classical1, o) for o in orbits()]
    jobs.sort(key=lambda j: 0 if j[0] is kep1 and j[1][0] == 'slow convergence' else 1)
    for adds, fs in core.pmap(job, jobs, 1):
        rep.merge(adds); rep.funcs |= fs
    rep.minimum = 1500

class Sub:
    """collects the obligations of one job"""
    def __init__(self): self.adds = []; self.funcs = set()
    def add(self, *a): self.adds.append(a)
    def note_funcs(self, I):
        for f in I.analysed: self.funcs.add(f)
PROG = None
def job(j):
    s = Sub(); g, x = j; PL.REDUCE[0] = True; PL.EXPAND_TRIG[0] = True
    if x is None: g(s, PROG)
    else: g(s, PROG, x)
    return s.adds, s.funcs

INCL = (('direct', Fr(1, 100), Fr(157, 100)), ('retrograde', Fr(158, 100), Fr(313, 100)))
def vectors(rep, P):
    G = 'orbital frame'; f = core.need(P, 'derive_quantities')
    for nm, lo, hi in INCL + (('equatorial', 0, 0), ('reversed equatorial', None, None)):
        for en, elo, ehi in (('elliptic', 0, Fr(99, 100)), ('parabolic', 1, 1), ('hyperbolic', Fr(101, 100), 9)):
            key = '%s, %s: ' % (nm, en)
            with guard(rep, G, key, where(f)):
                def go(r):
                    i = PIp if lo is None else K(0) if lo == hi else rng('incl', lo, hi)
                    O, w = rng('node', -7, 7), rng('argper', -7, 7); ec = K(1) if elo == 1 else rng('ecc', elo, ehi)
                    q, gm = rng('q', Fr(1, 100), 60), rng('gm', Fr(1, 10000), 2)
                    el = E(r, dict(ecc=ec, arg_per=w, asc_node=O, incl=i, q=q))
                    r.call(f, el.p, gm); rep.note_funcs(r.I)
                    return el, i, O, w, ec, q, gm
                for r, pc, (el, i, O, w, ec, q, gm) in paths(P, go):
                    if feasible(pc) is None and pc: continue
                    A, B = frame(O, i, w)
                    for n, v in (('perih_vec', A), ('sideways', B)):
                        for j in range(3): check(rep, G, key + '%s[%d]' % (n, j), pc, el.get(n, j), v[j], where(f))
                    check(rep, G, key + 'angular momentum', pc, el.get('angular_momentum') * el.get('angular_momentum'), gm * q * (K(1) + ec), where(f))
                    rep.add(G, PL.sgn(el.get('angular_momentum')) > 0 or None, key + 'angular momentum positive', str(el.get('angular_momentum')), where(f))
                    m = el.get('minor_to_major')
                    check(rep, G, key + 'axis ratio', pc, m * m, (K(1) - ec * ec).scale(1 if en != 'hyperbolic' else -1), where(f))
                    (s, c), (sw, cw), (si, ci), (sO, cO) = sincos(el.get('lon_per')), sincos(w), sincos(i), sincos(O)
                    # the longitude of periapsis is the direction of the periapsis vector's projection
                    check(rep, G, key + 'longitude of periapsis: direction', pc, s * A[0] - c * A[1], ZERO, where(f))
                    check(rep, G, key + 'longitude of periapsis: sense', pc, (c * A[0] + s * A[1]) * (c * A[0] + s * A[1]), A[0] * A[0] + A[1] * A[1], where(f))
                    if en == 'parabolic':
                        check(rep, G, key + 'w0', pc, el.get('w0') * q * PL.sqrt_(q * inv(gm)), k_(3) * inv(SQ2), where(f))
                        for n in ('major_axis', 't0'): check(rep, G, key + n, pc, el.get(n), ZERO, where(f))
                    else:
                        a = q * inv(K(1) - ec) if en == 'elliptic' else q * inv(ec - K(1))
                        check(rep, G, key + 'major axis', pc, el.get('major_axis'), a, where(f))
                        check(rep, G, key + 'time scale: t0^2 gm = a^3', pc, el.get('t0') * el.get('t0') * gm, a * a * a, where(f))
                        rep.add(G, PL.sgn(el.get('t0')) > 0 or None, key + 't0 positive', str(el.get('t0')), where(f))

def astfile(rep, P):
    G = 'packed asteroid elements'; f = core.need(P, 'setup_elems_from_ast_file')
    U = llir.I32
    for nm, lo, hi, ax in (('up to 21 AU', 1, 2100000000, lambda a: a),
                           ('21..63 AU', 2100000001, 3150000000, lambda a: a.scale(4) - K(63)),
                           ('beyond 63 AU', 3150000001, 4199999999, lambda a: K(63) * inv(K(4) - a.scale(Fr(10, 105))))):
        with guard(rep, G, nm, where(f)):
            r = Run(P); rec = {}
            def hk(I, st, x, ins, m):
                t0 = rng('t0', Fr(1, 100), 10**6); rec['gm'] = x[1]; rec['q'] = I.load(st, Ptr(x[0].obj, x[0].off + K(E.lay['q'][0])), D, None, m)
                I.store(st, Ptr(x[0].obj, x[0].off + K(E.lay['t0'][0])), t0, D, None, m); rec['t0'] = t0
                return st, ZERO
            r.I.hooks['derive_quantities'] = hk
            el = E(r, {}); x = [Poly.var(atom(('in', 'elem', i, lo if i == 1 else 0), lo if i == 1 else 0, (hi if i == 1 else 3600000000 if i != 2 else 99999999), True, 'elem%d' % i)) for i in range(6)]
            o = r.I.new_obj(r.st, 24, 'arg', 'packed', 'undef')
            for i in range(6): r.I.store(r.st, Ptr(o.id, K(4 * i)), x[i], U, None, r.m)
            t = rng('epoch', 2000000, 3000000)
            rv = r.call(f, el.p, Ptr(o.id, ZERO), t); rep.note_funcs(r.I)
            d = PIp.scale(Fr(1, 1800000000))
            ecc = x[2].scale(Fr(1, 10**8)); a = ax(x[1].scale(Fr(1, 10**8)))
            M = x[0] * d
            for n, w in (('mean_anomaly', M), ('asc_node', x[3] * d), ('arg_per', x[4] * d), ('incl', x[5] * d), ('ecc', ecc), ('major_axis', a), ('q', a * (K(1) - ecc)), ('epoch', t), ('gm', K(KG2)),
                         ('perih_time', t - M * rec.get('t0', ZERO))):
                check(rep, G, '%s: %s' % (nm, n), (), el.get(n), w, where(f), tol=1e-9)
            check(rep, G, nm + ': gravitational parameter', (), rec.get('gm', ZERO), K(KG2), where(f), tol=1e-12)
            check(rep, G, nm + ': perihelion distance is set before the derived quantities', (), rec.get('q', ZERO), a * (K(1) - ecc), where(f))
            c = el.int('central_obj'); rep.add(G, True if c == ZERO else False if isinstance(c, Poly) and c.c is not None else None, nm + ': central object is the Sun', str(c), where(f))

def solve_kepler(ecc, M):
    """the eccentric (hyperbolic) anomaly: what the symbol 'eccanom' stands for when a term is valued"""
    ecc, M = float(ecc), float(M)
    if ecc < 1:
        n = round(M / (2 * math.pi)); lo, hi, fn = M - 1.01, M + 1.01, lambda x: x - ecc * math.sin(x) - M
    elif ecc > 1:
        b = math.asinh(abs(M) / (ecc - 1)) + 1; lo, hi, fn = -b, b, lambda x: ecc * math.sinh(x) - x - M
    else: raise ident.NoVal('parabolic')
    for _ in range(80):
        c = (lo + hi) / 2
        if fn(c) < 0: lo = c
        else: hi = c
    return (lo + hi) / 2
ident.CUSTOM['eccanom'] = solve_kepler
def hkep(rec):
    def h(I, st, x, ins, m):
        rec.append(x); lim = 4 if x[0].c is None or x[0].c < 1 else 4
        return st, Poly.var(atom(('eccanom', x[0], x[1]), -lim, lim))
    return h
def motion(rep, P):
    G = 'position and velocity'; f = core.need(P, 'comet_posn_and_vel'); g = core.need(P, 'comet_posn')
    A, B = V('perih_vec'), V('sideways')
    for en, elo, ehi in (('elliptic', 0, Fr(99, 100)), ('parabolic', 1, 1), ('hyperbolic', Fr(101, 100), 9)):
        for want in ('both', 'position', 'velocity', 'no momentum', 'comet_posn'):
            key = '%s, %s: ' % (en, want)
            with guard(rep, G, key, where(f)):
                def go(r):
                    rec = []; r.I.hooks['kepler'] = hkep(rec)
                    ec = K(1) if elo == 1 else rng('ecc', elo, ehi)
                    q = rng('q', Fr(1, 100), 60); Tp = rng('perih_time', -10**6, 10**6); t = rng('t', -10**6, 10**6); t0 = rng('t0', 1, 10**5)
                    m = PL.sqrt_((K(1) - ec * ec).scale(-1 if en == 'hyperbolic' else 1)) if en != 'parabolic' else ZERO
                    L = ZERO if want == 'no momentum' else rng('L', Fr(1, 1000), 2); w0 = rng('w0', Fr(1, 10000), 1)
                    el = E(r, dict(ecc=ec, q=q, perih_time=Tp, t0=t0, minor_to_major=m, angular_momentum=L, w0=w0, perih_vec=A, sideways=B))
                    loc, vel = r.arr([None] * 4), r.arr([None] * 3)
                    if want == 'comet_posn': rv = r.call(g, el.p, t, loc)
                    else: rv = r.call(f, el.p, t, NULL if want == 'velocity' else loc, NULL if want == 'position' else vel)
                    rep.note_funcs(r.I)
                    return rec, ec, q, t - Tp, t0, m, L, w0, r.get(loc, 4), r.get(vel, 3), el.get('mean_anomaly') if en != 'parabolic' else None
                n = 0
                for r, pc, (rec, ec, q, dt, t0, m, L, w0, loc, vel, Ms) in paths(P, go):
                    if pc and feasible(pc) is None: continue
                    n += 1; tag = key + ('trace %d ' % n)
                    if en == 'parabolic':
                        gg = w0 * dt.scale(Fr(1, 2)); y = EXP(LOG(gg + PL.sqrt_(gg * gg + K(1))).scale(Fr(1, 3)))
                        nu = at1('atan', y - inv(y)).scale(2); sn, cn = sincos(nu)
                        rr = q.scale(2) * inv(K(1) + cn); X, Y = rr * cn, rr * sn
                        xd, yd = -sn * L * inv(q.scale(2)), (K(1) + cn) * L * inv(q.scale(2))
                    else:
                        if len(rec) != 1: rep.add(G, None, tag + 'one solution of the Kepler equation', '%d calls' % len(rec), where(f)); continue
                        Ec = Poly.var(atom(('eccanom', rec[0][0], rec[0][1]))); ee, M = rec[0][0], rec[0][1]
                        check(rep, G, tag + 'eccentricity handed to the Kepler equation', pc, ee, ec, where(f))
                        check(rep, G, tag + 'mean anomaly handed to the Kepler equation', pc, M, dt * inv(t0), where(f), mod=2 * math.pi if en == 'elliptic' else None)
                        check(rep, G, tag + 'mean anomaly stored', pc, Ms, dt * inv(t0), where(f), mod=2 * math.pi if en == 'elliptic' else None)
                        if en == 'elliptic':
                            (s, c), a = sincos(Ec), q * inv(K(1) - ec)
                            rr = a * (K(1) - ec * c); X, Y = a * (c - ec), a * m * s
                            f0 = L * inv(m * rr); xd, yd = -s * f0, m * c * f0          # n a = L / (a m)
                        else:
                            (s, c), a = sch(Ec), q * inv(ec - K(1))
                            rr = a * (ec * c - K(1)); X, Y = a * (ec - c), a * m * s
                            f0 = L * inv(m * rr); xd, yd = -s * f0, m * c * f0
                    for j in range(3):
                        if want != 'velocity': check(rep, G, tag + 'position[%d]' % j, pc, loc[j], A[j] * X + B[j] * Y, where(f))
                        if want in ('both', 'velocity'): check(rep, G, tag + 'velocity[%d]' % j, pc, vel[j], A[j] * xd + B[j] * yd, where(f))
                        elif want != 'no momentum': pass
                    if want != 'velocity': check(rep, G, tag + 'distance', pc, loc[3], rr, where(f))
                if not n: rep.add(G, None, key + 'no trace', '', where(f))

def series(rep, P):
    G = 'near-parabolic series'
    for name, mk in (('near_parabolic', lambda f, r, x, e: r.call(f, x, e)), ('remaining_terms', lambda f, r, x, e: r.call(f, x))):
        try: f = P.find(name)
        except KeyError: rep.add(G, None, name, 'no such function', ''); continue
        for nm, lo, hi in (('elliptic', Fr(1, 2), Fr(999, 1000)), ('hyperbolic', Fr(1001, 1000), 2)) if name == 'near_parabolic' else (('elliptic', -Fr(1, 4), -Fr(1, 1000)), ('hyperbolic', Fr(1, 1000), Fr(1, 4))):
            with guard(rep, G, name, where(f)):
                ell = nm == 'elliptic'
                x = rng('anom', Fr(1, 20), Fr(3, 10)) if name == 'near_parabolic' else rng('square', lo, hi); e = rng('ecc', lo, hi) if name == 'near_parabolic' else ZERO
                def go(r):
                    v = mk(f, r, x, e); rep.note_funcs(r.I); return v
                n = 0
                for r, pc, v in paths(P, go):
                    # partial sum: as many terms as the trace has added
                    n += 1; deg = 0; ok = None
                    for kk in range(0, 20):
                        s = ZERO; fct = 1
                        if name == 'near_parabolic':
                            s = (K(1) - e) * x; fc = 1; tm = e * x
                            for j in range(1, kk + 1):
                                fc = 2 * j * (2 * j + 1); tm = (tm * x * x).scale(Fr(-1 if ell else 1, fc)); s = s - tm
                        else:
                            tm = K(1)
                            for j in range(1, kk + 1): tm = (tm * x).scale(Fr(1, 2 * j * (2 * j + 1))); s = s + tm
                        if PL.is_zero(PL.normal(v - s), Fr(1, 10**14), 1): ok = kk; break
                    key = '%s, %s: trace of %d terms' % (name, nm, len(pc))
                    if ok is not None: rep.add(G, ok >= 2, key, 'sum of %d terms' % ok, where(f)); continue
                    # witness: far from the sum of the series
                    if name == 'near_parabolic': tgt = lambda X, Ec: X - Ec * (math.sin(X) if ell else math.sinh(X))
                    else: tgt = lambda X, _: (math.sin(math.sqrt(-X)) / math.sqrt(-X) - 1 if ell else math.sinh(math.sqrt(X)) / math.sqrt(X) - 1)
                    bad = None
                    at = ident.leaves(v) | ident.leaves(x) | (ident.leaves(e) if e.t else set())
                    if not any(ident.ATOMS[a].key[0] in ('fresh', 'phi', 'w') for a in at):
                        for env in ident.sample(at, 60):
                            try:
                                if not all(ident.ncond(c, env, {}) for c in pc): continue
                                a, b = float(ident.nev(v, env)), tgt(float(ident.nev(x, env)), float(ident.nev(e, env)))
                            except ident.NoVal: continue
                            if abs(a - b) > 1e-11: bad = '%.15g instead of %.15g' % (a, b); break
                    rep.add(G, False if bad else None, key, bad or 'not a partial sum of the series', where(f))

def kclasses():
    cls = []
    for ml, mlo, mhi in (('positive', Fr(1, 100), Fr(314, 100)), ('negative', -Fr(314, 100), -Fr(1, 100)), ('several turns', 4, 60), ('several turns back', -60, -4)):
        for el, lo, hi in (('low eccentricity', 0, Fr(89, 100)), ('high eccentricity', Fr(9, 10), Fr(999, 1000))): cls.append((ml, mlo, mhi, el, lo, hi))
    for ml, mlo, mhi in (('positive', Fr(1, 100), 20), ('negative', -20, -Fr(1, 100))):
        cls.append((ml, mlo, mhi, 'hyperbolic', Fr(1001, 1000), 5))
    return cls + [('slow convergence', Fr(1, 100), Fr(1, 10), 'high eccentricity', Fr(9, 10), Fr(999, 1000)), ('slow convergence', Fr(1, 100), Fr(1, 10), 'hyperbolic', Fr(1001, 1000), Fr(1005, 1000))]
def kep1(rep, P, cl):
    G = "Kepler's equation"; f = core.need(P, 'kepler')
    PL.EXPAND_TRIG[0] = False
    for ml, mlo, mhi, el, lo, hi in [cl]:
        slow = ml == 'slow convergence'; LIM = 9 if slow else 4
        key = '%s, mean anomaly %s: ' % (el, ml)
        with guard(rep, G, key, where(f)):
            e, M = rng('ecc', lo, hi), rng('M', mlo, mhi); hyp = el == 'hyperbolic'
            def go(r):
                cnt = [0]; args = []
                for fn_ in ('sin', 'sinh'):
                    def hk(I, st, x, ins, m, fn_=fn_):
                        args.append(x[0]); cnt[0] += 1
                        if cnt[0] > LIM: raise absint.DeadPath()
                        if fn_ == 'sin': return st, sincos(x[0])[0]
                        return st, sch(x[0])[0]
                    r.I.hooks[fn_] = hk
                def hn(I, st, x, ins, m):       # the series of the obligations above
                    args.append(x[0]); cnt[0] += 1
                    if cnt[0] > LIM: raise absint.DeadPath()
                    return st, x[0] - x[1] * (sch(x[0])[0] if hyp else sincos(x[0])[0])
                r.I.hooks['near_parabolic'] = hn
                v = r.call(f, e, M); rep.note_funcs(r.I)
                return v, args
            n = 0
            for r, pc, (v, args) in paths(P, go, 400):
                n += 1; tag = key + 'trace %d: ' % n
                if slow and len(args) not in (8, 9): continue
                # residual of the equation at valuations inside the trace
                res = None; tried = 0
                at = ident.leaves(v) | ident.leaves(e) | ident.leaves(M)
                for c in pc:
                    for p in c.polys(): at |= ident.leaves(p)
                if any(ident.ATOMS[a].key[0] in ('fresh', 'phi', 'w') for a in at): rep.add(G, None, tag + 'opaque', '', where(f)); continue
                for env in ident.sample(at, 60):
                    memo = {}
                    try:
                        if not all(ident.ncond(c, env, memo) for c in pc): continue
                        x, ee, mm_ = float(ident.nev(v, env, memo)), float(ident.nev(e, env)), float(ident.nev(M, env)); tried += 1
                    except (ident.NoVal, OverflowError): continue
                    d = (ee * math.sinh(x) - x if hyp else x - ee * math.sin(x)) - mm_
                    if abs(d) > 1e-9 * max(1, abs(mm_)): res = 'residual %.3g at ecc=%.9g M=%.9g' % (d, ee, mm_); break
                if res: rep.add(G, False, tag + 'the result solves the equation', res, where(f)); continue
                # Newton: the last correction is what the exit test bounds
                pr = None
                for w in reversed(args):
                    if hyp: s, c = sch(w)
                    else: s, c = sincos(w)
                    for sg in (1, -1):
                        for mv_ in [M.scale(sg)] + red([v, w], M, sg):
                            fx = (e * s - w - mv_) if hyp else (w - e * s - mv_); fp = (e * c - K(1)) if hyp else (K(1) - e * c)
                            corr = fx * inv(fp); nw = w - corr
                            off = M.scale(sg) - mv_
                            d = PL.normal((nw + off).scale(sg) - v)
                            if not d.t or not slow and PL.is_zero(d): pr = corr; break
                        if pr is not None: break
                    if pr is not None: break
                if pr is None and v == M and any(c.op == 'le' and len(c.p.t) == 1 and any(ident.ATOMS[a].key[0] == 'fmod' and ident.ATOMS[a].key[1] == M and c.p.t.get(((a, 1),), 0) < 0 for a in c.p.atoms()) for c in pc) and mhi < 0:
                    rep.add(G, True, tag + 'a whole number of turns is its own solution', '', where(f)); continue
                if pr is None: rep.add(G, None, tag + 'Newton step', 'shape not recognised (%d valuations agree)' % tried, where(f)); continue
                ok = None
                for c in pc:
                    for th in thresholds(c, pr):
                        ok = th <= 1e-11 * 10
                rep.add(G, ok, tag + 'the result is a Newton iterate whose last correction is at most the exit threshold', 'threshold', where(f))
            if not n: rep.add(G, None, key + 'no trace', '', where(f))
    PL.EXPAND_TRIG[0] = True

def red(vs, M, sg):
    """reduced mean anomalies occurring in a value: fmod atoms of M and those plus or minus a turn"""
    out = []
    for a in sorted(set().union(*(v.deep_atoms() for v in vs))):
        k = ident.ATOMS[a].key
        if k[0] == 'fmod' and (k[1] == M):
            for q in (0, 2, -2): out.append((Poly.var(ident.ATOMS[a]) + PIp.scale(q)).scale(sg))
    return out
def thresholds(c, corr):
    """bounds a trace condition puts on |corr|"""
    out = []
    for x in ([c] if c.op not in ('and', 'or') else []):
        p = x.p
        for a in p.atoms():
            k = ident.ATOMS[a].key
            if k[0] == 'abs' and x.op in ('le', 'lt') and p.t.get(((a, 1),)) == 1 and (PL.is_zero(k[1] - corr) or PL.is_zero(k[1] + corr)):
                t = -(p - Poly.var(ident.ATOMS[a]))
                try: lo, hi = PL.prng(t); out.append(float(hi))
                except Exception: pass
    return out

# argument of periapsis: between the places where its computation changes form
WBOX = (('0.01', '0.79'), ('0.8', '2.34'), ('2.35', '3.13'), ('3.15', '3.93'), ('3.94', '5.48'), ('5.49', '6.27'))
def orbits():
    """(name, regime, eccentricity box, inclination box or exact, node box, arg. of periapsis box, anomaly box)"""
    W = [(Fr(a), Fr(b)) for a, b in WBOX]
    I = {'direct': (Fr(1, 100), Fr(157, 100)), 'retrograde': (Fr(158, 100), Fr(313, 100))}
    for en, eb in (('elliptic', (Fr(1, 100), Fr(89, 100))), ('eccentric', (Fr(91, 100), Fr(9999, 10000))), ('nearly parabolic ellipse', (Fr(999991, 10**6), Fr(999999, 10**6))),
                   ('nearly parabolic hyperbola', (Fr(1000001, 10**6), Fr(1000009, 10**6))), ('hyperbolic', (Fr(1001, 1000), 9)), ('parabolic', (1, 1)), ('circular', (0, 0))):
        for inn, ib in I.items():
            for k, wb in enumerate(W):
                if en not in ('elliptic', 'hyperbolic', 'circular') and k not in (1, 4): continue
                for ab in ((Fr(1, 100), Fr(3)), (-Fr(3), -Fr(1, 100))):
                    if en == 'circular' and ab[0] < 0: continue
                    yield '%s, %s, periapsis %.2f..%.2f, %s' % (en, inn, wb[0], wb[1], 'outbound' if ab[0] > 0 else 'inbound'), en, eb, ib, wb, ab
    for en, eb in (('elliptic', (Fr(1, 100), Fr(89, 100))), ('hyperbolic', (Fr(1001, 1000), 9))):
        for inn, ib in (('in the reference plane', 0), ('in the reference plane, reversed', None)):
            for wb in W: yield '%s, %s, periapsis %.2f..%.2f' % (en, inn, wb[0], wb[1]), en, eb, ib, wb, (Fr(1, 100), Fr(3))

def classical1(rep, P, job):
    name, en, eb, ib, wb, ab = job
    G = 'elements from a state vector'; f = core.need(P, 'calc_classical_elements'); w_ = where(f)
    hyp = 'hyperbol' in en; par = en == 'parabolic'; cir = en == 'circular'; flat = not isinstance(ib, tuple)
    ec = K(eb[0]) if eb[0] == eb[1] else rng('ecc', *eb)
    i = (K(0) if ib == 0 else PIp) if flat else rng('incl', *ib)
    O = ZERO if flat else rng('node', Fr(-3), Fr(3)); w = rng('argper', *wb)
    a = rng('a', Fr(1, 10), 50); an = rng('anomaly', *ab) if not cir else ZERO; t = rng('t', 2000000, 3000000); nn = rng('n', Fr(1, 1000), 2)
    A, B = frame(O, i, w)
    m = ZERO if par else PL.sqrt_((ec * ec - K(1)) if hyp else K(1) - ec * ec)
    if par:
        s = an; q = a; L = nn; gm = L * L * inv(q.scale(2))
        X, Y = q * (K(1) - s * s), (q * s).scale(2)
        ff = L * inv(q * (K(1) + s * s)); xd, yd = -s * ff, ff
        T0 = None; Tp = t - (s * s * s.scale(Fr(1, 3)) + s) * (q * q).scale(2) * inv(L)
    elif hyp:
        s, c = sch(an); X, Y = a * (ec - c), a * m * s; ff = nn * a * inv(ec * c - K(1)); xd, yd = -s * ff, m * c * ff
        M = ec * s - an; q = a * (ec - K(1)); L = nn * a * a * m; gm = nn * nn * a * a * a
    else:
        s, c = sincos(an); X, Y = a * (c - ec), a * m * s; ff = nn * a * inv(K(1) - ec * c); xd, yd = -s * ff, m * c * ff
        M = an - ec * s; q = a * (K(1) - ec); L = nn * a * a * m; gm = nn * nn * a * a * a
    if not par: Tp = t - M * inv(nn)
    pos = [A[j] * X + B[j] * Y for j in range(3)]; vel = [A[j] * xd + B[j] * yd for j in range(3)]
    nz = lambda v: [PL.normal(x) for x in v]
    with guard(rep, G, name, w_):
        def go(r):
            def hk(I, st, x, ins, mod):
                z = x[0]            # sum of x^k/(2k+1)!, k>=1 (obligations of the series): sin(u)/u - 1 with z = -u^2, sinh(u)/u - 1 with z = u^2
                neg_ = z.t and all(cc < 0 for cc in z.t.values())
                u = PL.sqrt_(-z if neg_ else z)
                un_ = u if True else None
                return st, (sincos(u)[0] if neg_ else sch(u)[0]) * inv(u) - K(1)
            r.I.hooks['remaining_terms'] = hk
            el = E(r, dict(gm=gm)); sv = r.arr(nz(pos + vel), 'state vector')
            try: rv = r.call(f, el.p, sv, t, K(1)); rep.note_funcs(r.I)
            except Imprecise as e:
                if 'no path returns' not in str(e): raise
                if r.I.pathc: raise absint.DeadPath()
                raise BadAccess('an assertion fails for every such orbit')
            return el
        n = 0
        for r, pc, el in paths(P, go, 60):
            if pc and feasible(pc) is None: continue
            n += 1; key = name + (', trace %d: ' % n if n > 1 else ': ')
            ck = lambda nm, got, want, **kw: check(rep, G, key + nm, pc, got, want, w_, **kw)
            ck('eccentricity', el.get('ecc'), ec); ck('periapsis distance', el.get('q'), q)
            ck('inclination: cosine', sincos(el.get('incl'))[1], sincos(i)[1]); ck('inclination: sine', sincos(el.get('incl'))[0], sincos(i)[0])
            if flat: ck('node (arbitrary: 0)', el.get('asc_node'), ZERO)
            else: ck('ascending node', el.get('asc_node'), O, mod=2 * math.pi)
            ck('argument of periapsis', el.get('arg_per'), w, mod=2 * math.pi)
            ck('time of periapsis', *((el.get('perih_time'), Tp) if par or cir else (el.get('perih_time') + el.get('mean_anomaly') * inv(nn), t)))
            sg = -1 if hyp else 1               # hyperbolic: sense of sideways, t0 and momentum all reversed (see the round trip)
            for j in range(3): ck('periapsis vector[%d]' % j, el.get('perih_vec', j), A[j])
            L2 = el.get('angular_momentum')
            if cir: ck('mean anomaly is zero: the periapsis is taken where the object is', el.get('mean_anomaly'), ZERO); ck('angular momentum (absolute)', L2 * L2, L * L)
            for j in range(3): ck('momentum times sideways[%d]' % j, el.get('sideways', j) * L2, B[j] * L)
            if not par:
                ck('axis ratio', el.get('minor_to_major'), m)
                ck('major axis', el.get('major_axis') * el.get('major_axis'), a * a)
                ck('mean motion', el.get('t0') * nn * L2, L)
                Mg = el.get('mean_anomaly')
                if cir: pass
                elif hyp: ck('mean anomaly', Mg, M)
                else: ck('mean anomaly', Mg + ec * s, an, mod=2 * math.pi)
            else: ck('w0', el.get('w0') * q * PL.sqrt_(q * inv(gm)), k_(3) * inv(SQ2))
        if not n: rep.add(G, None, name + 'no trace', '', w_)
def noangles(rep, P):
    """without the reference-plane request, the angles are left alone and everything else is the same"""
    G = 'elements without angles'; f = core.need(P, 'calc_classical_elements')
    with guard(rep, G, 'ref = 0', where(f)):
        a, an, nn, t = rng('a', Fr(1, 10), 50), rng('anomaly', Fr(1, 100), Fr(3)), rng('n', Fr(1, 1000), 2), rng('t', 2000000, 3000000)
        ec = rng('ecc', Fr(1, 100), Fr(89, 100)); A, B = frame(rng('node', Fr(-3), Fr(3)), rng('incl', Fr(1, 100), Fr(157, 100)), rng('argper', Fr(1, 100), Fr(79, 100)))
        m = PL.sqrt_(K(1) - ec * ec); s, c = sincos(an); X, Y = a * (c - ec), a * m * s; ff = nn * a * inv(K(1) - ec * c); xd, yd = -s * ff, m * c * ff
        def go(r):
            el = E(r, dict(gm=nn * nn * a * a * a, incl=S('old1'), asc_node=S('old2'), arg_per=S('old3')))
            try: r.call(f, el.p, r.arr([PL.normal(A[j] * X + B[j] * Y) for j in range(3)] + [PL.normal(A[j] * xd + B[j] * yd) for j in range(3)]), t, K(0))
            except Imprecise as e:
                if 'no path returns' in str(e): raise absint.DeadPath()
                raise
            return el
        for r, pc, el in paths(P, go, 60):
            if pc and feasible(pc) is None: continue
            for nm, w in (('incl', S('old1')), ('asc_node', S('old2')), ('arg_per', S('old3')), ('ecc', ec), ('q', a * (K(1) - ec))): check(rep, G, nm, pc, el.get(nm), w, where(f))
            check(rep, G, 'mean anomaly', pc, el.get('mean_anomaly') + ec * s, an, where(f), mod=2 * math.pi)
            for j in range(3): check(rep, G, 'periapsis vector[%d]' % j, pc, el.get('perih_vec', j), A[j], where(f))
