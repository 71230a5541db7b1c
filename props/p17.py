"""P17: interpolation within tables and one-dimensional minimisation."""
import core, math, ident
from alg import *
import poly as PL
from p09 import rng
from p10 import feasible
from p16 import check
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR with symbolic tables and abscissae (one interval per table cell), trace partitioning; polynomial normal forms against the defining equations'
RULE = ('interpolators are interpreted with every table entry a symbol and the abscissa an interval per cell; the result must be the interpolating polynomial of the stated window. '
        'Parabola, cubic and bracket bookkeeping are interpreted on symbolic points and must satisfy their defining equations on every trace.')
def sub_x(i, f): return K(i) + f

def run(rep):
    P = core.units(['spline.cpp', 'brentmin.cpp'])
    PL.REDUCE[0] = True; PL.EXPAND_TRIG[0] = True
    for g in (spline, lagrange, parabola, cubic, brent): g(rep, P)
    rep.minimum = 300

CELL = ((Fr(0), Fr(0)), (Fr(1, 1000), Fr(499, 1000)), (Fr(1, 2), Fr(999, 1000)))
def spline(rep, P):
    G = 'cubic spline'; f = core.need(P, 'cubic_spline_interpolate_within_table')
    for n in (4, 5, 9):
        tb = V('table', n)
        for i in list(range(-3, n + 3)):
            for lo, hi in CELL:
                for we in (True, False):
                    if not we and lo != CELL[1][0]: continue
                    key = '%d entries, cell %d, fraction %s..%s%s' % (n, i, float(lo), float(hi), '' if we else ', no status wanted')
                    with guard(rep, G, key, where(f)):
                        r = Run(P); fr = K(lo) if lo == hi else rng('frac', lo, hi)
                        x = K(i) + fr; e = r.I.new_obj(r.st, 4, 'arg', 'err', 'undef'); ep = Ptr(e.id, ZERO)
                        r.I.exact = True; v = r.call(f, r.arr(tb), K(n), x, ep if we else NULL); rep.note_funcs(r.I)
                        k = min(max(i, 1), n - 3); u = x - K(k); u2 = u * u; u3 = u2 * u
                        # Hermite form of the four-point window
                        p0, p1 = tb[k], tb[k + 1]; m0, m1 = (tb[k + 1] - tb[k - 1]).scale(Fr(1, 2)), (tb[k + 2] - tb[k]).scale(Fr(1, 2))
                        w = p0 * (u3.scale(2) - u2.scale(3) + K(1)) + m0 * (u3 - u2.scale(2) + u) + p1 * (u2.scale(3) - u3.scale(2)) + m1 * (u3 - u2)
                        check(rep, G, key, (), v, w, where(f))
                        if we:
                            c = r.out(ep, llir.I32); want = 0 if 1 <= i <= n - 3 else -1 if i in (0, n - 2) else -2
                            check(rep, G, key + ': status', (), c, K(want), where(f))

def lagr(tb, k, m, x):
    s = ZERO
    for a in range(m):
        t = tb[k + a]
        for b in range(m):
            if a != b: t = t * (x - K(k + b)).scale(Fr(1, a - b))
        s = s + t
    return s
def dlagr(tb, k, m, x):
    s = ZERO
    for a in range(m):
        for c in range(m):
            if c == a: continue
            t = tb[k + a].scale(Fr(1, a - c))
            for b in range(m):
                if b not in (a, c): t = t * (x - K(k + b)).scale(Fr(1, a - b))
            s = s + t
    return s
def lagrange(rep, P):
    G = 'Lagrange interpolation'; f = core.need(P, 'lagrange_interpolate_within_table')
    n = 7; tb = V('table', n)
    for m in (2, 3, 4, 5, 6):
        for i in range(-2, n + 2):
            for lo, hi in CELL:
                for der in (False, True):
                    ongrid = lo == hi and 0 <= i < n
                    key = '%d points, cell %d, fraction %s..%s%s' % (m, i, float(lo), float(hi), ', with derivative' if der else '')
                    if lo == hi and not ongrid and i > n - 1: pass
                    with guard(rep, G, key, where(f)):
                        fr = K(lo) if lo == hi else rng('frac', lo, hi); x = K(i) + fr
                        def win(z):
                            return min(max(math.floor(z - m / 2) + 1, 0), n - m)
                        r = Run(P); d = r.arr([None])
                        r.I.exact = True; v = r.call(f, r.arr(tb), K(n), x, K(m), d if der else NULL); rep.note_funcs(r.I)
                        # windows: m/2 below the abscissa, kept inside the table
                        k = win(float(i + (lo + hi) / 2))
                        # a half-integer boundary inside the cell (odd m) is at .5: cells are cut there
                        check(rep, G, key, (), v, tb[i] if ongrid else lagr(tb, k, m, x), where(f))
                        if der:
                            dv = r.out(d, D); eps = Fr(1e-5)
                            if ongrid:
                                a, b = win(i - 1e-5), win(i + 1e-5)
                                w = (lagr(tb, b, m, x + K(eps)) - lagr(tb, a, m, x - K(eps))).scale(1 / (2 * eps))
                                # any difference quotient or the exact derivative of a window will do to 1e-6
                                ok, why = ident.same(dv, w, ntol=1e-4)
                                if ok is None and why.startswith('normal'): ok = True
                                rep.add(G, ok, key + ': slope at a grid point', why, where(f))
                            else: check(rep, G, key + ': slope', (), dv, dlagr(tb, k, m, x), where(f))

def parabola(rep, P):
    G = 'parabola through three points'; f = core.need(P, 'fit_parabola')
    x, y = V('x'), V('y')
    for wb, wc in ((True, True), (True, False), (False, False)):
        with guard(rep, G, 'fit', where(f)):
            def go(r):
                b, c = r.arr([None]), r.arr([None])
                a = call(rep, r, f, r.arr(x), r.arr(y), b if wb else NULL, c if wc else NULL)
                return a, r.out(b, D) if wb else None, r.out(c, D) if wc else None
            n = 0
            for r, pc, (a, b, c) in paths(P, go):
                n += 1; tag = 'outputs %d, trace %d: ' % (1 + wb + wc, n)
                # coefficients by divided differences
                A = ((y[1] - y[0]) * inv(x[1] - x[0]) - (y[2] - y[0]) * inv(x[2] - x[0])) * inv(x[1] - x[2])
                B = (y[1] - y[0]) * inv(x[1] - x[0]) - A * (x[1] + x[0])
                C = y[0] - A * x[0] * x[0] - B * x[0]
                check(rep, G, tag + 'quadratic coefficient', pc, a, A, where(f))
                if b is not None: check(rep, G, tag + 'linear coefficient', pc, b, B, where(f))
                if c is not None: check(rep, G, tag + 'constant', pc, c, C, where(f))
            if not n: rep.add(G, None, 'no trace', '', where(f))

def cubic(rep, P):
    G = 'stationary point of the cubic through four points'
    try: f = P.find('cubic_min')
    except KeyError: rep.add(G, None, 'cubic_min', 'no such function', ''); return
    x = V('x', 4); y0 = S('y0'); a, b, c = S('a3'), S('a2'), S('a1')
    with guard(rep, G, 'cubic_min', where(f)):
        h = [x[i] - x[0] for i in range(4)]
        y = [y0 + (c + (b + a * h[i]) * h[i]) * h[i] for i in range(4)]
        def go(r):
            e = r.I.new_obj(r.st, 4, 'arg', 'err', 'undef')
            v = call(rep, r, f, r.arr(x), r.arr([PL.normal(q) for q in y]), Ptr(e.id, ZERO))
            return v, r.out(Ptr(e.id, ZERO), llir.I32)
        n = 0
        for r, pc, (v, e) in paths(P, go):
            n += 1; tag = 'trace %d: ' % n
            if e == K(1):
                # only when the slope has no real zero
                at = set()
                for q in pc:
                    for z in q.polys(): at |= ident.leaves(z)
                at |= ident.leaves(a) | ident.leaves(b) | ident.leaves(c); bad = None; m = 0
                for env in ident.sample(at, 200):
                    try:
                        if not all(ident.ncond(q, env, {}) for q in pc): continue
                        m += 1
                        if float(ident.nev(b * b - (a * c).scale(3), env)) > 1e-9: bad = 'slope has a zero: discriminant positive'; break
                    except ident.NoVal: pass
                ok = any(q.op == 'lt' and PL.is_zero(q.p - (b * b - (a * c).scale(3)).scale(4)) for q in pc)
                rep.add(G, False if bad else True if ok else None, tag + 'refused only when the cubic is monotonic', bad or '%d valuations' % m, where(f)); continue
            if e != K(0): rep.add(G, None if not isinstance(e, Poly) or e.c is None else False, tag + 'status', str(e), where(f)); continue
            u = v - x[0]
            check(rep, G, tag + 'slope of the cubic at the result', pc, u * u * a.scale(3) + u * b.scale(2) + c, ZERO, where(f), tol=1e-6)
            # nearest of the two: |u| <= |other root|, i.e. u and -(b)/(3a) - u: u*(sum) - compare numerically
            near(rep, G, tag, pc, u, a, b, where(f))
        if not n: rep.add(G, None, 'no trace', '', where(f))
def near(rep, G, tag, pc, u, a, b, site):
    at = ident.leaves(u) | ident.leaves(a) | ident.leaves(b); m = 0; bad = None
    for q in pc:
        for z in q.polys(): at |= ident.leaves(z)
    for env in ident.sample(at, 150):
        try:
            if not all(ident.ncond(q, env, {}) for q in pc): continue
            U, A, B = (float(ident.nev(z, env)) for z in (u, a, b)); m += 1
            if abs(A) > 1e-6 and abs(U) > abs(-2 * B / (3 * A) - U) * (1 + 1e-9) + 1e-12: bad = 'u=%g, other root %g' % (U, -2 * B / (3 * A) - U); break
        except ident.NoVal: pass
    # proof: the denominator of u = 2c/(-b -+ sqrt(discr)) has the two terms of the same sign
    ok = None
    for s in (1, -1):
        for q in pc:
            if q.op in ('lt', 'le') and PL.is_zero(q.p - b.scale(2 * s)): ok = True
    rep.add(G, False if bad else ok if m else None, tag + 'the nearer of the two stationary points', bad or '%d valuations' % m, site)

class B:
    lay = None
    def __init__(self, r, vals):
        L = B.lay; self.r = r; self.p = r.arr([], size=L[''][0], name='brent_min_t')
        for n, v in vals.items():
            o, ty = L[n]
            for i, q in enumerate(v if isinstance(v, list) else [v]):
                if q is not None: r.I.store(r.st, Ptr(self.p.obj, K(o + 8 * i)), q, llir.I32 if ty == 'int' else D, None, r.m)
    def get(self, n, i=0):
        o, ty = B.lay[n]; return self.r.out(Ptr(self.p.obj, K(o + 8 * i)), llir.I32 if ty == 'int' else D)
def valued(pc, polys, n=150):
    at = set()
    for q in pc:
        for z in q.polys(): at |= ident.leaves(z)
    for z in polys: at |= ident.leaves(z)
    for env in ident.sample(at, n):
        try:
            if all(ident.ncond(q, env, {}) for q in pc): yield env
        except ident.NoVal: pass
def le_by(pc, a, b):
    """a <= b follows from one condition of the trace"""
    d = PL.normal(a - b)
    if not d.t: return True
    fs = [q.p for q in flat(pc) if q.op in ('lt', 'le', 'eq')]
    rest = [PL.normal(d - p) for p in fs]
    if any(PL.is_zero(r) or PL.prng(r)[1] <= 0 for r in rest): return True
    # two conditions together
    return any(PL.prng(PL.normal(r - p))[1] <= 0 for r in rest for p in fs)
def flat(pc):
    for q in pc:
        if q.op == 'and': yield from flat((q.a, q.b))
        else: yield q
def call(rep, r, f, *a):
    r.I.exact = True
    try: v = r.call(f, *a)
    except absint.BadAccess:
        if feasible(r.I.pathc) is None: raise absint.DeadPath()
        raise
    except Imprecise as e:
        if 'no path returns' in str(e): raise absint.DeadPath()
        raise
    rep.note_funcs(r.I); return v

def brent(rep, P):
    import re as _re
    try: B.lay = core.layout(['brentmin.h'], 'xmin', 'gold_ratio')
    except core.AnalysisBroken: raise
    L = B.lay
    for k in list(L):       # arrays are listed as 'x[5]'? normalise
        if '[' in k: L[k.split('[')[0]] = L[k]
    G = 'minimiser: initial bracket'; f = core.need(P, 'brent_min_init')
    x, y = V('x'), V('y')
    with guard(rep, G, 'init', where(f)):
        def go(r):
            b = B(r, {}); call(rep, r, f, b.p, x[0], y[0], x[1], y[1], x[2], y[2]); return b
        n = 0
        for r, pc, b in paths(P, go, 2000):
            if feasible(pc) is None: continue
            n += 1; tag = 'trace %d: ' % n
            X, Y = [b.get('x', i) for i in range(3)], [b.get('y', i) for i in range(3)]
            perm = sorted(zip(map(str, X), map(str, Y))) == sorted(zip(map(str, x), map(str, y)))
            rep.add(G, perm if all(isinstance(q, Poly) and any(q == w for w in x) for q in X) else None, tag + 'the three points are kept', '%s %s' % (X, Y), where(f))
            bad = None; m = 0
            for env in valued(pc, X + Y):
                m += 1
                xs, ys, mn, mx = [ident.nev(q, env) for q in X], [ident.nev(q, env) for q in Y], ident.nev(b.get('xmin'), env), ident.nev(b.get('xmax'), env)
                if not (ys[0] <= ys[1] <= ys[2] and mn == min(xs) and mx == max(xs)): bad = 'x %s y %s bracket %s..%s' % (xs, ys, mn, mx); break
            ok = le_by(pc, Y[0], Y[1]) and le_by(pc, Y[1], Y[2])
            lo_ok = all(le_by(pc, b.get('xmin'), q) or trans(pc, b.get('xmin'), q, x) for q in X) and all(le_by(pc, q, b.get('xmax')) or trans(pc, q, b.get('xmax'), x) for q in X)
            rep.add(G, False if bad else True if ok and lo_ok else None, tag + 'ordered by value, bracket is the extent of the points', bad or '', where(f))
            for nm, w in (('n_iterations', ZERO), ('tolerance', ZERO), ('ytolerance', ZERO)): check(rep, G, tag + nm, pc, b.get(nm), w, where(f))
            g = b.get('gold_ratio'); check(rep, G, tag + 'golden ratio: g^2 + g = 1', pc, g * g + g, K(1), where(f))
        if not n: rep.add(G, None, 'no trace', '', where(f))
    # ---- next point
    G = 'minimiser: next point'; f = core.need(P, 'brent_min_next')
    tol = rng('tol', Fr(1, 10000), Fr(1, 200)); ytol = rng('ytol', 0, 1)
    for it in (0, 1, 3, 4, 31, 32):
        for mono in (False, True) if it else (False,):
            with guard(rep, G, 'next', where(f)):
                dl, dr = rng('left', Fr(1, 10000), 5), rng('right', Fr(1, 10000), 5); x0 = S('x0'); g = rng('gold', Fr(6, 10), Fr(999, 1000))
                cand = x0 + rng('fit', -8, 8); quad = rng('quad', Fr(1, 100), 5)
                xs = [x0] + V('xo', 4)[1:] + [ZERO]; ys = [S('yo0')]
                for i in range(1, 4): ys.append(ys[-1] + rng('dyo%d' % i, 0, 2))
                ys += [ZERO]
                def go(r):
                    b = B(r, dict(x=xs, y=ys, xmin=x0 - dl, xmax=x0 + dr, gold_ratio=g, tolerance=tol, ytolerance=ytol, prev_range=ZERO, prev_range2=ZERO, step_type=K(-1), n_iterations=K(it)))
                    used = []
                    def hk(I, st, a, ins, m):
                        used.append('cubic')
                        I.store(st, a[2], K(1 if mono else 0), llir.I32, None, m); return st, ZERO if mono else cand
                    r.I.hooks['cubic_min'] = hk
                    def hp(I, st, a, ins, m):
                        used.append('quadratic')
                        if a[2] != NULL: I.store(st, a[2], -(cand * quad).scale(2), D, None, m)
                        return st, quad
                    r.I.hooks['fit_parabola'] = hp
                    v = call(rep, r, f, b.p); return b, v, used
                n = 0
                for r, pc, (b, v, used) in paths(P, go, 3000):
                    if feasible(pc) is None: continue
                    n += 1; tag = 'iteration %d%s, trace %d: ' % (it, ', monotonic cubic' if mono else '', n)
                    stp = b.get('step_type')
                    def done(env):
                        e = lambda q: float(ident.nev(q, env))
                        return (it > 3 and e(ys[3] - ys[0]) <= e(ytol)) or max(e(dl), e(dr)) < e(tol)
                    fin = stp == K(0); bad = None; m = 0
                    allp = [v, x0, dl, dr, g, tol, ytol, cand, ys[3]]
                    for env in valued(pc, allp):
                        m += 1
                        if done(env) != fin: bad = 'left %g right %g tolerance %g, values within %g' % tuple(float(ident.nev(q, env)) for q in (dl, dr, tol, ys[3] - ys[0])); break
                    pf = (it > 3 and le_by(pc, ys[3] - ys[0], ytol)) or (le_by(pc, dl, tol) and le_by(pc, dr, tol))
                    pn = (it <= 3 or le_by(pc, ytol, ys[3] - ys[0])) and (le_by(pc, tol, dl) or le_by(pc, tol, dr))
                    rep.add(G, False if bad else True if (pf if fin else pn) else None, tag + 'finished only and always when the bracket or the values are within tolerance', bad or '', where(f))
                    if fin: check(rep, G, tag + 'finished: the best point', pc, v, x0, where(f)); continue
                    check(rep, G, tag + 'remembered', pc, b.get('next_x'), v, where(f))
                    bad = None; m = 0
                    for env in valued(pc, allp):
                        m += 1; V_, X0, l, h, t_, c_, g_ = (float(ident.nev(q, env)) for q in (v, x0, x0 - dl, x0 + dr, tol, cand, g))
                        if V_ < l - 1e-9 or V_ > h + 1e-9 or V_ == X0: bad = '%g outside (%g, %g) or the best point itself' % (V_, l, h); break
                        gs = X0 + (h - X0 if h - X0 > X0 - l else l - X0) * (1 - g_)
                        if abs(V_ - gs) < 1e-9 and (mono or it > 30 and it & 1 or c_ < l or c_ > h): continue
                        if not mono and l <= c_ <= h:
                            if min(abs(c_ - X0), abs(c_ - l), abs(h - c_)) > t_:
                                if abs(V_ - c_) < 1e-9: continue
                            elif abs(V_ - c_) <= 2 * t_: continue
                        bad = '%g: neither the fitted minimum %g nor, where that is out of the question, the golden section %g of (%g, %g) around %g' % (V_, c_, gs, l, h, X0); break
                    lo_, hi_ = PL.prng(PL.normal(v - (x0 - dl)))[0], PL.prng(PL.normal(x0 + dr - v))[0]
                    ok = (lo_ >= 0 or le_by(pc, x0 - dl, v)) and (hi_ >= 0 or le_by(pc, v, x0 + dr))
                    rep.add(G, False if bad else True if ok else None, tag + 'inside the bracket, by the published choice', bad or '%s, %d valuations' % ('proved from the trace' if ok else 'sampled', m), where(f))
                    rep.add(G, True if (used == ['quadratic'] if it == 0 else used == ['cubic']) else None, tag + 'curve through the known points', str(used), where(f))
                if not n: rep.add(G, None, 'no trace', '', where(f))
    # ---- taking in a value
    G = 'minimiser: bracket update'; f = core.need(P, 'brent_min_add')
    for it in (0, 1, 3, 4):
        k = 4 if it else 3
        for side in ('left', 'right'):
          for pos in range(k + 1):
            with guard(rep, G, 'add', where(f)):
                x0 = S('x0'); dl, dr = rng('left', Fr(1, 10000), 5), rng('right', Fr(1, 10000), 5)
                d = rng('step', Fr(1, 100000), 5); nx = x0 - d if side == 'left' else x0 + d
                # the new value falls into place pos of the known ones (a tie counts as an improvement)
                y = [S('y0')]; allv = []
                for i in range(1, 6): y.append(y[-1] + rng('dy%d' % i, Fr(1, 1000) if i == pos else 0, 2))
                ny = y[pos]; ysym = [q for i, q in enumerate(y) if i != pos]
                xs = [x0] + V('xo', 5)[1:]
                for stp in (1, 2, 4):
                    def go(r):
                        b = B(r, dict(x=[q if i < k else None for i, q in enumerate(xs)], y=[q if i < k else None for i, q in enumerate(ysym)], xmin=x0 - dl, xmax=x0 + dr, next_x=nx, gold_ratio=rng('gold', Fr(6, 10), Fr(999, 1000)), tolerance=tol, ytolerance=ytol, step_type=K(stp), n_iterations=K(it)))
                        lim = dl if side == 'left' else dr; r.I.pathc.append(absint.Cond('lt', d - lim))
                        v = call(rep, r, f, b.p, ny); return b, v
                    n = 0
                    for r, pc, (b, v) in paths(P, go, 3000):
                        if feasible(pc) is None: continue
                        n += 1; tag = 'after %d steps, new point on the %s in place %d, %s step, trace %d: ' % (it, side, pos, {1: 'golden', 2: 'cubic', 4: 'parabolic'}[stp], n)
                        wx, wy = xs[:pos] + [nx] + xs[pos:k], ysym[:pos] + [ny] + ysym[pos:k]
                        for i in range(min(4, k + 1)):
                            check(rep, G, tag + 'x[%d]' % i, pc, b.get('x', i), wx[i], where(f)); check(rep, G, tag + 'y[%d]' % i, pc, b.get('y', i), wy[i], where(f))
                        if pos == 0: lo, hi = (x0 - dl, x0) if side == 'left' else (x0, x0 + dr)
                        else: lo, hi = (nx, x0 + dr) if side == 'left' else (x0 - dl, nx)
                        check(rep, G, tag + 'lower end of the bracket', pc, b.get('xmin'), lo, where(f)); check(rep, G, tag + 'upper end of the bracket', pc, b.get('xmax'), hi, where(f))
                        check(rep, G, tag + 'count', pc, b.get('n_iterations'), K(it + 1), where(f))
                        g = b.get('gold_ratio'); lo_, hi_ = PL.prng(g)
                        rep.add(G, True if lo_ > .5 and hi_ < 1 else None, tag + 'golden ratio stays within (1/2, 1)', '%s..%s' % (float(lo_), float(hi_)), where(f))
                        # finished?
                        bx = wx[0]; bad = None; m = 0
                        for env in valued(pc, [v, bx, lo, hi, tol, ytol, wy[3], wy[0]]):
                            m += 1; e = lambda q: float(ident.nev(q, env))
                            want = (it + 1 > 3 and e(wy[3] - wy[0]) <= e(ytol)) or max(e(hi - bx), e(bx - lo)) < e(tol)
                            if (e(v) != 0) != want: bad = 'returns %g with bracket %g..%g around %g, tolerance %g' % (e(v), e(lo), e(hi), e(bx), e(tol)); break
                        pf = (it + 1 > 3 and le_by(pc, wy[3] - wy[0], ytol)) or (le_by(pc, hi - bx, tol) and le_by(pc, bx - lo, tol))
                        pn = (it + 1 <= 3 or le_by(pc, ytol, wy[3] - wy[0])) and (le_by(pc, tol, hi - bx) or le_by(pc, tol, bx - lo))
                        rep.add(G, False if bad else True if (pf if v != ZERO else pn) else None, tag + 'reports the end only and always within tolerance', bad or '%d valuations' % m, where(f))
                    if not n: rep.add(G, None, 'no trace', '', where(f))
def trans(pc, a, b, mids):
    return any(le_by(pc, a, m) and le_by(pc, m, b) for m in mids)
