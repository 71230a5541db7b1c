"""P10: spherical and ellipsoidal geometry: distance/position angle, altitude/azimuth, geodetic coordinates."""
import core, math
from alg import *
from poly import PI_A
import poly as PL
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR on symbolic angles; every arm of a case distinction is proved by trigonometric normal forms, with the arm\'s condition'
RULE = ('the functions are interpreted on symbolic coordinates; each arm of the result must have the sine and cosine (or the closed form) given by the spherical triangle, under the '
        'conditions the arm is taken; conditions of inverse trigonometric functions are checked against the quadrant they are valid in')
PIp = Poly.var(PI_A)
PIQ = Fr(math.pi)
def ang(n, lo=-4, hi=4): return Poly.var(atom(('in', n, lo, hi), Fr(lo), Fr(hi), False, n))
def cases(p, conds=(), depth=0):
    """[(conditions, value)] of a conditional value"""
    if depth > 40: raise Imprecise('too many cases')
    for a in sorted(p.deep_atoms(), key=lambda a: -a):
        k = ATOMS[a].key
        if k[0] in ('ite', 'phi') and ((a, 1),) in p.t:
            if not (isinstance(k[2], Poly) and isinstance(k[3], Poly)) or not isinstance(k[1], Cond): raise Imprecise('opaque join')
            c = p.t[((a, 1),)]; rest = p - Poly({((a, 1),): c})
            return cases(rest + k[2].scale(c), conds + (k[1],), depth + 1) + cases(rest + k[3].scale(c), conds + (absint.neg(k[1]),), depth + 1)
    return [(conds, p)]
def flatc(cs):
    for c in cs:
        if c.op == 'and': yield from flatc((c.a, c.b))
        else: yield c
def bound(conds, z):
    """interval implied for the polynomial z by conditions of the form k z + c < 0"""
    lo, hi = -math.inf, math.inf
    for c in flatc(conds):
        if c.op not in ('lt', 'le', 'eq'): continue
        for s in (1, -1):
            d = normal(c.p - z.scale(s))
            if d.c is not None:
                # s z + d < 0
                if s > 0: hi = min(hi, -float(d.c))
                else: lo = max(lo, float(d.c))
                if c.op == 'eq': lo = hi = -float(d.c) * s
    return lo, hi
def judge(rep, group, key, res, detail, site):
    oks = [r[0] for r in res]
    rep.add(group, False if False in oks else None if None in oks else True, key, '%s; %s' % (detail, '; '.join(r[1] for r in res if r[0] is not True)[:400]), site)
def feasible(conds, arr_hint=None):
    """a valuation satisfying the conditions, to tell a live wrong arm from a dead one"""
    at = set()
    for c in conds:
        for p in c.polys(): at |= ident.leaves(p)
    for env in ident.sample(at, 400, spread=3.2):
        try:
            if all(ident.ncond(c, env, {}) for c in conds): return env
        except ident.NoVal: pass
    return None
def arm_is(conds, got_s, want_s, got_c=None, want_c=None):
    """one arm: sine (and cosine) identities; a difference counts only at a valuation inside the arm"""
    out = []
    for g, w in ((got_s, want_s), (got_c, want_c)):
        if g is None: continue
        if any(ATOMS[a].key[0] == 'never' for a in g.deep_atoms()): out.append((False, 'uses a value that is never written')); continue
        if ident.is_zero(normal(g - w), Fr(1, 10**12)): out.append((True, '')); continue
        at = ident.leaves(g) | ident.leaves(w)
        for c in conds:
            for p in c.polys(): at |= ident.leaves(p)
        bad = None; tried = 0
        for env in ident.sample(at, 400, spread=3.2):
            try:
                if not all(ident.ncond(c, env, {}) for c in conds): continue
                x, y = ident.nev(g, env, {}), ident.nev(w, env, {}); tried += 1
                if abs(x - y) > 1e-7 * max(1, abs(x), abs(y)): bad = (x, y, env); break
            except ident.NoVal: continue
        if bad: out.append((False, '%.9g instead of %.9g with %s' % (bad[0], bad[1], ', '.join('%s=%.6g' % (PL.aname(a), v) for a, v in list(bad[2].items())[:6]))))
        else: out.append((None, 'no proof (%d valuations agree)' % tried))
    oks = [o[0] for o in out]
    return (False if False in oks else None if None in oks else True), '; '.join(o[1] for o in out if o[0] is not True)
def unit(lon, lat):
    (sl, cl), (sb, cb) = sincos(lon), sincos(lat); return [cl * cb, sl * cb, sb]

def run(rep):
    P = core.program()
    PL.EXPAND_TRIG[0] = True
    sphere(rep, P)
    altaz(rep, P)
    ellipsoid(rep, P)
    planets(rep, P)
    rep.minimum = 30

def inverse_fn(p):
    """(name, argument, sign, offset in pi) of a value s*f(arg) + q*pi"""
    at = [a for a in p.atoms() if ATOMS[a].key[0] in ('asin', 'acos', 'atan2')]
    if len(at) != 1: return None
    c = p.t.get(((at[0], 1),)); rest = p - Poly({((at[0], 1),): c or 0})
    return ATOMS[at[0]].key, c, rest

def dist_arm(conds, v, cosd):
    """arm of a distance in [0, pi] with cos(distance) = cosd"""
    k = inverse_fn(v)
    if k is None: return arm_is(conds, sincos(v)[1], cosd)
    (key, s, rest) = k
    q = rest - PIp.scale(rest.t.get(((PI_A.id, 1),), 0))
    if q.c != 0 and q.t: return arm_is(conds, PL.sincos(v)[1], cosd)
    qp = rest.t.get(((PI_A.id, 1),), 0)
    if key[0] == 'acos' and s == 1 and qp == 0: return arm_is(conds, key[1], cosd)
    if key[0] == 'asin' and abs(s) == 1 and qp == (0 if s == 1 else 1):
        # sin(distance) = arg >= 0, valid when cos has the right sign
        lo, hi = bound(conds, cosd)
        ok, why = arm_is(conds, key[1] * key[1] + cosd * cosd, K(1))
        side = (lo >= 0) if s == 1 else (hi <= 0)
        if ok and side: return True, ''
        if ok is False: return ok, why
    return arm_num(conds, v, lambda env: math.acos(max(-1, min(1, ident.nev(cosd, env, {})))), extra=(cosd,))
def arm_num(conds, v, fn, mod=None, extra=()):
    """refutation only"""
    at = ident.leaves(v)
    if any(ATOMS[a].key[0] == 'never' for a in at): return False, 'uses a value that is never written'
    for p in extra: at |= ident.leaves(p)
    for c in conds:
        for p in c.polys(): at |= ident.leaves(p)
    for env in ident.sample(at, 600, spread=3.2):
        try:
            if not all(ident.ncond(c, env, {}) for c in conds): continue
            x, y = ident.nev(v, env, {}), fn(env)
        except (ident.NoVal, KeyError, ValueError): continue
        d = math.remainder(x - y, mod) if mod else x - y
        if abs(d) > 1e-6: return False, '%.9g instead of %.9g with %s' % (x, y, ', '.join('%s=%.6g' % (PL.aname(a), t) for a, t in list(env.items())[:6]))
    return None, 'no proof'

def sphere(rep, P):
    f = core.need(P, 'calc_dist_and_posn_ang'); g = core.need(P, 'reverse_dist_and_posn_ang')
    G = 'distance and position angle'
    a0, a1, b0, b1 = ang('lon1', -7, 7), ang('lat1', Fr(-157, 100), Fr(157, 100)), ang('lon2', -7, 7), ang('lat2', Fr(-157, 100), Fr(157, 100))
    u, v = unit(a0, a1), unit(b0, b1)
    (sl, cl), (sb, cb) = sincos(a0), sincos(a1)
    north, west = [-cl * sb, -sl * sb, cb], [sl, -cl, ZERO]
    cosd = dot(u, v); ycomp = dot(v, north); xcomp = dot(v, west)          # towards north / decreasing longitude
    with guard(rep, G, 'all', where(f)):
        for nm, wantpa in (('with position angle', True), ('without position angle', False)):
            def go(r):
                d, pa = r.arr([None]), r.arr([None])
                rv = r.call(f, r.arr([a0, a1]), r.arr([b0, b1]), d, pa if wantpa else NULL)
                rep.note_funcs(r.I)
                return rv, r.out(d, D), r.out(pa, D) if wantpa else None
            for j, (r, pc, (rv, dv, pv)) in enumerate(paths(P, go)):
                for i, (c, val) in enumerate(cases(dv, pc)):
                    k = inverse_fn(val)
                    if k is not None and k[0][0] == 'acos':
                        lo, hi = bound(c, cosd); rep.add(G, True if -.995 <= lo and hi <= .995 else wide(c, cosd, .9999), '%s: small separations keep their precision, case %d.%d' % (nm, j, i), 'acos of a value in (%g, %g)' % (lo, hi), where(f))
                    ok, why = dist_arm(c, val, cosd); rep.add(G, ok, '%s: distance, case %d.%d' % (nm, j, i), '%s under %s: %s' % (val, c, why), where(f))
                if pv is None: continue
                for i, (c, val) in enumerate(cases(pv, pc)):
                    k = inverse_fn(val)
                    z = [q for q in flatc(c) if q.op == 'eq']
                    vanish = all(any(ident.is_zero(normal(q.p - w)) or ident.is_zero(normal(q.p + w)) for q in z) for w in (xcomp, ycomp))
                    if vanish:
                        rep.add(G, ident.same(rv, K(-1))[0], 'undefined position angle is reported', 'returns %s' % rv, where(f)); continue
                    rep.add(G, ident.same(rv, ZERO)[0], 'defined position angle is reported, case %d.%d' % (j, i), 'returns %s' % rv, where(f))
                    if k is None or k[0][0] != 'atan2':
                        ok, why = arm_num(c, val, lambda env: math.atan2(ident.nev(xcomp, env, {}), ident.nev(ycomp, env, {})), 2 * math.pi, (xcomp, ycomp))
                        rep.add(G, ok, 'position angle, case %d.%d' % (j, i), '%s: %s' % (val, why), where(f)); continue
                    key = k[0]; sn, cs = sincos(val); rho = sqrt_(key[1] * key[1] + key[2] * key[2])
                    ok, why = arm_is(c, sn * rho, xcomp, cs * rho, ycomp)
                    rep.add(G, ok, 'position angle, case %d.%d' % (j, i), '%s: %s' % (val, why), where(f))
                    rep.add(G, rngpa(val, c), 'position angle in [0,2pi), case %d.%d' % (j, i), '%s under %s' % (val, c), where(f))
    G = 'destination from distance and position angle'
    dd, pp = ang('dist', 0, 3), ang('pa', -7, 7)
    with guard(rep, G, 'all', where(g)):
        def go(r):
            to = r.arr([None, None]); r.call(g, to, r.arr([a0, a1]), dd, pp)
            rep.note_funcs(r.I)
            return r.get(to, 2)
        (sd, cd), (sp, cp) = sincos(dd), sincos(pp)
        W = [u[i] * cd + (north[i] * cp + west[i] * sp) * sd for i in range(3)]
        for j, (r, pc, (lonv, latv)) in enumerate(paths(P, go)):
            for i, (c, val) in enumerate(cases(lonv, pc)):
                k = inverse_fn(val)
                if k is None:
                    h = [q for q in flatc(c) if q.op == 'eq']
                    rep.add(G, True if val == a0 and len(h) >= 2 else arm_num(c, val, lambda env: math.atan2(ident.nev(W[1], env, {}), ident.nev(W[0], env, {})), 2 * math.pi, (W[0], W[1]))[0], 'at a pole the longitude is kept', '%s under %s' % (val, c), where(g)); continue
                key = k[0]; rho = sqrt_(key[1] * key[1] + key[2] * key[2])
                sn, cs = sincos(val)
                ok, why = arm_is(c, sn * rho, W[1], cs * rho, W[0])
                rep.add(G, ok, 'longitude, case %d.%d' % (j, i), '%s: %s' % (val, why), where(g))
                rest = val - Poly({m: x for m, x in val.t.items() if any(ATOMS[q].key[0] == 'atan2' for q, _ in m)})
                ok = ident.same(rest, a0)
                rep.add(G, ok[0], 'longitude within half a turn of the start, case %d.%d' % (j, i), ok[1], where(g))
            for i, (c, val) in enumerate(cases(latv, pc)):
                ok, why = lat_arm(c, val, W[2]); rep.add(G, ok, 'latitude, case %d.%d' % (j, i), '%s under %s: %s' % (val, c, why), where(g))
def wide(c, z, lim):
    """False when the arm is taken for |z| > lim"""
    at = set(ident.leaves(z))
    for e in c:
        for p in e.polys(): at |= ident.leaves(p)
    at = sorted(at)
    for env in ident.sample(at, 100):
        if len(at) >= 4:
            ks = {ATOMS[a].key[1]: a for a in at if len(ATOMS[a].key) > 1}
            for d in (1e-2, 1e-3, 1e-4, 1e-7, 1e-9):
                e2 = dict(env)
                for x, y in (('lon1', 'lon2'), ('lat1', 'lat2')):
                    if x in ks and y in ks: e2[ks[y]] = e2[ks[x]] + d
                try:
                    if all(ident.ncond(q, e2, {}) for q in c) and abs(ident.nev(z, e2, {})) > lim: return False
                except ident.NoVal: pass
    return None
def rngpa(val, c):
    """every value of the arm lies in [0, 2 pi): atan2 in [-pi, pi] shifted, restricted by the arm's condition"""
    k = inverse_fn(val)
    if k is None or k[0][0] != 'atan2': return None
    key, s, rest = k
    q = float(ident.nev(rest, {}, {})) if not (rest.atoms() - {PI_A.id}) else None
    if q is None: return None
    lo, hi = (-math.pi, math.pi) if s > 0 else (-math.pi, math.pi)
    lo, hi = lo + q, hi + q
    base = val
    for cnd in flatc(c):
        if cnd.op not in ('lt', 'le'): continue
        for sg in (1, -1):
            d = cnd.p - base.scale(sg)
            if not (d.atoms() - {PI_A.id}):
                x = float(ident.nev(d, {}, {}))
                if sg > 0: hi = min(hi, -x)      # val < -x
                else: lo = max(lo, x)            # val > x
    return True if lo >= -1e-12 and hi <= 2 * math.pi + 1e-12 else False
def lat_arm(conds, v, z):
    """arm of a latitude in [-pi/2, pi/2] with sine z"""
    k = inverse_fn(v)
    if k is not None and not k[2].t:
        key, s, _ = k
        if key[0] == 'asin' and s == 1: return arm_is(conds, key[1], z)
        if key[0] == 'acos' and abs(s) == 1:
            ok, why = arm_is(conds, key[1] * key[1] + z * z, K(1))
            lo, hi = bound(conds, z)
            if ok and (lo >= 0 if s == 1 else hi <= 0): return True, ''
            if ok is False: return ok, why
    return arm_num(conds, v, lambda env: math.asin(max(-1, min(1, ident.nev(z, env, {})))), extra=(z,))

def hooks_altaz(r, gst=None, dpsi=None, pp=None):
    I = r.I
    def asn(I, st, a, ins, m): return st, Poly.var(atom(('asin', a[0]), -PIQ / 2, PIQ / 2))
    def acs(I, st, a, ins, m): return st, Poly.var(atom(('acos', a[0]), 0, PIQ))
    I.hooks['asine'] = asn; I.hooks['acose'] = acs
    def g(I, st, a, ins, m): r.log.append(('gst', a[0])); return st, gst
    I.hooks['green_sidereal_time'] = g
    def nut(I, st, a, ins, m):
        r.log.append(('nut', a[0]))
        if isinstance(a[1], Ptr) and a[1].obj is not None: I.store(st, a[1], dpsi, D, ins, m)
        if isinstance(a[2], Ptr) and a[2].obj is not None: I.store(st, a[2], S('deps', -20, 20), D, ins, m)
        return st, ZERO
    I.hooks['nutation'] = nut
    def ppt(I, st, a, ins, m):
        x, y = I.load(st, a[1], D, ins, m), I.load(st, Ptr(a[1].obj, a[1].off + K(8)), D, ins, m)
        r.log.append(('pt', x, y, a[2], a[3]))
        for k, v in ((0, pp[0]), (8, pp[1])): I.store(st, Ptr(a[0].obj, a[0].off + K(k)), v, D, ins, m)
        return st, ZERO
    I.hooks['precess_pt'] = ppt

def triangle(rep, G, key, f, c, alt, az, h, dec, lat):
    """alt/az (azimuth from south towards west) of hour angle -h, declination dec at latitude lat"""
    (sh, chh), (sd, cd), (sl, cl) = sincos(h), sincos(dec), sincos(lat)
    sa = sl * sd + cl * cd * chh
    ok, why = lat_arm(c, alt, sa); rep.add(G, ok, key + ': altitude', '%s: %s' % (alt, why), where(f))
    south, west = sl * cd * chh - cl * sd, -cd * sh
    az_arm(rep, G, key + ': azimuth', f, c, az, south, west, sqrt_(K(1) - sa * sa), -sh)
def az_arm(rep, G, key, f, c, az, x, y, rho, base):
    """az is the direction with rho cos = x, rho sin = y (x^2 + y^2 = rho^2); base: a factor of y, the other factor being positive"""
    k = inverse_fn(az)
    if k is not None and k[0][0] == 'acos':
        sn, cs = sincos(az)
        ok, why = arm_is(c, cs * rho, x)
        if ok:
            # the sine is +-sqrt(1-cos^2), so only its sign is left: on [0,pi] shifted
            q = k[2].t.get(((PI_A.id, 1),), 0); s = k[1]
            if not (k[2] - PIp.scale(q)).is_zero() or q != int(q): ok = None
            else:
                up = s * (-1) ** int(q) > 0                 # value s*acos + q*pi has sine of sign s*(-1)^q
                lo, hi = bound(c, base)
                l2, h2 = Interp(core.program()).rng(base, State()); lo, hi = max(lo, l2), min(hi, h2)
                if (lo >= 0 if up else hi <= 0): rep.add(G, True, key, 'cosine identity and quadrant', where(f)); return
                ok = None
        if ok is False: rep.add(G, False, key, why, where(f)); return
    elif k is not None and k[0][0] == 'atan2':
        sn, cs = sincos(az); R = sqrt_(k[0][1] * k[0][1] + k[0][2] * k[0][2])
        ok, why = arm_is(c, sn * R * rho, y * R, cs * R * rho, x * R)
        rep.add(G, ok, key, why, where(f)); return
    ok, why = arm_num(c, az, lambda env: math.atan2(ident.nev(y, env, {}), ident.nev(x, env, {})), 2 * math.pi, (x, y))
    rep.add(G, ok, key, '%s under %s: %s' % (az, c, why), where(f))
def is0(p): return not p.t
Poly.is_zero = lambda s: not s.t

COSE = Fr('0.917482062069181825744000384639406458043')
def altaz(rep, P):
    f = core.need(P, 'full_ra_dec_to_alt_az'); g = core.need(P, 'full_alt_az_to_ra_dec')
    G = 'altitude and azimuth from RA and declination'
    jd = Poly.var(atom(('in', 'jd', 2400000, 2500000), 2400000, 2500000, False, 'jd'))
    gst, dpsi, lon, lat = ang('gst', 0, 7), ang('dpsi', -20, 20), ang('lon', -7, 7), ang('lat', Fr(-3, 2), Fr(3, 2))
    ep = dpsi * PIp.scale(Fr(COSE) / 648000)
    y = ang('y', Fr(-3, 2), Fr(3, 2))
    ra0 = [S('ra', -3, 3), S('de', -1, 1)]
    for nm, lo, hi in (('west', Fr(-31, 10), Fr(-1, 1000)), ('east', Fr(1, 1000), Fr(31, 10))):
        H = ang('H', lo, hi)
        for given in ('J2000', 'of date'):
            for la, lv in (('', lat), (' near the north pole', ang('lat', Fr(1569, 1000), Fr(15707, 10000))), (' near the south pole', ang('lat', Fr(-15707, 10000), Fr(-1569, 1000))), (' at the north pole', PIp.scale(Fr(1, 2))), (' at the south pole', PIp.scale(Fr(-1, 2)))):
                key = '%s, %s%s' % (nm, given, la)
                x = -H - gst - lon                  # hour angle (counted eastward) H when the nutation is zero
                with guard(rep, G, key, where(f)):
                    def go(r, dp=ZERO, x=x):
                        r.log = []; hooks_altaz(r, gst, dp, (x, y))
                        rd = r.arr(ra0) if given == 'J2000' else NULL
                        aa, le, ha = r.arr([None, None]), r.arr([x, y] if given != 'J2000' else [None, None]), r.arr([None])
                        r.call(f, rd, aa, le, r.arr([lon, lv]), jd, ha)
                        rep.note_funcs(r.I)
                        return r.get(aa, 2), r.get(le, 2), r.out(ha, D)
                    for j, (r, pc, ((az, alt), loc, ha)) in enumerate(paths(P, go)):
                        for n_, l in (('nutation', [q for q in r.log if q[0] == 'nut']), ('sidereal time', [q for q in r.log if q[0] == 'gst'])):
                            w = jd if n_ != 'nutation' else (jd - K(2451545)).scale(Fr(1, 36525))
                            rep.add(G, ident.same(l[-1][1], w)[0] if l else None, '%s.%d: instant of %s' % (key, j, n_), str(l), where(f))
                        if given == 'J2000':
                            q = [q for q in r.log if q[0] == 'pt']
                            if q: eqv(rep, G, '%s.%d: precession of the position' % (key, j), q[-1][1:], ra0 + [K(2000), K(2000) + (jd - K(2451545)).scale(Fr(100, 36525))], where(f))
                        eqv(rep, G, '%s.%d: position of date' % (key, j), loc, [x, y], where(f))
                        for i, (c, hv) in enumerate(cases(ha, pc)): turns(rep, G, '%s.%d: hour angle, case %d' % (key, j, i), f, c, hv, H)
                        for i, (c2, a) in enumerate(cases(alt, pc)):
                            for i2, (c3, z) in enumerate(cases(az, c2)):
                                if 'at the' not in la: triangle(rep, G, '%s.%d, case %d.%d' % (key, j, i, i2), f, c3, a, z, H, y, lv)
                                else:
                                    turns(rep, G, '%s.%d: azimuth, case %d' % (key, j, i2), f, c3, z, -H if 'north' in la else PIp + H)
                                    ok, why = lat_arm(c2, a, sincos(y)[0].scale(1 if 'north' in la else -1)); rep.add(G, ok, '%s.%d: altitude, case %d' % (key, j, i), why, where(f))
                    for j, (r, pc, (_, loc, ha)) in enumerate(paths(P, lambda r: go(r, dpsi))):
                        for i, (c, hv) in enumerate(cases(ha, pc)): turns(rep, G, '%s.%d: nutation in the hour angle, case %d' % (key, j, i), f, c, hv, H - ep)
    # whole turns are taken off the hour angle
    for nm, lo, hi in (('far east', -9, -4), ('far west', 4, 9), ('far', 20, 30)):
        x = ang('x', lo, hi)
        with guard(rep, G, 'hour angle within half a turn, ' + nm, where(f)):
            def go(r):
                r.log = []; hooks_altaz(r, gst, dpsi, (x, ZERO)); ha = r.arr([None])
                r.call(f, NULL, r.arr([None, None]), r.arr([x, ang('y', -1, 1)]), r.arr([lon, lat]), jd, ha); return r.out(ha, D), r.I, r.st
            H = -x - gst - lon - ep
            for j, (r, pc, (ha, I, st)) in enumerate(paths(P, go)):
                for i, (c, v) in enumerate(cases(ha, pc)):
                    z = strip_turns(v, H)
                    bad = None if z is not None else ident.same(v, H, mod=2 * math.pi)[0]
                    rep.add(G, True if z else bad, 'hour angle modulo turns, %s, case %d.%d' % (nm, j, i), '%s' % v, where(f))
                    rep.add(G, in_half_turn(v, c, H), 'hour angle within half a turn, %s, case %d.%d' % (nm, j, i), '%s under %s' % (v, c), where(f))
    G = 'RA and declination from altitude and azimuth'
    gst = ang('gst', 0, 7); lon = ang('lon', -7, 7)
    for nm, lo, hi, turn in (('', Fr(-157, 100), Fr(157, 100), 0), (' past the zenith', Fr(158, 100), Fr(31, 10), 1), (' past the nadir', Fr(-31, 10), Fr(-158, 100), -1)):
        a0, z0 = ang('alt', lo, hi), ang('az', Fr(-63, 10), Fr(63, 10))
        for la, lv in (('', lat), (' near the north pole', ang('lat', Fr(1569, 1000), Fr(15707, 10000))), (' near the south pole', ang('lat', Fr(-15707, 10000), Fr(-1569, 1000))), (' at the north pole', PIp.scale(Fr(1, 2))), (' at the south pole', PIp.scale(Fr(-1, 2)))):
            with guard(rep, G, 'all%s%s' % (nm, la), where(g)):
                outx = (ang('ox', -3, 3), ang('oy', -1, 1))
                def go(r):
                    r.log = []; hooks_altaz(r, gst, dpsi, outx); o = r.arr([None, None])
                    r.call(g, o, r.arr([z0, a0]), jd, r.arr([lon, lv])); rep.note_funcs(r.I); return r.get(o, 2)
                (sa, ca), (sz, cz), (sl, cl) = sincos(a0), sincos(z0), sincos(lv)
                sd = sl * sa + cl * ca * cz
                for j, (r, pc, o) in enumerate(paths(P, go)):
                    key = 'path %d%s%s' % (j, nm, la)
                    eqv(rep, G, key + ': result', o, outx, where(g))
                    q = [q for q in r.log if q[0] == 'pt'][-1]
                    eqv(rep, G, key + ': epochs', q[3:], [K(2000) + (jd - K(2451545)).scale(Fr(4, 1461)), K(2000)], where(g))
                    for i, (c, v) in enumerate(cases(q[2], pc)):
                        ok, why = lat_arm(c, v, sd); rep.add(G, ok, '%s: declination, case %d' % (key, i), why, where(g))
                    for i, (c, v) in enumerate(cases(q[1], pc)):
                        # -x - gst - lon is the hour angle h counted eastward: cos h cos dec = cl sa - sl ca cz ; sin h cos dec = ca sin az
                        m = [a for a in v.atoms() if ATOMS[a].key[0] == 'fmod']
                        if len(m) == 1 and ident.same(ATOMS[m[0]].key[2], PIp.scale(2))[0]:
                            co = v.t[((m[0], 1),)]; h = -(v - Poly({((m[0], 1),): co}) + ATOMS[m[0]].key[1].scale(co))
                        else: h = -v
                        h = h - gst - lon
                        if 'at the' not in la: az_arm(rep, G, '%s: hour angle, case %d' % (key, i), g, c, h, cl * sa - sl * ca * cz, ca * sz, sqrt_(K(1) - sd * sd), -sz if turn else sz)
                        else:
                            az_ = z0 + PIp.scale(turn)
                            turns(rep, G, '%s: hour angle, case %d' % (key, i), g, c, h, PIp - az_ if 'north' in la else az_)

def turns(rep, G, key, f, c, v, w):
    """v = w modulo whole turns"""
    for q in range(-3, 4):
        try:
            if ident.is_zero(normal(v - w - PIp.scale(2 * q)), Fr(1, 10**12)): rep.add(G, True, key, 'equal up to %d turns' % q, where(f)); return
        except OverflowError: pass
    z = strip_turns(v, w) or strip_turns(-v, -w)
    if z: rep.add(G, True, key, 'equal up to turns', where(f)); return
    ok, why = arm_num(c, v, lambda env: ident.nev(w, env, {}), 2 * math.pi, (w,))
    rep.add(G, ok, key, '%s under %s: %s' % (v, c, why), where(f))
def strip_turns(v, H):
    """v = fmod(H, 2 pi) + 2 pi k, or H + 2 pi k"""
    m = [a for a in v.atoms() if ATOMS[a].key[0] == 'fmod']
    d = v - H
    if len(m) == 1:
        k = ATOMS[m[0]].key
        if v.t.get(((m[0], 1),)) != 1 or not ident.same(k[1], H)[0] or not ident.same(k[2], PIp.scale(2))[0]: return None
        d = v - Poly({((m[0], 1),): 1})
    if d.atoms() - {PI_A.id}: return None
    q = float(ident.nev(d, {}, {})) / (2 * math.pi)
    return abs(q - round(q)) < 1e-9 or False
def in_half_turn(v, c, H):
    """v in [-pi, pi] by the conditions of the arm"""
    m = [a for a in v.atoms() if ATOMS[a].key[0] == 'fmod']
    if len(m) != 1: return None
    z = Poly({((m[0], 1),): 1}); lo, hi = max(-2 * math.pi, float(ATOMS[m[0]].lo)), min(2 * math.pi, float(ATOMS[m[0]].hi))
    for cd in flatc(c):
        if cd.op not in ('lt', 'le'): continue
        for s in (1, -1):
            d = cd.p - z.scale(s)
            if not (d.atoms() - {PI_A.id}):
                x = float(ident.nev(d, {}, {}))
                if s > 0: hi = min(hi, -x)
                else: lo = max(lo, x)
    q = float(ident.nev(v - z, {}, {}))
    return True if lo + q >= -math.pi - 1e-9 and hi + q <= math.pi + 1e-9 else False

def ellipsoid(rep, P):
    f = core.need(P, 'lat_alt_to_parallax'); G = 'geodetic latitude and altitude to parallax constants'
    lat, h, a, b = ang('lat', Fr(-157, 100), Fr(157, 100)), ang('ht', -10**7, 10**7), ang('a', 10**5, 10**8), ang('axis_ratio', Fr(1, 2), 1)
    with guard(rep, G, 'all', where(f)):
        r = Run(P); c, s = r.arr([None]), r.arr([None]); r.call(f, lat, h, c, s, a, a * b); rep.note_funcs(r.I)
        sl, cl = sincos(lat)
        N = inv(sqrt_(cl * cl + b * b * sl * sl))
        eqv(rep, G, 'rho cos phi', [r.out(c, D)], [cl * N + h * inv(a) * cl], where(f), spread=1e7)
        eqv(rep, G, 'rho sin phi', [r.out(s, D)], [b * b * sl * N + h * inv(a) * sl], where(f), spread=1e7)
    f = core.need(P, 'point_to_ellipse'); G = 'nearest point of an ellipse (Borkowski)'
    a, b = ang('a', Fr(99, 100), Fr(101, 100)), ang('b', Fr(9, 10), Fr(98, 100))
    for sx in (1, -1):
        for sy in (1, -1):
            for nm, lx, ly in (('anywhere', (Fr(1, 1000), 10), (Fr(1, 1000), 10)),):
                for dist in (True, False):
                    X, Y = ang('x', *lx), ang('y', *ly)
                    key = '%s, x %+d y %+d, %s' % (nm, sx, sy, 'distance' if dist else 'no distance')
                    with guard(rep, G, key, where(f)):
                        def go(r):
                            d = r.arr([None]); v = r.call(f, a, b, X.scale(sx), Y.scale(sy), d if dist else NULL); rep.note_funcs(r.I)
                            return v, r.out(d, D) if dist else None
                        c2 = a * a - b * b; ix = inv(a * X)
                        e, F = (b * Y - c2) * ix, (b * Y + c2) * ix
                        p = (e * F + K(1)).scale(Fr(4 / 3)); q = (e * e - F * F).scale(2); d = p * p * p + q * q
                        for j, (r, pc, (v, dv)) in enumerate(paths(P, go)):
                            pos = None
                            for cnd in flatc(pc):
                                if ident.is_zero(normal(cnd.p + d)) and cnd.op in ('le', 'lt'): pos = True
                                if ident.is_zero(normal(cnd.p - d)) and cnd.op in ('lt', 'le'): pos = False
                            for i, (c, val) in enumerate(cases(v, pc)):
                                for which, gv in (('direction', val),) + ((('distance', cases(dv, c)[0][1]),) if dist else ()):
                                    def want(env, which=which):
                                        return ellipse(*[ident.nev(z, env, {}) for z in (a, b, X.scale(sx), Y.scale(sy))])[which == 'distance']
                                    w = ell_form(a, b, X, Y, e, F, p, q, d, pos, sx, sy, which)
                                    ok, why = None, ''
                                    if w is not None and (gv == w or ident.same(gv, w, n=0)[0]): ok, why = True, 'Borkowski\'s closed form'
                                    if ok is None: ok, why = ell_num(c, gv, want)
                                    rep.add(G, ok, '%s, path %d.%d: %s' % (key, j, i, which), '%s: %s' % (str(gv)[:150], why), where(f))
    for sy in (1, -1):
        with guard(rep, G, 'on the axis', where(f)):
            Y = ang('y', Fr(1, 2), 3); r = Run(P); d = r.arr([None]); v = r.call(f, a, b, ZERO, Y.scale(sy), d)
            eqv(rep, G, 'on the axis, y %+d' % sy, [v, r.out(d, D)], [PIp.scale(Fr(sy, 2)), Y - b], where(f))
def ell_num(conds, v, fn):
    at = ident.leaves(v)
    for c in conds:
        for p in c.polys(): at |= ident.leaves(p)
    for env in ident.sample(at, 300):
        try:
            if not all(ident.ncond(c, env, {}) for c in conds): continue
            x, y = ident.nev(v, env, {}), fn(env)
        except (ident.NoVal, KeyError, ValueError, ZeroDivisionError): continue
        if y is None: continue
        if isinstance(x, complex) or abs(x - y) > 1e-5 * max(1, abs(y)): return False, '%s instead of %.9g with %s' % (x, y, ', '.join('%s=%.6g' % (PL.aname(a), t) for a, t in list(env.items())[:6]))
    return None, 'no proof'
def ellipse(a, b, x, y):
    """normal direction and signed distance of the point of the ellipse in the point's quadrant whose normal passes through the point; None when ill-conditioned"""
    X, Y = abs(x), abs(y)
    def g(u): return (X - a * math.cos(u)) * a * math.sin(u) - (Y - b * math.sin(u)) * b * math.cos(u)
    lo, hi = 0., math.pi / 2
    if not (g(lo) < 0 < g(hi)): return None, None
    for _ in range(200):
        m = (lo + hi) / 2
        if g(m) < 0: lo = m
        else: hi = m
    u = (lo + hi) / 2
    lat = math.atan2(a * math.sin(u), b * math.cos(u))
    if X < .02 or Y < .02: return None, None
    d = (X - a * math.cos(u)) * math.cos(lat) + (Y - b * math.sin(u)) * math.sin(lat)
    if x < 0: lat = math.pi - lat
    if y < 0: lat = -lat
    return lat, d
def ell_form(a, b, X, Y, e, F, p, q, d, pos, sx, sy, which):
    if pos is None: return None
    def cb(z): return Poly.var(atom(('cbrt', z)))
    if pos:
        s = sqrt_(d); v = cb(s - q) - cb(s + q)
    else:
        sq = sqrt_(-p); t = Poly.var(atom(('acos', q * inv(sq * p)), 0, PIQ)); v = sq.scale(2) * sincos(t.scale(Fr(1, 3)))[1]
    g = (sqrt_(e * e + v) + e).scale(Fr(1, 2))
    t = sqrt_(g * g + (F - v * g) * inv(g.scale(2) - e)) - g
    at = Poly.var(atom(('atan2', a * (K(1) - t * t), b.scale(2) * t), -PIQ, PIQ))
    if which == 'distance': return (X - a * t) * sincos(at)[1] + (Y - b) * sincos(at)[0]
    if sx < 0: at = PIp - at
    return at if sy > 0 else -at

RADII = (695700000, 2440530, 6051800, 6378137, 3396190, 71492000, 60268000, 25559000, 24764000, 1188300, 1737400, 1821490, 1560800, 2631200, 2410300)
POLAR = (695700000, 2438260, 6051800, '6356752.314140347', 3376200, 66854000, 54364000, 24973000, 24341000)
def planets(rep, P):
    f, g = core.need(P, 'planet_radius_in_meters'), core.need(P, 'planet_axis_ratio'); G = 'planetary radii'
    def one(h, key, x, w):
        with guard(rep, G, key, where(h)):
            r = Run(P); v = r.call(h, x); rep.note_funcs(r.I)
            eqv(rep, G, key, [v], [w], where(h), tol=1e-14)
    for i, x in enumerate(RADII): one(f, 'equatorial radius %d' % i, K(i), K(x))
    for i, x in enumerate(POLAR): one(g, 'axis ratio %d' % i, K(i), K(Fr(x) / RADII[i]))
    for nm, lo, hi in (('negative', -2**31, -1), ('beyond the table', 15, 2**31 - 1)):
        one(f, 'equatorial radius, %s' % nm, Poly.var(atom(('in', 'planet', lo, hi), lo, hi, True)), ZERO)
    for nm, lo, hi in (('negative', -2**31, -1), ('beyond the table', 9, 2**31 - 1)):
        one(g, 'axis ratio, %s' % nm, Poly.var(atom(('in', 'planet', lo, hi), lo, hi, True)), K(1))
