"""P09: atmosphere and photometry: refraction, sky brightness, extinction, limiting magnitude, phase-angle magnitude law."""
import core, math, ident
from alg import *
from poly import PI_A
import poly as PL
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR with symbolic inputs (one interval atom per published case); normal-form comparison of the computed expression with the published formula'
RULE = 'each function is interpreted once per case of its published formula with every input a symbol bounded to that case; the resulting expression must have the normal form of the published one, for each photometric band and for every requested-band mask.'
PIp = Poly.var(PI_A)
def fn(nm, p, q=None): return Poly.var(atom((nm, p) if q is None else (nm, p, q), 0 if nm == 'exp' else -INF, INF))
EXP = lambda p: fn('exp', p)
LOG = lambda p: fn('log', p)
d2r = PIp.scale(Fr(1, 180)); r2d = Poly({((PI_A.id, -1),): 180})
k_ = lambda s: K(Fr(s))
L10 = k_('2.302585092994045684')
def rng(nm, lo, hi): return Poly.var(atom(('in', nm, Fr(lo), Fr(hi)), Fr(lo), Fr(hi), False, nm))
def eq1(rep, G, key, got, want, site, ntol=1e-8, **kw):
    # scale small results so that the numeric witness is relative
    ok, why = ident.same(got, want, ntol=ntol, **kw)
    if ok is not True:
        sc = 10**kw.pop('mag', 0) if 'mag' in kw else 1
    rep.add(G, ok, key, '%s; value %s; required %s' % (why, str(got)[:160], str(want)[:160]), site)

def run(rep):
    P = core.units(['refract.cpp', 'vislimit.cpp', 'astfuncs.cpp', 'refract4.cpp'])
    PL.EXPAND_TRIG[0] = False
    refr(rep, P); bright(rep, P); hg(rep, P)
    rep.minimum = 60

def refr(rep, P):
    G = 'refraction'
    f = core.need(P, 'refraction')
    def bennett(a):
        x = a + d2r.scale(Fr('7.31')) * inv(a * r2d + k_('4.4'))
        s, c = sincos(x); cot = c * inv(s)
        R = cot - sincos((cot.scale(Fr('14.7')) + K(13)) * d2r)[0].scale(Fr('0.06'))
        return R * d2r.scale(Fr(1, 60))
    for lo, hi in ((Fr(-6, 100), 0), (0, Fr(1, 10)), (Fr(1, 10), Fr('1.5707'))):
        with guard(rep, G, 'Bennett', where(f)):
            r = Run(P); a = rng('alt', lo, hi)
            v = r.call(f, a); rep.note_funcs(r.I)
            eq1(rep, G, 'Bennett (Meeus 16.3 with correction), altitude %.2f..%.2f' % (lo, hi), v.scale(1000), bennett(a).scale(1000), where(f))
    # true -> apparent: refraction R such that R = refraction(true + R): the last value assigned comes from that equation
    g = core.need(P, 'reverse_refraction')
    def start(a):
        x = a + d2r.scale(Fr('10.3')) * inv(a * r2d + k_('5.11'))
        s, c = sincos(x); return c * inv(s) * d2r.scale(Fr('1.02') / 60)
    for lo, hi in ((0, Fr(1, 10)), (Fr(1, 10), Fr('1.5707'))):
        with guard(rep, G, 'inverse', where(g)):
            r = Run(P); a = rng('alt', lo, hi); calls = []
            def hk(I, st, x, ins, m):
                calls.append(x[0]); v = Poly.var(atom(('refraction', x[0]), -1, 1)); return st, v
            r.I.hooks['refraction'] = hk
            v = r.call(g, a); rep.note_funcs(r.I)
            ok, why = (None, 'no call') if not calls else ident.same(calls[0].scale(100), (a + start(a)).scale(100))
            rep.add(G, ok, 'inverse refraction: Saemundsson first approximation, altitude %.2f..%.2f' % (lo, hi), why, where(g))
            # every call after the first must be at true altitude + last refraction
            bad = None
            for c in calls[1:]:
                d = c - a
                if any(PL.ATOMS[x].key[0] in ('refraction', 'phi', 'w') for x in d.atoms()): continue
                bad = c
            rep.add(G, bad is None, 'inverse refraction: iterated at true altitude plus last refraction, altitude %.2f..%.2f' % (lo, hi), str(bad)[:200], where(g))
    h = core.need(P, 'saasta_refraction'); hr = core.need(P, 'reverse_saasta_refraction')
    def saasta(a, p, t, rh):
        s, c = sincos(a); tn = c * inv(s)
        pw = rh * EXP(LOG(t * inv(k_('247.1'))).scale(Fr('18.36')))
        q = (p - pw.scale(Fr('.156'))) * inv(t)
        xi = q * tn * (ONE + q * tn * tn * k_('.0000394')) * k_('16.271') - p * tn * (ONE + tn * tn) * k_('.0000749')
        return xi * d2r.scale(Fr(1, 3600))
    p, t, rh, a = rng('pressure', 400, 1100), rng('temp', 200, 330), rng('rh', 0, 1), rng('alt', Fr(1, 10), Fr('1.57'))
    with guard(rep, G, 'Saastamoinen', where(h)):
        r = Run(P); v = r.call(h, a, p, t, rh); rep.note_funcs(r.I)
        eq1(rep, G, 'Saastamoinen (Explanatory Supplement 3.281)', v.scale(1000), saasta(a, p, t, rh).scale(1000), where(h))
        r = Run(P); v = r.call(hr, a, p, t, rh); rep.note_funcs(r.I)
        eq1(rep, G, 'inverse Saastamoinen', v.scale(1000), saasta(a + start(a), p, t, rh).scale(1000), where(hr))

def hg(rep, P):
    f = core.need(P, 'phase_angle_correction_to_magnitude'); G = 'H-G phase law'
    with guard(rep, G, 'formula', where(f)):
        r = Run(P); ph, g = rng('phase', Fr(1, 1000), Fr(31, 10)), rng('G', -Fr(1, 2), 1)
        v = r.call(f, ph, g); rep.note_funcs(r.I)
        # -2.5 log10((1-G) phi1 + G phi2), phi_i = exp(-A_i tan(phase/2)^B_i); the exponential argument is compared numerically (a guard of 1e-10 is added to the tangent)
        s, c = sincos(ph.scale(Fr(1, 2)))
        lt = LOG(s * inv(c) + k_('1e-10'))
        phi = [EXP(-EXP(lt.scale(Fr(b))).scale(Fr(A))) for A, b in (('3.33', '0.63'), ('1.87', '1.22'))]
        w = fn('log10', (ONE - g) * phi[0] + g * phi[1]).scale(Fr(-5, 2))
        eq1(rep, G, 'magnitude = -2.5 log10((1-G) phi1 + G phi2)', v, w, where(f))

def bright(rep, P):
    lay = core.layout(['vislimit.h'], 'zenith_ang_moon', 'brightness')
    size = lay[''][0]
    arrs = ('k', 'c3', 'c4', 'ka', 'kr', 'ko', 'kw', 'extinction', 'brightness')
    def setup(r, vals):
        p = r.arr([], size=size, name='brightness')
        for n, v in vals.items():
            o, ty = lay[n]
            for i, x in enumerate(v if isinstance(v, list) else [v]):
                r.I.store(r.st, Ptr(p.obj, K(o + 8 * i)), x, llir.I32 if ty == 'int' else D, None, r.m)
        return p
    def get(r, p, n, i=0): return r.out(Ptr(p.obj, K(lay[n][0] + 8 * i)), D)
    # ---- set_brightness_params
    f = core.need(P, 'set_brightness_params'); G = 'sky brightness parameters'
    X = lambda z: None
    def air(z, up): return inv(sincos(z)[1] + EXP(sincos(z)[1].scale(-11)).scale(Fr('.025'))) if up else K(40)
    for rhl, rh in (('dry', ZERO), ('humid', rng('rh', 1, 99)), ('saturated', rng('rhs', 100, 120))):
        for moonup in (0, 1):
          for sunup in (0, 1):
            if rhl != 'humid' and moonup == sunup == 0: continue
            for el, fold in (((Fr('.001'), Fr('3.1415')), lambda e: K(180) - e), ((Fr('-3.1415'), Fr('-.001')), lambda e: K(180) + e), ((Fr('3.1417'), Fr('6.283')), lambda e: e - K(180)), ((Fr('-6.283'), Fr('-3.1417')), lambda e: -e - K(180))):
                if el[0] != Fr('.001') and not (rhl == 'humid' and moonup and sunup): continue
                key = '%s, moon %s, sun %s%s: ' % (rhl, 'up' if moonup else 'down', 'up' if sunup else 'down', ', elongation %.1f..%.1f' % el if el[0] != Fr('.001') else '')
                with guard(rep, G, key, where(f)):
                    r = Run(P)
                    zm = rng('zm', 0, '1.57') if moonup else rng('zm', '1.58', '3.14')
                    zs = rng('zs', 0, '1.57') if sunup else rng('zs', '1.58', '3.14')
                    v = {'zenith_ang_moon': zm, 'zenith_ang_sun': zs, 'moon_elongation': rng('elong', *el), 'ht_above_sea_in_meters': rng('ht', 0, 5000), 'latitude': rng('lat', '-1.57', '1.57'),
                         'temperature_in_c': rng('temp', -60, 50), 'relative_humidity': rh, 'year': rng('year', 1900, 2100), 'month': rng('month', 1, 13)}
                    p = setup(r, v); r.call(f, p); rep.note_funcs(r.I)
                    ma = (v['month'] - K(3)) * PIp.scale(Fr(1, 6)); ht, lat = v['ht_above_sea_in_meters'], v['latitude']
                    kr = EXP(ht.scale(Fr(-1, 8200))).scale(Fr('.1066'))
                    ko = (K(3) + (lat * sincos(ma)[1] - sincos(lat.scale(3))[1]).scale(Fr('.4'))).scale(Fr(1, 3))
                    kw = rh.scale(Fr('.0094')) * EXP(v['temperature_in_c'].scale(Fr(1, 15))) * EXP(ht.scale(Fr(-1, 8200)))
                    ka = EXP(ht.scale(Fr(-1, 1500))).scale(Fr('.1'))
                    if rhl == 'humid': ka = ka * EXP(LOG(ONE - inv(LOG(rh.scale(Fr(1, 100)))).scale(Fr('.32'))).scale(Fr('1.33')))
                    if rhl == 'saturated': ka = ka * EXP(LOG(K(10**6)).scale(Fr('1.33')))
                    ka = ka * (ONE + sincos(ma)[0] * sincos(lat)[0])
                    eq1(rep, G, key + 'solar cycle term', get(r, p, 'year_term'), ONE + sincos((v['year'] - K(1992)) * PIp.scale(Fr(2, 11)))[1].scale(Fr('.3')), where(f))
                    am, as_ = air(zm, moonup), air(zs, sunup)
                    eq1(rep, G, key + 'air mass of the moon', get(r, p, 'air_mass_moon'), am, where(f)); eq1(rep, G, key + 'air mass of the sun', get(r, p, 'air_mass_sun'), as_, where(f))
                    e = v['moon_elongation'] * r2d
                    mang = fold(e)
                    eq1(rep, G, key + 'lunar magnitude', get(r, p, 'lunar_mag'), k_('-12.73') + mang.scale(Fr('.026')) + (mang ** 4).scale(Fr('4e-9')), where(f))
                    kk = []
                    for i in range(5):
                        c4 = ('5.155601', '2.441406', '1', '0.381117', '0.139470')[i]; c13 = ('1.704083', '1.336543', '1', '0.730877', '0.527177')[i]
                        oz = ('0', '0', '.031', '.008', '0')[i]; wt = ('.074', '.045', '.031', '.02', '.015')[i]
                        w = {'kr': kr.scale(Fr(c4)), 'ka': ka.scale(Fr(c13)), 'ko': ko.scale(Fr(oz)), 'kw': kw.scale(Fr(wt))}
                        for n, x in w.items(): eq1(rep, G, key + '%s band %s' % (n, 'UBVRI'[i]), get(r, p, n, i), x, where(f))
                        tot = sum(w.values(), ZERO); kk.append(tot); eq1(rep, G, key + 'total extinction band %s' % 'UBVRI'[i], get(r, p, 'k', i), tot, where(f))
                        kg = get(r, p, 'k', i)
                        for n, m in (('c3', am), ('c4', as_)): eq1(rep, G, key + '%s band %s' % (n, 'UBVRI'[i]), get(r, p, n, i), EXP((kg * m * L10).scale(Fr('-.4'))), where(f))
    # ---- extinction, brightness: symbolic coefficients, every mask bit set / clear
    f = core.need(P, 'compute_extinction'); G = 'extinction'
    co = {n: V(n, 5, 0, 10) for n in ('kr', 'ka', 'ko', 'kw')}
    for mask in [0, 31] + [1 << i for i in range(5)] + [31 ^ (1 << i) for i in range(5)]:
        with guard(rep, G, 'mask %d' % mask, where(f)):
            r = Run(P); z = rng('z', 0, '1.57')
            old = V('old', 5); p = setup(r, dict(co, zenith_angle=z, mask=K(mask), extinction=old)); r.call(f, p); rep.note_funcs(r.I)
            s, c = sincos(z); tv = s.scale(1 / (1 + Fr(20, 6378)))
            xg = inv(c + EXP(c.scale(Fr('-10.5'))).scale(Fr('.0286'))); xa = inv(c + EXP(c.scale(Fr('-24.5'))).scale(Fr('.0123'))); xo = inv(sqrt_(ONE - tv * tv))
            for n, x in (('air_mass_gas', xg), ('air_mass_aerosol', xa), ('air_mass_ozone', xo)): eq1(rep, G, 'mask %d: %s' % (mask, n), get(r, p, n), x, where(f))
            g = {n: get(r, p, n) for n in ('air_mass_gas', 'air_mass_aerosol', 'air_mass_ozone')}
            for i in range(5):
                w = (co['kr'][i] + co['kw'][i]) * g['air_mass_gas'] + co['ka'][i] * g['air_mass_aerosol'] + co['ko'][i] * g['air_mass_ozone'] if mask >> i & 1 else old[i]
                eq1(rep, G, 'mask %d: band %s' % (mask, 'UBVRI'[i]), get(r, p, 'extinction', i), w, where(f))
    f = core.need(P, 'compute_limiting_mag'); G = 'limiting magnitude'
    for nm, lo, hi, c1, c2 in (('dark', '0', '1.66499e-12', '1.5849e-10', '1.2589e-2'), ('bright', '1.66501e-12', '1e-3', '4.4668e-9', '1.2589e-6')):
        with guard(rep, G, nm, where(f)):
            r = Run(P); b2 = rng('B', lo, hi); ex = S('ext', 0, 50); p = setup(r, {'brightness': [ZERO, ZERO, b2, ZERO, ZERO], 'extinction': [ZERO, ZERO, ex, ZERO, ZERO]})
            v = r.call(f, p); rep.note_funcs(r.I)
            bl = b2.scale(1 / Fr('1.11e-15')); tv = ONE + sqrt_(bl.scale(Fr(c2))); th = (tv * tv).scale(Fr(c1))
            w = k_('-16.57') - LOG(th).scale(Fr('2.5')) * inv(L10) - ex
            eq1(rep, G, nm, v, w, where(f))
    f = core.need(P, 'compute_sky_brightness'); G = 'sky brightness'
    bo = ('8e-14', '7e-14', '1e-13', '1e-13', '3e-13'); cm = ('1.36', '.91', '0', '-.76', '-1.17')
    ms = ('-25.96', '-26.09', '-26.74', '-27.26', '-27.55'); mo = ('-10.93', '-10.45', '-11.05', '-11.90', '-12.70')
    M2B = lambda p: EXP((p * L10).scale(Fr('-.4')))
    for up in (0, 1):
        for zup in (0, 1):
            for mask in ((31, 0, 1, 16) if up and zup else (31,)):
                key = 'moon %s, target %s, mask %d: ' % ('up' if up else 'down', 'above horizon' if zup else 'below', mask)
                with guard(rep, G, key, where(f)):
                    r = Run(P); z = rng('z', 0, '1.57') if zup else rng('z', '1.58', '3.1')
                    zm = rng('zm', 0, '1.57') if up else rng('zm', '1.58', '3.1'); zs = rng('zs', 0, '3.14'); dm, ds = rng('dm', '.01', '3.1'), rng('ds', '.01', '3.1')
                    kk, c3, c4 = V('k', 5, Fr(1, 100), 5), V('c3_', 5, 0, 1), V('c4_', 5, 0, 1); yt, lm = rng('yt', '.7', '1.3'), rng('lm', -13, 0); old = V('oldb', 5)
                    p = setup(r, dict(zenith_angle=z, zenith_ang_moon=zm, zenith_ang_sun=zs, dist_moon=dm, dist_sun=ds, k=kk, c3=c3, c4=c4, year_term=yt, lunar_mag=lm, mask=K(mask), brightness=old))
                    r.call(f, p); rep.note_funcs(r.I)
                    am = air(z, zup); eq1(rep, G, key + 'air mass', get(r, p, 'air_mass'), am, where(f)); am = get(r, p, 'air_mass')
                    s = sincos(z)[0]; drop = k_('.4') + inv(sqrt_(ONE - (s * s).scale(Fr('.96')))).scale(Fr('.6'))
                    def ff(d):
                        dd = d * r2d; c = sincos(d)[1]
                        return inv(dd * dd).scale(Fr('6.2e7')) + EXP(L10 * (k_('6.15') - dd.scale(Fr(1, 40)))) + (k_('1.06') + c * c).scale(229086)
                    fm, fs = ff(dm), ff(ds)
                    for i in range(5):
                        got = get(r, p, 'brightness', i)
                        if not mask >> i & 1: eq1(rep, G, key + 'band %s untouched' % 'UBVRI'[i], got, old[i], where(f)); continue
                        dl = M2B(kk[i] * am)
                        bn = yt * drop * dl * k_(bo[i])
                        bm = M2B(lm + k_(cm[i]) - k_(mo[i]) + k_('43.27')) * (ONE - dl) * (fm * c3[i] + (ONE - c3[i]).scale(440000))
                        if not up: bm = bm * EXP((PIp.scale(Fr(1, 2)) - zm).scale(100))
                        tw = M2B(k_(ms[i]) - k_(mo[i]) + k_('32.5') - (K(90) - zs * r2d) - z * inv(PIp.scale(2) * kk[i])) * inv(ds * r2d).scale(100) * (ONE - M2B(kk[i]))
                        day = M2B(k_(ms[i]) - k_(mo[i]) + k_('43.27')) * (ONE - dl) * (fs * c4[i] + (ONE - c4[i]).scale(440000))
                        # brightness must be night + moon + min(day, twilight): compared numerically on a dense sample where terms have different magnitudes, relative to the required value
                        w = bn + bm
                        best = None
                        try:
                            lv = ident.leaves(got) | ident.leaves(w) | ident.leaves(tw) | ident.leaves(day)
                            bad = None; n = 0
                            for env in ident.sample(lv, 60):
                                a0 = ident.nev(got, env); w0 = ident.nev(w, env) + min(ident.nev(day, env), ident.nev(tw, env)); n += 1
                                if abs(a0 - w0) > 1e-7 * max(abs(w0), 1e-16): bad = 'brightness %.8g, published formula %.8g at %s' % (a0, w0, {PL.aname(k): round(float(x), 4) for k, x in env.items()}); break
                            sym = sym_min(got, w, tw, day)
                            ok = False if bad else sym
                            rep.add(G, ok, key + 'band %s' % 'UBVRI'[i], bad or ('normal form' if sym else 'terms agree at all valuations, normal forms not equal'), where(f))
                        except ident.NoVal as e: rep.add(G, None, key + 'band %s' % 'UBVRI'[i], str(e), where(f))

def sym_min(got, w, tw, day):
    """got == w + ite(day < tw, day, tw) by normal form of each arm"""
    for a in got.atoms():
        k = PL.ATOMS[a].key
        if k[0] == 'ite' and ((a, 1),) in got.t:
            rest = got - Poly({((a, 1),): got.t[((a, 1),)]}); sc = got.t[((a, 1),)]
            arms = [rest + k[2].scale(sc), rest + k[3].scale(sc)]
            for x, y in ((tw, day), (day, tw)):
                if ident.same(arms[0].scale(10**14), (w + x).scale(10**14))[0] and ident.same(arms[1].scale(10**14), (w + y).scale(10**14))[0]: return True
    return None
