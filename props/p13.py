"""P13: observatory records, typed locations and typed coordinates mean what their text says."""
import core, ident, fmt
from strs import *
from poly import PI_A
from p11 import digs, six
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR on record and coordinate templates of symbolic digits'
RULE = ('one abstract call per documented layout (all digits unknown): every field of the result must be the linear form of the digits the layout prescribes, '
        'in the documented unit, and the return code that of the documentation')
ASSUMPTIONS = ['values as exact real numbers (the decimal fraction of a text, not its nearest double)', 'point_to_ellipse and lat_alt_to_parallax are unknown functions of their arguments here; P10 decides them']
PIp = Poly.var(PI_A); RAD = PIp.scale(Fr(1, 180))
I32 = llir.Ty('int', 32)
FLD = {'lat': 0, 'lon': 8, 'alt': 16, 'rho_cos_phi': 24, 'rho_sin_phi': 32}
def dec(i, f=[]):
    return num(list(i)) + (num(list(f)).scale(Fr(1, 10 ** len(f))) if f else ZERO)
def opaque(seen):
    def pte(I, st, a, ins, m):
        v = [I.resolve(I.as_poly(x, 64), st) for x in a[:4]]; seen.append(('ellipse', v))
        k = tuple(repr(x) for x in v[2:4])
        if isinstance(a[4], Ptr) and a[4].obj is not None: I.store(st, a[4], Poly.var(atom(('height', k), -1, 10, False, 'height')), D, ins, m)
        return st, Poly.var(atom(('latitude', k), -2, 2, False, 'latitude'))
    def lap(I, st, a, ins, m):
        v = [I.resolve(I.as_poly(x, 64), st) for x in (a[0], a[1], a[4], a[5])]; seen.append(('parallax', v))
        for p, t in ((a[2], 'rc'), (a[3], 'rs')): I.store(st, p, Poly.var(atom((t, 'of'), -2, 2, False, t)), D, ins, m)
        return st, ZERO
    return pte, lap
EA, EB = K(6378137), K(Fr('6356752.314140347'))
HT = Poly.var(atom(('in', 'ht'), -400, 9000))
def run(rep):
    P = core.program()
    numbers(rep, P); records(rep, P); typed(rep, P); xxx(rep, P); radec(rep, P); regions(rep, P)
    rep.minimum = 150
def numbers(rep, P):
    f = core.need(P, 'quick_strtod'); q = core.need(P, 'quick_atof'); G = 'decimal numbers'
    def case(key, t, v, used):
        def mk(r):
            r.e = Ptr(r.I.new_obj(r.st, 8, 'arg', 'end pointer').id, ZERO); r.s = sym(r.I, r.st, flat(t)); return [r.s, r.e]
        def post(r):
            e = r.get1(r.e, llir.PTR)
            return [('characters used', e.off if isinstance(e, Ptr) and e.obj == r.s.obj else K(-1), used)]
        value(rep, G, key, P, f, mk, v, post=post)
        value(rep, G, key + ', value only', P, q, lambda r: [sym(r.I, r.st, flat(t))], v)
    for sg in ('', '+', '-'):
        for bl in ('', '   '):
            for n in range(0, 10):
                for k in (0, 1, 2, 5, 9, 10, 15):
                    if n > 3 and k not in (0, 2, 9): continue
                    if not n and not k: continue
                    if bl and (n, k) not in ((1, 0), (3, 5), (0, 2)): continue
                    i, fr = digs(n, 'i'), digs(k, 'f')
                    for term in ('', ' ', 'x', ',') if (n, k) == (2, 5) else ('',):
                        for dot in (('', '.') if not k else ('.',)):
                            t = [bl, sg, i, dot, fr, term]; v = dec(i, fr) if n or k else ZERO
                            case('"%s%s" %d digits%s %d decimals%s' % (bl, sg, n, ' and a point,' if dot else ',', k, ' then "%s"' % term if term else ''), t, -v if sg == '-' else v, len(flat([bl, sg, i, dot, fr])))
    for t in ('', 'x', '.', '-.', '+', ' .x', '.-5'):
        value(rep, G, 'no number "%s"' % t, P, q, lambda r: [sym(r.I, r.st, flat(t))], ZERO)
def records(rep, P):
    f = core.need(P, 'get_mpc_code_info')
    def case(G, key, txt, ret, want, calls=None, name=None, hooks=True, zeroed=True):
        seen = []
        def pre(r):
            seen.clear(); r.I.hooks['point_to_ellipse'], r.I.hooks['lat_alt_to_parallax'] = opaque(seen)
        def mk(r):
            o = r.I.new_obj(r.st, 72, 'arg', 'mpc_code_t'); r.c = Ptr(o.id, ZERO); r.s = sym(r.I, r.st, flat(txt)); return [r.c, r.s]
        def post(r):
            out = []
            for k, w in want.items():
                if k in FLD: out.append((k, r.get1(Ptr(r.c.obj, K(FLD[k])), D), w))
                elif k == 'code':
                    for i, c in enumerate(flat(w) + [ZERO]): out.append(('code[%d]' % i, r.get1(Ptr(r.c.obj, K(64 + i)), llir.Ty('int', 8)), c))
                else: out.append((k, r.get1(Ptr(r.c.obj, K({'planet': 40, 'prec1': 44, 'prec2': 48, 'format': 52}[k])), I32), w))
            if name is not None:
                p = r.get1(Ptr(r.c.obj, K(56)), llir.PTR)
                if isinstance(name, int): out.append(('name at', p.off if isinstance(p, Ptr) and p.obj == r.s.obj else K(-1), name))
                else:
                    cs = chars(r.I, r.st, p); out.append(('name length', K(len(cs)), len(name))); out += [('name[%d]' % i, a, ord(b)) for i, (a, b) in enumerate(zip(cs, name))]
            if calls is not None:
                out.append(('calls', K(len(seen)), len(calls)))
                for (a, v), (b, w) in zip(seen, calls):
                    out.append(('called function', K(0 if a == b else 1), 0)); out += [('%s argument %d' % (a, i), x, y) for i, (x, y) in enumerate(zip(v, w))]
            return out
        value(rep, G, key, P, f, mk, ret, pre=pre, post=post)
    G = 'standard observatory record'
    cd = [ch('c0', '0', '9'), ch('c1', '0', '9'), ch('c2', '0', '9')]; ca = [ch('c0', 'A', 'Z'), ch('c1', '0', '9'), ch('c2', '0', '9')]
    nz = lambda n, t: [d_(t + '0', 1)] + digs(n - 1, t)
    for nl in range(1, 6):
        for npx in range(1, 7):
            for sg in '+- ' if (nl, npx) in ((5, 6), (4, 5)) else '-':
                for code in (cd, ca) if (nl, npx) == (5, 6) else (cd,):
                    l, fl, c, s = digs(3, 'l'), digs(nl, 'm'), nz(npx, 'c'), nz(npx, 's')
                    lead = l
                    pad = lambda n: ' ' * n
                    t = [code, ' ', lead, '.', fl, pad(5 - nl), '0.', c, pad(6 - npx), sg, '0.', s, pad(6 - npx), 'Somewhere']
                    assert len(flat(t)) == 39, len(flat(t))
                    rc, rs = dec(flat('0'), c), dec(flat('0'), s)
                    if sg == '-': rs = -rs
                    k = (repr(rc), repr(rs))
                    case(G, '%d decimals of longitude, %d of parallax, sign "%s"%s' % (nl, npx, sg, '' if code is cd else ', lettered code'), t, 3, {'lon': dec(l, fl) * RAD, 'rho_cos_phi': rc, 'rho_sin_phi': rs, 'planet': 3, 'prec1': nl, 'prec2': npx, 'format': 1, 'code': code,
                         'lat': Poly.var(atom(('latitude', k), -2, 2, False, 'latitude')), 'alt': Poly.var(atom(('height', k), -1, 10, False, 'height')) * EA}, [('ellipse', [K(1), EB.scale(Fr(1) / Fr('6378137')), rc, rs])], 30)
    for l in (['  ', d_('l0')], [' ', d_('l0'), d_('l1')]):
        case(G, 'short longitude "%s"' % show(flat(l)), [cd, ' ', l, '.', digs(5, 'm'), '0.', nz(6, 'c'), '+0.', nz(6, 's'), 'X'], 3, {'lon': dec([c for c in flat(l) if c != K(32)], digs(5, 'm')) * RAD, 'prec1': 5})
    case(G, 'geocentre', [cd, '   0.000000.000000 0.000000Geocentric'], 3, {'lon': 0, 'lat': 0, 'alt': 0, 'rho_cos_phi': 0, 'rho_sin_phi': 0, 'planet': 3, 'format': 1}, [], 30)
    case(G, 'pole', [cd, '   0.000000.000000 0.', nz(6, 's'), 'Pole'], 3, {'lon': 0, 'rho_cos_phi': 0, 'rho_sin_phi': dec([K(48)], nz(6, 's'))})
    case(G, 'satellite', [cd, ' ' * 27, 'Hubble'], -2, {'format': 3, 'planet': -2, 'code': cd, 'lat': 0, 'lon': 0, 'alt': 0}, [], 30)
    G = 'records that are none'
    for key, t in (('two-character code', ['ab ', ' ' * 30, 'x']), ('five-character code', ['abcde', ' ' * 30, 'x']), ('short line', [cd, '   0.62411 0.77873']), ('29 characters', [cd, ' ' * 26]), ('blank line', ' ' * 40), ('point misplaced', [cd, '  0.6241100.778730+0.625310X']), ('letters', [cd, ' Long.   cos      sin    Name'])):
        case(G, key, t, -1, {'planet': 3, 'lat': 0, 'lon': 0, 'alt': 0, 'rho_cos_phi': 0, 'rho_sin_phi': 0}, [], 'Unkn')
    G = 'rovers.txt record'
    four = [ch('c0', 'A', 'Z'), ch('c1', 'a', 'z'), ch('c2', '0', '9'), ch('c3', 'a', 'z')]
    PL = (('', 3, EA, EB), ('@10', 10, K(1737400), K(1737400)), ('@4', 4, K(3396190), K(3376200)), ('@0', 0, K(695700000), K(695700000)))
    def geo(key, code, lon, lat, lt, nt, alt, at, planet=3, ax=(EA, EB)):
        for at_, pl, a, b in PL if key == 'plain' else PL[:1]:
            t = [code, '!' if len(code) == 4 else ' !', nt, '  ', lt, '  ', at, ' ']
            n = len(flat(t)); t += [' ' * (47 - n), 'Some place ', at_]
            case(G, '%s, %d-character code%s' % (key, len(code), at_ and ', ' + at_), t, pl, {'lon': lon, 'lat': lat, 'alt': alt, 'planet': pl, 'format': 2, 'code': code, 'prec1': 0, 'prec2': 0}, [('parallax', [lat, alt, a, b])], 47)
    for code in ([ch('c0', 'A', 'Z'), ch('c1', '0', '9'), ch('c2', '0', '9')], four):
        L3, L2, A4 = [d_('L0', 1, 2)] + digs(2, 'L'), [d_('B0', 1, 8)] + digs(1, 'B'), digs(4, 'a')
        fL, fB, fA = digs(7, 'x'), digs(6, 'y'), digs(2, 'z')
        lon, lat, alt = dec(L3, fL) * RAD, dec(L2, fB) * RAD, dec(A4, fA)
        geo('plain', code, lon, lat, [L2, '.', fB], [L3, '.', fL], alt, [A4, '.', fA])
        geo('south', code, lon, -lat, ['-', L2, '.', fB], [L3, '.', fL], alt, [A4, '.', fA])
        geo('west', code, PIp.scale(2) - lon, lat, ['+', L2, '.', fB], ['-', L3, '.', fL], -alt, ['-', A4, '.', fA])
    m1, s1, m2, s2 = six('m'), six('s'), six('n'), six('t'); D3, D2 = [d_('L0', 1, 2)] + digs(2, 'L'), [d_('B0', 1, 8)] + digs(1, 'B')
    for fl, fb in (([], []), (digs(1, 'x'), digs(2, 'y')), (digs(4, 'x'), digs(4, 'y'))):
        b60 = lambda d, m, s, f: (num(d) + num(m).scale(Fr(1, 60)) + dec(s, f).scale(Fr(1, 3600))) * RAD
        lon, lat = b60(D3, m1, s1, fl), b60(D2, m2, s2, fb)
        pt = '.' if fl else ''
        for sg, so in (('', ''), ('-', ''), ('', '-')):
            geo('base 60, %d decimals, signs "%s" "%s"' % (len(fl), sg, so), four, PIp.scale(2) - lon if sg else lon, -lat if so else lat, [so, D2, m2, s2, pt, fb], [sg, D3, m1, s1, pt, fl], dec(digs(3, 'a')), digs(3, 'a'))
    b60 = lambda d, m, s, f: (num(d) + num(m).scale(Fr(1, 60)) + dec(s, f).scale(Fr(1, 3600))) * RAD
    for kk, tl, vl, tb, vb in (('latitude below 91 arcseconds', [D3, m1, s1], b60(D3, m1, s1, []), s2, num(s2).scale(Fr(1, 3600)) * RAD),
                               ('longitude below six arcminutes', ['000', '0', d_('w', 1, 4), s1], (rngc('w', 1, 4).scale(Fr(1, 60)) + num(s1).scale(Fr(1, 3600))) * RAD, [D2, m2, s2], b60(D2, m2, s2, []))):
        if kk.startswith('long'): tl = ['00000', s1]; vl = num(s1).scale(Fr(1, 3600)) * RAD
        geo('base 60, ' + kk, four, vl, vb, tb, tl, dec(digs(3, 'a')), digs(3, 'a'))
    q = [d_('q0', 1)] + digs(2, 'q')
    case(G, 'dynamical point', [four, '!', '123.4  -45.6  100 ', ' ' * 24, 'Sun-Earth ', '@9', q], num(q) + K(9000), {'lon': 0, 'lat': 0, 'alt': 0, 'rho_cos_phi': 0, 'rho_sin_phi': 0, 'planet': num(q) + K(9000)}, [], 47)
    case(G, 'geocentre', [four, '! 0.0 0.0 0.0 ', ' ' * 28, 'Centre'], 3, {'lon': 0, 'lat': 0, 'alt': 0, 'rho_cos_phi': 0, 'rho_sin_phi': 0, 'planet': 3}, [], 47)
    for kk, lat, lon, sg in (('on the equator', 0, 1, ''), ('on the equator, west', 0, 1, '-'), ('on the prime meridian', 1, 0, ''), ('on the prime meridian, south', 1, 0, '-')):
        B, Bf = [d_('B0', 1, 8)] + digs(1, 'B'), digs(3, 'y')
        v = dec(B, Bf) * RAD
        if lon: geo(kk, four, (PIp.scale(2) - v if sg else v), ZERO, ['0.0'], [sg, B, '.', Bf], dec(digs(3, 'a')), digs(3, 'a'))
        else: geo(kk, four, ZERO, -v if sg else v, [sg, B, '.', Bf], ['0.0'], dec(digs(3, 'a')), digs(3, 'a'))
    case(G, 'no numbers', [four, '! somewhere ', ' ' * 28, 'Centre'], -1, {'planet': 3}, [], 'Unkn')
    case(G, 'two numbers', [four, '! 12.3 44.5 x', ' ' * 28, 'Centre'], -1, {'planet': 3}, [], 'Unkn')

def angle_texts(tag, deg, dv):
    """(name, text, degrees)"""
    m, s = six(tag + 'm'), six(tag + 's')
    out = []
    for n in (1, 4, 7): out.append(('%d decimals' % n, [deg, '.', digs(n, tag + 'f')], dv + num(digs(n, tag + 'f')).scale(Fr(1, 10 ** n))))
    out.append(('integer', [deg], dv))
    for n in (0, 1, 5): 
        fr = digs(n, tag + 'f'); out.append(('minutes, %d decimals' % n, [deg, ' ', m] + (['.', fr] if n else []), dv + dec(m, fr).scale(Fr(1, 60))))
    for n in (0, 1, 4):
        fr = digs(n, tag + 'f'); out.append(('seconds, %d decimals' % n, [deg, ' ', m, ' ', s] + (['.', fr] if n else []), dv + num(m).scale(Fr(1, 60)) + dec(s, fr).scale(Fr(1, 3600))))
    return out
def loc_case(rep, P, f, G, key, txt, ret, want, calls=None, name=None, nullinfo=False):
    seen = []
    def pre(r):
        seen.clear(); r.I.hooks['point_to_ellipse'], r.I.hooks['lat_alt_to_parallax'] = opaque(seen)
    def mk(r):
        o = r.I.new_obj(r.st, 72, 'arg', 'mpc_code_t'); r.c = Ptr(o.id, ZERO); r.s = sym(r.I, r.st, flat(txt)); return [NULL if nullinfo else r.c, r.s]
    def post(r):
        out = []
        if nullinfo: return out
        for k, w in want.items():
            if k in FLD: out.append((k, r.get1(Ptr(r.c.obj, K(FLD[k])), D), w))
            elif k == 'code':
                for i, c in enumerate(flat(w) + [ZERO]): out.append(('code[%d]' % i, r.get1(Ptr(r.c.obj, K(64 + i)), llir.Ty('int', 8)), c))
            else: out.append((k, r.get1(Ptr(r.c.obj, K({'planet': 40, 'prec1': 44, 'prec2': 48, 'format': 52}[k])), I32), w))
        if calls is not None:
            out.append(('calls', K(len(seen)), len(calls)))
            for (a, v), (b, w) in zip(seen, calls):
                out.append(('called function', K(0 if a == b else 1), 0)); out += [('%s argument %d' % (a, i), x, y) for i, (x, y) in enumerate(zip(v, w))]
        return out
    value(rep, G, key, P, f, mk, ret, pre=pre, post=post)
def typed(rep, P):
    f = core.need(P, 'get_lat_lon_info')
    lat_d = [d_('B0', 1, 7), d_('B1')]; lon_d = [d_('L0', 1, 9), d_('L1')]
    lats, lons = angle_texts('b', lat_d, num(lat_d)), angle_texts('l', lon_d, num(lon_d))
    alts = [(None, '', K(100)), ('metres', [digs(4, 'h'), 'm'], num(digs(4, 'h'))), ('Alt., metres', ['Alt. ', digs(4, 'h'), '.', digs(1, 'hf'), 'm'], dec(digs(4, 'h'), digs(1, 'hf'))), ('alt, feet', ['alt ', digs(4, 'h'), 'ft'], num(digs(4, 'h')).scale(Fr('0.3048'))), ('feet', [digs(5, 'h'), ' ft'], num(digs(5, 'h')).scale(Fr('0.3048')))]
    n = 0
    for order in ('lat lon', 'lon lat'):
        for i, (kn, t1, v1) in enumerate(lats):
            for place in ('before', 'after', 'before, blank'):
                for sc, oc in (('NE'), ('sW'), ('nw'), ('SE')) if i in (1, 8) else (('Nw'),) if i % 2 else (('Se'),):
                    n += 1
                    kl, t2, v2 = lons[(i * 3 + n) % len(lons)]
                    an, at, av = alts[n % len(alts)]
                    sep = (', ', ',', ' ')[n % 3] if place != 'before' else (', ', ',')[n % 2]
                    if place == 'after': a, b = [t1, ' ' * (n % 2), sc], [t2, ' ' * (n % 2), oc]
                    elif place == 'before': a, b = [sc, t1], [oc, t2]
                    else: a, b = [sc, ' ', t1], [oc, ' ', t2]
                    la, lo = (-v1 if sc in 'sS' else v1) * RAD, (-v2 if oc in 'wW' else v2) * RAD
                    if oc in 'wW': lo = lo + PIp.scale(2)
                    t = [a, sep, b] if order == 'lat lon' else [b, sep, a]
                    if an: t += [', ', at]
                    loc_case(rep, P, f, 'typed location', '%s: latitude %s, longitude %s, letters %s %s, separator "%s", altitude %s' % (order, kn, kl, sc + oc, place, sep, an), t, 0,
                             {'lat': la, 'lon': lo, 'alt': av, 'planet': 3, 'format': 2, 'code': 'Rov', 'prec1': 0, 'prec2': 0}, [('parallax', [la, av, EA, EB])])
    loc_case(rep, P, f, 'typed location', 'without a place for the result', ['N', lat_d, '.5, W', lon_d, '.25'], 0, {}, None, None, True)
    G = 'texts that are no location'
    for t in ('', ' ', 'hello', '44.01', '44.01, 69.9', 'N44.01', 'N44.01, ', 'N44.01 N69.9', 'W69.9, E44.01', 'N44.01, 100m', '100m, N44.01, W69.9', '44 01 13.2', 'N 44 61.3, W 69.9', 'N 44 10 61.3, W 69.9', 'n', 'N91.5, W69.9', 'S90.01, W69.9', 'N44.01, E361.5', 'N44, W361', 'alt', 'N,W', 'N44.01, W'):
        loc_case(rep, P, f, G, '"%s"' % t, t, -1, {})
def xxx(rep, P):
    f = core.need(P, 'get_xxx_location_info')
    lat_d = [d_('B0', 1, 8), d_('B1')]; lon_d = [d_('L0', 1, 2)] + digs(2, 'L')
    lats, lons = angle_texts('b', lat_d, num(lat_d)), angle_texts('l', lon_d, num(lon_d))
    h = digs(4, 'h')
    for i, (kn, t1, v1) in enumerate(lats):
        for sc, oc in ('NE', 'SE', 'NW', 'SW'):
            kl, t2, v2 = lons[(i * 3 + 1) % len(lons)]
            la, lo = (-v1 if sc == 'S' else v1) * RAD, v2 * RAD
            if oc == 'W': lo = PIp.scale(2) - lo
            for at, av in (([h, 'm'], num(h)), ([h, '.', digs(1, 'g'), 'm'], dec(h, digs(1, 'g')))):
                loc_case(rep, P, f, 'COM Long. ... Lat. ... Alt.', 'latitude %s, longitude %s, %s%s, altitude %s' % (kn, kl, sc, oc, 'integer' if len(flat(at)) == 5 else 'decimal'), ['COM Long. ', t2, ' ', oc, ', Lat. ', t1, ' ', sc, ', Alt. ', at, ', Google Earth'], 0,
                     {'lat': la, 'lon': lo, 'alt': av, 'planet': 3, 'format': 2, 'code': 'XXX', 'prec1': 0, 'prec2': 0}, [('parallax', [la, av, EA, EB])])
    for key, t, w in (('other comment', 'COM Lat. 12.3', -1), ('empty', '', -1), ('short', 'COM Long', -1), ('no latitude', 'COM Long. 12.3 E, Alt. 100m', -2), ('no altitude', 'COM Long. 12.3 E, Lat. 44.5 N', -2), ('no longitude', 'COM Long. Lat. 44.5 N, Alt. 100m', -2), ('longitude only', 'COM Long. 12.3 E', -2), ('swapped letters', 'COM Long. 12.3 N, Lat. 44.5 E, Alt. 100m', -2), ('no letters', 'COM Long. 12.3, Lat. 44.5, Alt. 100m', -2)):
        loc_case(rep, P, f, 'malformed comment line', key, t, w, {})
def radec(rep, P):
    f, g = core.need(P, 'get_ra_from_string'), core.need(P, 'get_dec_from_string')
    def case(G, key, fn, t, v, used, tail=''):
        def mk(r):
            r.n = Ptr(r.I.new_obj(r.st, 4, 'arg', 'bytes read').id, ZERO); return [sym(r.I, r.st, flat([t, tail])), r.n]
        value(rep, G, key, P, fn, mk, v, post=lambda r: [('characters used', r.get1(r.n, I32), used)])
    hh, dd3, dd = [d_('h0', 0, 1), d_('h1')], [d_('h0', 0, 2)] + digs(2, 'h'), [d_('h0', 0, 7), d_('h1')]
    dd3b = dd3
    for tail in ('', '+', ' x'):
        k = 0 if tail != ' x' else 1
        for kn, t, v in angle_texts('b', dd3, num(dd3)):
            if 'minutes' in kn or 'seconds' in kn or kn == 'integer': continue
            case('typed right ascension', 'degrees, %s%s' % (kn, ', then "%s"' % tail if tail else ''), f, t, v * RAD, len(flat(t)) + k, tail)
        for kn, t, v in angle_texts('b', hh, num(hh)):
            if 'seconds' in kn: case('typed right ascension', 'hours, %s%s' % (kn, ', then "%s"' % tail if tail else ''), f, t, v.scale(15) * RAD, len(flat(t)) + k, tail)
        for sg in '+-':
            for kn, t, v in angle_texts('b', dd, num(dd)):
                case('typed declination', '%s%s%s' % (sg, kn, ', then "%s"' % tail if tail else ''), g, [sg, t], (v if sg == '+' else -v) * RAD, len(flat(t)) + 1 + k, tail)
    for key, t in (('empty', ''), ('letters', 'abc'), ('beyond 360 degrees', '361.5'), ('25 hours', '25 00 00.0'), ('61 minutes', '12 61.5'), ('61 seconds', '12 30 60.5'), ('a sign', '-12.5')):
        case('no right ascension', key, f, t, None, 0)
    for key, t in (('empty', ''), ('no sign', '12.5'), ('letters', '+abc'), ('beyond the pole', '+90.5'), ('beyond the south pole', '-123.4'), ('just beyond the pole', '+90 00 00.1'), ('61 minutes', '+12 61.5'), ('61 seconds', '-12 30 60.5')):
        case('no declination', key, g, t, None, 0)
def feeder(lines):
    """fgets on a file of given lines"""
    it = {'i': 0}
    def fg(I, st, a, ins, m):
        n = I.as_poly(a[1], 32).c
        if it['i'] >= len(lines): return st, NULL
        t = flat(lines[it['i']])[:int(n) - 1]; it['i'] += 1
        for k, c in enumerate(t + [ZERO]): I.store(st, Ptr(a[0].obj, a[0].off + K(k)), c, llir.Ty('int', 8), ins, m)
        return st, a[0]
    return fg, it
def regions(rep, P):
    f = core.need(P, 'extract_region_data_for_lat_lon'); G = 'region boxes'
    S = Fr(99, 100)          # the limits below are a degree from the edges of the boxes: stretch them to a hundredth
    x = lambda lo, hi: Poly.var(atom(('in', 'lon', lo, hi), lo - S, hi + S, False, 'lon')); y = lambda lo, hi: Poly.var(atom(('in', 'lat', lo, hi), max(-90, lo - S), min(90, hi + S), False, 'lat'))
    b = lambda w, s, e, n, t: ['%9.4f %9.4f %9.4f %9.4f ' % (w, s, e, n), t, '\r\n']
    nm = [up('n%d' % i) for i in range(3)] + [K(32)] + [up('n%d' % i) for i in range(3, 5)]
    def case(key, lines, lat, lon, want):
        def pre(r): r.I.hooks['fgets'] = feeder(lines)[0]
        def mk(r):
            r.b = Ptr(r.I.new_obj(r.st, 90, 'arg', 'region').id, ZERO); return [NULL, r.b, lat, lon]
        def post(r):
            got = chars(r.I, r.st, r.b)
            return [('length', K(len(got)), len(want))] + [('character %d' % i, g, w) for i, (g, w) in enumerate(zip(got, want))]
        value(rep, G, key, P, f, mk, K(0 if want else -2), pre=pre, post=post)
    other = b(-170, -80, -169, -79, 'elsewhere'); hd = ['# comment line of the file, longer than forty characters', '\n']
    for key, w, e, ins, outs in (('east', 10, 30, ((11, 29), (371, 389), (-349, -331)), ((31, 179), (-169, 9), (-179, -171), (191, 369))), ('west', -30, -10, ((-29, -11), (331, 349)), ((-9, 149), (151, 329), (-179, -31))),
                                 ('across the meridian', -10, 10, ((-9, 9), (351, 369)), ((11, 169), (191, 349))), ('across 180', 170, 190, ((171, 189), (-189, -171)), ((-169, -11), (-9, 169), (191, 349))), ('given past 360', 350, 370, ((-9, 9), (351, 369)), ((11, 169), (191, 349)))):
        for lo, hi in ins:
            case('%s, longitude %d to %d inside' % (key, lo, hi), [hd, other, b(w, -20, e, 40, nm), b(w, -20, e, 40, 'second')], y(-19, 39), x(lo, hi), nm)
            case('%s, longitude %d to %d inside, too far north' % (key, lo, hi), [b(w, -20, e, 40, nm)], y(41, 90), x(lo, hi), [])
            case('%s, longitude %d to %d inside, too far south' % (key, lo, hi), [b(w, -20, e, 40, nm)], y(-90, -21), x(lo, hi), [])
        for lo, hi in outs: case('%s, longitude %d to %d outside' % (key, lo, hi), [b(w, -20, e, 40, nm)], y(-19, 39), x(lo, hi), [])
    case('empty file', [], y(-19, 39), x(0, 10), []); case('comments only', [hd, hd], y(-19, 39), x(0, 10), [])
