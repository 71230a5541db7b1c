"""P12: times and angles of 80-column observation records are read as the documented formats say."""
import core, ident, fmt
from strs import *
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR on 80-character records of symbolic digits'
RULE = ('one abstract call per documented format and number of decimals (all digits unknown): the value must be the linear form of the digits the format prescribes, '
        'and format code and precision those of the table')
ASSUMPTIONS = ['values as exact real numbers', 'the calendar function dmy_to_day is an unknown function of (day, month, year, calendar); it is decided by P01']
from p11 import digs, six
from poly import PI_A
PIp = Poly.var(PI_A)
def line(date='', ra='', dec='', code='500', c13=' ', note='C', n=80):
    d = flat(date); r = flat(ra); e = flat(dec)
    d += [K(32)] * (17 - len(d)); r += [K(32)] * (12 - len(r)); e += [K(32)] * (12 - len(e))
    l = flat('     K13A00A') + flat(c13) + flat(' ' + note) + d + r + e + flat(' ' * 21) + flat(code)
    return (l + [K(32)] * n)[:n]
def jdfun(seen):
    def h(I, st, a, ins, m):
        v = [I.resolve(I.as_poly(x, 32 if i < 2 else 64), st) for i, x in enumerate(a[:3])] + [I.as_poly(a[3], 32)]
        seen.append(v)
        return st, Poly.var(atom(('day0', v[1], v[2]), 1000000, 5000000, True, 'day0(%r,%r)' % (v[1], v[2])))
    return h
def run(rep):
    P = core.program()
    f = core.need(P, 'extract_date_from_mpc_report')
    U = llir.Ty('int', 32)
    def case(G, key, ln, want, code, ym=None, note=None, nullfmt=False):
        site = where(f)
        seen = []
        def pre(r): seen.clear(); r.I.hooks['dmy_to_day'] = jdfun(seen)
        def mk(r):
            o = r.I.new_obj(r.st, 4, 'arg', 'format'); r.fmt = Ptr(o.id, ZERO)
            return [sym(r.I, r.st, ln), NULL if nullfmt else r.fmt]
        def post(r):
            out = []
            if code is not None and not nullfmt: out.append(('format code', r.get1(r.fmt, U), code))
            if ym is not None and want is not None:
                out.append(('calendar lookups', K(len(seen)), 1))
                if seen:
                    for t, g, w in (('day', seen[0][0], 0), ('month', seen[0][1], ym[1]), ('year', seen[0][2], ym[0]), ('calendar', seen[0][3], 8 if False else JG)): out.append((t, g, w))
            return out
        w = want
        if ym is not None: w = want + Poly.var(atom(('day0', fmt.pin(ym[1] if isinstance(ym[1], Poly) else K(ym[1])), fmt.pin(ym[0])), 1000000, 5000000, True)) - K(Fr(1, 2))
        value(rep, G, key, P, f, mk, w, pre=pre, post=post)
    import re, os
    h = open(os.path.join(core.REPO, 'date.h'), encoding='latin-1').read()
    q = re.search(r'#define\s+CALENDAR_JULIAN_GREGORIAN\s+(\d+)', h); JG = int(q.group(1)) if q else 7
    yy = digs(4, 'y'); yr = num(yy)
    months = [('01-09', ['0', d_('m', 1)], rngc('m', 1, 9)), ('10-12', ['1', d_('m', 0, 2)], rngc('m', 0, 2) + K(10))]
    days = [('01-09', ['0', d_('d', 1)], rngc('d', 1, 9)), ('10-39', [d_('d0', 1, 3), d_('d1')], num([d_('d0', 1, 3), d_('d1')]))]
    def frac(n, tag='f'):
        return num(digs(n, tag)).scale(Fr(1, 10 ** n)) if n else ZERO
    G = 'YYYY MM DD.dddddd'
    for mk_, mt, mv_ in months:
        for dk, dt, dv in days:
            for n in range(7):
                case(G, 'month %s, day %s, %d decimals' % (mk_, dk, n), line([yy, ' ', mt, ' ', dt, '.', digs(n, 'f')]), dv + frac(n), n, (yr, mv_))
    for n in (0, 3, 5, 6):
        for mt, mv_ in (([' ', d_('m', 1)], rngc('m', 1, 9)), (['0', d_('m', 1)], rngc('m', 1, 9)), (['1', d_('m', 0, 2)], rngc('m', 0, 2) + K(10))):
            for dt, dv in (([' ', d_('d', 1)], rngc('d', 1, 9)), (['0', d_('d', 1)], rngc('d', 1, 9)), ([d_('d0', 1, 3), d_('d1')], num([d_('d0', 1, 3), d_('d1')]))):
                case(G, 'blank for a leading zero: month "%s", day "%s", %d decimals' % (show(flat(mt)), show(flat(dt)), n), line([yy, ' ', mt, ' ', dt, '.', digs(n, 'f')]), dv + frac(n), n, (yr, mv_))
    cent = [('H', 17), ('I', 18), ('J', 19), ('K', 20)]
    y2 = digs(2, 'y')
    G = 'CYYMMDD.ddddddddd'
    for c, cy in cent:
        for mk_, mt, mv_ in months:
            for n in range(2, 10):
                dk, dt, dv = days[n % 2]
                case(G, '%s, month %s, day %s, %d decimals' % (c, mk_, dk, n), line([c, y2, mt, dt, '.', digs(n, 'f')]), dv + frac(n), 30 + n, (num(y2) + K(100 * cy), mv_))
    G = 'CYYMMDD:HHMMSSsss'
    hh, mi, ss = digs(2, 'h'), six('i'), six('s')
    for c, cy in cent:
        for mk_, mt, mv_ in months:
            for dk, dt, dv in days:
                for n in range(0, 4):
                    case(G, '%s, month %s, day %s, %d decimals' % (c, mk_, dk, n), line([c, y2, mt, dt, ':', hh, mi, ss, digs(n, 'f')]), dv + num(hh).scale(Fr(1, 24)) + num(mi).scale(Fr(1, 1440)) + (num(ss) + frac(n)).scale(Fr(1, 86400)), 20 + n, (num(y2) + K(100 * cy), mv_))
                case(G, '%s, month %s, day %s, hours and minutes' % (c, mk_, dk), line([c, y2, mt, dt, ':', hh, mi]), dv + num(hh).scale(Fr(1, 24)) + num(mi).scale(Fr(1, 1440)), 50, (num(y2) + K(100 * cy), mv_))
    G = 'Julian day'
    for n in range(2, 10):
        j = [d_('j0', 1)] + digs(6, 'j')
        case(G, 'JD, %d decimals' % n, line([j, '.', digs(n, 'f')]), num(j) + frac(n), 10 + n)
        case(G, 'MJD, %d decimals' % n, line(['M', digs(6, 'j'), '.', digs(n, 'f')]), num(digs(6, 'j')) + frac(n) + K(Fr('2400000.5')), 40 + n)
    std = ['2013 ', '0', d_('m', 1), ' ', '1', d_('d1'), '.', digs(5, 'f')]
    wv = K(10) + num([d_('d1')]) + frac(5); YM = (K(2013), rngc('m', 1, 9))
    G = 'record layout'
    for n in (80, 81, 82): case(G, '%d characters' % n, line(std, n=n), wv, 5, YM)
    for n in (78, 79, 83, 90, 160): case(G, '%d characters are no record' % n, line(std, n=n), ZERO, None)
    for c in ' *-': case(G, 'column 13 "%s"' % c, line(std, c13=c), wv, 5, YM)
    for nm, a, b in (('letter', 'A', 'Z'), ('digit', '0', '9'), ('small letter', 'a', 'z')): case(G, 'column 13 a %s: no record' % nm, line(std, c13=[ch('x', a, b)]), ZERO, None)
    case(G, 'without a request for the format', line(std), wv, None, YM, nullfmt=True)
    case(G, 'observatory code of other characters', line(std, code=[ch('x', '!', 'z'), ch('y', '!', 'z'), ch('z', '!', 'z')]), wv, 5, YM)
    for i in range(3):
        cd = flat('500'); cd[i] = K(32); case(G, 'observatory code with a blank (%d): no record' % i, line(std, code=cd), ZERO, None)
        cd = flat('500'); cd[i] = ch('x', '{', '~'); case(G, 'observatory code beyond z (%d): no record' % i, line(std, code=cd), ZERO, None)
    G = 'radar times are whole seconds'
    for note in 'Rr':
        for txt in ('2013 02 13.141593', '2013 02 13.999999', '2013 02 13.000001', '2013 12 31.500006', '2013 02 28.000005', '2013 02 28.000006', '2013 02 13.99999 '):
            def pre(r): r.I.hooks['dmy_to_day'] = lambda I, st, a, ins, m: (st, K(2456000))
            fr = Fr(txt[8:].strip()); day = K(2456000) - K(Fr(1, 2)) + K(Fr(int((fr + Fr(1, 2)) * 86400 + Fr(1, 2)), 86400)) - K(Fr(1, 2))
            value(rep, G, '%s %s' % (note, txt), P, f, lambda r: [sym(r.I, r.st, line(txt, note=note)), NULL], day, pre=pre, tol=1e-9)
            value(rep, G, 'optical %s' % txt, P, f, lambda r: [sym(r.I, r.st, line(txt)), NULL], K(2456000) - K(Fr(1, 2)) + K(fr), pre=pre, tol=1e-12) if note == 'R' else None
    v = core.need(P, 'is_valid_mpc_code')
    for key, t, w in (('printable', [ch('a', '!', 'z'), ch('b', '!', 'z'), ch('c', '!', 'z')], 1), ('short', 'ab', 0), ('empty', '', 0), ('longer', [ch('a', '!', 'z'), 'bc def'], 1), ('high character', ['a', rngc('x', -128, -1), 'b'], 0)):
        value(rep, 'observatory codes', key, P, v, lambda r: [sym(r.I, r.st, flat(t))], w)
    angles(rep, P)
    rep.minimum = 200

def angles(rep, P):
    f = core.need(P, 'get_ra_dec_from_mpc_report')
    I32 = llir.Ty('int', 32)
    okra = flat('10 20 30.456'); okdec = flat('+10 20 30.45')
    def case(G, key, ra, dec, val, code, prec, which, ret=0, null=False):
        """val: hours (RA) or degrees (dec); prec: arcseconds"""
        def mk(r):
            r.o = [r.I.new_obj(r.st, z, 'arg', n) for z, n in ((4, 'ra_format'), (8, 'ra'), (8, 'ra_precision'), (4, 'dec_format'), (8, 'dec'), (8, 'dec_precision'))]
            q = [Ptr(x.id, ZERO) for x in r.o]
            r.q = q
            return [sym(r.I, r.st, line('', ra, dec))] + [NULL if null and i in (0, 2, 3, 5) else p for i, p in enumerate(q)]
        def post(r):
            k = 0 if which == 'ra' else 3; out = []
            if val is not None: out.append(('angle', r.get1(r.q[k + 1], D), val * PIp.scale(Fr(1, 12 if which == 'ra' else 180))))
            if not null:
                out.append(('format', r.get1(r.q[k], I32), code))
                if prec is not None: out.append(('precision', r.get1(r.q[k + 2], D), K(prec)))
            return out
        value(rep, G, key, P, f, mk, ret, post=post)
    hh = digs(2, 'h'); dd = digs(3, 'h'); mm = six('m'); ss = six('s')
    def both(key, mkt, hours, code, pr, only=None, nmax=12):
        for sg in ('', '+', '-') if only != 'ra' else ('',):
            which = 'dec' if sg else 'ra'
            if only and which != only: continue
            t = flat([sg, mkt])
            if len(t) > 12 : continue
            case('right ascension' if not sg else 'declination', key + (', ' + sg if sg else ''), okra if sg else t, t if sg else okdec, -hours if sg == '-' else hours, code, pr * (15 if not sg else 1), which)
    for n in range(0, 4):
        fr = digs(n, 'f'); v = num(hh) + num(mm).scale(Fr(1, 60)) + (num(ss) + (num(fr).scale(Fr(1, 10 ** n)) if n else ZERO)).scale(Fr(1, 3600))
        both('zz mm ss, %d decimals' % n, [hh, ' ', mm, ' ', ss] + (['.', fr] if n else []), v, n, Fr(1, 10 ** n))
    for n in range(0, 7):
        fr = digs(n, 'f'); v = num(hh) + (num(mm) + (num(fr).scale(Fr(1, 10 ** n)) if n else ZERO)).scale(Fr(1, 60))
        both('zz mm, %d decimals' % n, [hh, ' ', mm] + (['.', fr] if n else []), v, -1 - n, Fr(60, 10 ** n))
    for n in range(0, 10):
        fr = digs(n, 'f'); v = num(hh) + (num(fr).scale(Fr(1, 10 ** n)) if n else ZERO)
        both('zz., %d decimals' % n, [hh, '.', fr], v, 100 + n, Fr(3600, 10 ** n))
    for n in range(0, 9):
        fr = digs(n, 'f'); v = (num(dd) + (num(fr).scale(Fr(1, 10 ** n)) if n else ZERO)).scale(Fr(1, 15))
        both('ddd., %d decimals' % n, [dd, '.', fr], v, 200 + n, Fr(240, 10 ** n), 'ra')
    for n in range(1, 7):
        fr = digs(n, 'f'); v = num(hh) + num(mm).scale(Fr(1, 60)) + (num(ss) + num(fr).scale(Fr(1, 10 ** n))).scale(Fr(1, 3600))
        both('run together, %d decimals' % n, [hh, mm, ss, fr], v, 306 + n, Fr(1, 10 ** n))
    for n in range(0, 3):
        fr = digs(n, 'f'); v = (num(dd) + num(mm).scale(Fr(1, 60)) + (num(ss) + (num(fr).scale(Fr(1, 10 ** n)) if n else ZERO)).scale(Fr(1, 3600))).scale(Fr(1, 15))
        both('ddd mm ss, %d decimals' % n, [dd, ' ', mm, ' ', ss] + (['.', fr] if n else []), v, 400 + n, Fr(1, 15 * 10 ** n), 'ra')
    G = 'unreadable angles'
    for key, t in (('blank', ''), ('letters', 'abcdefgh'), ('one digit', '1 20 30'), ('colons', '10:20:30.4')):
        case(G, 'RA %s' % key, t, okdec, None, -99, None, 'ra', -1); case(G, 'declination %s' % key, okra, '+' + t, None, -99, None, 'dec', -2); case(G, 'both %s' % key, t, '-' + t, None, -99, None, 'dec', -3)
    case(G, 'precisions and formats not asked for', okra, okdec, K(Fr('10') + Fr(20, 60) + Fr('30.456') / 3600), 3, None, 'ra', 0, True)
