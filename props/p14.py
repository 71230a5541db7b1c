"""P14: typed dates and times denote the instant their text says."""
import core, ident, fmt
from strs import *
from p11 import digs, six
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR on date texts of symbolic digits'
RULE = ('one abstract call per documented text form (all digits unknown, starting instant unknown): the result must be the linear form of the digits, with day, month, year and '
        'calendar handed to the calendar functions as the form prescribes')
ASSUMPTIONS = ['values as exact real numbers', 'dmy_to_day and day_to_dmy are unknown functions (linear in the day of the month); P01 and P02 decide them', 'find_nearest_lunar_phase_time is an unknown function here; P08 decides it', 'system clock: time() is any number']
I32 = llir.Ty('int', 32); LD = llir.Ty('x86_fp80'); I64 = llir.Ty('int', 64)
J2000 = K(2451545)
Y0 = Poly.var(atom(('in', 'year0'), -4000, 9000, True)); M0 = Poly.var(atom(('in', 'month0'), 1, 12, True)); D0 = Poly.var(atom(('in', 'day0'), 1, 31, True))
N0 = Poly.var(atom(('in', 'N0'), -100000, 100000, True))
H0, I0, S0 = (Poly.var(atom(('in', n), 0, h, True)) for n, h in (('hour0', 23), ('minute0', 59), ('second0', 59)))
T0 = N0 - K(Fr(1, 2)) + H0.scale(Fr(1, 24)) + I0.scale(Fr(1, 1440)) + (S0 + K(Fr(1, 3))).scale(Fr(1, 86400))
YF, MD, TD = 0x800, 0x1000, 0x10000
def jd(y, m, cal=0):
    y, m = [fmt.pin(x if isinstance(x, Poly) else K(x)) for x in (y, m)]
    return Poly.var(atom(('jd', y, m, cal), -10**9, 10**9, True, 'jd(%r,%r,%s)' % (y, m, cal)))
def tod(h=0, m=0, s=0):
    h, m, s = [x if isinstance(x, Poly) else K(x) for x in (h, m, s)]
    return h.scale(Fr(1, 24)) + m.scale(Fr(1, 1440)) + s.scale(Fr(1, 86400))
def at(y, m, d, t=ZERO, cal=0):
    return jd(y, m, cal) + (d if isinstance(d, Poly) else K(d)) - J2000 - K(Fr(1, 2)) + t
MON = ('jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec')
def fields():
    a = [('1-9', [d_('a', 1)], rngc('a', 1, 9)), ('01-09', ['0', d_('a', 1)], rngc('a', 1, 9)), ('10-12', ['1', d_('a', 0, 2)], rngc('a', 0, 2) + K(10))]
    b = [('13-19', ['1', d_('b', 3)], rngc('b', 3, 9) + K(10)), ('20-29', ['2', d_('b')], rngc('b', 0, 9) + K(20)), ('30-31', ['3', d_('b', 0, 1)], rngc('b', 0, 1) + K(30))]
    y4 = [d_('y0', 1)] + digs(3, 'y')
    y = [('yyyy', y4, num(y4)), ('yyy', y4[:3], num(y4[:3])), ('33-99', [d_('y0', 4), d_('y1')], num([d_('y0', 4), d_('y1')])), ('-yyyy', ['-', y4], -num(y4)), ('yyyyy', [d_('y0', 1)] + digs(4, 'y'), num([d_('y0', 1)] + digs(4, 'y')))]
    return a, b, y
def clk(z=None):
    z = z or (10**8, 4 * 10**9); return Poly.var(atom(('in', 'clock', z), *z, True))
def run(rep):
    P = core.program()
    cnt = [0]
    f = core.need(P, 'get_time_from_stringl'); fd = core.need(P, 'get_time_from_string')
    site = where(f)
    def case(G, key, txt, want, fl=0, isut=None, nullut=False, dbl=False, cal=None, days=True, t0=None, clock=None, plain=False):
        fl0, cal0 = fl, cal
        seen = []
        cal = fl & 15
        t0 = T0 if t0 is None else t0
        def pre(r):
            seen.clear()
            def d2(I, st, a, ins, m):
                v = [I.resolve(I.as_poly(a[0], 64), st), I.as_poly(a[4], 32)]
                seen.append(v)
                for p, x, t in ((a[1], D0, I32), (a[2], M0, I32), (a[3], Y0, I64)): I.store(st, p, fmt.pin(x), t, ins, m)
                return st, None
            def j(I, st, a, ins, m):
                v = [I.resolve(I.as_poly(x, b), st) for x, b in zip(a[:4], (32, 32, 64, 32))]
                return st, jd(v[2], v[1], int(v[3].c)) + v[0]
            def ph(I, st, a, ins, m):
                k = [I.resolve(I.as_poly(x, b), st) for x, b in zip(a[:2], (32, 80))]
                return st, k[1] + Poly.var(atom(('phase', k[0]), -20, 20, False, 'phase'))
            r.I.hooks['day_to_dmy'] = d2; r.I.hooks['dmy_to_day'] = j; r.I.hooks['find_nearest_lunar_phase_time'] = ph
            r.I.hooks['time'] = lambda I, st, a, ins, m: (st, clk(clock))
        def mk(r):
            r.u = Ptr(r.I.new_obj(r.st, 4, 'arg', 'is_ut').id, ZERO)
            return [(t0 + J2000) if dbl else t0, sym(r.I, r.st, flat(txt)), K(fl), NULL if nullut else r.u]
        def post(r):
            out = []
            if isut is not None and not nullut: out.append(('is_ut', r.get1(r.u, I32), isut))
            for v in seen[:1]: out += [('day of the starting instant', v[0], (N0 if t0 is T0 else r.I.floor(fmt.pin(t0) + K(Fr(1, 2)), r.st)) + J2000), ('its calendar', v[1], cal)]
            return out
        value(rep, G, key, P, fd if dbl else f, mk, want + J2000 if dbl and want is not None else want, pre=pre, post=post)
        if want is None or plain or G in ('offsets', 'texts that are no date'): return
        cnt[0] += 1          # the same text with an offset after it
        if cnt[0] % 3 == 0 or G == 'day numbers' or G == 'one field':
            k, (sg, sc), u = [d_('k0', 1), d_('k1')], (('+', 1), ('-', -1))[cnt[0] % 2], (('h', Fr(1, 24)), ('d', Fr(1)), ('m', Fr(1, 1440)))[cnt[0] % 3 - 1]
            case(G, key + ', then %s%s' % (sg, u[0]), [txt if isinstance(txt, (list, str)) else [txt], ' ', sg, k, u[0]], want + num(k).scale(u[1] * sc), fl0, isut, nullut, dbl, cal0, days, t0, clock, True)
    G = 'day numbers'
    j = [d_('j0', 1)] + digs(6, 'j'); fr = digs(6, 'f'); F = num(fr).scale(Fr(1, 10 ** 6))
    for p in ('J', 'JD', 'jd', 'JD ', 'j '):
        case(G, '%s, fraction' % p, [p, j, '.', fr], num(j) + F - J2000, isut=1); case(G, '%s, integer' % p, [p, j], num(j) - J2000, isut=1)
    for p in ('MJD', 'mjd '):
        case(G, '%s, fraction' % p, [p, digs(5, 'j'), '.', fr], num(digs(5, 'j')) + F + K(Fr('2400000.5')) - J2000, isut=1); case(G, '%s, integer' % p, [p, digs(5, 'j')], num(digs(5, 'j')) + K(Fr('2400000.5')) - J2000, isut=1)
    case(G, 'seven digits', [j], num(j) - J2000, isut=1); case(G, 'seven digits and a fraction', [j, '.', fr], num(j) + F - J2000, isut=1)
    y4 = [d_('y0', 1)] + digs(3, 'y'); Y = num(y4)
    for t, v in (([y4, '.', fr], Y + F), ([y4], Y)):
        case(G, 'y then a year', ['y', t], (v - K(2000)).scale(Fr('365.25')) - K(Fr(1, 2)), isut=0)
    case(G, 'decimal year', [y4, '.', [d_('f0', 1)] + fr], (Y + num([d_('f0', 1)] + fr).scale(Fr(1, 10 ** 7)) - K(2000)).scale(Fr('365.25')) - K(Fr(1, 2)), isut=0)
    case(G, 'GPS week and day', ['GPS ', digs(5, 'g')], num(digs(4, 'g')).scale(7) + num(digs(5, 'g')[4:]) + K(Fr('2444244.5')) - J2000)
    case(G, 'Unix seconds', ['unix ', digs(10, 'u'), '.', digs(2, 'v')], (num(digs(10, 'u')) + num(digs(2, 'v')).scale(Fr(1, 100))).scale(Fr(1, 86400)) + K(Fr('2440587.5')) - J2000)
    case(G, 'JD, no place for is_ut', ['JD', j], num(j) - J2000, nullut=True); case(G, 'JD, double precision', ['JD', j, '.', fr], num(j) + F - J2000, isut=1, dbl=True)
    A, B, YS = fields()
    G = 'three fields'
    D2 = ('13-31', B)
    import itertools
    seps = (' ', '-', '/')
    n = 0
    flags = (0, MD, YF, YF | MD)
    perms = list(itertools.permutations('dmy'))
    # a named month
    for mi, nm in enumerate(MON):
        for pi, pm in enumerate(perms):
            n += 1
            full = (nm, nm.capitalize(), nm.upper(), nm.capitalize())[n % 4]
            if n % 5 == 0: full = {'jan': 'January', 'feb': 'Febr', 'mar': 'March', 'apr': 'April', 'may': 'May', 'jun': 'June', 'jul': 'July', 'aug': 'August', 'sep': 'Sept', 'oct': 'October', 'nov': 'November', 'dec': 'December'}[nm]
            dk, dt, dv = (A + B)[n % 6]; yk, yt, yv = YS[0 if n % 3 else 1 + n % 4 if pm[0] == 'y' or (n % 4) != 2 else 0]
            if yk == '-yyyy' and seps[n % 3] == '-': yk, yt, yv = YS[0]
            s = seps[n % 3]; fl = flags[n % 4]
            p = {'d': dt, 'm': full, 'y': yt}
            case(G, '%s, order %s, day %s, year %s, separator "%s", flags %x' % (nm, ''.join(pm), dk, yk, s, fl), [p[pm[0]], s, p[pm[1]], s, p[pm[2]]], at(yv, mi + 1, dv), fl, 0)
    # months as numbers, day > 12: order is clear
    for pm in perms:
        for ak, at_, av in A:
            for bk, bt, bv in B[:2] if ak != '10-12' else B:
                n += 1; yk, yt, yv = YS[0] if n % 2 else YS[1 + n % 2]; s = seps[n % 3]; fl = flags[n % 4]
                p = {'d': bt, 'm': at_, 'y': yt}
                case(G, 'month %s, day %s, year %s, order %s, separator "%s", flags %x' % (ak, bk, yk, ''.join(pm), s, fl), [p[pm[0]], s, p[pm[1]], s, p[pm[2]]], at(yv, av, bv), fl, 0)
    # decimal days
    for pm in perms:
        for s in ' /':
            p = {'d': ['1', d_('b', 3), '.', fr], 'm': A[1][1], 'y': y4}
            case(G, 'decimal day, order %s, separator "%s"' % (''.join(pm), s), [p[pm[0]], s, p[pm[1]], s, p[pm[2]]], at(Y, A[1][2], rngc('b', 3, 9) + K(10) + F), flags[n % 4], 0); n += 1
            p = {'d': [d_('b', 1), '.', fr], 'm': 'oct', 'y': y4}
            case(G, 'decimal day below ten, named month, order %s, separator "%s"' % (''.join(pm), s), [p[pm[0]], s, p[pm[1]], s, p[pm[2]]], at(Y, 10, rngc('b', 1, 9) + F), flags[n % 4], 0)
    # ambiguous: the flags decide
    c = [d_('c', 1)]; cv = rngc('c', 1, 9); a, av = [d_('a', 1)], rngc('a', 1, 9); y1, yv1 = ['1', d_('y1', 0, 2)], rngc('y1', 0, 2) + K(10)
    for s in seps:
        for fl in flags:
            md = bool(fl & MD)
            case(G, 'ambiguous, year first, separator "%s", flags %x' % (s, fl), [y4, s, a, s, c], at(Y, av if md else cv, cv if md else av), fl, 0)
            case(G, 'ambiguous, year last, separator "%s", flags %x' % (s, fl), [a, s, c, s, y4], at(Y, av if md else cv, cv if md else av), fl, 0)
            if fl & YF: case(G, 'small numbers only, separator "%s", flags %x' % (s, fl), [y1, s, a, s, c], at(yv1, av if md else cv, cv if md else av), fl, 0)
            else: case(G, 'small numbers only, separator "%s", flags %x' % (s, fl), [a, s, c, s, y1], at(yv1, av if md else cv, cv if md else av), fl, 0)
            if fl & YF: case(G, 'small numbers and a named month between, separator "%s", flags %x' % (s, fl), [y1, s, 'apr', s, c], at(yv1, 4, cv), fl, 0)
            else: case(G, 'small numbers and a named month between, separator "%s", flags %x' % (s, fl), [c, s, 'apr', s, y1], at(yv1, 4, cv), fl, 0)
    for fl in flags:
        case(G, 'European dots, flags %x' % fl, [B[0][1], '.', A[0][1], '.', y4], at(Y, A[0][2], B[0][2]), fl, 0)
        case(G, 'European dots, ambiguous, flags %x' % fl, [a, '.', c, '.', y4], at(Y, av if fl & MD else cv, cv if fl & MD else av), fl, 0)
        case(G, 'FITS, flags %x' % fl, [y4, '-', A[2][1], '-', ['0', d_('c', 1)], 'T', ['1', d_('h')], ':', six('i'), ':', six('s')], at(Y, A[2][2], cv, tod(rngc('h', 0, 9) + K(10), num(six('i')), num(six('s')))), fl, 0)
        case(G, 'FITS with a fraction, flags %x' % fl, [y4, '-', A[1][1], '-', B[1][1], 'T', ['0', d_('h')], ':', six('i'), ':', six('s'), '.', fr], at(Y, A[1][2], B[1][2], tod(rngc('h', 0, 9), num(six('i')), num(six('s')) + F)), fl, 0)
    for cal in (0, 1, 2, 3, 6, 7): case(G, 'calendar %d' % cal, [y4, ' ', 'feb', ' ', c], at(Y, 2, cv, cal=cal), YF | MD | cal, 0)
    for cal, tk in ((2, 13), (7, 13), (0, 12), (3, 12)):
        case(G, 'largest month of calendar %d' % cal, ['17 ', str(tk), ' ', y4], at(Y, tk, 17, cal=cal), cal, 0)
    G = 'BC and AD'
    for e, bc in (('BC', 1), ('bc', 1), ('B.C.', 1), ('AD', 0), ('A.D.', 0), ('ad', 0)):
        for t in (['%s ' % e, y4, ' mar ', c], [c, ' mar ', y4, ' %s' % e], ['mar ', c, ' ', y4, ' %s' % e]):
            if e in ('BC', 'B.C.', 'AD', 'A.D.', 'bc', 'ad'): case(G, '%s in "%s"' % (e, show(flat(t))), t, at(K(1) - Y if bc else Y, 3, cv), MD, 0)
        case(G, 'two-digit year %s' % e, [c, ' mar ', '3', d_('y', 4), ' %s' % e], at(K(1) - rngc('y', 4, 9) - K(30) if bc else rngc('y', 4, 9) + K(30), 3, cv), 0, 0)
    G = 'two-digit years'
    CK = (1700000000, 1800000000)
    case(G, '90 to 99', ['17/3/9', d_('y1')], at(rngc('y1', 0, 9) + K(1990), 3, 17), TD, 0, clock=CK)
    case(G, '70 to 79', ['17 mar 7', d_('y1')], at(rngc('y1', 0, 9) + K(1970), 3, 17), TD, 0, clock=CK)
    case(G, '1 to 9', ['17 mar 0', d_('y1', 1)], at(rngc('y1', 1, 9) + K(2000), 3, 17), TD, 0, clock=CK)
    case(G, '50 to 59', ['17 mar 5', d_('y1')], at(rngc('y1', 0, 9) + K(2050), 3, 17), TD, 0, clock=CK)
    case(G, 'years of four digits stay', ['17 mar ', y4], at(Y, 3, 17), TD, 0, clock=CK)
    case(G, 'without the flag', ['17 mar ', '0', d_('y1', 1)], at(rngc('y1', 1, 9), 3, 17), 0, 0)
    case(G, 'BC years stay', ['17 mar ', '5', d_('y1', 1), ' BC'], at(K(1) - rngc('y1', 1, 9) - K(50), 3, 17), TD, 0, clock=CK)
    G = 'two fields'
    for mi, nm in enumerate(MON):
        for s in seps:
            n += 1; dk, dt, dv = (A + B)[n % 6]
            case(G, '%s, day %s, separator "%s"' % (nm, dk, s), [dt, s, nm], at(Y0, mi + 1, dv), flags[n % 4], 0)
            dk, dt, dv = (A + B)[(n + 2) % 6]
            case(G, '%s first, day %s, separator "%s"' % (nm, dk, s), [nm, s, dt], at(Y0, mi + 1, dv), flags[n % 4], 0)
        case(G, '%s and a year' % nm, [nm, ' ', y4], at(Y, mi + 1, D0), 0, 0); case(G, 'a year and %s' % nm, [y4, ' ', nm], at(Y, mi + 1, D0), 0, 0)
    for s in seps:
        for fl in flags:
            case(G, 'day above twelve first, separator "%s", flags %x' % (s, fl), [B[0][1], s, a], at(Y0, av, B[0][2]), fl, 0)
            case(G, 'day above twelve last, separator "%s", flags %x' % (s, fl), [a, s, B[1][1]], at(Y0, av, B[1][2]), fl, 0)
            case(G, 'ambiguous, separator "%s", flags %x' % (s, fl), [a, s, c], at(Y0, av if fl & MD else cv, cv if fl & MD else av), fl, 0)
            case(G, 'decimal day first, separator "%s", flags %x' % (s, fl), [c, '.', fr, s, a], at(Y0, av, cv + F), fl, 0) 
        for dk, dv in ((['1'] + digs(2, 'q'), K(100)), ([d_('q9', 4), d_('q0')], None)):
            v = num(flat(dk))
            case(G, 'year and day of year "%s", separator "%s"' % (show(flat(dk)), s), [y4, s, dk], at(Y, 1, v), 0, 0)
            case(G, 'day of year "%s" and year, separator "%s"' % (show(flat(dk)), s), [dk, s, y4], at(Y, 1, v), 0, 0)
    G = 'one field'
    for mi, nm in enumerate(MON): case(G, nm, nm, at(Y0, mi + 1, D0), 0, 0)
    for t, w in (('Fe', 2), ('O', 10), ('m', 3), ('ju', 6), ('September', 9)): case(G, 'abbreviation %s' % t, t, at(Y0, w, D0), 0, 0)
    for t, v in ((A[0][1], A[0][2]), (A[1][1], A[1][2]), (B[0][1], B[0][2]), (B[2][1], B[2][2])): case(G, 'day "%s"' % show(flat(t)), [t], at(Y0, M0, v), 0, 0)
    case(G, 'decimal day', [B[0][1], '.', fr], at(Y0, M0, B[0][2] + F), 0, 0)
    case(G, 'day of year', [digs(3, 'q')], at(Y0, 1, num(digs(3, 'q'))), 0, 0); case(G, 'decimal day of year', [digs(3, 'q'), '.', fr], at(Y0, 1, num(digs(3, 'q')) + F), 0, 0)
    case(G, 'year', [y4], at(Y, 1, 1), 0, 0); case(G, 'year of five digits', [[d_('y0', 1)] + digs(4, 'y')], at(num([d_('y0', 1)] + digs(4, 'y')), 1, 1), 0, 0)
    for ak, at_, av_ in A[1:]:
        for f_, fv in (([], ZERO), (['.', fr], F)):
            case(G, 'YYYYMMDD, month %s%s' % (ak, ', fraction' if f_ else ''), [y4, at_, B[1][1], f_], at(Y, av_, B[1][2] + fv), 0, 0)
            case(G, 'YYMMDD before 2040, month %s%s' % (ak, ', fraction' if f_ else ''), [[d_('y0', 1, 3), d_('y1')], at_, B[1][1], f_], at(num([d_('y0', 1, 3), d_('y1')]) + K(2000), av_, B[1][2] + fv), 0, 0)
            case(G, 'YYMMDD of the last century, month %s%s' % (ak, ', fraction' if f_ else ''), [[d_('y0', 4), d_('y1')], at_, B[1][1], f_], at(num([d_('y0', 4), d_('y1')]) + K(1900), av_, B[1][2] + fv), 0, 0)
    DOW = ('sun', 'mon', 'tue', 'wed', 'thu', 'fri', 'sat')
    wk = Poly.var(atom(('in', 'week'), 100, 5000, True)); pw = Poly.var(atom(('in', 'week before'), -5000, -100, True))
    for c0 in range(7):
        for i, nm in enumerate(DOW):
            for kk, kw, tm in (('after 2000', wk, K(Fr(7, 24))), ('before 2000', pw, K(Fr(7, 24)))):
                N = kw.scale(7) + K(c0); cur = (c0 + 6) % 7; dlt = (i - cur + 3) % 7 - 3
                case('day of the week', '%s, starting on a %s %s' % (nm, DOW[cur], kk), (nm, nm.capitalize(), nm + 'day')[i % 3] if nm not in ('sat', 'wed', 'tue', 'thu') else nm, at(Y0, M0, D0 + K(dlt)), 0, 0, t0=N - K(Fr(1, 2)) + tm)
    G = 'time of day'
    hm = [('0-9', [d_('h')], rngc('h', 0, 9)), ('10-19', ['1', d_('h')], rngc('h', 0, 9) + K(10)), ('20-23', ['2', d_('h', 0, 3)], rngc('h', 0, 3) + K(20))]
    mi_, s_ = six('i'), six('s')
    datef = (('no date', '', (Y0, M0, D0)), ('named month', ['17 mar ', y4, ' '], (Y, 3, 17)), ('slashes', ['17/3/', y4, ' '], (Y, 3, 17)), ('dashes', [y4, '-3-17 '], (Y, 3, 17)), ('packed date', [y4, '0317 '], (Y, 3, 17)), ('month and day', ['mar 17 '], (Y0, 3, 17)), ('European dots', ['17.3.', y4, ' '], (Y, 3, 17)))
    for hk, ht, hv in hm:
        for tk, t, v in (('h:mm', [ht, ':', mi_], tod(hv, num(mi_))), ('h:mm.mm', [ht, ':', mi_, '.', digs(2, 'g')], tod(hv, num(mi_) + num(digs(2, 'g')).scale(Fr(1, 100)))), ('h:mm:ss', [ht, ':', mi_, ':', s_], tod(hv, num(mi_), num(s_))), ('h:mm:ss.sss', [ht, ':', mi_, ':', s_, '.', digs(3, 'g')], tod(hv, num(mi_), num(s_) + num(digs(3, 'g')).scale(Fr(1, 1000))))):
            for dk, dt, (y, m, d) in datef:
                case(G, '%s, hour %s, %s' % (tk, hk, dk), [dt, t], at(y, m, d, v), MD if n % 2 else 0, 0); n += 1
    for ap, off in (('am', 0), ('AM', 0), ('a.m.', 0), ('pm', 12), ('P.M.', 12)):
        for sp in ('', ' '):
            if '.' in ap and not sp: continue
            for dk, dt, (y, m, d) in datef[:3]:
                h = [d_('h', 1)]
                case(G, '%s, %s%s' % (ap, dk, '' if sp else ', no blank'), [dt, h, ':', mi_, ':', s_, sp, ap], at(y, m, d, tod(rngc('h', 1, 9) + K(off), num(mi_), num(s_))), 0, 0)
                case(G, '12 %s, %s%s' % (ap, dk, '' if sp else ', no blank'), [dt, '12:', mi_, sp, ap], at(y, m, d, tod(off, num(mi_))), 0, 0)
    case(G, 'minutes and seconds of the current hour', [':', mi_, ':', s_], at(Y0, M0, D0, tod(H0, num(mi_), num(s_))), 0, 0)
    case(G, 'minutes of the current hour', [':', mi_], at(Y0, M0, D0, tod(H0, num(mi_))), 0, 0)
    for t, (y, m, d) in ((['17 mar ', y4, ' :'], (Y, 3, 17)), ([y4, '-3-17 :'], (Y, 3, 17))): case(G, 'the current time on another day "%s"' % show(flat(t)), t, at(y, m, d, tod(H0, I0, S0 + K(Fr(1, 3)))), 0, 0)
    G = 'offsets'
    U = (('s', Fr(1, 86400)), ('m', Fr(1, 1440)), ('h', Fr(1, 24)), ('d', Fr(1)), ('w', Fr(7)), ('l', Fr('29.530588853')), ('y', Fr('365.25')), ('c', Fr(36525)))
    k1 = [d_('k0', 1), d_('k1')]; kv = num(k1)
    for u, sc in U:
        for sg, s in (('+', 1), ('-', -1)):
            for kt, kvv in ((k1, kv), ([k1, '.', digs(2, 'k2')], kv + num(digs(2, 'k2')).scale(Fr(1, 100)))):
                case(G, '%s%s%s from the starting instant' % (sg, 'n' if kt is k1 else 'n.nn', u), [sg, kt, u], T0 + kvv.scale(sc * s))
            case(G, '%sn %s after a date' % (sg, u), ['17 mar ', y4, ' ', sg, k1, u], at(Y, 3, 17) + kv.scale(sc * s), 0, 0)
            case(G, '%sn %s after a date and a time' % (sg, u), [y4, '-3-17 ', ['1', d_('h')], ':', mi_, ' ', sg, k1, ' ', u], at(Y, 3, 17, tod(rngc('h', 0, 9) + K(10), num(mi_))) + kv.scale(sc * s), 0, 0)
            case(G, '%sn %s after a Julian day' % (sg, u), ['JD ', j, '.5 ', sg, k1, u], num(j) + K(Fr(1, 2)) - J2000 + kv.scale(sc * s), 0, 1)
    for sg, s in (('+', 1), ('-', -1)): case(G, '%s days without a unit' % sg, [sg, k1, '.', digs(1, 'k2')], T0 + (kv + num(digs(1, 'k2')).scale(Fr(1, 10))).scale(s))
    case(G, 'several', ['17 mar ', y4, ' +', k1, 'h -', [d_('z', 1)], 'm +', [d_('z', 1)], 'd'], at(Y, 3, 17) + kv.scale(Fr(1, 24)) - rngc('z', 1, 9).scale(Fr(1, 1440)) + rngc('z', 1, 9), 0, 0)
    CL = clk(); now = CL.scale(Fr(1, 86400)) + K(Fr('2440587.5')) - J2000
    case(G, 'now', 'now', now); case(G, 'now and an offset', ['now -', k1, 'h'], now - kv.scale(Fr(1, 24))); case(G, 'Now +', ['Now+', k1, 'd'], now + kv)
    G = 'lunar phases'
    for i, ph in enumerate(('nm', '1q', 'fm', '3q')):
        w = Poly.var(atom(('phase', K(i)), -20, 20, False, 'phase'))
        for sp in (' ',):
            case(G, '%s after a date' % ph, ['17 mar ', y4, sp, ph], at(Y, 3, 17) + w, 0)
            case(G, '%s in capitals' % ph, ['17 mar ', y4, sp, ph.upper()], at(Y, 3, 17) + w, 0)
        for sg, s in (('+', 1), ('-', -1)): case(G, '%s after a date, %s days' % (ph, sg), ['17 mar ', y4, ' ', ph, sg, k1, 'd'], at(Y, 3, 17) + w + kv.scale(s), 0) 
    G = 'texts that are no date'
    for t, w in (('', -3), ('   ', -3), ('x' * 80, -3), ('?', -2), ('hello', -2), ('xyz', -2)):
        case(G, '"%s"' % t[:12], t, T0, 0, w)
    case(G, 'word of 79 characters', 'x' * 79, T0, 0, -2)
    case(G, '79 characters alternating digits and letters', '1' + '1x' * 39, None, 0)
    case(G, '78 characters alternating letters and digits', 'x1' * 39, None, 0)
    G = 'spaces around'
    for t in (['  17 mar ', y4], ['17 mar ', y4, '   '], ['17mar', y4], ['17Mar', ' ', y4]): case(G, '"%s"' % show(flat(t)), t, at(Y, 3, 17), 0, 0)
    split(rep, P)
    rep.minimum = 500
def split(rep, P):
    f, g = core.need(P, 'split_timel'), core.need(P, 'split_time')
    hs = Poly.var(atom(('in', 'sec'), 0, Fr(5999, 100)))
    for cal in (0, 1, 2, 6):
        for h, dbl in ((f, 0), (g, 1)):
            seen = []
            def pre(r):
                seen.clear()
                def d2(I, st, a, ins, m):
                    seen.append([I.resolve(I.as_poly(a[0], 64), st), I.as_poly(a[4], 32)])
                    for p, x, t in ((a[1], D0, I32), (a[2], M0, I32), (a[3], Y0, I64)): I.store(st, p, x, t, ins, m)
                    return st, None
                r.I.hooks['day_to_dmy'] = d2
            def mk(r):
                r.q = [Ptr(r.I.new_obj(r.st, z, 'arg', n).id, ZERO) for z, n in ((8, 'year'), (4, 'month'), (4, 'day'), (4, 'hour'), (4, 'minute'))]
                return [N0 - K(Fr(1, 2)) + tod(H0, I0, hs) + (J2000 if dbl else ZERO)] + r.q + [K(cal | 0x3000)]
            def post(r):
                return [('calendar lookups', K(len(seen)), 1), ('day number', seen[0][0], N0 + J2000), ('calendar', seen[0][1], cal)] + [(n, r.get1(p, t), w) for p, n, t, w in zip(r.q, ('year', 'month', 'day', 'hour', 'minute'), (I64, I32, I32, I32, I32), (Y0, M0, D0, H0, I0))]
            value(rep, 'splitting an instant', '%s, calendar %d' % ('double' if dbl else 'long double', cal), P, h, mk, hs, pre=pre, post=post)
