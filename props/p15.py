"""P15: an instant is written as the date and time it is, in the layout the format flags ask for."""
import core, ident, fmt
from strs import *
from p11 import digs, six
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR: full_ctimel on an instant given by unknown calendar fields, time fields and decimals'
RULE = ('one abstract call per layout: the instant is day + hour + minute + second + decimals + r with every digit unknown and r anywhere in the rounding interval of the last decimal; '
        'the text must consist of exactly those digits in the layout of the flags')
ASSUMPTIONS = ['values as exact real numbers', 'day_to_dmy and dmy_to_day are unknown functions returning the unknown calendar fields; P01 and P02 decide them',
               'printf conversions behave as in C (modelled on digit terms)']
I32 = llir.Ty('int', 32); I64 = llir.Ty('int', 64)
J2000 = K(2451545)
SEC, MIN, HR, DAY, YEAR, JD, MJD = [i << 8 for i in range(7)]
YF, MD, DIGITS, TIME, LZ, YY, NOYEAR, DOWF, DOWL, NOSP, ROUND, NOCOL, DOY = 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000, 0x80000, 0x100000, 0x200000, 0x400000, 0x800000
MON = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')
DOW = ('Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat')
wk = Poly.var(atom(('in', 'week'), 5, 5000, True)); pw = Poly.var(atom(('in', 'week before'), -5000, -5, True))
HOURS = ([' ', d_('h')], ['1', d_('h')], ['2', d_('h', 0, 3)])
YEARS = (('yyyy', digs(4, 'y'), 0), ('yyy', digs(3, 'y'), 0), ('yy', digs(2, 'y'), 0), ('y', digs(1, 'y'), 0), ('-yyy', digs(3, 'y'), 1), ('-yyyy', digs(4, 'y'), 1), ('yyyyy', digs(5, 'y'), 0), ('-y', digs(1, 'y'), 1))
DAYS = ([' ', d_('d', 1)], ['1', d_('d')], ['2', d_('d')], ['3', d_('d', 0, 1)])
def lead(t, lz): return (['0'] + t[1:]) if lz and t[0] == ' ' else t
def val(t): return num([c for c in flat(t) if c != K(32)])
def expect(fl, p, F, dow, yr, mon, day, doy, h, mi, s, blank=' '):
    """the documented layout"""
    of = fl & 0x700; lz = bool(fl & LZ); out = []
    if fl & DOWF: out += [DOW[dow], ' ']
    if not fl & TIME:
        yk, yd, neg = yr
        yd = [d_('y0', 1)] + flat(yd)[1:]
        if fl & YY: yt = (flat(yd)[-2:] if len(yd) > 1 else ['0', yd[0]])
        elif neg: yt = ['-', ['0'] * (3 - len(yd)) if lz else [], yd]; yt = yt if lz else [' ' * (3 - len(yd)), yt]
        else: yt = [('0' if lz else ' ') * (4 - len(yd)), yd]
        dt = [lead(day, lz)]; fr = ['.', F] if of == DAY and p else []
        mt = [('%02d' if lz else '%2d') % mon] if fl & DIGITS or mon > 12 else [MON[mon - 1]]
        if fl & YF and not fl & NOYEAR: out += [yt, ' ']
        if fl & DOY: out += [doy, fr]
        elif fl & MD: out += [mt, ' ', dt, fr]
        else: out += [dt, fr, ' ', mt]
        if not fl & YF and not fl & NOYEAR: out += [' ', yt]
        if of != DAY: out += [' ']
    if of != DAY:
        h = [lead(h, lz)]
        out += {SEC: [h, ':', mi, ':', s], MIN: [h, ':', mi], HR: [h]}[of]
        if p: out += ['.', F]
    if fl & DOWL: out += [' ', DOW[dow]]
    out = flat(out)
    if fl & NOSP: out = [c for c in out if c != K(32)]
    if fl & NOCOL: out = [c for c in out if c != K(58)]
    return out
def yval(yr):
    v = num([d_('y0', 1)] + flat(yr[1])[1:]); return -v if yr[2] else v
def run(rep):
    P = core.program(); f = core.need(P, 'full_ctimel'); fd = core.need(P, 'full_ctime'); site = where(f)
    def case(G, key, fl, t, want, date=None, cal=0, N=None, dbl=False):
        day, mon, y, doy = date or (K(17), 3, K(2024), K(77))
        fl = fl | cal; runs = []
        def pre(r):
            seen = []
            if not fmt.PIN: runs.append(seen)
            def d2(I, st, a, ins, m):
                seen.append([I.resolve(I.as_poly(a[0], 64), st), I.as_poly(a[4], 32)])
                for p, x, ty in ((a[1], day, I32), (a[2], K(mon), I32), (a[3], y, I64)): I.store(st, p, fmt.pin(x), ty, ins, m)
                return st, None
            def j(I, st, a, ins, m):
                seen.append([I.resolve(I.as_poly(x, b), st) for x, b in zip(a[:4], (32, 32, 64, 32))])
                return st, fmt.pin(N + J2000 - doy)
            r.I.hooks['day_to_dmy'] = d2; r.I.hooks['dmy_to_day'] = j
        what = {}
        def mk(r, out): what['r'] = r; return [out, fmt.pin(t + J2000) if dbl else fmt.pin(t), K(fl)]
        text(rep, G, key, P, fd if dbl else f, mk, want, pre=pre, size=80, site=site, more=[day, y, doy] + ([N] if N is not None else []))
        if N is not None and date:
            def one():
                seen = runs[-1] if runs else []
                if not seen: return False, 'no calendar lookup'
                w = [[N + J2000, K(cal)]] + ([[ZERO, K(1), y, K(cal)]] if fl & DOY and not fl & TIME else [])
                if len(w) != len(seen): return False, '%d calendar lookups' % len(seen)
                rs = [ident.same(a, b) for g, q in zip(seen, w) for a, b in zip(g, q)]
                ok = False if any(x[0] is False for x in rs) else None if any(x[0] is None for x in rs) else True
                return ok, 'calendar functions called with %s, required %s' % (seen, w)
            with guard(rep, G, key + ': day looked up', site):
                ok, w = one(); rep.add(G, ok, key + ': day looked up', w, site)
    def instant(of, p, F, N, h, mi, s, rounding):
        u = {SEC: 86400, MIN: 1440, HR: 24, DAY: 1}[of]
        x = ZERO
        if of != DAY: x = val(h)
        if of in (SEC, MIN): x = x.scale(60) + num(flat(mi))
        if of == SEC: x = x.scale(60) + num(flat(s))
        lo, hi = (Fr(-1, 2), Fr(499, 1000)) if rounding else (-Fr(4 * u, 86400 * 100), Fr(94, 100))
        r = Poly.var(atom(('in', 'r', lo, hi), lo, hi, False, 'r'))
        if F: x = x + num(F).scale(Fr(1, 10 ** p))
        return N - K(Fr(1, 2)) + (x + r.scale(Fr(1, 10 ** p))).scale(Fr(1, u))
    n = 0
    mi, s = six('i'), six('s')
    thorough = rep.tier == 'thorough'
    def go(G, key, fl, p, h=1, day=1, yr=0, mon=3, cal=0, c0=0, after=True, dbl=False):
        F = digs(p, 'f'); N = (wk if after else pw).scale(7) + K(c0)
        D, Y, H = DAYS[day], YEARS[yr], HOURS[h]; doy = [d_('q0', 0, 2), d_('q1'), d_('q2')]
        want = expect(fl, p, F, (c0 + 6) % 7, Y, mon, D, doy, H, mi, s)
        case(G, '%s, %d decimals, hours "%s", day "%s", month %d, year %s, %s' % (key, p, show(flat(H)), show(flat(D)), mon, Y[0], DOW[(c0 + 6) % 7]), fl | (p << 4), instant(fl & 0x700, p, F, N, H, mi, s, fl & ROUND), want, (val(D), mon, yval(Y), num(doy)), cal, N, dbl)
    nm = {SEC: 'seconds', MIN: 'minutes', HR: 'hours', DAY: 'days'}
    G = 'decimals and rounding'
    for of in (SEC, MIN, HR, DAY):
        for p in range(16):
            for rd_ in (0, ROUND):
                for af in (True, False):
                    go(G, '%s%s%s' % (nm[of], ', rounded' if rd_ else ', cut', '' if af else ', before 2000'), of | rd_, p, h=n % 3, day=n % 4, mon=1 + n % 12, yr=0, c0=n % 7, after=af); n += 1
    G = 'layouts'
    fls = [YF, MD, DIGITS, TIME, LZ, YY, NOYEAR, DOWF, DOWL, NOSP, NOCOL, DOY, ROUND]
    import itertools, random
    g = random.Random(11)
    combos = [0] + fls + [a | b for a, b in itertools.combinations(fls, 2)] + [a | b | c for a, b, c in itertools.combinations(fls, 3)]
    if thorough: combos += [sum(x for x in fls if g.random() < .4) for _ in range(400)]
    for k, c in enumerate(combos):
        of = (SEC, MIN, HR, DAY)[k % 4]
        go(G, '%s, flags %x' % (nm[of], c), of | c, (0, 1, 3, 2, 0)[k % 5], h=(k // 4) % 3, day=(k // 3) % 4, yr=(0, 0, 1, 4, 2, 5, 3, 0, 6, 7)[k % 10] if k % 3 else 0, mon=1 + k % 12, c0=k % 7, after=bool(k % 2))
    G = 'months, weekdays, years and calendars'
    for m in range(1, 13):
        for c in (0, DIGITS, DIGITS | LZ, MD): go(G, 'flags %x' % c, DAY | c, 0, day=m % 4, mon=m)
    for c0 in range(7):
        for af in (True, False):
            for c in (DOWF, DOWL): go(G, 'flags %x%s' % (c, '' if af else ', before 2000'), SEC | c, 0, c0=c0, after=af)
    for y in range(len(YEARS)):
        for c in (0, LZ, YF, YY, YF | YY | NOSP): go(G, 'flags %x' % c, DAY | c, 0, yr=y)
    for cal in range(9): go(G, 'calendar %d' % cal, SEC, 0, cal=cal); go(G, 'calendar %d, day of year' % cal, DAY | DOY, 2, cal=cal)
    for cal in (2, 7):
        for c in (0, DIGITS, LZ): go(G, 'thirteenth month, calendar %d, flags %x' % (cal, c), SEC | c, 0, cal=cal, mon=13)
    for of in (SEC, MIN, HR, DAY): go(G, 'double precision, %s' % nm[of], of, 1, dbl=True)
    G = 'day numbers'
    for mj in (0, 1):
        for p in range(0, 16):
            for rd_ in (0, ROUND):
                for L in ((7, 5)[mj], (6, 4)[mj]):
                    if L != (7, 5)[mj] and p % 4: continue
                    I_ = [d_('j0', 1)] + digs(L - 1, 'j'); F = digs(p, 'f')
                    r = Poly.var(atom(('in', 'r', 'jd'), Fr(-499, 1000), Fr(499, 1000), False, 'r'))
                    t = num(I_) + (num(F).scale(Fr(1, 10 ** p)) if p else ZERO) + r.scale(Fr(1, 10 ** p)) - (J2000 if not mj else J2000 - K(Fr('2400000.5')))
                    case(G, '%s, %d decimals, %d digits before the point%s' % ('MJD' if mj else 'JD', p, L, ', rounding asked for' if rd_ else ''), (MJD if mj else JD) | rd_ | (p << 4), t, flat(['MJD ' if mj else 'JD ', I_, ['.', F] if p else []]))
    G = 'decimal years'
    for p in range(0, 14):
        for neg, L, pad in ((0, 4, ''), (0, 3, ' '), (0, 5, ''), (1, 3, ''), (1, 4, '')):
            for rd_ in (0, ROUND):
                if neg and (p % 3 or rd_): continue
                I_ = [d_('y0', 1)] + digs(L - 1, 'y'); F = digs(p, 'f')
                lo, hi = (Fr(-49, 100), Fr(49, 100)) if rd_ else (Fr(1, 100), Fr(99, 100))
                r = Poly.var(atom(('in', 'r', lo, hi), lo, hi, False, 'r'))
                y = num(I_) + (num(F).scale(Fr(1, 10 ** p)) if p else ZERO) + r.scale(Fr(1, 10 ** p))
                if neg: y = -y
                t = (y - K(2000)).scale(Fr('365.25'))
                case(G, 'year %s%s, %d decimals%s' % ('-' if neg else '', 'y' * L, p, ', rounded' if rd_ else ''), YEAR | rd_ | (p << 4), t, flat([pad, '-' if neg else '', I_, ['.', F] if p else []]))
                if not neg and L < 5: case(G, 'year %s, %d decimals%s, leading zeroes' % ('y' * L, p, ', rounded' if rd_ else ''), YEAR | LZ | rd_ | (p << 4), t, flat(['0' if pad else '', I_, ['.', F] if p else []]))
    rep.minimum = 500
