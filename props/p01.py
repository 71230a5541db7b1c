"""P01: calendar years follow their rule and abut, for every year."""
import core, cal
from core import *
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR over a congruence (period*k+r) / affine / interval domain, against independent calendar oracles'
RULE = ('dmy_to_day and days_in_month are abstractly interpreted with year = period*k + r, k an unbounded-range integer atom '
        '(both signs) and r each residue of the calendar period; each obligation is that the resulting affine form of the first day of every '
        'month (1..14, 14 meaning the next new year) equals the oracle form. Finite calendars (Persian table, Chinese table) and the Hebrew '
        'calendar are decided year by year with constant propagation.')
BIG = 10**6
REF = {cal.GREG: cal.greg, cal.JUL: cal.jul, cal.ISL: cal.isl, cal.HEB: cal.heb, cal.REV: cal.rev, cal.PER: cal.per, cal.MPER: cal.mper}
NAME = {0: 'gregorian', 1: 'julian', 2: 'hebrew', 3: 'islamic', 4: 'revolutionary', 5: 'persian', 6: 'julian/gregorian', 7: 'chinese', 8: 'modern-persian'}

def starts(sm):
    s, m = sm
    r = [s]
    for x in m: r.append(r[-1] + x)
    return r

def yearjob(job):
    """job: (calendar, period or 0, days per period, residue, (klo,khi) or None, months, what)"""
    c, P, D, r, kr, months, exp = job
    I = Interp(PROG); out = []
    f = core.need(PROG, 'dmy_to_day')
    for m in months:
        tag = '%s:year=%s%d:month=%d' % (NAME[c], ('%d*k%s+' % (P, '(k>=0)' if kr[0] >= 0 else '(k<0)')) if P else '', r, m)
        try:
            if P:
                k = Poly.var(atom(('k',) + kr, kr[0], kr[1], True, 'k'))
                y = k.scale(P) + K(r); want = k.scale(D) + K(exp[m - 1])
            else: y = K(r); want = K(exp[m - 1])
            res = I.call(f, [K(1), K(m), y, K(c)], State())
            if res is None: out.append(('year structure', False, tag, 'no path returns', where(f))); continue
            s, v = res
            v = I.resolve(v, s)
            out.append(('first day of month = calendar rule', verdict(I, s, v, want), tag, 'day number %s, rule gives %s' % (v, want), where(f)))
        except Imprecise as e: out.append(('first day of month = calendar rule', None, tag, repr(e), where(f)))
    return out, I.analysed

def verdict(I, s, v, want):
    if not isinstance(v, Poly): return None
    d = v - want
    if d.is_const(): return d.c == 0
    lo, hi = I.rng(d, s)
    if lo > 0 or hi < 0: return False
    # affine in k only: different forms differ for some k
    if all(ATOMS[a].key[0] == 'k' for a in d.atoms()) and len(list(d.atoms())) == 1:
        a = ATOMS[list(d.atoms())[0]]
        if a.hi > a.lo: return False
    return None

def jobs(tier):
    J = []
    M = list(range(1, 15))
    def per(c, P, D, r, kr, months=M):
        base = starts(REF[c](r))
        J.append((c, P, D, r, kr, months, base))
    for c, P, D in ((cal.GREG, 400, 146097), (cal.JUL, 4, 1461), (cal.ISL, 30, 10631)):
        for r in range(P):
            per(c, P, D, r, (0, BIG)); per(c, P, D, r, (-BIG, -1))
    D = 2820 * 365 + 683
    few = [1, 12, 13, 14] if tier == 'quick' else M
    for r in range(2820):
        mm = few if r % 29 else M
        per(cal.MPER, 2820, D, r, (1, BIG), mm); per(cal.MPER, 2820, D, r, (-BIG, -1), mm)
        J.append((cal.MPER, 0, 0, r, None, mm, starts(cal.mper(r))))
        J.append((cal.REV, 0, 0, r, None, mm, starts(cal.rev(r))))
        J.append((cal.REV, 0, 0, r - 2820, None, mm, starts(cal.rev(r - 2820))))
        # beyond the block table the rule is one affine pattern
        b = starts(cal.rev(r + 2820)); per_ = [x - D for x in b]
        J.append((cal.REV, 2820, D, r, (1, BIG), mm, per_))
        b = starts(cal.rev(r - 5640)); per_ = [x + 2 * D for x in b]
        J.append((cal.REV, 2820, D, r, (-BIG, -2), mm, per_))
    for y in range(cal.PER_LO, cal.PER_HI + 1): J.append((cal.PER, 0, 0, y, None, M, starts(cal.per(y))))
    hi = 7000 if tier == 'quick' else 98496 + 2000
    for y in range(-100, hi):
        J.append((cal.HEB, 0, 0, y, None, M if y % 3 == 0 or tier != 'quick' and y < 20000 else [1, 14], starts(cal.heb(y))))
    for y in (75795, 82082, 88369): J.append((cal.HEB, 0, 0, y, None, M, starts(cal.heb(y))))   # molad exactly at 18h 0p
    # Julian/Gregorian hybrid
    for r in range(400):
        for kr in ((4, BIG), (-BIG, -1)):
            ref = cal.greg if kr[0] > 0 else cal.jul
            D = 146097 if kr[0] > 0 else 146100
            J.append((cal.JG, 400, D, r, kr, M[:12], starts(ref(r))))
    for y in range(0, 1600):
        ref = cal.greg if y > 1582 else cal.jul
        b = starts(ref(y))
        if y == 1582: b = starts(cal.jul(y))[:10] + starts(cal.greg(y))[10:]
        J.append((cal.JG, 0, 0, y, None, M[:12] if y > 1575 else [1, 3], b))
    return J

def chinese(rep):
    """the table the library carries: decoded from the IR's constant initialiser via the code, checked structurally"""
    path = os.path.join(core.REPO, 'chinese.dat')
    try: ch = cal.chinese(open(path, 'rb').read())
    except OSError: raise AnalysisBroken('chinese.dat not found')
    return ch

def chjob(job):
    y, exp, months, ic = job
    I = Interp(PROG); out = []
    f = core.need(PROG, 'dmy_to_day')
    got = {}
    for m in months:
        tag = 'chinese:year=%d:month=%d' % (y, m)
        try:
            st = State()
            res = I.call(f, [K(1), K(m), K(y), K(cal.CHI)], st)
            if res is None: out.append(('chinese table decoding', False, tag, 'no path returns', where(f))); continue
            s, v = res; got[m] = v.c if isinstance(v, Poly) else None
            out.append(('chinese table decoding', None if got[m] is None else got[m] == exp[m - 1], tag, 'day number %s, chinese.dat gives %s' % (v, exp[m - 1]), where(f)))
            if m == 1:
                g = core.need(PROG, 'get_chinese_intercalary_month')
                s2, w = I.call(g, [], s)
                out.append(('chinese intercalary month', None if w.c is None else w.c == ic, 'chinese:year=%d:intercalary' % y, 'intercalary month %s, chinese.dat gives %s' % (w, ic), where(g)))
        except Imprecise as e: out.append(('chinese table decoding', None, tag, repr(e), where(f)))
    return out, (y, got.get(1), got.get(14)), I.analysed

def run(rep):
    global PROG
    PROG = core.units(['date.cpp'])
    J = jobs(rep.tier)
    core.need(PROG, 'days_in_month')
    for out, fs in core.pmap(yearjob, J, 40):
        rep.merge(out); rep.funcs |= fs
    # days_in_month agrees with the month lengths
    D = []
    for c, ys in ((0, (1900, 2000, 2023, 2024)), (1, (1900, 2023)), (2, range(5770, 5789)), (3, range(1400, 1430)), (4, range(1, 9)), (5, range(1390, 1400)), (8, range(1390, 1400)), (6, (1500, 1582, 1700))):
        for y in ys: D.append((c, y))
    rep.merge(sum(core.pmap(dimjob, D), []))
    # dates are affine in the day of the month
    rep.merge(dayform())
    ch = chinese(rep)
    CJ = []
    for y, (s, m, ic) in ch.items():
        mm = list(range(1, 15)) if rep.tier != 'quick' or y % 10 == 0 else [1, 14, 2 + y % 12]
        CJ.append((y, starts((s, m)), mm, ic))
    ends = {}
    for out, (y, a, b), fs in core.pmap(chjob, CJ, 40):
        rep.merge(out); ends[y] = (a, b); rep.funcs |= fs
    f = core.need(PROG, 'dmy_to_day')
    for y in sorted(ends):
        if y + 1 in ends:
            a, b = ends[y][1], ends[y + 1][0]
            rep.add('chinese years abut', None if a is None or b is None else a == b, 'chinese:abut:%d' % y, 'year %d ends before day %s, year %d starts on day %s' % (y, a, y + 1, b), where(f))
    # years outside the finite tables are refused (day number 0), for all of them
    I = Interp(PROG)
    for c, lo, hi in ((cal.PER, cal.PER_LO, cal.PER_HI), (cal.CHI, min(ch), max(ch))):
        for nm, rg in (('below', (-10**8, lo - 1)), ('above', (hi + 1, 10**8))):
            y = Poly.var(atom(('y',) + rg, rg[0], rg[1], True, 'year'))
            s, v = I.call(f, [K(1), K(1), y, K(c)], State())
            r = I.rng(v, s)
            rep.add('years outside the table refused', True if r == (0, 0) else (False if r[0] > 0 or r[1] < 0 else None), '%s:%s' % (NAME[c], nm), 'result range %s' % (r,), where(f))
    rep.minimum = 5000

def dimjob(job):
    c, y = job
    I = Interp(PROG); f = core.need(PROG, 'days_in_month'); out = []
    ref = REF[c] if c != 6 else (cal.greg if y > 1582 else cal.jul)
    m = ref(y)[1]
    for i in range(13 if c != 6 else 12):
        if c == 6 and y == 1582 and i >= 8: continue
        try:
            s, v = I.call(f, [K(i + 1), K(y), K(c)], State())
            out.append(('days_in_month', None if v.c is None else v.c == m[i], '%s:%d-%d' % (NAME[c], y, i + 1), 'days_in_month %s, rule %d' % (v, m[i]), where(f)))
        except Imprecise as e: out.append(('days_in_month', None, '%s:%d-%d' % (NAME[c], y, i + 1), repr(e), where(f)))
    return out

def dayform():
    I = Interp(PROG); f = core.need(PROG, 'dmy_to_day'); out = []
    d = Poly.var(atom(('day', 1), -900, 10**6, True, 'day'))
    for c, y in ((0, 2000), (1, 1000), (2, 5780), (3, 1400), (4, 5), (5, 1400), (7, 4637), (8, 1400), (6, 1900), (6, 1200)):
        for m in (1, 7):
            s, v = I.call(f, [d, K(m), K(y), K(c)], State()); v = I.resolve(v, s)
            s, w = I.call(f, [K(1), K(m), K(y), K(c)], State())
            df = v - w - d + K(1) if isinstance(v, Poly) else None
            out.append(('affine in the day of the month', True if df == ZERO else (False if df is not None and df.is_const() else None), '%s:%d-%d' % (NAME[c], y, m), 'day number %s' % (v,), where(f)))
    return out
