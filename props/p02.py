"""P02: day number -> date inverts date -> day number (day_to_dmy against the calendar rules)."""
import core, cal
from core import *
from p01 import NAME, REF, starts
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR over a congruence/affine/interval domain with adaptive interval partitioning, against calendar oracles'
RULE = ('day_to_dmy is abstractly interpreted with day number = D*k + start(month) + t, t an interval atom over the days of the month and k an integer '
        'atom of either sign (calendars whose search is periodic) or 0; the obligation is that the three stored results are exactly year P*k+r, month m, '
        'day t+1. An interval on which a branch stays open is bisected, down to single days.')
BIG = 10**6

def one(I, f, c, P, D, r, kr, m, base, t0, t1, out, tag, vari, strict=True):
    I.strict = strict
    st = State()
    t = K(t0) if t0 == t1 else Poly.var(atom(('t', t0, t1), t0, t1, True, 't'))
    jd = K(base) + t; wy = K(r); k = None
    if P:
        k = Poly.var(atom(('k',) + kr, kr[0], kr[1], True, 'k')); jd = jd + k.scale(D); wy = wy + k.scale(P)
    o = [I.new_obj(st, z, 'arg', n) for z, n in ((4, 'day'), (4, 'month'), (8, 'year'))]
    try:
        res = I.call(f, [jd] + [Ptr(x.id, ZERO) for x in o] + [K(c)], st)
        why = 'undecided'
        if res is None: bad = 'no path returns'
        else:
            s = res[0]; bad = None; und = False
            for x, w, n, ty in zip(o, (t + K(1), K(m), wy), ('day', 'month', 'year'), vari):
                v = I.load(s, Ptr(x.id, ZERO), ty, None, f.module)
                v = I.resolve(v, s)
                if not isinstance(v, Poly): und = True; continue
                d = v - w
                if d == ZERO: continue
                lo, hi = I.rng(d, s)
                if d.is_const() or lo > 0 or hi < 0: bad = '%s = %s, should be %s' % (n, v, w); break
                if k is not None and not list(a for a in d.atoms() if ATOMS[a].key[0] != 'k'): bad = '%s = %s, should be %s' % (n, v, w); break
                und = True
            if bad is None and not und:
                out.append((GR, True, tag + ':days %d-%d' % (t0 + 1, t1 + 1), 'year %s month %d day t+1' % (wy, m), where(f))); return
        if bad is not None and t0 == t1:
            out.append((GR, False, tag + ':day %d' % (t0 + 1), bad, where(f))); return
    except Imprecise as e: why = repr(e)
    if t0 == t1 and strict and P:
        one(I, f, c, P, D, r, kr, m, base, t0, t1, out, tag, vari, False); return
    if t0 == t1: out.append((GR, None, tag + ':day %d' % (t0 + 1), why, where(f))); return
    h = (t0 + t1) // 2
    one(I, f, c, P, D, r, kr, m, base, t0, h, out, tag, vari)
    one(I, f, c, P, D, r, kr, m, base, h + 1, t1, out, tag, vari)
GR = 'day_to_dmy inverts the calendar rule'

def job(j):
    c, P, D, r, kr, S, months = j
    I = Interp(PROG, fuel=20000); f = core.need(PROG, 'day_to_dmy'); out = []
    vari = [llir.Ty('int', 32), llir.Ty('int', 32), llir.Ty('int', 64)]
    for m in months:
        n = S[m] - S[m - 1]
        if n <= 0: continue
        if c == cal.JG and S is not None and not P and r == 1582 and m == 10:
            one(I, f, c, P, D, r, kr, m, S[m - 1], 0, 3, out, '%s:1582-10' % NAME[c], vari)
            one(I, f, c, P, D, r, kr, m, starts(cal.greg(1582))[9], 14, 30, out, '%s:1582-10' % NAME[c], vari)
            continue
        tag = '%s:year=%s%d:month=%d' % (NAME[c], ('%d*k%s+' % (P, '(k>=0)' if kr[0] >= 0 else '(k<0)')) if P else '', r, m)
        one(I, f, c, P, D, r, kr, m, S[m - 1], 0, n - 1, out, tag, vari)
    return out, I.analysed

def jobs(tier):
    J = []; M = list(range(1, 14)); E = [1, 12, 13]; th = tier != 'quick'
    for c, P, D in ((cal.GREG, 400, 146097), (cal.JUL, 100, 36525), (cal.ISL, 30, 10631)):
        for r in range(P):
            S = starts(REF[c](r))
            mm = M if P < 400 or th or r % 4 == 0 or r % 100 < 5 else [1, 2, 3, 12]
            J.append((c, P, D, r, (0, BIG), S, mm)); J.append((c, P, D, r, (-BIG, -1), S, mm))
    for r in range(400):
        mm = M if th or r % 25 == 0 else [1, 12]
        J.append((cal.JG, 400, 146097, r, (4, BIG), starts(cal.greg(r)), mm))
        J.append((cal.JG, 400, 146100, r, (-BIG, -1), starts(cal.jul(r)), mm))
    for y in range(0, 1600, 1 if th else 1):
        ref = cal.greg if y > 1582 else cal.jul
        S = starts(ref(y))
        if y == 1582: S = starts(cal.jul(y))[:10] + starts(cal.greg(y))[10:]
        J.append((cal.JG, 0, 0, y, None, S, M if y > 1570 or th else [1, 12]))
    def finite(c, ref, lo, hi, full):
        for y in range(lo, hi):
            J.append((c, 0, 0, y, None, starts(ref(y)), M if th or y % full == 0 else E))
    finite(cal.HEB, cal.heb, 1, 6500, 20)
    finite(cal.REV, cal.rev, -1000, 1400, 10)
    finite(cal.PER, cal.per, cal.PER_LO, cal.PER_HI + 1, 10)
    finite(cal.MPER, cal.mper, -1200, 3000, 20)
    if th:
        finite(cal.HEB, cal.heb, 6500, 12000, 1); finite(cal.REV, cal.rev, 1400, 4000, 1); finite(cal.MPER, cal.mper, 3000, 6000, 1)
    return J

def run(rep):
    global PROG
    PROG = core.units(['date.cpp'])
    J = jobs(rep.tier)
    ch = cal.chinese(open(os.path.join(core.REPO, 'chinese.dat'), 'rb').read())
    th = rep.tier != 'quick'
    for y, (s, m, ic) in ch.items():
        if th or y % 4 == 0 or y < -355 or y > 9630: J.append((cal.CHI, 0, 0, y, None, starts((s, m)), list(range(1, 14)) if th or y % 40 == 0 else [1, 12, 13]))
    for out, fs in core.pmap(job, J, 20):
        rep.merge(out); rep.funcs |= fs
    rep.minimum = 5000
