"""P07: the MPC's base-62 numbers and packed designations, catalogue codes and variable-star designations are encoded and decoded by the published rules."""
import os, core, ident, fmt
from strs import *
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR on strings of symbolic characters (digit and letter classes), exact models of the C string functions'
RULE = ('one abstract call per designation template (literal characters, digits and letters as unknowns of their class): every output character and the return value '
        'must have the normal form given by the published packing rule; pack and unpack templates are mirror images, so together they give the round trip')
ASSUMPTIONS = ['the characters of a template are exactly those of its class; text after the designation is blank', 'C locale, ASCII']
ROM = (('M', 1000), ('CM', 900), ('D', 500), ('CD', 400), ('C', 100), ('XC', 90), ('L', 50), ('XL', 40), ('X', 10), ('IX', 9), ('V', 5), ('IV', 4), ('I', 1))
def roman(n):
    s = ''
    for t, v in ROM:
        while n >= v: s += t; n -= v
    return s
# base-62 digit classes: (name, lowest value, highest value, character of value v = v + shift)
CLS = (('0-9', 0, 9, 48), ('A-Z', 10, 35, 55), ('a-z', 36, 61, 61))
# two leading decimal digits (a, b lo..hi) of a three-digit number whose leading pair is one base-62 digit of a single class
PAIRS = [(1, 0, 9, 55), (2, 0, 9, 55), (3, 0, 5, 55), (3, 6, 9, 61), (4, 0, 9, 61), (5, 0, 9, 61), (6, 0, 1, 61)]
def mhook(I, st, a, ins, m):
    """int_to_mutant_hex_char as an uninterpreted letter of its argument (it is decided by itself)"""
    v = I.as_poly(a[0], 32)
    if v.c is not None:
        x = int(v.c); return st, K(x + next(s for _, l, h, s in CLS if l <= x <= h) if 0 <= x <= 61 else 0)
    lo, hi = I.rng(v, st)
    for _, l, h, s in CLS:
        if l <= lo and hi <= h: return st, v + K(s)
    return st, Poly.var(atom(('mhex', v), 0, 122, True))
def pfix(r): r.I.hooks['int_to_mutant_hex_char'] = mhook

def run(rep):
    P = core.program()
    G = 'base-62 digits'
    f = core.need(P, 'int_to_mutant_hex_char'); g = core.need(P, 'mutant_hex_char_to_int')
    for nm, lo, hi, sh in CLS:
        x = rngc('n', lo, hi)
        value(rep, G, 'digit %s to character' % nm, P, f, lambda r: [x], x + K(sh))
        c = rngc('c', lo + sh, hi + sh)
        value(rep, G, 'character %s to digit' % nm, P, g, lambda r: [c], c - K(sh))
    for nm, lo, hi in (('negative', -2**31, -1), ('over 61', 62, 2**31 - 1)): value(rep, G, '%s is not a digit' % nm, P, f, lambda r: [rngc('n', lo, hi)], 0)
    for lo, hi in ((-128, 47), (58, 64), (91, 96), (123, 127)): value(rep, G, 'characters %d..%d are no digits' % (lo, hi), P, g, lambda r: [rngc('c', lo, hi)], -1)
    import itertools
    G = 'base-62 numbers'
    f = core.need(P, 'get_mutant_hex_value'); e = core.need(P, 'encode_value_in_mutant_hex')
    for n in (1, 2, 3, 4, 5):
        combos = list(itertools.product(range(3), repeat=n)) if n <= 3 else [tuple((i + j * s) % 3 for j in range(n)) for i in range(3) for s in (0, 1, 2)]
        for cb in combos:
            vs = [rngc('v%d' % i, CLS[k][1], CLS[k][2]) for i, k in enumerate(cb)]
            cs = [v + K(CLS[k][3]) for v, k in zip(vs, cb)]
            tot = ZERO
            for v in vs: tot = tot.scale(62) + v
            tag = ' '.join(CLS[k][0] for k in cb)
            value(rep, G, 'decode ' + tag, P, f, lambda r: [sym(r.I, r.st, cs + ['@']), K(n)], tot)
            text(rep, G, 'encode ' + tag, P, e, lambda r, o: (fmt.put(r.I, r.st, o, [K(63)] * n, None, None, r.m), [o, K(n), tot])[1], cs, 0)
            if n <= 3: text(rep, G, 'overflow is returned, ' + tag, P, e, lambda r, o: (fmt.put(r.I, r.st, o, [K(63)] * n, None, None, r.m), [o, K(n), tot + rngc('over', 1, 99).scale(62 ** n)])[1], cs, rngc('over', 1, 99))
        for bad in range(n):
            vs = [rngc('v%d' % i, 36, 61) + K(61) for i in range(n)]; vs[bad] = rngc('c', 58, 64)
            value(rep, G, 'decode, %d digits, character %d invalid' % (n, bad), P, f, lambda r: [sym(r.I, r.st, vs)  , K(n)], -1)
    pack_rules(rep, P)
    unpack_rules(rep, P)
    var_stars(rep, P)
    net_codes(rep, P)
    rep.minimum = 150

def century(y2):
    """(text of the century, packed letter)"""
    return chr(ord('A') + y2 - 10)

def pack_rules(rep, P):
    f = core.need(P, 'create_mpc_packed_desig')
    def case(G, key, inp, want, ret=0, pad=True, hook=False):
        w = flat(want)
        if pad: w = w + [K(32)] * (12 - len(w))
        text(rep, G, key, P, f, lambda r, o: [o, sym(r.I, r.st, flat(inp))], w, ret, pre=pfix if hook else None, size=13)
    a, b, c, d, e, g, h = [d_('d%d' % i) for i in range(7)]
    nz = d_('d0', 1)
    G = 'packing numbered minor planets'
    for n in range(1, 5):
        ds = [nz, b, c, d][:n]
        case(G, '%d digits in parentheses' % n, ['(', ds, ')'], ['0', '0' * (4 - n), ds])
        case(G, '%d digits in parentheses, blanks before' % n, ['  (', ds, ')'], ['0', '0' * (4 - n), ds])
    case(G, '5 digits in parentheses', ['(', nz, b, c, d, e, ')'], [nz, b, c, d, e])
    case(G, '5 digits', [nz, b, c, d, e], [nz, b, c, d, e])
    case(G, '5 digits, blanks after', [nz, b, c, d, e, '  '], [nz, b, c, d, e])
    for x, lo, hi, sh in PAIRS:
        q = rngc('d1', lo, hi)
        for par in (0, 1):
            case(G, '6 digits from %d%d%s' % (x, lo, ' in parentheses' if par else ''), ['(' if par else '', str(x), q + K(48), c, d, e, g, ')' if par else ''], [q + K(10 * x + sh), c, d, e, g])
    # extended numbering: ~ and the base-62 value of number-620000
    def ext(v):
        r = []
        for k in range(4):
            q = Poly.var(atom(('div', v, 62), -INF, INF, True)); t = Poly.var(atom(('rem', v, 62), 0, 61, True))
            r.append(t); v = q
        return r[::-1]
    def b62(r, o): pass
    for key, ds in (('620000 to 629999', ['6', '2', c, d, e, g]), ('630000 to 699999', ['6', d_('d1', 3), c, d, e, g]), ('700000 to 999999', [d_('d0', 7), b, c, d, e, g]),
                    ('1000000 to 9999999', [nz, b, c, d, e, g, h]), ('10000000 to 14999999', ['1', d_('d1', 0, 4), c, d, e, g, h, d_('d7')])):
        v = num(flat(ds)) - K(620000); site = where(f); lo = 0
        with guard(rep, G, key, site):
            r = Run(P); r.I.hooks['int_to_mutant_hex_char'] = mhook; seen = []
            def enc(I, st, a, ins, m): seen.append((a[0], I.as_poly(a[1], 64), I.as_poly(a[2], 32))); fmt.put(I, st, a[0], [K(63)] * 4, 5, ins, m) if 0 else [I.store(st, Ptr(a[0].obj, a[0].off + K(i)), K(63), llir.Ty('int', 8), ins, m) for i in range(4)]; return st, ZERO
            r.I.hooks['encode_value_in_mutant_hex'] = enc
            o = r.I.new_obj(r.st, 13, 'arg', 'result'); out = Ptr(o.id, ZERO)
            ret = r.call(f, out, sym(r.I, r.st, flat(['(', ds, ')'])))
            got = show(chars(r.I, r.st, out)); rep.note_funcs(r.I)
            ok = len(seen) == 1 and seen[0][0] == Ptr(o.id, ONE) and seen[0][1].c == 4 and got == '~????       ' and ret.c == 0
            okv, w = ident.same(seen[0][2], v) if seen else (False, 'no base-62 number written')
            rep.add(G, ok and okv if ok is True else False, key, 'text %s, value encoded %s, required %s' % (got, seen and seen[0][2], v), site)
    G = 'packing provisional designations'
    y3, y4 = d_('y3'), d_('y4')
    for y in (18, 19, 20):
        for half in ('AZ',):
            L, M = up('H', 'A', 'Z'), up('L', 'A', 'Z')
            pre = [str(y), y3, y4, ' ', L, M]
            o0 = [' ' * 5, century(y), y3, y4, L]
            case(G, '%d.. no cycle' % y, pre, [o0, '00', M])
            case(G, '%d.. no cycle, blanks around' % y, ['  ', pre, '  '], [o0, '00', M])
            case(G, '%d.. cycle 1-9' % y, [pre, nz], [o0, '0', nz, M])
            case(G, '%d.. cycle 10-99' % y, [pre, nz, b], [o0, nz, b, M])
            for x, lo, hi, sh in PAIRS:
                q = rngc('s', lo, hi); case(G, '%d.. cycle from %d%d0' % (y, x, lo), [pre, str(x), q + K(48), c], [o0, q + K(10 * x + sh), c, M])
            case(G, '%d.. without the blank' % y, [str(y), y3, y4, L, M, nz], [o0, '0', nz, M])
    # extended cycles (620 and up), years 2000..2061: _ year half-month and base-62 of 25(cycle-620)+letter
    for key, llo, lhi, off in (('A-H', 'A', 'H', 65), ('J-Z', 'J', 'Z', 66)):
        for yk, yy, yl, yc in (('2000-2009', ['200', rngc('y', 0, 9) + K(48)], rngc('y', 0, 9) + K(48), 0), ('2030-2035', ['203', rngc('y', 0, 5) + K(48)], rngc('y', 0, 5) + K(30 + 55), 0), ('2040-2049', ['204', rngc('y', 0, 9) + K(48)], rngc('y', 0, 9) + K(40 + 61), 0)):
            for ck, cyc in (('62x', ['62', c]), ('7xx-9xx', [d_('c', 7), b, c]), ('4 digits', [nz, b, c, d]), ('5 digits', [nz, b, c, d, e])):
                with guard(rep, G, 'extended cycles', where(f)):
                    Lh, M = up('H', 'A', 'Z'), up('L', llo, lhi)
                    seen = []
                    r = Run(P); r.I.hooks['int_to_mutant_hex_char'] = mhook
                    def enc(I, st, a, ins, m): seen.append((a[0], I.as_poly(a[1], 64), I.resolve(I.as_poly(a[2], 32), st))); [I.store(st, Ptr(a[0].obj, a[0].off + K(i)), K(63), llir.Ty('int', 8), ins, m) for i in range(4)]; return st, ZERO
                    r.I.hooks['encode_value_in_mutant_hex'] = enc
                    o = r.I.new_obj(r.st, 13, 'arg', 'result'); out = Ptr(o.id, ZERO)
                    ret = r.call(f, out, sym(r.I, r.st, flat([yy, ' ', Lh, M, cyc])))
                    got = chars(r.I, r.st, out); want = flat(['     _', yl, Lh, '????'])
                    v = (num(flat(cyc)) - K(620)).scale(25) + M - K(off)
                    key2 = '%s, second letter %s, cycle %s' % (yk, key, ck)
                    ok = len(seen) == 1 and seen[0][0] == Ptr(o.id, K(8)) and seen[0][1].c == 4 and ret.c == 0 and len(got) == 12 and all(ident.same(x, y)[0] for x, y in zip(got, want))
                    okv, w = ident.same(seen[0][2], v) if seen else (False, 'nothing encoded')
                    rep.add(G, okv if ok else False, key2, 'text %s (required %s), encoded %s, required %s; %s' % (show(got), show(want), seen and seen[0][2], v, w), where(f))
    for t, q in (('P-L', 'PLS'), ('T-1', 'T1S'), ('T-2', 'T2S'), ('T-3', 'T3S')):
        case(G, 'survey ' + t, [nz, b, c, d, ' ', t] if t == 'xx' else [d_('d0', 1, 8), b, c, d, ' ', t], ['     ', q, d_('d0', 1, 8), b, c, d])
    G = 'packing comets and interstellar objects'
    for p in 'PCXDA':
        L = up('H', 'A', 'Z')
        o0 = ['    ', p, century(19), y3, y4, L]
        pre = [p, '/19', y3, y4, ' ', L]
        case(G, '%s/ one digit' % p, [pre, nz], [o0, '0', nz, '0'])
        case(G, '%s/ two digits' % p, [pre, nz, b], [o0, nz, b, '0'])
        case(G, '%s/ fragment' % p, [pre, nz, '-', up('F')], [o0, '0', nz, up('F') + K(32)])
        case(G, '%s/ two digits and fragment' % p, [pre, nz, b, '-', up('F')], [o0, nz, b, up('F') + K(32)])
        case(G, '%s/ second letter' % p, [pre, up('L'), nz, b], [o0, nz, b, up('L')])
    for p in 'PDI':
        for n in range(1, 5):
            ds = [nz, b, c, d][:n]
            case(G, 'numbered, %d digits, %s' % (n, p), [ds, p], ['0' * (4 - n), ds, p])
            case(G, 'numbered, %d digits, %s, fragment' % (n, p), [ds, p, '-', up('F')], ['0' * (4 - n), ds, p, ' ' * 6, up('F') + K(32)])
            case(G, 'numbered, %d digits, %s, two-letter fragment' % (n, p), [ds, p, '-', up('F'), up('E')], ['0' * (4 - n), ds, p, ' ' * 5, up('F') + K(32), up('E') + K(32)])
    for p in 'PCXDA':
        for k in range(1, 5):
            ds = [nz, b, c, d][:k]; o0 = ['0' * (4 - k), ds, p]
            case(G, '%s/ number of %d digits' % (p, k), [p, '/', ds], o0)
            case(G, '%s/ number of %d digits, fragment' % (p, k), [p, '/', ds, '-', up('F')], [o0, ' ' * 6, up('F') + K(32)])
            case(G, '%s/ number of %d digits, two-letter fragment, blanks around' % (p, k), ['  ', p, '/', ds, '-', up('F'), up('E'), '  '], [o0, ' ' * 5, up('F') + K(32), up('E') + K(32)])
    G = 'packing artificial and natural satellites'
    case(G, '19dd-dddL', ['19', d_('d0', 6), b, '-', c, d, e, up('L')], ['19', d_('d0', 6), b, '-', c, d, e, up('L')])
    case(G, '20dd-dddLL', ['20', a, b, '-', c, d, e, up('L'), up('M')], ['20', a, b, '-', c, d, e, up('L'), up('M')])
    case(G, '20dd-dddLLL', ['20', a, b, '-', c, d, e, up('L'), up('M'), up('N')], ['20', a, b, '-', c, d, e, up('L'), up('M'), up('N')])
    names = ['Venus', 'Earth', 'Mars', 'Jupiter', 'Saturn', 'Uranus', 'Neptune', 'Pluto']
    for nme in names:
        case(G, '%s, one digit' % nme, [nme, ' ', nz], [nme[0], '00', nz, 'S'])
        case(G, '%s, three digits' % nme, [nme, ' ', nz, b, c], [nme[0], nz, b, c, 'S'])
    for n in list(range(1, 100)) + [100, 148, 149, 199, 200, 249, 300, 399, 400, 404, 444, 490, 499, 500, 555, 600, 748, 890, 899, 900, 944, 949, 990, 999]:
        case(G, 'Saturn %s = %d' % (roman(n), n), ['Saturn ', roman(n)], ['S%03dS' % n])
    for p in 'VEMJSUNP':
        case(G, 'S/20yy %s d' % p, ['S/20', y3, y4, ' ', p, ' ', nz], ['    SK', y3, y4, p, '0', nz, '0'])
        case(G, 'S/19yy %s dd' % p, ['S/19', y3, d_('y4', 1), ' ', p, ' ', nz, b], ['    SJ', y3, d_('y4', 1), p, nz, b, '0'])
    for x, lo, hi, sh in PAIRS:
        q = rngc('s', lo, hi); case(G, 'S/20yy S %d%d.' % (x, lo), ['S/20', y3, y4, ' S ', str(x), q + K(48), c], ['    SK', y3, y4, 'S', q + K(10 * x + sh), c, '0'])
    G = 'designations outside the scheme'
    lc = [ch('x%d' % i, 'a', 'z') for i in range(20)]
    for n in range(1, 8): case(G, 'observer designation of %d letters' % n, lc[:n], ['     ', lc[:n]], -1)
    for n in (8, 10, 11, 12, 15, 20): case(G, 'name of %d letters' % n, lc[:n], ['$', lc[:min(n, 11)]], -1)
    for key, t in (('number 0', '(0)'), ('provisional satellite 620', 'S/2003 S 620'), ('provisional satellite 0', 'S/2003 S 0'), ('provisional satellite of 1900', 'S/1900 S 1'), ('provisional satellite of 2100', 'S/2100 S 1'), ('satellite number 1000', 'Saturn 1000'), ('satellite numeral M', 'Saturn M'), ('satellite without number', 'Saturn Q'),
                   ('year beyond the scheme', '6200 AB'), ('year before 1000', '999 AB'), ('asteroid without second letter', '2004 Q1'), ('text after the cycle', '2004 QB12x'), ('text after the cycle of a comet', 'C/2004 Q1x'), ('year only', '2004 Q'), ('comet without cycle', 'C/2004 Qx'), ('comet, cycle 620 without second letter', 'C/2004 Q620'), ('cycle 700 of 1999', '1999 AB700'), ('cycle 620 of 2062', '2062 AB620'), ('cycle beyond base 62', '2004 QA1562470'), ('empty', ''), ('three-letter fragment', 'P/73-ABC'), ('artsat without letter', '1992-0442'), ('unclosed parenthesis', '(12345'), ('text after a comet', 'C/2004 Q12x'), ('comet number with text', 'P/73x'), ('lone slash', 'Q/2004 Q1'), ('unparenthesised short number', '4333'), ('artsat before 1957', '1956-044A'), ('artsat of 2100', '2100-044A')):
        w = '0' if t == '(0)' else t
        case(G, key, t, ['     ', w] if len(w) <= 7 else ['$', w[:11]], -1)
    case(G, 'number beyond the extended scheme', ['(', d_('d0', 2), b, c, d, e, g, h, d_('d7'), ')'], ['$', d_('d0', 2), b, c, d, e, g, h, d_('d7'), ')'], -1)

def unpack_rules(rep, P):
    f = core.need(P, 'unpack_mpc_desig')
    def header(name):
        import re
        m = re.search(r'#define\s+%s\s+(-?\d+)' % name, open(os.path.join(core.REPO, 'mpc_func.h'), encoding='latin-1').read())
        return int(m.group(1)) if m else None
    T = {k: header('OBJ_DESIG_' + k) for k in ('ASTEROID_NUMBERED', 'ASTEROID_PROVISIONAL', 'COMET_NUMBERED', 'COMET_PROVISIONAL', 'NATSAT_NUMBERED', 'NATSAT_PROVISIONAL', 'ARTSAT', 'OTHER')}
    if None in T.values(): rep.add('unpacking', None, 'return codes', 'OBJ_DESIG_ codes not found'); T = {k: None for k in T}
    else: rep.add('unpacking', len(set(T.values())) == 8, 'return codes are distinct', T, 'mpc_func.h')
    def case(G, key, inp, want, ret, mgv=None):
        i = flat(inp); i = i + [K(32)] * (12 - len(i))
        def pre(r):
            if mgv is not None:
                def h(I, st, a, ins, m):
                    n = I.as_poly(a[1], 64).c; off = a[0].off.c
                    return st, fmt.pin(mgv) if (off, n) == want_at else K(-1)
                r.I.hooks['get_mutant_hex_value'] = h
        def cp(r, o): return [o, sym(r.I, r.st, i)]
        text(rep, G, key, P, f, cp, want, T[ret], pre=pre)
        # asking for the type only (no buffer) gives the same type
        value(rep, G, key + ', type only', P, f, lambda r: [NULL, sym(r.I, r.st, i)], T[ret], pre=pre)
    a, b, c, d, e, g, h = [d_('d%d' % i) for i in range(7)]
    nz = d_('d0', 1)
    y3, y4 = d_('y3'), d_('y4')
    G = 'unpacking numbered minor planets'
    for n in range(1, 6): case(G, '%d digits' % n, ['0' * (5 - n), [nz, b, c, d, e][:n]], ['(', [nz, b, c, d, e][:n], ')'], 'ASTEROID_NUMBERED')
    for x, lo, hi, sh in PAIRS:
        q = rngc('q', lo, hi); case(G, '6 digits from %d%d' % (x, lo), [q + K(10 * x + sh), c, d, e, g], ['(', str(x), q + K(48), c, d, e, g, ')'], 'ASTEROID_NUMBERED')
    want_at = (1, 4)
    for n in (6, 7, 8):
        ds = flat({6: [d_('d0', 7), b, c, d, e, g], 7: [nz, b, c, d, e, g, h], 8: ['1', d_('d1', 0, 4), c, d, e, g, h, d_('d7')]}[n])
        case(G, 'extended, %d digits' % n, ['~', up('p'), up('q'), up('r'), up('s')], ['(', ds, ')'], 'ASTEROID_NUMBERED', num(ds) - K(620000))
    G = 'unpacking provisional designations'
    for y in (18, 19, 20):
        L, M = up('H', 'A', 'Z'), up('L', 'A', 'Z')
        o0 = [str(y), y3, y4, ' ', L, M]; p0 = [' ' * 5, century(y), y3, y4, L]
        case(G, '%d.. no cycle' % y, [p0, '00', M], o0, 'ASTEROID_PROVISIONAL')
        case(G, '%d.. cycle 1-9' % y, [p0, '0', nz, M], [o0, nz], 'ASTEROID_PROVISIONAL')
        case(G, '%d.. cycle 10-99' % y, [p0, nz, b, M], [o0, nz, b], 'ASTEROID_PROVISIONAL')
        for x, lo, hi, sh in PAIRS:
            q = rngc('s', lo, hi); case(G, '%d.. cycle from %d%d0' % (y, x, lo), [p0, q + K(10 * x + sh), c, M], [o0, str(x), q + K(48), c], 'ASTEROID_PROVISIONAL')
    want_at = (8, 4)
    for key, lo, hi, off in (('A-H', 0, 7, 65), ('J-Z', 8, 24, 66)):
        for ck, cyc in (('62x', ['62', c]), ('7xx-9xx', [d_('c', 7), b, c]), ('4 digits', [nz, b, c, d]), ('5 digits', [nz, b, c, d, e])):
            k = rngc('k', lo, hi)
            for yk, yl, yt in (('200x', rngc('y', 0, 9) + K(48), ['200', rngc('y', 0, 9) + K(48)]), ('203x', rngc('y', 0, 5) + K(85), ['203', rngc('y', 0, 5) + K(48)])):
                case(G, 'extended cycle %s, letter %s, %s' % (ck, key, yk), ['     _', yl, up('H'), '0', up('q'), up('r'), up('s')], [yt, ' ', up('H'), k + K(off), cyc], 'ASTEROID_PROVISIONAL', (num(flat(cyc)) - K(620)).scale(25) + k) if 0 else \
                unp_ext(rep, G, P, f, T, 'extended cycle %s, letter %s, %s' % (ck, key, yk), ['     _', yl, up('H'), '0', up('q'), up('r'), up('s')], [yt, ' ', up('H'), k + K(off), cyc], (num(flat(cyc)) - K(620)).scale(25) + k)
    for t, q in (('P-L', 'PLS'), ('T-1', 'T1S'), ('T-2', 'T2S'), ('T-3', 'T3S')):
        case(G, 'survey ' + t, ['     ', q, a, b, c, d], [a, b, c, d, ' ', t], 'ASTEROID_PROVISIONAL')
    G = 'unpacking comets'
    for p in 'PCXD':
        L = up('H', 'A', 'Z'); p0 = ['    ', p, century(19), y3, y4, L]; o0 = [p, '/19', y3, y4, ' ', L]
        case(G, '%s/ one digit' % p, [p0, '0', nz, '0'], [o0, nz], 'COMET_PROVISIONAL')
        case(G, '%s/ two digits' % p, [p0, nz, b, '0'], [o0, nz, b], 'COMET_PROVISIONAL')
        case(G, '%s/ fragment' % p, [p0, nz, b, up('F') + K(32)], [o0, nz, b, '-', up('F')], 'COMET_PROVISIONAL')
        case(G, '%s/ second letter' % p, [p0, nz, b, up('L')], [o0, up('L'), nz, b], 'COMET_PROVISIONAL')
    L = up('H', 'A', 'Z'); case(G, 'A/ second letter', ['    AK', y3, y4, L, nz, b, up('L')], ['A/20', y3, y4, ' ', L, up('L'), nz, b], 'ASTEROID_PROVISIONAL')
    for p in 'PDI':
        for n in range(1, 5):
            ds = [nz, b, c, d][:n]
            case(G, 'numbered, %d digits, %s' % (n, p), ['0' * (4 - n), ds, p], [ds, p], 'COMET_NUMBERED')
    for p in 'PDI':
        for n in (1, 2, 4):
            ds = [nz, b, c, d][:n]
            case(G, 'numbered fragment, %d digits, %s' % (n, p), ['0' * (4 - n), ds, p, ' ' * 6, up('F') + K(32)], [ds, p, '-', up('F')], 'COMET_NUMBERED')
            case(G, 'numbered two-letter fragment, %d digits, %s' % (n, p), ['0' * (4 - n), ds, p, ' ' * 5, up('F') + K(32), up('E') + K(32)], [ds, p, '-', up('F'), up('E')], 'COMET_NUMBERED')
    G = 'unpacking number and designation'
    L, M = up('H', 'A', 'Z'), up('L', 'A', 'Z')
    case(G, '5-digit number', [nz, b, c, d, e, 'K', y3, y4, L, '0', d_('s', 1), M], ['(', nz, b, c, d, e, ') = 20', y3, y4, ' ', L, M, d_('s', 1)], 'ASTEROID_NUMBERED')
    case(G, '6-digit number', ['U', c, d, e, g, 'K', y3, y4, L, 'L', d_('s', 0), M], ['(30', c, d, e, g, ') = 20', y3, y4, ' ', L, M, '21', d_('s', 0)], 'ASTEROID_NUMBERED')
    want_at = (1, 4)
    ds = flat([nz, b, c, d, e, g, h]); case(G, '7-digit number', ['~', up('p'), up('q'), up('r'), up('s'), 'K', y3, y4, L, '0', d_('s', 1), M], ['(', ds, ') 20', y3, y4, ' ', L, M, d_('s', 1)], 'ASTEROID_NUMBERED', num(ds) - K(620000))
    G = 'unpacking other designations'
    lc = [ch('x%d' % i, 'a', 'z') for i in range(12)]
    for n in range(1, 8): case(G, 'observer designation of %d letters' % n, ['     ', lc[:n]], lc[:n], 'OTHER')
    case(G, 'artificial satellite', ['19', d_('d0', 6), b, '-', c, d, e, up('L')], ['19', d_('d0', 6), b, '-', c, d, e, up('L')], 'ARTSAT')
    case(G, 'artificial satellite, two letters', ['20', a, b, '-', c, d, e, up('L'), up('M')], ['20', a, b, '-', c, d, e, up('L'), up('M')], 'ARTSAT')
    for n in (1, 8, 11): case(G, 'literal name of %d letters' % n, ['$', lc[:n]], [lc[:n], ' ' * (11 - n)], 'ASTEROID_NUMBERED')
    G = 'invalid packed designations'
    for key, t in (('cycle character outside base 62', ['     K', y3, y4, up('H'), ch('bad', ':', '@'), nz, up('L')]), ('year not in digits', ['     K', up('y'), y4, up('H'), '0', nz, up('L')]), ('half-month not a letter', ['     K', y3, y4, d_('H'), '0', nz, up('L')]),
                   ('extended cycle, year outside base 62', ['     _', ch('bad', ':', '@'), up('H'), '0123']), ('extended cycle, digit outside base 62', ['     _', 'P', up('H'), '01', ch('bad', '!', '/'), '3']), ('extended number, digit outside base 62', ['~01', ch('bad', ':', '@'), '2']),
                   ('satellite discovered before 1700', ['    S', up('c', 'A', 'G'), y3, y4, 'J', '0', nz, '0']), ('satellite, no planet', ['    SK', y3, y4, ch('pl', 'A', 'D'), '0', nz, '0']), ('satellite, number outside base 62', ['    SK', y3, y4, 'J', ch('bad', ':', '@'), nz, '0']), ('satellite, year not in digits', ['    SK', up('y'), y4, 'J', '0', nz, '0']),
                   ('year of no launch', ['19', d_('d0', 0, 4), b, '-', c, d, e, up('L')])):
        i = flat(t); i = i + [K(32)] * (12 - len(i))
        value(rep, G, key, P, f, lambda r: [NULL, sym(r.I, r.st, i)], T['OTHER'])
    G = 'unpacking unaligned designations'
    u = core.need(P, 'unpack_unaligned_mpc_desig')
    for lead in (0, 1, 5, 9):
        text(rep, G, 'provisional, %d blanks before' % lead, P, u, lambda r, o: [o, sym(r.I, r.st, flat([' ' * lead, 'K', y3, y4, L, '0', nz, M, ' ' if lead else '']))], ['20', y3, y4, ' ', L, M, nz], T['ASTEROID_PROVISIONAL'])
        text(rep, G, 'comet, %d blanks before' % lead, P, u, lambda r, o: [o, sym(r.I, r.st, flat([' ' * lead, 'CK', y3, y4, L, '0', nz, '0', ' ' if lead else '']))], ['C/20', y3, y4, ' ', L, nz], T['COMET_PROVISIONAL'])
        text(rep, G, 'number, %d blanks before' % lead, P, u, lambda r, o: [o, sym(r.I, r.st, flat([' ' * lead, nz, b, c, d, e]))], ['(', nz, b, c, d, e, ')'], T['ASTEROID_NUMBERED'])
        text(rep, G, 'numbered comet, %d blanks before' % lead, P, u, lambda r, o: [o, sym(r.I, r.st, flat([' ' * lead, nz, b, c, d, 'P']))], [nz, b, c, d, 'P'], T['COMET_NUMBERED'])
    G = 'unpacking satellites'
    names = ['Venus', 'Earth', 'Mars', 'Jupiter', 'Saturn', 'Uranus', 'Neptune', 'Pluto']
    for nme in names:
        for n in ((1, 4, 888, 999) if nme != 'Saturn' else range(1, 1000) if rep.tier == 'thorough' else list(range(1, 100)) + [100, 199, 249, 300, 404, 444, 499, 500, 600, 748, 888, 890, 900, 949, 999]):
            case(G, '%s %d' % (nme, n), ['%s%03dS' % (nme[0], n)], [nme, ' ', roman(n)], 'NATSAT_NUMBERED')
    for p in 'VEMJSUNP':
        if p in 'M': pass
        case(G, 'S/ %s one digit' % p, ['    SK', y3, y4, p, '0', nz, '0'], ['S/20', y3, y4, ' ', p, ' ', nz], 'NATSAT_PROVISIONAL')
        case(G, 'S/ %s two digits' % p, ['    SJ', y3, y4, p, nz, b, '0'], ['S/19', y3, y4, ' ', p, ' ', nz, b], 'NATSAT_PROVISIONAL')
    for x, lo, hi, sh in PAIRS:
        q = rngc('s', lo, hi); case(G, 'S/ S %d%d.' % (x, lo), ['    SK', y3, y4, 'S', q + K(10 * x + sh), c, '0'], ['S/20', y3, y4, ' S ', str(x), q + K(48), c], 'NATSAT_PROVISIONAL')

def unp_ext(rep, G, P, f, T, key, inp, want, v):
    i = flat(inp)
    def pre(r):
        def h(I, st, a, ins, m):
            n = I.as_poly(a[1], 64).c
            cs = [I.load_at(st, st.mem[a[0].obj], int(a[0].off.c) + k, llir.Ty('int', 8), m, 1) for k in range(int(n))]
            return st, fmt.pin(v) if cs == [fmt.pin(x) for x in i[8:12]] else K(-1)
        r.I.hooks['get_mutant_hex_value'] = h
    text(rep, G, key, P, f, lambda r, o: [o, sym(r.I, r.st, i)], want, T['ASTEROID_PROVISIONAL'], pre=pre)

def var_stars(rep, P):
    f = core.need(P, 'make_var_desig'); g = core.need(P, 'decipher_var_desig')
    G = 'variable star designations'
    al = 'ABCDEFGHIKLMNOPQRSTUVWXYZ'
    names = list('RSTUVWXYZ') + [x + y for x in 'RSTUVWXYZ' for y in 'RSTUVWXYZ' if y >= x] + [x + y for x in al if x < 'R' for y in al if y >= x]
    assert len(names) == 334
    for i, n in enumerate(names):
        text(rep, G, 'star %d is %s' % (i + 1, n), P, f, lambda r, o: [o, K(i + 1)], [n])
        value(rep, G, '%s is star %d' % (n, i + 1), P, g, lambda r: [sym(r.I, r.st, [n + ' And'])], i + 1)
        value(rep, G, '%s alone is star %d' % (n.lower() if len(n) == 2 else n, i + 1), P, g, lambda r: [sym(r.I, r.st, [n.lower() if len(n) == 2 else n])], i + 1)
    b, c, d = d_('b'), d_('c'), d_('d')
    for key, ds in (('335-339', ['33', d_('x', 5)]), ('340-399', ['3', d_('x', 4), b]), ('400-999', [d_('x', 4), b, c]), ('1000-9999', [d_('x', 1), b, c, d])):
        v = num(flat(ds))
        text(rep, G, 'stars ' + key, P, f, lambda r, o: [o, v], ['V', ds])
        value(rep, G, 'V' + key, P, g, lambda r: [sym(r.I, r.st, ['V', ds])], v)
        value(rep, G, 'V%s with a constellation' % key, P, g, lambda r: [sym(r.I, r.st, ['V', ds, ' Cyg'])], v)


    x = rngc('x', ord('A'), ord('Q')); value(rep, G, 'single letters A-Q', P, g, lambda r: [sym(r.I, r.st, [x])], x - K(65) + K(9201))
    x = rngc('x', ord('a'), ord('q')); value(rep, G, 'single letters a-q', P, g, lambda r: [sym(r.I, r.st, [x, ' Cen'])], x - K(97) + K(9101))
    value(rep, G, 'u', P, g, lambda r: [sym(r.I, r.st, ['u Car'])], 9101 + ord('u') - 97)
    for n in ('JK', 'AJ', 'BA', 'ZR', 'SR', 'QJ', 'xxx', 'Q1', '12'): value(rep, G, '%s is no designation' % n, P, g, lambda r: [sym(r.I, r.st, [n])], -1)

NETS = dict(zip('abcdefghijklmnopqrstuvwxyz', ['USNO-A1', 'USNO-SA1', 'USNO-A2', 'USNO-SA2', 'UCAC-1', 'Tycho-1', 'Tycho-2', 'GSC-1.0', 'GSC-1.1', 'GSC-1.2', 'GSC-2.2', 'ACT', 'GSC-ACT', 'SDSS-DR8', 'USNO-B1', 'PPM', 'UCAC-4', 'UCAC-2', 'USNO-B2', 'PPMXL', 'UCAC-3', 'NOMAD', 'CMC-14', 'HIP-2', 'HIP-1', 'GSC-?']))
NETS.update({'A': 'AC', 'B': 'SAO 1984', 'C': 'SAO', 'D': 'AGK 3', 'E': 'FK4', 'F': 'ACRS', 'G': 'Lick Gaspra Catalogue', 'H': 'Ida93 Catalogue', 'I': 'Perth 70', 'J': 'COSMOS/UKST Southern Sky Catalogue', 'K': 'Yale', 'L': '2MASS', 'M': 'GSC-2.3', 'N': 'SDSS-DR7', 'O': 'SST-RC1', 'P': 'MPOSC3', 'Q': 'CMC-15', 'R': 'SST-RC4', 'S': 'URAT-1', 'T': 'URAT-2', 'U': 'Gaia-DR1', 'V': 'Gaia-DR2', 'W': 'Gaia-DR3', 'X': 'Gaia-EDR3', 'Y': 'UCAC-5', 'Z': 'ATLAS-2'})
def net_codes(rep, P):
    f = core.need(P, 'byte_code_to_net_name'); g = core.need(P, 'net_name_to_byte_code')
    G = 'astrometric catalogue codes'
    for c, n in NETS.items():
        with guard(rep, G, n, where(f)):
            r = Run(P); p = r.call(f, K(ord(c)))
            s = show(chars(r.I, r.st, p)) if isinstance(p, Ptr) and p.obj is not None else None
            rep.note_funcs(r.I); rep.add(G, s == n, 'code %s is %s' % (c, n), 'gives %s' % s, where(f))
        for v in {n, n.replace('-', ' '), n.replace('-', ''), n.upper(), n.lower() if 'DR' not in n else n} | ({n.replace('DR', '')} if n.startswith('Gaia') else set()) | ({n + '.0', n + '.0 '} if n[-1].isdigit() and '.' not in n else set()) | ({n[:-2]} if n.endswith('.0') else set()):
            value(rep, G, '"%s" is code %s' % (v, c), P, g, lambda r: [sym(r.I, r.st, [v])], ord(c))
    for c in sorted(set(range(1, 128)) - {ord(x) for x in NETS}):
        with guard(rep, G, 'unassigned', where(f)):
            r = Run(P); p = r.call(f, K(c)); rep.add(G, isinstance(p, Ptr) and p.obj is None, 'code %d is unassigned' % c, str(p), where(f))
    for v in ('Gaia-DR9', 'xyz', 'USNO-A', 'G'): value(rep, G, '"%s" is no catalogue' % v, P, g, lambda r: [sym(r.I, r.st, [v])], ord('?'))
