"""P11: the bounded text helpers never leave their buffers, always terminate, and edit text as documented."""
import core, ident, fmt
from strs import *
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR on strings of symbolic characters in buffers of exact size; every access outside the buffer is a violation'
RULE = ('one abstract call per combination of buffer size, text lengths and position of special characters; all characters are unknowns of their class; result text, return value, '
        'termination and every store offset are checked')
ASSUMPTIONS = ['text lengths and buffer sizes as enumerated (the functions look at one character at a time)']
def buf(r, size, items=None, fill=True):
    """a caller's buffer of exactly size bytes (contents: items and a terminator, the rest unknown)"""
    o = r.I.new_obj(r.st, size, 'result', 'the caller\'s buffer of %d bytes' % size); p = Ptr(o.id, ZERO)
    cs = ([fmt.pin(x) for x in flat(items)] + [ZERO]) if items is not None else []
    for i in range(size): r.I.store(r.st, Ptr(o.id, K(i)), cs[i] if i < len(cs) else rngc('old%d' % i, 1, 255 - 128), llir.Ty('int', 8), None, r.m)
    return p
def raw(r, p, n):
    out = []
    for i in range(n):
        v = r.I.load_at(r.st, r.st.mem[p.obj], i, llir.Ty('int', 8), r.m, 1)
        if not isinstance(v, Poly): raise fmt.Ambig('buffer contents')
        out.append(r.I.resolve(v, r.st))
    return out
def chars_(n, lo=33, hi=126, tag='c'): return [rngc('%s%d' % (tag, i), lo, hi) for i in range(n)]
def case(rep, G, key, P, f, mk, want, ret, ends=False, pre=None):
    """mk(r) -> (arguments, buffer pointer, size); want: characters of the whole buffer (None: anything); ends: the process must end instead"""
    site = where(f)
    def go(r):
        if pre: pre(r)
        args, p, n = mk(r)
        try: v = r.call(f, *args)
        except Imprecise as e:
            if 'no path returns' in str(e): return 'ends', None, None
            raise
        return v, raw(r, p, n) if p is not None else [], r
    with guard(rep, G, key, site):
        (v, got, _), r = attempt(P, go); rep.note_funcs(r.I)
        if ends: rep.add(G, v == 'ends', key, 'returns %s instead of ending the process' % (v,), site); return
        if v == 'ends': rep.add(G, False, key, 'the process ends', site); return
        bad = []
        for i, (g, w) in enumerate(zip(got, want)):
            if w is not None:
                ok, why = (True, '') if g == w else ident.same(g, w)
                if not ok: bad.append((ok, i))
        if ret is not None:
            ok, why = ident.same(v, ret if isinstance(ret, Poly) else K(ret))
            if not ok: bad.append((ok, 'value'))
        rep.add(G, not bad if not bad else (False if any(b[0] is False for b in bad) else None), key, 'buffer "%s" value %s; required "%s" value %s' % (show([g if g.c != 0 else K(48) for g in got]), v, show([K(63) if w is None else w for w in want]), ret), site)
def run(rep):
    P = core.program()
    thorough = rep.tier == 'thorough'
    NB = 9 if thorough else 6; NS = 10 if thorough else 7
    f = core.need(P, 'strlcpy'); fe = core.need(P, 'strlcpy_err'); g = core.need(P, 'strlcat'); ge = core.need(P, 'strlcat_err')
    G = 'bounded copy'
    for size in range(NB):
        for n in range(NS):
            s = chars_(n)
            keep = s[:max(size - 1, 0)]
            w = (keep + [ZERO] if size else []) + [None] * 20
            mk = lambda r, k=size: (lambda p: ([p, sym(r.I, r.st, s), K(k)], p, max(k, 1)))(buf(r, max(k, 1)))
            case(rep, G, 'strlcpy, %d characters into %d bytes' % (n, size), P, f, mk, w[:max(size, 1)] if size else [rngc('old0', 1, 127)], n)
            case(rep, G, 'strlcpy_err, %d characters into %d bytes' % (n, size), P, fe, mk, w[:max(size, 1)], n, ends=n >= size)
    G = 'bounded append'
    for size in range(1, NB):
        for d in range(0, min(size, 4)):
            for n in range(NS):
                s = chars_(n); t = chars_(d, tag='d')
                keep = (t + s)[:size - 1]
                mk = lambda r: (lambda p: ([p, sym(r.I, r.st, s), K(size)], p, size))(buf(r, size, t))
                case(rep, G, 'strlcat, %d characters after %d in %d bytes' % (n, d, size), P, g, mk, keep + [ZERO] + [None] * 20, d + n)
                case(rep, G, 'strlcat_err, %d characters after %d in %d bytes' % (n, d, size), P, ge, mk, keep + [ZERO] + [None] * 20, d + n, ends=d + n >= size)
    # unterminated destination: nothing is written, the size is part of the length
    for size in range(0, 4):
        s = chars_(3)
        def mk(r):
            p = buf(r, size + 1, chars_(size, tag='d')); return [p, sym(r.I, r.st, s), K(size)], p, size + 1
        case(rep, G, 'strlcat, destination already full (%d bytes)' % size, P, g, mk, chars_(size, tag='d') + [ZERO], size + 3)
    G = 'bounded formatting'
    a = core.need(P, 'snprintf_append'); e = core.need(P, 'snprintf_err')
    for size in range(1, NB):
        for n in range(NS):
            s = chars_(n)
            case(rep, G, 'snprintf_err, %d characters into %d bytes' % (n, size), P, e, lambda r: (lambda p: ([p, K(size), sym(r.I, r.st, '%s'), sym(r.I, r.st, s)], p, size))(buf(r, size)), s[:size - 1] + [ZERO] + [None] * 20, n, ends=n >= size)
            for d in range(0, min(size, 3)):
                t = chars_(d, tag='d')
                case(rep, G, 'snprintf_append, %d characters after %d in %d bytes' % (n, d, size), P, a, lambda r: (lambda p: ([p, K(size), sym(r.I, r.st, '%s'), sym(r.I, r.st, s)], p, size))(buf(r, size, t)), (t + s)[:size - 1] + [ZERO] + [None] * 20, d + n, ends=d + n >= size)
    replace(rep, P)
    angles(rep, P)
    urls(rep, P)
    rep.minimum = 300

def replace(rep, P):
    f = core.need(P, 'text_search_and_replace')
    G = 'search and replace'
    low = lambda n, t: [rngc('%s%d' % (t, i), ord('a'), ord('m')) for i in range(n)]       # never part of the searched text
    for old in ('X', 'XY', 'XYZ', 'XX'):
        for nl in (0, 1, 2, 3, 4):
            new = chars_(nl, tag='n')
            for shape in ('', 'a', '*', '*a', 'a*', 'aa*aa', '**', '*a*', 'a**a', '***', 'a*aa*a*', 'Xa', 'aX', 'aX*', '*Xa') if len(old) > 1 else ('', 'a', '*', 'a*', '*a', '**', 'a*a*a', '***'):
                txt = []; res = []; k = 0
                if old == 'XX' and 'X' in shape: continue
                if old != 'XX' and len(old) > 1 and 'X*' in shape and old[0] == old[-1]: continue
                for c in shape:
                    if c == '*': txt += flat(old); res += new; k += 1
                    elif c == 'X': txt += flat('X'); res += flat('X')
                    else: v = low(1, 'p%d' % len(txt)); txt += v; res += v
                size = max(len(txt), len(res), len(txt) + k * max(0, nl - len(old))) + 1
                case(rep, G, '"%s" -> %d characters in %r' % (old, nl, shape), P, f, lambda r: (lambda p: ([p, sym(r.I, r.st, old), sym(r.I, r.st, new)], p, size))(buf(r, size, txt)), res + [ZERO] + [None] * 40, k)
    case(rep, G, 'inserted text is not searched again', P, f, lambda r: (lambda p: ([p, sym(r.I, r.st, 'X'), sym(r.I, r.st, 'XX')], p, 8))(buf(r, 8, 'aXaX')), flat('aXXaXX') + [ZERO], 2)
    case(rep, G, 'overlapping occurrences are taken from the left', P, f, lambda r: (lambda p: ([p, sym(r.I, r.st, 'XX'), sym(r.I, r.st, 'Y')], p, 8))(buf(r, 8, 'XXXaXX')), flat('YXaY') + [ZERO], 2)
    case(rep, G, 'text shorter than the searched one', P, f, lambda r: (lambda p: ([p, sym(r.I, r.st, 'XYZ'), sym(r.I, r.st, 'abc')], p, 3))(buf(r, 3, 'XY')), flat('XY') + [ZERO], 0)

def digs(n, tag): return [d_('%s%d' % (tag, i)) for i in range(n)]
def six(tag): return [d_(tag + '0', 0, 5), d_(tag + '1')]
def angles(rep, P):
    f = core.need(P, 'output_angle_to_buff'); s = core.need(P, 'output_signed_angle_to_buff')
    eps = Poly.var(atom(('in', 'rounding'), Fr(-1, 2), Fr(49999, 100000), False, 'e'))
    def one(G, key, prec, want, units, unit, width=12):
        """units: the angle in units of the last place shown; unit: value of one of them"""
        w = flat(want); w = w + [K(32)] * (width - len(w))
        ang = (units + eps).scale(unit)
        text(rep, G, key, P, f, lambda r, o: [o, ang, K(prec)], w, None, size=width + 1)
        if prec not in range(200, 216) and prec < 400:
            lo = units + K(1)
            for sg, nm in ((1, '+'), (-1, '-')):
                text(rep, G, '%s, %s' % (key, 'signed positive' if sg > 0 else 'negative'), P, s, lambda r, o: [o, (units + eps0).scale(unit).scale(sg) if sg < 0 else (units + eps0).scale(unit), K(prec)], [nm] + w, None, size=width + 2)
    eps0 = Poly.var(atom(('in', 'rounding1'), Fr(1, 1000), Fr(49999, 100000), False, 'e1'))
    hh = [d_('h0'), d_('h1')]; hhh = [d_('h0'), d_('h1'), d_('h2')]; mm = six('m'); ss = six('s')
    G = 'angles in hours/degrees, minutes and seconds'
    for n in range(0, 10):
        fr = digs(n, 'f'); u = (num(hh).scale(3600) + num(mm).scale(60) + num(ss)).scale(10 ** n) + (num(fr) if n else ZERO)
        one(G, '%d decimals' % n, n, [hh, ' ', mm, ' ', ss] + (['.', fr] if n else []), u, Fr(1, 3600 * 10 ** n), 12 + max(0, n - 3))
    G = 'angles in hours/degrees and minutes'
    for n in range(0, 7):
        fr = digs(n, 'f'); u = (num(hh).scale(60) + num(mm)).scale(10 ** n) + (num(fr) if n else ZERO)
        one(G, '%d decimals' % n, -1 - n, [hh, ' ', mm] + (['.', fr] if n else []), u, Fr(1, 60 * 10 ** n))
    G = 'angles run together'
    for n in range(1, 7):
        fr = digs(n, 'f'); u = (num(hh).scale(3600) + num(mm).scale(60) + num(ss)).scale(10 ** n) + num(fr)
        one(G, '%d decimals' % n, 306 + n, [hh, mm, ss, fr], u, Fr(1, 3600 * 10 ** n))
    G = 'decimal angles'
    for n in range(0, 17):
        fr = digs(n, 'f'); h = hh if n < 13 else [d_('h0', 0, 3), d_('h1')]; u = num(h).scale(10 ** n) + (num(fr) if n else ZERO)
        one(G, '%d decimals' % n, 100 + n, [h] + (['.', fr] if n else []), u, Fr(1, 10 ** n), 12 + max(0, n - 9))
    G = 'decimal right ascensions in degrees'
    for n in range(0, 16):
        fr = digs(n, 'f'); h = [d_('h0', 0, 3), d_('h1', 0, 5), d_('h2')]; u = num(h).scale(10 ** n) + (num(fr) if n else ZERO)
        one(G, '%d decimals' % n, 200 + n, [h] + (['.', fr] if n else []), u, Fr(1, 15 * 10 ** n), 12 + max(0, n - 8))
    G = 'right ascensions in degrees, minutes and seconds'
    for n in range(0, 3):
        fr = digs(n, 'f'); u = (num(hhh).scale(3600) + num(mm).scale(60) + num(ss)).scale(10 ** n) + (num(fr) if n else ZERO)
        one(G, '%d decimals' % n, 400 + n, [hhh, ' ', mm, ' ', ss] + (['.', fr] if n else []), u, Fr(1, 15 * 3600 * 10 ** n))

def urls(rep, P):
    f = core.need(P, 'get_urlencoded_form_data')
    G = 'URL-encoded form data'
    plain = lambda n, t: [rngc('%s%d' % (t, i), ord('a'), ord('z')) for i in range(n)]
    def hexc(t, cls): return rngc(t, 48, 57) if cls == 0 else rngc(t, 65, 70) if cls == 1 else rngc(t, 97, 102)
    def hv(c, cls): return c - K(48) if cls == 0 else c - K(55) if cls == 1 else c - K(87)
    def one(key, txt, name, val, ret, used, mf=30, mb=30):
        site = where(f)
        def go(r):
            fp = r.I.new_obj(r.st, mf, 'result', 'the field buffer'); bp = r.I.new_obj(r.st, mb, 'result', 'the data buffer')
            ip = r.I.new_obj(r.st, 8, 'arg', 'position'); src = sym(r.I, r.st, flat(txt))
            r.I.store(r.st, Ptr(ip.id, ZERO), src, llir.PTR, None, r.m)
            v = r.call(f, Ptr(ip.id, ZERO), Ptr(fp.id, ZERO), K(mf), Ptr(bp.id, ZERO), K(mb))
            q = r.I.load(r.st, Ptr(ip.id, ZERO), llir.PTR, None, r.m)
            return v, rd(r, Ptr(fp.id, ZERO), mf) if name is not None else None, rd(r, Ptr(bp.id, ZERO), mb) if val is not None else None, q.off - src.off
        with guard(rep, G, key, site):
            (v, a, b, off), r = attempt(P, go); rep.note_funcs(r.I)
            bad = []
            if ret is not None and not (v.c is not None and v.c == ret): bad.append('value %s' % v)
            for got, w, t in ((a, name, 'field'), (b, val, 'data')):
                if w is None: continue
                w = flat(w)
                if None in got or len(got) != len(w) or any(ident.same(x, y)[0] is not True for x, y in zip(got, w)): bad.append('%s "%s", required "%s"' % (t, show([x if x is not None else K(63) for x in got]), show(w)))
            if used is not None and off.c != used: bad.append('%s characters consumed, required %d' % (off, used))
            rep.add(G, not bad, key, '; '.join(bad), site)
    for n in range(1, 5):
        for k in range(0, 5):
            F, D_ = plain(n, 'f'), plain(k, 'v')
            one('field of %d, data of %d, last' % (n, k), [F, '=', D_], F, D_, 0, n + 1 + k)
            one('field of %d, data of %d, more follows' % (n, k), [F, '=', D_, '&x=1'], F, D_, 0, n + 2 + k)
            one('field of %d, data of %d, end of line' % (n, k), [F, '=', D_, '\r\n'], F, D_, 0, None)
    one('blank', ['a=', plain(1, 'v'), '+', plain(1, 'w'), '&'], 'a', [plain(1, 'v'), ' ', plain(1, 'w')], 0, 6)
    for c1 in (0, 1, 2):
        for c2 in (0, 1, 2):
            x, y = hexc('x', c1), hexc('y', c2)
            if c1 == 0: x = rngc('x', 50, 55)
            else: continue
            one('escape, hexadecimal digits of class %d, %d' % (c1, c2), ['a=', plain(1, 'v'), '%', x, y, plain(1, 'w'), '&'], 'a', [plain(1, 'v'), hv(x, c1).scale(16) + hv(y, c2), plain(1, 'w')], 0, 8)
    one('escaped separators are data', 'a%3D=b%26%3D&', 'a=', 'b&=', 0, 13)
    for key, t in (('no digits', 'a=b%zz&'), ('one digit', 'a=b%4&c=1'), ('at the end', 'a=b%'), ('in the field', 'a%q=b&')): one('invalid escape, ' + key, t, None, None, -1, None)
    one('no field', 'abc', None, None, -1, None); one('empty', '', None, None, -1, None)
    for mb in (1, 2, 3, 6):
        for n in range(0, 8):
            D_ = plain(n, 'v'); one('data of %d into %d bytes' % (n, mb), ['a=', D_], 'a', D_[:mb - 1], 1 if n >= mb else 0, None, mb=mb)
            one('field of %d into %d bytes' % (n, mb), [D_, '=b'], D_ if n < mb else D_[:mb - 1], 'b' if n < mb else None, 0 if n < mb else -1, None, mf=mb)
