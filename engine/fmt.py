"""Exact models of string conversion and formatting on strings of symbolic characters.

A string is a list of character values (integers 0..127 as polynomials). Each function below is exact when the class of every character it
inspects (digit, sign, blank, terminator) follows from its range; otherwise it raises Ambig, and the caller falls back to an unknown result."""
from poly import *
import poly as PL
from absint import *
import absint as AI
import libmodel as LM
from fractions import Fraction
L = AI.llir
class Ambig(Imprecise): pass
STRICT = [False]      # True: an ambiguous conversion is reported instead of being approximated

def isin(I, st, c, *ranges):
    """is the character in one of the ranges?  True / False / None"""
    lo, hi = I.rng(c, st)
    allin = False; any_ = False
    for a, b in ranges:
        if a <= lo and hi <= b: allin = True
        if not (hi < a or lo > b): any_ = True
    if allin: return True
    if not any_: return False
    if c.c is None and len(ranges) > 1 and not allin:
        # covered by the union?
        x = lo
        for a, b in sorted(ranges):
            if a <= x <= b: x = b + 1
        if x > hi: return True
    return None
DIG = (48, 57); WS = ((9, 13), (32, 32))
def must(v, what):
    if v is None: raise Ambig('character class of %s not decided' % what)
    return v

def chars(I, st, p, limit=2000, n=None):
    """characters from p up to (not including) the terminator; [None] marks an unreadable tail"""
    if not (isinstance(p, Ptr) and isinstance(p.obj, int)): raise Ambig('string pointer')
    off = I.rng(p.off, st)
    if off[0] != off[1]: raise Ambig('string offset')
    out = []
    for i in range(limit if n is None else min(n, limit)):
        o = st.mem[p.obj]; k = int(off[0]) + i
        if o.size is not None and k >= o.size: raise Ambig('string runs past its object')
        v = I.load_at(st, o, k, L.I8, I.prog.modules[0], 1)
        if not isinstance(v, Poly): raise Ambig('string contents')
        v = I.resolve(v, st)
        z = I.rng(v, st)
        if z == (0, 0): return out
        if z[0] <= 0 <= z[1] and v not in st.ne:
            raise Ambig('terminator')
        out.append(v)
    if n is not None: return out
    raise Ambig('string too long')

def decdigits(I, st, v, what='%d'):
    """decimal digit characters of a nonnegative integer whose number of digits follows from its range"""
    lo, hi = I.rng(v, st)
    if v.c is not None: return [K(ord(x)) for x in str(int(v.c))]
    if lo < 0: raise Ambig('sign of a number')
    n = len(str(int(hi)))
    if len(str(int(lo))) != n: raise Ambig('number of digits of %r in %s..%s' % (v, lo, hi))
    return fixdigits(I, st, v, n)
def fixdigits(I, st, v, n):
    out = []; cur = v
    for k in range(n):
        if k == n - 1:
            out.append(K(48) + cur); break
        q = I.idiv(cur, 10, st, 'floor')
        if q is None:
            X, R = ZERO, cur            # take whole tens out
            if all(isinstance(c, int) or c.denominator == 1 for c in cur.t.values()):
                X = Poly({m: int(c) // 10 for m, c in cur.t.items() if int(c) // 10}); R = cur - X.scale(10)
                if I.rng(R, st)[0] < 0:
                    X = Poly({m: int(c) // 10 for m, c in cur.t.items() if m and int(c) // 10}); R = cur - X.scale(10)
                    if I.rng(R, st)[0] < 0: X, R = ZERO, cur
            lo, hi = I.rng(R, st)
            d = Poly.var(atom(('div', R, 10), int(lo) // 10, int(hi) // 10, True)) if hi >= 10 else ZERO
            r = Poly.var(atom(('rem', R, 10), 0, 9, True)) if hi >= 10 else R
            q = (X + d, r)
        out.append(K(48) + q[1]); cur = q[0]
    return out[::-1]

def fmt_items(fm):
    import re
    r = []; i = 0
    while i < len(fm):
        if fm[i] != 37:
            r.append(fm[i]); i += 1; continue
        q = re.match(rb'%([-+ 0#]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|L|z|j|t|q)?(.)', fm[i:], re.S)
        if not q: raise Ambig('format')
        r.append((q.group(1).decode(), (q.group(2) or b'').decode(), None if q.group(3) is None else q.group(3).decode(), (q.group(4) or b'').decode(), q.group(5).decode()))
        i += q.end()
    return r

def render(I, st, fm, args):
    """characters printf would produce"""
    out = []; args = list(args)
    def nxt():
        if not args: raise Ambig('missing argument')
        return args.pop(0)
    for it in fmt_items(fm):
        if isinstance(it, int): out.append(K(it)); continue
        flags, w, prec, mod, cv = it
        if cv == '%': out.append(K(37)); continue
        def num(s):
            if s == '*':
                c = I.as_poly(nxt(), 32).c
                if c is None: raise Ambig('* width')
                return int(c)
            return int(s) if s else 0
        w = num(w)
        if prec is not None: prec = num(prec)
        if w < 0: flags += '-'; w = -w
        neg_ = False; body = None
        if cv in 'diu':
            bits = {'hh': 8, 'h': 16}.get(mod, 64 if mod in ('l', 'll', 'z', 'j', 't', 'q') else 32)
            v = I.as_poly(nxt(), bits); lo, hi = I.rng(v, st)
            if lo == hi: v = K(lo)
            if cv == 'u' and lo < 0:
                if v.c is None: raise Ambig('%u of a negative')
                v = K(int(v.c) & ((1 << bits) - 1)); lo = hi = v.c
            if hi < 0: neg_ = True; v = -v
            elif lo < 0: raise Ambig('sign of a number')
            lo, hi = I.rng(v, st)
            z = prec if prec is not None else (w - (1 if neg_ or '+' in flags or ' ' in flags else 0) if '0' in flags and '-' not in flags else 0)
            if z and hi < 10 ** z: body = fixdigits(I, st, v, z) if v.c is None else [K(ord(x)) for x in str(int(v.c)).zfill(z)]
            else: body = decdigits(I, st, v)
            sg = [K(45)] if neg_ else [K(43)] if '+' in flags else [K(32)] if ' ' in flags else []
            body = sg + body
        elif cv in 'xX':
            v = I.as_poly(nxt(), 32)
            if v.c is None: raise Ambig('%x')
            body = [K(ord(x)) for x in ('%' + cv) % (int(v.c) & 0xffffffff)]
        elif cv == 'c':
            v = I.as_poly(nxt(), 32); body = [v]
        elif cv == 's':
            p = nxt()
            if isinstance(p, PSet): raise Ambig('%s of several strings')
            body = chars(I, st, p, n=prec)
        elif cv in 'fF':
            v = nxt()
            if not isinstance(v, Poly): raise Ambig('%f')
            p = 6 if prec is None else prec
            lo, hi = I.rng(v, st)
            if lo == -INF or hi == INF: raise Ambig('%f of an unbounded value')
            if hi < 0: neg_ = True; v = -v; lo, hi = -hi, -lo
            elif lo < 0: raise Ambig('sign of %f')
            N = roundint(I, st, v.scale(Fraction(10) ** p))
            lo, hi = I.rng(N, st)
            ip = I.idiv(N, 10 ** p, st, 'floor') if p else (N, ZERO)
            if ip is None:
                ip = (Poly.var(atom(('div', N, 10 ** p), int(lo) // 10 ** p, int(hi) // 10 ** p, True)), Poly.var(atom(('rem', N, 10 ** p), 0, 10 ** p - 1, True)))
            sg = [K(45)] if neg_ else [K(43)] if '+' in flags else [K(32)] if ' ' in flags else []
            z = (w - len(sg) - (p + 1 if p else 0)) if '0' in flags else 0
            h2 = I.rng(ip[0], st)[1]
            a = fixdigits(I, st, ip[0], z) if z > 0 and h2 < 10 ** z else decdigits(I, st, ip[0])
            body = sg + a + ([K(46)] + fixdigits(I, st, ip[1], p) if p else [])
        else: raise Ambig('conversion %%%s' % cv)
        pad = [K(32)] * max(0, w - len(body))
        out += body + pad if '-' in flags else pad + body
    return out
def roundint(I, st, v):
    """nearest integer of a nonnegative value"""
    if v.isint(): return v
    lo, hi = I.rng(v, st)
    if v.c is not None: return K(int(round(v.c)))
    f = I.floor(v + K(Fraction(1, 2)), st)
    return f

def put(I, st, p, cs, n, ins, m):
    """write at most n-1 characters and the terminator"""
    if n is not None:
        if n <= 0: return
        w = cs[:n - 1]
    else: w = cs
    for i, c in enumerate(w + [ZERO]): I.store(st, Ptr(p.obj, p.off + K(i)), c, L.I8, ins, m)

def va_of(I, st, p):
    if isinstance(p, Ptr) and isinstance(p.obj, int):
        c = st.mem[p.obj].cells.get(int(p.off.c)) if p.off.c is not None else None
        if c and isinstance(c[1], Agg): return list(c[1].v)
    raise Ambig('va_list')

def do_printf(I, st, dst, n, fmp, args, ins, m):
    try:
        fm = LM.cstring(I, st, fmp)
        if fm is None: raise Ambig('format string not constant')
        cs = render(I, st, fm, args)
    except Ambig:
        if STRICT[0]: raise
        I.havoc(st, dst)
        for a in args: pass
        return st, fresh('printf', -1, SMAX[32], True)
    if dst is not None:
        if not (isinstance(dst, Ptr) and isinstance(dst.obj, int)):
            I.havoc(st, dst)
        else:
            nn = None
            if n is not None:
                lo, hi = I.rng(n, st)
                if hi < 0 or lo < 0: nn = None
                elif lo == hi: nn = int(lo)
                elif lo > len(cs): nn = None
                else:
                    if STRICT[0]: raise Ambig('buffer size')
                    I.havoc(st, dst); return st, K(len(cs))
            put(I, st, dst, cs, nn, ins, m)
    return st, K(len(cs))

def m_snprintf(I, st, a, ins, m): return do_printf(I, st, a[0], I.as_poly(a[1], 64), a[2], a[3:], ins, m)
def m_sprintf(I, st, a, ins, m): return do_printf(I, st, a[0], None, a[1], a[2:], ins, m)
def m_vsnprintf(I, st, a, ins, m):
    try: va = va_of(I, st, a[3])
    except Ambig:
        if STRICT[0]: raise
        I.havoc(st, a[0]); return st, fresh('printf', -1, SMAX[32], True)
    return do_printf(I, st, a[0], I.as_poly(a[1], 64), a[2], va, ins, m)
def m_vsprintf(I, st, a, ins, m):
    try: va = va_of(I, st, a[2])
    except Ambig:
        if STRICT[0]: raise
        I.havoc(st, a[0]); return st, fresh('printf', -1, SMAX[32], True)
    return do_printf(I, st, a[0], None, a[1], va, ins, m)
def m_va_start(I, st, a, ins, m):
    v = st.env.get('...')
    if isinstance(a[0], Ptr) and isinstance(a[0].obj, int) and v is not None:
        o = st.wobj(a[0].obj); I.kill(o, int(a[0].off.c), 24); o.cells[int(a[0].off.c)] = (24, v)
    return st, UNDEF

def num_prefix(I, st, cs, isfloat, width=None):
    """(value, characters used) of the number at the start of cs (after blanks)"""
    i = 0; n = len(cs)
    def at(k): return cs[k] if k < n else ZERO
    while must(isin(I, st, at(i), *WS), 'a blank'): i += 1
    start = i; lim = n if width is None else min(n, start + width)
    def at2(k): return cs[k] if k < lim else ZERO
    sg = 1
    c = at2(i)
    if c.c is not None:
        if c.c in (43, 45): sg = -1 if c.c == 45 else 1; i += 1
    elif must(isin(I, st, c, (43, 43), (45, 45)), 'a sign'): raise Ambig('sign')
    v = ZERO; nd = 0
    while must(isin(I, st, at2(i), DIG), 'a digit'):
        v = v.scale(10) + at2(i) - K(48); i += 1; nd += 1
    if isfloat:
        if at2(i).c is None:
            if isin(I, st, at2(i), (46, 46)) is None: raise Ambig('a point')
        elif at2(i).c == 46:
            j = i + 1; sc = Fraction(1, 10); nf = 0
            while must(isin(I, st, at2(j), DIG), 'a digit'):
                v = v + (at2(j) - K(48)).scale(sc); sc /= 10; j += 1; nf += 1
            if nd or nf: i = j; nd += nf
        if nd:
            e = isin(I, st, at2(i), (69, 69), (101, 101))
            if e is None: raise Ambig('an exponent')
            if e:
                j = i + 1; es = 1
                if at2(j).c in (43, 45): es = -1 if at2(j).c == 45 else 1; j += 1
                ev = 0; k = j
                while must(isin(I, st, at2(k), DIG), 'a digit'):
                    if at2(k).c is None: raise Ambig('exponent')
                    ev = ev * 10 + int(at2(k).c) - 48; k += 1
                if k > j: v = v.scale(Fraction(10) ** (es * ev)); i = k
        elif at2(start).c is None or chr(int(at2(i).c)) in 'iInN':
            if must(isin(I, st, at2(i), (105, 105), (73, 73), (110, 110), (78, 78)), 'inf/nan'): raise Ambig('inf/nan')
    if not nd: return None, 0, start
    return v.scale(sg), i, start

def m_atoi(I, st, a, ins, m):
    bits = ins.ty.a if ins is not None else 32
    try:
        v, k, _ = num_prefix(I, st, chars(I, st, a[0]), False)
    except Ambig:
        if STRICT[0]: raise
        return st, fresh('atoi', SMIN[bits], SMAX[bits], True)
    if v is None: return st, ZERO
    lo, hi = I.rng(v, st)
    if lo < SMIN[bits] or hi > SMAX[bits]:
        if v.c is not None: return st, K(wrap(int(v.c), bits))
        if STRICT[0]: raise Ambig('atoi overflow')
        return st, fresh('atoi', SMIN[bits], SMAX[bits], True)
    return st, v
OLD_ATOF = LM.MODELS['atof']
def m_atof(I, st, a, ins, m):
    try: v, k, _ = num_prefix(I, st, chars(I, st, a[0]), True)
    except Ambig:
        if STRICT[0]: raise
        return OLD_ATOF(I, st, a, ins, m)
    if len(a) > 1 and isinstance(a[1], Ptr) and a[1].obj is not None: I.store(st, a[1], Ptr(a[0].obj, a[0].off + K(k)), L.PTR, ins, m)
    return st, (ZERO if v is None else v)
def m_strtol(I, st, a, ins, m):
    bits = ins.ty.a
    try:
        b = I.as_poly(a[2], 32).c
        if b != 10: raise Ambig('base')
        v, k, _ = num_prefix(I, st, chars(I, st, a[0]), False)
    except Ambig:
        if STRICT[0]: raise
        if isinstance(a[1], Ptr) and isinstance(a[1].obj, int): I.store(st, a[1], Unk('endp'), L.PTR, ins, m)
        return st, fresh('strtol', SMIN[bits], SMAX[bits], True)
    if isinstance(a[1], Ptr) and a[1].obj is not None: I.store(st, a[1], Ptr(a[0].obj, a[0].off + K(k)), L.PTR, ins, m)
    return st, (ZERO if v is None else v)

def lower(I, st, p):
    if p.c is not None: return K(ord(chr(int(p.c) & 255).lower()))
    z = isin(I, st, p, (65, 90))
    if z is None: raise Ambig('case')
    return p + K(32) if z else p
OLD_CMP = LM.MODELS['strcmp']
def mk_cmp(kind):
    def h(I, st, a, ins, m):
        try:
            n = None
            if len(a) > 2:
                c = I.as_poly(a[2], 64).c
                if c is None: raise Ambig('count')
                n = int(c)
            def rd(p):
                if kind == 'memcmp':
                    r = []
                    o = st.mem[p.obj]; off = int(p.off.c)
                    for i in range(n):
                        if o.size is not None and off + i >= o.size: raise Ambig('size')
                        v = I.load_at(st, o, off + i, L.I8, I.prog.modules[0], 1); o = st.mem[p.obj]
                        if not isinstance(v, Poly): raise Ambig('contents')
                        r.append(v)
                    return r
                # lazily: stop at the first unreadable character
                r = []
                off = int(p.off.c); i = 0
                while n is None or i < n:
                    o = st.mem[p.obj]
                    if o.size is not None and off + i >= o.size: r.append(None); break
                    v = I.load_at(st, o, off + i, L.I8, I.prog.modules[0], 1)
                    if not isinstance(v, Poly): r.append(None); break
                    r.append(v)
                    if I.rng(v, st) == (0, 0): break
                    i += 1
                    if i > 2000: r.append(None); break
                return r
            if not all(isinstance(p, Ptr) and isinstance(p.obj, int) and p.off.c is not None for p in a[:2]): raise Ambig('pointer')
            x, y = rd(a[0]), rd(a[1])
            may = []       # possibly-different positions before the first certain difference
            for i in range(max(len(x), len(y))):
                p, q = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
                if p is None or q is None: raise Ambig('compare')
                if kind in ('strcasecmp', 'strncasecmp'):
                    p, q = lower(I, st, p), lower(I, st, q)
                d = I.rng(p - q, st)
                if d == (0, 0):
                    if I.rng(p, st) == (0, 0) and kind != 'memcmp': break
                    continue
                if d[0] > 0: return st, (ONE if not may else nz(st))
                if d[1] < 0: return st, (K(-1) if not may else nz(st))
                if (p - q) in st.ne or (q - p) in st.ne: return st, nz(st)
                may.append(p - q)
            if not may: return st, ZERO
            if len(may) == 1: return st, may[0]       # sign and zeroness of the comparison
            raise Ambig('compare')
        except Ambig:
            if STRICT[0]: raise
            return OLD_CMP(I, st, a, ins, m)
        except TypeError:
            return OLD_CMP(I, st, a, ins, m)
    def nz(st):
        v = fresh('strcmp', -255, 255, True); st.ne = st.ne | {v}      # different strings, order unknown
        return v
    return h

def m_strstr(I, st, a, ins, m):
    try:
        x, y = chars(I, st, a[0]), chars(I, st, a[1])
        for i in range(len(x) - len(y) + 1):
            r = True
            for p, q in zip(x[i:], y):
                d = I.rng(p - q, st)
                if d == (0, 0): continue
                if d[0] > 0 or d[1] < 0: r = False; break
                r = None
            if r is None: raise Ambig('strstr')
            if r: return st, Ptr(a[0].obj, a[0].off + K(i))
        return st, NULL
    except Ambig:
        if STRICT[0]: raise
        A = fresh('found', 0, 1, True)
        p = a[0]
        if not (isinstance(p, Ptr) and isinstance(p.obj, int)): return st, Unk('strstr')
        mx = LM.strlen_rng(I, st, p)[1]
        return st, PSet([(Cond('ne', A), Ptr(p.obj, p.off + fresh('strstr', 0, mx if mx != INF else SMAX[64], True))), (Cond('eq', A), NULL)])
OLD_CHR = LM.MODELS['strchr']
def m_strchr(I, st, a, ins, m):
    if LM.cstring(I, st, a[0]) is not None: return OLD_CHR(I, st, a, ins, m)
    try:
        x = chars(I, st, a[0]); c = I.as_poly(a[1], 32)
        for i, p in enumerate(x + [ZERO]):
            d = I.rng(p - c, st)
            if d == (0, 0): return st, Ptr(a[0].obj, a[0].off + K(i))
            if d[0] <= 0 <= d[1]: raise Ambig('strchr')
        return st, NULL
    except Ambig:
        if STRICT[0]: raise
        return OLD_CHR(I, st, a, ins, m)

OLD_SCAN = LM.MODELS['sscanf']
def m_sscanf(I, st, a, ins, m):
    try:
        fm = LM.cstring(I, st, a[1])
        if fm is None: raise Ambig('format')
        if LM.cstring(I, st, a[0], 5000) is not None: return OLD_SCAN(I, st, a, ins, m)
        s = chars(I, st, a[0]); items = LM.scan_items(fm)
        outs = list(a[2:]); pos = 0; n = 0; pend = []
        def at(k): return s[k] if k < len(s) else ZERO
        def skip():
            nonlocal pos
            while pos < len(s) and must(isin(I, st, s[pos], *WS), 'a blank'): pos += 1
        ok = True
        for it in items:
            if it[0] == 'ws': skip(); continue
            if it[0] == 'lit':
                e = isin(I, st, at(pos), (it[1][0], it[1][0]))
                if must(e, 'a literal') is False: ok = False; break
                pos += 1; continue
            _, sup, w, mods, cv, full = it
            if cv == 'n':
                p = outs.pop(0); pend.append((p, K(pos), L.Ty('int', 32 if not mods else 64))); continue
            if cv not in 'c[': skip()
            if pos >= len(s): ok = False; break
            if cv in 'du':
                v, k, st0 = num_prefix(I, st, s[pos:], False, w or None)
                if v is None: ok = False; break
                pos += k; t = L.Ty('int', {'hh': 8, 'h': 16, 'l': 64, 'll': 64}.get(mods, 32))
            elif cv in 'feg':
                v, k, st0 = num_prefix(I, st, s[pos:], True, w or None)
                if v is None: ok = False; break
                pos += k; t = L.DBL if mods == 'l' else L.Ty('x86_fp80') if mods == 'L' else L.Ty('float')
            elif cv in 'cs':
                if cv == 'c': seg = s[pos:pos + (w or 1)]; pos += len(seg)
                else:
                    e = pos
                    while e < len(s) and (not w or e - pos < w) and not must(isin(I, st, s[e], *WS), 'a blank'): e += 1
                    seg = s[pos:e]; pos = e
                if not sup:
                    p = outs.pop(0); n += 1
                    for i, c in enumerate(seg + ([ZERO] if cv == 's' else [])): pend.append((Ptr(p.obj, p.off + K(i)), c, L.I8))
                continue
            else: raise Ambig('conversion')
            if not sup: pend.append((outs.pop(0), v, t)); n += 1
        for p, v, t in pend: I.store(st, p, v, t, ins, m)
        return st, K(n if n or ok or pos < len(s) else -1)
    except Ambig:
        if STRICT[0]: raise
        return OLD_SCAN(I, st, a, ins, m)

def strz(I, st, p):
    """characters of a string that must be terminated inside its object"""
    return chars(I, st, p, 5000)
def copier(kind):
    def h(I, st, a, ins, m):
        try:
            src = strz(I, st, a[1]) if kind != 'strncpy' and kind != 'strncat' else None
            if src is None:
                c = I.as_poly(a[2], 64).c
                if c is None: raise Ambig('count')
                src = []; off = a[1].off
                for i in range(int(c)):
                    v = I.load(st, Ptr(a[1].obj, off + K(i)), L.I8, ins, m)
                    if not isinstance(v, Poly): raise Ambig('contents')
                    z = I.rng(v, st)
                    if z == (0, 0): break
                    if z[0] <= 0 <= z[1] and v not in st.ne: raise Ambig('terminator')
                    src.append(v)
                if kind == 'strncpy': src = src + [ZERO] * (int(c) - len(src))
            at = a[0].off + (K(len(strz(I, st, a[0]))) if 'cat' in kind else ZERO)
            if kind != 'strncpy': src = src + [ZERO]
            for i, c in enumerate(src): I.store(st, Ptr(a[0].obj, at + K(i)), c, L.I8, ins, m)
            return st, (a[0] if not kind.startswith('stp') else Ptr(a[0].obj, at + K(len(src) - 1)))
        except (Ambig, AttributeError):
            if STRICT[0]: raise
            I.havoc(st, a[0]); return st, a[0]
    return h
def m_strrchr(I, st, a, ins, m):
    try:
        x = strz(I, st, a[0]) + [ZERO]; c = I.as_poly(a[1], 32)
        for i in range(len(x) - 1, -1, -1):
            d = I.rng(x[i] - c, st)
            if d == (0, 0): return st, Ptr(a[0].obj, a[0].off + K(i))
            if d[0] <= 0 <= d[1]: raise Ambig('strrchr')
        return st, NULL
    except Ambig:
        if STRICT[0]: raise
        return st, Unk('strrchr')
def span(kind):
    def h(I, st, a, ins, m):
        try:
            x, y = strz(I, st, a[0]), strz(I, st, a[1])
            rs = []
            for c in y:
                if c.c is None: raise Ambig('set')
                rs.append((int(c.c), int(c.c)))
            rs.sort(); mr = []
            for lo, hi in rs:
                if mr and lo <= mr[-1][1] + 1: mr[-1] = (mr[-1][0], max(hi, mr[-1][1]))
                else: mr.append((lo, hi))
            i = 0
            while i < len(x):
                e = must(isin(I, st, x[i], *mr), 'a member') if mr else False
                if e != (kind == 'strspn'): break
                i += 1
            if kind == 'strpbrk': return st, (Ptr(a[0].obj, a[0].off + K(i)) if i < len(x) else NULL)
            return st, K(i)
        except Ambig:
            if STRICT[0]: raise
            return st, (Unk('strpbrk') if kind == 'strpbrk' else fresh(kind, 0, SMAX[64], True))
    return h
def install():
    M = LM.MODELS
    for k in ('strcpy', 'strcat', 'strncpy', 'strncat', 'stpcpy'): M[k] = copier(k)
    M['strrchr'] = m_strrchr
    for k in ('strspn', 'strcspn', 'strpbrk'): M[k] = span(k)
    M['snprintf'] = m_snprintf; M['sprintf'] = m_sprintf; M['vsnprintf'] = m_vsnprintf; M['vsprintf'] = m_vsprintf
    M['llvm.va_start'] = M['llvm.va_start.p0'] = m_va_start
    M['atoi'] = M['atol'] = M['atoll'] = m_atoi
    M['atof'] = M['strtod'] = M['strtold'] = M['strtof'] = m_atof
    M['strtol'] = m_strtol
    for k in ('strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strncasecmp'): M[k] = mk_cmp(k)
    M['strstr'] = m_strstr; M['strchr'] = m_strchr
    for k in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'): M[k] = m_sscanf
    return M
# ---- building symbolic strings
PIN = {}              # unknowns replaced by a constant (refinement of a template)
def pin(v): return subst(v, {a: K(PIN[a]) for a in v.atoms() if a in PIN}) if PIN and isinstance(v, Poly) else v
def sym(I, st, items, size=None, name='str'):
    """an object holding the characters (ints, 1-character strings, strings or polynomials) and a terminator; returns its pointer"""
    cs = []
    for x in items:
        if isinstance(x, str): cs += [K(ord(c)) for c in x]
        elif isinstance(x, int): cs.append(K(x))
        elif isinstance(x, list):
            for y in x: cs += [K(ord(c)) for c in y] if isinstance(y, str) else [y]
        else: cs.append(x)
    o = I.new_obj(st, size or len(cs) + 1, 'str', name)
    m = I.prog.modules[0]
    for i, c in enumerate(cs + [ZERO]): I.store(st, Ptr(o.id, K(i)), pin(c), L.I8, None, m)
    return Ptr(o.id, ZERO)
