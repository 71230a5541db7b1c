"""Models of libc/libm functions for the abstract interpreter."""
import math
from fractions import Fraction
from poly import *
import poly as PL
from absint import *
import absint as AI

MODELS = {}
OVERRIDE = set()
def model(*names):
    def d(fn):
        for n in names: MODELS[n] = fn
        return fn
    return d

def F(v): return v if isinstance(v, Poly) else fresh('f')

def un(name, lo=-INF, hi=INF):
    def h(I, st, a, ins, m):
        return st, Poly.var(atom((name, F(a[0])), lo, hi))
    return h

@model('sin', 'sinl', 'sinf')
def m_sin(I, st, a, ins, m): return st, sincos(F(a[0]))[0]
@model('cos', 'cosl', 'cosf')
def m_cos(I, st, a, ins, m): return st, sincos(F(a[0]))[1]
@model('tan', 'tanl')
def m_tan(I, st, a, ins, m):
    s, c = sincos(F(a[0])); return st, s * inv(c)
@model('sqrt', 'sqrtl', 'sqrtf', 'llvm.sqrt.f64')
def m_sqrt(I, st, a, ins, m):
    p = F(a[0])
    r = I.rng(p, st)
    I.ev('dom', ins, what='sqrt', lo=r[0], hi=r[1], arg=p)
    v = sqrt_(p)
    if r[0] >= 0 and r[0] != INF and v.c is None:
        l = Fraction(math.sqrt(r[0]) * (1 - 1e-12))
        I._fact(st, v, l, Fraction(math.sqrt(r[1]) * (1 + 1e-12)) if r[1] != INF else INF)
    return st, v
@model('fabs', 'fabsl', 'llvm.fabs.f64', 'llvm.fabs.f80')
def m_fabs(I, st, a, ins, m):
    p = F(a[0]); lo, hi = I.rng(p, st)
    if lo >= 0: return st, p
    if hi <= 0: return st, -p
    if p.t[min(p.t)] < 0: p = -p
    A = atom(('abs', p), 0, INF)
    v = Poly.var(A)
    mx = max(abs(lo), abs(hi))
    if mx != INF: I._fact(st, v, 0, mx)
    return st, v
@model('abs', 'labs', 'llvm.abs.i32', 'llvm.abs.i64')
def m_abs(I, st, a, ins, m):
    p = I.as_poly(a[0], 32); lo, hi = I.rng(p, st)
    if lo >= 0: return st, p
    if hi <= 0: return st, -p
    return st, Poly.var(atom(('abs', p), 0, max(abs(lo), abs(hi)), True))
@model('floor', 'floorl', 'llvm.floor.f64', 'llvm.floor.f80')
def m_floor(I, st, a, ins, m): return st, I.floor(F(a[0]), st)
@model('ceil', 'ceill', 'llvm.ceil.f64')
def m_ceil(I, st, a, ins, m): return st, -I.floor(-F(a[0]), st)
@model('fmod', 'fmodl')
def m_fmod(I, st, a, ins, m): return st, I.fmod(F(a[0]), F(a[1]), st)
PIQ = Fraction(math.pi)
@model('atan2', 'atan2l')
def m_atan2(I, st, a, ins, m):
    y, x = F(a[0]), F(a[1])
    if y.c == 0 and x.c is not None and x.c > 0: return st, ZERO
    if PL.REDUCE[0] and len(y.t) == 1 and len(x.t) == 1:      # k sin u, k cos u with k > 0 and u within a half turn
        (my, cy), = y.t.items(); (mx, cx), = x.t.items()
        for b, q in my:
            k = ATOMS[b].key
            if k[0] != 'sin' or q != 1: continue
            c = ('cos', k[1]); c = PL._byk.get(c)
            if c is None or (c.id, 1) not in mx: continue
            if tuple(z for z in my if z[0] != b) != tuple(z for z in mx if z[0] != c.id) or cx <= 0 or abs(cy) != cx: continue
            kf = Poly({tuple(z for z in mx if z[0] != c.id): cx})
            lo, hi = PL.prng(k[1])
            if PL.prng(kf)[0] >= 0 and -PIQ < lo and hi < PIQ: return st, (k[1] if cy > 0 else -k[1])
    return st, Poly.var(atom(('atan2', y, x), -PIQ, PIQ))
@model('asin', 'asinl')
def m_asin(I, st, a, ins, m):
    p = F(a[0]); r = I.rng(p, st); I.ev('dom', ins, what='asin', lo=r[0], hi=r[1], arg=p)
    if p.c == 0: return st, ZERO
    if PL.REDUCE[0]:
        lo, hi = PL.prng(p); e = Fraction(1, 10**9); sg = 1
        if p.t[min(p.t)] < 0: p = -p; sg = -1; lo, hi = -hi, -lo
        l = Fraction(math.asin(max(-1, min(1, float(lo))))) - e if lo < 0 else Fraction(math.asin(min(1, float(lo)))); h = Fraction(math.asin(max(-1, min(1, float(hi))))) + e if hi > 0 else Fraction(math.asin(max(-1, float(hi))))
        return st, Poly.var(atom(('asin', p), max(l, -PIQ / 2), min(h, PIQ / 2))).scale(sg)
    return st, Poly.var(atom(('asin', p), -PIQ / 2, PIQ / 2))
@model('acos', 'acosl')
def m_acos(I, st, a, ins, m):
    p = F(a[0]); r = I.rng(p, st); I.ev('dom', ins, what='acos', lo=r[0], hi=r[1], arg=p)
    if p.c == 1: return st, ZERO
    return st, Poly.var(atom(('acos', p), 0, PIQ))
MODELS['atan'] = un('atan', -PIQ / 2, PIQ / 2)
MODELS['exp'] = un('exp', 0, INF)
for n in ('tanh', 'cbrt'): MODELS[n] = un(n)
@model('sinh')
def m_sinh(I, st, a, ins, m):
    p = F(a[0])
    if p.c == 0: return st, ZERO
    sg = -1 if PL.REDUCE[0] and p.t[min(p.t)] < 0 else 1
    p = p.scale(sg)
    return st, Poly.var(atom(('sinh', p), *(PL._mono('sinh', p) if PL.REDUCE[0] else (-INF, INF)))).scale(sg)
@model('cosh')
def m_cosh(I, st, a, ins, m):
    p = F(a[0])
    if p.c == 0: return st, ONE
    if PL.REDUCE[0] and p.t[min(p.t)] < 0: p = -p
    return st, Poly.var(atom(('cosh', p), 1, INF))
@model('asinh')
def m_asinh(I, st, a, ins, m):
    p = F(a[0])
    if p.c == 0: return st, ZERO
    if len(p.t) == 1:
        (mo, c), = p.t.items()
        if abs(c) == 1 and len(mo) == 1 and mo[0][1] == 1 and ATOMS[mo[0][0]].key[0] == 'sinh': return st, ATOMS[mo[0][0]].key[1].scale(c)
    return st, Poly.var(atom(('asinh', p)))
def mlog(nm):
    def h(I, st, a, ins, m):
        p = F(a[0]); r = I.rng(p, st); I.ev('dom', ins, what='log', lo=r[0], hi=r[1], arg=p)
        return st, Poly.var(atom((nm, p)))
    return h
for n in ('log', 'log10', 'logl'): MODELS[n] = mlog(n)
@model('pow', 'powl')
def m_pow(I, st, a, ins, m):
    p, q = F(a[0]), F(a[1])
    if q.c is not None and q.c == int(q.c) and 0 <= q.c < 20: return st, p ** int(q.c)
    return st, Poly.var(atom(('pow', p, q)))
@model('hypot')
def m_hypot(I, st, a, ins, m):
    p, q = F(a[0]), F(a[1]); return st, sqrt_(p * p + q * q)

# ---- memory
def nbytes(I, st, p):
    c = p.c
    if c is not None: return int(c)
    lo, hi = I.rng(p, st)
    return int(lo) if lo == hi else None

def singles(p):
    return p if isinstance(p, Ptr) and isinstance(p.obj, int) else None

@model('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.p0.p0.i32')
def m_memcpy(I, st, a, ins, m):
    d, s = a[0], a[1]
    n = I.as_poly(a[2], 64)
    nb = nbytes(I, st, n)
    if I.track_oob:
        hi = I.rng(n, st)[1]
        for q, w in ((d, 'memcpy-dst'), (s, 'memcpy-src')):
            for p in ([q] if isinstance(q, Ptr) else [x for _, x in q.ps] if isinstance(q, PSet) else []):
                if isinstance(p.obj, int) and hi > 0: I.chk(st, p, hi, ins, w)
                elif p.obj is None and hi > 0: I.ev('null', ins, what=w)
    dp, sp = singles(d), singles(s)
    if dp is None:
        I.havoc(st, d); return st, d
    if nb is None or sp is None:
        lo, hi = I.rng(dp.off, st); n_hi = I.rng(n, st)[1]
        o = st.wobj(dp.obj)
        if lo not in (INF, -INF) and n_hi != INF and hi != INF:
            # weak: clear region
            srcs = None
            for k in [k for k, x in o.cells.items() if k < hi + n_hi and lo < k + x[0]]: del o.cells[k]
            if o.base != 'unknown':
                # keep cells outside the region
                if o.size is not None and o.size <= 4096:
                    for k in range(int(max(lo, 0)), int(min(hi + n_hi, o.size))): o.cells[k] = (1, fresh('cpy', -128, 127, True))
                else: o.base = 'unknown'
        else: o.cells = {}; o.base = 'unknown'
        return st, d
    dl, dh = I.rng(dp.off, st); sl, sh = I.rng(sp.off, st)
    if dl != dh or sl != sh or dl in (INF, -INF):
        if sl == sh and dl == dh: pass
        o = st.wobj(dp.obj)
        if dl not in (INF, -INF) and dh not in (INF, -INF) and dh - dl + nb <= 4096:
            lo2, hi2 = max(dl, 0), dh + nb
            if o.size is not None: hi2 = min(hi2, o.size)
            for k in [k for k, x in o.cells.items() if k < hi2 and lo2 < k + x[0]]: del o.cells[k]
            for k in range(int(lo2), int(hi2)): o.cells[k] = (1, fresh('cpy', -128, 127, True))
        else: o.cells = {}; o.base = 'unknown'
        return st, d
    dl, sl = int(dl), int(sl)
    so = st.mem[sp.obj]
    if so.size is not None and (sl < 0 or sl + nb > so.size): nb2 = max(0, min(nb, so.size - sl)) if sl >= 0 else 0
    else: nb2 = nb
    out = []
    if isinstance(so.base, tuple) and so.base[0] == 'init' and not so.cells and nb2 > 0:
        g = so.base[1]
        # leaf granularity
        k = 0
        while k < nb2:
            r = I.init_leaf(g.module, g.init, g.ty, sl + k, 1)
            if r and r[0] == 'leaf' and r[2] == 0:
                ls = g.module.sizeof(r[1][1])
                if k + ls <= nb2:
                    out.append((k, ls, I.constv(st, g.module, r[1][0]))); k += ls; continue
            if r and r[0] == 'zero':
                out.append((k, 1, ZERO)); k += 1; continue
            v = I.init_read(st, g, sl + k, AI.llir.I8)
            out.append((k, 1, v if v is not None else fresh('cpy', -128, 127, True))); k += 1
    elif isinstance(so.base, tuple) and so.base[0] == 'sym' and so.base[2]:
        es = so.base[2]; ty = so.base[3]
        k = 0
        while k < nb2:
            c = so.cells.get(sl + k)
            if c is not None: out.append((k, c[0], c[1])); k += c[0]
            elif k + es <= nb2: out.append((k, es, I.load_at(st, so, sl + k, ty, m, es))); k += es
            else: out.append((k, 1, fresh('cpy', -128, 127, True))); k += 1
    else:
        k = 0
        while k < nb2:
            c = so.cells.get(sl + k)
            if c is not None and k + c[0] <= nb2: out.append((k, c[0], c[1])); k += c[0]
            else:
                if so.base == 'zero': out.append((k, 1, ZERO))
                elif so.base == 'undef': out.append((k, 1, UNDEF))
                elif isinstance(so.base, tuple) or so.cells:
                    v = I.load_at(st, so, sl + k, AI.llir.I8, m, 1); so = st.mem[sp.obj]
                    out.append((k, 1, v))
                else:
                    # unknown contents: copy lazily as 8-byte blocks if aligned
                    step = 8 if (nb2 - k) >= 8 else 1
                    v = I.load_at(st, so, sl + k, AI.llir.I8, m, 1) if step == 1 else None
                    if step == 8:
                        key = ('cpy8', so.id, sl + k, PL._cnt[0]); PL._cnt[0] += 1
                        out.append((k, 8, fresh('cpy8')))
                    else: out.append((k, 1, v))
                    so = st.mem[sp.obj]
                    k += step; continue
                k += 1
    o = st.wobj(dp.obj)
    lim = o.size if o.size is not None else None
    for k, sz, v in out:
        off = dl + k
        if lim is not None and off + sz > lim: break
        I.kill(o, off, sz)
        if v is UNDEF: o.cells.pop(off, None); 
        else: o.cells[off] = (sz, v)
        if v is UNDEF and o.base != 'undef': o.cells[off] = (sz, UNDEF)
    return st, d
@model('memset', 'llvm.memset.p0.i64', 'llvm.memset.p0.i32')
def m_memset(I, st, a, ins, m):
    d = a[0]; n = I.as_poly(a[2], 64); nb = nbytes(I, st, n)
    v = I.as_poly(a[1], 8)
    if v.c is not None: v = K(wrap(int(v.c), 8))
    if I.track_oob and isinstance(d, Ptr) and isinstance(d.obj, int) and I.rng(n, st)[1] > 0: I.chk(st, d, I.rng(n, st)[1], ins, 'memset')
    dp = singles(d)
    if dp is None: I.havoc(st, d); return st, d
    lo, hi = I.rng(dp.off, st)
    if nb is None or lo != hi:
        o = st.wobj(dp.obj)
        nh = I.rng(n, st)[1]
        if lo != -INF and hi != INF and nh != INF and hi + nh - lo < 5000:
            for x in range(int(max(lo, 0)), int(hi + nh) if o.size is None else int(min(hi + nh, o.size))):
                c = o.cells.get(x)
                I.weak(st, o, x, x + 1, v, 1, K(x))
        else: o.cells = {}; o.base = 'unknown'
        return st, d
    o = st.wobj(dp.obj); off = int(lo)
    if off == 0 and o.size == nb and v.c == 0: o.cells = {}; o.base = 'zero'; return st, d
    if o.size is not None: nb = max(0, min(nb, o.size - off))
    for k in [k for k, x in o.cells.items() if k < off + nb and off < k + x[0]]:
        if not (off <= k and k + o.cells[k][0] <= off + nb): I.kill(o, off, nb); break
    for k in [k for k, x in o.cells.items() if k < off + nb and off < k + x[0]]: del o.cells[k]
    for i in range(off, off + nb): o.cells[i] = (1, v)
    return st, d

@model('malloc', 'calloc', '_Znwm', '_Znam')
def m_malloc(I, st, a, ins, m):
    n = I.as_poly(a[0], 64)
    if len(a) > 1: n = n * I.as_poly(a[1], 64)
    c = n.c
    o = I.new_obj(st, int(c) if c is not None else None, 'heap', 'heap@%s' % I.stack[-1].module.line(ins.dbg), 'zero' if len(a) > 1 else 'undef')
    A = Poly.var(atom(('alloc', o.id), 0, 1, True))
    return st, PSet([(Cond('ne', A), Ptr(o.id, ZERO)), (Cond('eq', A), NULL)])
@model('free', '_ZdlPv')
def m_free(I, st, a, ins, m): return st, UNDEF

@model('__assert_fail', 'abort', 'exit', '_exit', '__assert_rtn', '__cxa_throw')
def m_abort(I, st, a, ins, m):
    I.ev('abort', ins, pc=st.pc, args=a)
    return None

# ---- character classes (C locale, as used by the library)
def cls(pred):
    lst = [c for c in range(-128, 256) if pred(c)]
    def h(I, st, a, ins, m):
        p = I.as_poly(a[0], 32); lo, hi = I.rng(p, st)
        if p.c is not None: return st, (ONE if pred(int(p.c)) else ZERO)
        # ranges
        rs = []
        for c in lst:
            if rs and rs[-1][1] == c - 1: rs[-1][1] = c
            else: rs.append([c, c])
        cond = FALSE
        for l, h2 in rs: cond = cor(cond, cand(cmp_cond('le', K(l) - p), cmp_cond('le', p - K(h2))))
        return st, I.as_poly(cond)
    return h
MODELS['isdigit'] = cls(lambda c: 48 <= c <= 57)
MODELS['isupper'] = cls(lambda c: 65 <= c <= 90)
MODELS['islower'] = cls(lambda c: 97 <= c <= 122)
MODELS['isalpha'] = cls(lambda c: 65 <= c <= 90 or 97 <= c <= 122)
MODELS['isalnum'] = cls(lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122)
MODELS['isspace'] = cls(lambda c: c == 32 or 9 <= c <= 13)
@model('toupper')
def m_toupper(I, st, a, ins, m):
    p = I.as_poly(a[0], 32)
    c = cand(cmp_cond('le', K(97) - p), cmp_cond('le', p - K(122)))
    d = I.decide(c, st)
    if d is True: return st, p - K(32)
    if d is False: return st, p
    return st, I.joinv(p - K(32), p, c, st, st)
@model('tolower')
def m_tolower(I, st, a, ins, m):
    p = I.as_poly(a[0], 32)
    c = cand(cmp_cond('le', K(65) - p), cmp_cond('le', p - K(90)))
    d = I.decide(c, st)
    if d is True: return st, p + K(32)
    if d is False: return st, p
    return st, I.joinv(p + K(32), p, c, st, st)

def cstring(I, st, p, limit=400):
    """the exact constant string at p, or None"""
    if not (isinstance(p, Ptr) and isinstance(p.obj, int) and p.off.c is not None): return None
    o = st.mem[p.obj]; out = bytearray()
    for i in range(limit):
        off = int(p.off.c) + i
        if o.size is not None and off >= o.size: return None
        v = I.load_at(st, o, off, AI.llir.I8, I.prog.modules[0], 1)
        o = st.mem[p.obj]
        if not isinstance(v, Poly) or v.c is None: return None
        if v.c == 0: return bytes(out)
        out.append(int(v.c) & 255)
    return None
def strlen_rng(I, st, p):
    """(min,max) string length at p; max None if no terminator is certain"""
    if not (isinstance(p, Ptr) and isinstance(p.obj, int)): return (0, INF)
    lo, hi = I.rng(p.off, st)
    if lo != hi:
        o = st.mem[p.obj]
        return (0, (o.size - 1 - max(lo, 0)) if o.size is not None else INF)
    o = st.mem[p.obj]; mn = None; off = int(lo); i = 0
    while True:
        if o.size is not None and off + i >= o.size: return (mn if mn is not None else i, INF)
        if i > 5000: return (mn or 0, INF)
        v = I.load_at(st, o, off + i, AI.llir.I8, I.prog.modules[0], 1); o = st.mem[p.obj]
        if isinstance(v, Poly):
            r = I.rng(v, st)
            if r == (0, 0): return (mn if mn is not None else i, i)
            if r[0] <= 0 <= r[1] and mn is None and v not in st.ne: mn = i
        elif mn is None: mn = i
        if o.size is None and o.base == 'unknown' and i > 300: return (mn or 0, INF)
        i += 1
@model('strlen')
def m_strlen(I, st, a, ins, m):
    mn, mx = strlen_rng(I, st, a[0])
    if mn == mx: return st, K(mn)
    if mx == INF and I.track_oob: I.ev('oob', ins, what='strlen', obj='?', size=None, lo=0, hi=INF, sz=1)
    return st, fresh('strlen', mn, mx if mx != INF else SMAX[64], True)
@model('strcmp', 'strncmp', 'memcmp', 'strcasecmp')
def m_strcmp(I, st, a, ins, m):
    n = None
    if len(a) > 2:
        c = I.as_poly(a[2], 64).c
        n = int(c) if c is not None else None
    x, y = cstring(I, st, a[0]), cstring(I, st, a[1])
    if x is not None and y is not None and (len(a) == 2 or n is not None):
        if n is not None: x, y = (x + b'\0')[:n], (y + b'\0')[:n]
        return st, K((x > y) - (x < y))
    return st, fresh('strcmp', SMIN[32], SMAX[32], True)
@model('strchr')
def m_strchr(I, st, a, ins, m):
    s = cstring(I, st, a[0]); c = I.as_poly(a[1], 32)
    if s is not None:
        if c.c is not None:
            i = (s + b'\0').find(bytes([int(c.c) & 255]))
            return st, (NULL if i < 0 else Ptr(a[0].obj, a[0].off + K(i)))
        lo, hi = I.rng(c, st)
        ps = []; tot = FALSE
        for i, ch in enumerate(s + b'\0'):
            cv = ch - 256 if ch > 127 else ch
            if (s + b'\0').index(bytes([ch])) != i: continue
            e = cmp_cond('eq', c - K(cv))
            if I.decide(e, st) is False: continue
            tot = cor(tot, e); ps.append(i)
        if not ps: return st, NULL
        off = a[0].off + (K(ps[0]) if len(ps) == 1 else fresh('strchr', ps[0], ps[-1], True))
        if I.decide(tot, st) is True: return st, Ptr(a[0].obj, off)
        return st, PSet([(tot, Ptr(a[0].obj, off)), (neg(tot), NULL)])
    if isinstance(a[0], Ptr) and isinstance(a[0].obj, int):
        mn, mx = strlen_rng(I, st, a[0])
        if mx == INF and I.track_oob: I.ev('oob', ins, what='strchr', obj='?', size=None, lo=0, hi=INF, sz=1)
        A = fresh('found', 0, 1, True)
        mxx = mx if mx != INF else SMAX[63 + 1]
        return st, PSet([(Cond('ne', A), Ptr(a[0].obj, a[0].off + fresh('strchr', 0, mxx, True))), (Cond('eq', A), NULL)])
    return st, Unk('strchr')
@model('atoi', 'atol')
def m_atoi(I, st, a, ins, m):
    s = cstring(I, st, a[0])
    bits = ins.ty.a
    if s is not None:
        import re
        q = re.match(rb'\s*([-+]?[0-9]+)', s)
        return st, K(wrap(int(q.group(1)), bits) if q else 0)
    return st, fresh('atoi', SMIN[bits], SMAX[bits], True)
@model('atof', 'strtod')
def m_atof(I, st, a, ins, m):
    if len(a) > 1 and isinstance(a[1], Ptr) and a[1].obj is not None:
        p = a[0]
        if isinstance(p, Ptr) and isinstance(p.obj, int):
            mn, mx = strlen_rng(I, st, p)
            I.store(st, a[1], Ptr(p.obj, p.off + fresh('endp', 0, mx if mx != INF else SMAX[64], True)), AI.llir.PTR, ins, m)
        else: I.store(st, a[1], Unk('endp'), AI.llir.PTR, ins, m)
    return st, fresh('atof')

PURE = {'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fclose', 'fflush', 'fseek', 'ftell', 'feof', 'getenv', 'setvbuf', 'fopen', 'time', 'perror', 'ungetc', 'fgetc', 'getc', 'rewind', 'remove', 'rename', 'unlink', 'system', 'atexit', 'isatty', 'clock'}
def external(I, st, name, args, ins, m):
    if name not in PURE:
        for a in args: I.havoc(st, a)
    if name.startswith('isfinite') or name in ('finite',): return st, ONE
    return st, I.unknown(ins.ty, name, m)
def intrinsic(I, st, name, args, ins, m):
    if name.startswith('llvm.is.fpclass'): return st, TRUE
    if name.startswith(('llvm.va_', 'llvm.stack', 'llvm.lifetime', 'llvm.dbg', 'llvm.assume')): return st, I.unknown(ins.ty, name, m)
    if name.startswith('llvm.trap'): return None
    if name.startswith('llvm.fmuladd'): return st, F(args[0]) * F(args[1]) + F(args[2])
    for p in ('smax', 'smin', 'umax', 'umin'):
        if name.startswith('llvm.' + p):
            a, b = I.as_poly(args[0]), I.as_poly(args[1])
            c = cmp_cond('le', a - b)
            x, y = (b, a) if p.endswith('max') else (a, b)
            d = I.decide(c, st)
            return st, x if d else y if d is False else I.joinv(x, y, c, st, st)
    return st, I.unknown(ins.ty, name, m)

# ---- sscanf on constant strings (anything else: outputs become unknown)
import re as _re
_NUM = _re.compile(rb'[+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)')
_INT = _re.compile(rb'[+-]?\d+')
def scan_items(fmt):
    """[(kind, ...)]: ('ws',), ('lit',c), ('conv', suppressed, width, mods, conv, set)"""
    r = []; i = 0
    while i < len(fmt):
        c = fmt[i:i + 1]
        if c.isspace(): r.append(('ws',)); i += 1; continue
        if c != b'%': r.append(('lit', c)); i += 1; continue
        q = _re.match(rb'%(\*?)(\d*)(hh|h|ll|l|L|z|j|t|q)?(\[\^?\]?[^\]]*\]|.)', fmt[i:])
        if not q: return None
        if q.group(4) == b'%': r.append(('ws',)); r.append(('lit', b'%'))
        else: r.append(('conv', bool(q.group(1)), int(q.group(2) or 0), (q.group(3) or b'').decode(), q.group(4)[:1].decode(), q.group(4)))
        i += q.end()
    return r
@model('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')
def m_sscanf(I, st, a, ins, m):
    s, fm = cstring(I, st, a[0], 5000), cstring(I, st, a[1])
    L = AI.llir
    if fm is None:
        for p in a[2:]: I.havoc(st, p)
        return st, fresh('sscanf', -1, 50, True)
    items = scan_items(fm)
    outs = a[2:]; oi = 0
    def oty(mods, cv):
        if cv in 'diuoxXn': return L.Ty('int', {'hh': 8, 'h': 16, 'l': 64, 'll': 64, 'z': 64, 'j': 64, 't': 64, 'q': 64}.get(mods, 32))
        if cv in 'fegEG': return L.DBL if mods == 'l' else (L.Ty('x86_fp80') if mods == 'L' else L.Ty('float'))
        return None
    if s is None:
        n = 0
        for it in items:
            if it[0] != 'conv' or it[1]: continue
            if oi >= len(outs): break
            p = outs[oi]; oi += 1
            if it[4] != 'n': n += 1
            t = oty(it[3], it[4])
            if t is None:
                w = it[2] + (0 if it[4] == 'c' else 1) if it[2] else None
                if it[4] == 'c' and not it[2]: w = 1
                if I.track_oob:
                    for q in ([p] if isinstance(p, Ptr) else []):
                        if isinstance(q.obj, int):
                            if w is None:
                                mx = strlen_rng(I, st, a[0])[1]
                                I.chk(st, q, mx + 1 if mx != INF else INF, ins, 'sscanf-%s' % it[4])
                            else: I.chk(st, q, w, ins, 'sscanf-%s' % it[4])
                I.havoc(st, p); continue
            old = I.load(st, p, t, ins, m) if isinstance(p, Ptr) and isinstance(p.obj, int) else None
            I.store(st, p, I.unknown(t, 'scan', m), t, ins, m)
        return st, fresh('sscanf', -1, n, True)
    pos = 0; n = 0
    def skip():
        nonlocal pos
        while pos < len(s) and s[pos:pos + 1].isspace(): pos += 1
    for it in items:
        if it[0] == 'ws': skip(); continue
        if it[0] == 'lit':
            if s[pos:pos + 1] != it[1]: return st, K(n if n or pos < len(s) else -1)
            pos += 1; continue
        _, sup, w, mods, cv, full = it
        if cv == 'n':
            t = oty(mods, 'n'); I.store(st, outs[oi], K(pos), t, ins, m); oi += 1; continue
        if cv not in 'c[': skip()
        if pos >= len(s): return st, K(n if n else -1)
        lim = s[pos:pos + w] if w else s[pos:]
        v = None
        if cv in 'fegEG':
            q = _NUM.match(lim)
            if not q:
                if lim[:1].lower() in (b'i', b'n') or lim[1:2].lower() in (b'i', b'n'): return st, fresh('sscanf', -1, 50, True)
                return st, K(n)
            x = float(q.group(0)); pos += q.end()
            v = K(Fraction(x)) if x not in (math.inf, -math.inf) else K(Fraction(10) ** 309 * (1 if x > 0 else -1))
            t = oty(mods, cv)
            if t.k == 'float':
                import struct
                v = K(Fraction(struct.unpack('f', struct.pack('f', x))[0]))
        elif cv in 'diux':
            q = (_re.compile(rb'[+-]?(?:0[xX])?[0-9a-fA-F]+') if cv == 'x' else _INT).match(lim)
            if not q: return st, K(n)
            t = oty(mods, cv); v = K(wrap(int(q.group(0), 16 if cv == 'x' else 10), t.a)); pos += q.end()
        else:
            if cv == 's': q = _re.match(rb'\S+', lim)
            elif cv == 'c': q = _re.match(rb'(?s).{%d}' % (w or 1), lim)
            else: q = _re.match(_re.sub(rb'\\', rb'\\\\', full) + rb'+', lim)
            if not q: return st, K(n)
            b = q.group(0); pos += q.end()
            if not sup:
                p = outs[oi]; oi += 1; n += 1
                bb = b + (b'' if cv == 'c' else b'\0')
                for i, ch in enumerate(bb):
                    I.store(st, Ptr(p.obj, p.off + K(i)), K(wrap(ch, 8)), L.I8, ins, m) if isinstance(p, Ptr) else None
                if not isinstance(p, Ptr): I.havoc(st, p)
            continue
        if not sup:
            I.store(st, outs[oi], v, t, ins, m); oi += 1; n += 1
    return st, K(n)
