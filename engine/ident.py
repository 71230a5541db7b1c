"""Equality of abstract values: proof by polynomial normal form, refutation by a witness valuation.

same(v, w): True  - the normal form of v-w is 0 (coefficients up to `tol` are rounding of source constants)
            False - the two value terms differ at a valuation of their unknowns (the violation is genuine for that valuation)
            None  - neither (recorded as undecided, never an alarm)"""
import math, random, os, struct
from fractions import Fraction
from poly import *
import poly as PL
import absint as AI

class NoVal(Exception): pass

CUSTOM = {}     # name of an atom -> function of the values of its arguments
HASHED = {'jd', 'phase', 'day0', 'latitude', 'height'}
def hash_args(k, env, memo):
    import zlib
    s = []
    for x in k: s.append('%.9g' % nev(x, env, memo) if isinstance(x, Poly) else repr(x))
    return zlib.crc32('|'.join(s).encode()) / 2.0**32

def leaves(p):
    r = set()
    for a in p.deep_atoms():
        k = ATOMS[a].key
        if not any(True for _ in PL.key_polys(k)): r.add(a)
    return r

def ncond(c, env, memo):
    o = c.op
    if o == 'true': return True
    if o == 'false': return False
    if o == 'and': return ncond(c.a, env, memo) and ncond(c.b, env, memo)
    if o == 'or': return ncond(c.a, env, memo) or ncond(c.b, env, memo)
    v = nev(c.p, env, memo)
    return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0, 'ne': v != 0}[o]

def nev(p, env, memo=None):
    """value of a polynomial; exact (int / Fraction) as long as its atoms are"""
    memo = {} if memo is None else memo
    r = 0
    for m, c in p.t.items():
        x = c
        for a, q in m:
            y = nat(a, env, memo)
            if isinstance(x, Fraction) and isinstance(y, float): x = float(x)
            if q < 0:
                if y == 0: raise NoVal('division by zero')
                d = y ** (-q)
                x = x / d if isinstance(x, float) or isinstance(d, float) else Fraction(x) / d
            elif isinstance(y, Fraction) and isinstance(x, float): x = x * float(y) ** q
            else: x = x * y ** q
        r = float(r) + x if isinstance(x, float) else r + (float(x) if isinstance(r, float) else x)
    return r

def nat(a, env, memo):
    if a in env: return env[a]
    if a in memo: return memo[a]
    k = ATOMS[a].key; f = k[0]
    e = lambda i: nev(k[i], env, memo)
    try:
        if f == 'pi': v = math.pi
        elif f in ('sin', 'cos', 'sqrt', 'exp', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'log', 'log10'): v = getattr(math, f)(e(1))
        elif f == 'logl': v = math.log(e(1))
        elif f in ('asin', 'acos'):
            x = e(1); v = getattr(math, f)(max(-1., min(1., x)) if abs(x) < 1 + 1e-9 else x)
        elif f == 'cbrt': v = math.copysign(abs(e(1)) ** (1 / 3), e(1))
        elif f == 'abs': v = abs(e(1))
        elif f == 'atan2': v = math.atan2(e(1), e(2))
        elif f == 'pow': v = math.pow(e(1), e(2))
        elif f == 'alias': v = e(1)
        elif f == 'floor': v = math.floor(e(1))
        elif f == 'trunc': v = math.trunc(e(1))
        elif f == 'fptosi': v = math.trunc(e(1))
        elif f == 'fmod':
            x, y = e(1), e(2)
            v = math.fmod(x, y) if isinstance(x, float) or isinstance(y, float) or not y else x - y * math.trunc(Fraction(x) / y)
        elif f == 'rem': x, n = int(e(1)), (k[2] if not isinstance(k[2], Poly) else int(e(2))); v = int(math.fmod(x, n))
        elif f == 'div': x, n = int(e(1)), (k[2] if not isinstance(k[2], Poly) else int(e(2))); v = abs(x) // abs(n) * (1 if (x >= 0) == (n > 0) else -1)
        elif f == 'ite':
            x = ncond(k[1], env, memo)
            v = nev(k[2] if x else k[3], env, memo)
        elif f == 'alloc': v = 1
        elif f == 'zext':
            x = e(1) if isinstance(k[1], Poly) else int(ncond(k[1], env, memo)); v = int(x) & ((1 << k[2]) - 1)
        elif f == 'byteof':
            x = e(1); raw = (int(x) & ((1 << 8 * k[2]) - 1)).to_bytes(k[2], 'little') if k[1].isint() else struct.pack('<d' if k[2] == 8 else '<f', x); v = AI.wrap(raw[k[3]], 8)
        elif f == 'bytes':
            raw = bytes(int(e(i)) & 255 for i in range(2, len(k)))
            v = AI.wrap(int.from_bytes(raw, 'little'), 8 * len(raw)) if k[1] == 'i' else struct.unpack('<d' if k[1] == 'd' else '<f', raw)[0]
            if v != v or abs(v) > 1e300: raise NoVal('not a number')
        elif f == 'low': v = int(e(1)) % k[2]
        elif f == 'fdiv2': v = int(e(1)) // k[2]
        elif f == 'and': v = int(e(1)) & int(k[2])
        elif f == 'wrap':
            v = AI.wrap(int(e(2)), k[1])
        elif f in CUSTOM: v = CUSTOM[f](*[e(i) for i in range(1, len(k))])
        elif f in HASHED:       # an uninterpreted function of its arguments: equal arguments give equal values
            h = hash_args(k, env, memo); lo, hi = ATOMS[a].lo, ATOMS[a].hi
            lo, hi = max(-100000., float(lo)), min(5000000., float(hi))
            v = lo + (hi - lo) * h
            if ATOMS[a].isint: v = min(int(math.floor(hi)), max(int(math.ceil(lo)), int(v)))
        else: raise NoVal(f)
    except (ValueError, OverflowError, ZeroDivisionError) as x: raise NoVal(str(x))
    memo[a] = v
    return v

def sample(atoms, n=10, seed=None, spread=2.0, special=None):
    """deterministic valuations of the leaf atoms inside their bounds: random ones, then the corners of the box and random corners"""
    rnd = random.Random(seed if seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1))
    out = []
    B = {}
    for a in sorted(atoms):
        A = ATOMS[a]
        if A.key[0] == 'pi' or special and a in special: continue
        lo, hi = A.lo, A.hi
        if A.isint:
            l = int(lo) if lo != -INF else -50; h = int(hi) if hi != INF else max(l + 1, 50)
            if lo == -INF and hi != INF: l = int(hi) - 100
            if h - l > 10**7 and lo != -INF and lo < 0 < hi: l, h = -1000, 1000
        else:
            l = lo if lo != -INF else (-spread if hi == INF or hi > -spread else hi - spread)
            h = hi if hi != INF else (spread if l < spread else l + spread)
            l, h = Fraction(l), Fraction(h)
        B[a] = (l, h)
    def pick(a, t):         # t: fraction of the way
        l, h = B[a]
        if ATOMS[a].isint: return l if t < .1 else h if t > .9 else rnd.randint(l, h)
        return l + (h - l) * Fraction(1 + int(t * 48), 50)
    for i in range(n + 60):
        env = {}
        c = i - n
        for a in sorted(atoms):
            if ATOMS[a].key[0] == 'pi': continue
            if special and a in special: env[a] = special[a](rnd); continue
            if i < n: env[a] = rnd.randint(*B[a]) if ATOMS[a].isint else B[a][0] + (B[a][1] - B[a][0]) * Fraction(rnd.randint(1, 9999), 10000)
            elif c < 4: env[a] = pick(a, c & 1 if ATOMS[a].isint else c >> 1)
            else: env[a] = pick(a, rnd.choice((0, 0, 1, 1, .5)))
        out.append(env)
    return out

def differ(v, w, tol=1e-9, envs=None, n=10, spread=2.0, special=None, mod=None):
    """a witness valuation where v and w differ, or None; raises NoVal when the terms cannot be evaluated anywhere"""
    at = leaves(v) | leaves(w)
    for a in at:
        if ATOMS[a].key[0] in ('fresh', 'phi', 'w', 'ld', 'pcmp', 'addr', 'p2i'): raise NoVal('opaque')
    err = None; got = []
    for env in (envs if envs is not None else sample(at, n, spread=spread, special=special)):
        try:
            memo = {}
            x, y = nev(v, env, memo), nev(w, env, memo)
        except NoVal as e: err = e; continue
        d = x - y
        if mod: d = math.remainder(d, mod)
        if abs(d) > tol * max(1.0, abs(x), abs(y)): return env, x, y
        got.append((abs(float(d)), env, x, y, memo))
    if not got: raise err or NoVal('no valuation')
    # quantities that are small throughout: relative to their own size, and beyond the cancellation in their sums
    size = max(max(abs(float(y)) for _, _, _, y, _ in got), max(abs(float(x)) for _, _, x, _, _ in got) * 1e-3)
    if 0 < size < 1 and not mod:
        for d, env, x, y, memo in got:
            if d > tol * size and d > 1e-11 * max(gross(v, env, memo), gross(w, env, memo)): return env, x, y
    return None
def gross(p, env, memo):
    """sum of the absolute values of the terms"""
    r = 0.
    for m, c in p.t.items():
        x = abs(float(c))
        for a, q in m: x *= abs(float(nat(a, env, memo))) ** q
        r += x
    return r
def mag(p):
    """the largest term over the ranges of its atoms"""
    r = 0.
    for m, c in p.t.items():
        x = abs(float(c))
        for a, q in m:
            A = ATOMS[a]; hi = max(abs(float(A.lo)), abs(float(A.hi)))
            if q < 0: hi = min(abs(float(A.lo)), abs(float(A.hi))) if A.lo > 0 or A.hi < 0 else 1.
            if not 0 < hi < 1e30: hi = 1.
            x *= hi ** q
        r = max(r, x)
    return r

_cm = {}
_near = {}
def near(p):
    """a representative of p: polynomials over the same monomials whose coefficients agree to 1e-11 are one value"""
    if not p.t or len(p.t) > 400: return p
    sup = frozenset(p.t); m0 = min(sup)
    x, e = math.frexp(float(p.t[m0])); h = int(x * 10**7)
    for k in (h - 1, h, h + 1):
        for q in _near.get((sup, e, k), ()):
            if all(abs(c - q.t[m]) <= 1e-11 * max(abs(c), abs(q.t[m])) for m, c in p.t.items()): return q
    _near.setdefault((sup, e, h), []).append(p)
    return p
def canon(p):
    """pi replaced by its value and coefficients rounded to 12 significant digits, inside function arguments too"""
    r = ZERO
    for m, c in p.t.items():
        t = K(c)
        for a, q in m:
            v = canon_atom(a)
            if q > 0: t = t * v ** q
            else:
                iv = PL.inv(v)
                for _ in range(-q): t = t * iv
        r = r + t
    return Poly({m: PL._q(rnd(c)) for m, c in r.t.items() if rnd(c)})
def rnd(c, d=12):
    if c == 0: return 0
    if isinstance(c, int) and abs(c) < 10**12: return c
    return Fraction('%.*e' % (d - 1, float(c)))
def trig(fn, p):
    """sin/cos with the sign of the variable part normalised and multiples of pi/2 taken out of the constant"""
    r, c = p.split_const()
    sg = 1
    if r.t and r.t[min(r.t)] < 0: r, c, sg = -r, -c, (-1 if fn == 'sin' else 1)
    h = math.floor(float(c) * 2 / math.pi + 1e-9)
    x = Fraction(round((Fraction(c) - Fraction(h) * Fraction(math.pi) / 2) * 10**9), 10**9)
    if abs(x) < Fraction(1, 10**11): x = 0
    arg = near(r) + near(K(x))
    s, co = (Poly.var(atom(('sin', arg), -1, 1)) if arg.t else ZERO), (Poly.var(atom(('cos', arg), -1, 1)) if arg.t else ONE)
    s, co = PL._quad(s, co, h)
    v = s if fn == 'sin' else co
    return -v if sg < 0 else v
def canon_root(v):
    """a bare square root: of the representative of its argument"""
    if len(v.t) == 1:
        (m, c), = v.t.items()
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].key[0] == 'sqrt':
            A = ATOMS[m[0][0]]
            return Poly.var(atom(('sqrt', near(A.key[1])), A.lo, A.hi, A.isint)).scale(c)
    return v
def canon_atom(a):
    v = _cm.get(a)
    if v is not None: return v
    A = ATOMS[a]; k = A.key
    if k[0] == 'pi': v = K(Fraction(math.pi))
    elif any(isinstance(x, Poly) for x in k[1:]):
        k2 = tuple(near(canon(x)) if isinstance(x, Poly) else x for x in k)
        if k[0] in ('exp', 'log', 'log10', 'sinh', 'cosh', 'atan', 'pow', 'atan2', 'asin', 'acos', 'cbrt') and all(x.c is not None for x in k2[1:]):
            try: v = K(Fraction(nat(A.id, {}, {}))); _cm[a] = v; return v
            except NoVal: pass
        if k[0] in ('sin', 'cos'): v = trig(k[0], k2[1])
        elif k2 == k and not (k[0] == 'sqrt' and k2[1].c is not None and k2[1].c >= 0): v = Poly.var(A)
        elif k[0] == 'sqrt': v = canon_root(PL.sqrt_(k2[1])) if k2[1].c is None or k2[1].c < 0 else K(Fraction(math.sqrt(k2[1].c)))
        elif k[0] == 'alias': v = k2[1]
        else: v = Poly.var(atom(k2, A.lo, A.hi, A.isint))
    else: v = Poly.var(A)
    _cm[a] = v
    return v

def small(d, w, tol):
    """d is negligible beside w, whatever the scale of w"""
    g = mag(w)
    return not d.t or not 0 < g < 1e30 or mag(d) <= float(tol) * g
def same(v, w, tol=1e-12, ntol=1e-9, ctol=1e-10, exact=True, **kw):
    if not (isinstance(v, Poly) and isinstance(w, Poly)): return None, 'not a scalar value: %r' % (v,)
    if v == w: return True, 'identical'
    near_ = 0
    if any(ATOMS[a].key[0] == 'never' for a in v.deep_atoms()): return False, 'the value is never written'
    if exact:
        try:
            if is_zero(v - w, tol, max(1, maxcoef(normal(w)))):
                if small(clear(v - w), w, tol): return True, 'equal normal forms'
                near_ = 1
        except (OverflowError, RecursionError): pass
    if exact:
        try:
            a, b = canon(v), canon(w)
            d = a - b
            if d.c is not None and abs(d.c) <= ctol * max(1, abs(a.c or 0)) or is_zero(d, ctol, max(1, maxcoef(normal(b)))):
                if small(clear(d), b, ctol): return True, 'equal normal forms (constants to 12 digits)'
                near_ = 1
        except (OverflowError, RecursionError, ZeroDivisionError): pass
    try: d = differ(v, w, ntol, **kw)
    except NoVal as e: return (None, 'cannot compare: %s' % e)
    if d is None: return (True, 'equal up to rounding') if near_ else (None, 'normal forms differ but no witness found')
    env, x, y = d
    return False, 'with %s: %s instead of %s' % (', '.join('%s=%.9g' % (PL.aname(a), float(t)) for a, t in list(env.items())[:8]), x, y)
