"""Exact multivariate Laurent polynomials over interned atoms.

Every integer or real SSA value is abstracted by such a polynomial (its "value
number" modulo the ring axioms).  Atoms are interned by key, so two
computations of the same operation on equal polynomials get the same atom.
Floating point is read in ideal real arithmetic: rounding is abstracted away.
"""
from fractions import Fraction
import math

INF = float('inf')

class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'isint', 'name')
    def __init__(self, id, key, lo, hi, isint, name):
        self.id, self.key, self.lo, self.hi, self.isint, self.name = id, key, lo, hi, isint, name

ATOMS = []
_byk = {}
_cnt = [0]

def atom(key, lo=-INF, hi=INF, isint=False, name=None):
    a = _byk.get(key)
    if a is None:
        a = Atom(len(ATOMS), key, lo, hi, isint, name)
        ATOMS.append(a); _byk[key] = a
    return a

def fresh(tag, lo=-INF, hi=INF, isint=False):
    _cnt[0] += 1
    return Poly.var(atom(('fresh', tag, _cnt[0]), lo, hi, isint, '%s#%d' % (tag, _cnt[0])))

def reset():
    del ATOMS[:]; _byk.clear(); _cnt[0] = 0; NONNEG.clear(); _lead.clear(); _alias_init()

def _q(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

class Poly:
    __slots__ = ('t', '_h', '_isint')
    def __init__(self, t):
        self.t = t; self._h = None; self._isint = None
    @staticmethod
    def const(c):
        c = _q(c)
        return Poly({(): c} if c else {})
    @staticmethod
    def var(a): return Poly({((a.id, 1),): 1})
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)
    @property
    def c(self):
        """value if constant, else None"""
        t = self.t
        if not t: return 0
        if len(t) == 1 and () in t: return t[()]
        return None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __ne__(self, o): return not self == o
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __add__(self, o):
        if not o.t: return self
        if not self.t: return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v: t[m] = _q(v)
            else: t.pop(m, None)
        return Poly(t)
    def __sub__(self, o):
        if not o.t: return self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) - c
            if v: t[m] = _q(v)
            else: t.pop(m, None)
        return Poly(t)
    def scale(self, k):
        if not k: return ZERO
        return Poly({m: _q(c * k) for m, c in self.t.items()})
    def __mul__(self, o):
        if self.is_const(): return o.scale(self.c)
        if o.is_const(): return self.scale(o.c)
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mmul(m, n)
                v = t.get(k, 0) + c * d
                if v: t[k] = _q(v)
                else: t.pop(k, None)
        return Poly(t)
    def __pow__(self, n):
        r = ONE
        for _ in range(n): r = r * self
        return r
    def split_const(self):
        c = self.t.get((), 0)
        if not c: return self, 0
        t = dict(self.t); del t[()]
        return Poly(t), c
    def key(self):
        """(normalised poly without constant, scale, const): self == scale*key + const"""
        p, c = self.split_const()
        if not p.t: return p, 0, c
        lead = p.t[min(p.t)]
        if lead == 1: return p, 1, c
        return p.scale(Fraction(1, 1) / lead), lead, c
    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m: s.add(a)
        return s
    def isint(self):
        if self._isint is None:
            r = True
            for m, c in self.t.items():
                if isinstance(c, Fraction) or any(p < 0 or not ATOMS[a].isint for a, p in m): r = False; break
            self._isint = r
        return self._isint
    def deep_atoms(self, seen=None):
        """all atoms this value depends on, through the operands of atoms"""
        seen = set() if seen is None else seen
        st = list(self.atoms())
        while st:
            a = st.pop()
            if a in seen: continue
            seen.add(a)
            for p in key_polys(ATOMS[a].key):
                st.extend(p.atoms())
        return seen
    def __repr__(self):
        if not self.t: return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            s = '*'.join(('%s' % aname(a)) + ('^%d' % p if p != 1 else '') for a, p in m)
            cc = c if isinstance(c, int) else float(c)
            out.append(('%s' % cc if not s else s if c == 1 else '%s*%s' % (cc, s)))
            if len(out) > 40: break
        r = ' + '.join(out)
        return r if len(r) < 400 else r[:400] + '...'

_an = {}
def aname(a):
    A = ATOMS[a]
    if A.name: return A.name
    v = _an.get(a)
    if v is None:
        k = A.key
        v = _an[a] = '%s(%s)' % (k[0], ','.join(repr(x) for x in k[1:]))[:120]
    return v

def key_polys(k):
    if isinstance(k, Poly): yield k
    elif isinstance(k, (tuple, list)):
        for x in k: yield from key_polys(x)
    elif hasattr(k, 'polys'):
        yield from k.polys()

def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, p in n:
        q = d.get(a, 0) + p
        if q: d[a] = q
        else: d.pop(a, None)
    return tuple(sorted(d.items()))

ZERO = Poly({}); ONE = Poly({(): 1})
def K(c): return Poly.const(c)

# ---- distinguished atoms
PI_A = None
def _alias_init():
    global PI_A
    PI_A = atom(('pi',), Fraction(math.pi) - Fraction(1, 2**50), Fraction(math.pi) + Fraction(1, 2**50), False, 'pi')
_alias_init()
PI_HI = Fraction(3141592653589793238462643383279502884197169399375105820974944592307816, 10**69)

_picache = {}
def real_const(v):
    """a floating constant; small rational multiples of pi are recognised symbolically"""
    if not isinstance(v, Fraction):
        if v != v or v in (INF, -INF): return None
        v = Fraction(v)
    r = _picache.get(v)
    if r is None:
        r = K(v)
        if v and v.denominator > 2**20:
            q = v / PI_HI
            for cand in (q.limit_denominator(2000000), (1 / (1 / q).limit_denominator(2000000)) if (1 / q).limit_denominator(2000000) else None):
                if cand and abs(cand.numerator) * cand.denominator <= 40000000 and abs(cand * PI_HI - v) <= abs(v) / 2**51:
                    # several recognisable forms only: k*pi/180, k*pi/648000, k/pi ...
                    r = Poly({((PI_A.id, 1),): _q(cand)}); break
            else:
                q = v * PI_HI
                cand = q.limit_denominator(100000)
                if cand and abs(cand.numerator) * cand.denominator <= 40000000 and abs(cand / PI_HI - v) <= abs(v) / 2**51:
                    r = Poly({((PI_A.id, -1),): _q(cand)})
        _picache[v] = r
    return r

# ---------------------------------------------------------------- real functions
EXPAND_TRIG = [True]

def _pi_part(p):
    """split p = rest + q*pi (q rational)"""
    m = ((PI_A.id, 1),)
    q = p.t.get(m, 0)
    if not q: return p, 0
    t = dict(p.t); del t[m]
    return Poly(t), q

def _trig_rng(fn, p):
    """bounds of sin/cos from the atoms' own bounds (linear arguments spanning less than a turn)"""
    lo = hi = 0.0
    for m, c in p.t.items():
        if not m: a = b = float(c)
        elif len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            if A.lo == -INF or A.hi == INF: return -1, 1
            a, b = float(A.lo) * float(c), float(A.hi) * float(c)
            if a > b: a, b = b, a
        else: return -1, 1
        lo += a; hi += b
    if hi - lo >= 6.2 or abs(lo) > 1e6: return -1, 1
    if fn == 'sin': lo -= math.pi / 2; hi -= math.pi / 2          # sin x = cos(x - pi/2)
    e = 1e-9; v = [math.cos(lo), math.cos(hi)]
    mn, mx = min(v) - e, max(v) + e
    k = math.ceil((lo - e) / math.pi)
    while k * math.pi <= hi + e:
        if k % 2: mn = -1
        else: mx = 1
        k += 1
    return max(-1, Fraction(mn)), min(1, Fraction(mx))

def _sc_atom(fn, p):
    """sin/cos of an argument without pi/2 multiples; parity normalised"""
    if not p.t: return ZERO if fn == 'sin' else ONE
    neg = p.t[min(p.t)] < 0
    if neg: p = -p
    if p.is_const():
        x = Fraction(getattr(math, fn)(float(p.c)))
        v = Poly.var(atom((fn, p), x - Fraction(1, 10**12), x + Fraction(1, 10**12)))
    else:
        lo, hi = _trig_rng(fn, p)
        v = Poly.var(atom((fn, p), lo, hi))
    return -v if (neg and fn == 'sin') else v

def sincos(p):
    for a in p.atoms():
        k = ATOMS[a].key
        if k[0] == 'fmod' and p.t.get(((a, 1),)) in (1, -1):
            b = k[2]
            w = b.t.get(((PI_A.id, 1),)) if set(b.t) == {((PI_A.id, 1),)} else None
            if w is not None and w % 2 == 0 and w:
                c = p.t[((a, 1),)]
                return sincos(p - Poly({((a, 1),): c}) + k[1].scale(c))
    rest, q = _pi_part(p)
    h = math.floor(q * 2) if q else 0
    fr = q - Fraction(h, 2)
    if fr: rest = rest + Poly({((PI_A.id, 1),): _q(Fraction(fr))})
    # angle addition over additive terms
    terms = [Poly({m: c}) for m, c in rest.t.items()]
    if len(terms) == 1:
        a = next(iter(terms[0].t))
        if len(a) == 1 and a[0][1] == 1 and abs(terms[0].t[a]) == 1:
            k = ATOMS[a[0][0]].key
            sg = terms[0].t[a]
            if k[0] == 'atan2':
                y, x = k[1], k[2]
                hyp = inv(sqrt_(y * y + x * x))
                s, c = y * hyp, x * hyp
                return _quad(s if sg > 0 else -s, c, h)
            if k[0] == 'asin':
                s = k[1]; c = sqrt_(ONE - s * s)
                return _quad(s if sg > 0 else -s, c, h)
            if k[0] == 'acos':
                c = k[1]; s = sqrt_(ONE - c * c)
                return _quad(s if sg > 0 else -s, c, h)
    if EXPAND_TRIG[0] and 1 < len(terms) <= 4:
        s, c = ZERO, ONE
        for t in terms:
            if len(t.t) == 1 and list(t.t)[0] == ((PI_A.id, 1),):
                s1, c1 = _sc_atom('sin', t), _sc_atom('cos', t)
            else:
                s1, c1 = sincos(t)
            s, c = s * c1 + c * s1, c * c1 - s * s1
    else:
        s, c = _sc_atom('sin', rest), _sc_atom('cos', rest)
    return _quad(s, c, h)

def _quad(s, c, h):
    for _ in range(h % 4): s, c = c, -s
    return s, c

def sqrt_(p):
    c = p.c
    if c is not None:
        if c >= 0:
            c = Fraction(c)
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator: return K(Fraction(n, d))
        else: return fresh('nan')
    if REDUCE[0]: return sqrt_reduced(p)
    p2 = normal(p)
    if p2 != p and p2.c is not None: return sqrt_(p2)
    return Poly.var(atom(('sqrt', p2), 0, INF))

def inv(p):
    c = p.c
    if c is not None:
        if c == 0: return fresh('divzero')
        return K(Fraction(1) / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((a, -q) for a, q in m): _q(Fraction(1) / c)})
    if REDUCE[0]:
        p = normal(p)
        if len(p.t) < 2: return inv(p)
        g = content(p)
        if g: return inv(Poly({g: 1})) * inv(Poly({mmul(m, tuple((a, -q) for a, q in g)): c for m, c in p.t.items()}))
    lead = p.t[min(p.t)]
    q = p.scale(Fraction(1) / lead) if lead != 1 else p
    a = atom(('alias', q), *(prng(q) if REDUCE[0] else (-INF, INF)))
    return Poly({((a.id, -1),): _q(Fraction(1) / lead)})

def normal(p, limit=200000):
    """reduce: sqrt^2, sin^2 -> 1-cos^2, positive alias powers"""
    changed = True
    while changed:
        changed = False
        out = {}
        for m, c in p.t.items():
            hit = None
            for a, q in m:
                k = ATOMS[a].key
                if (k[0] == 'sqrt' and (q >= 2 or q <= -2 and not REDUCE[0])) or (k[0] == 'sin' and q >= 2) or (k[0] == 'alias' and q >= 1):
                    hit = (a, q, k); break
                if REDUCE[0]:
                    if k[0] == 'sinh' and q >= 2 or (k[0] == 'alias' and q <= -1 or k[0] == 'sqrt' and q <= -2) and divides(lead_of(k[1])[0], m): hit = (a, q, k); break
                    if k[0] == 'alias' and q < 0 and ('sqrt', k[1]) in _byk: hit = (a, q, ('tosqrt',)); break
            if hit is None:
                v = out.get(m, 0) + c
                if v: out[m] = _q(v)
                else: out.pop(m, None)
                continue
            changed = True
            a, q, k = hit
            rest = Poly({tuple((b, r) for b, r in m if b != a): c})
            if k[0] == 'tosqrt': r = rest * Poly({((_byk[('sqrt', ATOMS[a].key[1])].id, 2 * q),): 1})
            elif k[0] in ('alias', 'sqrt') and q < 0 and REDUCE[0]:         # L * A^-k with A = c L + R:  L = (A - R)/c
                L, cl = lead_of(k[1])
                R = k[1] - Poly({L: cl})
                base = Poly({mmul(m, tuple((b, -x) for b, x in L)): _q(Fraction(c) / cl)})
                r = base * Poly({((a, 1 if k[0] == 'alias' else 2),): 1}) - base * R
            elif k[0] == 'sqrt':
                if q > 0:
                    r = rest * k[1] ** (q // 2)
                    if q % 2: r = r * Poly({((a, 1),): 1})
                else:
                    r = rest
                    for _ in range((-q) // 2): r = r * inv(k[1])
                    if (-q) % 2: r = r * Poly({((a, -1),): 1})
            elif k[0] == 'sin':
                cs = Poly.var(atom(('cos', k[1]), -1, 1))
                r = rest * (ONE - cs * cs) ** (q // 2)
                if q % 2: r = r * Poly({((a, 1),): 1})
            elif k[0] == 'sinh':
                cs = Poly.var(atom(('cosh', k[1]), 1, INF))
                r = rest * (cs * cs - ONE) ** (q // 2)
                if q % 2: r = r * Poly({((a, 1),): 1})
            else:
                r = rest * k[1] ** q
            for m2, c2 in r.t.items():
                v = out.get(m2, 0) + c2
                if v: out[m2] = _q(v)
                else: out.pop(m2, None)
            if len(out) > limit: raise OverflowError('polynomial too large')
        p = Poly(out)
    return p

# ---- optional stronger normal form (used where square roots of perfect squares and nested quotients occur)
REDUCE = [False]
_lead = {}
def mkey(m, order):
    d = dict(m)
    return tuple(d.get(a, 0) for a in order)
def lead_of(q):
    """leading monomial and its coefficient in a lexicographic order of the atoms"""
    r = _lead.get(q)
    if r is None:
        order = sorted(q.atoms(), reverse=True)
        m = max(q.t, key=lambda m: mkey(m, order)); r = _lead[q] = (m, q.t[m])
    return r
def divides(L, m):
    if not L: return False
    d = dict(m)
    return all(x > 0 and d.get(a, 0) >= x for a, x in L)
def content(p):
    """monomial gcd (negative powers included)"""
    g = None
    for m in p.t:
        d = dict(m)
        if g is None: g = d
        else:
            for a in set(g) | set(d):
                e = min(g.get(a, 0), d.get(a, 0))
                if e: g[a] = e
                else: g.pop(a, None)
    return tuple(sorted((g or {}).items()))
def prng(p):
    """bounds from the bounds of the atoms"""
    lo = hi = 0
    for m, c in p.t.items():
        a, b = c, c
        for x, q in m:
            l, h = ATOMS[x].lo, ATOMS[x].hi
            for _ in range(abs(q)):
                if q < 0:
                    if l <= 0 <= h:
                        l2, h2 = ((0, INF) if l == 0 else (-INF, 0) if h == 0 else (-INF, INF))
                        if l == 0 and h not in (0, INF): l2 = Fraction(1) / Fraction(h)
                        if h == 0 and l not in (0, -INF): h2 = Fraction(1) / Fraction(l)
                    else: l2, h2 = (0 if h in (INF, -INF) else Fraction(1) / Fraction(h)), (0 if l in (INF, -INF) else Fraction(1) / Fraction(l))
                else: l2, h2 = l, h
                v = [0 if (u == 0 or w == 0) else u * w for u in (a, b) for w in (l2, h2)]
                a, b = min(v), max(v)
            if q % 2 == 0 and abs(q) > 1:
                pass
        # even powers of one atom are non-negative
        if all(q % 2 == 0 for _, q in m):
            if c > 0: a = max(a, 0)
            else: b = min(b, 0)
        lo += a; hi += b
    return lo, hi
NONNEG = set()      # polynomials that are arguments of square roots
def sgn(p):
    if p in NONNEG: return 1
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and ATOMS[m[0][0]].key[0] == 'alias' and ATOMS[m[0][0]].key[1] in NONNEG: return 1
    lo, hi = prng(p)
    return 1 if lo >= 0 else -1 if hi <= 0 else 0
def absval(p):
    s = sgn(p)
    if s: return p if s > 0 else -p
    if p.t[min(p.t)] < 0: p = -p
    return Poly.var(atom(('abs', p), 0, INF))
def polysqrt(p):
    """q with q*q == p, or None"""
    order = sorted(p.atoms(), reverse=True); key = lambda m: mkey(m, order)
    def root(m, c):
        c = Fraction(c)
        if c <= 0 or any(q % 2 for _, q in m): return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator: return None
        return tuple((a, q // 2) for a, q in m), _q(Fraction(n, d))
    L = max(p.t, key=key); r = root(L, p.t[L])
    if r is None: return None
    lm, lc = r; q = Poly({lm: lc})
    for _ in range(40):
        R = p - q * q
        if not R.t: return q
        M = max(R.t, key=key)
        m = mmul(M, tuple((a, -x) for a, x in lm))
        if any(x < 0 for _, x in m) or key(m) >= key(lm): return None
        q = q + Poly({m: _q(Fraction(R.t[M]) / (2 * lc))})
    return None
def divpyth(p):
    """(s, p/(s*s)) for a sine/hyperbolic sine s dividing p in its cosine form, or None"""
    for a in p.atoms():
        k = ATOMS[a].key
        if k[0] not in ('cos', 'cosh'): continue
        by = {}
        for m, c in p.t.items():
            d = dict(m); e = d.pop(a, 0)
            if e < 0: by = None; break
            by.setdefault(e, {})[tuple(sorted(d.items()))] = c
        if not by: continue
        # division by (c^2 - 1)
        n = max(by); co = [Poly(by.get(i, {})) for i in range(n + 1)]; qt = [ZERO] * (n + 1)
        for i in range(n, 1, -1):
            qt[i - 2] = co[i]; co[i - 2] = co[i - 2] + co[i]; co[i] = ZERO
        if n >= 2 and not co[0].t and not co[1].t:
            x = Poly.var(ATOMS[a]); r = ZERO
            for i, v in enumerate(qt): r = r + v * x ** i
            if k[0] == 'cos': return Poly.var(atom(('sin', k[1]), *_trig_rng('sin', k[1]))), -r
            return Poly.var(atom(('sinh', k[1]), *_mono('sinh', k[1]))), r
    return None
def _mono(fn, p):
    lo, hi = prng(p); f = getattr(math, fn)
    e = lambda x: x if x in (INF, -INF) else (INF if x > 0 else -INF) if abs(x) > 300 else Fraction(f(float(x)))
    return e(lo), e(hi)
def sqrt_reduced(p):
    p = normal(p); c = p.c
    if c is not None:
        if c < 0: return fresh('nan')
        c = Fraction(c); n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator: return K(Fraction(n, d))
        return Poly.var(atom(('sqrt', K(c)), 0, INF))
    out = ONE
    # common denominators: aliases to even powers
    neg = {}
    for m in p.t:
        for a, q in m:
            if q < 0 and ATOMS[a].key[0] == 'alias': neg[a] = min(neg.get(a, 0), q)
    if neg and len(p.t) > 1:
        up = tuple(sorted((a, (-q + 1) // 2 * 2) for a, q in neg.items()))
        p = normal(p * Poly({up: 1}))
        for a, q in up: out = out * inv(absval(Poly.var(ATOMS[a]))) ** (q // 2)
    g = content(p)
    ev = tuple((a, q // 2 * 2) for a, q in g if q // 2)
    if ev:
        p = p * Poly({tuple((a, -q) for a, q in ev): 1})
        for a, q in ev:
            v = absval(Poly.var(ATOMS[a]))
            out = out * (v ** (q // 2) if q > 0 else inv(v) ** (-q // 2))
    p = normal(p)
    if p.c is not None: return out * sqrt_reduced(p)
    while True:
        d = divpyth(p)
        if d is None: break
        out = out * absval(d[0]); p = d[1]
    if p.c is not None: return out * sqrt_reduced(p)
    q = polysqrt(p)
    if q is not None: return out * absval(q)
    NONNEG.add(p)
    return out * Poly.var(atom(('sqrt', p), 0, INF))

def clear(p):
    """multiply by denominators so that only non-negative powers remain; returns numerator"""
    for _ in range(40):
        p = normal(p)
        neg = {}
        for m in p.t:
            for a, q in m:
                if q < 0: neg[a] = min(neg.get(a, 0), q)
        if not neg: return p
        p = p * Poly({tuple(sorted((a, -q) for a, q in neg.items())): 1})
    raise OverflowError('cannot clear denominators')

def maxcoef(p):
    return max((abs(c) for c in p.t.values()), default=0)

def is_zero(p, tol=None, ref=None):
    """exact identity test; with tol, coefficients up to tol*ref are taken for rounding of source constants"""
    n = clear(p)
    if not n.t: return True
    if tol is None: return False
    return maxcoef(n) <= tol * (ref if ref is not None else 1)

def subst(p, mp):
    """substitute atoms (id -> Poly), also inside sin/cos/sqrt/alias/atan2 arguments"""
    r = ZERO
    for m, c in p.t.items():
        term = K(c)
        for a, q in m:
            v = subst_atom(a, mp)
            if q > 0: term = term * v ** q
            else:
                iv = inv(v)
                for _ in range(-q): term = term * iv
        r = r + term
    return r

def subst_atom(a, mp):
    if a in mp: return mp[a]
    k = ATOMS[a].key
    f = k[0]
    if f in ('sin', 'cos'):
        arg = subst(k[1], mp)
        if arg == k[1]: return Poly.var(ATOMS[a])
        s, c = sincos(arg)
        return s if f == 'sin' else c
    if f == 'sqrt':
        arg = subst(k[1], mp)
        return Poly.var(ATOMS[a]) if arg == k[1] else sqrt_(arg)
    if f == 'alias':
        return subst(k[1], mp)
    if any(isinstance(x, Poly) for x in k[1:]):
        k2 = tuple(subst(x, mp) if isinstance(x, Poly) else x for x in k)
        if k2 == k: return Poly.var(ATOMS[a])
        A = ATOMS[a]
        return Poly.var(atom(k2, A.lo, A.hi, A.isint))
    return Poly.var(ATOMS[a])
