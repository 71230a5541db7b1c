"""Forward abstract interpreter over LLVM IR.

Domain: every numeric SSA value / memory cell is a polynomial over interned
atoms (value numbering modulo ring axioms), every atom has an interval, and a
state carries branch facts (intervals for polynomials).  Control flow is
followed with a loop-aware reverse-post-order worklist; states meeting at a
block are joined; branches whose condition the facts decide propagate to one
successor only (conditional propagation).  Loops whose exit stays undecided
are widened.  No path enumeration and no solver.
"""
import math, time, struct
from fractions import Fraction
from fractions import Fraction as Fr
from poly import *
import poly as PL
import llir
from llir import Const, Loc, Ty, IRError

class Imprecise(Exception):
    """the analysis cannot represent something here (not a violation)"""

class Fuel(Imprecise): pass
class OpenBranch(Imprecise): pass
class DeadPath(Exception): pass
class BadAccess(Exception):
    """an access outside its object (or through NULL) on a path every branch of which is decided"""


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('op', 'p', 'a', 'b', '_h')
    def __init__(self, op, p=None, a=None, b=None):
        self.op, self.p, self.a, self.b = op, p, a, b; self._h = None
    def k(self): return (self.op, self.p, self.a, self.b)
    def __eq__(self, o): return isinstance(o, Cond) and self.k() == o.k()
    def __hash__(self):
        if self._h is None: self._h = hash(self.k())
        return self._h
    def __repr__(self):
        if self.op in ('and', 'or'): return '(%r %s %r)' % (self.a, self.op, self.b)
        return '%s[%r]' % (self.op, self.p)
    def polys(self):
        if self.p is not None: yield self.p
        if self.a is not None: yield from self.a.polys()
        if self.b is not None: yield from self.b.polys()

TRUE = Cond('true'); FALSE = Cond('false')

def cmp_cond(op, p):
    c = p.c
    if c is not None:
        r = {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[op]
        return TRUE if r else FALSE
    if op in ('eq', 'ne') and p.t[min(p.t)] < 0: p = -p
    return Cond(op, p)

def neg(c):
    o = c.op
    if o == 'true': return FALSE
    if o == 'false': return TRUE
    if o == 'lt': return Cond('le', -c.p)
    if o == 'le': return Cond('lt', -c.p)
    if o == 'eq': return Cond('ne', c.p)
    if o == 'ne': return Cond('eq', c.p)
    if o == 'and': return Cond('or', None, neg(c.a), neg(c.b))
    if o == 'or': return Cond('and', None, neg(c.a), neg(c.b))
    raise AssertionError

def cand(a, b):
    if a.op == 'false' or b.op == 'false': return FALSE
    if a.op == 'true': return b
    if b.op == 'true': return a
    return Cond('and', None, a, b)
def cor(a, b):
    if a.op == 'true' or b.op == 'true': return TRUE
    if a.op == 'false': return b
    if b.op == 'false': return a
    return Cond('or', None, a, b)

# ---------------------------------------------------------------- intervals
def iadd(a, b): return (a[0] + b[0], a[1] + b[1])
def _m(x, y):
    if x == 0 or y == 0: return 0
    return x * y
def imul(a, b):
    v = (_m(a[0], b[0]), _m(a[0], b[1]), _m(a[1], b[0]), _m(a[1], b[1]))
    return (min(v), max(v))
def iscale(a, k):
    if k >= 0: return (_m(a[0], k), _m(a[1], k))
    return (_m(a[1], k), _m(a[0], k))
def imeet(a, b): return (max(a[0], b[0]), min(a[1], b[1]))
def ihull(a, b): return (min(a[0], b[0]), max(a[1], b[1]))
def ipow(a, n):
    if n < 0:
        r = ipow(a, -n)
        if r[0] > 0 or r[1] < 0:
            def rc(x): return 0 if x in (INF, -INF) else Fraction(1) / x
            return (rc(r[1]), rc(r[0]))
        if r[0] == 0 and r[1] > 0: return (0 if r[1] == INF else Fraction(1) / r[1], INF)
        return (-INF, INF)
    r = (1, 1)
    if n % 2 == 0:
        lo, hi = a
        m = max(abs(lo), abs(hi))
        l = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        def pw(x): return INF if x == INF else x ** n
        return (pw(l), pw(m))
    for _ in range(n): r = imul(r, a)
    return r

def fl(x): return x if x in (INF, -INF) else math.floor(x)
def ce(x): return x if x in (INF, -INF) else math.ceil(x)

# ---------------------------------------------------------------- pointers / memory
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj, self.off = obj, off     # obj: id or None(null) or ('fn',name)
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off
    def __hash__(self): return hash((self.obj, self.off))
    def __repr__(self): return 'Ptr(%r,%r)' % (self.obj, self.off)
NULL = Ptr(None, ZERO)

class PSet:
    __slots__ = ('ps',)
    def __init__(self, ps): self.ps = ps      # list of (Cond|None, Ptr)
    def __eq__(self, o): return isinstance(o, PSet) and self.ps == o.ps
    def __hash__(self): return hash(tuple(p for _, p in self.ps))
    def __repr__(self): return 'PSet%r' % (self.ps,)

class Unk:
    """unknown pointer / aggregate"""
    __slots__ = ('why',)
    def __init__(self, why=''): self.why = why
    def __repr__(self): return 'Unk(%s)' % self.why
    def __eq__(self, o): return isinstance(o, Unk)
    def __hash__(self): return 7

class Undef:
    __slots__ = ()
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'const', 'cells', 'base', 'tag', 'freed')
    def __init__(self, id, size, kind, name, base='undef', const=False):
        self.id, self.size, self.kind, self.name, self.base, self.const = id, size, kind, name, base, const
        self.cells = {}; self.tag = None; self.freed = False
    def copy(self):
        o = Obj(self.id, self.size, self.kind, self.name, self.base, self.const)
        o.cells = dict(self.cells); o.tag = self.tag; o.freed = self.freed
        return o

class State:
    __slots__ = ('env', 'mem', 'own', 'facts', 'ne', 'pc')
    def __init__(self):
        self.env = {}; self.mem = {}; self.own = set(); self.facts = {}; self.ne = frozenset(); self.pc = ()
    def copy(self):
        s = State(); s.env = dict(self.env); s.mem = dict(self.mem); s.own = set(); self.own = set()
        s.facts = dict(self.facts); s.ne = self.ne; s.pc = self.pc
        return s
    def wobj(self, i):
        o = self.mem[i]
        if i not in self.own:
            o = o.copy(); self.mem[i] = o; self.own.add(i)
        return o

# ---------------------------------------------------------------- CFG helpers
class CFG:
    def __init__(self, f):
        self.f = f
        B = f.blocks
        self.entry = f.order[0]
        preds = {b: [] for b in B}
        for b in B.values():
            for s in dict.fromkeys(b.succ): preds[s].append(b.name)
        self.preds = preds
        # reachable + plain rpo
        seen = set(); post = []
        st = [(self.entry, iter(dict.fromkeys(B[self.entry].succ)))]; seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(dict.fromkeys(B[s].succ)))); break
            else:
                post.append(n); st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in rpo:
            for s in B[b].succ:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x); w.extend(p for p in preds[x] if p in num)
        self.inloops = {b: sorted((h for h, L in self.loops.items() if b in L), key=lambda h: len(self.loops[h])) for b in rpo}
        # loop aware rpo: exits first in DFS
        seen = set(); post = []
        def order(n):
            ss = list(dict.fromkeys(B[n].succ))
            def depth(s): return sum(1 for h in self.inloops[n] if s in self.loops[h])
            ss.sort(key=depth)
            return ss
        st = [(self.entry, iter(order(self.entry)))]; seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(order(s)))); break
            else:
                post.append(n); st.pop()
        self.rpo = {b: i for i, b in enumerate(post[::-1])}
    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == self.entry or b not in self.idom: return False
            b = self.idom[b]

# ---------------------------------------------------------------- program
class Prog:
    def __init__(self, modules):
        self.modules = modules
        self.cfgs = {}
        self.defs = {}
        self.bysrc = {}
        for m in modules:
            for f in m.funcs.values():
                if f.decl: continue
                if not f.internal: self.defs.setdefault(f.name, f)
                nm = m.func_src(f)[0]
                self.bysrc.setdefault(nm, []).append(f)
    def cfg(self, f):
        c = self.cfgs.get(id(f))
        if c is None: c = self.cfgs[id(f)] = CFG(f)
        return c
    def find(self, name, file=None):
        """function by source name (optionally in a given source file)"""
        fs = self.bysrc.get(name, [])
        if file: fs = [f for f in fs if f.module.src == file] or fs
        fs2 = [f for f in fs if not f.internal] or fs
        if not fs2: raise KeyError('function %s not found in the analysed program' % name)
        return fs2[0]
    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and not f.decl: return f
        return self.defs.get(name)

SMIN = {n: -(1 << (n - 1)) for n in (1, 8, 16, 32, 64, 128)}
SMAX = {n: (1 << (n - 1)) - 1 for n in (1, 8, 16, 32, 64, 128)}
def one_atom(p):
    if len(p.t) != 1: return None
    (m, c), = p.t.items()
    return m[0][0] if c == 1 and len(m) == 1 and m[0][1] == 1 else None

def byteof(v, sz, i):
    """the i-th byte (signed) of a stored value of sz bytes"""
    if not isinstance(v, Poly): return None
    c = v.c
    if sz == 1: return v
    if v.isint():
        if c is not None: return K(wrap((int(c) >> (8 * i)) & 255, 8))
    elif c is not None and sz == 8:
        try: return K(wrap(struct.pack('<d', float(c))[i], 8))
        except OverflowError: pass
    return Poly.var(atom(('byteof', v, sz, i), -128, 127, True))

def glue(p, bits):
    """a sum of unsigned bytes times powers of 256 that are all the bytes of one value is that value"""
    if len(p.t) > 5: return p
    g = {}
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1 or c not in POW256: continue
        k = ATOMS[m[0][0]].key; top = False
        if k[0] == 'zext' and k[2] == 8 and isinstance(k[1], Poly) and one_atom(k[1]) is not None: k = ATOMS[one_atom(k[1])].key
        elif k[0] == 'byteof': top = True
        else: continue
        if k[0] == 'byteof' and c == 256 ** k[3]: g.setdefault((k[1], k[2]), {})[k[3]] = (m, c, top)
    if not g:
        return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c * 256 == 1 << bits and ATOMS[m[0][0]].key[0] == 'zext': return ATOMS[m[0][0]].key[1].scale(c)
        return p
    for (v, sz), d in g.items():
        if len(d) == sz and v.isint() and not any(t for i, (m, c, t) in d.items() if i < sz - 1):
            rest = Poly({m: c for m, c in p.t.items() if not any(m == x[0] for x in d.values())})
            if d[sz - 1][2]: return rest + v
            return rest + Poly.var(atom(('zext', v, 8 * sz), 0, (1 << 8 * sz) - 1, True))
    return p
POW256 = {256 ** i for i in range(8)}

def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if bits > 1 and v >> (bits - 1) else v

class Interp:
    def __init__(self, prog, und_limit=64, fuel=2000000, max_depth=40):
        self.deadline = None
        self.prog = prog; self.und_limit = und_limit; self.fuel = fuel; self.max_depth = max_depth
        self.events = []; self.hooks = {}; self.nobj = 0; self.globs = {}; self.calldepth = 0
        self.call_log = None; self.steps = 0; self.analysed = set(); self.stack = []
        self.global_init = True       # mutable globals start from their initialisers
        self.branch_und = 0
        self.track_oob = False; self.total = 0; self.strict = False; self.exact = False; self.script = None; self.pos = 0; self.pathc = []
        self.rcache = {}

    # ---------- ranges and facts
    def arng(self, a, st):
        A = ATOMS[a]
        r = (A.lo, A.hi)
        f = st.facts.get(Poly({((a, 1),): 1})) if st.facts else None
        if f: r = imeet(r, f)
        return r
    def quadr(self, p, st):
        """range of b*x + a*x^2 (no constant term) over the range of x"""
        v = {}
        at = None
        for m, c in p.t.items():
            if len(m) != 1 or m[0][1] not in (1, 2) or at is not None and m[0][0] != at: return None
            at = m[0][0]; v[m[0][1]] = c
        if len(v) != 2: return None
        lo, hi = self.arng(at, st)
        if lo == -INF or hi == INF: return None
        a, b = Fraction(v[2]), Fraction(v[1]); lo, hi = Fraction(lo), Fraction(hi)
        e = [a * lo * lo + b * lo, a * hi * hi + b * hi]
        x = -b / (2 * a)
        if lo < x < hi: e.append(a * x * x + b * x)
        return (min(e), max(e))
    def rng(self, p, st):
        t = p.t
        if not t: return (0, 0)
        if len(t) == 1 and () in t: c = t[()]; return (c, c)
        key, sc, cst = p.key()
        r = (0, 0)
        for m, c in key.t.items():
            if len(m) == 1 and m[0][1] == 1: q = self.arng(m[0][0], st)
            else:
                q = (1, 1)
                for a, n in m: q = imul(q, ipow(self.arng(a, st), n))
            q = iscale(q, c) if c != 1 else q
            r = (r[0] + q[0], r[1] + q[1])
            if r[0] == -INF and r[1] == INF: break
        if len(key.t) == 2:
            q = self.quadr(key, st)
            if q: r = imeet(r, q)
        if st.facts:
            f = st.facts.get(key)
            if f: r = imeet(r, f)
        r = iscale(r, sc)
        r = (r[0] + cst, r[1] + cst)
        if p.isint(): r = (ce(r[0]), fl(r[1]))
        return r
    def decide(self, c, st):
        o = c.op
        if o == 'true': return True
        if o == 'false': return False
        if o == 'and':
            a = self.decide(c.a, st)
            if a is False: return False
            b = self.decide(c.b, st)
            if b is False: return False
            return True if (a and b) else None
        if o == 'or':
            a = self.decide(c.a, st)
            if a is True: return True
            b = self.decide(c.b, st)
            if b is True: return True
            return False if (a is False and b is False) else None
        if c in st.pc: return True
        lo, hi = self.rng(c.p, st)
        if o == 'lt':
            if hi < 0: return True
            if lo >= 0: return False
            if hi == 0 and (c.p in st.ne or -c.p in st.ne): return True
        elif o == 'le':
            if hi <= 0: return True
            if lo > 0: return False
            if lo == 0 and (c.p in st.ne or -c.p in st.ne): return False
        elif o in ('eq', 'ne'):
            if lo > 0 or hi < 0 or c.p in st.ne or -c.p in st.ne: return o == 'ne'
            if lo == 0 and hi == 0: return o == 'eq'
            # parity / congruence of an integer polynomial
            if c.p.isint():
                g = 0
                for m, k in c.p.t.items():
                    if m: g = math.gcd(g, k)
                if g > 1 and c.p.t.get((), 0) % g: return o == 'ne'
        if neg(c) in st.pc: return False
        return None
    def _fact(self, st, p, lo, hi):
        """p in [lo,hi]"""
        key, sc, c = p.key()
        if not key.t: return lo <= c <= hi
        l, h = (lo - c), (hi - c)
        if sc < 0: l, h = h, l
        def dv(x): return (x if sc > 0 else -x) if x in (INF, -INF) else Fraction(x) / sc
        r = (dv(l), dv(h))
        old = st.facts.get(key, (-INF, INF))
        r = imeet(old, r)
        if key.isint(): r = (ce(r[0]), fl(r[1]))
        st.facts[key] = r
        q = self.rng(key, st)
        if q[0] > q[1]: return False
        # propagate to single atoms
        if 2 <= len(key.t) <= 5:
            for m, k in key.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    rest = (0, 0)
                    for m2, k2 in key.t.items():
                        if m2 == m: continue
                        q2 = (1, 1)
                        for a, n in m2: q2 = imul(q2, ipow(self.arng(a, st), n))
                        rest = iadd(rest, iscale(q2, k2))
                    b = (q[0] - rest[1], q[1] - rest[0])
                    if b[0] == -INF and b[1] == INF: continue
                    if k < 0: b = (b[1], b[0])
                    def d2(x): return (x if k > 0 else -x) if x in (INF, -INF) else Fraction(x) / k
                    b = (d2(b[0]), d2(b[1]))
                    av = Poly({m: 1})
                    if ATOMS[m[0][0]].isint: b = (ce(b[0]), fl(b[1]))
                    o = self.arng(m[0][0], st)
                    n = imeet(o, b)
                    if n[0] > n[1]: return False
                    if n != o: st.facts[av] = n
        elif len(key.t) == 1:
            (m, k), = key.t.items()
            if len(m) == 1 and m[0][1] == 1:
                K0 = ATOMS[m[0][0]].key
                if K0[0] == 'ite' and isinstance(K0[2], Poly) and isinstance(K0[3], Poly):
                    # refine through the join: drop an arm whose range is disjoint
                    ra = self.rng(K0[2], st); rb = self.rng(K0[3], st)
                    na = ra[1] < q[0] or ra[0] > q[1]; nb = rb[1] < q[0] or rb[0] > q[1]
                    if na and nb: return False
                    if na and isinstance(K0[1], Cond): return self.assume(st, neg(K0[1]))
                    if nb and isinstance(K0[1], Cond): return self.assume(st, K0[1])
                elif K0[0] in ('zext', 'low'):
                    pass
        return True
    def assume(self, st, c, record=False):
        o = c.op
        if o == 'true': return True
        if o == 'false': return False
        if record: st.pc = st.pc + (c,)
        d = self.decide(c, st) if not record else None
        if d is False: return False
        if o == 'and':
            return self.assume(st, c.a) and self.assume(st, c.b)
        if o == 'or':
            da = self.decide(c.a, st); db = self.decide(c.b, st)
            if da is False: return self.assume(st, c.b)
            if db is False: return self.assume(st, c.a)
            # hull of single-polynomial disjunctions
            s1 = State(); s1.facts = dict(st.facts); s1.ne = st.ne; s1.pc = st.pc
            s2 = State(); s2.facts = dict(st.facts); s2.ne = st.ne; s2.pc = st.pc
            ok1 = self.assume(s1, c.a); ok2 = self.assume(s2, c.b)
            if not ok1 and not ok2: return False
            if not ok1: return self.assume(st, c.b)
            if not ok2: return self.assume(st, c.a)
            for k in s1.facts:
                if k in s2.facts:
                    h = ihull(s1.facts[k], s2.facts[k])
                    st.facts[k] = imeet(st.facts.get(k, (-INF, INF)), h)
            st.ne = st.ne | (s1.ne & s2.ne)
            return True
        p = c.p
        if o == 'lt': return self._fact(st, p, -INF, -1 if p.isint() else 0) and (True if p.isint() else self._ne(st, p))
        if o == 'le': return self._fact(st, p, -INF, 0)
        if o == 'eq': return self._fact(st, p, 0, 0)
        if o == 'ne': return self._ne(st, p)
        raise AssertionError(o)
    def _ne(self, st, p):
        lo, hi = self.rng(p, st)
        if lo == 0 and hi == 0: return False
        st.ne = st.ne | {p}
        if p.isint():
            if lo == 0: return self._fact(st, p, 1, INF)
            if hi == 0: return self._fact(st, p, -INF, -1)
            key, sc, c = p.key()
            # exclude an endpoint of a unit-step integer value
            if abs(sc) == 1:
                r = self.rng(key, st); x = -c / sc if sc != 1 else -c
                if r[0] == x: return self._fact(st, key, x + 1, INF)
                if r[1] == x: return self._fact(st, key, -INF, x - 1)
        return True
    def resolve(self, p, st, depth=0):
        """replace decided ite atoms by the selected arm"""
        if not isinstance(p, Poly) or depth > 20: return p
        mp = {}
        for a in p.atoms():
            k = ATOMS[a].key
            if k[0] == 'ite' and isinstance(k[1], Cond) and isinstance(k[2], Poly) and isinstance(k[3], Poly):
                d = self.decide(k[1], st)
                if d is not None: mp[a] = self.resolve(k[2] if d else k[3], st, depth + 1)
            else:
                r = self.arng(a, st)
                if r[0] == r[1]: mp[a] = K(r[0])
        return subst(p, mp) if mp else p

    # ---------- memory
    def new_obj(self, st, size, kind, name, base='undef', const=False):
        self.nobj += 1
        o = Obj(self.nobj, size, kind, name, base, const)
        st.mem[o.id] = o; st.own.add(o.id)
        return o
    def gobj(self, st, mod, name):
        g = mod.globals.get(name)
        if g is None or g.init is None:
            for m in self.prog.modules:
                h = m.globals.get(name)
                if h is not None and not h.internal and h.init is not None: g = h; break
        if g is None: return None
        key = (id(g.module), g.name) if g.internal else g.name
        i = self.globs.get(key)
        if i is None:
            self.nobj += 1; i = self.globs[key] = self.nobj
        if i not in st.mem:
            try: sz = g.module.sizeof(g.ty)
            except IRError: sz = None
            if g.init is not None and (g.const or self.global_init): base = ('init', g)
            else: base = 'unknown'
            o = Obj(i, sz, 'global', g.name, base, g.const)
            o.tag = g
            st.mem[i] = o; st.own.add(i)
        return st.mem[i]
    def init_leaf(self, m, c, ty, off, sz):
        """the constant found at byte offset off of initialiser c"""
        while True:
            ty = m.res(ty)
            if c.k in ('zero', 'undef'): return ('zero', None, 0)
            if ty.k == 'arr':
                es = m.sizeof(ty.b); i = off // es
                if c.k == 'str': return ('str', c.v, off)
                if i >= len(c.v): return None
                c, ty, off = c.v[i], ty.b, off - i * es
            elif ty.k == 'struct':
                offs, tot = m.layout(ty)
                i = max(j for j in range(len(offs)) if offs[j] <= off)
                if off >= offs[i] + m.sizeof(ty.a[i]): return ('zero', None, 0)
                c, ty, off = c.v[i], ty.a[i], off - offs[i]
            else: return ('leaf', (c, ty), off)
    def init_read(self, st, g, off, ty):
        m = g.module
        sz = m.sizeof(ty)
        r = self.init_leaf(m, g.init, g.ty, off, sz)
        if r is None: return None
        k, v, o = r
        if k == 'leaf':
            c, lty = v
            ls = m.sizeof(lty)
            if o == 0 and ls == sz and (lty.k == ty.k):
                return self.constv(st, m, c)
        if ty.k == 'int':
            bs = []
            for i in range(sz):
                rr = self.init_leaf(m, g.init, g.ty, off + i, 1)
                if rr is None: return None
                k, v, o = rr
                if k == 'zero': bs.append(0)
                elif k == 'str': bs.append(v[o] if o < len(v) else 0)
                else:
                    c, lty = v
                    if c.k in ('zero', 'null'): bs.append(0)
                    elif c.k == 'int': bs.append((c.v >> (8 * o)) & 255)
                    else: return None
            return K(wrap(int.from_bytes(bytes(bs), 'little'), ty.a))
        if k == 'zero':
            return NULL if ty.k == 'ptr' else ZERO
        return None
    def unknown(self, ty, tag, m=None):
        if m is not None: ty = m.res(ty)
        if ty.k == 'int':
            if ty.a == 1: return Cond('ne', fresh(tag, 0, 1, True))
            return fresh(tag, SMIN.get(ty.a, -INF), SMAX.get(ty.a, INF), True)
        if ty.k in llir.FLOATS: return fresh(tag)
        if ty.k == 'ptr': return Unk(tag)
        if ty.k == 'void': return UNDEF
        return Unk(tag)
    def load_at(self, st, o, off, ty, m, sz):
        """concrete offset"""
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            v = c[1]
            isf = ty.k in llir.FLOATS
            if ty.k == 'ptr' and isinstance(v, Poly):
                return NULL if v.c == 0 else Unk('int2ptr')
            if ty.k == 'int' and isinstance(v, (Ptr, PSet, Unk)): return Poly.var(atom(('p2i', v if not isinstance(v, Unk) else id(v)), SMIN[64], SMAX[64], True))
            return v
        # overlapping cells
        over = [(k, x) for k, x in o.cells.items() if k < off + sz and off < k + x[0]] if o.cells else []
        if over:
            if ty.k == 'int' or ty.k in llir.FLOATS:
                bs = []
                for i in range(sz):
                    b = None
                    for k, x in over:
                        if k <= off + i < k + x[0]:
                            b = byteof(x[1], x[0], off + i - k); break
                    else: b = self.base_read(st, o, off + i, llir.I8, m, 1)
                    if not isinstance(b, Poly): return self.unknown(ty, 'mix', m)
                    if sz == 1: return b
                    bs.append(b)
                if all(b.c is not None for b in bs):
                    raw = bytes(int(b.c) & 255 for b in bs)
                    if ty.k == 'int': return K(wrap(int.from_bytes(raw, 'little'), ty.a))
                    if sz == 8:     # cells do not say whether a whole number was stored as a double: a bit pattern that is denormal or a NaN was one
                        n = int.from_bytes(raw, 'little', signed=True)
                        if abs(n) < 1 << 51: return K(n)
                    x = struct.unpack('<d' if sz == 8 else '<f', raw)[0] if sz in (4, 8) else math.nan
                    return K(Fr(x)) if math.isfinite(x) else self.unknown(ty, 'mix', m)
                src = [one_atom(b) for b in bs]
                ks = [ATOMS[a].key if a is not None else (None,) for a in src]
                if all(k[0] == 'byteof' and k[1] == ks[0][1] and k[2] == sz and k[3] == i for i, k in enumerate(ks)):
                    v = ks[0][1]
                    if ty.k in llir.FLOATS or v.isint(): return v
                if self.exact and sz in (2, 4, 8) and ty.k in ('int', 'double', 'float'):
                    return Poly.var(atom(('bytes', ty.k[0]) + tuple(bs), *((SMIN[8 * sz], SMAX[8 * sz], True) if ty.k == 'int' else ())))
            return self.unknown(ty, 'mix', m)
        v = self.base_read(st, o, off, ty, m, sz)
        if not (isinstance(o.base, tuple)):
            o2 = st.wobj(o.id)
            if v is not UNDEF: o2.cells[off] = (sz, v)
        return v
    def base_read(self, st, o, off, ty, m, sz):
        b = o.base
        if b == 'zero': return NULL if ty.k == 'ptr' else (FALSE if ty.k == 'int' and ty.a == 1 else ZERO)
        if b == 'undef':
            return UNDEF
        if isinstance(b, tuple) and b[0] == 'init':
            v = self.init_read(st, b[1], off, ty)
            if v is not None: return v
            return self.unknown(ty, 'init', m)
        if isinstance(b, tuple) and b[0] == 'bytes':
            s = b[1]
            if ty.k == 'int' and off >= 0 and off + sz <= len(s): return K(wrap(int.from_bytes(s[off:off + sz], 'little'), ty.a))
            return self.unknown(ty, 'bytes', m)
        if isinstance(b, tuple) and b[0] == 'sym':
            # deterministic symbolic contents
            return self.symcell(b[1], off, ty, sz)
        return self.unknown(ty, 'mem:%s+%s' % (o.name, off), m)
    def symcell(self, tag, off, ty, sz):
        if ty.k == 'int':
            return Poly.var(atom(('sym', tag, off, sz), SMIN[ty.a], SMAX[ty.a], True, '%s[%d]' % (tag, off // max(sz, 1))))
        if ty.k in llir.FLOATS:
            return Poly.var(atom(('sym', tag, off, sz), -INF, INF, False, '%s[%d]' % (tag, off // max(sz, 1))))
        return Unk('symptr %s+%d' % (tag, off))
    def ev(self, kind, ins, **kw):
        f = self.stack[-1] if self.stack else None
        kw.update(kind=kind, fn=f, ins=ins, line=(f.module.line(ins.dbg) if f is not None and ins is not None else None))
        self.events.append(kw)
    def bad(self, what, o, off, sz, ins):
        f = self.stack[-1] if self.stack else None
        raise BadAccess('%s %d bytes at offset %d of %s (%s bytes)%s' % (what, sz, off, o.name, o.size, ' in %s line %s' % (f.module.func_src(f)[0], f.module.line(ins.dbg) if ins is not None else '?') if f is not None else ''))
    def chk(self, st, p, sz, ins, what):
        o = st.mem.get(p.obj)
        if o is None: return
        lo, hi = self.rng(p.off, st)
        if o.freed: self.ev('uaf', ins, what=what, obj=o.name)
        if o.size is not None and (lo < 0 or hi + sz > o.size):
            self.ev('oob', ins, what=what, obj=o.name, size=o.size, lo=lo, hi=hi, sz=sz)
    def load(self, st, p, ty, ins, m):
        ty = m.res(ty)
        if isinstance(p, PSet):
            v = None
            for c, q in p.ps:
                if q.obj is None: self.ev('null', ins, what='load'); continue
                w = self.load(st, q, ty, ins, m)
                v = w if v is None else self.joinv(v, w, c, st, st)
            return self.unknown(ty, 'pset', m) if v is None else v
        if not isinstance(p, Ptr):
            return self.unknown(ty, 'ld', m)
        if p.obj is None:
            if self.strict and p.off.c is not None: raise BadAccess('load through a null pointer, line %s' % (m.line(ins.dbg) if ins is not None else '?'))
            self.ev('null', ins, what='load'); return self.unknown(ty, 'null', m)
        if not isinstance(p.obj, int): return self.unknown(ty, 'fnptr', m)
        o = st.mem[p.obj]
        sz = m.sizeof(ty)
        if self.track_oob: self.chk(st, p, sz, ins, 'load')
        off = p.off.c
        if off is None:
            lo, hi = self.rng(p.off, st)
            if lo == hi: off = lo
        if off is not None:
            if o.size is not None and (off < 0 or off + sz > o.size):
                if self.exact or self.strict and (off < 0 or o.kind != 'arg'): self.bad('reads', o, off, sz, ins)
                return self.unknown(ty, 'oob', m)
            v = self.load_at(st, o, off, ty, m, sz)
            if v is UNDEF:
                self.ev('uninit', ins, what=o.name)
                if (self.strict or self.exact or self.script is not None) and ty.k in llir.FLOATS: return Poly.var(atom(('never', o.name, off), -INF, INF, False, 'never-written %s+%d' % (o.name, off)))
                return self.unknown(ty, 'uninit', m)
            return v
        # symbolic offset
        lo, hi = self.rng(p.off, st)
        if o.size is not None: lo, hi = max(lo, 0), min(hi, o.size - sz)
        step = 0
        key, sc, c = p.off.key()
        for mm, cc in p.off.t.items():
            if mm: step = math.gcd(step, cc) if isinstance(cc, int) else 1
        step = step or 1
        base = p.off.t.get((), 0)
        if lo not in (INF, -INF) and hi not in (INF, -INF) and (hi - lo) // step <= 70000 and ty.k != 'ptr':
            first = lo + ((base - lo) % step if step > 1 else 0)
            h = None
            okc = True
            for x in range(int(first), int(hi) + 1, step):
                v = self.load_at(st, o, x, ty, m, sz)
                if not isinstance(v, Poly):
                    okc = False; break
                r = self.rng(v, st)
                h = r if h is None else ihull(h, r)
                if h[0] == -INF and h[1] == INF: break
            if okc and h is not None:
                if h[0] == h[1]: return K(h[0])
                kk = ('ld', o.id, p.off, sz) if (o.const or isinstance(o.base, tuple) and not o.cells) else ('ldf', o.id, p.off, sz, PL._cnt[0])
                if kk[0] == 'ldf': PL._cnt[0] += 1
                return Poly.var(atom(kk, h[0], h[1], ty.k == 'int', '%s[%r]' % (o.name, p.off)))
        if o.const and ty.k != 'ptr':
            lo2, hi2 = (SMIN[ty.a], SMAX[ty.a]) if ty.k == 'int' else (-INF, INF)
            return Poly.var(atom(('ld', o.id, p.off, sz), lo2, hi2, ty.k == 'int'))
        if ty.k == 'ptr' and lo not in (INF, -INF) and hi not in (INF, -INF) and (hi - lo) // step <= 400:
            first = lo + ((base - lo) % step if step > 1 else 0)
            ps = []
            for x in range(int(first), int(hi) + 1, step):
                v = self.load_at(st, o, x, ty, m, sz)
                if isinstance(v, Ptr): ps.append((None, v))
                elif isinstance(v, PSet): ps.extend(v.ps)
                else: return Unk('ptrtab')
            ps2 = []
            for c, q in ps:
                if not any(q == r for _, r in ps2): ps2.append((None, q))
            return ps2[0][1] if len(ps2) == 1 else PSet(ps2)
        return self.unknown(ty, 'ldsym', m)
    def store(self, st, p, v, ty, ins, m):
        ty = m.res(ty)
        if isinstance(p, PSet):
            for c, q in p.ps:
                if q.obj is None: self.ev('null', ins, what='store'); continue
                if not isinstance(q.obj, int): continue
                old = self.load(st, q, ty, ins, m)
                if isinstance(old, Unk) or isinstance(v, Unk): nv = Unk('weak')
                else: nv = self.joinv(v, old, c, st, st)
                self.store(st, q, nv, ty, ins, m)
            return
        if not isinstance(p, Ptr):
            self.ev('wild', ins, what='store')
            return
        if p.obj is None: self.ev('null', ins, what='store'); return
        if not isinstance(p.obj, int): return
        sz = m.sizeof(ty)
        if self.track_oob: self.chk(st, p, sz, ins, 'store')
        o = st.wobj(p.obj)
        if o.const and o.kind == 'global': self.ev('constwrite', ins, what=o.name)
        lo, hi = self.rng(p.off, st)
        if lo == hi:
            off = lo
            if off in (INF, -INF): return
            if o.size is not None and (off < 0 or off + sz > o.size):
                if self.exact or self.strict and (off < 0 or o.kind != 'arg'): self.bad('writes', o, off, sz, ins)
                return
            self.kill(o, off, sz)
            o.cells[off] = (sz, v)
            return
        # weak update
        self.weak(st, o, lo, hi + sz, v if sz == 1 or True else None, sz, p.off)
    def kill(self, o, off, sz):
        ks = [k for k, x in o.cells.items() if k < off + sz and off < k + x[0]] if len(o.cells) < 64 else \
             [k for k in range(off - 15, off + sz) if k in o.cells and k + o.cells[k][0] > off]
        for k in ks:
            s0, v0 = o.cells[k]
            if k == off and s0 == sz: continue
            del o.cells[k]
            # keep the untouched remainder as unknown bytes
            for b in range(k, k + s0):
                if not (off <= b < off + sz):
                    v1 = byteof(v0, s0, b - k)
                    o.cells[b] = (1, v1 if v1 is not None else fresh('byte', -128, 127, True))
    def weak(self, st, o, lo, hi, v, sz, offp):
        if o.size is not None: lo, hi = max(lo, 0), min(hi, o.size)
        if lo in (INF, -INF) or hi in (INF, -INF) or hi - lo > 5000:
            o.cells = {}; o.base = 'unknown'; return
        step = 0
        for mm, cc in offp.t.items():
            if mm: step = math.gcd(step, cc) if isinstance(cc, int) else 1
        base = offp.t.get((), 0)
        if not step or step < sz: step = sz if sz == 1 else 1
        if sz > 1 and step % sz:
            for k in [k for k, x in o.cells.items() if k < hi and lo < k + x[0]]: del o.cells[k]
            if o.base != 'unknown' : o.base = 'unknown'
            return
        first = lo + ((base - lo) % step)
        ty = None
        for x in range(int(first), int(hi) - sz + 1, step):
            c = o.cells.get(x)
            if c is not None and c[0] == sz: old = c[1]
            elif any(k < x + sz and x < k + y[0] for k, y in o.cells.items()):
                for k in [k for k, y in o.cells.items() if k < x + sz and x < k + y[0]]: del o.cells[k]
                old = None
                o.base = o.base if o.base == 'unknown' else o.base
            else:
                if isinstance(v, Poly):
                    t = Ty('int', 8 * sz) if v.isint() and sz in (1, 2, 4, 8) else llir.DBL
                    old = self.base_read(st, o, x, t, o.tag.module if isinstance(o.tag, llir.Global) else None, sz) if o.base != 'unknown' else None
                else: old = None
            if isinstance(v, Poly) and isinstance(old, Poly):
                if v == old: continue
                h = ihull(self.rng(v, st), self.rng(old, st))
                o.cells[x] = (sz, fresh('weak', h[0], h[1], v.isint() and old.isint()))
            elif old is UNDEF: o.cells[x] = (sz, UNDEF)
            elif isinstance(v, Poly) and v.isint() and sz in (1, 2, 4, 8): o.cells[x] = (sz, fresh('weak', SMIN[8 * sz], SMAX[8 * sz], True))
            elif isinstance(v, Poly): o.cells[x] = (sz, fresh('weak'))
            else: o.cells[x] = (sz, Unk('weak'))
    def havoc(self, st, p, n=None):
        """unknown external write through p"""
        for q in ([p] if isinstance(p, Ptr) else [x for _, x in p.ps] if isinstance(p, PSet) else []):
            if isinstance(q.obj, int) and q.obj in st.mem:
                o = st.wobj(q.obj)
                if o.const: continue
                o.cells = {}; o.base = 'unknown'

    # ---------- joins
    def joinv(self, a, b, cond, sa, sb):
        if a is b or a == b: return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            ra = self.rng(a, sa); rb = self.rng(b, sb)
            h = ihull(ra, rb)
            isint = a.isint() and b.isint()
            if cond is not None and cond.op in ('eq', 'ne'):
                d = a - b
                if d == cond.p or d == -cond.p or cond.p.key()[0] == d.key()[0] and d.key()[2] * cond.p.key()[1] == cond.p.key()[2] * d.key()[1]:
                    return b if cond.op == 'eq' else a
            if cond is not None: A = atom(('ite', cond, a, b), h[0], h[1], isint)
            else:
                PL._cnt[0] += 1
                A = atom(('phi', PL._cnt[0], a, b), h[0], h[1], isint)
            return Poly.var(A)
        if isinstance(a, Cond) or isinstance(b, Cond):
            def tc(x):
                if isinstance(x, Cond): return x
                if isinstance(x, Poly): return cmp_cond('ne', x)
                return None
            x, y = tc(a), tc(b)
            if x is None or y is None: return Cond('ne', fresh('j', 0, 1, True))
            if cond is None: return Cond('ne', fresh('j', 0, 1, True))
            return cor(cand(cond, x), cand(neg(cond), y))
        if a is UNDEF or b is UNDEF: return UNDEF
        pa = [(None, a)] if isinstance(a, Ptr) else a.ps if isinstance(a, PSet) else None
        pb = [(None, b)] if isinstance(b, Ptr) else b.ps if isinstance(b, PSet) else None
        if pa is not None and pb is not None:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
                return Ptr(a.obj, self.joinv(a.off, b.off, cond, sa, sb))
            ps = [(cond, p) for _, p in pa]
            for _, p in pb:
                for i, (c, q) in enumerate(ps):
                    if q.obj == p.obj:
                        if q.off != p.off: ps[i] = (None, Ptr(q.obj, self.joinv(q.off, p.off, None, sa, sb)))
                        break
                else: ps.append((neg(cond) if cond is not None else None, p))
            return PSet(ps)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
            return Agg([self.joinv(x, y, cond, sa, sb) for x, y in zip(a.v, b.v)])
        return Unk('join')
    def join(self, A, B):
        """join of two states"""
        n = 0
        pa, pb = A.pc, B.pc
        while n < len(pa) and n < len(pb) and pa[n] == pb[n]: n += 1
        cond = None
        if n < len(pa) and n < len(pb) and neg(pa[n]) == pb[n]: cond = pa[n]
        R = State()
        R.pc = pa[:n]
        # facts
        for k, f in A.facts.items():
            g = B.facts.get(k)
            if g is None:
                # B may imply something from base ranges
                r = self.rng(k, B)
                if r[0] == -INF and r[1] == INF: continue
                h = ihull(f, r)
            else: h = ihull(f, g)
            if h[0] != -INF or h[1] != INF: R.facts[k] = h
        for k, g in B.facts.items():
            if k not in A.facts:
                r = self.rng(k, A)
                if r[0] == -INF and r[1] == INF: continue
                h = ihull(g, r)
                if h[0] != -INF or h[1] != INF: R.facts[k] = h
        R.ne = frozenset(p for p in A.ne if p in B.ne or self._nz(p, B)) | frozenset(p for p in B.ne if self._nz(p, A))
        # memory
        mem = {}
        for i, o in A.mem.items():
            q = B.mem.get(i)
            if q is None or q is o: mem[i] = o; continue
            if q.cells == o.cells and q.base == o.base and q.freed == o.freed: mem[i] = o; continue
            r = o.copy(); r.cells = {}
            r.freed = o.freed or q.freed
            if o.base != q.base: r.base = 'unknown'
            for k in set(o.cells) | set(q.cells):
                x = o.cells.get(k); y = q.cells.get(k)
                if x is not None and y is not None and x[0] == y[0]:
                    r.cells[k] = x if x[1] is y[1] else (x[0], self.joinv(x[1], y[1], cond, A, B))
                else:
                    z = x or y
                    src, other, oo = (A, B, q) if x is not None else (B, A, o)
                    if x is not None and y is not None: # size mismatch
                        r.base = 'unknown' if not isinstance(r.base, tuple) else r.base
                        r.cells[k] = (min(x[0], y[0]), fresh('mixj', SMIN[8], SMAX[8], True)) if min(x[0], y[0]) == 1 else (min(x[0], y[0]), Unk('mixj'))
                        continue
                    # read the base on the other side
                    w = z[1]
                    ty = llir.PTR if isinstance(w, (Ptr, PSet, Unk)) else Ty('int', 8 * z[0]) if (isinstance(w, Cond) or isinstance(w, Poly) and w.isint() and z[0] in (1, 2, 4, 8)) else llir.DBL if z[0] == 8 else Ty('float') if z[0] == 4 else Ty('x86_fp80')
                    if any(k2 < k + z[0] and k < k2 + c2[0] for k2, c2 in oo.cells.items()): v2 = self.unknown(ty, 'mixj')
                    else: v2 = self.base_read(other, oo, k, ty, oo.tag.module if isinstance(oo.tag, llir.Global) else self.prog.modules[0], z[0])
                    if v2 is UNDEF: r.cells[k] = (z[0], UNDEF)
                    else: r.cells[k] = (z[0], self.joinv(w, v2, cond, src, other) if src is A else self.joinv(v2, w, cond, other, src))
            mem[i] = r
        for i, q in B.mem.items():
            if i not in mem: mem[i] = q
        R.mem = mem
        # env
        env = {}
        eb = B.env
        for k, v in A.env.items():
            w = eb.get(k)
            if w is v: env[k] = v
            elif w is not None:
                env[k] = v if v == w else self.joinv(v, w, cond, A, B)
        R.env = env
        return R
    def _nz(self, p, st):
        lo, hi = self.rng(p, st)
        return lo > 0 or hi < 0
    def widen(self, old, new, tag, thr):
        """old: saved header state, new: arriving state.  Returns (state, stable)"""
        n = 0
        while n < len(old.pc) and n < len(new.pc) and old.pc[n] == new.pc[n]: n += 1
        R = State(); R.pc = old.pc[:n]
        stable = [True]
        for k, f in old.facts.items():
            r = self.rng(k, new)
            if r[0] >= f[0] and r[1] <= f[1]: R.facts[k] = f
            else:
                h = (f[0] if r[0] >= f[0] else -INF, f[1] if r[1] <= f[1] else INF)
                if h != (-INF, INF): R.facts[k] = h
                stable[0] = False
        R.ne = frozenset(p for p in old.ne if p in new.ne or self._nz(p, new))
        if R.ne != old.ne: stable[0] = False
        def wv(a, b, name, bits=None):
            if a is b or a == b: return a
            if isinstance(a, Poly) and isinstance(b, Poly):
                ra = self.rng(a, old); rb = self.rng(b, new)
                isw = len(a.t) == 1 and a.is_const() is False and ATOMS[next(iter(a.atoms()))].key[0] == 'w'
                if isw and rb[0] >= ra[0] and rb[1] <= ra[1]: return a
                stable[0] = False
                isint = a.isint() and b.isint()
                lo, hi = ihull(ra, rb)
                if isw or True:
                    if rb[0] < ra[0]: lo = max([t for t in thr if t <= rb[0]], default=-INF)
                    if rb[1] > ra[1]: hi = min([t for t in thr if t >= rb[1]], default=INF)
                PL._cnt[0] += 1
                return Poly.var(atom(('w', tag, name, PL._cnt[0]), lo, hi, isint))
            stable[0] = False
            if isinstance(a, (Ptr, PSet)) and isinstance(b, (Ptr, PSet)):
                pa = [a] if isinstance(a, Ptr) else [p for _, p in a.ps]
                pb = [b] if isinstance(b, Ptr) else [p for _, p in b.ps]
                st0 = stable[0]; stable[0] = True
                out = list(pa); chg = False
                for p in pb:
                    for i, q in enumerate(out):
                        if q.obj == p.obj:
                            off = wv(q.off, p.off, name + '.off')
                            if off is not q.off: out[i] = Ptr(q.obj, off); chg = chg or off != q.off
                            break
                    else: out.append(p); chg = True
                if not chg: return a
                stable[0] = False
                return out[0] if len(out) == 1 else PSet([(None, p) for p in out])
            if isinstance(a, Cond) or isinstance(b, Cond):
                PL._cnt[0] += 1
                return Cond('ne', Poly.var(atom(('w', tag, name, PL._cnt[0]), 0, 1, True)))
            if a is UNDEF or b is UNDEF: return UNDEF
            return Unk('widen')
        st0 = stable[0]
        mem = {}
        for i, o in old.mem.items():
            q = new.mem.get(i)
            if q is None or q is o: mem[i] = o; continue
            if q.cells == o.cells and q.base == o.base: mem[i] = o; continue
            r = o.copy(); r.cells = {}
            if o.base != q.base: r.base = 'unknown'; stable[0] = False
            for k in set(o.cells) | set(q.cells):
                x = o.cells.get(k); y = q.cells.get(k)
                if x is not None and y is not None and x[0] == y[0]:
                    r.cells[k] = (x[0], wv(x[1], y[1], 'm%d.%d' % (i, k)))
                else:
                    z = x or y
                    if x is None and o.base == 'unknown': continue       # already unknown
                    stable[0] = False
                    if x is None and not isinstance(o.base, tuple) and o.base == 'undef':
                        r.cells[k] = (z[0], UNDEF)
                    elif isinstance(z[1], Poly) and z[1].isint() and z[0] in (1, 2, 4, 8):
                        r.cells[k] = (z[0], fresh('wm', SMIN[8 * z[0]], SMAX[8 * z[0]], True))
                    elif isinstance(z[1], Poly): r.cells[k] = (z[0], fresh('wm'))
                    else: r.cells[k] = (z[0], Unk('wm'))
            mem[i] = r
        for i, q in new.mem.items():
            if i not in mem: mem[i] = q
        R.mem = mem
        for k, v in old.env.items():
            w = new.env.get(k)
            if w is None: continue
            R.env[k] = wv(v, w, k)
        return R, stable[0]

    # ---------- constants and operands
    def constv(self, st, m, c):
        k = c.k
        if k == 'int':
            if c.ty.a == 1: return TRUE if c.v & 1 else FALSE
            return K(wrap(c.v, c.ty.a))
        if k == 'float':
            r = real_const(c.v)
            return fresh('inf') if r is None else r
        if k == 'null': return NULL
        if k == 'zero':
            if c.ty.k == 'ptr': return NULL
            if c.ty.k in ('arr', 'struct', 'named'): return Unk('zeroagg')
            return ZERO
        if k == 'undef': return UNDEF
        if k == 'glob':
            f = m.funcs.get(c.v)
            if f is not None: return Ptr(('fn', c.v, id(m)), ZERO)
            o = self.gobj(st, m, c.v)
            if o is None: return Unk('extern ' + c.v)
            return Ptr(o.id, ZERO)
        if k == 'gep':
            vals = [self.constv(st, m, x) for x in c.v]
            return self.gep(st, m, c.x, vals[0], vals[1:])
        if k == 'cast':
            v = self.constv(st, m, c.v)
            if c.x in ('ptrtoint',): return Unk('ptrtoint')
            return v
        if k == 'bin':
            return Unk('constbin')
        if k == 'meta': return UNDEF
        if k in ('str', 'agg'): return Unk('agg')
        raise IRError('const %r' % c)
    def val(self, st, m, x):
        if isinstance(x, Loc): return st.env[x.name]
        return self.constv(st, m, x)
    def as_poly(self, v, bits=32, what=''):
        if isinstance(v, Poly): return v
        if isinstance(v, Cond):
            if v.op == 'true': return ONE
            if v.op == 'false': return ZERO
            # canonical 0/1 atom for the condition
            return Poly.var(atom(('ite', v, ONE, ZERO), 0, 1, True))
        if isinstance(v, (Ptr, PSet)):
            if isinstance(v, Ptr) and v.obj is None: return ZERO
            if isinstance(v, Ptr):
                return Poly.var(atom(('addr', v.obj), 4096, 1 << 47, True, '&%s' % (v.obj,))) + v.off
        return fresh(what or 'x', SMIN.get(bits, -INF), SMAX.get(bits, INF), True)
    def gep(self, st, m, ty, base, idx):
        if isinstance(base, PSet):
            return PSet([(c, self.gep(st, m, ty, p, idx)) for c, p in base.ps])
        if not isinstance(base, Ptr): return base if isinstance(base, Unk) else Unk('gep')
        off = base.off
        first = True
        for ix in idx:
            p = self.as_poly(ix, 64)
            if first:
                off = off + p.scale(m.sizeof(ty)); first = False
            else:
                ty = m.res(ty)
                if ty.k == 'arr': ty = ty.b; off = off + p.scale(m.sizeof(ty))
                elif ty.k == 'struct':
                    offs, _ = m.layout(ty); i = p.c; off = off + K(offs[i]); ty = ty.a[i]
                else: raise IRError('gep into %r' % ty)
        return Ptr(base.obj, off)

    # ---------- integer arithmetic
    def fit(self, p, bits, st):
        c = p.c
        if c is not None: return K(wrap(int(c), bits))
        p = glue(p, bits)
        lo, hi = self.rng(p, st)
        if lo >= SMIN[bits] and hi <= SMAX[bits]: return p
        if lo > SMAX[bits] and hi < (1 << bits): return p - K(1 << bits)
        return Poly.var(atom(('wrap', bits, p), SMIN[bits], SMAX[bits], True))
    def idiv(self, p, n, st, mode):
        """(q,r) with p = n*q + r; mode 'floor' or 'trunc'; n > 0"""
        if n == 1: return p, ZERO
        Q = {}; R = {}
        for m, c in p.t.items():
            if m and isinstance(c, int) and c % n == 0: Q[m] = c // n
            elif m and isinstance(c, int) and abs(c) > n:
                Q[m] = c // n; R[m] = c - n * (c // n)
                if not R[m]: del R[m]
            else: R[m] = c
        for attempt in range(2):
            Qp, Rp = Poly(dict(Q)), Poly(dict(R))
            rl, rh = self.rng(Rp, st)
            if rl not in (INF, -INF) and rh not in (INF, -INF):
                lo, hi = self.rng(p, st)
                if mode == 'floor' or lo >= 0:
                    if rl // n == rh // n:
                        q0 = int(rl // n); return Qp + K(q0), Rp - K(n * q0)
                elif hi <= 0:
                    if -((-rl) // n) == -((-rh) // n):
                        q0 = int(-((-rl) // n)); return Qp + K(q0), Rp - K(n * q0)
                else:
                    # sign unknown but exact division
                    if rl == rh and rl % n == 0:
                        q0 = int(rl // n); return Qp + K(q0), ZERO
            # second attempt without reducing non multiples
            Q2 = {}; R2 = {}
            for m, c in p.t.items():
                if m and isinstance(c, int) and c % n == 0: Q2[m] = c // n
                else: R2[m] = c
            if Q2 == Q: break
            Q, R = Q2, R2
        return None
    def divrem(self, op, a, b, bits, st, ins):
        n = b.c
        if n is None:
            r = self.rng(b, st)
            if r[0] == r[1]: n = r[0]
        if n is None or n == 0:
            rb = self.rng(b, st)
            if rb[0] <= 0 <= rb[1]: self.ev('divzero', ins, what=op)
            return fresh(op, SMIN[bits], SMAX[bits], True)
        n = int(n)
        uns = op[0] == 'u'
        if uns:
            lo, hi = self.rng(a, st)
            if lo < 0:
                if a.c is not None: a = K(a.c & ((1 << bits) - 1))
                else: return fresh(op, 0, ((1 << bits) - 1) // abs(n) if op == 'udiv' else abs(n) - 1, True)
            if n < 0: n &= (1 << bits) - 1
        sg = 1
        if n < 0: sg = -1; n = -n
        qr = self.idiv(a, n, st, 'trunc')
        if qr is not None: return qr[0].scale(sg) if op[1:] == 'div' else qr[1]
        lo, hi = self.rng(a, st)
        if op[1:] == 'div':
            def tr(x): return x if x in (INF, -INF) else (int(x) // n if x >= 0 else -((-int(x)) // n))
            return Poly.var(atom(('div', a, n), tr(lo), tr(hi), True)).scale(sg)
        return Poly.var(atom(('rem', a, n), 0 if lo >= 0 else max(-n + 1, lo), 0 if hi <= 0 else min(n - 1, hi), True))
    def binop(self, ins, a, b, st):
        op = ins.op; ty = ins.ty
        if ty.k == 'int' and ty.a == 1 or isinstance(a, Cond) and isinstance(b, Cond):
            def tc(x): return x if isinstance(x, Cond) else cmp_cond('ne', self.as_poly(x, 1))
            x, y = tc(a), tc(b)
            if op == 'and' or op == 'mul': return cand(x, y)
            if op == 'or': return cor(x, y)
            if op in ('xor', 'add', 'sub'):
                if y.op == 'true': return neg(x)
                if x.op == 'true': return neg(y)
                if x.op == 'false': return y
                if y.op == 'false': return x
                return cor(cand(x, neg(y)), cand(neg(x), y))
            return Cond('ne', fresh(op, 0, 1, True))
        if ty.k in llir.FLOATS:
            a = a if isinstance(a, Poly) else fresh('f'); b = b if isinstance(b, Poly) else fresh('f')
            if PL.REDUCE[0] and op in ('fadd', 'fsub', 'fmul'): return PL.normal(a + b if op == 'fadd' else a - b if op == 'fsub' else a * b)
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b.c == 0:
                    self.ev('fdivzero', ins); return fresh('fdiv0')
                if self.track_fdiv:
                    lo, hi = self.rng(b, st)
                    if lo <= 0 <= hi and b not in st.ne and -b not in st.ne: self.ev('fdiv', ins, den=b)
                return PL.normal(a * inv(b)) if PL.REDUCE[0] else a * inv(b)
            if op == 'frem': return self.fmod(a, b, st)
        if ty.k == 'vec': return Unk('vec')
        bits = ty.a
        if isinstance(a, Unk) or isinstance(b, Unk) or a is UNDEF or b is UNDEF:
            return fresh(op, SMIN[bits], SMAX[bits], True)
        a = self.as_poly(a, bits); b = self.as_poly(b, bits)
        if op == 'add': return self.fit(a + b, bits, st)
        if op == 'sub': return self.fit(a - b, bits, st)
        if op == 'mul': return self.fit(a * b, bits, st)
        if op in ('sdiv', 'udiv', 'srem', 'urem'): return self.divrem(op, a, b, bits, st, ins)
        ca, cb = a.c, b.c
        if ca is not None and cb is not None:
            x, y = int(ca), int(cb); M = (1 << bits) - 1
            r = {'shl': lambda: x << y, 'lshr': lambda: (x & M) >> y, 'ashr': lambda: x >> y,
                 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]()
            return K(wrap(r, bits))
        if op == 'shl' and cb is not None: return self.fit(a.scale(1 << int(cb)), bits, st)
        lo, hi = self.rng(a, st)
        if op in ('ashr', 'lshr') and cb is not None and (op == 'ashr' or lo >= 0):
            n = 1 << int(cb)
            qr = self.idiv(a, n, st, 'floor')
            if qr: return qr[0]
            return Poly.var(atom(('fdiv2', a, n), lo // n if lo != -INF else lo, hi // n if hi != INF else hi, True))
        if op == 'lshr' and cb is not None: return fresh('lshr', 0, ((1 << bits) - 1) >> int(cb), True)
        if op == 'and':
            if ca is not None: a, b, ca, cb = b, a, cb, ca; lo, hi = self.rng(a, st)
            if cb is not None and cb >= 0 and (cb & (cb + 1)) == 0:
                n = int(cb) + 1
                if n > 1:
                    qr = self.idiv(a, n, st, 'floor')
                    if qr: return qr[1]
                return Poly.var(atom(('low', a, n), 0, cb, True))
            if cb is not None and cb >= 0:
                h = cb if lo < 0 else min(cb, hi)
                return Poly.var(atom(('and', a, cb), 0, h, True))
            lob, hib = self.rng(b, st)
            if lo >= 0 or lob >= 0:
                return Poly.var(atom(('and', a, b), 0, min(hi if lo >= 0 else INF, hib if lob >= 0 else INF), True))
            return Poly.var(atom(('and', a, b), SMIN[bits], SMAX[bits], True))
        if op in ('or', 'xor'):
            lob, hib = self.rng(b, st)
            if lo >= 0 and lob >= 0 and hi != INF and hib != INF:
                top = (1 << max(int(hi).bit_length(), int(hib).bit_length())) - 1
                return Poly.var(atom((op, a, b), max(lo, lob) if op == 'or' else 0, top, True))
            if op == 'xor' and cb == -1: return -a - ONE
            return Poly.var(atom((op, a, b), SMIN[bits], SMAX[bits], True))
        return Poly.var(atom((op, a, b, bits), SMIN[bits], SMAX[bits], True))
    track_fdiv = False
    def fmod(self, a, b, st):
        lo, hi = self.rng(a, st); bl, bh = self.rng(b, st)
        if bl == bh == bl and b.c is not None and lo > -abs(bl) and hi < abs(bl): return a
        m = max(abs(bl), abs(bh))
        if bl > 0 and lo > -bl and hi < bl: return a
        if b.c is not None and b.c > 0 and lo not in (INF, -INF) and hi not in (INF, -INF):
            if lo >= 0 and lo // b.c == hi // b.c: return a - K(b.c * (lo // b.c))
            if hi <= 0 and (-hi) // b.c == (-lo) // b.c: return a + K(b.c * ((-hi) // b.c))
        return Poly.var(atom(('fmod', a, b), 0 if lo >= 0 else max(-m, lo) if lo != -INF else -m, 0 if hi <= 0 else min(m, hi) if hi != INF else m))
    def floor(self, p, st):
        if p.isint(): return p
        I = {}; R = {}
        for m, c in p.t.items():
            if all(q > 0 and ATOMS[a].isint for a, q in m):
                ic = math.floor(c)
                if m:
                    if c == ic: I[m] = ic
                    else: R[m] = c
                else:
                    R[m] = c
            else: R[m] = c
        Ip, Rp = Poly(I), Poly(R)
        lo, hi = self.rng(Rp, st)
        if lo not in (INF, -INF) and hi not in (INF, -INF):
            if math.floor(lo) == math.floor(hi): return Ip + K(math.floor(lo))
        k, sc, c = Rp.key()
        sh = math.floor(c)
        return Ip + K(sh) + Poly.var(atom(('floor', Rp - K(sh)), fl(lo - sh), fl(hi - sh), True))
    def trunc_(self, p, st):
        if p.isint(): return p
        lo, hi = self.rng(p, st)
        if lo >= 0: return self.floor(p, st)
        if hi <= 0: return -self.floor(-p, st)
        def tr(x): return x if x in (INF, -INF) else math.trunc(x)
        return Poly.var(atom(('trunc', p), tr(lo), tr(hi), True))
    def cast(self, ins, v, st, m):
        op = ins.op; ty = ins.ty; src = ins.ops[0].ty
        if op in ('bitcast', 'addrspacecast', 'fpext', 'fptrunc'):
            return v
        if op == 'inttoptr':
            if isinstance(v, Poly) and v.c == 0: return NULL
            return Unk('inttoptr')
        if op == 'ptrtoint': return self.as_poly(v, 64, 'p2i')
        if op in ('zext', 'sext'):
            if isinstance(v, Cond):
                if op == 'sext': return -self.as_poly(v)
                return self.as_poly(v)
            v = self.as_poly(v, src.a)
            if op == 'sext': return v
            lo, hi = self.rng(v, st)
            if lo >= 0: return v
            if hi < 0: return v + K(1 << src.a)
            return Poly.var(atom(('zext', v, src.a), 0, (1 << src.a) - 1, True))
        if op == 'trunc':
            if ty.a == 1:
                if isinstance(v, Cond): return v
                v = self.as_poly(v, src.a)
                lo, hi = self.rng(v, st)
                if len(v.t) == 1 and lo >= 0 and hi <= 1:
                    a = next(iter(v.atoms()), None)
                    if a is not None and ATOMS[a].key[0] == 'ite' and ATOMS[a].key[2] == ONE and ATOMS[a].key[3] == ZERO: return ATOMS[a].key[1]
                    return cmp_cond('ne', v)
                if v.c is not None: return TRUE if v.c & 1 else FALSE
                return Cond('ne', fresh('bit', 0, 1, True))
            v = self.as_poly(v, src.a)
            if len(v.t) == 1:
                (mm, c), = v.t.items()
                if c == 1 and len(mm) == 1 and mm[0][1] == 1:
                    k = ATOMS[mm[0][0]].key
                    if k[0] == 'zext' and k[2] == ty.a: return k[1]
            return self.fit(v, ty.a, st)
        if op == 'sitofp' or op == 'uitofp':
            if isinstance(v, Cond): v = self.as_poly(v)
            v = self.as_poly(v, src.a if src.k == 'int' else 32)
            if op == 'uitofp':
                lo, hi = self.rng(v, st)
                if hi < 0: return v + K(1 << src.a)
                if lo < 0: return Poly.var(atom(('zext', v, src.a), 0, (1 << src.a) - 1, True))
            return v
        if op in ('fptosi', 'fptoui'):
            v = v if isinstance(v, Poly) else fresh('f')
            r = self.trunc_(v, st)
            lo, hi = self.rng(r, st)
            if op == 'fptosi':
                if lo < SMIN[ty.a] or hi > SMAX[ty.a]:
                    self.ev('fpcast', ins, lo=lo, hi=hi)
                    return Poly.var(atom(('fptosi', r, ty.a), max(lo, SMIN[ty.a]), min(hi, SMAX[ty.a]), True)) if True else r
            return r
        raise IRError('cast ' + op)
    # ---------- comparisons
    def icmp(self, ins, a, b, st):
        pred = ins.x
        pa = isinstance(a, (Ptr, PSet, Unk)); pb = isinstance(b, (Ptr, PSet, Unk))
        if pa or pb:
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj: return self.cmp2(pred, a.off, b.off, 64, st)
                if pred == 'eq': return FALSE
                if pred == 'ne': return TRUE
            if isinstance(a, PSet) and isinstance(b, Ptr) or isinstance(b, PSet) and isinstance(a, Ptr):
                S, q = (a, b) if isinstance(a, PSet) else (b, a)
                if pred in ('eq', 'ne'):
                    hit = [c for c, p in S.ps if p.obj == q.obj]
                    if not hit: return FALSE if pred == 'eq' else TRUE
                    if len(hit) == 1 and hit[0] is not None and len(S.ps) == 2:
                        r = hit[0]
                        return r if pred == 'eq' else neg(r)
            # deterministic opaque condition
            ka = a if isinstance(a, (Ptr, PSet)) else ('unk', id(a)) if isinstance(a, Unk) else a
            kb = b if isinstance(b, (Ptr, PSet)) else ('unk', id(b)) if isinstance(b, Unk) else b
            A = Poly.var(atom(('pcmp', ka, kb), 0, 1, True))      # 1 iff equal
            if pred == 'eq': return Cond('ne', A)
            if pred == 'ne': return Cond('eq', A)
            return Cond('ne', fresh('pcmp', 0, 1, True))
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, Cond) and isinstance(b, Poly) and b.c is not None: k, c = a, b.c
            elif isinstance(a, Cond) and isinstance(b, Cond) and b.op in ('true', 'false'): k, c = a, 1 if b.op == 'true' else 0
            else: k = None
            if k is not None and pred in ('eq', 'ne'):
                r = k if c else neg(k)
                return r if pred == 'eq' else neg(r)
        bits = ins.ops[0].ty.a
        return self.cmp2(pred, self.as_poly(a, bits), self.as_poly(b, bits), bits, st)
    def cmp2(self, pred, a, b, bits, st):
        if pred in ('eq', 'ne'):
            r = None
            # comparison of a 0/1 condition atom with a constant
            for x, y in ((a, b), (b, a)):
                c = y.c
                if c is not None and len(x.t) == 1:
                    (m, k), = x.t.items()
                    if k == 1 and len(m) == 1 and m[0][1] == 1:
                        kk = ATOMS[m[0][0]].key
                        if kk[0] == 'ite' and kk[2] == ONE and kk[3] == ZERO and isinstance(kk[1], Cond) and c in (0, 1):
                            r = kk[1] if c == 1 else neg(kk[1])
                        if kk[0] == 'ite' and isinstance(kk[2], Poly) and isinstance(kk[3], Poly) and kk[2].c is not None and kk[3].c is not None and isinstance(kk[1], Cond) and r is None:
                            if kk[2].c == c and kk[3].c != c: r = kk[1]
                            elif kk[3].c == c and kk[2].c != c: r = neg(kk[1])
                            elif kk[3].c != c and kk[2].c != c: r = FALSE
            if r is None: r = cmp_cond('eq', a - b)
            return r if pred == 'eq' else neg(r)
        if pred[0] == 'u':
            la, ha = self.rng(a, st); lb, hb = self.rng(b, st)
            if la < 0 or lb < 0:
                def up(p, lo, hi):
                    if p.c is not None: return K(int(p.c) & ((1 << bits) - 1))
                    if hi < 0: return p + K(1 << bits)
                    if lo >= 0: return p
                    return None
                x, y = up(a, la, ha), up(b, lb, hb)
                if x is None and y is not None and y.c is not None:
                    # classic range test: a <u n  <=>  0 <= a < n
                    if y.c <= SMAX[bits]:
                        n = y
                        if pred == 'ult': return cand(cmp_cond('le', -a), cmp_cond('lt', a - n))
                        if pred == 'ule': return cand(cmp_cond('le', -a), cmp_cond('le', a - n))
                        if pred == 'ugt': return cor(cmp_cond('lt', a), cmp_cond('lt', n - a))
                        if pred == 'uge': return cor(cmp_cond('lt', a), cmp_cond('le', n - a))
                if x is None or y is None:
                    return Cond('ne', Poly.var(atom(('ucmp', pred, a, b), 0, 1, True)))
                a, b = x, y
        o = pred[-2:] if pred not in ('eq', 'ne') else pred
        if o == 'lt': return cmp_cond('lt', a - b)
        if o == 'le': return cmp_cond('le', a - b)
        if o == 'gt': return cmp_cond('lt', b - a)
        if o == 'ge': return cmp_cond('le', b - a)
        raise IRError(pred)
    def fcmp(self, ins, a, b, st):
        pred = ins.x
        if pred in ('ord', 'true'): return TRUE
        if pred in ('uno', 'false'): return FALSE
        a = a if isinstance(a, Poly) else fresh('f'); b = b if isinstance(b, Poly) else fresh('f')
        o = pred[1:]
        if o == 'eq': return cmp_cond('eq', a - b)
        if o == 'ne': return cmp_cond('ne', a - b)
        if o == 'lt': return cmp_cond('lt', a - b)
        if o == 'le': return cmp_cond('le', a - b)
        if o == 'gt': return cmp_cond('lt', b - a)
        if o == 'ge': return cmp_cond('le', b - a)
        raise IRError(pred)

    # ---------- execution
    def call(self, f, args, st):
        """analyse f in state st; returns (state, value) or None if f never returns"""
        if self.calldepth >= self.max_depth: raise Imprecise('call depth')
        if self.calldepth == 0: self.total += self.steps; self.steps = 0
        self.calldepth += 1; self.stack.append(f)
        self.analysed.add(f.module.func_src(f)[0])
        saved = st.env
        try:
            r = self.run(f, args, st)
        finally:
            self.calldepth -= 1; self.stack.pop()
        if r is None: return None
        s2, v = r
        s2.env = saved
        return s2, v
    def run(self, f, args, st):
        m = f.module
        cfg = self.prog.cfg(f)
        st.env = {}
        for (n, ty), a in zip(f.params, args): st.env[n] = a
        if f.vararg: st.env['...'] = Agg(list(args[len(f.params):]))
        pend = {cfg.entry: st}
        und = {h: 0 for h in cfg.loops}
        saved = {}
        wmode = set()
        thr = None
        ret = None
        frame = self.calldepth
        import heapq
        heap = [(cfg.rpo[cfg.entry], cfg.entry)]
        while heap:
            _, b = heapq.heappop(heap)
            st = pend.pop(b, None)
            if st is None: continue
            blk = f.blocks[b]
            if b in wmode:
                # widening at this loop header
                if thr is None: thr = self.thresholds(f)
                if b in saved:
                    st2, stable = self.widen(saved[b], st, (id(f), b, frame), thr)
                    if stable: continue
                    saved[b] = st2.copy(); st = st2
                else:
                    saved[b] = st.copy()
            outs = self.block(f, m, blk, st)
            if outs is None: continue
            if outs[0] == 'ret':
                rv = outs[2]
                if ret is None: ret = (outs[1], rv)
                else:
                    A, B = ret[0], outs[1]
                    A.env = {'.ret': ret[1]} if ret[1] is not None else {}
                    B.env = {'.ret': rv} if rv is not None else {}
                    J = self.join(A, B)
                    ret = (J, J.env.get('.ret'))
                continue
            edges = outs[1]
            if len(edges) > 1:
                for h in cfg.inloops[b]:
                    if any(t not in cfg.loops[h] for t, _ in edges) and any(t in cfg.loops[h] for t, _ in edges):
                        und[h] += 1
                        if und[h] > self.und_limit: wmode.add(h)
            for t, s in edges:
                tb = f.blocks[t]
                if tb.phis:
                    vals = []
                    for ph in tb.phis:
                        for v, pb in ph.x:
                            if pb == b:
                                w = self.val(s, m, v)
                                if w is UNDEF: w = UNDEF
                                vals.append((ph.res, w)); break
                        else: raise IRError('phi')
                    for r, v in vals: s.env[r] = v
                if t in cfg.loops and b not in cfg.loops[t]:     # loop entry
                    und[t] = 0; wmode.discard(t); saved.pop(t, None)
                if t in pend:
                    pend[t] = self.join(pend[t], s)
                else:
                    pend[t] = s
                    heapq.heappush(heap, (cfg.rpo[t], t))
        return ret
    def thresholds(self, f):
        s = {0, 1, -1}
        for b in f.blocks.values():
            for i in b.ins:
                for o in i.ops:
                    if isinstance(o, Const) and o.k == 'int':
                        v = wrap(o.v, o.ty.a) if o.ty.a > 1 else o.v
                        s.update((v - 1, v, v + 1))
                if i.op == 'alloca':
                    try: z = f.module.sizeof(i.x); s.update((z - 1, z, z + 1))
                    except IRError: pass
        for n in (8, 16, 32, 64): s.update((SMIN[n], SMAX[n]))
        return sorted(s)
    def block(self, f, m, blk, st):
        env = st.env
        for ins in blk.body:
            self.steps += 1
            if self.steps > self.fuel: raise Fuel('fuel exhausted in %s' % f.name)
            if self.deadline is not None and time.monotonic() > self.deadline: raise Fuel('time exhausted in %s' % f.name)
            op = ins.op
            if op == 'br':
                if len(ins.x) == 1: return ('go', [(ins.x[0], st)])
                c = self.val(st, m, ins.ops[0])
                if not isinstance(c, Cond): c = cmp_cond('ne', self.as_poly(c, 1))
                d = self.decide(c, st)
                if d is True: return ('go', [(ins.x[0], st)])
                if d is False: return ('go', [(ins.x[1], st)])
                if ins.x[0] == ins.x[1]: return ('go', [(ins.x[0], st)])
                self.branch_und += 1
                if self.script is not None:
                    if self.pos == len(self.script): self.script.append(True)
                    t = self.script[self.pos]; self.pos += 1
                    cc = c if t else neg(c)
                    if not self.assume(st, cc, True): raise DeadPath()
                    self.pathc.append(cc)
                    return ('go', [(ins.x[0] if t else ins.x[1], st)])
                if self.strict: raise OpenBranch('%s: branch not decided by the partition: %r' % (m.func_src(f)[0], c))
                s2 = st.copy()
                out = []
                if self.assume(st, c, True): out.append((ins.x[0], st))
                if self.assume(s2, neg(c), True): out.append((ins.x[1], s2))
                return ('go', out)
            if op == 'switch':
                v = self.as_poly(self.val(st, m, ins.ops[0]), ins.ops[0].ty.a)
                bits = ins.ops[0].ty.a
                out = {}
                cur = st
                alive = True
                for cv, tgt in ins.x[1]:
                    c = self.cmp2('eq', v, K(wrap(cv, bits)), bits, cur)
                    d = self.decide(c, cur)
                    if d is False: continue
                    if d is True:
                        out.setdefault(tgt, []).append(cur); alive = False; break
                    s2 = cur.copy()
                    if self.assume(s2, c, True): out.setdefault(tgt, []).append(s2)
                    if not self.assume(cur, neg(c), True): alive = False; break
                if alive: out.setdefault(ins.x[0], []).append(cur)
                edges = []
                for tgt, ss in out.items():
                    s = ss[0]
                    for x in ss[1:]: s = self.join(s, x)
                    edges.append((tgt, s))
                return ('go', edges)
            if op == 'ret':
                return ('ret', st, self.val(st, m, ins.ops[0]) if ins.ops else None)
            if op == 'unreachable': return None
            if op == 'call' or op == 'invoke':
                r = self.docall(f, m, ins, st)
                if r is None: return None
                st2, v = r
                if st2 is not st:
                    st = st2; env = st.env
                if ins.res is not None: env[ins.res] = v
                if op == 'invoke': return ('go', [(ins.x[1], st)])
                continue
            v = self.exec(f, m, ins, st)
            if ins.res is not None: env[ins.res] = v
        raise IRError('no terminator')
    def exec(self, f, m, ins, st):
        op = ins.op
        if op == 'load': return self.load(st, self.val(st, m, ins.ops[0]), ins.ty, ins, m)
        if op == 'store':
            v = self.val(st, m, ins.ops[0])
            self.store(st, self.val(st, m, ins.ops[1]), v, ins.ops[0].ty, ins, m)
            return None
        if op == 'getelementptr':
            return self.gep(st, m, ins.x, self.val(st, m, ins.ops[0]), [self.val(st, m, x) for x in ins.ops[1:]])
        if op in llir.BIN: return self.binop(ins, self.val(st, m, ins.ops[0]), self.val(st, m, ins.ops[1]), st)
        if op in llir.CAST: return self.cast(ins, self.val(st, m, ins.ops[0]), st, m)
        if op == 'icmp': return self.icmp(ins, self.val(st, m, ins.ops[0]), self.val(st, m, ins.ops[1]), st)
        if op == 'fcmp': return self.fcmp(ins, self.val(st, m, ins.ops[0]), self.val(st, m, ins.ops[1]), st)
        if op == 'fneg':
            v = self.val(st, m, ins.ops[0]); return -v if isinstance(v, Poly) else fresh('f')
        if op == 'alloca':
            n = 1
            if ins.ops:
                p = self.as_poly(self.val(st, m, ins.ops[0]), 64)
                n = p.c
            try: sz = m.sizeof(ins.x) * n if n is not None else None
            except IRError: sz = None
            o = self.new_obj(st, sz, 'alloca', '%s.%s' % (m.func_src(f)[0], ins.res))
            return Ptr(o.id, ZERO)
        if op == 'select':
            c = self.val(st, m, ins.ops[0])
            if not isinstance(c, Cond): c = cmp_cond('ne', self.as_poly(c, 1))
            d = self.decide(c, st)
            if d is True: return self.val(st, m, ins.ops[1])
            if d is False: return self.val(st, m, ins.ops[2])
            return self.joinv(self.val(st, m, ins.ops[1]), self.val(st, m, ins.ops[2]), c, st, st)
        if op == 'freeze': return self.val(st, m, ins.ops[0])
        if op == 'extractvalue':
            a = self.val(st, m, ins.ops[0])
            if isinstance(a, Agg): return a.v[ins.x[0]]
            return Unk('extract')
        if op == 'insertvalue':
            a = self.val(st, m, ins.ops[0]); v = self.val(st, m, ins.ops[1])
            n = len(m.res(ins.ty).a)
            l = list(a.v) if isinstance(a, Agg) else [Unk('x')] * n
            l[ins.x[0]] = v
            return Agg(l)
        if op == 'landingpad': return Unk('lp')
        raise IRError('exec ' + op)
    def docall(self, f, m, ins, st):
        callee = ins.x[0] if ins.op == 'invoke' else ins.x
        if isinstance(callee, Loc):
            p = st.env[callee.name]
            if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == 'fn': name = p.obj[1]
            else:
                name = None
        else: name = callee.v
        args = [self.val(st, m, a) for a in ins.ops]
        if name is None:
            h = self.hooks.get('<indirect>')
            if h: return h(self, st, args, ins, m)
            for a in args: self.havoc(st, a)
            return st, self.unknown(ins.ty, 'indirect', m)
        g = self.prog.resolve(m, name)
        src = g.module.func_src(g)[0] if g is not None else name
        if self.call_log is not None: self.call_log(self, src, args, ins, st, f)
        h = self.hooks.get(src)
        if h is not None: return h(self, st, args, ins, m)
        import libmodel
        h = libmodel.MODELS.get(name)
        if h is not None and (g is None or name in libmodel.OVERRIDE): return h(self, st, args, ins, m)
        if g is None:
            if name.startswith('llvm.'): return libmodel.intrinsic(self, st, name, args, ins, m)
            return libmodel.external(self, st, name, args, ins, m)
        # argument/param mismatch guards
        env = st.env
        r = self.call(g, args, st)
        if r is None: return None
        s2, v = r
        s2.env = env if s2.env is None else s2.env
        return s2, v
