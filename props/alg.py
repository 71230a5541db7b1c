"""Helpers: abstract calls on symbolic vectors and matrices, with vector/matrix oracles in the value domain."""
import core, ident
from core import *
from fractions import Fraction as Fr
from poly import sincos, sqrt_, inv, normal, is_zero, clear
D = llir.Ty('double')
def V(name, n=3, lo=-INF, hi=INF): return [Poly.var(atom(('in', name, i), lo, hi, False, '%s%d' % (name, i))) for i in range(n)]
def S(name, lo=-INF, hi=INF, isint=False): return Poly.var(atom(('in', name), lo, hi, isint, name))

class Aborts(Imprecise): pass
class Run:
    """one abstract call; arrays are given as lists of values"""
    def __init__(self, P, strict=False):
        self.P = P; self.I = Interp(P); self.I.strict = strict; self.st = State(); self.m = P.modules[0]
    def arr(self, vals, name='arg', base='undef', size=None):
        o = self.I.new_obj(self.st, 8 * len(vals) if size is None else size, 'arg', name, base)
        for i, v in enumerate(vals):
            if v is not None: self.I.store(self.st, Ptr(o.id, K(8 * i)), v, D, None, self.m)
        return Ptr(o.id, ZERO)
    def call(self, f, *args):
        r = self.I.call(f, list(args), self.st)
        if r is None:
            if getattr(self.I, 'script', None) is None and any(e.get('kind') == 'abort' for e in self.I.events): raise Aborts('no path returns: every path ends in a failed assertion, abort or exit')
            raise Imprecise('no path returns')
        self.st, v = r; self.st.env = {}
        return self.I.resolve(v, self.st) if isinstance(v, Poly) else v
    def out(self, p, ty):
        """an output: memory that no path has written is the distinguished value 'never written'"""
        o = self.st.mem.get(p.obj) if isinstance(p.obj, int) else None
        if o is not None and o.base == 'undef' and p.off.c is not None:
            sz = self.m.sizeof(ty)
            if not any(k < p.off.c + sz and p.off.c < k + x[0] for k, x in o.cells.items()): return Poly.var(atom(('never', o.name, p.off.c), -INF, INF, False, 'never-written %s+%d' % (o.name, p.off.c)))
        v = self.I.load(self.st, p, ty, None, self.m)
        return self.I.resolve(v, self.st) if isinstance(v, Poly) else v
    def get(self, p, n, ty=None):
        return [self.out(Ptr(p.obj, p.off + K(8 * i)), ty or D) for i in range(n)]
    def get1(self, p, ty): return self.out(p, ty)

def paths(P, fn, limit=200):
    """trace partitioning: fn(Run) once per combination of the branches its inputs leave open; yields (Run, path conditions, result)"""
    script = []; n = 0
    while True:
        r = Run(P); r.I.script = script; r.I.pos = 0; r.I.pathc = []
        try:
            v = fn(r); yield r, tuple(r.I.pathc), v
        except absint.DeadPath: pass
        n += 1
        if n > limit: raise Imprecise('too many paths')
        del script[r.I.pos:]
        while script and script[-1] is False: script.pop()
        if not script: return
        script[-1] = False

import absint
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def mv(M, v): return [dot(M[3 * i:3 * i + 3], v) for i in range(3)]
def T(M): return [M[3 * j + i] for i in range(3) for j in range(3)]
def mm(A, B): return [sum((A[3 * i + k] * B[3 * k + j] for k in range(3)), ZERO) for i in range(3) for j in range(3)]
ID = [K(1) if i % 4 == 0 else ZERO for i in range(9)]
def Rx(a):
    """rotation of the y and z components: y' = y cos - z sin"""
    s, c = sincos(a); return [K(1), ZERO, ZERO, ZERO, c, -s, ZERO, s, c]
def Ry(a):
    s, c = sincos(a); return [c, ZERO, s, ZERO, K(1), ZERO, -s, ZERO, c]
def Rz(a):
    s, c = sincos(a); return [c, -s, ZERO, s, c, ZERO, ZERO, ZERO, K(1)]

def eqv(rep, group, key, got, want, site, **kw):
    """one obligation per component"""
    for i, (g, w) in enumerate(zip(got, want)):
        ok, why = ident.same(g, w, **kw)
        rep.add(group, ok, '%s[%d]' % (key, i), '%s; value %s; required %s' % (why, str(g)[:150], str(w)[:150]), site)

from contextlib import contextmanager
@contextmanager
def guard(rep, group, key, site=''):
    """an analysis that cannot be completed is an undecided obligation"""
    try: yield
    except core.AnalysisBroken: raise
    except Aborts as e: rep.add(group, False, key, str(e), site)
    except BadAccess as e: rep.add(group, False, key, 'access outside its object: %s' % e, site)
    except (Imprecise, llir.IRError, ident.NoVal, OverflowError, RecursionError) as e: rep.add(group, None, key, repr(e), site)
    except (TypeError, AttributeError, IndexError, ValueError, KeyError) as e:
        import traceback; rep.add(group, None, key, 'value outside the domain: %r %s' % (e, traceback.format_exc().splitlines()[-3].strip()), site)
