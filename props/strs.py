"""Cases on strings of symbolic characters: one abstract call per template, result text compared character by character."""
import core, ident, fmt, time
T0 = time.monotonic()
def budget():
    """seconds allowed for one abstract call, shrinking as the whole check grows old"""
    t = time.monotonic() - T0
    return 20 if t < 240 else 3 if t < 480 else .3
from alg import *
from fmt import sym, chars
def ch(n, lo, hi): return rngc(n, ord(lo), ord(hi))
fmt.install()
def rngc(n, lo, hi): return Poly.var(atom(('in', n, lo, hi), lo, hi, True, n))
def d_(n, lo=0, hi=9): return K(48) + rngc(n, lo, hi)
def up(n, lo='A', hi='Z'): return rngc(n, ord(lo), ord(hi))
def show(cs):
    return ''.join(chr(int(c.c)) if isinstance(c, Poly) and c.c is not None and 32 <= c.c < 127 else '{%s}' % (repr(c - K(48)) if isinstance(c, Poly) else repr(c)) for c in cs)
def flat(items):
    r = []
    for x in items:
        if isinstance(x, str): r += [K(ord(c)) for c in x]
        elif isinstance(x, int): r.append(K(x))
        elif isinstance(x, list): r += flat(x)
        else: r.append(x)
    return r
def num(cs):
    """value of a list of digit characters"""
    v = ZERO
    for c in cs: v = v.scale(10) + c - K(48)
    return v
def attempt(P, fn):
    """run fn(Run) strictly (every branch decided by the template), then without"""
    try:
        fmt.STRICT[0] = True; r = Run(P, True); r.I.deadline = time.monotonic() + budget(); return fn(r), r
    except (OpenBranch, fmt.Ambig):
        fmt.STRICT[0] = False; r = Run(P, False); r.I.deadline = time.monotonic() + budget() / 4; return fn(r), r
    finally: fmt.STRICT[0] = False
def rd(r, out, n):
    """the text written at out, at most n characters; None: a character never written"""
    got = []
    for i in range(n):
        o = r.st.mem[out.obj]; c = o.cells.get(i)
        if c is None and not any(k < i < k + x[0] for k, x in o.cells.items()) and o.base == 'undef': got.append(None); return got
        v = r.I.load_at(r.st, o, i, llir.Ty('int', 8), r.m, 1)
        if v is fmt.UNDEF: got.append(None); return got
        if not isinstance(v, Poly): raise fmt.Ambig('result text')
        v = r.I.resolve(v, r.st); z = r.I.rng(v, r.st)
        if z == (0, 0): return got
        if z[0] <= 0 <= z[1] and v not in r.st.ne: raise fmt.Ambig('end of the result text')
        got.append(v)
    return got
def unknowns(vs):
    s = set()
    for v in vs:
        if isinstance(v, Poly): s |= {a for a in v.deep_atoms() if ATOMS[a].key[0] == 'in'}
    return sorted(s)
def pins(ats, n=6):
    """constants for the unknowns: the two ends of every class, then pseudo-random members"""
    import random
    g = random.Random(7)
    def pick(A, k):
        if A.isint: return int(A.lo if k == 0 else A.hi if k == 1 else g.randint(int(A.lo), int(A.hi)))
        lo, w = Fr(A.lo), Fr(A.hi) - Fr(A.lo)          # near the ends of the interval, and inside
        return lo + w * (Fr(1, 50) if k == 0 else Fr(49, 50) if k == 1 else Fr(g.randint(1, 3999), 4000))
    for k in range(n + 6):      # all low, all high, inside, random corners
        yield {a: pick(ATOMS[a], k if k < n else g.choice((0, 0, 1, 1, 2))) for a in ats}
def refine(rep, ok, ats, one, was):
    """an undecided template is split into sub-cases with constant characters; a violated sub-case is a violation of the template"""
    if ok is not None or not ats: return ok, was
    try:
        for pn in pins(ats):
            fmt.PIN.clear(); fmt.PIN.update(pn)
            try: o2, w2 = one()
            except BadAccess as e: o2, w2 = False, 'access outside its object: %s' % e
            except (Imprecise, TypeError, AttributeError, IndexError, KeyError, ValueError): continue
            if o2 is False: return False, 'with %s: %s' % (', '.join('%s=%s' % (ATOMS[a].key[1], v) for a, v in pn.items()), w2)
    finally: fmt.PIN.clear()
    return ok, was
def text(rep, group, key, P, f, mk, want, wret=None, site='', pre=None, why='', size=200, more=()):
    """mk(r, out) -> arguments of f; out: pointer to a fresh result buffer; want: expected characters"""
    site = site or where(f)
    want = flat(want); wr = None if wret is None else wret if isinstance(wret, Poly) else K(wret)
    def one():
        def go(r):
            if pre: pre(r)
            o = r.I.new_obj(r.st, size, 'result', 'the result buffer'); out = Ptr(o.id, ZERO)
            r.args = [fmt.pin(x) for x in mk(r, out)]
            v = r.call(f, *r.args); return v, rd(r, out, len(want) + 1)
        (v, got), r = attempt(P, go)
        rep.note_funcs(r.I)
        res = []; W = [fmt.pin(w) for w in want]
        if wr is not None: res.append(ident.same(v, fmt.pin(wr)))
        if None in got: res.append((False, 'character %d is never written' % got.index(None)))
        elif len(got) != len(W): res.append((False, 'length'))
        else: res += [(True, '') if g == w else ident.same(g, w) for g, w in zip(got, W)]
        oks = [x[0] for x in res]
        return (False if False in oks else None if None in oks else True), 'text "%s"%s, required "%s"%s %s' % (show(got), '' if wr is None else ' value %s' % v, show(W), '' if wr is None else ' value %s' % wr, why)
    try:
        with guard(rep, group, key, site):
            try: ok, w = one()
            except core.AnalysisBroken: raise
            except BadAccess as e: ok, w = False, 'access outside its object: %s' % e
            except (Imprecise, TypeError, AttributeError, IndexError, KeyError, ValueError) as e: ok, w = None, repr(e)
            r0 = Run(P); 
            ok, w = refine(rep, ok, unknowns(want + list(more) + collect(P, f, mk)), one, w)
            rep.add(group, ok, key, w, site)
    finally: fmt.PIN.clear()
def collect(P, f, mk):
    """the unknowns occurring in the arguments"""
    r = Run(P); o = r.I.new_obj(r.st, 200, 'arg', 'result')
    try: a = mk(r, Ptr(o.id, ZERO)) if mk.__code__.co_argcount == 2 else mk(r)
    except Exception: return []
    vs = [x for x in a if isinstance(x, Poly)]
    for x in a:
        if isinstance(x, Ptr) and isinstance(x.obj, int): vs += [c[1] for c in r.st.mem[x.obj].cells.values()]
    return vs
def value(rep, group, key, P, f, mk, want, site='', pre=None, post=None, tol=0., **kw):
    """f returns a number (want: polynomial or None) and post(r) may yield [(tag, got, wanted)]"""
    site = site or where(f)
    def one():
        def go(r):
            if pre: pre(r)
            r.args = [fmt.pin(x) for x in mk(r)]
            v = r.call(f, *r.args)
            if isinstance(v, Cond): v = K(1 if v.op == 'true' else 0) if v.op in ('true', 'false') else r.I.as_poly(v, 32)
            return v, (post(r) if post else [])
        (v, extra), r = attempt(P, go)
        rep.note_funcs(r.I)
        res = []
        for t, g, w0 in ([('value', v, want)] if want is not None else []) + list(extra):
            w0 = fmt.pin(w0 if isinstance(w0, Poly) else K(w0))
            ok, w = ident.same(g, w0, tol=tol, **kw); res.append((ok, '%s: %s; %s; required %s' % (t, w, str(g)[:200], str(w0)[:200])))
        for x in res:
            if x[0] is False: return x
        for x in res:
            if x[0] is None: return x
        return True, res[0][1] if res else ''
    try:
        with guard(rep, group, key, site):
            try: ok, w = one()
            except core.AnalysisBroken: raise
            except BadAccess as e: ok, w = False, 'access outside its object: %s' % e
            except (Imprecise, TypeError, AttributeError, IndexError, KeyError, ValueError) as e: ok, w = None, repr(e)
            ok, w = refine(rep, ok, unknowns(([want] if isinstance(want, Poly) else []) + collect(P, f, mk)), one, w)
            rep.add(group, ok, key, w, site)
    finally: fmt.PIN.clear()
