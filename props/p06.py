"""P06: vector, matrix and rotation primitives compute their defining algebra for all inputs."""
import core
from alg import *
from poly import PI_A
PL_PI = Poly.var(PI_A)
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR over a polynomial value domain (trigonometric ring); normal-form identities'
RULE = ('each primitive is interpreted on symbolic vectors/matrices/angles; every output component must have the normal form of its defining expression '
        '(sin^2+cos^2=1, sqrt(x)^2=x are the only ring relations). Branches (zero vector, aliasing) are covered by separate abstract calls.')
def run(rep):
    P = core.units(['miscell.cpp', 'precess.cpp', 'obliquit.cpp', 'nutation.cpp', 'spline.cpp', 'eop_prec.cpp', 'delta_t.cpp', 'snprintf.cpp', 'date.cpp'])
    a, b, v, M = V('a'), V('b'), V('v'), V('m', 9)
    th = S('angle', -1000, 1000)
    def go(name, group, key, fn):
        f = core.need(P, name)
        with guard(rep, group, key, where(f)):
            r = Run(P); fn(r, f); rep.note_funcs(r.I)
    def f_dot(r, f): eqv(rep, 'dot product', 'a.b', [r.call(f, r.arr(a), r.arr(b))], [dot(a, b)], where(f))
    go('dot_product', 'dot product', 'a.b', f_dot)
    def f_dota(r, f): p = r.arr(a); eqv(rep, 'dot product', 'a.a', [r.call(f, p, p)], [dot(a, a)], where(f))
    go('dot_product', 'dot product', 'a.a', f_dota)
    def f_cross(r, f):
        o = r.arr([None] * 3); r.call(f, o, r.arr(a), r.arr(b)); eqv(rep, 'cross product', 'axb', r.get(o, 3), cross(a, b), where(f))
    go('vector_cross_product', 'cross product', 'axb', f_cross)
    def f_len(r, f): eqv(rep, 'vector length', '|a|', [r.call(f, r.arr(a))], [sqrt_(dot(a, a))], where(f))
    go('vector3_length', 'vector length', '|a|', f_len)
    def f_norm(r, f):
        # a vector with first component >= 1/8 is certainly nonzero; by symmetry one call per leading component
        for i in range(3):
            r = Run(P); w = list(a); w[i] = S('a%d+' % i, Fr(1, 1000), 1000)
            p = r.arr(w); L = r.call(f, p); n = sqrt_(dot(w, w))
            eqv(rep, 'normalisation', 'length returned %d' % i, [L], [n], where(f))
            eqv(rep, 'normalisation', 'unit vector %d' % i, r.get(p, 3), [x * inv(n) for x in w], where(f))
        r = Run(P); p = r.arr([ZERO] * 3); L = r.call(f, p)
        eqv(rep, 'normalisation', 'zero vector', [L] + r.get(p, 3), [ZERO] * 4, where(f))
    go('normalize_vect3', 'normalisation', 'all', f_norm)
    lon, lat = S('lon', -1000, 1000), S('lat', -1000, 1000)
    def f_pol(r, f):
        o = r.arr([None] * 3); r.call(f, o, lon, lat)
        eqv(rep, 'polar to cartesian', 'xyz', r.get(o, 3), [sincos(lon)[1] * sincos(lat)[1], sincos(lon)[0] * sincos(lat)[1], sincos(lat)[0]], where(f))
    go('polar3_to_cartesian', 'polar to cartesian', 'xyz', f_pol)
    def f_id(r, f): o = r.arr([None] * 9); r.call(f, o); eqv(rep, 'identity matrix', 'I', r.get(o, 9), ID, where(f))
    go('set_identity_matrix', 'identity matrix', 'I', f_id)
    def f_inv(r, f): o = r.arr(M); r.call(f, o); eqv(rep, 'inverse of a rotation', 'transpose', r.get(o, 9), T(M), where(f))
    go('invert_orthonormal_matrix', 'inverse of a rotation', 'transpose', f_inv)
    s, c = sincos(th)
    for x, y in ((0, 1), (1, 2), (2, 0), (1, 0), (2, 1), (0, 2)):
        def f_spin(r, f):
            o = r.arr(M); r.call(f, Ptr(o.obj, K(24 * x)), Ptr(o.obj, K(24 * y)), th)
            w = list(M)
            for k in range(3): w[3 * x + k], w[3 * y + k] = M[3 * x + k] * c - M[3 * y + k] * s, M[3 * y + k] * c + M[3 * x + k] * s
            eqv(rep, 'row rotation', 'rows %d,%d' % (x, y), r.get(o, 9), w, where(f))
        go('spin_matrix', 'row rotation', 'rows %d,%d' % (x, y), f_spin)
        def f_pre(r, f):
            o = r.arr(M); r.call(f, Ptr(o.obj, K(8 * x)), Ptr(o.obj, K(8 * y)), th)
            w = list(M)
            for k in range(3): w[x + 3 * k], w[y + 3 * k] = M[x + 3 * k] * c - M[y + 3 * k] * s, M[y + 3 * k] * c + M[x + 3 * k] * s
            eqv(rep, 'column rotation', 'columns %d,%d' % (x, y), r.get(o, 9), w, where(f))
        go('pre_spin_matrix', 'column rotation', 'columns %d,%d' % (x, y), f_pre)
    for ax, R in ((0, Rx), (1, Ry), (2, Rz)):
        def f_rot(r, f):
            o = r.arr(v); r.call(f, o, th, K(ax)); eqv(rep, 'vector rotation', 'axis %d' % ax, r.get(o, 3), mv(R(th), v), where(f))
        go('rotate_vector', 'vector rotation', 'axis %d' % ax, f_rot)
    for nm, W in (('precess_vector', mv(M, v)), ('deprecess_vector', mv(T(M), v))):
        for alias in (0, 1):
            def f_prec(r, f):
                m, p = r.arr(M), r.arr(v); o = p if alias else r.arr([None] * 3)
                r.call(f, m, p, o)
                eqv(rep, 'matrix times vector', '%s%s' % (nm, ' in place' if alias else ''), r.get(o, 3), W, where(f))
                eqv(rep, 'matrix times vector', '%s leaves the matrix alone %d' % (nm, alias), r.get(m, 9), M, where(f))
                if not alias: eqv(rep, 'matrix times vector', '%s leaves its input alone' % nm, r.get(p, 3), v, where(f))
            go(nm, 'matrix times vector', nm, f_prec)
    # ecliptic <-> equatorial J2000
    import math
    eps = math.radians(84381.448 / 3600)
    ce, se = K(Fr(math.cos(eps))), K(Fr(math.sin(eps)))
    def f_e2q(r, f): o = r.arr(v); r.call(f, o); eqv(rep, 'ecliptic/equatorial J2000', 'to equatorial', r.get(o, 3), [v[0], v[1] * ce - v[2] * se, v[2] * ce + v[1] * se], where(f), tol=1e-13)
    go('ecliptic_to_equatorial', 'ecliptic/equatorial J2000', 'to equatorial', f_e2q)
    def f_q2e(r, f): o = r.arr(v); r.call(f, o); eqv(rep, 'ecliptic/equatorial J2000', 'to ecliptic', r.get(o, 3), [v[0], v[1] * ce + v[2] * se, v[2] * ce - v[1] * se], where(f), tol=1e-13)
    go('equatorial_to_ecliptic', 'ecliptic/equatorial J2000', 'to ecliptic', f_q2e)
    # inverse trigonometric helpers: clamped, exact inside
    for nm, fn, lo, hi in (('acose', 'acos', PL_PI, ZERO), ('asine', 'asin', PL_PI.scale(Fr(-1, 2)), PL_PI.scale(Fr(1, 2)))):
        f = core.need(P, nm)
        for tag, l, h, want in (('inside', Fr(-999, 1000), Fr(999, 1000), None), ('above', 1, 10**6, hi), ('below', -10**6, -1, lo), ('one', 1, 1, hi), ('minus one', -1, -1, lo)):
            def f_ac(r, f):
                x = S('x' + nm + tag, l, h) if l != h else K(l)
                w = Poly.var(atom((fn, x))) if want is None else want
                g = r.call(f, x)
                eqv(rep, 'clamped inverse sine/cosine', '%s %s' % (nm, tag), [g], [w], where(f), tol=1e-14)
            go(nm, 'clamped inverse sine/cosine', '%s %s' % (nm, tag), f_ac)
    rep.minimum = 120
