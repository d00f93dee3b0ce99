"""C01: points and vectors obey affine algebra"""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector, PointRelative, PointCalc, VectorRelative, BasePoint
from harness import gen
from harness.core import Registry, expect, near_xy, same, raises, mag, fail

R = Registry('C01', 'Operands of every kind (plain/relative/calculated point, plain/relative vector) with coordinates '
             'from small integers, quarters and floats; non-trivial: at least one derived operand or non-integer '
             'coordinate, and not all coordinates zero.')

C = gen.coord()
PT = gen.one_of(
    st.tuples(st.just('P'), C, C).map(list),
    st.tuples(st.just('R'), C, C, C, C).map(list),
    st.tuples(st.just('C'), C, C, C, C, gen.fl(-4, 4)).map(list),
)
VE = gen.one_of(
    st.tuples(st.just('V'), C, C).map(list),
    st.tuples(st.just('D'), PT, PT).map(list),
)
SC = gen.one_of(st.integers(-5, 5), gen.fl(-50, 50))


def mkp(s):
    """-> (point, (x, y) expected)"""
    if s[0] == 'P':
        return Point(s[1], s[2]), (s[1], s[2])
    if s[0] == 'R':
        return PointRelative(s[1], s[2], Point(s[3], s[4])), (s[1] + s[3], s[2] + s[4])
    base = PointRelative(s[1], s[2], Point(s[3], s[4]))
    return PointCalc(base, s[5]), (s[5]*s[1] + s[3], s[5]*s[2] + s[4])


def mkv(s):
    if s[0] == 'V':
        return Vector(s[1], s[2]), (s[1], s[2])
    a, ae = mkp(s[1])
    b, be = mkp(s[2])
    return VectorRelative(a, b), (ae[0]-be[0], ae[1]-be[1])


def is_pt(v, what):
    expect(isinstance(v, BasePoint), '%s: expected a point, got %r', what, v)
    return v


def is_vec(v, what):
    expect(isinstance(v, Vector), '%s: expected a vector, got %r', what, v)
    return v


def frac(*specs):
    def leaves(s):
        return [s] if not isinstance(s, list) else [x for y in s for x in leaves(y)]
    vals = [v for v in leaves(list(specs)) if not isinstance(v, str)]
    kinds = [v for v in leaves(list(specs)) if isinstance(v, str)]
    return any(vals) and (any(isinstance(v, float) and v != int(v) for v in vals)
                          or any(k in 'RCD' for k in kinds))


@R.facet(st.tuples(PT, PT, VE, VE, SC).map(list), n=700)
def binary_ops(s, cx):
    (p, pe), (q, qe) = mkp(s[0]), mkp(s[1])
    (v, ve), (w, we) = mkv(s[2]), mkv(s[3])
    k = s[4]
    tol = 1e-11 * mag(pe, qe, ve, we) * (1 + abs(k))
    cx.nt(frac(s[0], s[1], s[2], s[3]))
    cx.label(s[0][0] + s[1][0] + s[2][0] + s[3][0])
    # Reads
    near_xy(p.xy(), pe, tol, 'point coordinates')
    near_xy(v.xy(), ve, tol, 'vector coordinates')

    near_xy(is_vec(p - q, 'p-q').xy(), (pe[0]-qe[0], pe[1]-qe[1]), tol, 'p-q')
    near_xy(is_pt(p + v, 'p+v').xy(), (pe[0]+ve[0], pe[1]+ve[1]), tol, 'p+v')
    near_xy(is_pt(v + p, 'v+p').xy(), (pe[0]+ve[0], pe[1]+ve[1]), tol, 'v+p')
    near_xy(is_pt(p - v, 'p-v').xy(), (pe[0]-ve[0], pe[1]-ve[1]), tol, 'p-v')
    near_xy(is_vec(v + w, 'v+w').xy(), (ve[0]+we[0], ve[1]+we[1]), tol, 'v+w')
    near_xy(is_vec(v - w, 'v-w').xy(), (ve[0]-we[0], ve[1]-we[1]), tol, 'v-w')
    near_xy(is_vec(v * k, 'v*k').xy(), (ve[0]*k, ve[1]*k), tol, 'v*k')
    near_xy(is_vec(k * v, 'k*v').xy(), (ve[0]*k, ve[1]*k), tol, 'k*v')
    if abs(k) > 1e-3:
        near_xy(is_vec(v / k, 'v/k').xy(), (ve[0]/k, ve[1]/k), tol*1e3, 'v/k')
    near_xy(is_vec(-v, '-v').xy(), (-ve[0], -ve[1]), tol, '-v')
    near_xy(is_pt(-p, '-p').xy(), (-pe[0], -pe[1]), tol, '-p')
    near_xy(is_pt(p.mid(q), 'mid').xy(), ((pe[0]+qe[0])/2, (pe[1]+qe[1])/2), tol, 'mid')
    same(p.mid(q).xy(), q.mid(p).xy(), 'mid symmetric')
    # results with plain components are exact
    if s[0][0] == 'P' and s[2][0] == 'V':
        same((p + v).xy(), (pe[0]+ve[0], pe[1]+ve[1]), 'p+v exact')
        same((p - v).xy(), (pe[0]-ve[0], pe[1]-ve[1]), 'p-v exact')
        near_xy((v * k).xy(), (ve[0]*k, ve[1]*k), 1e-14*(abs(ve[0]*k) + abs(ve[1]*k)), 'v*k exact')
    # operands as they were
    near_xy(p.xy(), pe, tol, 'p after')
    near_xy(q.xy(), qe, tol, 'q after')
    near_xy(v.xy(), ve, tol, 'v after')
    near_xy(w.xy(), we, tol, 'w after')


@R.facet(st.tuples(PT, PT, PT, VE, VE, SC, SC).map(list), n=500)
def laws(s, cx):
    p, q, r = (mkp(x)[0] for x in s[:3])
    v, w = (mkv(x)[0] for x in s[3:5])
    a, b = s[5], s[6]
    tol = 1e-10 * mag(p.xy(), q.xy(), r.xy(), v.xy(), w.xy()) * (1 + abs(a)) * (1 + abs(b))
    cx.nt(frac(*s[:5]))
    near_xy(p + (q - p), q, tol, 'p+(q-p)')
    near_xy((p - q) + (q - r), p - r, tol, 'chasles')
    near_xy((p + v) - v, p, tol, '(p+v)-v')
    near_xy((p + v) + w, p + (v + w), tol, 'action associative')
    near_xy(v + w, w + v, tol, 'commutative')
    near_xy((v + w) * a, v*a + w*a, tol, 'distributive')
    near_xy(v * (a+b), v*a + v*b, tol, 'distributive scalars')
    near_xy((v * a) * b, v * (a*b), tol, 'scalar associative')
    near_xy(v - w, v + (-w), tol, 'subtract is add negative')
    near_xy(p - v, p + (-v), tol, 'p - v')
    near_xy(v + Vector(0, 0), v, 0, 'zero')
    near_xy(v - v, (0, 0), 0, 'v-v')
    near_xy(p - p, (0, 0), 0, 'p-p')
    near_xy(-(p - q), q - p, tol, 'antisymmetric')


NUMBERS = {'int': int, 'bool': lambda n: bool(n % 2), 'float': float, 'fraction': lambda n: Fraction(n, 4),
           'int64': np.int64, 'int32': np.int32, 'float64': lambda n: np.float64(n / 4),
           'float32': lambda n: np.float32(n / 4), 'float16': lambda n: np.float16(n / 4)}


@R.facet(st.tuples(VE, st.sampled_from(sorted(NUMBERS)), st.integers(-20, 20)).map(list), n=300)
def kinds_of_numbers(s, cx):
    """Scaling by numbers of every kind, from either side"""
    v, ve = mkv(s[0])
    k = NUMBERS[s[1]](s[2])
    f = float(k)
    cx.nt(s[1] not in ('int', 'float') and any(ve) and f not in (0, 1))
    cx.label(s[1])
    tol = (1e-2 if s[1] == 'float16' else 1e-5) * mag(ve) * (1 + abs(f))
    near_xy(is_vec(v * k, 'v*k').xy(), (ve[0]*f, ve[1]*f), tol, 'v*k')
    near_xy(is_vec(k * v, 'k*v').xy(), (ve[0]*f, ve[1]*f), tol, 'k*v')
    if f:
        near_xy(is_vec(v / k, 'v/k').xy(), (ve[0]/f, ve[1]/f), tol*10, 'v/k')
    near_xy(v.xy(), ve, 1e-11*mag(ve), 'v after')


@R.facet(st.tuples(PT, PT, VE, SC.filter(lambda v: v)).map(list), n=300)
def refused(s, cx):
    p, q = mkp(s[0])[0], mkp(s[1])[0]
    v = mkv(s[2])[0]
    k = s[3]
    cx.nt(frac(s[0], s[1], s[2]) or True)
    cx.label(s[0][0] + s[1][0] + s[2][0])
    raises(TypeError, lambda: p + q, 'point + point')
    raises(TypeError, lambda: p * k, 'point * number')
    raises(TypeError, lambda: k * p, 'number * point')
    raises(TypeError, lambda: v - p, 'vector - point')


@R.facet(st.tuples(PT, VE, C, C, st.integers(0, 5)).map(list), n=400)
def copies_and_setters(s, cx):
    (p, pe), (v, ve) = mkp(s[0]), mkv(s[1])
    x, y = s[2], s[3]
    tol = 1e-11 * mag(pe, ve)
    cx.nt(frac(s[0], s[1]))
    same(p.copy().xy(), p.xy(), 'point copy')
    same(v.copy().xy(), v.xy(), 'vector copy')
    same(type(p.fixed()), Point, 'fixed point type')
    same(type(v.fixed()), Vector, 'fixed vector type')
    same(p.fixed().xy(), p.xy(), 'fixed point')
    same(v.fixed().xy(), v.xy(), 'fixed vector')
    expect(p.copy() == p and v.copy() == v, 'copies equal')
    expect(p.copy() is not p and v.copy() is not v and p.fixed() is not p and v.fixed() is not v, 'copies distinct')
    n = s[4]
    near_xy(p.round(n).xy(), pe, 0.5 * 10**-n + tol + 1e-9, 'round')
    # a relative vector rounds its two ends, so its rounding error is that of a difference
    near_xy(v.round(n).xy(), ve, (0.5 if s[1][0] == 'V' else 1.0) * 10**-n + tol + 1e-9, 'round')
    near_xy(p.round(n).xy(), (round(p.xy()[0], n), round(p.xy()[1], n)), 0, 'round point')
    same(tuple(p), p.xy(), 'iter point')
    same(tuple(v), v.xy(), 'iter vector')
    same((p.x, p.y), p.xy(), 'x,y point')
    same((v.x, v.y), v.xy(), 'x,y vector')
    is_vec(p.v, 'p.v')
    same(p.v.xy(), p.xy(), 'p.v')
    is_pt(v.p, 'v.p')
    same(v.p.xy(), v.xy(), 'v.p')
    if s[0][0] == 'P':
        other = p.copy()
        p.setxy(x, y)
        same(p.xy(), (x, y), 'setxy')
        same(other.xy(), pe, 'copy after setxy')
        src = Point(y, x)
        p.set(src)
        same(p.xy(), (y, x), 'set')
        src.setxy(x + 1, y + 1)
        same(p.xy(), (y, x), 'set takes values')
        p.restore(other)
        same(p.xy(), pe, 'restore')
        p.setxy(x, y)
        same(other.xy(), pe, 'restore source')
    if s[1][0] == 'V':
        other = v.copy()
        v.setxy(x, y)
        same(v.xy(), (x, y), 'v.setxy')
        same(other.xy(), ve, 'copy after v.setxy')
        v.set(other)
        same(v.xy(), ve, 'v.set')
        v.setxy(x, y)
        same(other.xy(), ve, 'v.set source')


@R.facet(st.tuples(PT, PT, VE, VE, gen.fl(0, 2)).map(list), n=300)
def equality_and_closeness(s, cx):
    p, q = mkp(s[0])[0], mkp(s[1])[0]
    v, w = mkv(s[2])[0], mkv(s[3])[0]
    d = s[4]
    cx.nt(frac(*s[:4]))
    for a, b, mk, sa, sb in ((p, q, mkp, s[0], s[1]), (v, w, mkv, s[2], s[3])):
        twin = mk(sa)[0]
        expect(a == twin and not (a != twin), 'equal to its twin: %r', a)
        if sa != sb:
            # structurally equal only if same kind and parts: kind differs -> unequal
            if sa[0] != sb[0]:
                expect(a != b, '%r != %r', a, b)
            elif sa[0] in 'PV':
                expect((a == b) == (tuple(a.xy()) == tuple(b.xy())), '%r == %r', a, b)
        dist = (a - b).length()
        if abs(dist - d) > 1e-9:
            expect(a.close(b, d) == (dist < d), 'close(%r, %r, %r)', a, b, d)
            expect(a.close(b, d) == b.close(a, d), 'close symmetric')
    expect(bool(v) == (tuple(v.xy()) != (0, 0)), 'bool(%r)', v)
    if s[0][0] == 'P':
        expect(Point(s[0][1], s[0][2]) != Vector(s[0][1], s[0][2]), 'point is not a vector')
        expect(Point(s[0][1], s[0][2], 'n') != Point(s[0][1], s[0][2], 'm'), 'names count')
        expect(Point(s[0][1], s[0][2]) != Point(s[0][1] + 1, s[0][2]), 'x counts')
        expect(Point(s[0][1], s[0][2]) != Point(s[0][1], s[0][2] + 1), 'y counts')
        expect(Vector(s[0][1], s[0][2]) != Vector(s[0][1] + 1, s[0][2]), 'v.x counts')
        expect(Vector(s[0][1], s[0][2]) != Vector(s[0][1], s[0][2] + 1), 'v.y counts')


Z = st.sampled_from([0, 0, 1, -1, 2])
ZV = gen.one_of(VE, st.tuples(st.just('V'), st.sampled_from([0, 0, 1]), st.sampled_from([0, 0, 1])).map(list),
               PT.map(lambda p: ['D', p, p]))


@R.facet(st.tuples(PT, PT, ZV, ZV, gen.one_of(Z, SC), st.tuples(C, C).map(list)).map(list), n=400)
def results_are_independent(s, cx):
    """The result of an operation is an object of its own: editing it leaves the operands as they were, and editing
    an operand afterwards leaves the result as it was"""
    k, (nx, ny) = s[4], s[5]
    ops = {
        'p-q': lambda p, q, v, w: p - q, 'p+v': lambda p, q, v, w: p + v, 'v+p': lambda p, q, v, w: v + p,
        'p-v': lambda p, q, v, w: p - v, 'v+w': lambda p, q, v, w: v + w, 'v-w': lambda p, q, v, w: v - w,
        'v*k': lambda p, q, v, w: v * k, 'k*v': lambda p, q, v, w: k * v, '-v': lambda p, q, v, w: -v,
        '-p': lambda p, q, v, w: -p, 'mid': lambda p, q, v, w: p.mid(q), 'p.v': lambda p, q, v, w: p.v,
        'v.p': lambda p, q, v, w: v.p, 'p.fixed': lambda p, q, v, w: p.fixed(), 'v.fixed': lambda p, q, v, w: v.fixed(),
        'p.round': lambda p, q, v, w: p.round(2), 'v.normal': lambda p, q, v, w: v.normal(),
        'v.rotate': lambda p, q, v, w: v.rotate(k),
        'p.copy': lambda p, q, v, w: p.copy(), 'v.copy': lambda p, q, v, w: v.copy(),
        'v.round': lambda p, q, v, w: v.round(2),
    }
    if k:
        ops['v/k'] = lambda p, q, v, w: v / k
    cx.nt(frac(*s[:4]))
    cx.label('zero vector', not any(mkv(s[2])[1]) or not any(mkv(s[3])[1]))
    for name, op in ops.items():
        p, q = mkp(s[0])[0], mkp(s[1])[0]
        v, w = mkv(s[2])[0], mkv(s[3])[0]
        operands = (p, q, v, w)
        r = op(*operands)
        was = [tuple(o.xy()) for o in operands]
        value = tuple(r.xy())
        for o in operands:
            if type(o) in (Point, Vector):
                keep = o.xy()
                o.setxy(nx, ny)
                same(tuple(r.xy()), value, name + ' after editing an operand')
                o.setxy(*keep)
        if type(r) in (Point, Vector):
            r.setxy(nx, ny)
            same([tuple(o.xy()) for o in operands], was, 'operands after editing ' + name)


@R.facet(st.tuples(PT, PT, st.tuples(C, C).map(list), st.booleans()).map(list), n=300)
def there_and_back(s, cx):
    """Sums of points and the very vectors that join them are points of their own"""
    (nx, ny), same_pt = s[2], s[3]
    cx.nt(frac(s[0], s[1]))
    tol = 1e-11 * mag(*(mkp(x)[1] for x in s[:2]))
    for name, op, want in (
            ('p+(q-p)', lambda p, q, d: p + d, 'q'), ('(q-p)+p', lambda p, q, d: d + p, 'q'),
            ('q-(q-p)', lambda p, q, d: q - d, 'p'), ('q+(-(q-p))', lambda p, q, d: q + -d, 'p'),
            ('q+(q-p)*-1', lambda p, q, d: q + d * -1, 'p'), ('p+(q-p)*1', lambda p, q, d: p + d * 1, 'q'),
            ('p+(q-p)*0', lambda p, q, d: p + d * 0, 'p'), ('p+(q-p)/1', lambda p, q, d: p + d / 1, 'q'),
            ('p.mid(p)', lambda p, q, d: p.mid(p), 'p'), ('d fixed', lambda p, q, d: d.fixed(), 'd'),
            ('d+zero', lambda p, q, d: d + Vector(0, 0), 'd'), ('d*1', lambda p, q, d: d * 1, 'd'),
            ('d-zero', lambda p, q, d: d - Vector(0, 0), 'd'), ('d/1', lambda p, q, d: d / 1, 'd'),
            ('--d', lambda p, q, d: -(-d), 'd')):
        for link in (lambda p, q: VectorRelative(q, p), lambda p, q: q - p):
            (p, pe), (q, qe) = mkp(s[0]), mkp(s[1])
            if same_pt:
                q, qe = p, pe
            d = link(p, q)
            r = op(p, q, d)
            near_xy(r.xy(), {'p': pe, 'q': qe, 'd': (qe[0]-pe[0], qe[1]-pe[1])}[want], tol*4, name)
            value, was = tuple(r.xy()), (tuple(p.xy()), tuple(q.xy()), tuple(d.xy()))
            if type(r) in (Point, Vector):
                r.setxy(nx, ny)
                same((tuple(p.xy()), tuple(q.xy()), tuple(d.xy())), was, 'operands after editing ' + name)
                r.setxy(*value)
            for o in (p, q):
                if type(o) is Point:
                    o.setxy(nx, ny)
                    same(tuple(r.xy()), value, name + ' after editing an operand')
