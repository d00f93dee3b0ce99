"""
Programs over a few transforms: strategy, interpreter and reference model.

The model of one transform is (matrix, error bound, stack of matrices); the error bound is the element-wise product of
absolute matrices, so tolerances follow the magnitudes that really occurred.
"""
import numpy as np
from hypothesis import strategies as st
from x7.geom.geom import Point, PointRelative, BBox
from x7.geom.transform import Transform, Matrix, EmptyStackError
from . import gen, ref
from .core import expect, near, same, fail

SLOTS = 3
SLOT = st.integers(0, SLOTS-1)


def box():
    size = st.one_of(st.integers(1, 50), gen.fl(0.5, 50))
    return st.tuples(gen.coord(50), gen.coord(50), size, size).map(list)


def mat_ops():
    c = gen.coord(50)
    return [
        st.tuples(st.just('t'), SLOT, c, c).map(list),
        st.tuples(st.just('s'), SLOT, gen.factor(), gen.factor()).map(list),
        st.tuples(st.just('r'), SLOT, gen.angle()).map(list),
        st.tuples(st.just('rc'), SLOT, gen.angle()).map(list),
        st.tuples(st.just('ra'), SLOT, gen.angle(), c, c).map(list),
        st.tuples(st.just('fit'), SLOT, box(), box(), st.booleans()).map(list),
        st.tuples(st.just('in'), SLOT, SLOT).map(list),
        st.tuples(st.just('out'), SLOT, SLOT).map(list),
        st.tuples(st.just('inm'), SLOT, gen.xform(20, 2)).map(list),
        st.tuples(st.just('outm'), SLOT, gen.xform(20, 2)).map(list),
        st.tuples(st.just('reset'), SLOT).map(list),
        st.tuples(st.just('copy'), SLOT, SLOT).map(list),
        st.tuples(st.just('set'), SLOT, SLOT).map(list),
    ]


def stack_ops():
    return [
        st.tuples(st.just('push'), SLOT).map(list),
        st.tuples(st.just('pop'), SLOT).map(list),
        st.tuples(st.just('push'), SLOT).map(list),
        st.tuples(st.just('pop'), SLOT).map(list),
    ]


def m3(m):
    return np.array([m[0:3], m[3:6], (0, 0, 1)], dtype=float)


class Slot(object):
    def __init__(self):
        self.t = Transform()
        self.m = ref.IDENT
        self.bound = m3(ref.IDENT)
        self.n = 1
        self.stack = []

    def apply(self, m, after=True):
        a = np.abs(m3(m))
        if after:
            self.m = ref.mul(m, self.m)
            self.bound = a.dot(self.bound)
        else:
            self.m = ref.mul(self.m, m)
            self.bound = self.bound.dot(a)
        self.n += 3

    def tol(self, x=1.0, y=1.0):
        """Tolerance for a mapped coordinate"""
        v = self.bound.dot(np.array([abs(x), abs(y), 1.0]))
        return 1e-15 * 8 * self.n * float(max(v[0], v[1])) + 1e-300


class Prog(object):
    def __init__(self):
        self.slots = [Slot() for _ in range(SLOTS)]
        self.ops = 0
        self.pushes = 0
        self.refused = 0

    def too_big(self):
        return any(s.bound.max() > 1e9 or abs(ref.det(s.m)) < 1e-9 for s in self.slots)

    def step(self, op):
        k = op[0]
        s = self.slots[op[1]]
        t = s.t
        self.ops += 1
        got = None
        if k == 't':
            got = t.translate(op[2], op[3])
            s.apply(ref.translate(op[2], op[3]))
        elif k == 's':
            got = t.scale(op[2], op[3])
            s.apply(ref.scale(op[2], op[3]))
        elif k == 'r':
            got = t.rotate(op[2])
            s.apply(ref.rot(-op[2]))
        elif k == 'rc':
            got = t.rotate_ccw(op[2])
            s.apply(ref.rot(op[2]))
        elif k == 'ra':
            got = t.rotate_about(op[2], Point(op[3], op[4]))
            s.apply(ref.translate(-op[3], -op[4]))
            s.apply(ref.rot(-op[2]))
            s.apply(ref.translate(op[3], op[4]))
        elif k == 'fit':
            (ax, ay, aw, ah), (bx, by, bw, bh), keep = op[2:]
            a, b = BBox(ax, ay, ax+aw, ay+ah), BBox(bx, by, bx+bw, by+bh)
            got = t.scale_bbox(a, b, keep)
            sx, sy = bw/aw, bh/ah
            if keep:
                sx = sy = min(sx, sy)
            s.apply(ref.translate(-ax-aw/2, -ay-ah/2))
            s.apply(ref.scale(sx, sy))
            s.apply(ref.translate(bx+bw/2, by+bh/2))
            s.n += 6
            s.bound = s.bound * 2
        elif k in ('in', 'out'):
            o = self.slots[op[2]]
            om, ob, on = o.m, o.bound, o.n
            if k == 'in':
                got = t.compose(o.t)
                s.m, s.bound = ref.mul(s.m, om), s.bound.dot(ob)
            else:
                got = t.compose_outer(o.t)
                s.m, s.bound = ref.mul(om, s.m), ob.dot(s.bound)
            s.n += on + 3
        elif k in ('inm', 'outm'):
            m = ref.IDENT
            for x in op[2]:
                m = ref.mul(_one(x), m)
            mm = Matrix([m[0:3], m[3:6], (0, 0, 1)])
            got = t.compose(mm) if k == 'inm' else t.compose_outer(mm)
            s.apply(m, after=(k == 'outm'))
        elif k == 'reset':
            got = t.reset()
            s.m, s.bound, s.n = ref.IDENT, m3(ref.IDENT), 1
        elif k == 'copy':
            o = self.slots[op[2]]
            c = o.t.copy()
            expect(c is not o.t, 'copy is a new object')
            expect(c == o.t, 'copy equals its source')
            n = Slot()
            n.t, n.m, n.bound, n.n = c, o.m, o.bound, o.n
            self.slots[op[1]] = n
        elif k == 'set':
            o = self.slots[op[2]]
            t.set_matrix(o.t)
            s.m, s.bound, s.n = o.m, o.bound, o.n
        elif k == 'push':
            got = t.push()
            s.stack.append((s.m, s.bound, s.n, t.as_6tuple()))
            self.pushes += 1
        elif k == 'pop':
            if s.stack:
                t.pop()
                s.m, s.bound, s.n, exact = s.stack.pop()
                same(t.as_6tuple(), exact, 'matrix restored by pop')
            else:
                was = t.as_6tuple()
                try:
                    t.pop()
                except EmptyStackError:
                    self.refused += 1
                else:
                    fail('pop without a matching push was accepted')
                same(t.as_6tuple(), was, 'transform after refused pop')
        elif k == 'inv':
            self.check_inverse(s)
        else:
            raise ValueError(op)
        if got is not None:
            expect(got is t, '%s returns the transform itself', k)

    def check_matrix(self, what=''):
        """All slots equal their models"""
        for i, s in enumerate(self.slots):
            got = s.t.as_6tuple()
            lim = 8e-15 * s.n * s.bound + 1e-300
            for r in range(2):
                for c in range(3):
                    near(got[3*r+c], s.m[3*r+c], float(lim[r, c]) + 1e-15*s.n*float(s.bound.max()),
                         '%s slot %d matrix[%d][%d]' % (what, i, r, c))

    def check_inverse(self, s):
        t = s.t
        m = m3(t.as_6tuple())
        if abs(ref.det(s.m)) < 1e-9:
            return
        inv = np.asarray(t.inverse)
        expect(inv.shape == (3, 3), 'inverse shape')
        ident = inv.dot(m)
        lim = 1e-13*(1 + np.abs(inv).max()*np.abs(m).max()*3)
        expect(np.abs(ident - np.identity(3)).max() <= lim,
               'inverse is not the inverse of the current matrix: inverse * matrix = %s', ident.tolist())


def _one(op):
    if op[0] == 't':
        return ref.translate(op[1], op[2])
    if op[0] == 's':
        return ref.scale(op[1], op[2])
    if op[0] == 'r':
        return ref.rot(op[1])
    if op[0] == 'm':
        return tuple(op[1])
    return 1.0, op[1], 0.0, 0.0, 1.0, 0.0


def check_point_forms(t, m, pts, tol, cx=None):
    """Every way of mapping points gives m applied to them, in the promised form"""
    want = [ref.ap(m, p) for p in pts]

    def close(got, w, what):
        if not (abs(got[0]-w[0]) <= tol and abs(got[1]-w[1]) <= tol):
            fail('%s: got %r, expected %r (tol %.3g)', what, tuple(got), w, tol)

    base = Point(3, -4)
    for p, w in zip(pts, want):
        xy = t.transform(*p)
        expect(isinstance(xy, tuple) and len(xy) == 2, 'transform gives a pair')
        close(xy, w, 'transform')
        src = Point(*p)
        got = t.transform_pt(src)
        expect(type(got) is Point, 'transform_pt gives a Point')
        close(got.xy(), w, 'transform_pt')
        same(src.xy(), tuple(p), 'argument')
        got = t.transform_pt(PointRelative(p[0]-3, p[1]+4, base), as_pt=False)
        expect(isinstance(got, tuple), 'transform_pt(as_pt=False) gives a pair')
        close(got, w, 'transform_pt as pair')
    as_tuples = [tuple(p) for p in pts]
    as_points = [Point(*p) for p in pts]
    as_rel = [PointRelative(p[0]-3, p[1]+4, base) for p in pts]
    for name, src, kind in (('tuples', as_tuples, tuple), ('points', as_points, Point), ('relative', as_rel, Point)):
        got = t.transform_pts(src)
        same(len(got), len(pts), 'length')
        for g, w in zip(got, want):
            expect(isinstance(g, kind), 'transform_pts of %s gave %r', name, g)
            close(tuple(g) if kind is tuple else g.xy(), w, 'transform_pts ' + name)
        flat = t.transform_pts(src, True)
        same(len(flat), 2*len(pts), 'flattened length')
        for i, w in enumerate(want):
            close(flat[2*i:2*i+2], w, 'flattened ' + name)
    np_pts = np.array([(x, y, 1) for x, y in pts], dtype=float).T
    keep = np_pts.copy()
    for g, w in zip(t.transform_np_pts(np_pts), want):
        close(g[:2], w, 'transform_np_pts')
    expect(np.array_equal(np_pts, keep), 'array argument altered')
    same(as_tuples, [tuple(p) for p in pts], 'list argument')
