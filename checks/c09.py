"""C09: un-transforming undoes transforming after any history"""
import numpy as np
from hypothesis import strategies as st
from PIL import Image
from x7.geom.geom import Point
from x7.geom.transform import Matrix
from x7.geom.drawing import DrawingContext
from harness import gen, ref, mk
from harness.tprog import Prog, mat_ops, stack_ops, SLOT, m3
from harness.core import Registry, expect, near, same, near_xy

R = Registry('C09', 'Programs of up to 16 mutating operations (including push, pop, set-matrix, reset, rotate-about, '
             'compositions) over three transforms with inverse look-ups interleaved at generated places; after the '
             'program and at every look-up the round trip and the exposed inverse are checked. Non-trivial: some '
             'transform is changed after its inverse was looked up.')

INV = st.tuples(st.just('inv'), SLOT).map(list)
OPS = st.lists(gen.one_of(mat_ops() + stack_ops() + [INV]*6), min_size=1, max_size=16)


def round_trip(t, m, pts):
    """Both directions, all forms"""
    inv = np.abs(np.linalg.inv(m3(m)))
    big = 1 + max(abs(v) for p in pts for v in p)
    tol = 1e-13 * (1 + float((inv.dot(np.abs(m3(m)))).max())) * big * 10
    tol_back = 1e-13 * (1 + float((np.abs(m3(m)).dot(inv)).max())) * big * 10
    for p in pts:
        xy = t.transform(*p)
        near_xy(t.untransform(*xy), p, tol, 'untransform(transform(p))')
        q = t.untransform_pt(t.transform_pt(Point(*p)))
        expect(type(q) is Point, 'untransform_pt gives a Point, not %r', type(q))
        near_xy(q.xy(), p, tol, 'untransform_pt(transform_pt(p))')
        near_xy(t.transform(*t.untransform(*p)), p, tol_back, 'transform(untransform(p))')
        near_xy(t.transform_pt(t.untransform_pt(Point(*p))).xy(), p, tol_back, 'transform_pt(untransform_pt(p))')
    tup = [tuple(p) for p in pts]
    keep = list(tup)
    back = t.untransform_pts(t.transform_pts(tup))
    same(len(back), len(pts), 'length')
    for b, p in zip(back, pts):
        expect(isinstance(b, tuple), 'untransform_pts gives pairs')
        near_xy(b, p, tol, 'untransform_pts(transform_pts)')
    for b, p in zip(t.transform_pts(t.untransform_pts(tup)), pts):
        near_xy(b, p, tol_back, 'transform_pts(untransform_pts)')
    for b, p in zip(t.untransform_pts(t.transform_pts([Point(*p) for p in pts])), pts):
        near_xy(tuple(b), p, tol, 'untransform_pts of points')
    same(tup, keep, 'argument')


@R.facet(st.tuples(OPS, st.lists(gen.xy(100), min_size=1, max_size=3), st.lists(st.booleans(), min_size=1, max_size=6)).map(list), n=700)
def history(s, cx):
    ops, pts, when = s
    p = Prog()
    looked, stale = set(), False
    for i, op in enumerate(ops):
        slot = op[1]
        p.step(op)
        if op[0] == 'inv':
            looked.add(slot)
        elif slot in looked:
            stale = True
            if op[0] == 'copy':
                looked.discard(slot)
        if p.too_big():
            cx.label('stopped: magnitude')
            break
        if when[i % len(when)]:
            sl = p.slots[slot]
            round_trip(sl.t, sl.t.as_6tuple(), pts)
            looked.add(slot)
    cx.nt(stale)
    cx.label('pushes', p.pushes)
    for sl in p.slots:
        if sl.bound.max() > 1e9 or abs(ref.det(sl.m)) < 1e-9:
            continue
        p.check_inverse(sl)
        round_trip(sl.t, sl.t.as_6tuple(), pts)


@R.facet(st.tuples(gen.xform(60, 4), st.lists(gen.one_of(mat_ops()), max_size=4), gen.xform(60, 3),
                   st.lists(gen.xy(100), min_size=1, max_size=3), st.booleans()).map(list), n=250)
def with_block(s, cx):
    """Inverse looked up before, inside and after a with-block, left normally or by an exception"""
    start, ops, _late, pts, boom = s
    t = mk.xform(start)
    round_trip(t, t.as_6tuple(), pts)
    p = Prog()
    cx.nt(bool(ops))
    cx.label('exception', boom)
    before = t.as_6tuple()

    class Boom(Exception):
        pass
    try:
        with t.push():
            for op in ops:
                op = [op[0], 0] + op[2:]
                p.slots[0].t = t
                p.slots[0].m = t.as_6tuple()
                p.slots[0].bound = np.abs(m3(t.as_6tuple()))
                if op[0] in ('copy', 'set', 'in', 'out'):
                    continue
                p.step(op)
                if abs(ref.det(t.as_6tuple())) < 1e-9 or max(map(abs, t.as_6tuple())) > 1e9:
                    break
                round_trip(t, t.as_6tuple(), pts)
            if boom:
                raise Boom()
    except Boom:
        pass
    same(t.as_6tuple(), before, 'restored')
    round_trip(t, t.as_6tuple(), pts)


@R.facet(st.tuples(gen.xform(60, 3), gen.xform(60, 3), st.lists(gen.xy(100), min_size=1, max_size=3),
                   st.booleans()).map(list), n=200)
def context(s, cx):
    """Drawing context: pixels <-> model"""
    a, b, pts, look = s
    cx.nt(bool(a) and bool(b))
    t = mk.xform(a)
    dc = DrawingContext(Image.new('RGBA', (4, 4)), t)

    def check(m):
        inv = np.abs(np.linalg.inv(m3(m)))
        big = 1 + max(abs(v) for p in pts for v in p)
        tol = 1e-12 * (1 + float((inv.dot(np.abs(m3(m)))).max())) * big
        back = 1e-12 * (1 + float((np.abs(m3(m)).dot(inv)).max())) * big
        for p in pts:
            near_xy(dc.scale_pt(*p), ref.ap(m, p), 1e-12*(1+ref.norm(m)*big+ref.shift(m)), 'scale_pt')
            near_xy(dc.unscale_pt(*dc.scale_pt(*p)), p, tol, 'unscale_pt(scale_pt)')
            near_xy(dc.scale_pt(*dc.unscale_pt(*p)), p, back, 'scale_pt(unscale_pt)')

    if look:
        check(mk.mat(a))
    dc.matrix.rotate_about(40, Point(5, 6))
    check(dc.matrix.as_6tuple())
    dc.set_matrix(mk.xform(b))
    same(dc.matrix.as_6tuple(), tuple(float(v) for v in mk.mat(b)), 'set_matrix')
    check(mk.mat(b))


@R.facet(gen.xform(100, 4), n=150)
def matrix_inverse(s, cx):
    m = mk.mat(s)
    cx.nt(bool(s))
    mm = Matrix(m3(m))
    inv = mm.inverse()
    want = ref.inv(m)
    lim = 1e-12*(1 + max(map(abs, want)))*(1 + max(map(abs, m)))
    for i in range(2):
        for j in range(3):
            near(inv.as_tuple3x3()[i][j], want[3*i+j], lim, 'Matrix.inverse[%d][%d]' % (i, j))
    same(mm.as_tuple3x3(), Matrix(m3(m)).as_tuple3x3(), 'matrix unchanged')


@R.facet(st.tuples(st.lists(gen.one_of(mat_ops() + stack_ops()), min_size=20, max_size=60), st.lists(gen.xy(100), min_size=1, max_size=2),
                   st.lists(st.booleans(), min_size=1, max_size=6)).map(list), n=60)
def long_history(s, cx):
    history(s, cx)
