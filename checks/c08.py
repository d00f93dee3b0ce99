"""C08: a transform equals the composition of the operations applied to it"""
from hypothesis import strategies as st
from x7.geom.geom import Point
from x7.geom.transform import Transform, Matrix
from harness import gen, ref, mk
from harness.tprog import Prog, mat_ops, check_point_forms, SLOTS
from harness.core import Registry, expect, near, same, near_xy

R = Registry('C08', 'Programs of up to 14 operations over three transforms that may be composed with, copied from and '
             'set to one another (and themselves), against 3x3 matrices multiplied by hand; every transform is checked '
             'after every step. Non-trivial: at least three effective operations, at least one linking two transforms.')


@R.facet(st.tuples(st.lists(gen.one_of(mat_ops()), min_size=1, max_size=14),
                   st.lists(gen.xy(100), min_size=1, max_size=4)).map(list), n=500)
def program(s, cx):
    ops, pts = s
    p = Prog()
    linked = 0
    for op in ops:
        p.step(op)
        if op[0] in ('in', 'out', 'copy', 'set'):
            linked += 1
            cx.label('self' if op[1] == op[2] else op[0])
        if p.too_big():
            cx.label('stopped: magnitude')
            break
        p.check_matrix('after %d operations (%s),' % (p.ops, op[0]))
    cx.nt(p.ops >= 3 and linked)
    for slot in p.slots:
        tol = slot.tol(8 + max(abs(q[0]) for q in pts), 8 + max(abs(q[1]) for q in pts))
        check_point_forms(slot.t, slot.m, pts, tol)


@R.facet(st.tuples(gen.xform(100, 4), gen.xform(100, 4), st.lists(gen.xy(100), min_size=1, max_size=3),
                   st.sampled_from(['copy', 'set', 'compose', 'outer', 'compose-matrix']), gen.xform(50, 2)).map(list), n=300)
def isolation(s, cx):
    """Transforms linked once do not influence each other afterwards, in either direction"""
    a, b, pts, how, later = s
    cx.label(how)
    cx.nt(bool(a) and bool(b) and bool(later))
    for change_source in (True, False):
        ta, tb = mk.xform(a), mk.xform(b)
        src = tb
        if how == 'copy':
            ta = tb.copy()
        elif how == 'set':
            ta.set_matrix(tb)
        elif how == 'compose':
            ta.compose(tb)
        elif how == 'outer':
            ta.compose_outer(tb)
        else:
            src = Matrix([tb.as_6tuple()[:3], tb.as_6tuple()[3:], (0, 0, 1)])
            ta.compose(src)
        if isinstance(src, Matrix):
            same(tuple(v for r in src.as_tuple3x3()[:2] for v in r), tb.as_6tuple(), 'matrix argument')
        same(tb.as_6tuple(), tuple(float(v) for v in mk.mat(b)), 'source')
        fixed, moved = (ta, tb) if change_source else (tb, ta)
        before = fixed.as_6tuple()
        pushed = len(fixed.stack)
        moved.push()
        do(moved, later)
        moved.rotate_about(30, Point(1, 2))
        same(fixed.as_6tuple(), before, 'other transform after later changes')
        same(len(fixed.stack), pushed, 'other transform pending pushes')


@R.facet(st.tuples(gen.xform(100, 4), gen.xform(100, 4), gen.xy(50)).map(list), n=300)
def equality_and_text(s, cx):
    a, b, p = s
    ta, tb = mk.xform(a), mk.xform(b)
    ma, mb = ta.as_6tuple(), tb.as_6tuple()
    cx.nt(ma != mb)
    expect(ta == mk.xform(a), 'equal matrices compare equal')
    same(ta == tb, ma == mb, 'equality')
    same(eval(repr(ta), {'Transform': Transform}), ta, 'repr rebuilds')
    same(len(ma), 6, 'six values')
    same(Transform(ma).as_6tuple(), ma, 'constructor keeps the six values')
    same(Transform.identity().as_6tuple(), ref.IDENT, 'identity')
    expect(not (ta == ma) and not (ta == None), 'not equal to other types')     # noqa: E711
    for i in range(6):
        d = list(ma)
        d[i] += 1.0
        expect(not (Transform(tuple(d)) == ta), 'differs in component %d', i)
    # (a . b)(p) == a(b(p)), associative
    both = ta.copy().compose(tb)
    tol = 1e-12*(1 + ref.norm(ma))*(1 + ref.norm(mb))*(100 + ref.shift(ma) + ref.shift(mb))
    near_xy(both.transform(*p), ta.transform(*tb.transform(*p)), tol, 'inner composition acts first')
    outer = ta.copy().compose_outer(tb)
    near_xy(outer.transform(*p), tb.transform(*ta.transform(*p)), tol, 'outer composition acts last')


@R.facet(st.tuples(st.lists(gen.one_of(mat_ops()), min_size=20, max_size=60), st.lists(gen.xy(100), min_size=1, max_size=2)).map(list), n=60)
def long_programs(s, cx):
    program(s, cx)


OPL = st.lists(gen.xf_op(50), min_size=1, max_size=2)


def do(t, ops):
    for op in ops:
        if op[0] == 't':
            t.translate(*op[1:])
        elif op[0] == 's':
            t.scale(*op[1:])
        elif op[0] == 'r':
            t.rotate(op[1])
        else:
            t.compose(mk.xform([op]))


@R.facet(st.tuples(gen.xform(60, 2), st.lists(gen.xform(60, 2), min_size=1, max_size=3), st.lists(gen.xform(60, 2), max_size=2),
                   st.sampled_from(['copy', 'set', 'compose', 'outer']), OPL, OPL).map(list), n=200)
def linked_inside_push(s, cx):
    """Copying, setting and composing while either of the two has saved states: neither sees the other's later changes"""
    base, pushed, own, how, later, later2 = s
    cx.label(how)
    cx.nt(any(pushed))
    b = mk.xform(base)
    bm = [b.as_6tuple()]
    for ops in pushed:
        b.push()
        do(b, ops)
        bm.append(b.as_6tuple())
    a = Transform()
    am = [a.as_6tuple()]
    for ops in own:
        a.push()
        do(a, ops)
        am.append(a.as_6tuple())
    if how == 'copy':
        a, am = b.copy(), [None]
    elif how == 'set':
        a.set_matrix(b)
    elif how == 'compose':
        a.compose(b)
    else:
        a.compose_outer(b)
    here, there = a.as_6tuple(), b.as_6tuple()
    if how in ('copy', 'set'):
        same(here, there, 'taken over')
    do(a, later)
    a.rotate_about(20, Point(3, 1))
    same(b.as_6tuple(), there, 'the source after changing the other')
    now = a.as_6tuple()
    do(b, later2)
    b.translate(5, 4)
    same(a.as_6tuple(), now, 'the other after changing the source')
    for want in reversed(bm[:-1]):
        b.pop()
        same(b.as_6tuple(), want, 'saved state of the source')
        same(a.as_6tuple(), now, 'the other after the source is restored')
        b.translate(1, 2)
    for want in reversed(am[:-1]):
        a.pop()
        same(a.as_6tuple(), want, 'saved state of the other')


TINY = st.sampled_from([1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11])
UNIT = gen.one_of(st.sampled_from([0, 0, 1, -1]), gen.fl(-1, 1))


@R.facet(st.tuples(st.lists(st.tuples(TINY, st.tuples(*[UNIT]*6).map(list),
                                      st.sampled_from(['compose', 'compose-matrix', 'outer', 'outer-matrix', 'set',
                                                       't', 's', 'r', 'new'])).map(list), min_size=1, max_size=4),
                   st.booleans()).map(list), n=400)
def tiny(s, cx):
    """Changes of next to nothing are changes all the same"""
    steps, stacked = s
    t, m = Transform(), ref.IDENT
    for e, d, how in steps:
        if stacked:
            t.push()
        near_one = (1 + e*d[0], e*d[1], e*d[2], e*d[3], 1 + e*d[4], e*d[5])
        arg = Transform(near_one)
        mat = Matrix([near_one[:3], near_one[3:], (0, 0, 1)])
        cx.label(how)
        if how in ('compose', 'compose-matrix'):
            t.compose(arg if how == 'compose' else mat)
            m = ref.mul(m, near_one)
        elif how in ('outer', 'outer-matrix'):
            t.compose_outer(arg if how == 'outer' else mat)
            m = ref.mul(near_one, m)
        elif how == 'set':
            t.set_matrix(arg)
            m = near_one
        elif how == 'new':
            t = Transform(near_one)
            m = near_one
        elif how == 't':
            t.translate(e*d[2], e*d[5])
            m = ref.mul(ref.translate(e*d[2], e*d[5]), m)
        elif how == 's':
            t.scale(1 + e*d[0], 1 + e*d[4])
            m = ref.mul(ref.scale(1 + e*d[0], 1 + e*d[4]), m)
        else:
            t.rotate_ccw(e*d[0])
            m = ref.mul(ref.rot(e*d[0]), m)
        cx.nt(m != ref.IDENT)
        tol = 4e-15
        for a, b in zip(t.as_6tuple(), m):
            near(a, b, tol, 'six values')
        # seen by the tiny part of what becomes of a point
        for p in ((1, 0), (0, 1), (0, 0)):
            near_xy(t.transform(*p), ref.ap(m, p), tol, 'point')
            near_xy(t.untransform(*ref.ap(m, p)), p, tol, 'point back')
            back = ref.inv(m)
            near_xy(t.untransform(*p), ref.ap(back, p), tol, 'inverse of a point')
        same(t == Transform(), t.as_6tuple() == ref.IDENT, 'equality with the identity')
        same(t.copy().as_6tuple(), t.as_6tuple(), 'copy')


@R.facet(gen.xform(100, 4), n=150)
def itself(ops, cx):
    """A transform combined with or set to itself"""
    m = mk.mat(ops)
    cx.nt(len(ops) > 1)
    for what, fn, want in (('set', lambda t: t.set_matrix(t), m), ('composed', lambda t: t.compose(t), ref.mul(m, m)),
                           ('composed outside', lambda t: t.compose_outer(t), ref.mul(m, m))):
        t = mk.xform(ops)
        t.push()
        t.untransform(1, 2)
        fn(t)
        for got, w in zip(t.as_6tuple(), want):
            near(got, w, 1e-9*(1 + abs(w) + ref.norm(m)**2 + ref.norm(m)*ref.shift(m)), what + ' with itself')
        x, y = t.transform(3, 4)
        near_xy((x, y), ref.ap(want, (3, 4)), 1e-8*(1 + 10*ref.norm(want) + ref.shift(want)), 'point')
        t.pop()
        for got, w in zip(t.as_6tuple(), mk.xform(ops).as_6tuple()):
            same(got, w, 'popped')
