"""C17: transforming an element transforms what it draws"""
from hypothesis import strategies as st
from x7.geom.transform import Transform
from harness import edits, gen, mk, ref
from harness.core import Registry, expect, near, near_pts, same, unit

R = Registry('C17', 'Elements of every kind (curves, rectangles, rounded rectangles, ellipses, shapes with holes, nested '
             'groups, some hidden) with arbitrary own transforms, transformed by arbitrary invertible affine maps held '
             'in matrices with 0..2 saved states. Non-trivial: the map is not the identity and something is drawn.')


def matrix(ops, depth):
    """A Transform with saved states below its present value"""
    m = Transform()
    for i in range(depth):
        m.translate(i+1, 2).push()
    m.reset()
    m.set_matrix(mk.xform(ops))
    return m


def tol_of(spec, m):
    return 1e-8*(mk.big(spec)*(1 + ref.norm(m)) + ref.shift(m))


def check(s, cx, tol=None):
    spec, ops, depth = s
    m = mk.mat(ops)
    e = mk.elem(spec)
    was = mk.state(e)
    mx = matrix(ops, depth)
    mx_was = mx.as_6tuple()
    tol = tol or tol_of(spec, m)
    moved = e.transform(mx)
    same(mk.state(e), was, 'the original')
    same(mx.as_6tuple(), mx_was, 'the matrix passed in')
    same(len(mx.stack), depth, 'saved states of the matrix')
    expect(moved is not e, 'a new element')
    same(type(moved), type(e), 'type')
    same(moved.name, e.name, 'name')
    same(moved.penbrush, e.penbrush, 'style')
    same(moved.closed, e.closed, 'closedness')
    want = mk.paths_sig(e, mk.dc(ops))
    got = mk.paths_sig(moved, mk.dc())
    mk.same_paths(got, want, tol, 'transformed', outline=spec['k'] != 'curve')
    pts = [p for _pb, _c, ps in got for p in ps]
    cx.nt(m != ref.IDENT and len(pts) > 0)
    cx.label(spec['k'])
    # and so again under another context
    mk.same_paths(mk.paths_sig(moved, mk.dc([['r', 30], ['s', 2, 3], ['t', 1, 2]])),
                  [(p, c, mk.map_path(mk.mat([['r', 30], ['s', 2, 3], ['t', 1, 2]]), ps)) for p, c, ps in got],
                  tol*10, 'transformed, in a context')
    # what is done later to the matrix does not reach the result, nor the other way round
    mx.rotate(30).translate(7, 8)
    mk.same_paths(mk.paths_sig(moved, mk.dc()), got, 0, 'after changing the matrix')
    mx.set_matrix(mk.xform(ops))
    moved.xform.scale(2, 3).translate(1, 1)
    same(mx.as_6tuple(), mx_was, 'the matrix after changing the result')
    same(mk.state(e), was, 'the original after changing the result')
    moved = e.transform(mx)
    return e, moved, m, pts, tol


@R.facet(st.tuples(gen.leaf(), gen.xform(), st.integers(0, 2)).map(list), n=700)
def leaves(s, cx):
    check(s, cx)


@R.facet(st.tuples(gen.leaf('axis'), gen.xform_axis(), st.integers(0, 1)).map(list), n=250)
def leaves_scaled(s, cx):
    """Only scales and translations: elements may move their points instead of keeping a transform"""
    check(s, cx)


@R.facet(st.tuples(gen.leaf('sim'), gen.xform_similarity(), st.integers(0, 1)).map(list), n=250)
def leaves_similar(s, cx):
    check(s, cx)


@R.facet(st.tuples(gen.holes(), gen.xform(), st.integers(0, 2)).map(list), n=250)
def holes(s, cx):
    check(s, cx)


@R.facet(st.tuples(gen.one_of(gen.model(), gen.model(), gen.group_of(gen.leaf(), max_size=2)), gen.xform(), st.integers(0, 2)).map(list),
         n=300)
def models(s, cx):
    check(s, cx)


@R.facet(st.tuples(gen.any_elem(), st.lists(gen.xform(40, 2), min_size=2, max_size=3)).map(list), n=200)
def twice(s, cx):
    """Transforming step by step is transforming by the product"""
    spec, steps = s
    e = mk.elem(spec)
    total = ref.IDENT
    for ops in steps:
        e = e.transform(mk.xform(ops))
        total = ref.mul(mk.mat(ops), total)
    got = mk.paths_sig(e, mk.dc())
    cx.nt(all(mk.mat(o) != ref.IDENT for o in steps) and len(got) > 0)
    tol = tol_of(spec, total)
    for ops in steps:
        tol *= 1 + ref.norm(mk.mat(ops))
    mk.same_paths(got, mk.scene(spec, total), tol, 'stepwise', outline=spec['k'] != 'curve')


@R.facet(gen.any_elem(), n=200)
def identity(spec, cx):
    e = mk.elem(spec)
    same_as = e.transform(Transform())
    got = mk.paths_sig(same_as, mk.dc())
    cx.nt(len(got) > 0)
    cx.label(spec['k'])
    mk.same_paths(got, mk.paths_sig(e, mk.dc()), tol_of(spec, ref.IDENT), 'identity', outline=spec['k'] != 'curve')


def has_empty(spec):
    return spec['k'] == 'group' and (not spec['elems'] or any(has_empty(e) for e in spec['elems']))


@R.facet(st.tuples(gen.any_elem(empty_sub=False, hidden=False), gen.xform(), st.just(0)).map(list), n=300)
def box_covers(s, cx):
    """The box of the transformed element covers what it draws"""
    e, moved, m, pts, tol = check(s, cx)
    b = moved.bbox()
    for x, y in pts:
        expect(b.xl - tol <= x <= b.xh + tol and b.yl - tol <= y <= b.yh + tol, 'box %s misses %r', b, (x, y))


@R.facet(st.tuples(gen.any_elem('axis', empty_sub=False, hidden=False), gen.xform_axis(), st.just(0)).map(list), n=300)
def box_moves(s, cx):
    """With scales and translations only the box moves exactly with the element"""
    e, moved, m, pts, tol = check(s, cx)
    b = e.bbox()
    want = ref.box(ref.ap_list(m, [(b.xl, b.yl), (b.xh, b.yh)]))
    near_pts([moved.bbox().as_tuple()[:2], moved.bbox().as_tuple()[2:]], [want[:2], want[2:]], tol, 'box')


@R.facet(st.tuples(gen.large(), gen.xform(), st.integers(0, 2)).map(list), n=80)
def large(s, cx):
    """Many parts, many levels"""
    check(s, cx)


@R.facet(st.tuples(gen.one_of(gen.leaf(), gen.holes(), gen.model()), st.sampled_from([1e-7, 1e-5, 1e-3, 1e4, 1e6]), gen.angle(),
                   st.booleans(), st.integers(0, 1)).map(list), n=150)
def to_sizes(s, cx):
    """Very small and very large results"""
    spec, f, deg, turn, depth = s
    check([spec, [['s', f, f]] + ([['r', deg]] if turn else []), depth], cx, 1e-8*f*mk.big(spec))
    cx.label('%g' % f)


@R.facet(st.tuples(gen.one_of(gen.leaf(), gen.holes(), gen.model()), gen.xform(), st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=150)
def sizes(s, cx):
    """Very small and very large elements"""
    spec, ops, f = s
    with unit(f):
        check([mk.scaled(spec, f), mk.scaled_ops(ops, f), 0], cx)
    cx.label('%g' % f)


@R.facet(st.tuples(gen.elem_rrect(), st.tuples(gen.factor(), gen.factor(), gen.coord(), gen.coord(), gen.one_of(st.just(0), gen.angle())).map(
    lambda v: [['s', v[0], v[1]], ['t', v[2], v[3]]] + ([['r', v[4]]] if v[4] else [])), st.integers(0, 1),
    st.sampled_from([1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1, 10, 1e3, 1e6])).map(list), n=300)
def rounded_stretched(s, cx):
    """Rounded rectangles of every size scaled differently in x and y: the corners become elliptic"""
    spec, ops, depth, f = s
    with unit(f):
        check([mk.scaled(spec, f), mk.scaled_ops(ops, f), depth], cx)
    cx.label('%g' % f)


@R.facet(st.tuples(gen.any_elem(), st.lists(gen.xform(), min_size=1, max_size=2), edits.EDITS).map(list), n=250)
def edited_between(v, cx):
    """The element as it is now is what is transformed"""
    spec, maps, eds = v
    maps = maps + [[]]

    def ask(ops):
        m = mk.xform(ops)

        def fn(e):
            t = e.transform(m)
            return mk.state(t)[:4], [(repr(pb), c, pts) for pb, c, pts in mk.paths_sig(t, mk.dc([], 8, 7))]
        return fn
    cx.nt(edits.asked_again(mk.elem(spec), eds, [ask(ops) for ops in maps], 'transformed'))
    cx.label(spec['k'])


@R.facet(st.tuples(gen.any_elem(), gen.one_of(st.just([]), gen.xform()), edits.EDITS, st.booleans()).map(list), n=300)
def edited_after(v, cx):
    """The transformed element and the original are edited independently (the children of a group are shared)"""
    spec, ops, eds, orig = v
    e = mk.elem(spec)
    m = mk.xform(ops)
    t = e.transform(m)
    one, other = (e, t) if orig else (t, e)
    was = mk.state(other), mk.paths_sig(other, mk.dc([], 8, 7))
    before = mk.state(one)
    for o in eds:
        edits.edit(one, [0] + o[1:])
    if spec['k'] == 'curve' and len(one.control_points) > 1:
        one.add_one()
    elif spec['k'] == 'holes':
        for part in [one.outside] + one.inside:
            part.xform.translate(3, 1)
            edits.edit(part, [0, 'pt', 1, 5, 6])
    m.scale(2, 3).translate(5, 5)
    same((mk.state(other), mk.paths_sig(other, mk.dc([], 8, 7))), was, 'the %s' % ('transformed element' if orig else 'original'))
    same(m.as_6tuple(), mk.xform(ops + [['s', 2, 3], ['t', 5, 5]]).as_6tuple(), 'the matrix')
    cx.nt(mk.state(one) != before)
    cx.label(spec['k'])


@R.facet(st.tuples(gen.one_of(gen.model(), gen.model(), gen.holes(min_inside=1), gen.any_elem()), edits.SHARE, gen.xform()).map(list), n=250)
def sharing(v, cx):
    """Elements, transforms and points may occur at several places of a model, or be the matrix"""
    spec, picks, ops = v
    m = mk.xform(ops)

    def sig(t):
        return mk.state(t)[:4], [(repr(pb), c, pts) for pb, c, pts in mk.paths_sig(t, mk.dc([], 8, 7))]
    count = edits.alike_shared(lambda: mk.elem(spec), picks, [lambda e: sig(e.transform(m))], 'transformed')
    cx.nt(count > 0 or bool(spec['xf']))
    e = mk.elem(spec)
    before = mk.state(e)
    want = sig(e.transform(mk.xform([['m', list(e.xform.as_6tuple())]])))
    edits.same(sig(e.transform(e.xform)), want, 'transformed by its own transform')
    same(mk.state(e), before, 'element')
    same(m.as_6tuple(), mk.xform(ops).as_6tuple(), 'matrix')
