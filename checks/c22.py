"""C22: converting to curves keeps the drawn outline"""
from hypothesis import strategies as st
from x7.geom.model import ElemCurve
from x7.geom.transform import Transform
from harness import edits, gen, mk, ref
from harness.core import Registry, expect, near_pts, near_xy, same, unit

R = Registry('C22', 'Elements of every kind, shapes with holes and nested models (arbitrary transforms at every level) '
             'converted to curves; the curves are drawn at the resolution of the original paths and compared, in order, '
             'with the element drawn in the same context. Non-trivial: at least one transform moves points or several '
             'curves come out.')


def flat(s, m, pb=None):
    """Expected [(name, penbrush, closed, points, kind)] of each leaf in order, hidden or not"""
    s = mk.expand(s)
    m = ref.mul(m, mk.mat(s['xf']))
    if s['k'] == 'group':
        return [p for e in s['elems'] for p in flat(e, m)]
    if s['k'] == 'holes':
        return [p for e in [s['outside']] + s['inside'] for p in flat(e, m, s['pb'])]
    return [(s['name'], mk.penbrush(s['pb'] if pb is None else pb), s.get('closed', True),
             mk.map_path(m, mk.leaf_path(s, 20)), s['k'])]


def group_holes(s):
    return any(e['k'] == 'group' for e in mk.expand(s).get('inside', [])) or any(group_holes(e) for e in s.get('elems', []))


def moving(s):
    return mk.mat(s['xf']) != ref.IDENT or any(moving(e) for e in s.get('elems', [])) or \
        ('outside' in s and moving(s['outside']))


def check(spec, cx, ctx=()):
    e = mk.elem(spec)
    was = mk.state(e)
    curves = e.as_curves()
    same(mk.state(e), was, 'the element')
    ctx = list(ctx)
    m = mk.mat(ctx)
    want = flat(spec, m)
    tol = 1e-10*(mk.big(spec)*(1+ref.norm(m)) + ref.shift(m))
    same(len(curves), len(want), 'number of curves')
    for c, (name, pb, closed, pts, kind) in zip(curves, want):
        expect(type(c) is ElemCurve, 'a plain curve, not %s', type(c))
        same(c.xform, Transform(), 'transform of the curve')
        same(c.name, name, 'name')
        got = mk.paths_sig(c, mk.dc(ctx, 8, 20))
        mk.same_paths(got, [(pb, closed, pts)], tol, kind, outline=kind != 'curve')
    cx.nt(moving(spec) or len(curves) > 1)
    cx.label(spec['k'])
    # changing the curves does not reach the element
    for c in curves:
        for cp in c.control_points:
            cp.c.setxy(1e4, 2e4)
            cp.dl.setxy(1, 2)
            cp.dr.setxy(3, 4)
        c.xform.translate(9, 9)
    same(mk.state(e), was, 'the element after its curves were edited')
    return e


@R.facet(gen.leaf(), n=600)
def leaves(spec, cx):
    check(spec, cx)


@R.facet(st.tuples(gen.leaf(kinds=('rect', 'ellipse', 'rrect')), gen.xform()).map(list), n=200)
def in_context(s, cx):
    check(s[0], cx, s[1])


@R.facet(gen.holes(max_inside=3), n=250)
def holes(spec, cx):
    check(spec, cx)


@R.facet(gen.model(), n=250)
def models(spec, cx):
    check(spec, cx)


@R.facet(gen.model(hidden=False), n=150)
def drawn_order(spec, cx):
    """Curve for curve what the model draws, apart from joined fill paths"""
    e = mk.elem(spec)
    got = [(c.penbrush.pen, p) for c in e.as_curves() for _pb, _c, p in mk.paths_sig(c, mk.dc([], 8, 20))]
    want = [(pb.pen, p) for pb, _c, p in mk.scene(spec, ppc=20, joined=False)]
    same(len(got), len(want), 'number of outlines')
    cx.nt(len(got) > 1)
    tol = 1e-10*mk.big(spec)
    pens = not group_holes(spec)    # within a group that is a hole, the parts keep pens of their own
    for (gp, g), (wp, w) in zip(got, want):
        if pens:
            same(gp, wp, 'pen')
        if g and w:
            for a, b in ((g, w), (w, g)):
                bad = mk.far_point(a, b, tol)
                expect(not bad, 'outline differs at %r', bad)


@R.facet(gen.elem_rect(kinds=('rect',)), n=200)
def corners(spec, cx):
    e = mk.elem(spec)
    (c,) = e.as_curves()
    cx.nt(moving(spec))
    m = mk.mat(spec['xf'])
    (x1, y1), (x2, y2) = spec['p']
    tol = 1e-11*mk.big(spec)
    want = ref.ap_list(m, [(x1, y1), (x1, y2), (x2, y2), (x2, y1)])
    got = [cp.c.xy() for cp in c.control_points]
    same(len(got), 4, 'corners')
    for w in want:
        expect(any(abs(w[0]-g[0]) <= tol and abs(w[1]-g[1]) <= tol for g in got), 'corner %r missing', w)
    if not spec['xf']:
        same(sorted(got), sorted(want), 'exact corners')
    same([cp.dl.xy() + cp.dr.xy() for cp in c.control_points], [(0, 0, 0, 0)]*4, 'straight sides')


@R.facet(gen.leaf(), n=150)
def again(spec, cx):
    """Curves of curves are the same curves"""
    e = mk.elem(spec)
    (c,) = e.as_curves()
    (cc,) = c.as_curves()
    cx.nt(moving(spec))
    same(mk.state(cc)[1:4], mk.state(c)[1:4], 'name, style, closedness')
    near_pts([p for q in cc.control_points for p in mk.real_abs(q)], [p for q in c.control_points for p in mk.real_abs(q)],
             0, 'control points')


@R.facet(gen.large(), n=60)
def large(spec, cx):
    """Many parts, many levels"""
    check(spec, cx)


@R.facet(st.tuples(gen.holes(min_inside=1), st.lists(st.integers(0, 3), min_size=2, max_size=4)).map(list), n=150)
def one_object_several_holes(v, cx):
    """The same element used for several holes is converted for each of them"""
    spec, idx = v
    spec = mk.expand(spec)
    e = mk.elem(spec)
    parts = [e.outside] + e.inside      # (also the outside itself)
    specs = [spec['outside']] + spec['inside']
    e.inside[:] = [parts[i % len(parts)] for i in idx]
    want = flat(dict(spec, inside=[specs[i % len(parts)] for i in idx]), ref.IDENT)
    cx.nt(len({i % len(parts) for i in idx}) < len(idx))
    curves = e.as_curves()
    same(len(curves), len(want), 'number of curves')
    tol = 1e-10*mk.big(spec)
    for c, (name, pb, closed, pts, kind) in zip(curves, want):
        same(c.name, name, 'name')
        got = mk.paths_sig(c, mk.dc([], 8, 20))
        mk.same_paths(got, [(pb, closed, pts)], tol, kind, outline=kind != 'curve')
    ids = [id(cp) for c in curves for cp in c.control_points]
    same(len(ids), len(set(ids)), 'control points of the curves')


@R.facet(st.tuples(gen.any_elem(), st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=80)
def sizes(s, cx):
    """Very small and very large geometry"""
    spec, f = s
    with unit(f):
        check(mk.scaled(spec, f), cx)
    cx.label('%g' % f)


@R.facet(st.tuples(gen.any_elem(), edits.EDITS).map(list), n=200)
def edited_between(v, cx):
    """The element as it is now is what is converted"""
    spec, eds = v
    cx.nt(edits.asked_again(mk.elem(spec), eds, [lambda e: [mk.state(c) for c in e.as_curves()]], 'curves', parts=True))
    cx.label(spec['k'])


@R.facet(st.tuples(gen.one_of(gen.model(), gen.model(), gen.holes(min_inside=1), gen.any_elem()), edits.SHARE).map(list), n=150)
def sharing(v, cx):
    """Elements, transforms and points may occur at several places of a model"""
    spec, picks = v
    cx.nt(edits.alike_shared(lambda: mk.elem(spec), picks, [lambda e: [mk.state(c) for c in e.as_curves()]], 'curves') > 0)
