"""C19: an element's bounding box contains everything it draws"""
from hypothesis import strategies as st
from x7.geom.geom import BBox
from x7.geom.model import Group
from harness import edits, gen, mk, ref
from harness.core import Registry, expect, near, near_pts, near_xy, same, unit

R = Registry('C19', 'Elements of every kind and nested models with arbitrary transforms at each level: their boxes against '
             'the paths they draw, their children, their defining corners and hand-mapped references; box updates on '
             'elements defined by two corners. Non-trivial: the element draws something with a non-identity transform '
             '(or, for updates, the box changes).')


def pts_of(e, ppc=None):
    return [p for _pb, _c, ps in mk.paths_sig(e, mk.dc([], 8, ppc)) for p in ps]


def covers(b, pts, tol):
    for x, y in pts:
        expect(b.xl - tol <= x <= b.xh + tol and b.yl - tol <= y <= b.yh + tol, 'box %s misses %r', b, (x, y))


def near_box(b, want, tol, what):
    near_pts([b.as_tuple()[:2], b.as_tuple()[2:]], [want[:2], want[2:]], tol, what)


def moving(s):
    return mk.mat(s['xf']) != ref.IDENT or any(moving(e) for e in s.get('elems', [])) or \
        ('outside' in s and moving(s['outside']))


def basics(e, tol):
    b = e.bbox()
    expect(b.xl <= b.xh and b.yl <= b.yh, 'ordered box %s', b)
    near_xy(e.center().xy(), ((b.xl+b.xh)/2, (b.yl+b.yh)/2), tol, 'center')
    return b


@R.facet(gen.any_elem(empty_sub=False), n=500)
def contains(spec, cx):
    e = mk.elem(spec)
    was = mk.state(e)
    tol = 1e-11*mk.big(spec)*10
    b = basics(e, tol)
    pts = pts_of(e)
    cx.nt(bool(pts) and moving(spec))
    cx.label(spec['k'])
    covers(b, pts, tol)
    same(mk.state(e), was, 'element')
    same(e.bbox(), b, 'asked again')


RIGHT = st.tuples(st.sampled_from([0, 90, 180, 270, -90]), gen.factor(), gen.factor(), gen.coord(60), gen.coord(60)).map(
    lambda v: [['r', v[0]], ['s', v[1], v[2]], ['t', v[3], v[4]]])


@R.facet(st.tuples(gen.leaf('none', ('rect', 'ellipse', 'rrect')), RIGHT).map(list), n=400)
def exact_corners(s, cx):
    """Axis-aligned transforms: the box is that of the drawn corners / the defining corners mapped"""
    spec, ops = s
    spec = dict(spec, xf=ops)
    e = mk.elem(spec)
    m = mk.mat(ops)
    tol = 1e-11*mk.big(spec)*10
    b = basics(e, tol)
    cx.nt(m != ref.IDENT)
    cx.label(spec['k'])
    near_box(b, ref.box(ref.ap_list(m, mk.leaf_internal_pts(spec))), tol, 'box')
    # and it is tight
    drawn = ref.box(pts_of(e))
    near_box(b, drawn, tol, 'box against what is drawn')
    bi = e.bbox_int()
    near_box(bi, ref.box([tuple(p) for p in spec['p']]), 0, 'internal box')


@R.facet(st.tuples(gen.one_of(gen.elem_curve('none'), gen.elem_curve('none', lo=6, hi=14)), RIGHT).map(list), n=200)
def curve_box(s, cx):
    """A curve's box, axis-aligned, spans points and handle ends"""
    spec, ops = s
    spec = dict(spec, xf=ops)
    e = mk.elem(spec)
    m = mk.mat(ops)
    tol = 1e-11*mk.big(spec)*10
    b = basics(e, tol)
    cx.nt(m != ref.IDENT)
    hull = ref.box(ref.ap_list(m, mk.leaf_internal_pts(spec)))
    expect(b.xl >= hull[0]-tol and b.yl >= hull[1]-tol and b.xh <= hull[2]+tol and b.yh <= hull[3]+tol,
           'box %s is larger than its control polygon %r', b, hull)
    covers(b, pts_of(e), tol)


@R.facet(st.tuples(gen.model(empty_sub=False, hidden=True), RIGHT).map(list), n=250)
def group_union(s, cx):
    spec, ops = s
    spec = dict(spec, xf=ops)
    e = mk.elem(spec)
    tol = 1e-11*mk.big(spec)*10
    union = None
    for child in e.elems.values():
        b = child.bbox().as_tuple()
        union = b if union is None else (min(union[0], b[0]), min(union[1], b[1]), max(union[2], b[2]), max(union[3], b[3]))
    cx.nt(len(e.elems) > 1)
    cx.label('children=%d' % len(e.elems))
    near_box(e.bbox_int(), union, 0, 'internal box')
    m = mk.mat(ops)
    want = ref.box(ref.ap_list(m, [(union[0], union[1]), (union[2], union[3]), (union[0], union[3]), (union[2], union[1])]))
    near_box(basics(e, tol), want, tol, 'box')


@R.facet(st.tuples(gen.holes(max_inside=3), RIGHT).map(list), n=300)
def holes_box(s, cx):
    spec, ops = s
    spec = dict(spec, xf=ops)
    e = mk.elem(spec)
    bare = mk.elem(dict(spec, inside=[]))
    tol = 1e-11*mk.big(spec)*10
    cx.nt(len(spec['inside']) > 0)
    cx.label('holes=%d' % len(spec['inside']))
    b = basics(e, tol)
    same(b, bare.bbox(), 'box with and without holes')
    near_box(e.bbox_int(), mk.elem(spec['outside']).bbox().as_tuple(), 0, 'internal box is the box of the outside')
    m = mk.mat(ops)
    o = e.outside.bbox()
    want = ref.box(ref.ap_list(m, [(o.xl, o.yl), (o.xh, o.yh)]))
    near_box(b, want, tol, 'box')


# boxes without area
FLAT = st.tuples(gen.xy(100), gen.pos(0.5, 50), st.booleans()).map(
    lambda v: [v[0], [v[0][0] + v[1], v[0][1]] if v[2] else [v[0][0], v[0][1] + v[1]]])


@R.facet(st.tuples(gen.leaf('any', ('rect', 'ellipse', 'rrect')), st.lists(gen.one_of(gen.two_corners(), gen.two_corners(), FLAT), min_size=1,
                                                                                         max_size=3)).map(list), n=300)
def update(s, cx):
    spec, boxes = s
    e = mk.elem(spec)
    was = mk.state(e)
    copy = e.copy()
    for p1, p2 in boxes:
        bb = BBox(*p1, *p2)
        keep = bb.as_tuple()
        e.bbox_int_update(bb)
        same(bb.as_tuple(), keep, 'the box passed in')
        same(e.bbox_int().as_tuple(), keep, 'internal box after the update')
        want = mk.elem(dict(spec, p=[list(keep[:2]), list(keep[2:])]))
        tol = 1e-11*(mk.big(spec) + mk.big(dict(spec, p=[p1, p2])))*10
        mk.same_paths(mk.paths_sig(e, mk.dc()), mk.paths_sig(want, mk.dc()), tol, 'drawn', outline=True)
        # the element keeps no link to the box passed in
        bb.xl, bb.yh = -12345, 54321
        same(e.bbox_int().as_tuple(), keep, 'internal box later')
        same(mk.state(e)[:5], was[:5], 'name, style, closedness and transform')
        if spec['k'] == 'rrect':
            same(e.radius, spec['radius'], 'radius')
    cx.nt(boxes[-1] != spec['p'])
    cx.label(spec['k'])
    same(mk.state(copy), was, 'a copy taken before')


@R.facet(gen.large(), n=60)
def large(spec, cx):
    """Many parts, many levels"""
    contains(spec, cx)


@R.facet(st.tuples(gen.any_elem(empty_sub=False), gen.leaf('none', ('rect', 'ellipse', 'rrect')), RIGHT, st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=100)
def sizes(s, cx):
    """Very small and very large geometry"""
    spec, box, ops, f = s
    with unit(f):
        contains(mk.scaled(spec, f), cx)
        exact_corners([mk.scaled(box, f), mk.scaled_ops(ops, f)], cx)
    cx.label('%g' % f)


@R.facet(st.tuples(gen.any_elem(empty_sub=False), edits.EDITS).map(list), n=300)
def edited_between(v, cx):
    """The element as it is now is what has the box"""
    spec, eds = v
    asks = [lambda e: e.bbox().as_tuple(), lambda e: e.bbox_int().as_tuple(), lambda e: e.center().xy()]
    e = mk.elem(spec)
    cx.nt(edits.asked_again(e, eds, asks, 'box'))
    cx.label(spec['k'])
    # a box is the caller's to change
    first = [ask(e) for ask in asks]
    for b in (e.bbox(), e.bbox_int()):
        b.xl, b.yh = -12345, 54321
    e.center().setxy(77, 88)
    same([ask(e) for ask in asks], first, 'box asked for again')


@R.facet(st.tuples(gen.one_of(gen.model(empty_sub=False), gen.model(empty_sub=False), gen.holes(min_inside=1), gen.any_elem(empty_sub=False)), edits.SHARE).map(list), n=150)
def sharing(v, cx):
    """Elements, transforms and points may occur at several places of a model"""
    spec, picks = v
    asks = [lambda e: e.bbox().as_tuple(), lambda e: e.bbox_int().as_tuple(), lambda e: e.center().xy()]
    cx.nt(edits.alike_shared(lambda: mk.elem(spec), picks, asks, 'box') > 0)
