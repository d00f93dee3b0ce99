"""C20: copies are independent and restore brings an element back (undo)"""
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector, BBox, PointRelative
from x7.geom.colors import PenBrush, Pen
from x7.geom.transform import Transform
from x7.geom.model import ElemCurve, ElemEllipse, ElemWithHoles, ElemRectangle, ElemRectangleRounded, Group
from harness import edits, gen, mk, ref
from harness.core import Registry, expect, same, unit

R = Registry('C20', 'Elements of every kind with arbitrary geometry, transforms and styles; edit programs (moving points '
             'and handles in place or by assignment, radius, kind, transform in place or by assignment, style, name, '
             'closedness, holes added, removed and edited; for groups children, points, visibility) applied to the element '
             'or its copy, interleaved with restores. Non-trivial: at least one edit changed the edited object.')

OPS = ['pt_set', 'pt_new', 'handle_l', 'handle_r', 'handle_new', 'kind', 'radius', 'xf_inplace', 'xf_assign', 'pen',
       'name', 'closed', 'box', 'nudge', 'nudge', 'xf_set']
HOLE_OPS = ['outside', 'inside', 'inside', 'hole_add', 'hole_del', 'hole_pen', 'nudge']
GROUP_OPS = ['child_add', 'child_del', 'child_swap', 'point_add', 'point_del', 'hidden', 'xf_inplace', 'xf_assign',
             'xf_set', 'pen', 'name', 'child_add', 'child_del', 'closed', 'nudge']


def op(names):
    return st.tuples(st.sampled_from(names), st.integers(0, 5), gen.coord(90), gen.coord(90),
                     st.sampled_from(OPS[:15])).map(list)


EDITS = st.lists(op(OPS), min_size=1, max_size=6)
HEDITS = st.lists(op(OPS[7:10] + ['name', 'closed'] + HOLE_OPS), min_size=1, max_size=6)
GEDITS = st.lists(op(GROUP_OPS), min_size=1, max_size=6)


def pens(i):
    return [PenBrush('red'), PenBrush(('green', 3)), PenBrush(Pen('blue', -2)), PenBrush('cyan'), PenBrush(None),
            PenBrush((1, 2, 3))][i]


def nudge(e, i, x, y):
    """A change of next to nothing"""
    d = [1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e-4][i]*(1 if x >= 0 else -1)
    if isinstance(e, ElemWithHoles):
        nudge(([e.outside] + e.inside)[i % (1 + len(e.inside))], (i + 1) % 6, y, x)
    elif isinstance(e, ElemCurve) and e.control_points and y > 20:
        for cp in e.control_points[i % 2:]:
            cp.c.setxy(cp.c.x + d, cp.c.y)
            cp.dr.setxy(cp.dr.x, cp.dr.y - d)
    elif isinstance(e, ElemRectangleRounded) and y > 50:
        e.radius += abs(d)
    elif isinstance(e, ElemRectangle) and y > 20:
        e.p2.setxy(e.p2.x, e.p2.y + d)
    elif isinstance(e, Group) and e.points and y > 20:
        name = sorted(e.points)[0]
        e.points[name] = e.points[name] + Vector(d, 0)
    elif y < -20:
        e.xform.compose(Transform((1, d, 0, d, 1, 0)))
    else:
        e.xform.translate(0, d)


def edit(e, o):
    k, i, x, y, sub = o
    if k == 'nudge':
        nudge(e, i, x, y)
        return
    if k == 'xf_inplace':
        [lambda: e.xform.translate(x, y), lambda: e.xform.scale(2, 3), lambda: e.xform.rotate(30),
         lambda: e.xform.reset(), lambda: e.xform.compose(Transform((1, 2, x, 3, 4, y))),
         lambda: e.xform.compose_outer(Transform((1, 0, 1, 0, 1, y)))][i]()
    elif k == 'xf_set':
        e.xform.set_matrix(Transform((1, i, x, 0, 2, y)))
    elif k == 'xf_assign':
        e.xform = Transform((1, 0, x, i, 1, y))
    elif k == 'pen':
        e.penbrush = pens(i)
    elif k == 'name':
        e.name = 'renamed%d' % i
    elif k == 'closed' and isinstance(e, (Group, ElemWithHoles)):
        if not e.penbrush.filled:
            e.closed = not e.closed
    elif isinstance(e, Group):
        names = list(e.elems)
        if k == 'child_add':
            e.add('new%d' % i, ElemRectangle('n', PenBrush('red'), Point(x, y), Point(1, 2)))
        elif k == 'child_del' and names:
            del e.elems[names[i % len(names)]]
        elif k == 'child_swap' and names:
            e.elems[names[i % len(names)]] = ElemRectangle(names[i % len(names)], PenBrush('red'), Point(x, y), Point(1, 2))
        elif k == 'point_add' and 'pt%d' % i not in e.points:
            e.add_pt('pt%d' % i, Point(x, y))
        elif k == 'point_del':
            e.points.pop('pt%d' % i, None)
        elif k == 'hidden':
            e.hidden = not e.hidden
    elif isinstance(e, ElemWithHoles):
        if k == 'outside':
            edit(e.outside, [sub, i, x, y, sub])
        elif k == 'inside' and e.inside:
            edit(e.inside[i % len(e.inside)], [sub, i, x, y, sub])
        elif k == 'hole_add':
            e.inside.append(ElemRectangle('extra%d' % i, e.penbrush, Point(x, y), Point(x+1, y+1)))
        elif k == 'hole_del' and e.inside:
            del e.inside[i % len(e.inside)]
        elif k == 'hole_pen' and e.inside:
            e.inside[i % len(e.inside)].penbrush = pens(i)
    elif isinstance(e, ElemCurve):
        cp = e.control_points[i % len(e.control_points)] if e.control_points else None
        if cp is None:
            return
        if k == 'pt_set' or k == 'box':
            cp.c.setxy(x, y)
        elif k == 'pt_new':
            cp.c = Point(x, y)
        elif k == 'handle_l' or k == 'radius':
            cp.dl.setxy(x, y)
        elif k == 'handle_r':
            cp.dr.setxy(x, y)
        elif k == 'handle_new':
            cp.dr = Vector(x, y)
        elif k == 'kind':
            cp.kind = 'sharp' if cp.kind != 'sharp' else 'smooth'
        elif k == 'closed' and not e.penbrush.filled:
            e.closed = not e.closed
    else:
        if k in ('pt_set', 'handle_l'):
            (e.p1 if i % 2 else e.p2).setxy(x, y)
        elif k == 'pt_new':
            e.p1 = Point(x, y)
        elif k == 'handle_new':
            e.p2 = Point(x, y)
        elif k == 'box':
            e.bbox_int_update(BBox(x, y, x+1+i, y+2))
        elif k == 'radius' and isinstance(e, ElemRectangleRounded):
            e.radius = 1 + i


def sig(e):
    return mk.state(e), [(repr(p), c, pts) for p, c, pts in mk.paths_sig(e, mk.dc([['r', 10]], 8, 7))]


@R.facet(gen.any_elem(), n=400)
def faithful(spec, cx):
    e = mk.elem(spec)
    was = sig(e)
    c = e.copy()
    cx.nt(bool(was[1]))
    cx.label(spec['k'])
    expect(c is not e, 'a new object')
    same(type(c), type(e), 'type')
    same(sig(c), was, 'copy')
    expect(c == e and e == c, 'copy equals the original')
    same(sig(e), was, 'original')
    same(sig(c.copy()), was, 'copy of the copy')
    same(c.bbox_int() if spec['k'] in ('rect', 'ellipse', 'rrect', 'curve') else None,
         e.bbox_int() if spec['k'] in ('rect', 'ellipse', 'rrect', 'curve') else None, 'box')


def independent(spec, edits, edit_copy, cx):
    e = mk.elem(spec)
    was = sig(e)
    c = e.copy()
    a, b = (c, e) if edit_copy else (e, c)
    for o in edits:
        edit(a, o)
        same(sig(b), was, '%s after %s of the %s' % (('original', o[0], 'copy') if edit_copy else ('copy', o[0], 'original')))
    cx.nt(sig(a) != was)
    cx.label('copy edited' if edit_copy else 'original edited')


@R.facet(st.tuples(gen.leaf(), EDITS, st.booleans()).map(list), n=400)
def independent_leaf(s, cx):
    independent(*s, cx)


@R.facet(st.tuples(gen.holes(max_inside=3), HEDITS, st.booleans()).map(list), n=300)
def independent_holes(s, cx):
    independent(*s, cx)


@R.facet(st.tuples(gen.model(), GEDITS, st.booleans()).map(list), n=250)
def independent_group(s, cx):
    """A group's copy keeps its own list of children, points, transform and visibility"""
    independent(*s, cx)


def undo(spec, rounds, cx):
    """copy; (edit, restore)*: always back to the state of the copy, and the copy never changes"""
    e = mk.elem(spec)
    was = sig(e)
    c = e.copy()
    changed = False
    for edits in rounds:
        for o in edits:
            edit(e, o)
        same(sig(c), was, 'the copy after editing')
        changed = changed or sig(e) != was
        e.restore(c)
        same(sig(e), was, 'restored')
        expect(e == c and c == e, 'restored element equals the copy')
        same(sig(c), was, 'the copy after restoring')
    cx.nt(changed)
    cx.label('rounds=%d' % len(rounds))


@R.facet(st.tuples(gen.leaf(), st.lists(EDITS, min_size=1, max_size=3)).map(list), n=400)
def undo_leaf(s, cx):
    undo(*s, cx)


@R.facet(st.tuples(gen.holes(max_inside=3), st.lists(HEDITS, min_size=1, max_size=3)).map(list), n=300)
def undo_holes(s, cx):
    undo(*s, cx)


@R.facet(st.tuples(gen.model(), st.lists(GEDITS, min_size=1, max_size=3)).map(list), n=250)
def undo_group(s, cx):
    undo(*s, cx)


CORNERS = st.lists(st.tuples(st.sampled_from(['plain', 'relative', 'named']), gen.coord(60), gen.coord(60)).map(list),
                   min_size=2, max_size=2)


@R.facet(st.tuples(st.sampled_from(['rect', 'ellipse', 'rrect']), CORNERS, gen.xy(60), st.integers(0, 20)).map(list), n=200)
def from_callers_points(s, cx):
    """Shapes defined by two corners keep their own corners"""
    kind, corners, (nx, ny), radius = s
    base = Point(3, 4)
    given = []
    for how, x, y in corners:
        given.append(Point(x, y) if how == 'plain' else Point(x, y, 'p') if how == 'named' else PointRelative(x-3, y-4, base))
    pb = mk.penbrush([['red', 1], 'blue'])
    if kind == 'rrect':
        e = ElemRectangleRounded('e', pb, given[0], given[1], radius)
    else:
        e = {'rect': ElemRectangle, 'ellipse': ElemEllipse}[kind]('e', pb, given[0], given[1])
    before = mk.state(e)
    copy = e.copy()
    cx.nt(any(c[0] == 'relative' for c in corners) or corners[0][1:] != corners[1][1:])
    for g in given:
        if isinstance(g, PointRelative):
            g.dx, g.dy = nx, ny
        else:
            g.setxy(nx, ny)
    base.setxy(nx+1, ny-1)
    same(mk.state(e), before, 'the element after edits of the points it was made from')
    where = [g.xy() for g in given]
    e.p1.setxy(77, 88)
    e.p2.setxy(99, 111)
    same([g.xy() for g in given], where, 'the points after edits of the element')
    same(mk.state(copy), before, 'the copy')
    e.restore(copy)
    same(mk.state(e), before, 'the restored element')


@R.facet(st.tuples(gen.leaf(), EDITS, EDITS).map(list), n=200)
def checkpoints(s, cx):
    """Two checkpoints, restored in any order"""
    spec, e1, e2 = s
    e = mk.elem(spec)
    s0 = sig(e)
    c0 = e.copy()
    for o in e1:
        edit(e, o)
    s1 = sig(e)
    c1 = e.copy()
    for o in e2:
        edit(e, o)
    s2 = sig(e)
    cx.nt(s0 != s1 and s1 != s2)
    e.restore(c1)
    same(sig(e), s1, 'second checkpoint')
    e.restore(c0)
    same(sig(e), s0, 'first checkpoint')
    e.restore(c1)
    same(sig(e), s1, 'second checkpoint again (redo)')
    same(sig(c0), s0, 'first copy')
    same(sig(c1), s1, 'second copy')


@R.facet(gen.one_of(gen.tag('long', gen.long_curve(), EDITS), gen.tag('holes', gen.many_holes(), HEDITS),
                    gen.tag('crowd', gen.crowd(), GEDITS), gen.tag('deep', gen.deep(), GEDITS)), n=80)
def large(s, cx):
    """Many parts, many levels"""
    _k, spec, edits, both = s
    faithful(spec, cx)
    independent(spec, edits, both, cx)
    undo(spec, [edits, edits], cx)


@R.facet(st.tuples(gen.any_elem(), st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=80)
def sizes(s, cx):
    """Very small and very large geometry"""
    spec, f = s
    with unit(f):
        faithful(mk.scaled(spec, f), cx)
    cx.label('%g' % f)


@R.facet(st.tuples(gen.any_elem(), st.integers(0, 5), gen.coord(90), gen.coord(90)).map(list), n=300)
def tiny_edits(s, cx):
    """Undoing a change of next to nothing"""
    spec, *how = s
    e = mk.elem(spec)
    was = mk.state(e)
    c = e.copy()
    nudge(e, *how)
    cx.nt(mk.state(e) != was)
    cx.label(spec['k'])
    same(mk.state(c), was, 'the copy after editing')
    e.restore(c)
    same(mk.state(e), was, 'restored')


@R.facet(st.tuples(gen.any_elem(), edits.EDITS).map(list), n=150)
def edited_between(v, cx):
    """A copy is one of the element as it is now"""
    spec, eds = v

    def copied(e):
        return mk.state(e.copy()), [(repr(p), c, pts) for p, c, pts in mk.paths_sig(e.copy(), mk.dc([], 8, 5))]
    cx.nt(edits.asked_again(mk.elem(spec), eds, [copied], 'copy', parts=True))
    cx.label(spec['k'])


@R.facet(st.tuples(gen.one_of(gen.model(), gen.model(), gen.holes(min_inside=1), gen.any_elem()), edits.SHARE, edits.EDITS).map(list), n=250)
def sharing(v, cx):
    """Elements, transforms and points may occur at several places of a model; an element is restored from itself"""
    spec, picks, eds = v
    apart, e, count = edits.sharing(lambda: mk.elem(spec), picks)
    cx.nt(count > 0)
    before = mk.state(apart)
    same(mk.state(e), before, 'model sharing parts')
    c = e.copy()
    same(mk.state(c), before, 'copy')
    e.restore(e)
    same(mk.state(e), before, 'restored from itself')
    expect(e == c and c == e, 'equal to its copy')
    e.restore(c)
    same(mk.state(e), before, 'restored')
    same(mk.state(c), before, 'copy after restoring')
    for o in eds:
        if o[1] in ('more', 'less') and spec['k'] == 'curve':
            continue
        edits.edit(c, [0] + o[1:])
    same(mk.state(e), before, 'element after edits of the copy')
