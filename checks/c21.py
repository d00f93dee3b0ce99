"""C21: dumped models rebuild to an equal model when executed"""
from hypothesis import strategies as st
from x7.geom.geom import Point, PointRelative, Vector
from x7.geom.model import DumpContext, ElemCurve, ControlPoint, GroupBuilder, Group
from x7.geom.colors import PensByShape, PenBrush
from harness import edits, gen, mk, ref
from harness.core import Registry, expect, same, unit

R = Registry('C21', 'Elements of every kind and nested models (awkward names, integer and fractional coordinates, colour '
             'names and tuples, transforms at every level, hidden groups, registered points, control points on shared and '
             'relative points) dumped with and without variables and executed in a fresh namespace. Non-trivial: a model '
             'with at least two leaves or a non-identity transform.')


def rebuild(dc):
    text = dc.output()
    ns = {}
    exec(compile(text, 'dump', 'exec'), ns)
    return ns['model'], text


def check(e, spec, use_vars, cx):
    was = mk.state(e)
    paths = mk.paths_sig(e, mk.dc([['r', 20]], 8, 5))
    dc = DumpContext(use_vars=use_vars)
    res = e.dump(dc)
    expect(res is dc, 'dump returns its context')
    same(dc.depth, 0, 'indentation afterwards')
    same(mk.state(e), was, 'the model')
    lines = dc.output(just_lines=True)
    model, text = rebuild(dc)
    expect(lines in text, 'just the lines are part of the output')
    same(mk.state(model), was, 'rebuilt model')
    expect(model == e and e == model, 'rebuilt model equals the original')
    same([(repr(p), c, pts) for p, c, pts in mk.paths_sig(model, mk.dc([['r', 20]], 8, 5))],
         [(repr(p), c, pts) for p, c, pts in paths], 'drawn by the rebuilt model')
    cx.nt(mk.count_leaves(spec) > 1 or mk.mat(spec['xf']) != ref.IDENT)
    cx.label(spec['k'])
    cx.label('vars' if use_vars else 'inline')
    # dumping again gives the same text, and the rebuilt model dumps to the same text
    same(e.dump(DumpContext(use_vars=use_vars)).output(), text, 'dumped again')
    same(model.dump(DumpContext(use_vars=use_vars)).output(), text, 'dump of the rebuilt model')


@R.facet(st.tuples(gen.leaf(), st.booleans()).map(list), n=400)
def leaves(s, cx):
    check(mk.elem(s[0]), s[0], s[1], cx)


@R.facet(st.tuples(gen.holes(max_inside=3), st.booleans()).map(list), n=300)
def holes(s, cx):
    check(mk.elem(s[0]), s[0], s[1], cx)


@R.facet(st.tuples(gen.model(), st.booleans()).map(list), n=300)
def models(s, cx):
    check(mk.elem(s[0]), s[0], s[1], cx)


@R.facet(st.tuples(gen.model(with_holes=False), st.booleans()).map(list), n=250)
def models_without_holes(s, cx):
    check(mk.elem(s[0]), s[0], s[1], cx)


@R.facet(st.tuples(gen.group_of(gen.leaf(), min_size=2, max_size=5, hidden=False), st.booleans()).map(list), n=200)
def order(s, cx):
    """The order of children is the drawing order"""
    spec, use_vars = s
    e = mk.elem(spec)
    names = list(e.elems)
    dc = DumpContext(use_vars=use_vars)
    model, _text = rebuild(e.dump(dc))
    same(list(model.elems), names, 'order of children')
    cx.nt(names != sorted(names))


@R.facet(st.tuples(gen.any_elem(), st.booleans()).map(list), n=200)
def transformed(s, cx):
    """Elements that come out of a transform (awkward floats)"""
    e = mk.elem(s[0]).transform(mk.xform([['r', 33], ['s', 1.1, 1.3], ['t', 0.1, -7]]))
    was = mk.state(e)
    model, _text = rebuild(e.dump(DumpContext(use_vars=s[1])))
    same(mk.state(model), was, 'rebuilt')
    expect(model == e, 'equal')
    cx.nt()


@R.facet(st.tuples(gen.model(), st.lists(st.tuples(gen.name(), gen.xy(100)).map(list), max_size=4), st.booleans()).map(list), n=200)
def with_points(s, cx):
    """Groups with registered points"""
    spec, points, use_vars = s
    e = mk.elem(spec)
    subs = [e] + [x for x in e.elems.values() if isinstance(x, Group)]
    n = 0
    for i, (name, p) in enumerate(points):
        g = subs[i % len(subs)]
        if name not in g.points:
            g.add_pt(name, Point(*p))
            n += 1
    cx.nt(n > 0)
    cx.label('points=%d' % n)
    check(e, spec, use_vars, cx)


@R.facet(st.tuples(gen.elem_curve(), gen.xy(50), st.lists(st.booleans(), min_size=5, max_size=5), st.booleans()).map(list), n=200)
def relative_points(s, cx):
    """Control points on relative points"""
    spec, base, which, use_vars = s
    e = mk.elem(spec)
    b = Point(*base)
    n = 0
    for cp, rel in zip(e.control_points, which):
        if rel:
            cp.c = PointRelative(cp.c.x - base[0], cp.c.y - base[1], b)
            n += 1
    cx.nt(n > 0)
    was = mk.state(e)
    model, text = rebuild(e.dump(DumpContext(use_vars=use_vars)))
    same(mk.state(model), was, 'rebuilt')
    expect(model == e, 'equal')


BUILD = st.lists(st.tuples(st.sampled_from(['rect', 'rrect', 'ellipse', 'curve', 'group']), gen.name(), gen.two_corners(),
                           st.sampled_from(['edge', 'filled', 'clear', 'edge_filled', 'edge_clear'])).map(list),
                 min_size=1, max_size=6)


@R.facet(st.tuples(BUILD, st.booleans(), gen.color(), st.booleans()).map(list), n=200)
def builders(s, cx):
    """Models made with the builder"""
    ops, draft, color, use_vars = s
    pens = PensByShape.make(draft, mk.color(color), (1, 2, 3), width=2)
    b = GroupBuilder('top', pens, 'edge')
    cur = b
    for kind, name, (p1, p2), sk in ops:
        p1, p2 = Point(*p1), Point(*p2)
        if kind == 'group':
            cur = b.group(name, shape_kind=sk)
        elif kind == 'curve':
            cur.curve(name, [ControlPoint(p1, Vector(1, 2), Vector(-1, -2)), ControlPoint(p2, Vector(), Vector(), 'sharp')], sk)
        elif kind == 'rrect':
            cur.rrect(name, p1, p2, 3, sk)
        else:
            getattr(cur, kind)(name, p1, p2, sk)
    cx.nt(len(ops) > 1)
    was = mk.state(b.the_group)
    dc = DumpContext(use_vars=use_vars)
    expect(b.dump(dc) is dc, 'context')
    model, _ = rebuild(dc)
    same(mk.state(model), was, 'rebuilt')
    expect(model == b.the_group, 'equal')


TINY = st.sampled_from([0, 0.001, -0.001, 0.004, 1e-6, 1e-9, 1e-15])


@R.facet(st.tuples(gen.leaf(), st.lists(st.lists(TINY, min_size=6, max_size=6), min_size=2, max_size=4),
                   st.booleans()).map(list), n=150)
def nearly_the_same(s, cx):
    """Elements that differ very little in transform, width or position stay different"""
    spec, deltas, use_vars = s
    base = mk.mat(spec['xf'])
    elems = []
    for i, d in enumerate(deltas):
        pb = [['black', 1 + d[0]], spec['pb'][1]]
        elems.append(dict(spec, name='e%d' % i, pb=pb, xf=[['m', [a + b for a, b in zip(base, d)]]]))
    group = dict(k='group', name='g', pb=[['black', 1], None], xf=[], hidden=False, elems=elems)
    check(mk.elem(group), group, use_vars, cx)
    cx.nt(len({tuple(d) for d in deltas}) > 1)


@R.facet(st.tuples(gen.large(), st.booleans()).map(list), n=60)
def large(s, cx):
    """Many parts, many levels"""
    check(mk.elem(s[0]), s[0], s[1], cx)


@R.facet(st.tuples(gen.any_elem(), st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=60)
def sizes(s, cx):
    """Very small and very large geometry"""
    spec, f = s
    with unit(f):
        check(mk.elem(mk.scaled(spec, f)), mk.scaled(spec, f), False, cx)
    cx.label('%g' % f)


@R.facet(st.tuples(gen.any_elem(), edits.EDITS).map(list), n=150)
def edited_between(v, cx):
    """The element as it is now is what is dumped"""
    spec, eds = v
    asks = [lambda e: e.dump(DumpContext()).output(), lambda e: e.dump(DumpContext(use_vars=False)).output()]
    cx.nt(edits.asked_again(mk.elem(spec), eds, asks, 'dump', parts=True))
    cx.label(spec['k'])


@R.facet(st.tuples(gen.one_of(gen.model(), gen.model(), gen.holes(min_inside=1), gen.any_elem()), edits.SHARE, st.booleans()).map(list), n=150)
def sharing(v, cx):
    """Elements, transforms and points may occur at several places of a model"""
    spec, picks, use_vars = v
    cx.nt(edits.alike_shared(lambda: mk.elem(spec), picks, [lambda e: e.dump(DumpContext(use_vars=use_vars)).output()], 'dump') > 0)
