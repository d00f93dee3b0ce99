"""C41: text forms identify values"""
import contextlib
import io
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector, BBox, Line, PointRelative, PointCalc, VectorRelative
from x7.geom.transform import Transform
from x7.geom.colors import Pen, Brush, PenBrush
from x7.geom.model import ControlPoint, DumpContext, Group, GroupBuilder, PensByShape
from harness import edits, gen, mk, ref
from harness.core import Registry, expect, same, near

R = Registry('C41', 'Points of every kind (plain, relative, calculated, nested, named), vectors, boxes, lines, control points, '
             'pens, brushes and transforms with integer, float, tiny and huge coordinates, printed and evaluated; elements '
             'of every kind and nested models printed, shown and dumped. Non-trivial: a value with a name, a base or a '
             'non-integer part, or a model with more than one element.')

ENV = dict(Point=Point, Vector=Vector, BBox=BBox, Line=Line, PointRelative=PointRelative, PointCalc=PointCalc,
           VectorRelative=VectorRelative, Transform=Transform, Pen=Pen, Brush=Brush, PenBrush=PenBrush,
           ControlPoint=ControlPoint, PensByShape=PensByShape)
NUM = gen.one_of(st.integers(-10**6, 10**6), gen.fl(-1000, 1000), st.floats(-1e100, 1e100, allow_nan=False),
                st.sampled_from([0, -0.0, 1e-300, 5e-324, 0.1, 1/3, 1e22, -1e16, 123456789012345680.0, 1e100]))
MILD = gen.one_of(st.integers(-1000, 1000), gen.fl(-1000, 1000), st.sampled_from([0.1, 1/3, 1e-9]))
NAME = gen.one_of(st.none(), st.just(''), st.text(max_size=6), st.sampled_from(["it's", '"', 'a\\b', "'", '\n', 'name']))
COLOR = gen.one_of(st.sampled_from(['red', '#102030', "o'd"]), st.tuples(*[st.integers(0, 255)]*3).map(list),
                  st.tuples(*[st.integers(0, 255)]*4).map(list))
KIND = st.sampled_from(['sharp', 'smooth', 'very-smooth'])

PLAIN = st.tuples(st.just('P'), NUM, NUM, NAME).map(list)
PT = st.recursive(PLAIN, lambda p: gen.one_of(
    st.tuples(st.just('R'), NUM, NUM, p, NAME).map(list),
    st.tuples(st.just('C'), NUM, NUM, p, NAME, NUM, NAME).map(list)), max_leaves=3)
VEC = st.tuples(st.just('V'), NUM, NUM).map(list)
VECS = gen.one_of(VEC, st.tuples(st.just('VR'), PT, PT).map(list))
PEN = st.tuples(st.just('pen'), COLOR, MILD).map(list)
VALUE = gen.one_of(
    PT, PT, VECS, VEC,
    st.tuples(st.just('B'), NUM, NUM, NUM, NUM).map(list), st.just(['B0']),
    st.tuples(st.just('L'), PLAIN, VEC).map(list),
    st.tuples(st.just('CP'), PT, VEC, VEC, KIND).map(list),
    st.tuples(st.just('T'), st.lists(MILD, min_size=6, max_size=6)).map(list),
    PEN, st.tuples(st.just('brush'), COLOR).map(list),
    st.tuples(st.just('pb'), gen.one_of(st.none(), PEN), gen.one_of(st.none(), COLOR)).map(list))


def build(v):
    k = v[0]
    if k == 'P':
        return Point(v[1], v[2], v[3])
    if k == 'R':
        return PointRelative(v[1], v[2], build(v[3]), v[4])
    if k == 'C':
        return PointCalc(PointRelative(v[1], v[2], build(v[3]), v[4]), v[5], v[6])
    if k == 'V':
        return Vector(v[1], v[2])
    if k == 'VR':
        return VectorRelative(build(v[1]), build(v[2]))
    if k == 'B':
        return BBox(*v[1:])
    if k == 'B0':
        return BBox(None)
    if k == 'L':
        return Line(build(v[1]), build(v[2]))
    if k == 'CP':
        return ControlPoint(build(v[1]), build(v[2]), build(v[3]), v[4])
    if k == 'T':
        return Transform(tuple(v[1]))
    if k == 'pen':
        return Pen(mk.color(v[1]), v[2])
    if k == 'brush':
        return Brush(mk.color(v[1]))
    return PenBrush(v[1] and build(v[1]), v[2] and mk.color(v[2]))


def parts(o):
    """The parts of a value in plain form, so that comparing does not rely on the code under test (empty name is no name)"""
    t = type(o).__name__
    if isinstance(o, PointCalc):
        return [t, o.name or None, parts(o.base), o.scale]
    if isinstance(o, PointRelative):
        return [t, o.name or None, o.dx, o.dy, parts(o.base)]
    if isinstance(o, Point):
        return [t, o.name or None, o.x, o.y]
    if isinstance(o, VectorRelative):
        # noinspection PyProtectedMember
        return [t, parts(o._p1), parts(o._p2)]
    if isinstance(o, Vector):
        return [t, o.x, o.y]
    if isinstance(o, BBox):
        return [t, o.xl, o.yl, o.xh, o.yh]
    if isinstance(o, Line):
        return [t, parts(o.origin), parts(o.direction)]
    if isinstance(o, ControlPoint):
        return [t, parts(o.c), parts(o.dl), parts(o.dr), o.kind]
    if isinstance(o, Transform):
        return [t, list(o.as_6tuple())]
    if isinstance(o, Pen):
        return [t, parts(o.brush), o.width]
    if isinstance(o, Brush):
        return [t, o.color]
    if isinstance(o, PenBrush):
        return [t, o.pen and parts(o.pen), o.brush and parts(o.brush)]
    return o


def fancy(v):
    if isinstance(v, list):
        return any(fancy(x) for x in v[1:]) or v[0] in ('R', 'C', 'VR', 'CP')
    return isinstance(v, float) or (isinstance(v, str) and v not in ('P', 'V'))


@R.facet(VALUE, n=1500, thorough=30000)
def evaluates(v, cx):
    o = build(v)
    before = parts(o)
    text = repr(o)
    cx.nt(fancy(v))
    cx.label(v[0])
    try:
        got = eval(text, dict(ENV))
    except Exception as e:
        raise AssertionError('%s does not evaluate: %r' % (text, e))
    same(type(got), type(o), 'type of %s' % text)
    same(parts(got), before, 'parts of %s' % text)
    same(parts(o), before, 'printed value')
    same(repr(got), text, 'printed again')
    if '' not in flat(v):
        expect(got == o and not got != o, '%s evaluates to an unequal value', text)


def flat(v):
    return [x for e in v for x in flat(e)] if isinstance(v, list) else [v]


@R.facet(VALUE, n=700)
def plain_text(v, cx):
    """str() never fails, shows the coordinates and alters nothing"""
    o = build(v)
    before = parts(o)
    text = str(o)
    expect(isinstance(text, str) and text, 'text of %r', o)
    same('%s' % o, text, 'formatted')
    same(parts(o), before, 'printed value')
    cx.nt(fancy(v))
    k = v[0]
    if k in ('P', 'R', 'C'):
        same(eval(text), tuple(o.xy()), 'coordinates in %s' % text)
    elif k == 'V':
        expect(text[0] == 'V', 'vector printed as %s', text)
        same(eval(text[1:]), (v[1], v[2]), 'coordinates in %s' % text)
    elif k in ('B', 'B0'):
        same(eval(text), tuple(o.as_tuple()), 'coordinates in %s' % text)
    elif k == 'VR':
        expect(text == 'V(%s-%s)' % (build(v[1]), build(v[2])), 'difference printed as %s', text)
    elif k == 'T':
        for got, want in zip(eval(text), v[1]):
            near(got, want, 0.0051, 'element in %s' % text)
        same(len(eval(text)), 6, 'elements')
    elif k in ('pen', 'brush'):
        expect(str(mk.color(v[1])) in text, 'no color in %s', text)
    elif k == 'L':
        expect('@' in text, 'line printed as %s', text)


def names(s):
    out = [s['name']]
    for e in s.get('elems', []):
        out += names(e)
    if s['k'] == 'holes':
        out += names(s['outside'])
        for e in s['inside']:
            out += names(e)
    return out


def shown(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = fn()
    return out.getvalue(), res


CLASS = dict(curve='ElemCurve', rect='ElemRectangle', ellipse='ElemEllipse', rrect='ElemRectangleRounded',
             holes='ElemWithHoles', group='Group')


@R.facet(st.tuples(gen.one_of(gen.any_elem(), gen.model()), st.sampled_from([0, 1, 2]), st.sampled_from(['', '  ', '> '])).map(list), n=500)
def models(v, cx):
    """Elements can always be printed and shown, are named with all their parts, and stay as they are"""
    spec, detail, prefix = v
    spec = mk.expand(spec)
    e = mk.elem(spec)
    before = mk.state(e)
    r, s = repr(e), str(e)
    expect(r.startswith(CLASS[spec['k']] + '('), 'printed as %s', r[:60])
    expect(s.startswith(CLASS[spec['k']] + '('), 'printed as %s', s[:60])
    expect(repr(spec['name']) in r, 'no name in %s', r[:60])
    expect(spec['name'] in s or repr(spec['name'])[1:-1] in s, 'no name in %s', s[:60])
    text, _ = shown(lambda: e.display(detail=detail, prefix=prefix))
    lines = text.splitlines()
    expect(lines and all(ln.startswith(prefix) for ln in lines), 'prefix of %r', lines)
    every = names(spec)
    cx.nt(len(every) > 1)
    cx.label(spec['k'])
    cx.label('hidden part', any(e.get('hidden') for e in spec.get('elems', [])))
    for n in every:
        expect(n in text or repr(n)[1:-1] in text, 'no %r shown in %s', n, text)
        if spec['k'] in ('group', 'holes'):
            expect(repr(n) in r, 'no %r printed in %s', n, r)
    expect(sum('Elem' in ln for ln in lines) >= len(every), 'a line for each element: %s', text)
    if detail == 0:
        expect('pen=' not in text, 'details not asked for: %s', text)
        expect('ControlPoint(' not in text, 'details not asked for: %s', text)
    else:
        same(text.count('closed='), leaves(spec), 'leaves with details in %s' % text)
        got = [parts(eval(ln[ln.index('ControlPoint('):], dict(ENV))) for ln in lines if 'ControlPoint(' in ln]
        same(sorted(map(repr, got)), sorted(map(repr, all_cps(spec))), 'control points shown')
    same(shown(lambda: e.display(detail=detail, prefix=prefix))[0], text, 'shown again')
    same(mk.state(e), before, 'shown element')
    # copies print alike, a renamed copy differently
    c = e.copy()
    same(repr(c), r, 'printed copy')
    c.name = spec['name'] + 'zz'
    expect(repr(c) != r, 'renamed copy prints alike')


def leaves(s):
    if s['k'] == 'group':
        return sum(leaves(e) for e in s['elems'])
    if s['k'] == 'holes':
        return leaves(s['outside']) + sum(leaves(e) for e in s['inside'])
    return 1


def all_cps(s):
    if s['k'] == 'curve':
        return [['ControlPoint', ['Point', None] + c[0], ['Vector'] + c[1], ['Vector'] + c[2], c[3]] for c in s['cps']]
    kids = s.get('elems', []) + ([s['outside']] + s['inside'] if s['k'] == 'holes' else [])
    return [c for e in kids for c in all_cps(e)]


@R.facet(st.tuples(st.lists(st.tuples(st.sampled_from(['rect', 'ellipse', 'curve', 'sub']), gen.name()).map(list), max_size=6,
                            unique_by=lambda t: t[1]), gen.name()).map(list), n=100)
def builders(v, cx):
    """A builder prints and shows what its group holds"""
    what, name = v
    gb = GroupBuilder(name, PensByShape(edge=PenBrush('red')))
    for what_, n in what:
        if what_ == 'rect':
            gb.rect(n, Point(0, 0), Point(1, 2))
        elif what_ == 'ellipse':
            gb.ellipse(n, Point(0, 0), Point(1, 2))
        elif what_ == 'curve':
            gb.curve(n, [ControlPoint(Point(k, 0), Vector(1, 1), Vector(2, 2)) for k in range(2)])
        else:
            gb.group(n)
    text, _ = shown(lambda: gb.display())
    cx.nt(len(what) > 1)
    expect(name in text, 'name')
    for _k, n in what:
        expect(n in text, 'no %r in %s', n, text)
    group, _ = shown(lambda: gb.the_group.display(prefix='  '))
    expect(text.endswith(group), 'the group is not shown: %s', text)
    same(gb.dump().output(), gb.the_group.dump(DumpContext()).output(), 'dump')


@R.facet(st.tuples(st.lists(st.tuples(gen.xy(), st.sampled_from(['point', 'relative'])).map(list), max_size=14),
                   st.booleans(), st.integers(0, 2)).map(list), n=120)
def registered(v, cx):
    """All registered points are shown, with their coordinates, and printed"""
    pts, hidden, detail = v
    g = Group('g', mk.penbrush([['red', 1], None]), hidden=hidden)
    for i, (xy, k) in enumerate(pts):
        g.add_pt('pt%02d' % i, Point(*xy) if k == 'point' else PointRelative(0, 0, Point(*xy)))
    cx.nt(len(pts) > 1)
    lines = [ln for ln in shown(lambda: g.display(detail))[0].splitlines() if 'Point:' in ln]
    same(len(lines), len(pts), 'points shown')
    for i, (xy, _k) in enumerate(pts):
        expect(any('pt%02d' % i in ln and str(g.points['pt%02d' % i]) in ln for ln in lines), 'no pt%02d in %r', i, lines)
        expect(repr(g.points['pt%02d' % i]) in repr(g), 'not printed')


@R.facet(st.tuples(gen.large(), st.sampled_from([0, 1, 2]), st.sampled_from(['', '  ', '> '])).map(list), n=60)
def large(v, cx):
    """Many parts, many levels"""
    models(v, cx)


@R.facet(st.tuples(gen.any_elem(), edits.EDITS, st.sampled_from([0, 1, 2]), st.booleans()).map(list), n=150)
def edited_between(v, cx):
    """Printed and shown again after edits: the text of the element as it is now"""
    spec, eds, detail, parts = v
    asks = [repr, str, lambda e: shown(lambda: e.display(detail=detail, prefix=''))[0], lambda e: repr(e.xform)]
    cx.nt(edits.asked_again(mk.elem(spec), eds, asks, 'text', parts))
    cx.label(spec['k'])
