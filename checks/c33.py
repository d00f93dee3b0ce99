"""C33: pens and brushes keep their identity, equality and derived flags"""
import math
from hypothesis import strategies as st
from x7.geom.colors import (
    NOCOLOR, TRANSPARENT, Brush, Colors, ColorsByShape, Pen, PenBrush, PensByShape,
)
from x7.geom.model import ElemRectangle, ElemCurve, GroupBuilder
from x7.geom.geom import Point
from x7.geom.transform import Transform
from harness import gen, mk, ref
from harness.core import Registry, expect, near, raises, same, fail

R = Registry('C33', 'Pens, brushes and pairs of them built from every accepted form (names, #-strings, 3- and 4-tuples, gray '
             'numbers, pairs with a width, Pen and Brush objects, nothing), widths of either sign and zero, replaced along '
             'sequences of operations, compared pairwise, printed and rebuilt; transforms of every kind for widths; shape '
             'tables with any subset of entries, in draft and production. Non-trivial: the values differ from the defaults.')

COLOR = gen.one_of(st.sampled_from(['black', 'red', 'Red', '#102030', '#fff', 'hsl(0,100%,50%)', "it's", 'a "b"', 'NoColor']),
                  st.tuples(*[st.integers(0, 255)]*3).map(list), st.tuples(*[st.integers(0, 255)]*4).map(list),
                  st.just([0, 0, 0, 0]), st.just([0, 0, 0]), st.integers(0, 255))
WIDTH = gen.one_of(st.sampled_from([0, 0.0, 1, 1.0, 2, -1, -2.5, 0.3, 0.05, -0.1, 5e-4, -5e-4, 1e-7, -1e-7]), st.integers(-20, 20), gen.fl(-20, 20))
col = mk.color

PENF = gen.one_of(st.just(['none']), st.tuples(st.just('color'), COLOR).map(list),
                 st.tuples(st.just('pair'), COLOR, WIDTH).map(list), st.tuples(st.just('pairb'), COLOR, WIDTH).map(list),
                 st.tuples(st.just('pen'), COLOR, WIDTH).map(list), st.tuples(st.just('penb'), COLOR, WIDTH).map(list),
                 st.tuples(st.just('pen0'), COLOR).map(list))
BRUSHF = gen.one_of(st.just(['none']), st.tuples(st.just('color'), COLOR).map(list),
                   st.tuples(st.just('brush'), COLOR).map(list))


def pen_arg(f):
    """(argument for PenBrush, expected (color, width) or None)"""
    k = f[0]
    c = col(f[1]) if len(f) > 1 else None
    if k == 'none':
        return None, None
    if k == 'color':
        return c, (c, 0)
    if k == 'pair':
        return (c, f[2]), (c, f[2])
    if k == 'pairb':
        return (Brush(c), f[2]), (c, f[2])
    if k == 'pen':
        return Pen(c, f[2]), (c, f[2])
    if k == 'penb':
        return Pen(Brush(c), f[2]), (c, f[2])
    return Pen(c), (c, 0)


def brush_arg(f):
    if f[0] == 'none':
        return None, None
    c = col(f[1])
    return (c if f[0] == 'color' else Brush(c)), (c,)


def view(pb):
    """Observable parts: (pen colour, width), (fill colour,)"""
    pen = None if pb.pen is None else (pb.pen.brush.color, pb.pen.width)
    return pen, None if pb.brush is None else (pb.brush.color,)


def check_parts(pb, pen, brush, what):
    same(view(pb), (pen, brush), '%s: parts' % what)
    same(pb.stroked, pen is not None, '%s: stroked' % what)
    same(pb.filled, brush is not None, '%s: filled' % what)
    same(pb.stroke_color, pen and pen[0], '%s: stroke colour' % what)
    same(pb.fill_color, brush and brush[0], '%s: fill colour' % what)
    expect(type(pb) is PenBrush and (pb.pen is None or type(pb.pen) is Pen) and
           (pb.brush is None or type(pb.brush) is Brush), '%s: types', what)
    expect(pb.pen is None or type(pb.pen.brush) is Brush, '%s: the pen has a brush', what)


ENV = {'Pen': Pen, 'Brush': Brush, 'PenBrush': PenBrush, 'PensByShape': PensByShape}


def rebuild(x):
    return eval(repr(x), dict(ENV))


@R.facet(st.tuples(PENF, BRUSHF, st.booleans()).map(list), n=600)
def forms(v, cx):
    pf, bf, kw = v
    pa, pen = pen_arg(pf)
    ba, brush = brush_arg(bf)
    if pf[0] == 'color' and isinstance(pa, tuple) and len(pa) == 2:
        return
    pb = PenBrush(pen=pa, brush=ba) if kw else PenBrush(pa) if ba is None else PenBrush(pa, ba)
    cx.nt(pen is not None and brush is not None)
    check_parts(pb, pen, brush, 'built from %r' % (v,))
    if isinstance(pa, Pen):
        expect(pb.pen is pa, 'a pen is used as given')
    if isinstance(ba, Brush):
        expect(pb.brush is ba, 'a brush is used as given')
    back = rebuild(pb)
    expect(back == pb and pb == back and not (pb != back), 'text %r rebuilds an equal object', repr(pb))
    check_parts(back, pen, brush, 'rebuilt')
    same(repr(back), repr(pb), 'text of the rebuilt object')
    expect(isinstance(str(pb), str), 'str')
    if pen:
        p = pb.pen
        for q in (rebuild(p), Pen(*pen), Pen(Brush(pen[0]), pen[1]), Pen(pen[0], width=pen[1])):
            expect(p == q and q == p, 'equal pens %r %r', p, q)
        expect(isinstance(str(p), str), 'str of a pen')
    if brush:
        for q in (rebuild(pb.brush), Brush(brush[0])):
            expect(pb.brush == q, 'equal brushes')
        expect(isinstance(str(pb.brush), str), 'str of a brush')


NEAR = st.sampled_from(['same', 'pen colour', 'width', 'brush', 'drop pen', 'drop brush', 'other'])


@R.facet(st.tuples(PENF, BRUSHF, PENF, BRUSHF, NEAR).map(list), n=600)
def equality(v, cx):
    pf, bf, pf2, bf2, how = v
    (pa, pen), (ba, brush) = pen_arg(pf), brush_arg(bf)
    (_pa, pen2), (_ba, brush2) = pen_arg(pf2), brush_arg(bf2)
    if how == 'same':
        pen2, brush2 = pen, brush
    elif how == 'pen colour':
        pen2, brush2 = pen and (pen2[0] if pen2 else 'other', pen[1]), brush
    elif how == 'width':
        pen2, brush2 = pen and (pen[0], pen[1] + 0.5), brush
    elif how == 'brush':
        pen2 = pen
    elif how == 'drop pen':
        pen2, brush2 = None, brush
    elif how == 'drop brush':
        pen2, brush2 = pen, None
    a, b = PenBrush(pa, ba), PenBrush(Pen(*pen2) if pen2 else None, Brush(*brush2) if brush2 else None)
    want = pen == pen2 and brush == brush2
    cx.nt(how != 'other')
    cx.label('equal', want)
    for x, y in ((a, b), (b, a)):
        same(x == y, want, 'equality of %r and %r' % (x, y))
        same(x != y, not want, 'inequality')
    if pen and pen2:
        same(a.pen == b.pen, pen == pen2, 'equality of pens')
        same(a.pen.brush == b.pen.brush, pen[0] == pen2[0], 'equality of pen brushes')
    if brush and brush2:
        same(a.brush == b.brush, brush == brush2, 'equality of brushes')
    expect(a == a, 'equal to itself')
    for x in (a, a.pen, a.brush):
        for o in (None, 'red', 1, (), object(), Transform()):
            if x is not None:
                expect(not (x == o) and x != o, '%r differs from %r', x, o)
    if pen:
        expect(a.pen != a.pen.brush and a.pen != a and a.pen.brush != a.pen, 'a pen is not a brush')


STEP = gen.one_of(st.tuples(st.just('pen'), PENF).map(list), st.tuples(st.just('width'), WIDTH).map(list),
                 st.tuples(st.just('brush'), BRUSHF).map(list), st.tuples(st.just('both'), PENF, BRUSHF).map(list),
                 st.tuples(st.just('width brush'), WIDTH, BRUSHF).map(list), st.just(['nothing']))


@R.facet(st.tuples(PENF, BRUSHF, st.lists(STEP, min_size=1, max_size=6)).map(list), n=500)
def replacing(v, cx):
    pf, bf, steps = v
    (pa, pen), (ba, brush) = pen_arg(pf), brush_arg(bf)
    pb = PenBrush(pa, ba)
    seen = [(pb, pen, brush)]
    changed = False
    for s in steps:
        k = s[0]
        if k == 'nothing':
            new = pb.replace()
        elif k == 'width':
            new = pb.replace(width=s[1])
            pen = pen and (pen[0], s[1])
        elif k == 'width brush':
            ba, b2 = brush_arg(s[2])
            new = pb.replace(width=s[1], brush=ba)
            pen, brush = pen and (pen[0], s[1]), b2 or brush
            if isinstance(ba, int) and not isinstance(ba, bool) and ba == 0:
                return
        else:
            pa, p2 = pen_arg(s[1]) if k in ('pen', 'both') else (None, None)
            ba, b2 = brush_arg(s[-1]) if k in ('brush', 'both') else (None, None)
            if isinstance(pa, (str, int)) and not pa:
                return
            new = pb.replace(**({'pen': pa} if k == 'pen' else {'brush': ba} if k == 'brush' else {'pen': pa, 'brush': ba}))
            pen, brush = p2 or pen, b2 or brush
            if isinstance(ba, int) and not isinstance(ba, bool) and ba == 0:
                return
        expect(new is not pb, 'a new object')
        check_parts(new, pen, brush, 'after %r' % (s,))
        changed = changed or new != pb
        pb = new
        seen.append((pb, pen, brush))
    for x, p, b in seen:
        check_parts(x, p, b, 'earlier object')
    cx.nt(changed)
    if pb.pen:
        raises(ValueError, lambda: pb.replace(pen=Pen('red', 2), width=3), 'pen and width together')
        raises(ValueError, lambda: pb.replace(pen=Pen('red', 2), width=0), 'pen and width 0 together')
        check_parts(pb, pen, brush, 'after refusal')


@R.facet(st.tuples(COLOR, WIDTH, gen.one_of(st.none(), COLOR), gen.one_of(st.none(), WIDTH), st.booleans()).map(list), n=300)
def pen_replace(v, cx):
    c, w, c2, w2, as_brush = v
    c, c2 = col(c), col(c2) if c2 is not None else None
    if isinstance(c2, int) and c2 == 0:
        return
    p = Pen(c, w)
    given = Brush(c2) if as_brush and c2 is not None else c2
    new = p.replace(brush=given, width=w2)
    cx.nt(c2 is not None or w2 is not None)
    same((new.brush.color, new.width), (c if c2 is None else c2, w if w2 is None else w2), 'replaced pen')
    same((p.brush.color, p.width), (c, w), 'original pen')
    expect(type(new.brush) is Brush, 'brush')
    same(p.replace() == p, True, 'nothing replaced')
    same((p.replace(width=0).width, p.replace(width=0).brush.color), (0, c), 'width zero')


@R.facet(st.tuples(PENF, BRUSHF, gen.xform(100, 3), st.lists(WIDTH, min_size=1, max_size=4)).map(list), n=400)
def stroke_widths(v, cx):
    pf, bf, ops, ws = v
    (pa, pen), (ba, brush) = pen_arg(pf), brush_arg(bf)
    m = mk.mat(ops)
    xf = mk.xform(ops)
    m6 = tuple(xf.as_6tuple())
    scale = (math.hypot(m[0], m[3]) + math.hypot(m[1], m[4]))/2
    pb = PenBrush(pa, ba)
    cx.nt(bool(ops) and any(w < 0 for w in ws))
    if pen is None:
        same(pb.stroke_width(xf), None, 'no pen, no width')
        same(pb.replace(width=3).stroke_width(xf), None, 'no pen, no width')
        return
    for w in [pen[1]] + ws:
        x = pb.replace(width=w)
        got = x.stroke_width(xf)
        if w > 0:
            same(got, w, 'positive width')
            same(x.stroke_width(Transform()), w, 'positive width, identity')
        else:
            near(got, -w*scale, 1e-9*(1 - w)*(1 + scale), 'scaled width')
            near(x.stroke_width(Transform()), -w, 1e-12*(1-w), 'identity')
    same(tuple(xf.as_6tuple()), m6, 'transform')


KEYS = ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear')
KIND = gen.one_of(st.sampled_from(KEYS), st.sampled_from(['', 'fill', 'Edge', 'edge-filled', 'keys', 'make', '__init__',
                                                        'replace_width', 'edges', '0']))


@R.facet(st.tuples(st.booleans(), st.booleans(), COLOR, COLOR, COLOR, WIDTH, KIND, st.integers(0, 5)).map(list), n=400)
def tables(v, cx):
    """Tables by shape kind, for pens and for colours"""
    draft, dflt, c, f, tr, w, kind, nargs = v
    c, f, tr = col(c), col(f), col(tr)
    if any(isinstance(x, int) for x in (c, f, tr)):
        c, f, tr = 'red', 'blue', (1, 2, 3, 4)
    if NOCOLOR in (c, f, tr):
        return
    if dflt:
        t, ct = PensByShape.make(draft), ColorsByShape.make(draft)
        c, f, tr, w = 'white', TRANSPARENT, TRANSPARENT, 0
    else:
        t = PensByShape.make(draft, color=c, fill=f, transparent=tr, width=w)
        ct = ColorsByShape.make(draft, c, f, tr)
    cx.nt(not dflt and not draft)
    cx.label('draft', draft)
    if draft:
        want = {k: ((c, 0), None) for k in KEYS}
        cwant = {k: (c, None) for k in KEYS}
    else:
        want = {'edge': ((c, w), None), 'filled': (None, (c,)), 'clear': (None, (tr,)),
                'edge_filled': ((c, w), (f,)), 'edge_clear': ((c, w), (tr,))}
        cwant = {'edge': (c, None), 'filled': (None, c), 'clear': (None, tr), 'edge_filled': (c, f), 'edge_clear': (c, tr)}
    same(tuple(t.keys()), KEYS, 'documented kinds')
    same(tuple(ct.keys()), KEYS, 'documented kinds')
    for k in KEYS:
        pen, brush = want[k]
        check_parts(t[k], pen, brush, 'kind %r' % k)
        expect(getattr(t, k) is t[k], 'attribute and index')
        same((ct[k].outline, ct[k].fill), cwant[k], 'colours of kind %r' % k)
        same(ct[k].filled, bool(cwant[k][1]), 'filled flag of kind %r' % k)
    for tab in (t, ct):
        if kind not in KEYS:
            raises(ValueError, lambda: tab[kind], 'unknown kind %r' % kind)
        expect(isinstance(str(tab), str) and isinstance(repr(tab), str), 'text')
    back = rebuild(t)
    for k in KEYS:
        expect(back[k] == t[k], 'rebuilt entry %r', k)
    thin = t.replace_width(7)
    for k in KEYS:
        pen, brush = want[k]
        check_parts(thin[k], pen and (pen[0], 7), brush, 'replaced width of %r' % k)
        check_parts(t[k], pen, brush, 'original after replacing')


@R.facet(st.tuples(st.tuples(*[gen.one_of(st.none(), st.tuples(PENF, BRUSHF).map(list))]*5).map(list), WIDTH,
                   st.booleans()).map(list), n=300)
def custom_tables(v, cx):
    entries, w, pos = v
    given = {}
    want = {}
    for k, e in zip(KEYS, entries):
        if e is None:
            want[k] = (('black', 1), None)
        else:
            (pa, pen), (ba, brush) = pen_arg(e[0]), brush_arg(e[1])
            given[k] = PenBrush(pa, ba)
            want[k] = (pen, brush)
    t = PensByShape(*[given.get(k) for k in KEYS]) if pos else PensByShape(**given)
    cx.nt(len(given) > 1)
    for k in KEYS:
        check_parts(t[k], *want[k], 'entry %r' % k)
        if k in given:
            expect(t[k] is given[k], 'entry used as given')
    t2 = t.replace_width(w)
    for k in KEYS:
        pen, brush = want[k]
        check_parts(t2[k], pen and (pen[0], w), brush, 'entry %r with another width' % k)
        check_parts(t[k], pen, brush, 'entry %r of the original' % k)
    back = rebuild(t)
    for k in KEYS:
        expect(back[k] == t[k], 'rebuilt entry %r', k)
    fresh = PensByShape()
    for k in KEYS:
        check_parts(fresh[k], ('black', 1), None, 'default entry %r' % k)


@R.facet(st.tuples(gen.one_of(st.none(), COLOR), gen.one_of(st.none(), COLOR), st.integers(0, 2)).map(list), n=200)
def colors(v, cx):
    o, f, n = v
    o, f = col(o), col(f)
    if isinstance(f, int) or isinstance(o, int):
        return
    c = Colors(*[o, f][:n])
    wo, wf = (o if n > 0 else 'black'), (f if n > 1 else None)
    wo, wf = (None if x == 'NoColor' else x for x in (wo, wf))
    cx.nt(n == 2)
    same((c.outline, c.fill, c.filled), (wo, wf, wf is not None), 'colours')
    expect(isinstance(repr(c), str), 'text')


@R.facet(st.tuples(st.tuples(*[st.tuples(PENF, BRUSHF).map(list)]*5).map(list), st.sampled_from(KEYS),
                   gen.one_of(st.none(), st.sampled_from(KEYS)), gen.one_of(st.none(), st.tuples(PENF, BRUSHF).map(list)),
                   st.sampled_from(['rect', 'ellipse', 'rrect', 'curve'])).map(list), n=200)
def builders(v, cx):
    """Shapes get the pen and brush of the kind asked for, or of the builder's kind"""
    entries, dflt, kind, own, what = v
    t = PensByShape(*[PenBrush(pen_arg(p)[0], brush_arg(b)[0]) for p, b in entries])
    gb = GroupBuilder('g', t, shape_kind=dflt)
    arg = kind
    if own is not None:
        arg = PenBrush(pen_arg(own[0])[0], brush_arg(own[1])[0])
    p1, p2 = Point(0, 0), Point(10, 10)
    if what == 'rect':
        e = gb.rect('e', p1, p2, shape_kind=arg)
    elif what == 'ellipse':
        e = gb.ellipse('e', p1, p2, shape_kind=arg)
    elif what == 'rrect':
        e = gb.rrect('e', p1, p2, 2, shape_kind=arg)
    else:
        e = gb.curve('e', mk.cps([[[0, 0], [0, 1], [0, -1], 'smooth'], [[5, 5], [0, 1], [0, -1], 'smooth']]),
                     shape_kind=arg, closed=True)
    want = arg if own is not None else t[kind or dflt]
    cx.nt(kind is not None and kind != dflt)
    same(view(e.penbrush), view(want), 'pen and brush of the shape')
    expect(gb.lookup('e') is e, 'shape is in the group')


@R.facet(st.tuples(COLOR, WIDTH, st.lists(gen.xf_op(), min_size=1, max_size=4)).map(list), n=200)
def width_again(v, cx):
    """The width is that of the transform as it is now"""
    c, w, ops = v
    pb = PenBrush((col(c), w))
    t = Transform()
    m = ref.IDENT
    for i, o in enumerate([None] + ops):
        if o:
            t.compose_outer(mk.xform([o]))
            m = ref.mul(mk.mat([o]), m)
        want = PenBrush((col(c), w)).stroke_width(Transform(t.as_6tuple()))
        near(pb.stroke_width(t), want, 1e-9*(1 + abs(want)), 'width under the transform after %d changes' % i)
        same(pb.stroke_width(t), pb.stroke_width(t), 'asked again')
    cx.nt(w < 0)
    cx.label('scaled', w < 0)
