"""C42: operations that are refused or given up change nothing"""
import contextlib
import io
from hypothesis import strategies as st
from PIL import Image
from x7.geom.geom import (
    BBox, Line, ParallelLineError, Point, PointCalc, PointRelative, Vector, VectorRelative,
)
from x7.geom.colors import PenBrush, PensByShape
from x7.geom.drawing import DrawingContext
from x7.geom.transform import EmptyStackError, Transform
from x7.geom.anim import (
    AnimationCircular, AnimationGeneric, AnimationLinear, AnimationSinusoidal, Builder, Morph, MorphError, MorphMultiStep,
)
from x7.geom.anim_simple import SimpleAnimation
from x7.geom.model import (
    ControlPoint, ElemCurve, ElemEllipse, ElemRectangle, ElemRectangleRounded, ElemWithHoles, Group, GroupBuilder,
)
from harness import gen, mk, ref
from harness.core import Registry, expect, fail, near_pts, raises, same, mag

R = Registry('C42', 'Elements, models (three levels, shapes with holes), groups, builders, transforms with pushed states, '
             'points, curves to be morphed, and drawing contexts, each put to operations that must be refused (and told apart '
             'from their state before by every observable part), or whose drawing fails or whose iteration is given up after '
             'any number of steps. Non-trivial: the operation could have got somewhere before being refused or given up.')


def quiet(fn, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kw)


def full(e):
    """Every observable part of an element, and which objects it holds"""
    if isinstance(e, Group):
        ids = tuple((k, id(v), full(v)) for k, v in e.elems.items())
        ids += tuple((k, id(p), p.name) for k, p in e.points.items())
    elif isinstance(e, ElemWithHoles):
        ids = tuple((id(v), full(v)) for v in [e.outside] + e.inside)
    else:
        ids = ()
    return mk.state(e), ids, len(e.xform.stack)


def refused(exc, fn, what, *elems):
    """The operation is refused and the elements stay as they are"""
    before = [full(e) for e in elems]
    raises(exc, lambda: quiet(fn), what)
    for e, b in zip(elems, before):
        same(full(e), b, 'element after refused %s' % what)


# -- elements ------------------------------------------------------------------------------------------------------------

@R.facet(st.tuples(gen.elem_curve(lo=1, hi=6), gen.elem_curve(lo=1, hi=6)).map(list), n=250)
def curve_restore(v, cx):
    """A curve cannot be restored from one with another number of control points"""
    a, b = v
    if len(a['cps']) == len(b['cps']):
        b = dict(b, cps=b['cps'] + b['cps'][:1])
    one, other = mk.elem(a), mk.elem(b)
    cx.nt(a['name'] != b['name'] or a['pb'] != b['pb'] or a['closed'] != b['closed'])
    xform = one.xform
    refused(Exception, lambda: one.restore(other), 'restore from %d instead of %d points' % (len(b['cps']), len(a['cps'])),
            one, other)
    expect(one.xform is xform, 'transform replaced by a refused restore')
    # and it can still be restored from its own copy
    twin = mk.elem(a)
    one.name += '!'
    one.restore(twin)
    same(mk.state(one), mk.state(twin), 'restored afterwards')


@R.facet(st.tuples(gen.any_elem(), gen.two_corners()).map(list), n=250)
def not_for_this_kind(v, cx):
    """Elements refuse what their kind cannot do"""
    spec, (p1, p2) = v
    e = mk.elem(spec)
    box = BBox(mk.pt(p1), mk.pt(p2))
    if isinstance(e, (ElemCurve, Group, ElemWithHoles)):
        refused(ValueError, lambda: e.bbox_int_update(box), 'resizing', e)
        cx.nt()
        cx.label('resize')
    if isinstance(e, (Group, ElemWithHoles)):
        refused(ValueError, lambda: list(e.as_digi_points()), 'control points of a compound', e)
        for tag in ('no such', 'no.such', 'outside.no such', 'inside.no such', 'outside'):
            if isinstance(e, Group) and tag in e.elems:
                continue
            refused((KeyError, ValueError), lambda: e.lookup(tag), 'lookup of %r' % tag, e)
    if isinstance(e, (ElemRectangle, ElemEllipse, ElemRectangleRounded)):
        refused(ValueError, lambda: e.bbox_int_update(BBox(None)), 'resizing to an empty box', e)
        cx.nt()


@R.facet(st.tuples(gen.leaf(), gen.color()).map(list), n=120)
def open_filled(v, cx):
    """What is not closed is not filled"""
    spec, color = v
    e = mk.elem(spec)
    pb = PenBrush('red', mk.color(color))
    if isinstance(e, ElemCurve):
        cps = e.control_points
        refused(AssertionError, lambda: ElemCurve('x', pb, cps, closed=False), 'open filled curve', e)
        cx.nt()
    else:
        kw = dict(radius=e.radius) if isinstance(e, ElemRectangleRounded) else {}
        refused(AssertionError, lambda: type(e)('x', pb, e.p1, e.p2, closed=False, **kw), 'open filled shape', e)
    out, hole = mk.elem(spec), mk.elem(spec)
    refused(AssertionError, lambda: Group('x', pb, closed=False, elems=[out, hole]), 'open filled group', out, hole)
    refused(AssertionError, lambda: ElemWithHoles('x', pb, out, [hole], closed=False), 'open filled shape with holes', out, hole)


# -- groups --------------------------------------------------------------------------------------------------------------

def groups_of(e):
    if isinstance(e, Group):
        yield e
        for k in e.elems.values():
            yield from groups_of(k)


GROUP_OP = st.tuples(
    st.sampled_from(['add', 'list', 'pt_taken', 'pt_dot', 'lookup', 'lookup_pt', 'empty_box', 'kind', 'builder_dot',
                     'builder_pt', 'sub_dot', 'ctor']),
    st.integers(0, 30), st.sampled_from(['a.b', '.', '.x', 'x.', 'a..b']), gen.leaf()).map(list)


@R.facet(st.tuples(gen.model(), st.lists(GROUP_OP, min_size=1, max_size=6)).map(list), n=250)
def groups(v, cx):
    """Names with dots, names of points that are taken, absent names, unknown kinds"""
    spec, ops = v
    root = mk.elem(spec)
    gs = list(groups_of(root))
    cx.nt(len(gs) > 1)
    for i, g in enumerate(gs):
        g.add_pt('p', Point(i, -i))
    for op, i, dotted, leaf in ops:
        g = gs[i % len(gs)]
        new = mk.elem(leaf)
        cx.label(op)
        if op == 'add':
            refused(ValueError, lambda: g.add(dotted, new), 'addition as %r' % dotted, root, new)
        elif op == 'list':
            new.name = dotted
            ok = mk.elem(leaf)
            refused(ValueError, lambda: Group('x', PenBrush('red'), elems=[ok, new]), 'group of %r' % dotted, root, new, ok)
        elif op == 'ctor':
            refused(TypeError, lambda: Group('x', PenBrush('red'), elems=new), 'group of no list', root, new)
        elif op == 'pt_taken':
            pt = Point(7, 8, 'mine')
            refused(AssertionError, lambda: g.add_pt('p', pt), 'point of a taken name', root)
            same((pt.name, pt.xy()), ('mine', (7, 8)), 'refused point')
        elif op == 'pt_dot':
            pt = Point(7, 8, 'mine')
            refused(AssertionError, lambda: g.add_pt(dotted, pt), 'point of a dotted name', root)
            same((pt.name, pt.xy()), ('mine', (7, 8)), 'refused point')
        elif op == 'lookup':
            refused((KeyError, ValueError), lambda: g.lookup('no such' + dotted), 'lookup', root)
        elif op == 'lookup_pt':
            refused((KeyError, AssertionError), lambda: g.lookup_pt('no such'), 'lookup of a point', root)
        elif op == 'empty_box':
            empty = Group('x', PenBrush('red'))
            refused(Exception, empty.bbox, 'box of an empty group', root, empty)
            refused(Exception, empty.center, 'center of an empty group', root, empty)
        else:
            b = GroupBuilder('b', PensByShape(edge=PenBrush('red')), group=g)
            p1, p2 = Point(1, 2), Point(3, 4)
            cps = [ControlPoint(p1, Vector(1, 0), Vector(-1, 0)), ControlPoint(p2, Vector(1, 0), Vector(-1, 0))]
            if op == 'kind':
                for f in (lambda: b.rect('fresh', p1, p2, 'no kind'), lambda: b.ellipse('fresh', p1, p2, 'no kind'),
                          lambda: b.rrect('fresh', p1, p2, 2, 'no kind'), lambda: b.curve('fresh', cps, 'no kind')):
                    refused(ValueError, f, 'shape of an unknown kind', root)
                refused(TypeError, lambda: b.group('fresh', 'no pens'), 'builder without pens', root)
            elif op == 'builder_dot':
                for f in (lambda: b.rect(dotted, p1, p2), lambda: b.ellipse(dotted, p1, p2),
                          lambda: b.rrect(dotted, p1, p2, 2), lambda: b.curve(dotted, cps)):
                    refused(ValueError, f, 'shape named %r' % dotted, root)
            elif op == 'sub_dot':
                refused(ValueError, lambda: b.group(dotted), 'group named %r' % dotted, root)
                refused(ValueError, lambda: b.add(dotted, new), 'element named %r' % dotted, root, new)
            else:
                refused(AssertionError, lambda: b.point('p', 7, 8), 'point of a taken name', root)
                refused(AssertionError, lambda: b.point(dotted, 7, 8), 'point of a dotted name', root)
            same((p1.xy(), p2.xy()), ((1, 2), (3, 4)), 'points given')


def plant(root, leaf, at):
    """Add equal copies of a leaf called 'twin' to several groups; the last of them also has an element called 'taken'"""
    gs = list(groups_of(root))
    picked = sorted({i % len(gs) for i in at})
    for i in picked:
        twin = mk.elem(leaf)
        gs[i].add('twin', twin)
    return [gs[i] for i in picked]


@R.facet(st.tuples(gen.model(), gen.leaf(), gen.leaf(), st.lists(st.integers(0, 30), min_size=1, max_size=4),
                   st.sampled_from(['taken', 'taken', 'x.y', 'holes']), st.integers(0, 3)).map(list), n=300)
def replacing(v, cx):
    """A replacement refused anywhere in the model happens nowhere"""
    spec, leaf, repl, at, how, which = v
    root = mk.elem(spec)
    where = plant(root, leaf, at)
    new = mk.elem(repl)
    new.name = 'x.y' if how == 'x.y' else 'taken'
    if how == 'holes':
        # a twin in a group that is a hole, with the new name taken there
        probe = where[0].elems['twin']
        deep = Group('deep', PenBrush('red'))
        deep.add('twin', mk.elem(leaf))
        other = mk.elem(repl)
        deep.add('taken', other)
        out = ElemRectangle('out', PenBrush('red'), Point(-1000, -1000), Point(1000, 1000))
        root.add('more', ElemWithHoles('more', PenBrush('red'), out, [deep]))
        probe.penbrush = deep.elems['twin'].penbrush
        for g in where:
            g.elems['twin'].penbrush = probe.penbrush
    elif how == 'taken':
        g = where[which % len(where)]
        g.add('taken', mk.elem(dict(leaf, name='taken')))
        probe = where[0].elems['twin']
    else:
        probe = where[0].elems['twin']
    probe = probe.copy()
    cx.nt(len(where) > 1 or how == 'holes')
    cx.label(how)
    refused(ValueError, lambda: root.replace(probe, new), 'replacement (%s)' % how, root, new)
    # under a free name it works, everywhere
    new.name = 'free name'
    n = len(where) + (how == 'holes')
    same(quiet(lambda: root.replace(probe, new)), n, 'replacements under a free name')


@R.facet(st.tuples(gen.leaf(), gen.leaf(), st.lists(st.sampled_from(['group', 'taken', 'hole', 'deep', 'deep taken']), min_size=1,
                                                     max_size=5), st.booleans()).map(list), n=150)
def replacing_in_holes(v, cx):
    """Replacing in a shape with holes that are groups: refused by one of them, done in none"""
    leaf, repl, parts, dotted = v
    pb = PenBrush('red')

    def twin():
        e = mk.elem(dict(leaf, name='twin'))
        e.penbrush = pb     # that of all parts of the shape
        return e

    def group(name, taken, deep):
        g = Group(name, pb)
        if deep:
            g.add('sub', group('sub', taken, False))
        else:
            g.add('twin', twin())
            if taken:
                g.add('taken', mk.elem(dict(repl, name='taken')))
        return g
    inside = []
    for i, p in enumerate(parts):
        if p == 'hole':
            inside.append(twin())
        else:
            inside.append(group('g%d' % i, 'taken' in p, 'deep' in p))
    h = ElemWithHoles('h', pb, ElemRectangle('out', pb, Point(-1000, -1000), Point(1000, 1000)), inside)
    probe = twin()
    new = mk.elem(dict(repl, name='x.y' if dotted else 'taken'))
    bad = any('taken' in p or dotted and p != 'hole' for p in parts)
    cx.nt(bad and len(parts) > 1)
    if bad:
        refused(ValueError, lambda: h.replace(probe, new), 'replacement', h, new)
    else:
        same(quiet(lambda: h.replace(probe, new)), len(parts), 'replacements')


# -- contexts ------------------------------------------------------------------------------------------------------------

class Boom(Exception):
    pass


class Interrupt(BaseException):
    pass


class Failing(ElemCurve):
    """A curve that cannot be drawn"""
    boom = Boom

    def paths(self, dc):
        with self.draw_space(dc):
            raise self.boom()

    def control_paths(self, dc):
        with self.draw_space(dc):
            raise self.boom()

    def iter_elems(self, root='unknown', matrix=None):
        raise self.boom()

    def transform(self, matrix):
        raise self.boom()


class FailingHard(Failing):
    boom = Interrupt


def bad_elem(how, spec, hard=False):
    pb = PenBrush('red')
    cps = [ControlPoint(Point(0, 0), Vector(1, 0), Vector(-1, 0)), ControlPoint(Point(9, 9), Vector(1, 0), Vector(-1, 0))]
    bad = (FailingHard if hard else Failing)('bad', pb, cps, True, mk.xform(spec))
    if how == 'hole':
        return ElemWithHoles('bad', pb, ElemRectangle('o', pb, Point(-50, -50), Point(50, 50)), [bad], xform=mk.xform(spec))
    if how == 'outside':
        return ElemWithHoles('bad', pb, bad, [ElemRectangle('o', pb, Point(-50, -50), Point(50, 50))], xform=mk.xform(spec))
    if how == 'two parts':
        return ElemWithHoles('bad', pb, Group('o', pb, elems=[
            ElemRectangle('a', pb, Point(-50, -50), Point(50, 50)), ElemRectangle('b', pb, Point(-5, -5), Point(5, 5))]),
            [], xform=mk.xform(spec))
    return bad


@R.facet(st.tuples(gen.model(hidden=False), st.integers(0, 30), st.integers(0, 5),
                   st.sampled_from(['leaf', 'hole', 'outside', 'two parts']),
                   gen.xform(), gen.xform(), st.integers(0, 2), st.booleans()).map(list), n=350)
def failed_drawing(v, cx):
    """A drawing that fails leaves the context and the model as they were"""
    spec, i, at, how, xf, outer, pushed, hard = v
    root = mk.elem(spec)
    gs = list(groups_of(root))
    g = gs[i % len(gs)]
    items = list(g.elems.items())
    at = min(at, len(items))
    bad = bad_elem(how, xf, hard)
    g.elems = dict(items[:at] + [('the bad one', bad)] + items[at:])
    cx.nt(len(gs) > 1)
    cx.label(how)
    d = DrawingContext(Image.new('RGBA', (8, 8), 'white'), mk.xform(outer))
    for _ in range(pushed):
        d.matrix.push().translate(1, 2)
    before, stack = d.matrix.as_6tuple(), len(d.matrix.stack)
    keep = (d.draw, d.shadow_color, d.show_cps, d.prod, d.points_per_curve)
    was = full(root)
    exc = (Boom, Interrupt, AssertionError)
    calls = [('paths', lambda: root.paths(d)), ('draw', lambda: root.draw(d)), ('shadow', lambda: d.shadow_draw(root)),
             ('paths of the element', lambda: bad.paths(d))]
    if how != 'two parts':
        calls += [('control paths', lambda: root.control_paths(d)),
                  ('iteration', lambda: list(root.iter_elems(None, d.matrix))),
                  ('iteration', lambda: list(root.iter_elems('r', d.matrix)))]
    for what, f in calls:
        raises(exc, lambda: quiet(f), what)
        same(d.matrix.as_6tuple(), before, 'matrix after failed %s' % what)
        same(len(d.matrix.stack), stack, 'pushes after failed %s' % what)
        same((d.draw, d.shadow_color, d.show_cps, d.prod, d.points_per_curve), keep, 'context after failed %s' % what)
        same(full(root), was, 'model after failed %s' % what)
    del g.elems['the bad one']
    same(mk.paths_sig(root, d), mk.paths_sig(root, DrawingContext(
        Image.new('RGBA', (8, 8), 'white'), Transform(before))), 'drawing afterwards')


@R.facet(st.tuples(gen.one_of(gen.model(), gen.holes(), gen.deep()), st.integers(0, 8), gen.xform(), st.booleans(),
                   st.sampled_from(['close', 'drop', 'raise', 'next'])).map(list), n=300)
def stopped_iteration(v, cx):
    """Giving up an iteration leaves the matrix and the model as they were"""
    spec, n, outer, shallow, how = v
    root = mk.elem(spec)
    m = mk.xform(outer)
    m.push()
    m.translate(3, 4)
    before = m.as_6tuple()
    was = full(root)
    it = root.iter_elems_transformed(None, m) if shallow else root.iter_elems('root', m)
    took = 0
    if how == 'raise':
        try:
            for _item in it:
                took += 1
                if took > n:
                    raise Boom()
        except Boom:
            pass
        it.close()
    else:
        for _item in it:
            took += 1
            if took > n:
                break
        if how == 'drop':
            del it
        else:
            it.close()
    cx.nt(took > n)
    cx.label(how)
    same(m.as_6tuple(), before, 'matrix after %d steps' % took)
    same(len(m.stack), 1, 'pushes after %d steps' % took)
    same(full(root), was, 'model after %d steps' % took)


# -- transforms ----------------------------------------------------------------------------------------------------------

@R.facet(st.tuples(gen.xform(), st.integers(0, 2), gen.two_corners(),
                   st.sampled_from(['thin', 'flat', 'dot', 'empty start', 'empty target', 'pop', 'enter', 'singular']),
                   gen.xy(), st.booleans(), st.booleans()).map(list), n=400)
def transforms(v, cx):
    """Fits from boxes without size, pops without pushes and inverses of singular transforms are refused"""
    ops, pushed, (p1, p2), how, pt, keep, looked = v
    t = mk.xform(ops)
    if how in ('pop', 'enter'):
        pushed = 0
    for _ in range(pushed):
        t.push().translate(1, 2)
    if looked:
        t.untransform(*pt)
    before, stack = t.as_6tuple(), len(t.stack)
    point = t.transform(*pt)
    box = BBox(mk.pt(p1), mk.pt(p2))
    corners = (box.p1.xy(), box.p2.xy())
    cx.nt(bool(ops) or pushed > 0)
    cx.label(how)
    if how in ('thin', 'flat', 'dot'):
        q = {'thin': [p1[0], p2[1]], 'flat': [p2[0], p1[1]], 'dot': p1}[how]
        start = BBox(mk.pt(p1), mk.pt(q))
        f = lambda: t.scale_bbox(start, box, keep_aspect=keep)
        exc = ZeroDivisionError
    elif how == 'empty start':
        f = lambda: t.scale_bbox(BBox(None), box, keep_aspect=keep)
        exc = (ValueError, ZeroDivisionError)
    elif how == 'empty target':
        f = lambda: t.scale_bbox(box, BBox(None), keep_aspect=keep)
        exc = ValueError
    elif how == 'pop':
        f = t.pop
        exc = EmptyStackError
    elif how == 'enter':
        f = t.__enter__
        exc = EmptyStackError
    else:
        t.scale(0, 1)
        before = t.as_6tuple()
        point = t.transform(*pt)
        f = lambda: t.untransform(*pt)
        exc = Exception
    raises(exc, f, how)
    same(t.as_6tuple(), before, 'transform after refused %s' % how)
    same(len(t.stack), stack, 'pushes after refused %s' % how)
    same(t.transform(*pt), point, 'mapped point')
    same((box.p1.xy(), box.p2.xy()), corners, 'box given')
    if how != 'singular':
        back = t.untransform(*t.transform(*pt))
        near_pts([back], [pt], 1e-6*mag(pt, list(before))**2, 'inverse afterwards')
    else:
        for _ in range(pushed):
            t.pop()
        t.set_matrix(Transform())
        same(tuple(t.untransform(*pt)), tuple(pt), 'usable afterwards')


# -- points --------------------------------------------------------------------------------------------------------------

@R.facet(st.tuples(gen.xy(), gen.xy(), gen.xy(), gen.xy(), gen.coord(5)).map(list), n=300)
def points(v, cx):
    """Vectors between points cannot be set, derived points cannot be animated, zero vectors have no direction"""
    a, b, d, to, k = v
    p, q = Point(*a, 'p'), Point(*b, 'q')
    r = PointRelative(d[0], d[1], p, 'r')
    c = PointCalc(r, k, 'c')
    vr = VectorRelative(p, q)
    zero = Vector(0, 0)
    cx.nt(a != b)

    def seen():
        return (repr(p), repr(q), repr(r), repr(c), p.xy(), q.xy(), r.xy(), c.xy(), vr.xy(), zero.xy())

    before = seen()
    for what, f in (('set', lambda: vr.set(Vector(*to))), ('setxy', lambda: vr.setxy(*to))):
        raises(NotImplementedError, f, 'VectorRelative.%s' % what)
        same(seen(), before, 'points after refused %s' % what)
    raises(ZeroDivisionError, zero.unit, 'unit of zero')
    for bad in (r, c, vr, None, list(a)):
        for f in (lambda: AnimationLinear(bad, q), lambda: AnimationSinusoidal(bad, q),
                  lambda: AnimationCircular(bad, 3, 1), lambda: AnimationGeneric(bad, lambda t, o, pt: (t, t))):
            raises(ValueError, f, 'animation of %r' % (bad,))
    raises(AssertionError, lambda: AnimationLinear(p, tuple(to)), 'animation to a tuple')
    along = Line(p, Vector(1, 2))
    raises(ParallelLineError, lambda: along.intersection(Line(q, Vector(2, 4))), 'parallel lines')
    same((along.origin.xy(), along.direction.xy()), (p.xy(), (1, 2)), 'line given')
    empty = BBox(None)
    for name in ('center', 'p1', 'p2', 'pll', 'plh', 'phl', 'phh'):
        raises(ValueError, lambda: getattr(empty, name), '%s of an empty box' % name)
    grown = empty + BBox(p, q)
    same(grown, BBox(p, q), 'an empty box still is one')
    same(seen(), before, 'points in the end')


# -- morphs --------------------------------------------------------------------------------------------------------------

@R.facet(st.tuples(gen.model(), gen.elem_curve(closed=True, lo=2, hi=5), gen.elem_curve(closed=True, lo=2, hi=5),
                   st.integers(0, 30), st.sampled_from(['absent', 'unequal', 'multi absent', 'almost']),
                   st.booleans()).map(list), n=250)
def morphs(v, cx):
    """Morphs of curves that are not in the model or do not fit leave model and curves alone"""
    spec, a, b, at, how, force = v
    root = mk.elem(spec)
    gs = list(groups_of(root))
    src, target, third = mk.elem(a), mk.elem(b), mk.elem(a)
    src.name = 'the source'
    cx.label(how)
    cx.nt(len(a['cps']) != len(b['cps']))
    if how == 'unequal':
        gs[at % len(gs)].add('the source', src)
        if len(a['cps']) == len(b['cps']):
            target.control_points.append(mk.cp(b['cps'][0]))
        f = lambda: Morph(root, src, target, lambda t: t, force=False)
    elif how == 'absent':
        f = lambda: Morph(root, src, target, lambda t: t, force=True)
    elif how == 'almost':
        # one that differs from the source in a single place is in the model
        like = mk.elem(a)
        like.control_points[-1].dr = Vector(like.control_points[-1].dr.x + 1, like.control_points[-1].dr.y)
        gs[at % len(gs)].add('the source', like)
        f = lambda: Morph(root, src, target, lambda t: t, force=True)
    else:
        f = lambda: MorphMultiStep(root, src, [(0.5, target), (1, third)], lambda t: t, force)
    refused(MorphError, f, 'morph (%s)' % how, root, src, target, third)


# -- frames --------------------------------------------------------------------------------------------------------------

class Stop(Exception):
    pass


@R.facet(st.tuples(st.integers(1, 6), st.integers(0, 7), st.booleans(), st.sampled_from(['Stop', 'ValueError', 'StopIteration', 'BaseException']),
                   st.integers(0, 2)).map(list), n=150)
def simple_frames(v, cx):
    """A simple animation whose drawing fails at some step, early or late in it: no frame for that step, the rest stands"""
    steps, at, late, exc, more = v
    exc = dict(Stop=Stop, ValueError=ValueError, StopIteration=StopIteration, BaseException=BaseException)[exc]
    calls = []

    def draw(dc, t):
        if len(calls) == at and not late:
            calls.append(t)
            raise exc('no')
        k = 3 + len(calls)
        dc.polygon([(-k, -k), (k, -k), (k, k)], fill='red', outline='blue')
        calls.append(t)
        if len(calls) - 1 == at:
            raise exc('no')

    def make(f):
        return SimpleAnimation(f, image_size=(20, 16), draw_bbox=(-10, -8, 10, 8), steps=steps)
    sa = make(draw)
    for _ in range(more):
        with sa.next_step() as dc:
            dc.polygon([(0, 0), (5, 0), (5, 5)], fill='green', outline='green')
    before = [im.tobytes() for im in sa.images]
    same(len(before), more, 'frames made by hand')
    cx.nt(at > 0 and at <= steps)
    if at > steps:
        quiet(sa.animate)
        same(len(sa.images), more + steps + 1, 'frames')
        return
    raises(exc, lambda: quiet(sa.animate), 'drawing fails')
    same(len(sa.images), more + at, 'frames of the steps before the one that failed')
    same([im.tobytes() for im in sa.images[:more]], before, 'earlier frames')
    # the same frames as without failure
    calls2 = []

    def good(dc, t):
        k = 3 + len(calls2)
        dc.polygon([(-k, -k), (k, -k), (k, k)], fill='red', outline='blue')
        calls2.append(t)
    ok = make(good)
    quiet(ok.animate)
    same([im.tobytes() == b.tobytes() for im, b in zip(sa.images[more:], ok.images)], [True]*at, 'frames before the failure')
    kept = [im.tobytes() for im in sa.images]
    raises(exc, lambda: fail_in(sa, exc), 'step that fails')
    same([im.tobytes() for im in sa.images], kept, 'frames after another failed step')
    # and goes on working
    calls2.clear()
    sa.draw_func = good
    quiet(sa.animate)
    same([im.tobytes() for im in sa.images[:len(kept)]], kept, 'the frames there were')
    same([im.tobytes() for im in sa.images[len(kept):]], [im.tobytes() for im in ok.images], 'the frames after the failure is mended')


def fail_in(sa, exc):
    with sa.next_step() as dc:
        dc.polygon([(0, 0), (5, 0), (5, 5)], fill='green', outline='green')
        raise exc('no')


@R.facet(st.tuples(gen.model(), st.integers(2, 5), st.integers(0, 4), st.booleans(), st.booleans()).map(list), n=60)
def built_frames(v, cx):
    """A builder one of whose frames fails leaves earlier frames, base image, matrix and model, and works afterwards"""
    spec, steps, at, in_model, draft = v
    base = Image.new('RGBA', (24, 20), '#8090a0')
    raw = base.tobytes()
    model = mk.elem(spec)
    matrix = mk.xform([['s', 0.1, 0.1], ['r', 20], ['t', 12, 10]])
    m6 = matrix.as_6tuple()
    p = Point(1, 2)
    at %= steps
    failing = [False]

    class Sub(ElemRectangle):
        def paths(self, dc):
            if failing[0] and p.x >= at/steps - 1e-9 and in_model:
                raise Stop('no')
            return super().paths(dc)
    model.add('the failing one', Sub('the failing one', PenBrush('red'), p, Point(30, 40)))

    def move(t, _orig, _p):
        if failing[0] and not in_model and t >= at/steps - 1e-9:
            raise Stop('no')
        return t, 2
    b = Builder(base, matrix, model, AnimationGeneric(p, move), draft=draft)
    first = list(quiet(b.build_all, steps))
    data = [im.tobytes() for im in first]
    was = mk.state(model)[0:3]
    failing[0] = True
    raises(Stop, lambda: quiet(b.build_all, steps), 'a frame fails')
    same([im.tobytes() for im in first], data, 'the frames there were')
    same(base.tobytes() == raw, True, 'base image')
    same((matrix.as_6tuple(), len(matrix.stack)), (m6, 0), 'matrix')
    same(mk.state(model)[0:3], was, 'model')
    failing[0] = False
    again = quiet(b.build_all, steps)
    same([im.tobytes() == d for im, d in zip(again, data)], [True]*steps, 'the same frames once it works again')
    cx.nt(at > 0 and len(set(data)) > 1)
