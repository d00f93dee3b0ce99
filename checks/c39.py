"""C39: models made with a builder are the models made by hand"""
import contextlib
import io
import math
from hypothesis import strategies as st
from x7.geom.geom import Point, PointRelative
from x7.geom.colors import PenBrush, PensByShape, Pen
from x7.geom.transform import Transform
from x7.geom.model import (
    DumpContext, ElemCurve, ElemEllipse, ElemRectangle, ElemRectangleRounded, ElemWithHoles, Group, GroupBuilder,
)
from harness import gen, mk, ref
from harness.core import Registry, expect, near_pts, raises, same, mag

R = Registry('C39', 'Histories of up to 14 builder calls (rectangles, rounded rectangles, ellipses, curves, sub-builders with '
             'and without their own pens and default kind, points, ready-made elements, turned copies, hiding), by kind name, '
             'by pen object or by default, closed or not, with colliding names, applied to a builder and in parallel to '
             'groups made by hand. Non-trivial: a sub-builder is used and shapes of two kinds are made.')

KEYS = ['edge', 'filled', 'clear', 'edge_filled', 'edge_clear']
TABLE = st.lists(gen.penbrush(must=True), min_size=5, max_size=5)
NAMES = st.sampled_from(['a', 'b', 'c', 'd', 'e', 'x y', 'a_r'])
KIND = gen.one_of(st.none(), st.sampled_from(KEYS), gen.penbrush(must=True))
OP = gen.one_of(
    st.tuples(st.sampled_from(['rect', 'ellipse', 'rrect', 'rrect']), st.integers(0, 3), NAMES, KIND, gen.two_corners(),
              st.integers(0, 30)).map(list),
    st.tuples(st.just('curve'), st.integers(0, 3), NAMES, KIND, gen.cps(1, 4), st.sampled_from([None, True, False])).map(list),
    st.tuples(st.just('group'), st.integers(0, 3), NAMES, gen.one_of(st.none(), st.sampled_from(KEYS)),
              gen.one_of(st.none(), TABLE)).map(list),
    st.tuples(st.just('point'), st.integers(0, 3), st.sampled_from(['p', 'q', 'r']), gen.xy()).map(list),
    st.tuples(st.just('add_pt'), st.integers(0, 3), st.sampled_from(['p', 'q', 'r']), gen.xy()).map(list),
    st.tuples(st.just('add'), st.integers(0, 3), NAMES, gen.leaf()).map(list),
    st.tuples(st.just('turn'), st.integers(0, 3), st.integers(0, 9), gen.angle(), st.sampled_from(['', 'x', '1']),
              st.booleans()).map(list),
    st.tuples(st.just('hide'), st.integers(0, 3)).map(list),
)


def fresh(names, name, cls):
    """The name an element gets in a group that has names"""
    if name not in names:
        return name
    base = cls.__name__
    base = base[4:] if base.startswith('Elem') else base
    i = 0
    while '%s#%d' % (base.lower(), i) in names:
        i += 1
    return '%s#%d' % (base.lower(), i)


class Side(object):
    """One builder and the group made by hand"""

    def __init__(self, builder, hand, table, kind):
        self.b, self.g, self.table, self.kind = builder, hand, table, kind


def table(specs):
    return PensByShape(*[mk.penbrush(p) for p in specs])


@R.facet(st.tuples(TABLE, st.sampled_from(KEYS + [None]), st.lists(OP, min_size=1, max_size=14)).map(list), n=500)
def histories(v, cx):
    specs, dflt, ops = v
    args = {} if dflt is None else dict(shape_kind=dflt)
    top = GroupBuilder('top', table(specs), **args)
    sides = [Side(top, Group('top', PenBrush('default')), specs, dflt or 'edge')]
    made = set()
    subs = 0
    for op in ops:
        k, s = op[0], sides[op[1] % len(sides)]
        if k in ('rect', 'ellipse', 'rrect', 'curve'):
            kind = op[3]
            pb = kind if isinstance(kind, list) else s.table[KEYS.index(kind or s.kind)]
            arg = mk.penbrush(kind) if isinstance(kind, list) else kind
            if k == 'curve':
                closed = op[5]
                if closed is False and pb[1] is not None:
                    closed = None       # filled shapes are closed
                cps = mk.cps(op[4])
                e = s.b.curve(op[2], cps, arg, closed) if closed is not None else s.b.curve(op[2], cps, shape_kind=arg)
                h = ElemCurve('', mk.penbrush(pb), mk.cps(op[4]), closed=pb[1] is not None if closed is None else closed)
            else:
                p1, p2 = mk.pt(op[4][0]), mk.pt(op[4][1])
                if k == 'rrect':
                    e = s.b.rrect(op[2], p1, p2, op[5], arg)
                    h = ElemRectangleRounded('', mk.penbrush(pb), mk.pt(op[4][0]), mk.pt(op[4][1]), op[5])
                else:
                    e = getattr(s.b, k)(op[2], p1, p2, shape_kind=arg)
                    h = {'rect': ElemRectangle, 'ellipse': ElemEllipse}[k](
                        '', mk.penbrush(pb), mk.pt(op[4][0]), mk.pt(op[4][1]))
            name = fresh(s.g.elems, op[2], type(h))
            h.name = name
            s.g.elems[name] = h
            expect(s.b.lookup(name) is e, 'the shape made is in the group as %r', name)
            same(mk.state(e), mk.state(h), 'shape made')
            made.add(type(h).__name__)
        elif k == 'group':
            kw = {}
            if op[4]:
                kw['pens_by_shape'] = table(op[4])
            if op[3]:
                kw['shape_kind'] = op[3]
            sub = s.b.group(op[2], **kw)
            expect(isinstance(sub, GroupBuilder), 'sub-builder')
            hg = Group('', PenBrush('default'))
            hg.name = fresh(s.g.elems, op[2], Group)
            s.g.elems[hg.name] = hg
            expect(s.b.lookup(hg.name) is sub.the_group, 'sub-group is in the group')
            sides.append(Side(sub, hg, op[4] or s.table, op[3] or s.kind))
            subs += 1
        elif k in ('point', 'add_pt'):
            if op[2] in s.g.points:
                continue
            if k == 'point':
                p = s.b.point(op[2], *op[3])
            else:
                given = PointRelative(1, 2, Point(*op[3]))
                p = s.b.add_pt(op[2], given)
                expect(p is given, 'the point given is registered')
            want = tuple(op[3]) if k == 'point' else (op[3][0]+1, op[3][1]+2)
            same(tuple(p.xy()), want, 'point')
            same(p.name, op[2], 'name of the point')
            expect(s.b.lookup_pt(op[2]) is p, 'registered point')
            s.g.points[op[2]] = p
        elif k == 'add':
            e = mk.elem(op[3])
            name = fresh(s.g.elems, op[2], type(e))
            s.b.add(op[2], e)
            expect(s.b.lookup(name) is e, 'added as %r', name)
            h = mk.elem(op[3])
            h.name = name
            s.g.elems[name] = h
        elif k == 'turn':
            cands = [n for n, e in s.g.elems.items() if not isinstance(e, Group)]
            if not cands:
                continue
            src = s.b.lookup(cands[op[2] % len(cands)])
            was = mk.state(src)
            c = src.bbox().center.xy()
            before = mk.paths_sig(src, mk.dc([], 8, 5))
            name = fresh(s.g.elems, src.name + '_r' + op[4], type(src))
            new = s.b.rotate_about_center(src, op[3], op[5], op[4])
            same(mk.state(src), was, 'the element turned')
            expect(s.b.lookup(name) is new and new.name == name, 'turned element is %r', name)
            # what it draws is the original turned about its own center
            m = ref.mul(ref.translate(*c), ref.mul(ref.rot(-op[3]), ref.translate(-c[0], -c[1])))
            tol = 1e-8*mag(c, [p for _, _, pts in before for p in pts])
            got = mk.paths_sig(new, mk.dc([], 8, 5))
            turned = [(wpb, wc, [ref.ap(m, p) for p in wp]) for wpb, wc, wp in before]
            mk.same_paths(got, turned, tol, 'turned by %r about %r' % (op[3], c), outline=True)
            s.g.elems[name] = new
            if op[5]:
                mark = fresh(s.g.elems, src.name + '_c' + op[4], ElemEllipse)
                e = s.b.lookup(mark)
                expect(isinstance(e, ElemEllipse) and e.penbrush == src.penbrush, 'mark at the center')
                box = e.bbox()
                near_pts([box.center.xy(), (box.width, box.height)], [c, (2, 2)], 1e-9*mag(c), 'mark at the center')
                s.g.elems[mark] = e
        elif k == 'hide':
            s.b.hide()
            s.g.hidden = True
    cx.nt(subs > 0 and len(made) > 1)
    cx.label('hidden', any(s.g.hidden for s in sides))
    for s in sides:
        same(list(s.b.the_group.elems), list(s.g.elems), 'names in order')
        same({n: p.xy() for n, p in s.b.the_group.points.items()}, {n: p.xy() for n, p in s.g.points.items()}, 'points')
    same(mk.state(top.the_group)[2:], mk.state(sides[0].g)[2:], 'model')
    # the same through the builder as through the group
    text = top.dump().output()
    same(text, top.the_group.dump().output(), 'dump')
    own = DumpContext(use_vars=False)
    expect(top.dump(own) is own, 'the context given is used')
    a, b = [(n, id(e), tuple(t.as_6tuple())) for n, e, t in top.iter_elems('r')], \
        [(n, id(e), tuple(t.as_6tuple())) for n, e, t in top.the_group.iter_elems('r')]
    same(a, b, 'iteration')
    same([n for n, _e, _t in top.iter_elems()], [n for n, _e, _t in top.the_group.iter_elems()], 'names in iteration')
    same([(n.name, type(n)) for n in top.iter_elems_transformed()],
         [(n.name, type(n)) for n in top.the_group.iter_elems_transformed()], 'shallow iteration')
    with contextlib.redirect_stdout(io.StringIO()) as o1:
        top.display()
    with contextlib.redirect_stdout(io.StringIO()):
        top.display(0, '    ')
    expect('top' in o1.getvalue(), 'display names the builder')
    d1, d2 = mk.dc([['s', 0.1, 0.1], ['t', 4, 4]], 12, 4), mk.dc([['s', 0.1, 0.1], ['t', 4, 4]], 12, 4)
    top.draw(d1)
    sides[0].g.draw(d2)
    same(d1.image().tobytes() == d2.image().tobytes(), True, 'drawing')


@R.facet(st.tuples(TABLE, st.sampled_from(KEYS), KIND, gen.two_corners(), gen.cps(2, 4), st.sampled_from(['rect', 'ellipse', 'rrect',
                                                                                                      'curve'])).map(list), n=150)
def asked_for_open(v, cx):
    """An open shape asked for is open; with a brush, or of a kind that is never open, it is refused, as it is
    when made directly, and nothing is added"""
    specs, dflt, kind, (p1, p2), cps, what = v
    b = GroupBuilder('g', table(specs), dflt)
    kind_of = kind if kind is None or isinstance(kind, str) else mk.penbrush(kind)
    pb = kind_of if isinstance(kind_of, PenBrush) else table(specs)[kind_of or dflt]
    cx.nt()
    p1, p2 = Point(*p1), Point(*p2)
    direct, made = {
        'rect': (lambda: ElemRectangle('n', pb, p1, p2, False), lambda: b.rect('n', p1, p2, kind_of, False)),
        'ellipse': (lambda: ElemEllipse('n', pb, p1, p2, False), lambda: b.ellipse('n', p1, p2, kind_of, False)),
        'rrect': (lambda: ElemRectangleRounded('n', pb, p1, p2, 0, False), lambda: b.rrect('n', p1, p2, 0, kind_of, False)),
        'curve': (lambda: ElemCurve('n', pb, mk.cps(cps), False), lambda: b.curve('n', mk.cps(cps), kind_of, False)),
    }[what]
    if pb.filled or what != 'curve':
        raises(Exception, direct, 'open shape with a brush, or that is never open')
        raises(Exception, made, 'open shape with a brush, or that is never open, through a builder')
        same(list(b.the_group.elems), [], 'elements after the refusal')
    else:
        e = made()
        same((e.closed, e == direct(), b.lookup('n') is e), (False, True, True), 'open shape')


@R.facet(st.tuples(TABLE, st.sampled_from(KEYS), gen.leaf(), st.booleans()).map(list), n=100)
def over_a_group(v, cx):
    """A builder over an existing group adds to that group"""
    specs, dflt, s, hide = v
    g = Group('mine', PenBrush('black'))
    e0 = mk.elem(s)
    g.add('old', e0)
    b = GroupBuilder('other', table(specs), dflt, group=g)
    cx.nt()
    expect(b.the_group is g and b.lookup('old') is e0, 'the group given')
    same(g.name, 'mine', 'its name')
    e = b.rect('old', Point(0, 0), Point(3, 4))
    same((list(g.elems), e.name), (['old', 'rectangle#0'], 'rectangle#0'), 'names')
    same(repr(e.penbrush), repr(mk.penbrush(specs[KEYS.index(dflt)])), 'pen and brush')
    same(b.replace(e0.copy(), ElemCurve('new', PenBrush('red'), mk.cps([[[0, 0], [1, 1], [2, 2], 'sharp']]), False)), 1,
         'replaced')
    same(list(g.elems), ['new', 'rectangle#0'], 'names after replacing')
    raises(KeyError, lambda: b.lookup('old'), 'absent name')
    raises(KeyError, lambda: b.lookup_pt('p'), 'absent point')
    # over one without anything in it yet
    g2 = Group('empty', PenBrush('black'), points={'p': Point(1, 2)} if hide else None)
    b2 = GroupBuilder('other', table(specs), dflt, group=g2)
    expect(b2.the_group is g2, 'the group given, without elements')
    made = b2.rect('first', Point(0, 0), Point(1, 1))
    expect(g2.elems == {'first': made}, 'in the group given')
    b2.add_pt('r', Point(3, 3))
    expect('r' in g2.points, 'point in the group given')
    if hide:
        b.hide()
        same(g.paths(mk.dc([], 8, 4)), [], 'hidden group')
    for bad in (None, 'red', PenBrush('red'), [PenBrush('red')]*5):
        raises(TypeError, lambda: GroupBuilder('x', bad), 'pens %r' % (bad,))
    raises(ValueError, lambda: b.rect('y', Point(0, 0), Point(1, 1), 'no such kind'), 'unknown kind')
    same(list(g.elems), ['new', 'rectangle#0'], 'nothing added when refused')


@R.facet(st.tuples(gen.holes(min_inside=1, max_inside=3), st.sampled_from(['out', 'ring', 'x y', 'a#1'])).map(list), n=150)
def parts_of_holes(v, cx):
    """The parts of a shape with holes are found under outside.NAME and inside.NAME, as iteration names them"""
    s, oname = v
    w = mk.elem(s)
    w.outside.name = oname
    for i, e in enumerate(w.inside):
        e.name = 'h%d' % i
    cx.nt(len(w.inside) > 1)
    expect(w.lookup('outside.' + oname) is w.outside, 'outside')
    for e in w.inside:
        expect(w.lookup('inside.' + e.name) is e, 'hole')
    for name, e, _ in w.iter_elems():
        same(name.partition('.')[0], w.name, 'first part of the name')
        if name.count('.') == 3:
            continue        # Within a group that is a hole
        expect(w.lookup(name.partition('.')[2]) is e, 'name %r given by iteration', name)
    # holes may have the name of the outside
    for e in w.inside:
        was, e.name = e.name, oname
        expect(w.lookup('outside.' + oname) is w.outside and w.lookup('inside.' + oname) is e, 'outside and a hole of one name')
        e.name = was
    w.inside[-1].name = ''
    expect(w.lookup('inside.') is w.inside[-1], 'a hole without a name')
    w.inside[-1].name = 'h%d' % (len(w.inside) - 1)
    for bad in ('', oname, 'outside', 'inside', 'outside.', 'outside.h0', 'inside.' + oname, 'inside.h9', 'nowhere.h0', 'h0',
                'inside.h0.x'):
        raises(KeyError, lambda: w.lookup(bad), 'absent part %r' % bad)


@R.facet(st.tuples(TABLE, gen.leaf(), gen.cps(2, 4), st.lists(st.tuples(st.sampled_from(['top', 'sub', 'deep', 'hidden', 'other']),
         st.booleans()).map(list), max_size=6)).map(list), n=200)
def replace_all(v, cx):
    """Replacing through a builder: every occurrence in any group below it, all counted, nothing else"""
    specs, s, cps, spots = v
    def world():
        b = GroupBuilder('top', table(specs))
        at = {'top': b, 'other': b.group('other')}
        at['sub'] = b.group('sub')
        at['deep'] = at['sub'].group('deep')
        at['hidden'] = at['deep'].group('hidden')
        at['hidden'].hide()
        for i, (where, same_one) in enumerate(spots):
            e = mk.elem(s)
            e.name = 'mark'
            if not same_one:
                # another place: not an occurrence
                e = mk.elem(dict(s, xf=s['xf'] + [['t', 1000 + i, 3]]))
                e.name = 'mark'
            at[where].add('mark' if same_one else 'rest%d' % i, e)
        return b, at
    b, at = world()
    # a group holds an equal element under one name only: the others get fresh ones and are not equal
    pattern = mk.elem(s)
    pattern.name = 'mark'
    def found(g):
        return sum(found(e) if isinstance(e, Group) else e == pattern for e in g.elems.values())
    count = found(b.the_group)
    cx.nt(count > 1)
    new = ElemCurve('new', PenBrush('red'), mk.cps(cps), False)
    for n, k in (('builder', count), ('builder again', 0)):
        same(b.replace(pattern, new), k, n + ': number replaced')
        same(found(b.the_group), 0, n + ': none left')
        total = sum(1 for _n, e, _t in b.iter_elems() if e == new)
        same(total, count, n + ': replacements found')
    b2, _ = world()
    same(b2.the_group.replace(pattern, new), count, 'group: number replaced')
    same(mk.state(b2.the_group), mk.state(b.the_group), 'the same through the builder as through the group')
