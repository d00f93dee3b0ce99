"""C07: parsing point lists; polygon area"""
import math
from typing import NamedTuple
from hypothesis import strategies as st
from x7.geom.geom import BasePoint, Point, PointRelative, Vector, polygon_area
from harness import gen, ref
from harness.core import Registry, expect, near, same, raises, mag

R = Registry('C07', 'Item sequences generated from the accepted grammar (points, tuples, bare number pairs, optional '
             'thruples) and single-item corruptions of them; random and star-shaped polygons under the area laws. '
             'Non-trivial: the sequence mixes at least two item forms / the polygon has area.')

C = gen.coord()


class Pos(NamedTuple):
    x: float
    y: float


class Pair(tuple):
    pass


ITEM = gen.one_of(
    st.tuples(st.just('num'), C, C).map(list),
    st.tuples(st.just('tup'), C, C).map(list),
    st.tuples(st.sampled_from(['named', 'own']), C, C).map(list),
    st.tuples(st.just('pt'), C, C).map(list),
    st.tuples(st.just('rel'), C, C).map(list),
)
THRUPLE = st.tuples(st.just('thr'), C, C, gen.one_of(C, st.sampled_from(['x', 'anything']))).map(list)


def flatten(items):
    """-> (input sequence, expected list)"""
    seq, want = [], []
    for it in items:
        k, x, y = it[:3]
        if k == 'num':
            seq += [x, y]
            want.append((x, y))
        elif k == 'tup':
            seq.append((x, y))
            want.append(seq[-1])
        elif k in ('named', 'own'):
            seq.append(Pos(x, y) if k == 'named' else Pair((x, y)))
            want.append(seq[-1])
        elif k == 'thr':
            seq.append((x, y, it[3]))
            want.append(seq[-1])
        else:
            seq.append(Point(x, y) if k == 'pt' else PointRelative(x, y, Point(1, 2)))
            want.append(seq[-1])
    return seq, want


def check(got, want):
    same(type(got), list, 'type')
    same(len(got), len(want), 'length')
    for g, w in zip(got, want):
        if isinstance(w, BasePoint):
            expect(g is w, 'point object kept: %r vs %r', g, w)
        else:
            expect(isinstance(g, tuple), 'tuple')
            same(g, w, 'item')


@R.facet(st.tuples(st.lists(ITEM, max_size=8), st.sampled_from(['list', 'iter', 'tuple'])).map(list), n=500)
def grammar(s, cx):
    seq, want = flatten(s[0])
    cx.nt(len({it[0] for it in s[0]}) > 1)
    src = {'list': list, 'iter': iter, 'tuple': tuple}[s[1]](seq)
    keep = list(seq)
    check(BasePoint.parse(src), want)
    same(seq, keep, 'input unchanged')
    check(BasePoint.parse(seq, allow_thruples=True), want)


@R.facet(st.lists(gen.one_of(ITEM, THRUPLE), max_size=8), n=250)
def thruples(s, cx):
    seq, want = flatten(s)
    has = any(it[0] == 'thr' for it in s)
    cx.nt(has)
    check(BasePoint.parse(seq, allow_thruples=True), want)
    if has:
        raises(ValueError, lambda: BasePoint.parse(seq), 'thruple refused by default')
    else:
        check(BasePoint.parse(seq), want)


BAD = st.sampled_from(['odd', 'num-pt', 'num-tup', 'str', 'list', 'none', 'vector', 'tup1', 'tup4', 'tup0'])


@R.facet(st.tuples(st.lists(ITEM, max_size=4), BAD, st.lists(ITEM, max_size=3)).map(list), n=400)
def corrupted(s, cx):
    pre, bad, post = s
    a, _ = flatten(pre)
    b, _ = flatten(post)
    cx.label(bad)
    cx.nt(bool(pre))
    if bad == 'odd':
        # a trailing lone number
        b = []
        item = [7]
    else:
        item = {'num-pt': [7, Point(1, 2)], 'num-tup': [7, (1, 2)], 'str': ['ab'], 'list': [[1, 2]],
                'none': [None], 'vector': [Vector(1, 2)], 'tup1': [(1,)], 'tup4': [(1, 2, 3, 4)], 'tup0': [()]}[bad]
    raises(ValueError, lambda: BasePoint.parse(a + item + b), 'bad sequence %r' % (a + item + b))
    raises(ValueError, lambda: BasePoint.parse(a + item + b, allow_thruples=True), 'bad sequence (thruples)')


POLY = gen.one_of(st.lists(gen.xy(200), min_size=3, max_size=10), st.lists(gen.xy(200), min_size=11, max_size=45))


@R.facet(st.tuples(POLY, gen.angle(), gen.xy(200), st.integers(0, 20), st.integers(1, 30)).map(list), n=600)
def area(s, cx):
    poly, deg, (dx, dy), shift, cut = s
    pts = [Point(*p) for p in poly]
    a = polygon_area(pts)
    want = ref.shoelace([tuple(p) for p in poly])
    m = mag(poly, [dx, dy])
    tol = 1e-11 * m*m*len(poly)
    cx.nt(abs(want) > 1)
    near(a, want, tol, 'area')
    same([p.xy() for p in pts], [tuple(p) for p in poly], 'input unchanged')
    near(polygon_area(pts[::-1]), -want, tol, 'reversed')
    k = shift % len(pts)
    near(polygon_area(pts[k:] + pts[:k]), want, tol, 'rotated start')
    near(polygon_area([Point(p.x+dx, p.y+dy) for p in pts]), want, 8*tol, 'translated')
    r = math.radians(deg)
    c, sn = math.cos(r), math.sin(r)
    near(polygon_area([Point(c*p.x-sn*p.y, sn*p.x+c*p.y) for p in pts]), want, 8*tol, 'rotated')
    near(polygon_area([Point(-p.x, p.y) for p in pts]), -want, tol, 'mirrored')
    near(polygon_area([PointRelative(p.x, p.y, Point(dx, dy)) for p in pts]), want, 8*tol, 'relative points')
    if len(pts) > 3:
        j = 2 + cut % (len(pts) - 3)
        near(polygon_area(pts[:j+1]) + polygon_area([pts[0]] + pts[j:]), want, 2*tol, 'additive')


@R.facet(st.tuples(gen.one_of(st.lists(gen.fl(5, 100), min_size=3, max_size=12),
                             st.lists(gen.fl(5, 100), min_size=13, max_size=70)), gen.xy(100), gen.angle()).map(list), n=200)
def orientation(s, cx):
    """Star-shaped polygons listed counter-clockwise have positive area"""
    radii, (ox, oy), rot = s
    n = len(radii)
    cx.nt(n > 3)
    pts = [Point(ox + r*math.cos(math.radians(rot) + 2*math.pi*i/n), oy + r*math.sin(math.radians(rot) + 2*math.pi*i/n))
           for i, r in enumerate(radii)]
    want = sum(radii[i]*radii[(i+1) % n]*math.sin(2*math.pi/n) for i in range(n))/2
    near(polygon_area(pts), want, 1e-8*want, 'star area')
    expect(polygon_area(pts) > 0, 'counter-clockwise positive')
