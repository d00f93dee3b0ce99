"""C04: bounding boxes are the tightest ordered hulls"""
from hypothesis import strategies as st
from x7.geom.geom import BBox, Point, Vector, PointRelative
from x7.geom.transform import Transform
from x7.geom.vec_field import Mesh
from harness import gen, ref, mk
from harness.core import Registry, expect, near, near_pts, near_xy, same, raises, mag, unit

R = Registry('C04', 'Boxes from corner pairs in every order, points and sub-boxes grown/united/expanded in generated '
             'orders, transformed by affine maps and vector fields. Non-trivial: the box has area and the history '
             'has at least two steps or a non-trivial map.')

C = gen.coord()
XY = gen.xy()


@R.facet(st.tuples(C, C, C, C).map(list), n=500)
def construction(s, cx):
    x1, y1, x2, y2 = s
    xl, xh, yl, yh = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    cx.nt(xl != xh and yl != yh)
    want = (xl, yl, xh, yh)
    forms = []
    for a, b, c, d in ((x1, y1, x2, y2), (x2, y2, x1, y1), (x1, y2, x2, y1), (x2, y1, x1, y2)):
        forms += [BBox(a, b, c, d), BBox((a, b, c, d)), BBox(Point(a, b), Point(c, d)),
                  BBox(PointRelative(a, b, Point(0, 0)), Point(c, d))]
    for b in forms:
        same(b.as_tuple(), want, 'extents')
        expect(b == forms[0], 'equal')
    b = forms[0]
    same(tuple(b), want, 'iter')
    same([b[i] for i in range(4)], list(want), 'getitem')
    same(b.p1.xy(), (xl, yl), 'p1')
    same(b.p2.xy(), (xh, yh), 'p2')
    same((b.pll.xy(), b.plh.xy(), b.phl.xy(), b.phh.xy()), ((xl, yl), (xl, yh), (xh, yl), (xh, yh)), 'corners')
    same((b.width, b.height), (xh-xl, yh-yl), 'width, height')
    same(b.size(), (xh-xl, yh-yl), 'size')
    near(b.area(), (xh-xl)*(yh-yl), 1e-12*(1+abs((xh-xl)*(yh-yl))), 'area')
    near_xy(b.center.xy(), ((xl+xh)/2, (yl+yh)/2), 1e-12*mag(s), 'center')
    expect(not b.is_none, 'is_none')
    expect(b.is_empty == (xl == xh or yl == yh), 'is_empty')
    c = b.copy()
    expect(c == b and c is not b, 'copy')
    c[2] = xh + 1
    same(b.as_tuple(), want, 'after editing the copy')
    expect(c != b, 'unequal after edit')
    c.xl, c.xh = c.xh, c.xl
    c.sort()
    same(c.as_tuple(), (xl, yl, xh + 1, yh), 'sort')
    same(eval(repr(b)), b, 'repr round trip')
    n = round(b, 1)
    same(n.as_tuple(), tuple(round(v, 1) for v in want), 'round')
    for far in ((xl - 1e17, yl - 1e18, xh, yh), (xl, yl, xh + 1e17, yh + 1e18)):
        same(round(BBox(*far), 1).as_tuple(), tuple(round(v, 1) for v in far), 'round, with a corner far away')
    same(b.as_tuple(), want, 'after round')
    for i in range(4):
        other = list(want)
        other[i] += (-1 if i < 2 else 1)
        expect(BBox(*other) != b, 'equality sees extent %d', i)


@R.facet(st.just(0), n=1)
def no_coordinates(s, cx):
    cx.nt()
    b = BBox(None)
    expect(b.is_none and b.is_empty, 'states')
    same((b.width, b.height, b.area(), b.size()), (0, 0, 0, (0, 0)), 'sizes')
    for a in ('p1', 'p2', 'pll', 'plh', 'phl', 'phh', 'center'):
        raises(ValueError, lambda: getattr(b, a), a)
    expect(b == BBox(None) and b != BBox(0, 0, 0, 0), 'equality')
    expect((b + b).is_none and b.copy().is_none, 'identity')
    raises(TypeError, lambda: BBox(1, 2, 3), 'three numbers') if False else None
    raises(TypeError, lambda: BBox([1, 2, 3, 4]), 'list')
    raises(TypeError, lambda: BBox(Point(1, 2)), 'one point')
    raises(TypeError, lambda: BBox(1, 2), 'two numbers')


BOX = st.tuples(C, C, C, C).map(list)
ITEM = gen.one_of(st.tuples(st.just('pt'), XY).map(list), st.tuples(st.just('box'), BOX).map(list),
                 st.just(['none']))


def hull(items):
    pts = []
    for it in items:
        if it[0] == 'pt':
            pts.append(tuple(it[1]))
        elif it[0] == 'box':
            pts.extend([tuple(it[1][:2]), tuple(it[1][2:])])
    return ref.box(pts) if pts else None


def tup(b):
    return None if b.is_none else b.as_tuple()


@R.facet(st.tuples(st.lists(ITEM, min_size=1, max_size=7), st.integers(0, 1000), st.integers(0, 1000)).map(list),
         n=600)
def union_and_grow(s, cx):
    items, cut, rot = s
    want = hull(items)
    cx.nt(want is not None and want[0] < want[2] and want[1] < want[3] and len(items) > 1)
    cx.label('none-operand', any(i[0] == 'none' for i in items))

    def box_of(it):
        if it[0] == 'pt':
            b = BBox(None)
            b.grow(Point(*it[1]))
            same(b.as_tuple(), tuple(it[1])*2, 'grow from nothing')
            return b
        return BBox(None) if it[0] == 'none' else BBox(*it[1])

    def fold(seq):
        acc = BBox(None)
        for it in seq:
            if it[0] == 'pt':
                r = acc.grow(Point(*it[1]))
                same(r, None, 'grow works in place')
            else:
                other = box_of(it)
                before, obefore = tup(acc), tup(other)
                new = acc + other
                expect(new is not acc and new is not other, 'union is a new box')
                same((tup(acc), tup(other)), (before, obefore), 'operands of union')
                acc = new
        return acc

    same(tup(fold(items)), want, 'fold')
    same(tup(fold(items[::-1])), want, 'reverse order')
    k = rot % len(items)
    same(tup(fold(items[k:] + items[:k])), want, 'rotated order')
    k = cut % (len(items) + 1)
    same(tup(fold(items[:k]) + fold(items[k:])), want, 'grouping')
    boxes = [box_of(it) for it in items]
    acc = boxes[0]
    for b in boxes[1:]:
        same(tup(acc + b), tup(b + acc), 'commutative')
        acc = acc + b
    same(tup(acc), want, 'sum of boxes')
    same(tup(acc + acc), want, 'idempotent')
    same(tup(acc + BBox(None)), want, 'right identity')
    same(tup(BBox(None) + acc), want, 'left identity')
    res = acc + BBox(None)
    if want is not None:
        # the result never aliases an operand
        res.grow(Point(want[2] + 1, want[3] + 1))
        same(tup(acc), want, 'union with nothing is a new box')
        res = BBox(None) + acc
        res.grow(Point(want[0] - 1, want[1] - 1))
        same(tup(acc), want, 'nothing with union is a new box')


@R.facet(st.tuples(BOX, gen.one_of(C, gen.fl(-50, 50)), gen.one_of(st.none(), C, gen.fl(-50, 50))).map(list), n=400)
def expand(s, cx):
    (x1, y1, x2, y2), ex, ey = s
    b = BBox(x1, y1, x2, y2)
    was = b.as_tuple()
    e = b.expand(ex) if ey is None else b.expand(ex, ey)
    ey = ex if ey is None else ey
    xl, yl, xh, yh = was
    tol = 1e-12 * mag(s)
    cx.nt(xl < xh and yl < yh and (ex != 0 or ey != 0))
    cx.label('collapse', ex < -(xh-xl)/2)

    def side(lo, hi, d):
        if d >= -(hi-lo)/2:
            return lo - d, hi + d
        return (lo+hi)/2, (lo+hi)/2

    (wxl, wxh), (wyl, wyh) = side(xl, xh, ex), side(yl, yh, ey)
    near_pts([e.as_tuple()[:2], e.as_tuple()[2:]], [(wxl, wyl), (wxh, wyh)], tol, 'expanded')
    expect(e.xl <= e.xh and e.yl <= e.yh, 'ordered')
    same(b.as_tuple(), was, 'original')
    near_xy(e.center.xy(), b.center.xy(), tol, 'center kept')


@R.facet(st.tuples(BOX, gen.xform(200, 4)).map(list), n=400)
def transformed_affine(s, cx):
    b = BBox(*s[0])
    was = b.as_tuple()
    m = mk.mat(s[1])
    t = mk.xform(s[1])
    xl, yl, xh, yh = was
    cx.nt(xl < xh and yl < yh and abs(m[1]) + abs(m[3]) > 0.01)
    want = ref.box(ref.ap_list(m, [(xl, yl), (xl, yh), (xh, yl), (xh, yh)]))
    got = b.transformed(t).as_tuple()
    tol = 1e-11 * (1 + ref.norm(m)*mag(s[0]) + ref.shift(m))
    near_pts([got[:2], got[2:]], [want[:2], want[2:]], tol, 'transformed')
    same(b.as_tuple(), was, 'original')
    same(t.as_6tuple(), tuple(float(v) for v in m), 'transform unchanged')
    # commutes with union
    c = BBox(*[v + 10 for v in s[0]])
    u = (b + c)
    a1 = u.transformed(t)
    expect((a1 + b.transformed(t) + c.transformed(t)).expand(tol*4).contains(a1.expand(0)), 'monotone')


@R.facet(st.tuples(st.tuples(gen.fl(-5, 5), gen.fl(-5, 5), gen.fl(0.5, 5), gen.fl(0.5, 5)).map(list),
                   st.lists(gen.fl(-2, 2), min_size=18, max_size=18)).map(list), n=150)
def transformed_field(s, cx):
    x, y, w, h = s[0]
    b = BBox(x, y, x + w, y + h)
    vf = Mesh(BBox(-10, -10, 10, 10), 3).zeros()
    k = 0
    for i in range(3):
        for j in range(3):
            vf.vx[i, j] = s[1][k]
            vf.vy[i, j] = s[1][k + 9]
            k += 1
    cx.nt(any(s[1]))
    pts = []
    for px, py in ((x, y), (x, y + h), (x + w, y), (x + w, y + h)):
        dx, dy = vf.lookup(px, py)
        pts.append((px + dx, py + dy))
    want = ref.box(pts)
    got = b.transformed(vf).as_tuple()
    near_pts([got[:2], got[2:]], [want[:2], want[2:]], 1e-9, 'transformed by field')


def times(v, f):
    """All numbers of a spec times f"""
    return [times(x, f) for x in v] if isinstance(v, (list, tuple)) else v*f


@R.facet(st.tuples(st.lists(st.tuples(C, C).map(list), min_size=1, max_size=5), BOX, C, C, gen.xform(200, 3), st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=100)
def sizes(s, cx):
    """Very small and very large boxes"""
    pts, box, ex, ey, ops, f = s
    with unit(f):
        construction(times(box, f), cx)
        expand([times(box, f), ex*f, ey*f], cx)
        transformed_affine([times(box, f), mk.scaled_ops(ops, f)], cx)
        b = BBox(None)
        for x, y in pts:
            b.grow(Point(x*f, y*f))
        same(b.as_tuple(), (min(p[0]*f for p in pts), min(p[1]*f for p in pts), max(p[0]*f for p in pts), max(p[1]*f for p in pts)),
             'grown by points')
    cx.label('%g' % f)
