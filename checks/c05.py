"""C05: box predicates agree with the point-set meaning"""
from hypothesis import strategies as st
from x7.geom.geom import BBox, Point
from harness import gen
from harness.core import Registry, expect, same, raises

R = Registry('C05', 'Pairs of boxes with area whose extents are drawn from a small grid (so that shared edges, corners, '
             'nesting and equality are frequent) or derived from one another by moving single sides, plus points on, '
             'in and around them; compared with an interval model evaluated on a refined grid. Non-trivial: the boxes '
             'meet (touch or overlap).')

SCALE = st.sampled_from([1, 1, 0.25, 1000, 0.1])


def ivl(n=8):
    return st.tuples(st.integers(-n, n), st.integers(1, n)).map(lambda v: [v[0], v[0] + v[1]])


GRID_BOX = st.tuples(ivl(), ivl()).map(lambda v: [v[0][0], v[1][0], v[0][1], v[1][1]])


def related(b):
    """A box related to b: some sides of b kept, mirrored on its sides, or shifted"""
    def pick(lo, hi):
        w = hi - lo
        opts = [(lo, hi), (hi, hi + 2), (lo - 3, lo), (lo, lo + max(1, w // 2)), (hi - 1, hi), (lo - 1, hi + 1),
                (hi - 1, hi + 1), (lo - 1, lo + 1), (hi + 1, hi + 2), (lo - 3, lo - 1)]
        return st.sampled_from(opts)
    return st.tuples(pick(b[0], b[2]), pick(b[1], b[3])).map(lambda v: [v[0][0], v[1][0], v[0][1], v[1][1]])


PAIR = GRID_BOX.flatmap(lambda b: st.tuples(st.just(b), gen.one_of(GRID_BOX, related(b)), SCALE)).map(list)


def ints(a, b):
    """Common closed interval or None"""
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else None


@R.facet(PAIR, n=3000)
def pair(s, cx):
    k = s[2]
    ta, tb = [v*k for v in s[0]], [v*k for v in s[1]]
    a, b = BBox(*ta), BBox(*tb)
    ix = ints((ta[0], ta[2]), (tb[0], tb[2]))
    iy = ints((ta[1], ta[3]), (tb[1], tb[3]))
    meet = ix is not None and iy is not None
    common = (ix[0], iy[0], ix[1], iy[1]) if meet else None
    has_area = meet and ix[0] < ix[1] and iy[0] < iy[1]
    corner = meet and ix[0] == ix[1] and iy[0] == iy[1]
    touch = meet and not has_area
    cx.nt(meet)
    cx.label('disjoint' if not meet else 'corner' if corner else 'side' if touch else
             'nested' if common in (tuple(ta), tuple(tb)) else 'overlap')
    for p, q in ((a, b), (b, a)):
        i = p.intersection(q)
        if meet:
            same(i.as_tuple(), common, 'intersection')
            same(i.is_none, False, 'is_none')
        else:
            expect(i.is_none, 'intersection of disjoint boxes: %r', i)
        same(p.overlaps(q), has_area, 'overlaps')
        same(p.touches(q), touch, 'touches')
        same(p.touches_side(q), touch and not corner, 'touches_side')
        same(i.is_empty, not has_area, 'is_empty of intersection')
        same(i.area() > 0, has_area, 'area of intersection')
    for p, q, tq in ((a, b, tb), (b, a, ta)):
        inside = meet and common == tuple(tq)
        same(p.contains(q), inside, 'contains')
        # documented implications
        if p.contains(q):
            expect(p.intersection(q) == q, 'contains implies intersection == other')
    same((a.as_tuple(), b.as_tuple()), (tuple(ta), tuple(tb)), 'operands unchanged')
    expect(a.contains(a) and a.overlaps(a) and not a.touches(a) and a.intersection(a) == a, 'reflexive')


NUDGE = st.sampled_from([0, 0, 1e-15, -1e-15, 1e-13, -1e-13, 1e-11, -1e-11, 1e-10, -1e-10, 1e-9, -1e-9, 1e-7, -1e-7,
                         1e-5, -1e-5])


@R.facet(GRID_BOX.flatmap(lambda b: st.tuples(st.just(b), related(b), st.tuples(NUDGE, NUDGE, NUDGE, NUDGE).map(list),
                                              st.just(1)).map(list)), n=1200)
def close_by(s, cx):
    """Boxes that overlap, or miss each other, by next to nothing"""
    a, b, d, k = s
    pair([a, [v + e for v, e in zip(b, d)], k], cx)


@R.facet(st.tuples(GRID_BOX, st.tuples(st.integers(-10, 20), st.integers(-10, 20)).map(list),
                   st.tuples(st.sampled_from(['xl', 'xh', 'mid', 'in', 'out']),
                             st.sampled_from(['yl', 'yh', 'mid', 'in', 'out'])).map(list), SCALE).map(list), n=1200)
def point(s, cx):
    t, (ox, oy), (hx, hy), k = s
    t = [v*k for v in t]
    b = BBox(*t)

    def place(h, lo, hi, o):
        return {'xl': lo, 'yl': lo, 'xh': hi, 'yh': hi, 'mid': (lo+hi)/2, 'in': lo + (hi-lo)/4}.get(h, o*k)

    x, y = place(hx, t[0], t[2], ox), place(hy, t[1], t[3], oy)
    inx, iny = t[0] < x < t[2], t[1] < y < t[3]
    onx, ony = x in (t[0], t[2]), y in (t[1], t[3])
    cx.label('in' if inx and iny else 'border' if (onx and iny) or (ony and inx) else
             'corner' if onx and ony else 'out')
    cx.nt(inx or iny)
    p = Point(x, y)
    same(b.contains_pt(p), inx and iny, 'contains_pt')
    same(b.touches_pt(p), (onx and iny) or (ony and inx), 'touches_pt')
    g = b.copy()
    g.grow(p)
    expect(g.contains(b), 'grown box contains the box')
    same(g == b, t[0] <= x <= t[2] and t[1] <= y <= t[3], 'grow only when outside')


@R.facet(st.tuples(GRID_BOX, st.tuples(gen.coord(10), gen.coord(10)).map(list)).map(list), n=60)
def none_box(s, cx):
    b, n = BBox(*s[0]), BBox(None)
    cx.nt()
    for p, q in ((b, n), (n, b), (n, n)):
        same(p.touches(q), False, 'touches')
        same(p.touches_side(q), False, 'touches_side')
        expect(p.intersection(q).is_none, 'intersection')
        raises(ValueError, lambda: p.contains(q), 'contains')
        raises(ValueError, lambda: p.overlaps(q), 'overlaps')
    pt = Point(*s[1])
    same(n.contains_pt(pt), False, 'contains_pt')
    same(n.touches_pt(pt), False, 'touches_pt')


@R.facet(st.tuples(GRID_BOX, GRID_BOX, GRID_BOX).map(list), n=400)
def triples(s, cx):
    """Transitivity and lattice laws"""
    a, b, c = (BBox(*t) for t in s)
    ab = a.intersection(b)
    bc = b.intersection(c)
    cx.nt(not ab.is_none and not bc.is_none)
    l, r = ab.intersection(c), a.intersection(bc)
    expect(l == r, 'intersection associative: %r %r', l, r)
    u = a + b
    expect(u.contains(a) and u.contains(b), 'union contains both')
    if u.contains(c) and c.contains(u):
        expect(u == c, 'antisymmetric')
    if a.contains(b) and b.contains(c):
        expect(a.contains(c), 'transitive')
    if not ab.is_none:
        expect(a.contains(ab) and b.contains(ab), 'intersection contained in both')
