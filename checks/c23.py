"""C23: ellipses and rounded rectangles have the right shape"""
import math
from hypothesis import strategies as st
from x7.geom.geom import Point
from x7.geom.colors import PenBrush
from x7.geom.model import ElemEllipse, ElemRectangleRounded, make_ellipse_cps, make_rounded_rect_cps
from harness import gen, mk, ref
from harness.core import Registry, expect, near, near_pts, near_xy, same, mag, unit

R = Registry('C23', 'Boxes given by any pair of opposite corners (sizes 0.01..200, extreme aspect ratios included), radii '
             '0..beyond half the box; every sampled point is compared with the true ellipse / the union of straight sides '
             'and quarter circles, and the area with its formula. Non-trivial: width and height differ (ellipse), radius '
             'above zero (rounded rectangle).')

BAND = 3e-4
CORNERS = gen.one_of(gen.two_corners(), gen.two_corners(), gen.two_corners(200, 0.01))
RADIUS = gen.one_of(st.just(0), st.integers(0, 60), gen.fl(0, 80), gen.fl(0, 1), st.just(5.0), st.just(1e6))


def swaps(p1, p2):
    (x1, y1), (x2, y2) = p1, p2
    return [[[x2, y2], [x1, y1]], [[x1, y2], [x2, y1]], [[x2, y1], [x1, y2]]]


def drawn(e, ppc=None):
    ((_pb, closed, pts),) = mk.paths_sig(e, mk.dc([], 8, ppc))
    same(closed, True, 'closed')
    same(pts[0], pts[-1], 'ends where it starts')
    return pts


def segs(cps):
    return ref.segs_of([mk.real_abs(c) for c in cps], True)


def check_ellipse(pts, all_segs, cx0, cy0, rx, ry, tol):
    for x, y in pts:
        d = math.hypot((x-cx0)/rx, (y-cy0)/ry)
        expect(abs(d-1) <= BAND + tol/min(rx, ry), 'point %r off the ellipse by a factor %r', (x, y), d)
    for q in ((cx0+rx, cy0), (cx0-rx, cy0), (cx0, cy0+ry), (cx0, cy0-ry)):
        expect(any(abs(q[0]-p[0]) <= tol and abs(q[1]-p[1]) <= tol for p in pts), 'middle of a side %r not touched', q)
    b = ref.box(pts)
    near_pts([b[:2], b[2:]], [(cx0-rx, cy0-ry), (cx0+rx, cy0+ry)], tol, 'extent')
    bad = mk.far_point([(2*cx0-x, 2*cy0-y) for x, y in pts], pts, tol)
    expect(not bad, 'not point-symmetric at %r', bad)
    area = abs(ref.bez_area(all_segs))
    near(area, math.pi*rx*ry, 1e-3*math.pi*rx*ry + tol*(rx+ry)*4, 'area')


@R.facet(CORNERS, n=500)
def ellipse(s, cx):
    p1, p2 = s
    e = ElemEllipse('e', PenBrush('red'), Point(*p1), Point(*p2))
    (xl, yl), (xh, yh) = [min(p1[0], p2[0]), min(p1[1], p2[1])], [max(p1[0], p2[0]), max(p1[1], p2[1])]
    rx, ry = (xh-xl)/2, (yh-yl)/2
    cx.nt(rx != ry)
    cx.label('aspect>10', max(rx, ry) > 10*min(rx, ry))
    tol = 1e-12*mag(s)
    pts = drawn(e)
    check_ellipse(pts, segs(e.make_control_points()), (xl+xh)/2, (yl+yh)/2, rx, ry, tol)
    # finely sampled
    fine = ref.path_of([mk.real_abs(c) for c in e.make_control_points()], True, 50)
    check_ellipse(fine, segs(e.make_control_points()), (xl+xh)/2, (yl+yh)/2, rx, ry, tol)
    for q1, q2 in swaps(p1, p2):
        other = drawn(ElemEllipse('e', PenBrush('red'), Point(*q1), Point(*q2)))
        near_pts(other, pts, tol, 'from other corners')


@R.facet(st.tuples(gen.xy(), gen.pos(0.01, 300), gen.one_of(st.none(), gen.pos(0.01, 300))).map(list), n=300)
def ellipse_cps(s, cx):
    """make_ellipse_cps from center and radii (one radius: a circle)"""
    c, rx, ry = s
    cps = make_ellipse_cps(Point(*c), rx) if ry is None else make_ellipse_cps(Point(*c), rx, ry)
    ry = rx if ry is None else ry
    cx.nt(s[2] is not None and rx != ry)
    same(len(cps), 4, 'control points')
    tol = 1e-12*mag(s)
    pts = ref.path_of([mk.real_abs(p) for p in cps], True, 30)
    check_ellipse(pts, segs(cps), c[0], c[1], rx, ry, tol)
    # smooth: the two handles of a point are opposite
    for p in cps:
        near_xy((p.dl.xy()[0] + p.dr.xy()[0], p.dl.xy()[1] + p.dr.xy()[1]), (0, 0), tol, 'handles')


def check_rrect(pts, sg, box, r, tol):
    xl, yl, xh, yh = box
    w, h = xh-xl, yh-yl
    for x, y in pts:
        expect(xl-tol <= x <= xh+tol and yl-tol <= y <= yh+tol, 'point %r outside the rectangle', (x, y))
        ox = xl + r - x if x < xl + r else (x - (xh - r) if x > xh - r else 0)
        oy = yl + r - y if y < yl + r else (y - (yh - r) if y > yh - r else 0)
        if ox > tol and oy > tol:
            d = math.hypot(ox, oy)
            expect(abs(d-r) <= BAND*r + 2*tol, 'point %r at %r from the corner center, radius %r', (x, y), d, r)
        else:
            side = min(abs(x-xl), abs(x-xh), abs(y-yl), abs(y-yh))
            expect(side <= BAND*r + 2*tol, 'point %r is %r away from every side', (x, y), side)
    b = ref.box(pts)
    near_pts([b[:2], b[2:]], [(xl, yl), (xh, yh)], tol, 'touches each side')
    near(abs(ref.bez_area(sg)), w*h - (4-math.pi)*r*r, 2e-3*r*r + 4*tol*(w+h), 'area')


@R.facet(st.tuples(CORNERS, RADIUS).map(list), n=600)
def rrect(s, cx):
    (p1, p2), radius = s
    e = ElemRectangleRounded('e', PenBrush('red'), Point(*p1), Point(*p2), radius)
    box = ref.box([tuple(p1), tuple(p2)])
    r = min(radius, (box[2]-box[0])/2, (box[3]-box[1])/2)
    cx.nt(r > 0)
    cx.label('limited', r < radius)
    cx.label('radius 0', radius == 0)
    tol = 1e-12*mag(p1, p2)*4
    pts = drawn(e)
    cps = e.make_control_points()
    sg = segs(cps)
    check_rrect(pts, sg, box, r, tol)
    check_rrect(ref.path_of([mk.real_abs(c) for c in cps], True, 37), sg, box, r, tol)
    if r == 0:
        expect(not mk.far_point([(box[0], box[1]), (box[0], box[3]), (box[2], box[3]), (box[2], box[1])], pts, tol),
               'radius 0 is the rectangle')
    for q1, q2 in swaps(p1, p2):
        other = drawn(ElemRectangleRounded('e', PenBrush('red'), Point(*q1), Point(*q2), radius))
        bad = mk.far_point(other, pts, tol) or mk.far_point(pts, other, tol)
        expect(not bad, 'differs when given by other corners: %r', bad)


@R.facet(st.tuples(CORNERS, gen.one_of(st.none(), RADIUS)).map(list), n=200)
def rrect_cps(s, cx):
    """make_rounded_rect_cps, with its default radius of 5"""
    (p1, p2), radius = s
    a, b = Point(*p1), Point(*p2)
    cps = make_rounded_rect_cps(a, b) if radius is None else make_rounded_rect_cps(a, b, radius)
    radius = 5.0 if radius is None else radius
    box = ref.box([tuple(p1), tuple(p2)])
    r = min(radius, (box[2]-box[0])/2, (box[3]-box[1])/2)
    cx.nt(r > 0)
    tol = 1e-12*mag(p1, p2)*4
    check_rrect(ref.path_of([mk.real_abs(c) for c in cps], True, 23), segs(cps), box, r, tol)
    same((a.xy(), b.xy()), (tuple(p1), tuple(p2)), 'corners passed in')


@R.facet(st.tuples(gen.coord(), gen.coord(), gen.one_of(st.integers(1, 200), gen.fl(0.1, 200)),
                   gen.fl(0.5, 3)).map(list), n=200)
def full_circle(s, cx):
    """A square with radius at or above half its side is a circle"""
    x, y, w, f = s
    cx.nt(f >= 1)
    cps = make_rounded_rect_cps(Point(x, y), Point(x+w, y+w), w/2*max(1, f))
    pts = ref.path_of([mk.real_abs(c) for c in cps], True, 20)
    tol = 1e-12*mag(x, y, w)*4
    for p in pts:
        near(math.dist(p, (x+w/2, y+w/2)), w/2, BAND*w/2 + tol, 'circle')


@R.facet(st.tuples(gen.xy(100), gen.pos(0.5, 80), st.booleans(), st.booleans(), RADIUS).map(list), n=150)
def flat(s, cx):
    """Boxes without height or width: what is drawn is the segment itself"""
    (x, y), size, upright, back, radius = s
    q = [x, y + size] if upright else [x + size, y]
    p1, p2 = ([x, y], q) if not back else (q, [x, y])
    cx.nt()
    tol = 1e-12*mag(s[:2], [size])
    for e in (ElemEllipse('e', PenBrush('red'), Point(*p1), Point(*p2)),
              ElemRectangleRounded('e', PenBrush('red'), Point(*p1), Point(*p2), radius)):
        pts = drawn(e)
        b = ref.box(pts)
        lo, hi = [min(p1[0], p2[0]), min(p1[1], p2[1])], [max(p1[0], p2[0]), max(p1[1], p2[1])]
        near_pts([b[:2], b[2:]], [lo, hi], tol, 'extent')


@R.facet(st.tuples(CORNERS, RADIUS, st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=100)
def sizes(s, cx):
    """Very small and very large shapes"""
    corners, radius, f = s
    corners = [[v*f for v in p] for p in corners]
    with unit(f):
        ellipse(corners, cx)
        rrect([corners, radius*f], cx)
    cx.label('%g' % f)


@R.facet(st.tuples(CORNERS, CORNERS, RADIUS, st.integers(0, 3)).map(list), n=150)
def asked_again(v, cx):
    """Control points are the caller's to change; shapes are those of the present corners and radius"""
    (p1, p2), (q1, q2), r, how = v
    cx.nt(p1 != q1)

    def spoil(cps):
        for c in cps[how:]:
            c.c.setxy(9, -9)
            c.dl, c.dr, c.kind = c.dl*3, c.dr*2, 'sharp'
        del cps[-1:]
    fns = [lambda: ElemEllipse('e', PenBrush('red'), Point(*p1), Point(*p2)).make_control_points(),
           lambda: ElemRectangleRounded('e', PenBrush('red'), Point(*p1), Point(*p2), r).make_control_points(),
           lambda: make_rounded_rect_cps(Point(*p1), Point(*p2), r),
           lambda: make_ellipse_cps(Point(*p1), abs(p2[0]) + 1, abs(p2[1]) + 2)]
    for fn in fns:
        first = [(mk.real_abs(c), c.kind) for c in fn()]
        spoil(fn())
        same([(mk.real_abs(c), c.kind) for c in fn()], first, 'control points made again')
    for e in (ElemEllipse('e', PenBrush('red'), Point(*p1), Point(*p2)),
              ElemRectangleRounded('e', PenBrush('red'), Point(*p1), Point(*p2), r)):
        drawn(e, 5)
        spoil(e.make_control_points())
        e.p1.setxy(*q1)
        e.p2 = Point(*q2)
        if isinstance(e, ElemRectangleRounded):
            e.radius = how + 1
            want = ElemRectangleRounded('e', PenBrush('red'), Point(*q1), Point(*q2), how + 1)
        else:
            want = ElemEllipse('e', PenBrush('red'), Point(*q1), Point(*q2))
        same(drawn(e, 5), drawn(want, 5), 'drawn with other corners')
