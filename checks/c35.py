"""C35: arcs, marks and path helpers lie where geometry says"""
import math
from hypothesis import strategies as st
from x7.geom.geom import BasePoint, Point, PointRelative, Vector
from x7.geom.utils import (
    arc, arc2p, check_point_list, circle, cross, min_rotation, path_from_xy, path_rotate, path_rotate_ccw, path_to_xy,
    path_translate, plus,
)
from harness import gen, mk, ref
from harness.core import Registry, expect, near, near_xy, near_pts, raises, same

R = Registry('C35', 'Radii from 0.001 to 1000 (and zero), angles within several turns in either direction including wrap-around '
             'and equal angles, the three directions, 1..400 steps and the default, arbitrary centres; pairs of points from '
             'almost coincident to exactly a diameter apart and beyond, on both sides; lists of 0..8 points of every kind. '
             'Non-trivial: arcs of more than one step and an angle that wraps or runs clockwise; lists of several points.')

RAD = gen.one_of(st.integers(1, 100), gen.fl(0.001, 1000))
DIRS = st.sampled_from(['ccw', 'ccw', 'cw', 'cw', 'none'])


def check_arc(pts, r, c, a0, a1, n, what):
    """n equal steps from angle a0 to a1 (degrees)"""
    same(len(pts), n + 1, what + ': number of points')
    tol = 1e-9*(1 + r + abs(c[0]) + abs(c[1])) + 1e-12*r*(abs(a0) + abs(a1))
    for i, p in enumerate(pts):
        expect(isinstance(p, tuple) and len(p) == 2, what + ': x,y pairs')
        a = math.radians(a0 + (a1 - a0)*i/n)
        near_xy(p, (c[0] + r*math.cos(a), c[1] + r*math.sin(a)), tol, what + ': point %d' % i)
        near(math.hypot(p[0]-c[0], p[1]-c[1]), r, tol, what + ': radius of point %d' % i)


def sweep(sa, ea, d):
    """Start and (start + signed sweep) for a direction"""
    if d == 'none':
        return sa, ea
    a, b = sa % 360, ea % 360
    if d == 'ccw':
        return a, b if b >= a else b + 360
    return a, b if b <= a else b - 360


@R.facet(st.tuples(RAD, gen.angle(), gen.angle(), gen.xy(500), gen.one_of(st.integers(1, 12), st.integers(1, 400)), DIRS,
                   st.integers(0, 1)).map(list), n=500)
def arcs(v, cx):
    r, sa, ea, c, n, d, kw = v
    a0, a1 = sweep(sa, ea, d)
    cx.nt(n > 1 and (d == 'cw' or sa % 360 > ea % 360))
    cx.label('clockwise', d == 'cw')
    cx.label('wraps', d == 'ccw' and a1 >= 360)
    ctr = Point(*c)
    pts = arc(r, sa, ea, ctr, n, d) if kw else arc(r, sa, ea, c=ctr, steps=n, direction=d)
    check_arc(pts, r, c, a0, a1, n, 'arc %s' % d)
    same(ctr.xy(), tuple(c), 'the center')
    if d == 'ccw':
        same(arc(r, sa, ea, ctr, n), pts, 'counter-clockwise is the default')
    tol = 1e-9*(1 + r + abs(c[0]) + abs(c[1])) + 1e-12*r*(abs(sa) + abs(ea))
    if d != 'none':
        back = arc(r, ea, sa, ctr, n, 'cw' if d == 'ccw' else 'ccw')
        near_pts(back[::-1], pts, tol, 'the same arc the other way around')
        near_pts(arc(r, sa + 360, ea - 720, ctr, n, d), pts, 10*tol, 'whole turns added') \
            if min(abs(sa % 360 - ea % 360), sa % 360, ea % 360, 360 - sa % 360, 360 - ea % 360) > 1e-6 else None
    o = arc(r, sa, ea, steps=n, direction=d)
    near_pts([(x + c[0], y + c[1]) for x, y in o], pts, tol, 'about the origin by default')


@R.facet(st.tuples(RAD, gen.angle(), gen.angle(), DIRS).map(list), n=300)
def default_steps(v, cx):
    r, sa, ea, d = v
    a0, a1 = sweep(sa, ea, d)
    pts = arc(r, sa, ea, direction=d)
    n = len(pts) - 1
    deg = abs(a1 - a0)
    cx.nt(deg > 3)
    expect(n >= 1 and deg/n <= 1 + 1e-9 and n <= deg + 1 + 1e-6, 'one step per degree: %r steps for %r degrees', n, deg)
    check_arc(pts, r, (0, 0), a0, a1, n, 'arc %s' % d)
    same(arc(r, sa, ea, steps=-1, direction=d), pts, 'default')


SIDE = st.sampled_from([1, -1, 1.0, -1.0, 2, -3.5, 0.25, -0.25, -0.5, 100, -100, 1e-3, -1e-3])


@R.facet(st.tuples(gen.xy(200), gen.angle(), gen.one_of(st.integers(1, 50), gen.fl(0.01, 300)),
                   gen.one_of(st.sampled_from([1.0, 1.0001, 1.5, 2]), gen.fl(1, 20), st.sampled_from([1e3, 1e5, 1e6, 1e7])), SIDE,
                   gen.one_of(st.just(-1), st.integers(1, 60))).map(list), n=400)
def two_points(v, cx):
    s, ang, half, k, side, n = v
    a = math.radians(ang)
    e = (s[0] + 2*half*math.cos(a), s[1] + 2*half*math.sin(a))
    r = half*k*(1 + 1e-9)
    ps, pe = Point(*s), Point(*e)
    pts = arc2p(r, ps, pe, n, side) if side != 1 or n != 9 else arc2p(r, ps, pe, n)
    cx.nt(n != 1 and k > 1)
    cx.label('far side', side < 0)
    same((ps.xy(), pe.xy()), (tuple(s), e), 'the points')
    tol = 1e-9*(1 + r + abs(s[0]) + abs(s[1]))
    near_xy(pts[0], e, tol, 'first the end point')
    near_xy(pts[2], s, tol, 'third the start point')
    c = pts[1]
    near(math.dist(c, s), r, tol, 'start at the radius from the center')
    near(math.dist(c, e), r, tol, 'end at the radius from the center')
    # the positive side is that of the vector's normal, to the right
    nx, ny = math.sin(a), -math.cos(a)
    h = (c[0] - s[0])*nx + (c[1] - s[1])*ny
    want = math.sqrt(max(0, r*r - half*half))*(1 if side > 0 else -1)
    near(h, want, 1e-4*(1 + r), 'center on the requested side')
    body = pts[3:]
    near_xy(body[0], s, tol, 'the arc starts at the start')
    near_xy(body[-1], e, tol, 'the arc ends at the end')
    if n > 0:
        same(len(body), n + 1, 'number of points')
    for p in body:
        near(math.dist(p, c), r, tol, 'radius')
    # counter-clockwise all along, in equal steps
    full = math.atan2(e[1]-c[1], e[0]-c[0]) - math.atan2(s[1]-c[1], s[0]-c[0])
    full %= math.tau
    if n == -1 and k > 1.001:
        deg = math.degrees(full)
        expect(deg/(len(body)-1) <= 1 + 1e-6 and len(body)-1 <= deg + 1 + 1e-3, 'one step per degree: %r steps for %r degrees',
               len(body)-1, deg)
    if side == 1 and n == -1:
        same(arc2p(r, ps, pe), pts, 'defaults')
    if k > 1.001 and len(body) > 1:
        for p, q in zip(body, body[1:]):
            d = math.atan2(q[1]-c[1], q[0]-c[0]) - math.atan2(p[1]-c[1], p[0]-c[0])
            d = (d + math.pi) % math.tau - math.pi if full/(len(body)-1) < 3 else d % math.tau
            near(d, full/(len(body)-1), 1e-3, 'equal counter-clockwise steps')


@R.facet(st.tuples(gen.xy(100), gen.angle(), gen.fl(0.1, 100), gen.fl(1.001, 10), st.sampled_from([1, -1])).map(list), n=150)
def two_points_refused(v, cx):
    s, ang, half, k, side = v
    a = math.radians(ang)
    e = Point(s[0] + 2*half*math.cos(a), s[1] + 2*half*math.sin(a))
    cx.nt(True)
    raises(ValueError, lambda: arc2p(half/k, Point(*s), e, 10, side), 'points too far apart')
    raises(ValueError, lambda: arc2p(half, Point(*s), Point(*s), 10, side), 'points coincide')


@R.facet(st.tuples(gen.one_of(RAD, st.just(0)), gen.xy(500), st.booleans()).map(list), n=300)
def marks(v, cx):
    r, c, dflt = v
    ctr = Point(0, 0) if dflt else Point(*c)
    args = () if dflt else (ctr,)
    x, y = ctr.xy()
    tol = 1e-9*(1 + r + abs(x) + abs(y))
    cx.nt(r > 0 and not dflt)
    pts = circle(r, *args)
    near_xy(pts[0], pts[-1], tol, 'the circle closes')
    check_arc(pts, r, (x, y), 0, 360, len(pts) - 1, 'circle')
    expect(len(pts) >= 361, 'at least a point per degree')
    for name, fn in (('cross', cross), ('plus', plus)):
        p = fn(r, *args)
        same(len(p), 5, name + ': points')
        near_xy(p[2], (x, y), tol, name + ': passes the center between its arms')
        arms = [p[:2], p[3:]]
        for a, b in arms:
            near_xy(((a[0]+b[0])/2, (a[1]+b[1])/2), (x, y), tol, name + ': arm is centred')
            near(math.dist(a, b), 2*r, tol, name + ': size of an arm')
        (a, b), (d, e) = arms
        near((b[0]-a[0])*(e[0]-d[0]) + (b[1]-a[1])*(e[1]-d[1]), 0, 1e-9*(1 + r*r + r*(abs(x)+abs(y))),
             name + ': arms are perpendicular')
        for a, b in arms:
            dx, dy = abs(b[0]-a[0]), abs(b[1]-a[1])
            if name == 'cross':
                near(dx, dy, tol, 'cross: diagonal')
            else:
                near(min(dx, dy), 0, tol, 'plus: upright')
        expect(all(isinstance(q, tuple) for q in p), 'x,y pairs')
    same(ctr.xy(), (x, y), 'the center')


ANG = gen.one_of(st.integers(-2000, 2000), gen.fl(-2000, 2000), st.sampled_from([180, -180, 0, 360, 540, 179.999999]))


@R.facet(st.tuples(ANG, ANG).map(list), n=500)
def minimal_rotation(v, cx):
    t, s = v
    d = min_rotation(t, s)
    cx.nt(not -180 <= t - s < 180)
    expect(-180 <= d < 180, 'within half a turn: %r', d)
    k = (s + d - t)/360
    near(k, round(k), 1e-9, 'takes source to target')
    if isinstance(t, int) and isinstance(s, int):
        same((t - s - d) % 360, 0, 'congruent to the difference')
        same(min_rotation(t + 360, s - 720), d, 'whole turns do not matter')
        if d != -180:
            same(min_rotation(s, t), -d, 'the other way around')
        else:
            same(min_rotation(s, t), -180, 'half a turn')
    near(min_rotation(s, s), 0, 1e-12*(1 + abs(s)), 'nothing to do')


PTS = st.lists(st.tuples(st.sampled_from(['p', 'p', 'r']), gen.coord(300), gen.coord(300)).map(list), max_size=8)


def points(spec):
    return [PointRelative(x, y, Point(3, -4)) if k == 'r' else Point(x, y) for k, x, y in spec]


@R.facet(st.tuples(PTS, gen.angle(), gen.xy(300), st.booleans(), st.booleans()).map(list), n=400)
def paths(v, cx):
    spec, ang, d, as_pt, vec = v
    ps = points(spec)
    xy = [p.xy() for p in ps]
    cx.nt(len(ps) > 2 and ang % 360 != 0)
    by = Vector(*d) if vec else Point(*d)
    size = 1 + max([abs(q) for p in xy for q in p] + [abs(d[0]), abs(d[1])])
    tol = 1e-9*size

    def form(res, what):
        same(len(res), len(ps), what + ': count')
        if as_pt:
            expect(all(isinstance(q, BasePoint) for q in res), what + ': points')
            expect(not any(q is p for p, q in zip(ps, res)), what + ': new points')
            return [q.xy() for q in res]
        expect(all(isinstance(q, tuple) and len(q) == 2 for q in res), what + ': x,y pairs')
        return res
    ccw = form(path_rotate_ccw(ps, ang, as_pt), 'rotated ccw')
    cw = form(path_rotate(ps, ang, as_pt), 'rotated')
    m = ref.rot(ang)
    near_pts(ccw, [ref.ap(m, p) for p in xy], tol, 'rotated counter-clockwise')
    near_pts(cw, [ref.ap(ref.rot(-ang), p) for p in xy], tol, 'rotated clockwise')
    pts = ps
    moved = path_translate(pts, by, as_pt)
    near_pts([q.xy() if as_pt else q for q in moved], [(p.x + d[0], p.y + d[1]) for p in pts], tol, 'translated')
    expect(all(isinstance(q, Point if as_pt else tuple) for q in moved), 'translated: form')
    # inverses
    back = path_rotate(path_rotate_ccw(ps, ang, True), ang, True)
    near_pts([q.xy() for q in back], xy, tol, 'rotating there and back')
    back = path_translate(path_translate(pts, by, True), -by if vec else Point(-d[0], -d[1]), True)
    near_pts([q.xy() for q in back], [p.xy() for p in pts], tol, 'translating there and back')
    for res in (ccw, cw):
        for i in range(1, len(res)):
            near(math.dist(res[i-1], res[i]), math.dist(xy[i-1], xy[i]), tol*10, 'distances')
    # conversion
    flat = path_to_xy(ps)
    same(flat, xy, 'to pairs')
    pts2 = path_from_xy(flat)
    expect(all(type(p) is Point for p in pts2), 'from pairs')
    same([p.xy() for p in pts2], xy, 'from pairs')
    same(path_to_xy(pts2), flat, 'there and back')
    same([p.xy() for p in ps], xy, 'the given points')
    same(path_rotate_ccw(ps, ang), path_rotate_ccw(ps, ang, False), 'pairs by default')
    same(path_rotate(ps, ang), path_rotate(ps, ang, False), 'pairs by default')
    same(path_translate(pts, by), path_translate(pts, by, False), 'pairs by default')


@R.facet(st.tuples(PTS, st.integers(0, 8), st.sampled_from(['none', 'tuple', 'number', 'text', 'ok', 'list', 'vector'])).map(list), n=200)
def point_lists(v, cx):
    spec, at, bad = v
    ps = points(spec)
    thing = {'none': None, 'tuple': (1, 2), 'number': 3, 'text': 'p', 'list': [Point(1, 2)], 'vector': Vector(1, 2)}
    same(check_point_list(ps), None, 'points are accepted')
    cx.nt(bad != 'ok' and bool(ps))
    if bad != 'ok':
        raises(ValueError, lambda: check_point_list(ps[:at] + [thing[bad]] + ps[at:]), 'anything else is refused')


SCALE = st.sampled_from([1e-12, 1e-9, 1e-6, 1, 1e6, 1e9])


@R.facet(st.tuples(st.lists(gen.xy(50), min_size=1, max_size=5), gen.xy(50), gen.angle(), SCALE, SCALE, st.booleans()).map(list),
         n=300)
def precision(v, cx):
    """Path helpers are as precise for tiny and huge paths as for others"""
    xy, d, ang, k, kd, as_pt = v
    ps = [Point(x*k, y*k) for x, y in xy]
    xy = [p.xy() for p in ps]
    by = Vector(d[0]*kd, d[1]*kd)
    cx.nt(k != 1 and any(x or y for x, y in xy))
    cx.label('tiny', k < 1)

    def flat(res):
        return [q.xy() if as_pt else q for q in res]
    for (x, y), q in zip(xy, flat(path_translate(ps, by, as_pt))):
        for a, b, g in zip((x, y), (d[0]*kd, d[1]*kd), q):
            near(g, a + b, 1e-14*(abs(a) + abs(b)), 'translated')
    for fn, m, what in ((path_rotate_ccw, ref.rot(ang), 'rotated counter-clockwise'), (path_rotate, ref.rot(-ang), 'rotated')):
        for p, q in zip(xy, flat(fn(ps, ang, as_pt))):
            near_xy(q, ref.ap(m, p), 1e-12*(abs(p[0]) + abs(p[1])), what)
    same([p.xy() for p in path_from_xy(path_to_xy(ps))], xy, 'there and back')
    # marks and arcs scale with their radius
    r = (1 + abs(d[0]))*k
    for name, fn in (('circle', circle), ('cross', cross), ('plus', plus)):
        for p in fn(r)[:2]:
            near(math.hypot(*p), r, 1e-12*r, name + ': radius')
    for p in arc(r, ang, ang + 77, steps=5):
        near(math.hypot(*p), r, 1e-12*r, 'arc: radius')
    e = (r*math.cos(math.radians(ang)), r*math.sin(math.radians(ang)))
    pts = arc2p(2*r, Point(0, 0), Point(*e), steps=7)
    for p in [pts[0]] + pts[2:]:
        near(math.dist(p, pts[1]), 2*r, 1e-9*r, 'arc through two points: radius')


@R.facet(st.tuples(gen.one_of(RAD, st.just(1)), gen.one_of(gen.xy(50), st.just([0, 0])), gen.angle(), gen.angle(), st.integers(1, 20), st.booleans()).map(list), n=120)
def asked_again(v, cx):
    """What the caller does to a list of points is nothing to the next caller"""
    r, c, a, b, n, dflt = v
    at = {} if dflt else dict(c=Point(*c))
    pts = [Point(*c), Point(r, a)]
    fns = [lambda: circle(r, **at), lambda: arc(r, a, b, steps=n, **at), lambda: arc(r, a, b, **at), lambda: cross(r, **at),
           lambda: plus(r, **at), lambda: arc2p(2*r, Point(*c), Point(c[0] + r, c[1]), n), lambda: path_to_xy(pts),
           lambda: path_from_xy([tuple(c), (a, b)]), lambda: path_rotate(pts, a, True), lambda: path_rotate_ccw(pts, a),
           lambda: path_translate(pts, Vector(a, b), True), lambda: path_translate(pts, Vector(0, 0))]
    was = [p.xy() for p in pts]
    for i, fn in enumerate(fns):
        out = fn()
        keep = [tuple(p) for p in out]
        for p in out:
            if isinstance(p, Point):
                p.setxy(-5, -6)
        out.reverse()
        del out[1:]
        same([tuple(p) for p in fn()], keep, 'asked again (%d)' % i)
        same([p.xy() for p in pts], was, 'points passed in (%d)' % i)
    cx.nt(dflt or r != 1)
