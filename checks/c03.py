"""C03: vector metrics"""
import math
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector, VectorRelative
from harness import gen
from harness.core import Registry, expect, near, near_xy, same, raises

R = Registry('C03', 'Pairs of vectors given by length over many magnitudes and direction, or by coordinates, as plain '
             'or relative vectors; rotations by any angle. Non-trivial: both vectors non-zero and not parallel to an '
             'axis.')

LEN = gen.one_of(st.integers(1, 100), gen.fl(0.001, 10), gen.fl(1, 1e6), st.sampled_from([1e-6, 1e9, 1e-10, 1e-14, 1e-60, 1e60]))
VEC = gen.one_of(st.tuples(st.just('polar'), LEN, gen.angle(), st.booleans()).map(list),
                st.tuples(st.just('xy'), gen.coord(), gen.coord(), st.booleans()).map(list),
                # nearly parallel to an axis
                st.tuples(st.just('near'), LEN, st.integers(-14, -2), st.sampled_from([-3, -1, 1, 3]), st.integers(0, 3), st.booleans()).map(
                    lambda v: ['xy'] + [[v[1], v[1]*v[3]*10.0**v[2]], [v[1]*v[3]*10.0**v[2], v[1]],
                                        [-v[1], v[1]*v[3]*10.0**v[2]], [v[1]*v[3]*10.0**v[2], -v[1]]][v[4]] + [v[5]]))


def mk(s):
    if s[0] == 'polar':
        x, y = s[1]*math.cos(math.radians(s[2])), s[1]*math.sin(math.radians(s[2]))
    else:
        x, y = s[1], s[2]
    if s[3]:
        return VectorRelative(Point(x, y), Point(0, 0)), x, y
    return Vector(x, y), x, y


def oblique(x, y):
    return abs(x) > 1e-3*abs(y) and abs(y) > 1e-3*abs(x)


@R.facet(st.tuples(VEC, VEC, gen.angle()).map(list), n=1000)
def metrics(s, cx):
    v, x, y = mk(s[0])
    w, x2, y2 = mk(s[1])
    deg = s[2]
    lv, lw = math.sqrt(x*x + y*y), math.sqrt(x2*x2 + y2*y2)
    tv = 1e-11 * (lv + 1e-300)
    tp = 1e-10 * lv * lw
    cx.nt(oblique(x, y) and oblique(x2, y2))
    cx.label('relative', s[0][3])
    near(v.length(), lv, tv, 'length')
    near(v.dot(w), x*x2 + y*y2, tp, 'dot')
    near(v.cross(w), x*y2 - y*x2, tp, 'cross')
    near(v.dot(w), w.dot(v), tp, 'dot symmetric')
    near(v.cross(w), -w.cross(v), tp, 'cross antisymmetric')
    near_xy(v.normal().xy(), (y, -x), tv, 'normal')
    c, sn = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    r = v.rotate(deg)
    near_xy(r.xy(), (c*x - sn*y, sn*x + c*y), 10*tv, 'rotate')
    near(r.length(), lv, 10*tv, 'rotated length')
    near(r.dot(w.rotate(deg)), x*x2 + y*y2, 10*tp, 'rotation preserves dot')
    near(r.cross(w.rotate(deg)), x*y2 - y*x2, 10*tp, 'rotation preserves cross')
    near_xy(r.rotate(-deg).xy(), (x, y), 20*tv, 'rotate back')
    same(tuple(v.xy()), (x, y) if not s[0][3] else (x - 0, y - 0), 'unchanged')
    if lv == 0:
        raises(ZeroDivisionError, v.unit, 'unit of zero')
    else:
        u = v.unit()
        near(u.length(), 1, 1e-12, 'unit length')
        near_xy(u.xy(), (x/lv, y/lv), 1e-11, 'unit')
        a = v.angle()
        expect(-180 <= a <= 180, 'angle range %r', a)
        near_xy((math.cos(math.radians(a)), math.sin(math.radians(a))), (x/lv, y/lv), 1e-10, 'angle')
        near(math.sin(math.radians(a)), y/lv, 1e-14 + 1e-11*abs(y/lv), 'angle from the x axis')
        near(math.cos(math.radians(a)), x/lv, 1e-14 + 1e-11*abs(x/lv), 'angle from the y axis')
        if x > 0:
            near(math.radians(a), math.atan(y/x), 1e-11*abs(y/x), 'small angle')
        if lw > 0:
            th = math.radians(w.angle() - v.angle())
            near(v.dot(w), lv*lw*math.cos(th), 20*tp, 'dot = |a||b|cos')
            near(v.cross(w), lv*lw*math.sin(th), 20*tp, 'cross = |a||b|sin')
        if 0 < deg < 180:
            expect(v.cross(r) > -1e-9*lv*lv, 'positive rotation is counter-clockwise')


@R.facet(st.tuples(VEC, st.integers(0, 8)).map(list), n=300)
def rounding(s, cx):
    v, x, y = mk(s[0])
    n = s[1]
    cx.nt(round(x, n) != x or round(y, n) != y)
    for r in (v.round(n), round(v, n)):
        near_xy(r.xy(), (round(x, n), round(y, n)), 1e-12*(1+abs(x)+abs(y)), 'round')
    p = Point(x, y)
    for r in (p.round(n), round(p, n)):
        near_xy(r.xy(), (round(x, n), round(y, n)), 1e-12*(1+abs(x)+abs(y)), 'round point')
    near_xy(v.round().xy(), (round(x), round(y)), 1e-12*(1+abs(x)+abs(y)), 'round default')


@R.facet(st.tuples(LEN, gen.angle(), gen.fl(-179, 179), gen.coord(100), gen.coord(100)).map(list), n=300)
def geometry(s, cx):
    """Rotation about the origin moves the angle by exactly that much"""
    ln, a, d, px, py = s
    v = Vector(ln, 0).rotate(a)
    near(v.length(), ln, 1e-11*ln, 'length')
    diff = (v.angle() - a) % 360
    near(min(diff, 360-diff), 0, 1e-7, 'angle of rotated x axis')
    w = v.rotate(d)
    diff = (w.angle() - v.angle() - d) % 360
    near(min(diff, 360-diff), 0, 1e-7, 'angle difference')
    cx.nt(abs(d) > 1 and oblique(*v.xy()))
    n = v.normal()
    near(v.dot(n), 0, 1e-11*ln*ln, 'normal perpendicular')
    expect(v.cross(n) < 0, 'normal is clockwise')
    diff = (n.angle() - v.angle() + 90) % 360
    near(min(diff, 360-diff), 0, 1e-7, 'normal is -90 degrees')
    p, q = Point(px, py), Point(px, py) + v
    near((q - p).length(), ln, 1e-9*(ln + 200), 'distance')


@R.facet(st.tuples(gen.small(9), gen.small(9), gen.one_of(st.integers(-900, -500), st.integers(500, 900), st.integers(-500, 500)), gen.angle(), st.booleans()).map(list), n=300)
def scales(s, cx):
    """Vectors whose squared lengths are not representable: lengths and directions scale exactly like moderate ones"""
    x, y, k, deg, rel = s
    f = 2.0**k
    ln = math.hypot(x, y)
    v = VectorRelative(Point(x*f, y*f), Point(0, 0)) if rel else Vector(x*f, y*f)
    cx.nt(ln > 0 and abs(k) > 500)
    cx.label('tiny' if k < -500 else 'huge' if k > 500 else 'moderate')
    near(v.length()/f, ln, 1e-11*ln, 'length of (%r, %r)*2**%r' % (x, y, k))
    near_xy([c/f for c in v.normal().xy()], (y, -x), 1e-11*ln, 'normal')
    c, sn = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    near_xy([q/f for q in v.rotate(deg).xy()], (c*x - sn*y, sn*x + c*y), 1e-10*ln, 'rotated')
    if ln:
        near_xy(v.unit().xy(), (x/ln, y/ln), 1e-11, 'unit of (%r, %r)*2**%r' % (x, y, k))
        a = math.radians(v.angle())
        near_xy((math.cos(a), math.sin(a)), (x/ln, y/ln), 1e-11, 'angle')
