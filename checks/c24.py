"""C24: offset curves run parallel at the requested distance"""
import math
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector
from x7.geom.bezier import ControlPoint
from x7.geom.model import ElemCurve, make_ellipse_cps
from harness import edits, gen, mk, ref
from harness.core import Registry, expect, near, near_pts, near_xy, same, mag, unit as size_unit

R = Registry('C24', 'Simple closed polygons (star-shaped, convex and with reflex corners, needle-sharp corners, handles along '
             'their sides) and smooth convex curves (affine images of circles), drawn in either orientation, under '
             'arbitrary similarity transforms; offsets of both signs. The expected corners are mitre points computed from '
             'the side lines. Non-trivial: the distance is not zero.')

CAP = 100.0


@st.composite
def polygon(draw, lo=3, hi=8, m=60):
    """Star-shaped polygon (CCW), corner kinds and handle fractions"""
    n = draw(st.integers(lo, hi))
    gaps = [draw(gen.fl(0.3, 1)) for _ in range(n)]
    total = sum(gaps)
    # keep every gap below half a turn
    if max(gaps) >= 0.48*total:
        gaps = [1.0]*n
        total = float(n)
    at = draw(gen.fl(0, 6))
    pts = []
    for g in gaps:
        r = draw(gen.one_of(gen.fl(5, m), st.just(30.0)))
        pts.append([round(r*math.cos(at), 6), round(r*math.sin(at), 6)])
        at += 2*math.pi*g/total
    kinds = [draw(gen.kind()) for _ in range(n)]
    fr = [[draw(gen.fl(0.05, 0.45)), draw(gen.fl(0.05, 0.45))] for _ in range(n)]
    return [pts, kinds, fr]


DIST = gen.one_of(st.sampled_from([1, -1, 0.5, -2, 3]), gen.fl(-6, 6))
XF = gen.one_of(st.just([]), gen.xform_rigid(60), gen.xform_similarity(60))


def poly_cps(poly):
    pts, kinds, fr = poly
    n = len(pts)
    out = []
    for i, (p, k, (fl, fr_)) in enumerate(zip(pts, kinds, fr)):
        a, b = pts[i-1], pts[(i+1) % n]
        out.append([list(p), [(a[0]-p[0])*fl, (a[1]-p[1])*fl], [(b[0]-p[0])*fr_, (b[1]-p[1])*fr_], k])
    return out


def unit(v):
    h = math.hypot(*v)
    return v[0]/h, v[1]/h


def corner(a, p, b, d):
    """Displacement of the corner p of a CCW polygon between a and b when every side moves inward by d"""
    u, v = unit((p[0]-a[0], p[1]-a[1])), unit((b[0]-p[0], b[1]-p[1]))
    n1, n2 = (-u[1], u[0]), (-v[1], v[0])
    s = (n1[0]+n2[0], n1[1]+n2[1])
    k = s[0]*n1[0] + s[1]*n1[1]
    if k < 1e-12:
        return None
    m = (d*s[0]/k, d*s[1]/k)
    size = math.hypot(*m)
    if size > CAP:
        return (m[0]*CAP/size, m[1]*CAP/size), True
    return m, False


def curve(cps, reverse, xf, name='c'):
    real = mk.cps(cps)
    if reverse:
        real = ControlPoint.reverse_list(real)
    return ElemCurve(name, mk.penbrush([['red', 1], None]), real, True, mk.xform(xf))


def match(got, want, tol, what, in_order=False):
    """Same (c, handle ends, kind) up to (unless in_order) a cyclic shift and running the other way round"""
    n = len(want)
    same(len(got), n, what + ': control points')
    best = None
    for flip in (0, 1):
        w = want if not flip else [(c, r, l, k) for c, l, r, k in reversed(want)]
        for s in range(1 if in_order else n):
            worst = 0
            for g, x in zip(got, w[s:] + w[:s]):
                if g[3] != x[3]:
                    worst = math.inf
                    break
                for a, b in zip(g[:3], x[:3]):
                    worst = max(worst, abs(a[0]-b[0]), abs(a[1]-b[1]))
            best = worst if best is None else min(best, worst)
    expect(best <= tol, '%s: off by %r (tolerance %r): got %r, expected %r', what, best, tol, got, want)


def real(e):
    return [mk.real_abs(c) + (c.kind,) for c in e.control_points]


@R.facet(st.tuples(polygon(), DIST, st.booleans(), XF).map(list), n=400)
def polygons(s, cx):
    poly, d, reverse, xf = s
    m = mk.mat(xf)
    e = curve(poly_cps(poly), reverse, xf)
    was = mk.state(e)
    off = e.offset(d)
    same(mk.state(e), was, 'the original')
    same(type(off), ElemCurve, 'type')
    expect(off.name.startswith(e.name) and off.name != e.name, 'derived name %r', off.name)
    same((off.penbrush, off.closed), (e.penbrush, e.closed), 'style')
    cx.nt(d != 0)
    pts = ref.ap_list(m, [tuple(p) for p in poly[0]])
    ccw = ref.det(m) > 0
    n = len(pts)
    want = []
    capped = False
    for i, p in enumerate(pts):
        a, b = pts[i-1], pts[(i+1) % n]
        mv = corner(a, p, b, d if ccw else -d)
        if mv is None:
            return
        (mx, my), cap = mv
        capped = capped or cap
        fl, fr = poly[2][i]
        u, v = unit((p[0]-a[0], p[1]-a[1])), unit((b[0]-p[0], b[1]-p[1]))
        dd = d if ccw else -d
        l = (p[0] + (a[0]-p[0])*fl - u[1]*dd, p[1] + (a[1]-p[1])*fl + u[0]*dd)
        r = (p[0] + (b[0]-p[0])*fr - v[1]*dd, p[1] + (b[1]-p[1])*fr + v[0]*dd)
        want.append(((p[0]+mx, p[1]+my), l, r, poly[1][i]))
    cx.label('capped', capped)
    cx.label('reflex', any(corner_turn(pts, i) < 0 for i in range(n)))
    sharp = max(math.dist(w[0], p) for w, p in zip(want, pts))/max(abs(d), 1e-9)
    match(real(off), want, 1e-9*(mag(pts) + abs(d))*(1 + sharp)**2, 'offset polygon', in_order=True)


def corner_turn(pts, i):
    a, p, b = pts[i-1], pts[i], pts[(i+1) % len(pts)]
    return (p[0]-a[0])*(b[1]-p[1]) - (p[1]-a[1])*(b[0]-p[0])


@R.facet(st.tuples(gen.fl(20, 80), gen.fl(0.02, 2), gen.fl(2, 12), st.sampled_from([1, -1]), st.booleans(), gen.xform_rigid(40)).map(list), n=300)
def needles(s, cx):
    """A needle-sharp triangle: the tip moves along its axis, at most a fixed distance"""
    length, half, d, sign, reverse, xf = s
    d *= sign
    pts = [[0, half], [0, -half], [length, 0]]
    m = mk.mat(xf)
    cps = poly_cps([pts, ['sharp']*3, [[0.3, 0.3]]*3])
    e = curve(cps, reverse, xf)
    off = e.offset(d)
    axis = unit((m[0], m[3]))
    p = ref.ap(m, (length, 0))
    full = d*math.hypot(length, half)/half        # mitre length at the tip
    capped = abs(full) > CAP
    cx.nt(capped)
    cx.label('capped', capped)
    cx.label('outward' if d < 0 else 'inward')
    mv = -math.copysign(min(abs(full), CAP), d)      # positive distances shrink
    want = (p[0] + axis[0]*mv, p[1] + axis[1]*mv)
    tol = 1e-6*(mag(length) + abs(mv))
    got = real(off)
    same(len(got), 3, 'control points')
    expect(any(math.dist(g[0], want) <= tol for g in got), 'tip at %r, got %r', want, got)


@R.facet(st.tuples(gen.xy(60), gen.fl(2, 60), gen.fl(-0.9, 3), st.booleans(), XF).map(list), n=300)
def circles(s, cx):
    c, r, f, reverse, xf = s
    m = mk.mat(xf)
    k = math.sqrt(abs(ref.det(m)))
    rr = r*k
    d = -f*min(rr, 25)  # positive distances shrink; well below the displacement cap
    cps = make_ellipse_cps(Point(*c), r)
    cps = ControlPoint.reverse_list(cps) if reverse else cps
    e = ElemCurve('c', mk.penbrush(['red', None] and [['red', 1], None]), cps, True, mk.xform(xf))
    off = e.offset(d)
    cx.nt(d != 0)
    center = ref.ap(m, c)
    tol = 1e-9*(mag(c) + rr + abs(d))*(1 + k) + 1e-9*ref.shift(m)
    for cp in off.control_points:
        near(math.dist(cp.c.xy(), center), rr - d, tol, 'control point on the concentric circle')
    pts = ref.path_of([mk.real_abs(x) for x in off.control_points], True, 16)
    for p in pts:
        near(math.dist(p, center), rr - d, 0.08*abs(d) + 4e-4*(rr + abs(d)) + tol, 'concentric circle')
    same(len(off.control_points), len(cps), 'control points')


@R.facet(st.tuples(gen.fl(10, 60), gen.fl(10, 60), gen.fl(0.1, 3), st.booleans(), gen.xform(40, 2)).map(list), n=250)
def smooth_convex(s, cx):
    """Every on-curve point moves along the normal by the distance; area shrinks one way and grows the other"""
    rx, ry, d, reverse, xf = s
    cps = make_ellipse_cps(Point(3, -2), rx, ry)
    cps = ControlPoint.reverse_list(cps) if reverse else cps
    e = ElemCurve('c', mk.penbrush([['red', 1], None]), cps, True, mk.xform(xf))
    m = mk.mat(xf)
    base = [tuple(ref.ap(m, q) for q in mk.real_abs(c)) for c in cps]
    # distance small against the smallest radius of curvature
    smin = abs(ref.det(m))/ref.norm(m)
    d = d*min(1.0, 0.05*smin*min(rx, ry)**2/max(rx, ry)/3)
    cx.nt(d > 1e-6)
    area = abs(ref.bez_area(ref.segs_of(base, True)))
    center = ref.ap(m, (3, -2))
    tol = 1e-8*mk.big(dict(k='curve', xf=xf, cps=[[list(c), [l[0]-c[0], l[1]-c[1]], [0, 0], '']
                                                  for c, l, r in [mk.real_abs(c) for c in cps]]))
    for sign in (1, -1):
        off = e.offset(sign*d)
        got = [mk.real_abs(c) for c in off.control_points]
        a = abs(ref.bez_area(ref.segs_of(got, True)))
        if d > 1e-6*(rx+ry):
            expect((a < area) == (sign > 0), 'area %r -> %r for distance %r', area, a, sign*d)
        for c, _l, _r in got:
            best = None
            for bc, bl, br in base:
                t = unit((br[0]-bl[0], br[1]-bl[1]))
                nrm = (-t[1], t[0])
                if (center[0]-bc[0])*nrm[0] + (center[1]-bc[1])*nrm[1] < 0:
                    nrm = (-nrm[0], -nrm[1])
                w = (bc[0] + nrm[0]*d*sign, bc[1] + nrm[1]*d*sign)
                best = math.dist(w, c) if best is None else min(best, math.dist(w, c))
            expect(best <= tol, 'control point %r is %r away from the parallel position', c, best)


@R.facet(st.tuples(gen.one_of(polygon().map(poly_cps), gen.cps(3, 6)), st.booleans(), XF, DIST).map(list), n=250)
def zero_and_orientation(s, cx):
    """Distance zero keeps the shape; the direction of drawing does not matter"""
    cps, reverse, xf, d = s
    e = curve(cps, reverse, xf)
    cx.nt(d != 0)
    m = mk.mat(xf)
    base = [tuple(ref.ap(m, q) for q in mk.cp_abs(c)) + (c[3],) for c in cps]
    tol = 1e-9*(1 + max(abs(v) for b in base for p in b[:3] for v in p))
    match(real(e.offset(0)), [tuple(ref.ap(m, q) for q in c[:3]) + (c[3],) for c in real(e)], tol, 'order of the points at distance zero', in_order=True)
    match(real(e.offset(0)), base, tol, 'distance zero')
    area = ref.shoelace([p for c, l, r, _k in base for p in (l, c, r)])
    if abs(area) > 1e-6:
        a, b = curve(cps, False, xf).offset(d), curve(cps, True, xf).offset(d)
        match(real(a), real(b), 1e-7*(mag([list(x[0]) for x in real(b)]) + 10), 'orientation')


@R.facet(st.tuples(gen.elem_curve(closed=True, lo=3), DIST).map(list), n=200)
def bookkeeping(s, cx):
    spec, d = s
    e = mk.elem(spec)
    was = mk.state(e)
    off = e.offset(d)
    cx.nt(d != 0)
    same(mk.state(e), was, 'the original')
    same(off.closed, True, 'closed')
    same(sorted(c.kind for c in off.control_points), sorted(c[3] for c in spec['cps']), 'kinds')
    same(off.penbrush, e.penbrush, 'style')
    for c in off.control_points:
        c.c.setxy(1e5, 1e5)
    same(mk.state(e), was, 'the original after edits of the offset curve')


@R.facet(st.tuples(polygon(9, 24), DIST, st.booleans(), XF).map(list), n=60)
def big_polygons(s, cx):
    """Many corners"""
    polygons(s, cx)


@R.facet(st.tuples(polygon(), DIST, st.booleans(), XF, st.sampled_from([1e-6, 1e-4, 1e-2, 3, 1e2])).map(list), n=80)
def sizes(s, cx):
    """Very small and very large polygons (as long as the displacements are not capped)"""
    poly, d, reverse, xf, f = s
    with size_unit(f):
        polygons([[[[v*f for v in p] for p in poly[0]]] + poly[1:], d*min(f, 3), reverse, mk.scaled_ops(xf, f)], cx)
    cx.label('%g' % f)


@R.facet(st.tuples(gen.elem_curve(closed=True, lo=3), DIST, edits.EDITS).map(list), n=200)
def edited_between(v, cx):
    """The curve as it is now is what is offset"""
    spec, dist, eds = v

    def ask(e):
        try:
            return mk.state(e.offset(dist))
        except (ZeroDivisionError, ValueError) as err:
            return type(err).__name__
    e = mk.elem(spec)
    cx.nt(edits.asked_again(e, eds, [ask], 'offset'))
    was, first = mk.state(e), ask(e)
    if isinstance(first, tuple):
        o = e.offset(dist)
        for c in o.control_points:
            c.c.setxy(1, 2)
            c.dl.setxy(3, 4)
            c.dr.setxy(5, 6)
            c.kind = 'sharp'
        o.xform.scale(2, 2)
        same(mk.state(e), was, 'the curve after its offset was edited')
        same(ask(e), first, 'offset again')
