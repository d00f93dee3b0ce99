"""C14: curve intersections are real and obvious crossings are found"""
import contextlib
import io
import math
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector
from x7.geom.bezier import bez_intersect, ControlPoint
from harness import gen, mk, ref
from harness.core import Registry, expect, near, near_xy, near_pts, same, mag, fail

R = Registry('C14', 'Pairs of cubic segments: provably single-crossing (two Lipschitz graphs over perpendicular axes, '
             'rotated and moved), hulls separated by a line, sharing only a consecutive end point, and arbitrary pairs '
             'whose 48-gon samplings show transversal crossings. Non-trivial: at least one crossing expected, or the '
             'boxes of separated curves overlap.')


def quiet(fn, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = fn(*a, **k)
    return got, 'WARNING' in out.getvalue()


def cps_of(pts, extra):
    """Two control points whose segment is pts; the outer handles are irrelevant"""
    a = ControlPoint(Point(*pts[0]), Vector(*extra), Vector(pts[1][0]-pts[0][0], pts[1][1]-pts[0][1]))
    b = ControlPoint(Point(*pts[3]), Vector(pts[2][0]-pts[3][0], pts[2][1]-pts[3][1]), Vector(*extra))
    return a, b


def seg_of(a, b):
    """The segment as the code under test sees it"""
    (c0, _l, r0), (c1, l1, _r) = mk.real_abs(a), mk.real_abs(b)
    return c0, r0, l1, c1


def query(a, b, endpoints, tol, what):
    """All result forms; checks that the answers are real; returns [(pt, ta, tb)]"""
    was = repr((a, b))
    params, gave_up = quiet(bez_intersect, *a, *b, endpoints=endpoints)
    pts, _ = quiet(bez_intersect, *a, *b, as_points=True, endpoints=endpoints)
    same(repr((a, b)), was, 'arguments')
    if not pts:
        same(len(params), 0, '%s: parameters without points' % what)
        return [], gave_up
    same(len(params), 2, '%s: two rows' % what)
    same((len(params[0]), len(params[1])), (len(pts), len(pts)), '%s: as many parameters as points' % what)
    sa, sb = seg_of(*a), seg_of(*b)
    out = []
    for p, ta, tb in zip(pts, *params):
        expect(isinstance(p, Point), 'a Point')
        expect(0 <= ta <= 1 and 0 <= tb <= 1, '%s: parameters %r %r', what, ta, tb)
        near_xy(ref.bern(*sa, ta), p.xy(), tol, what + ': first curve at its parameter')
        near_xy(ref.bern(*sb, tb), p.xy(), tol, what + ': second curve at its parameter')
        if not endpoints:
            expect((ta, tb) not in ((1, 0), (0, 1)), '%s: shared consecutive end point reported', what)
        out.append((p.xy(), ta, tb))
    return out, gave_up


def graph(v, lip=0.85):
    """Control points of a function graph over -10..10: x increasing, slopes of the control polygon below lip"""
    x1, x2, y0, s1, s2, s3 = v
    xs = [-10.0, -10+20*x1, -10+20*x2, 10.0]
    ys = [y0]
    for s, a, b in zip((s1, s2, s3), xs, xs[1:]):
        ys.append(ys[-1] + lip*s*(b-a))
    return list(zip(xs, ys))


GR = st.tuples(gen.fl(0.1, 0.45), gen.fl(0.55, 0.9), gen.fl(-1, 1), gen.fl(-1, 1), gen.fl(-1, 1), gen.fl(-1, 1)).map(list)


def bisect_cross(fa, fb):
    """Parameters of the unique crossing of a graph over x and a graph over y (contraction)"""
    def at(seg, axis, v):
        lo, hi = 0.0, 1.0
        for _ in range(70):
            mid = (lo+hi)/2
            if ref.bern(*seg, mid)[axis] < v:
                lo = mid
            else:
                hi = mid
        return (lo+hi)/2
    # g(x) = x - fb.x(at y = fa.y(at x)) is increasing
    lo, hi = -10.0, 10.0
    for _ in range(70):
        x = (lo+hi)/2
        ta = at(fa, 0, x)
        y = ref.bern(*fa, ta)[1]
        if abs(y) > 10:
            return None
        tb = at(fb, 1, y)
        if x - ref.bern(*fb, tb)[0] < 0:
            lo = x
        else:
            hi = x
    return ta, tb


@R.facet(st.tuples(GR, GR, gen.xform_similarity(50), gen.xform_similarity(50), gen.xy(20), st.integers(0, 3)).map(list), n=120)
def single_crossing(s, cx):
    va, vb, xf, again, extra, rev = s
    # general position: no crossing at a subdivision point with boxes that only touch there
    fa = [(x, y/4 + 0.0123) for x, y in graph(va)]
    fb = [(y/4 + 0.0171, x) for x, y in graph(vb)]
    hit = bisect_cross(fa, fb)
    if hit is None:
        cx.label('skipped')
        return
    ta, tb = hit
    if min(ta, tb, 1-ta, 1-tb) < 0.01:
        cx.label('skipped: crossing near an end')
        return
    cx.nt()
    m = ref.mul(mk.mat(xf), ref.rot(7.3))
    a, b = ref.ap_list(m, fa), ref.ap_list(m, fb)
    if rev & 1:
        a, ta = a[::-1], 1-ta
    if rev & 2:
        b, tb = b[::-1], 1-tb
    tol = 1e-7*mag(a, b)
    ca, cb = cps_of(a, extra), cps_of(b, [0, 0])
    for ends in (False, True):
        got, _ = query(ca, cb, ends, tol, 'single crossing')
        same(len(got), 1, 'number of crossings reported for %r %r' % (a, b))
        near(got[0][1], ta, 1e-7, 'parameter on the first')
        near(got[0][2], tb, 1e-7, 'parameter on the second')
    back, _ = query(cb, ca, False, tol, 'exchanged')
    same(len(back), 1, 'exchanged: number of crossings')
    near(back[0][1], tb, 1e-7, 'exchanged: parameter on the first')
    near(back[0][2], ta, 1e-7, 'exchanged: parameter on the second')
    m2 = mk.mat(again)
    got2, _ = query(cps_of(ref.ap_list(m2, a), extra), cps_of(ref.ap_list(m2, b), extra), False, 1e-7*mag(a, b)*20, 'moved')
    same(len(got2), 1, 'moved: number of crossings')
    near_xy(got2[0][0], ref.ap(m2, got[0][0]), 1e-6*mag(a, b)*10, 'moved point')


ANY = st.lists(gen.xy(50), min_size=4, max_size=4)


def general(pts, k):
    """
    General position: fixed irregular displacements, so that curves are neither single points nor partly coincident
    (for which the bezier library raises or answers NaN)
    """
    return [(p[0] + 1.7*math.sin(3.1*i + 1.3*k + 0.7), p[1] + 1.9*math.cos(2.3*i*i + 0.9*k)) for i, p in enumerate(pts)]


@R.facet(st.tuples(ANY, ANY,
                   gen.angle(), gen.fl(0.01, 5), gen.xy(20)).map(list), n=120)
def disjoint(s, cx):
    a, b, deg, gap, extra = s
    a, b = general(a, 0), general(b, 5)
    u = (math.cos(math.radians(deg)), math.sin(math.radians(deg)))
    hi = max(p[0]*u[0]+p[1]*u[1] for p in a)
    lo = min(p[0]*u[0]+p[1]*u[1] for p in b)
    k = hi - lo + gap
    b = [(p[0]+k*u[0], p[1]+k*u[1]) for p in b]
    ba, bb = ref.box(a), ref.box(b)
    over = ba[0] < bb[2] and bb[0] < ba[2] and ba[1] < bb[3] and bb[1] < ba[3]
    cx.nt(over)
    cx.label('boxes overlap', over)
    for x, y in ((a, b), (b, a)):
        for ends in (False, True):
            got, _ = query(cps_of(x, extra), cps_of(y, [0, 0]), ends, 1e-6*mag(a, b), 'disjoint')
            same(got, [], 'crossings of curves with disjoint hulls %r %r' % (x, y))


HALF = st.tuples(gen.fl(0.5, 30), gen.fl(-30, 30)).map(list)


@R.facet(st.tuples(st.lists(HALF, min_size=3, max_size=3), st.lists(HALF, min_size=3, max_size=3), gen.xy(20),
                   st.integers(0, 3), st.booleans()).map(list), n=120)
def consecutive(s, cx):
    """a lies left of its end point, b right of it and starts there: they meet at that point only"""
    la, lb, o, quarter, swap = s
    def turn(p):
        x, y = p
        for _ in range(quarter):
            x, y = -y, x
        return x + o[0], y + o[1]
    joint = Point(o[0], o[1])
    a = [turn((-la[0][0], la[0][1])), turn((-la[1][0], la[1][1])), turn((-la[2][0], la[2][1])), (o[0], o[1])]
    b = [(o[0], o[1]), turn(lb[0]), turn(lb[1]), turn(lb[2])]
    ca, cb = cps_of(a, [1, 2]), cps_of(b, [3, 1])
    ca = (ca[0], ControlPoint(joint, ca[1].dl, cb[0].dr))
    cb = (ca[1], cb[1])
    cx.nt()
    tol = 1e-7*mag(a, b)
    first, second = (cb, ca) if swap else (ca, cb)
    got, gave_up = query(first, second, False, tol, 'consecutive')
    same(got, [], 'end points excluded: %r %r' % (a, b))
    got, gave_up = query(first, second, True, tol, 'consecutive, with end points')
    if gave_up:
        cx.label('library gave up')
        return
    same(len(got), 1, 'end points included: %r %r' % (a, b))
    near_xy(got[0][0], o, tol, 'joint')
    same(got[0][1:], (0.0, 1.0) if swap else (1.0, 0.0), 'parameters of the joint')


def poly_cross(a, b, n):
    """Transversal crossings of n-gon samplings: [(point, angle sine, margin)]"""
    pa, pb = ref.sample(a, n), ref.sample(b, n)
    out = []
    for i in range(n):
        x1, y1 = pa[i]
        dx, dy = pa[i+1][0]-x1, pa[i+1][1]-y1
        na = math.hypot(dx, dy)
        for j in range(n):
            x2, y2 = pb[j]
            ex, ey = pb[j+1][0]-x2, pb[j+1][1]-y2
            c = dx*ey-dy*ex
            nb = math.hypot(ex, ey)
            if c == 0:
                continue
            t = ((x2-x1)*ey-(y2-y1)*ex)/c
            u = ((x2-x1)*dy-(y2-y1)*dx)/c
            if 0.2 <= t <= 0.8 and 0.2 <= u <= 0.8:
                out.append(((x1+t*dx, y1+t*dy), abs(c)/(na*nb), min(na, nb), (i+t)/n, (j+u)/n))
    return out


def dev(seg, n):
    """Bound on the distance between the curve and its n-gon"""
    d2 = max(math.hypot(seg[i][0]-2*seg[i+1][0]+seg[i+2][0], seg[i][1]-2*seg[i+1][1]+seg[i+2][1]) for i in (0, 1))
    return 6*d2/8/n/n


@R.facet(st.tuples(ANY, ANY).map(list), n=150)
def arbitrary(s, cx):
    a, b = general(s[0], 0), general(s[1], 5)
    n = 48
    tol = 1e-6*mag(a, b)
    ca, cb = cps_of(a, [1, 1]), cps_of(b, [2, 2])
    got, gave_up = query(ca, cb, True, tol, 'arbitrary')
    plain, _ = query(ca, cb, False, tol, 'arbitrary without end points')
    same([g for g in got if g[1:] not in ((1, 0), (0, 1))], plain, 'excluding end points drops nothing else')
    if gave_up:
        cx.label('library gave up')
        return
    d = dev(a, n) + dev(b, n)
    sure = 0
    for p, sine, ln, ta, tb in poly_cross(a, b, n):
        # proper crossing of the polygons, well inside both edges, at a good angle: the curves cross nearby
        if sine < 0.5 or ln < 20*d or ln < 1e-3:
            continue
        sure += 1
        expect(any(math.dist(g[0], p) <= 10*d + tol and abs(g[1]-ta) < 2/n and abs(g[2]-tb) < 2/n for g in got),
               'crossing near %r (parameters %.4f %.4f) not reported: %r', p, ta, tb, got)
    cx.nt(sure)
    cx.label('crossings: %d' % min(sure, 3))
    back, gave_up = query(cb, ca, True, tol, 'exchanged')
    if sure and len(got) == sure and not gave_up:
        same(len(back), len(got), 'exchanged: number of crossings')
        for g in got:
            expect(any(math.dist(g[0], h[0]) <= tol*10 and abs(g[1]-h[2]) < 1e-5 and abs(g[2]-h[1]) < 1e-5 for h in back),
                   'exchanged: %r missing in %r', g, back)


@R.facet(st.tuples(gen.fl(2, 40), gen.xform_similarity(50), st.integers(0, 1)).map(list), n=30)
def own_loop(s, cx):
    """A symmetric looping segment, split at its middle, meets itself once besides the joint"""
    w, xf, k = s
    cx.nt()
    pts = [(0, 0), (10+w, 10+w), (-w, 10+w), (10, 0)]
    m = mk.mat(xf)
    seg = ref.ap_list(m, pts)
    if 2 + 3*(2*w+10) / 10 <= 0:
        return
    # halves by de Casteljau
    def mid(p, q):
        return (p[0]+q[0])/2, (p[1]+q[1])/2
    ab, bc, cd = mid(seg[0], seg[1]), mid(seg[1], seg[2]), mid(seg[2], seg[3])
    abc, bcd = mid(ab, bc), mid(bc, cd)
    j = mid(abc, bcd)
    left, right = cps_of([seg[0], ab, abc, j], [0, 0]), cps_of([j, bcd, cd, seg[3]], [0, 0])
    loops = any(True for p in poly_cross([seg[0], ab, abc, j], [j, bcd, cd, seg[3]], 40))
    got, gave_up = query(left, right, False, 1e-6*mag(seg), 'loop')
    if gave_up:
        return
    if loops:
        same(len(got), 1, 'loop crossing')
        near(got[0][1] + got[0][2], 1, 1e-6, 'symmetric parameters')


@R.facet(st.tuples(st.lists(HALF, min_size=3, max_size=3), st.lists(HALF, min_size=3, max_size=3), gen.xy(20),
                   st.integers(0, 3), st.integers(0, 3), gen.small(3)).map(list), n=120)
def common_end(s, cx):
    """Both start (or end) in the same point, on different sides of it: that is reported, they are not consecutive"""
    la, lb, o, quarter, rev, extra = s

    def turn(p):
        x, y = p
        for _ in range(quarter):
            x, y = -y, x
        return x + o[0], y + o[1]
    a = [(o[0], o[1])] + [turn((-x, y)) for x, y in la]
    b = [(o[0], o[1])] + [turn(p) for p in lb]
    want = (0.0, 0.0)
    if rev & 1:
        a, b, want = a[::-1], b[::-1], (1.0, 1.0)
    if rev & 2:
        a, b = b, a
    ca, cb = cps_of(a, [extra, 2]), cps_of(b, [3, extra])
    cx.nt()
    tol = 1e-7*mag(a, b)
    for ends in (False, True):
        got, gave_up = query(ca, cb, ends, tol, 'common end')
        if gave_up:
            cx.label('library gave up')
            return
        same(len(got), 1, 'common end %r %r' % (a, b))
        near_xy(got[0][0], o, tol, 'common end')
        near_xy(got[0][1:], want, 1e-7, 'parameters of the common end')


@R.facet(st.tuples(GR, GR, st.integers(-20, 22), gen.angle(), st.sampled_from([0, 0, 1, 30, 1000]), st.integers(0, 3)).map(list), n=100)
def sizes(s, cx):
    """Small and large curves, also far from the origin: single crossings are found, separated curves do not cross"""
    va, vb, k, ang, far, rev = s
    f = 2.0**k
    fa = [(x, y/4 + 0.0123) for x, y in graph(va)]
    fb = [(y/4 + 0.0171, x) for x, y in graph(vb)]
    hit = bisect_cross(fa, fb)
    if hit is None or min(hit + (1-hit[0], 1-hit[1])) < 0.01:
        cx.label('skipped: crossing near an end')
        return
    ta, tb = hit
    cx.nt(abs(k) > 6 or far > 1)
    cx.label('far', far > 1)
    d = 10*far*f
    rad = math.radians(ang)
    m = ref.mul((1, 0, d*math.cos(rad), 0, 1, d*math.sin(rad)), ref.mul((f, 0, 0, 0, f, 0), ref.rot(ang + 7.3)))
    a, b = ref.ap_list(m, fa), ref.ap_list(m, fb)
    if rev & 1:
        a, ta = a[::-1], 1-ta
    if rev & 2:
        b, tb = b[::-1], 1-tb
    tol = 1e-9*f*(1 + far)
    ca, cb = cps_of(a, [0, 0]), cps_of(b, [0, 0])
    for x, y, wx, wy in ((ca, cb, ta, tb), (cb, ca, tb, ta)):
        got, _ = query(x, y, False, 100*tol, 'single crossing')
        same(len(got), 1, 'number of crossings reported for %r %r' % (a, b))
        near(got[0][1], wx, 1e-7, 'parameter on the first')
        near(got[0][2], wy, 1e-7, 'parameter on the second')
    # moved apart by more than their size
    got, _ = query(ca, cps_of([(x + 41*f, y + 3*f) for x, y in b], [0, 0]), False, tol, 'apart')
    same(got, [], 'crossings of curves apart')


@R.facet(st.tuples(ANY, ANY, gen.one_of(st.integers(-30, -14), st.integers(-13, 22))).map(list), n=250)
def sizes_of_any(s, cx):
    """Curves of any size that cross any number of times: all clear crossings, alike in every form"""
    a, b = general(s[0], 0), general(s[1], 5)
    f, n = 2.0**s[2], 48
    tol = 1e-6*mag(a, b)*f
    got, gave_up = query(cps_of([(x*f, y*f) for x, y in a], [0, 0]), cps_of([(x*f, y*f) for x, y in b], [0, 0]), True, tol, 'any size')
    if gave_up:
        cx.label('library gave up')
        return
    d = dev(a, n) + dev(b, n)
    sure = 0
    for p, sine, ln, ta, tb in poly_cross(a, b, n):
        if sine < 0.5 or ln < 20*d or ln < 1e-3:
            continue
        sure += 1
        expect(any(abs(g[1]-ta) < 2/n and abs(g[2]-tb) < 2/n for g in got),
               'crossing near %r (parameters %.4f %.4f) not reported: %r', p, ta, tb, got)
    cx.nt(sure and abs(s[2]) > 6)
    cx.label('crossings: %d' % min(sure, 3))
