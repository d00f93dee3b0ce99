"""C06: line queries"""
from fractions import Fraction as F
import math
from hypothesis import strategies as st
from x7.geom.geom import Line, Point, PointRelative, Vector, ParallelLineError, BBox
from harness import gen, ref
from harness.core import Registry, expect, near, near_xy, same, raises, mag, fail, unit, UNIT

R = Registry('C06', 'Lines and segments with non-zero direction (integers on a small grid so that end-point hits, '
             'T-junctions, axis-aligned and parallel pairs are frequent and decided exactly with rationals; arbitrary '
             'floats with a margin). Non-trivial: the two lines are not parallel / the point is off the line.')

I = st.integers(-6, 6)
IP = st.tuples(I, I).map(list)
ISEG = st.tuples(IP, IP).map(list).filter(lambda s: s[0] != s[1])
FP = gen.xy(500)
FSEG = st.tuples(FP, FP).map(list).filter(lambda s: math.dist(*s) > 0.1)


def mk_line(seg, style=0):
    """The same line through three constructors"""
    p, q = Point(*seg[0]), Point(*seg[1])
    if style == 0:
        return Line(p, q)
    if style == 1:
        return Line.from_pts(p, q)
    if style == 2:
        return Line(p, Vector(seg[1][0]-seg[0][0], seg[1][1]-seg[0][1]))
    u = UNIT[0]
    return Line(PointRelative(seg[0][0]-u, seg[0][1]-2*u, Point(u, 2*u)), q)


STYLE = st.integers(0, 3)


def sig(ln):
    return ln.origin.xy(), ln.direction.xy()


@R.facet(st.tuples(FSEG, FP, STYLE, gen.xy(100)).map(list), n=500)
def closest(s, cx):
    seg, pt, style, other = s
    ln = mk_line(seg, style)
    (x1, y1), (x2, y2) = seg
    dx, dy = x2-x1, y2-y1
    length = math.hypot(dx, dy)
    p = Point(*pt)
    was = sig(ln)
    got = ln.closest(p)
    expect(isinstance(got, Point), 'a point')
    m = mag(seg, pt)
    tol = 1e-10*m*m/length + 1e-10*m
    off = abs((pt[0]-x1)*dy - (pt[1]-y1)*dx)/length
    cx.nt(off > 1e-3)
    near((got.x-x1)*dy/length - (got.y-y1)*dx/length, 0, tol, 'on the line')
    near(math.dist(got.xy(), pt), off, tol, 'at the perpendicular distance')
    t = ((pt[0]-x1)*dx + (pt[1]-y1)*dy)/(length*length)
    near_xy(got.xy(), (x1+t*dx, y1+t*dy), tol, 'foot of the perpendicular')
    # no other point of the line is nearer
    for k in (-2.0, -0.5, 0.25, 0.5, 0.75, 1.0, 3.0, t + 1e-3, t - 1e-3):
        expect(math.dist(got.xy(), pt) <= math.dist((x1+k*dx, y1+k*dy), pt) + tol, 'nearer than parameter %r', k)
    near_xy(mk_line(seg[::-1], style).closest(p).xy(), got.xy(), 4*tol, 'direction does not matter')
    near_xy(ln.closest(got).xy(), got.xy(), 4*tol, 'idempotent')
    near_xy((ln+Vector(*other)).closest(p+Vector(*other)).xy(), (got+Vector(*other)).xy(), 8*tol + 1e-9, 'translates')
    same(sig(ln), was, 'line unchanged')
    same(p.xy(), tuple(pt), 'point unchanged')


def cross(a, b):
    return ((a[1][0]-a[0][0])*(b[1][1]-b[0][1]) - (a[1][1]-a[0][1])*(b[1][0]-b[0][0]))


@R.facet(st.tuples(gen.one_of(ISEG, FSEG), gen.one_of(ISEG, FSEG), STYLE, STYLE).map(list), n=500)
def intersection(s, cx):
    a, b, sa, sb = s
    la, lb = mk_line(a, sa), mk_line(b, sb)
    was = sig(la), sig(lb)
    c = cross(a, b)
    na, nb = math.dist(*a), math.dist(*b)
    if c == 0 and all(isinstance(v, int) for p in a + b for v in p):
        cx.label('parallel')
        raises(ParallelLineError, lambda: la.intersection(lb), 'parallel')
        expect(la.parallel(lb) and lb.parallel(la), 'parallel')
        return
    if abs(c) < 1e-3*na*nb:
        cx.label('skipped: nearly parallel')
        return
    cx.nt()
    expect(not la.parallel(lb) and not lb.parallel(la), 'not parallel')
    m = mag(a, b)
    tol = 1e-10*m*na*nb/abs(c)*(1 + m/min(na, nb))
    got = la.intersection(lb)
    fa = [[F(v) for v in p] for p in a]
    fb = [[F(v) for v in p] for p in b]
    fc = cross(fa, fb)
    t = ((fb[0][0]-fa[0][0])*(fb[1][1]-fb[0][1]) - (fb[0][1]-fa[0][1])*(fb[1][0]-fb[0][0]))/fc
    want = [float(fa[0][i] + t*(fa[1][i]-fa[0][i])) for i in (0, 1)]
    near_xy(got.xy(), want, tol, 'common point')
    near_xy(lb.intersection(la).xy(), want, tol, 'asked the other way')
    near_xy(mk_line(a[::-1], sa).intersection(lb).xy(), want, tol, 'first reversed')
    near_xy(la.intersection(mk_line(b[::-1], sb)).xy(), want, tol, 'second reversed')
    # a line is the same line however long the vector that gives its direction
    for ka in (1e-7, 1e-3, 50.0):
        small_a, small_b = Line(la.origin, la.direction*ka), Line(lb.origin, lb.direction*ka)
        expect(not small_a.parallel(small_b), 'not parallel with directions times %r', ka)
        near_xy(small_a.intersection(small_b).xy(), want, 10*tol, 'directions scaled')
        near_xy(small_a.closest(lb.origin).xy(), la.closest(lb.origin).xy(), 10*tol + 1e-9*m, 'closest, scaled')
    near_xy(la.closest(got).xy(), got.xy(), tol, 'lies on first')
    near_xy(lb.closest(got).xy(), got.xy(), tol, 'lies on second')
    same((sig(la), sig(lb)), was, 'lines unchanged')


def exact(a, b):
    """None | 'par' | (point, ta, tb) with rationals"""
    a = [[F(v) for v in p] for p in a]
    b = [[F(v) for v in p] for p in b]
    c = cross(a, b)
    if c == 0:
        return 'par'
    ta = ((b[0][0]-a[0][0])*(b[1][1]-b[0][1]) - (b[0][1]-a[0][1])*(b[1][0]-b[0][0]))/c
    tb = ((b[0][0]-a[0][0])*(a[1][1]-a[0][1]) - (b[0][1]-a[0][1])*(a[1][0]-a[0][0]))/c
    if 0 <= ta <= 1 and 0 <= tb <= 1:
        return [a[0][i] + ta*(a[1][i]-a[0][i]) for i in (0, 1)], ta, tb
    return None


def check_segments(a, b, sa, sb, cx, tol, want):
    la, lb = mk_line(a, sa), mk_line(b, sb)
    was = sig(la), sig(lb)
    if want == 'par':
        cx.label('parallel')
        for x, y in ((la, lb), (lb, la)):
            try:
                got = x.segment_intersection(y)
            except ParallelLineError:
                continue
            expect(got is None, 'parallel segments reported crossing at %r', got)
        return
    cx.label('cross' if want else 'miss')
    rev_a, rev_b = mk_line(a[::-1], sa), mk_line(b[::-1], sb)
    for x, y, fx, fy, swap in ((la, lb, 0, 0, 0), (lb, la, 0, 0, 1), (rev_a, lb, 1, 0, 0), (la, rev_b, 0, 1, 0),
                               (rev_a, rev_b, 1, 1, 0), (rev_b, la, 0, 1, 1)):
        got = x.segment_intersection(y)
        what = 'segments %r %r (rev %d %d, swapped %d)' % (a, b, fx, fy, swap)
        if want is None:
            expect(got is None, '%s: reported %r, they share no point', what, got)
            continue
        expect(got is not None, '%s: crossing at %r not reported', what, [float(v) for v in want[0]])
        p, t1, t2 = got
        ta, tb = (t2, t1) if swap else (t1, t2)
        pt, wa, wb = want
        near_xy(p.xy(), [float(v) for v in pt], tol, what + ' point')
        expect(0 <= ta <= 1 and 0 <= tb <= 1, '%s: parameters %r %r', what, ta, tb)
        near(ta, float(1-wa if fx else wa), tol, what + ' t of first')
        near(tb, float(1-wb if fy else wb), tol, what + ' t of second')
        for ln, t in ((rev_a if fx else la, ta), (rev_b if fy else lb, tb)):
            near_xy((ln.origin + ln.direction*t).xy(), p.xy(), tol, what + ' evaluates to the point')
    same((sig(la), sig(lb)), was, 'segments unchanged')


@R.facet(st.tuples(ISEG, ISEG, STYLE, STYLE).map(list), n=1200)
def segments_grid(s, cx):
    a, b, sa, sb = s
    want = exact(a, b)
    cx.nt(want is not None and want != 'par')
    if want not in (None, 'par'):
        cx.label('end point hit', want[1] in (0, 1) or want[2] in (0, 1))
        cx.label('axis-aligned', a[0][0] == a[1][0] or a[0][1] == a[1][1])
    check_segments(a, b, sa, sb, cx, 1e-12*50, want)


@R.facet(st.tuples(IP, IP.filter(lambda v: v != [0, 0]), st.integers(1, 8), st.integers(0, 8),
                   IP.filter(lambda v: v != [0, 0]), st.integers(0, 5), st.integers(1, 5),
                   st.sampled_from([0.25, 0.5, 1, 8, 64])).map(list), n=600)
def segments_constructed(s, cx):
    """b passes through (or ends at) a lattice point of a, including both ends"""
    o, d, n, j, e, before, after, k = s
    a = [[k*o[0], k*o[1]], [k*(o[0]+n*d[0]), k*(o[1]+n*d[1])]]
    hx, hy = o[0]+j*d[0], o[1]+j*d[1]
    b = [[k*(hx-before*e[0]), k*(hy-before*e[1])], [k*(hx+after*e[0]), k*(hy+after*e[1])]]
    want = exact(a, b)
    if want != 'par':
        expect((want is not None) == (j <= n), 'harness')
    cx.nt(want not in (None, 'par'))
    cx.label('T or end', before == 0 or j in (0, n))
    check_segments(a, b, 0, 0, cx, 1e-11*(1+100*k), want)


@R.facet(st.tuples(FSEG, FSEG, STYLE, STYLE).map(list), n=500)
def segments_float(s, cx):
    a, b, sa, sb = s
    c = cross(a, b)
    na, nb = math.dist(*a), math.dist(*b)
    if abs(c) < 1e-3*na*nb:
        cx.label('skipped: nearly parallel')
        return
    fa = [[F(v) for v in p] for p in a]
    fb = [[F(v) for v in p] for p in b]
    fc = cross(fa, fb)
    ta = ((fb[0][0]-fa[0][0])*(fb[1][1]-fb[0][1]) - (fb[0][1]-fa[0][1])*(fb[1][0]-fb[0][0]))/fc
    tb = ((fb[0][0]-fa[0][0])*(fa[1][1]-fa[0][1]) - (fb[0][1]-fa[0][1])*(fa[1][0]-fa[0][0]))/fc
    m = mag(a, b)
    margin = 1e-11*m*na*nb/abs(c)/min(na, nb)
    if any(abs(t-k) < margin for t in (ta, tb) for k in (0, 1)):
        cx.label('skipped: within rounding of an end')
        return
    want = exact(a, b)
    cx.nt(want is not None)
    check_segments(a, b, sa, sb, cx, 1e-10*m*na*nb/abs(c)*(1+m/min(na, nb)), want)


@R.facet(st.tuples(FSEG, gen.xy(200), STYLE).map(list), n=300)
def parts(s, cx):
    seg, v, style = s
    ln = mk_line(seg, style)
    was = sig(ln)
    p, q = seg
    tol = 1e-12*mag(s)
    cx.nt(v != [0, 0])
    near_xy(ln.p1.xy(), p, tol, 'p1')
    near_xy(ln.p2.xy(), q, tol, 'p2')
    near_xy(ln.midpoint.xy(), ((p[0]+q[0])/2, (p[1]+q[1])/2), tol, 'midpoint')
    near(math.dist(ln.midpoint.xy(), p), math.dist(ln.midpoint.xy(), q), 8*tol, 'midpoint is as far from both ends')
    for sign, moved in ((1, ln + Vector(*v)), (-1, ln - Vector(*v))):
        expect(isinstance(moved, Line), 'a line')
        near_xy(moved.p1.xy(), (p[0]+sign*v[0], p[1]+sign*v[1]), tol, 'translated p1')
        near_xy(moved.p2.xy(), (q[0]+sign*v[0], q[1]+sign*v[1]), tol, 'translated p2')
        expect(moved.parallel(ln) or abs(moved.direction.cross(ln.direction)) <= tol*mag(s), 'translation is parallel')
    box = ln.segment_bbox()
    w = ref.box([p, q])
    near_xy(box.p1.xy(), w[:2], tol, 'box low')
    near_xy(box.p2.xy(), w[2:], tol, 'box high')
    expect(ln.parallel(ln), 'parallel to itself')
    expect(Line(ln.origin, ln.direction) == ln, 'equal to a line of the same parts')
    expect(not (Line(ln.origin + Vector(1, 0), ln.direction) == ln), 'differs from a moved line')
    expect(isinstance(box, BBox), 'box')
    same(sig(ln), was, 'line unchanged')


def times(v, f):
    """All numbers of a spec times f"""
    return [times(x, f) for x in v] if isinstance(v, (list, tuple)) else v*f


@R.facet(st.tuples(FSEG, FSEG, FP, gen.xy(100), STYLE, STYLE, st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=200)
def sizes(s, cx):
    """Very small and very large lines"""
    a, b, p, other, sa, sb, f = s
    a, b, p, other = times(a, f), times(b, f), times(p, f), times(other, f)
    with unit(f):
        closest([a, p, sa, other], cx)
        intersection([a, b, sa, sb], cx)
        segments_float([a, b, sa, sb], cx)
    cx.label('%g' % f)
