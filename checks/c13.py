"""C13: splitting curves and adding control points never change the drawn shape"""
import math
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector, PointRelative, VectorRelative
from x7.geom.bezier import bez_split, ControlPoint
from harness import gen, mk, ref
from harness.core import Registry, Violation, expect, near, near_xy, near_pts, same, mag, fail, unit

R = Registry('C13', 'Control-point pairs split at any parameter in 0..1 (and default), split results split again; curve '
             'elements of 2..6 points, open and closed, with own transforms, given 1..6 extra points; shape compared '
             'segment by segment with the Bernstein polynomial. Non-trivial: the handles are not all zero and 0<t<1 / '
             'the curve has a non-degenerate segment.')

T = gen.one_of(st.sampled_from([0.5, 0.25, 0.75, 0, 1]), gen.fl(0, 1))


def seg(a, b):
    (c0, _l, r0), (c1, l1, _r) = mk.real_abs(a), mk.real_abs(b)
    return c0, r0, l1, c1


@R.facet(st.tuples(gen.cp(), gen.cp(), gen.one_of(st.none(), T), T).map(list), n=700)
def split(s, cx):
    sa, sb, t, t2 = s
    a, b = mk.cp(sa), mk.cp(sb)
    was = repr((a, b))
    l, m, r = bez_split(a, b) if t is None else bez_split(a, b, t)
    t = 0.5 if t is None else t
    cx.nt(0 < t < 1 and any(sa[2]) and any(sb[1]))
    orig = seg(a, b)
    tol = 1e-12*mag(s)
    near_xy(m.c.xy(), ref.bern(*orig, t), tol, 'meets at the point for t')
    near_xy(l.c.xy(), sa[0], tol, 'left end')
    near_xy(r.c.xy(), sb[0], tol, 'right end')
    for u in (0.1, 0.25, 0.5, 0.7, 0.9):
        near_xy(ref.bern(*seg(l, m), u), ref.bern(*orig, u*t), tol, 'left half at %r' % u)
        near_xy(ref.bern(*seg(m, r), u), ref.bern(*orig, t + u*(1-t)), tol, 'right half at %r' % u)
    near_xy(l.dl.xy(), sa[1], tol, 'outer handle of the left end')
    near_xy(r.dr.xy(), sb[2], tol, 'outer handle of the right end')
    # continuous tangent: both inner handles along the derivative
    dx, dy = ref.bern_d(*orig, t)
    near_xy(m.dl.xy(), (-dx*t/3, -dy*t/3), tol, 'incoming handle')
    near_xy(m.dr.xy(), (dx*(1-t)/3, dy*(1-t)/3), tol, 'outgoing handle')
    for n, cp in (('left', l), ('right', r)):
        expect(cp is not a and cp is not b, '%s is a new control point', n)
    same(repr((a, b)), was, 'inputs')
    same([cp.kind == 'sharp' for cp in (l, r)], [sa[3] == 'sharp', sb[3] == 'sharp'], 'sharp ends stay sharp')
    for n, cp, h in (('left', l, sa), ('right', r, sb)):
        if cp.kind == 'very-smooth' and math.hypot(*h[1]) > 0 and abs(math.hypot(*h[1]) - math.hypot(*h[2])) <= 1e-9:
            near(cp.dl.length(), cp.dr.length(), 1e-9 + tol, 'handles of the very smooth %s end' % n)
    # a second split, of the right half
    _l2, m2, _r2 = bez_split(m, r, t2)
    near_xy(m2.c.xy(), ref.bern(*orig, t + t2*(1-t)), 4*tol, 'split of the split')


def seg_ok(old, one, two, t, tol):
    for u in (0.2, 0.5, 0.8):
        for got, want in ((ref.bern(*one, u), ref.bern(*old, u*t)), (ref.bern(*two, u), ref.bern(*old, t+u*(1-t)))):
            if math.dist(got, want) > tol:
                return False
    return True


def solve_t(old, p):
    """Parameter of the point of a segment nearest to p"""
    best = min(range(401), key=lambda k: math.dist(ref.bern(*old, k/400), p))/400
    lo, hi = max(0, best-1/400), min(1, best+1/400)
    for _ in range(100):
        a, b = lo+(hi-lo)/3, hi-(hi-lo)/3
        if math.dist(ref.bern(*old, a), p) < math.dist(ref.bern(*old, b), p):
            hi = b
        else:
            lo = a
    return (lo+hi)/2


def segs(cps, closed):
    return [seg(a, b) for a, b in zip(cps, cps[1:] + (cps[:1] if closed else []))]


def check_insert(old, new, closed, tol):
    """new is old with one point added without changing the shape; returns the index"""
    n = len(old)
    same(len(new), n+1, 'number of control points')
    oldc = [cp[0] for cp in old]
    newc = [cp[0] for cp in new]
    why = 'no inserted point: %r -> %r' % (oldc, newc)
    os = [(a[0], a[2], b[1], b[0]) for a, b in zip(old, old[1:] + (old[:1] if closed else []))]
    for i in range(n+1):
        rest = newc[:i] + newc[i+1:]
        if any(math.dist(p, q) > tol for p, q in zip(rest, oldc)):
            continue
        if not closed and i in (0, n):
            why = 'point added beyond the end of an open curve'
            continue
        j = (i-1) % n       # segment that was split
        a, m, b = new[i-1], new[i], new[(i+1) % (n+1)]
        one, two = (a[0], a[2], m[1], m[0]), (m[0], m[2], b[1], b[0])
        if not (seg_ok(os[j], one, two, 0.5, tol) or seg_ok(os[j], one, two, solve_t(os[j], m[0]), 1e-5*mag(list(m[0])))):
            why = 'segment %d does not trace the same curve after the split: %r -> %r %r' % (j, os[j], one, two)
            continue
        ns = [(p[0], p[2], q[1], q[0]) for p, q in zip(new, new[1:] + (new[:1] if closed else []))]
        # all other segments as before
        left = [x for k, x in enumerate(ns) if k not in ((i-1) % (n+1), i)]
        if i == 0:
            left = ns[1:n]
        keep = [x for k, x in enumerate(os) if k != j]
        bad = [k for k, (x, y) in enumerate(zip(left, keep)) if any(math.dist(p, q) > tol for p, q in zip(x, y))]
        if bad or len(left) != len(keep):
            why = 'another segment changed: %r -> %r' % (keep, left)
            continue
        if not closed and (math.dist(new[0][1], old[0][1]) > tol or math.dist(new[-1][2], old[-1][2]) > tol):
            why = 'outer handle of an end changed'
            continue
        return i
    fail('%s', why)


@R.facet(st.tuples(gen.one_of(gen.elem_curve('any', lo=2, hi=6), gen.elem_curve('any', lo=7, hi=13)), st.integers(1, 6)).map(list), n=400)
def add_one(s, cx, names=()):
    spec, times = s
    e = mk.elem(spec)
    for i, (how, name) in enumerate(names):
        c = e.control_points[i % len(e.control_points)]
        x, y = c.c.xy()
        c.c = Point(x, y, name) if how == 'named' else PointRelative(0, 0, Point(x, y), name)
    tol = 1e-10*mag(spec['cps'])
    closed = spec['closed']
    cx.nt(any(c[0] != spec['cps'][0][0] for c in spec['cps']))
    cx.label('closed', closed)
    pb, xf = e.penbrush, e.xform.as_6tuple()
    original = e.copy()
    first = segs(e.control_points, closed)
    d = mk.dc(ppc=4)
    start = mk.paths_sig(e, d)
    old = [mk.real_abs(c) for c in e.control_points]
    kinds = [c.kind for c in e.control_points]
    for k in range(times):
        e.add_one()
        new = [mk.real_abs(c) for c in e.control_points]
        nk = [c.kind for c in e.control_points]
        i = check_insert(old, new, closed, tol)
        same(['sharp' == x for x in nk[:i] + nk[i+1:]], ['sharp' == x for x in kinds], 'kinds of the old points')
        old, kinds = new, nk
    same((e.name, e.closed, e.xform.as_6tuple()), (spec['name'], closed, xf), 'name, closedness and transform')
    expect(e.penbrush == pb, 'style')
    same([mk.real_abs(c) for c in original.control_points], [mk.real_abs(c) for c in mk.elem(spec).control_points], 'copy taken before')
    # end points of what is drawn
    end = mk.paths_sig(e, d)
    same(len(end), 1, 'one path')
    (p1, c1, pts1), (p2, c2, pts2) = start[0], end[0]
    same(c2, c1, 'closedness of the path')
    same(len(pts2), len(pts1) + 4*times, 'points of the path')
    m = mk.mat(spec['xf'])
    ptol = 1e-6*(1+ref.norm(m)*mag(spec['cps'])*2+ref.shift(m))
    if not closed:
        near_xy(pts2[0], pts1[0], ptol, 'first drawn point')
        near_xy(pts2[-1], pts1[-1], ptol, 'last drawn point')
    # all drawn corner points still are on the path
    for p in pts1[::4]:
        expect(min(math.dist(p, q) for q in pts2) <= ptol, 'joint %r is no longer drawn', p)
    # total length and area are kept
    def length(ss):
        return sum(ref.poly_len(ref.sample(x, 80)) for x in ss)
    ll = length(first)
    near(length(segs(e.control_points, closed)), ll, 5e-3*ll + 1e-6, 'traced length')
    if closed:
        a = ref.bez_area(first)
        near(ref.bez_area(segs(e.control_points, closed)), a, 1e-9*mag(spec['cps'])**2*10, 'enclosed area')


@R.facet(st.tuples(gen.elem_curve('any', closed=True, lo=1, hi=1), st.integers(1, 5)).map(list), n=80)
def add_to_one(s, cx):
    """Closed curves of a single control point"""
    add_one(s, cx)
    cx.nt(any(math.dist(c, (0, 0)) > 1e-6 for c in s[0]['cps'][0][1:3]))


@R.facet(st.tuples(gen.elem_curve('any', lo=2, hi=5), st.integers(1, 4), st.lists(
    st.tuples(st.sampled_from(['named', 'named', 'relative']), st.sampled_from(['q', 'x', '', None])).map(list),
    min_size=1, max_size=5)).map(list), n=100)
def named(s, cx):
    """Curves through named and relative points"""
    add_one(s[:2], cx, s[2])


@R.facet(st.tuples(gen.long_curve(), st.integers(1, 12)).map(list), n=40)
def add_many(s, cx):
    """Curves of many control points, many times"""
    add_one(s, cx)


@R.facet(st.tuples(gen.elem_curve('any', lo=2, hi=6), st.integers(1, 3), gen.cp(), gen.cp(), T, st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=80)
def sizes(s, cx):
    """Very small and very large curves"""
    spec, times, a, b, t, f = s
    spec = mk.scaled(spec, f)
    ab = [[[v*f for v in c], [v*f for v in dl], [v*f for v in dr], k] for c, dl, dr, k in (a, b)]
    with unit(f):
        split(ab + [t, 0.5], cx)
        add_one([spec, times], cx)
    cx.label('%g' % f)
