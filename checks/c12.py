"""C12: sampled curves lie exactly on the Bezier curve"""
from hypothesis import strategies as st
from x7.geom.geom import BBox, Point, PointRelative
from x7.geom.bezier import bez, bez_path, ControlPoint
from x7.geom.transform import Transform
from x7.geom.vec_field import Mesh
from harness import gen, mk, ref
from harness.core import Registry, expect, near, near_xy, near_pts, same, mag, unit, UNIT

R = Registry('C12', 'Cubic segments given as points, relative points, tuples or mixtures, 1..100 steps; open and closed '
             'control-point lists of 0..6 points under affine maps and vector fields, compared with the cubic Bernstein '
             'polynomial evaluated by hand. Non-trivial: the control points are not all equal and more than one step.')

SEG = st.lists(gen.xy(300), min_size=4, max_size=4)
STEPS = gen.one_of(st.integers(1, 12), st.integers(1, 100), st.just(20), st.just(80))


def form(pts, style):
    out = []
    for i, p in enumerate(pts):
        k = (style >> (2*i)) & 3
        if k == 0:
            out.append(Point(*p))
        elif k == 1:
            out.append(tuple(p))
        elif k == 2:
            u = UNIT[0]
            out.append(PointRelative(p[0]-u, p[1]-2*u, Point(u, 2*u)))
        else:
            out.append(list(p))
    return out


def pairs(flat):
    same(len(flat) % 2, 0, 'flat list has pairs')
    return list(zip(flat[0::2], flat[1::2]))


@R.facet(st.tuples(SEG, STEPS, st.integers(0, 255)).map(list), n=600)
def segment(s, cx):
    pts, n, style = s
    cx.nt(n > 1 and any(p != pts[0] for p in pts))
    src = form(pts, style)
    was = [tuple(p) for p in src]
    got = bez(src, steps=n, as_xy=True)
    same(len(got), n+1, 'number of points')
    tol = 1e-13*mag(pts)*10
    near_pts(got, ref.sample([tuple(p) for p in pts], n), tol, 'curve point')
    near_xy(got[0], pts[0], 1e-13*mag(pts[0]), 'starts at the first point')
    near_xy(got[-1], pts[3], 1e-13*mag(pts[3]), 'ends at the last point')
    if (style & 3) != 2:
        same(tuple(got[0]), tuple(pts[0]), 'starts exactly at the first point')
    if (style >> 6) != 2:
        same(tuple(got[-1]), tuple(pts[3]), 'ends exactly at the last point')
    flat = bez(src, steps=n)
    same([tuple(p) for p in got], pairs(flat), 'flat form')
    same([tuple(p) for p in src], was, 'input unchanged')
    back = bez(src[::-1], steps=n, as_xy=True)
    near_pts(back[::-1], got, tol, 'reversed')
    # refining keeps the coarse points
    fine = bez(src, steps=2*n, as_xy=True)
    near_pts(fine[::2], got, tol, 'every second point of the doubled sampling')


@R.facet(SEG, n=100)
def default_steps(s, cx):
    cx.nt(any(p != s[0] for p in s))
    same(len(bez([tuple(p) for p in s], as_xy=True)), 81, 'default number of points')
    near_pts(bez([tuple(p) for p in s], as_xy=True), ref.sample([tuple(p) for p in s], 80), 1e-12*mag(s), 'default')


@R.facet(st.tuples(gen.cps(0, 6), st.booleans(), STEPS, gen.xform(60, 3)).map(list), n=500)
def path(s, cx):
    spec, closed, n, xf = s
    cps = mk.cps(spec)
    was = repr(cps)
    t, m = mk.xform(xf), mk.mat(xf)
    mt = t.as_6tuple()
    got = pairs(bez_path(t, cps, closed, n))
    if not spec:
        same(got, [], 'no control points')
        return
    model = [mk.cp_abs(c) for c in spec]
    segs = len(spec) if closed else len(spec) - 1
    cx.nt(segs > 1 and n > 1)
    cx.label('closed', closed)
    same(len(got), segs*n + 1 if segs else 0, 'joints are not repeated')
    want = ref.path_of(model, closed, n)
    tol = 1e-12*(1 + ref.norm(m)*mag(spec)*2 + ref.shift(m))
    near_pts(got, ref.ap_list(m, want), tol, 'image of the untransformed path')
    # sampling of the transformed control points
    tc = [[ref.ap(m, p) for p in seg] for seg in ref.segs_of(model, closed)]
    for i, seg in enumerate(tc):
        near_pts(got[i*n:(i+1)*n+1], ref.sample(seg, n), tol, 'segment %d' % i)
    if segs:
        near_xy(got[0], ref.ap(m, spec[0][0]), tol, 'start')
        near_xy(got[-1], ref.ap(m, spec[0 if closed else -1][0]), tol, 'end')
    rev = pairs(bez_path(t, ControlPoint.reverse_list(cps), closed, n))
    if closed:
        # starts from the old last point: compare as a cycle
        k = (len(spec)-1)*n
        cyc = got[:-1]
        near_pts(rev, ([cyc[(k-i) % len(cyc)] for i in range(len(cyc)+1)]), 2*tol, 'reversed')
    else:
        near_pts(rev, got[::-1], 2*tol, 'reversed')
    same(repr(cps), was, 'control points unchanged')
    same(t.as_6tuple(), mt, 'transform unchanged')
    same(len(t.stack), 0, 'transform stack')


@R.facet(st.tuples(gen.cps(1, 4), st.booleans()).map(list), n=60)
def default_path_steps(s, cx):
    cps = mk.cps(s[0])
    segs = len(cps) if s[1] else len(cps)-1
    cx.nt(segs > 1)
    got = pairs(bez_path(Transform(), cps, s[1]))
    near_pts(got, ref.path_of([mk.cp_abs(c) for c in s[0]], s[1], 20) if segs else [], 1e-11*mag(s), 'default sampling')


@R.facet(st.tuples(gen.cps(2, 4, 40, 20), st.booleans(), st.integers(1, 12), st.lists(gen.fl(-9, 9), min_size=8, max_size=8)).map(list), n=200)
def path_in_field(s, cx):
    spec, closed, n, vals = s
    vf = Mesh(BBox(-50, -50, 50, 50), 2).zeros()
    for k in range(4):
        vf.vx[k // 2, k % 2] = vals[k]
        vf.vy[k // 2, k % 2] = vals[k+4]

    def f(p):
        u, v = (p[0]+50)/100, (p[1]+50)/100
        w = ((1-u)*(1-v), (1-u)*v, u*(1-v), u*v)
        return (p[0] + sum(w[k]*vals[k] for k in range(4)), p[1] + sum(w[k]*vals[k+4] for k in range(4)))

    cx.nt(any(vals))
    cps = mk.cps(spec)
    got = pairs(bez_path(vf, cps, closed, n))
    want = []
    for seg in ref.segs_of([mk.cp_abs(c) for c in spec], closed):
        pts = ref.sample([f(p) for p in seg], n)
        want.extend(pts[1:] if want else pts)
    near_pts(got, want, 1e-9, 'sampling of the displaced control points')


@R.facet(st.tuples(gen.cps(2, 4), st.integers(7, 45), st.booleans(), gen.one_of(st.integers(1, 6), st.just(20)), gen.xform(60, 2)).map(list), n=60)
def long_path(s, cx):
    """Many control points"""
    base, k, closed, n, xf = s
    path([[[[c[0][0] + 7*(i // len(base)), c[0][1] - 4*(i // len(base))]] + c[1:]
           for i, c in ((i, base[i % len(base)]) for i in range(k))], closed, n, xf], cx)


def times(v, f):
    """All numbers of a spec times f"""
    return [times(x, f) for x in v] if isinstance(v, (list, tuple)) else v*f


@R.facet(st.tuples(SEG, STEPS, st.integers(0, 255), gen.cps(0, 6), st.booleans(), gen.xform(60, 2), st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=100)
def sizes(s, cx):
    """Very small and very large curves"""
    pts, n, style, spec, closed, ops, f = s
    with unit(f):
        segment([times(pts, f), n, style], cx)
        path([[times(c[:3], f) + c[3:] for c in spec], closed, n, mk.scaled_ops(ops, f)], cx)
    cx.label('%g' % f)


@R.facet(st.tuples(SEG, gen.one_of(st.integers(1, 12), st.just(20)), st.booleans(), gen.cps(1, 4), gen.xform(), st.booleans(), st.integers(0, 3)).map(list),
         n=150)
def asked_again(v, cx):
    """What the caller does to a list of points is nothing to the next caller"""
    pts, n, as_xy, cps, ops, closed, how = v
    cx.nt(n > 1)

    def spoil(out):
        keep = list(out)
        if how == 0:
            out.reverse()
        elif how == 1:
            del out[1:]
        elif how == 2:
            out[:] = [0]*len(out)
        else:
            out.extend(keep[:3])
        return keep
    ask = [lambda: bez([Point(*p) for p in pts], n, as_xy), lambda: bez_path(mk.xform(ops), mk.cps(cps), closed, n),
           lambda: bez_path(mk.xform([]), mk.cps(cps), closed)]
    for fn in ask + ask[:1]:
        first = spoil(fn())
        same(fn(), first, 'asked again')


@R.facet(st.tuples(gen.cps(1, 4), st.lists(st.integers(0, 3), min_size=2, max_size=6), st.booleans(), st.integers(1, 8), gen.xform(60, 2)).map(list), n=200)
def one_point_again(v, cx):
    """One and the same control point may occur several times, also in a row, or share its parts with others"""
    spec, idx, closed, n, xf = v
    base = mk.cps(spec)
    idx = [i % len(base) for i in idx]
    cx.nt(any(i == j for i, j in zip(idx, idx[1:])) and n > 1)
    for some in ([base[i] for i in idx], [ControlPoint(base[i].c, base[i].dl, base[i].dr, base[i].kind) for i in idx]):
        same(bez_path(mk.xform(xf), some, closed, n), bez_path(mk.xform(xf), mk.cps([spec[i] for i in idx]), closed, n), 'path')
    got = pairs(bez_path(mk.xform([]), [base[i] for i in idx], closed, n))
    want = []
    for seg in ref.segs_of([mk.cp_abs(spec[i]) for i in idx], closed):
        pts = ref.sample(seg, n)
        want.extend(pts[1:] if want else pts)
    near_pts(got, want, 1e-9*mag(spec and [p for c in spec for p in mk.cp_abs(c)]), 'path')
    p = Point(*spec[0][0])
    same(bez([p, p, p, p], n, True), bez([Point(*spec[0][0]) for _ in range(4)], n, True), 'one point four times')
