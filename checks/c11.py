"""C11: fitting and decomposing transforms"""
import math
from hypothesis import strategies as st
from x7.geom.geom import BBox, Point
from x7.geom.transform import Transform, Transformer
from harness import gen, mk, ref
from harness.core import Registry, expect, near, same, near_xy, mag, unit
from harness.tprog import box

R = Registry('C11', 'Box pairs with sides >= 0.5 (any prior transform), rotation angles and centres, canvas sizes, zooms '
             'and offsets, affine matrices (general, axis-aligned, quarter turns computed through rotate). '
             'Non-trivial: source and target differ / the angle is not a multiple of 360 / matrix is not the identity.')


def bb(b):
    x, y, w, h = b
    return BBox(x, y, x+w, y+h)


def corners(b):
    return [(b.xl, b.yl), (b.xl, b.yh), (b.xh, b.yh), (b.xh, b.yl)]


@R.facet(st.tuples(box(), box(), gen.xform(50, 3), st.booleans()).map(list), n=500)
def fit(s, cx):
    a, b, prior, keep = s
    start, target = bb(a), bb(b)
    sa, sb = start.as_tuple(), target.as_tuple()
    cx.nt(sa != sb)
    cx.label('keep aspect', keep)
    tol = 1e-12*mag(a, b)*(1 + max(b[2]/a[2], b[3]/a[3]))*10
    t = Transform()
    got = t.scale_bbox(start, target, keep) if keep else t.scale_bbox(start, target)
    expect(got is t, 'returns itself')
    sx, sy = target.width/start.width, target.height/start.height
    if keep:
        z = min(sx, sy)
        w, h = start.width*z, start.height*z
        c = target.center
        want = BBox(c.x-w/2, c.y-h/2, c.x+w/2, c.y+h/2)
        sx = sy = z
        ok = target.expand(tol)
        for p in corners(want):
            expect(ok.xl <= p[0] <= ok.xh and ok.yl <= p[1] <= ok.yh, 'harness')
    else:
        want = target
    for p, q in zip(corners(start), corners(want)):
        near_xy(t.transform(*p), q, tol, 'corner')
    near_xy(t.transform_pt(start.center).xy(), target.center.xy(), tol, 'centre')
    m = t.as_6tuple()
    for got_v, want_v, what in zip(m, (sx, 0, None, 0, sy, None), 'abcdef'):
        if want_v is not None:
            near(got_v, want_v, 1e-12*(1+sx+sy), 'matrix ' + what)
    # on top of whatever was there
    u = mk.xform(prior)
    pm = mk.mat(prior)
    u.scale_bbox(start, target, keep)
    for p in corners(start):
        near_xy(u.transform(*p), t.transform(*ref.ap(pm, p)), 1e-12*mag(p)*(1+ref.norm(pm))*(1+sx+sy)*100
                + tol*10 + 1e-11*(1+sx+sy)*ref.shift(pm), 'after a prior transform')
    same((start.as_tuple(), target.as_tuple()), (sa, sb), 'boxes unchanged')


@R.facet(st.tuples(gen.angle(), gen.xy(100), gen.xy(100), gen.xform(50, 3)).map(list), n=400)
def about(s, cx):
    deg, c, p, prior = s
    cx.nt(deg % 360 != 0 and p != c)
    cen = Point(*c)
    t = Transform()
    expect(t.rotate_about(deg, cen) is t, 'returns itself')
    tol = 1e-12*mag(c, p)
    near_xy(t.transform(*c), c, tol, 'centre is fixed')
    # equals the plain rotation of the offset from the centre
    r = Transform().rotate(deg)
    dx, dy = r.transform(p[0]-c[0], p[1]-c[1])
    near_xy(t.transform(*p), (c[0]+dx, c[1]+dy), tol, 'rotation about the centre')
    near(math.dist(t.transform(*p), c), math.dist(p, c), tol, 'distance to the centre')
    near_xy(Transform().rotate_about(-deg, cen).transform(*t.transform(*p)), p, tol, 'turned back')
    rc = Transform().rotate_ccw(deg)
    w = ref.ap(ref.rot(deg), p)
    near_xy(rc.transform(*p), w, tol, 'counter-clockwise')
    near_xy(Transform().rotate(deg).transform(*rc.transform(*p)), p, tol, 'rotate and rotate_ccw are opposite')
    u = mk.xform(prior)
    m = mk.mat(prior)
    u.rotate_about(deg, cen)
    q = ref.ap(m, p)
    near_xy(u.transform(*p), t.transform(*q), 1e-12*(1+mag(c, p)*(1+ref.norm(m)) + ref.shift(m))*4, 'after a prior transform')
    same(cen.xy(), tuple(c), 'centre unchanged')


@R.facet(st.tuples(st.integers(1, 2000), st.integers(1, 2000), gen.one_of(st.just(1), gen.fl(0.05, 20)), gen.xy(500),
                   gen.xy(200), st.sampled_from([0, 1, 2])).map(list), n=300)
def canvas(s, cx):
    w, h, zoom, zz, p, form = s
    cx.nt(zoom != 1 or zz != [0, 0])
    if form == 0:
        zoom, zz = 1.0, [0, 0]
        t = Transform.canvas_fit((w, h))
    elif form == 1:
        zz = [0, 0]
        t = Transform.canvas_fit((w, h), zoom)
    else:
        t = Transform.canvas_fit((w, h), zoom=zoom, zero_zero=tuple(zz))
    tol = 1e-12*(mag(s)*(1+zoom))
    near_xy(t.transform(0, 0), (zz[0], h-zz[1]), tol, 'model origin')
    near_xy(t.transform(*p), (zoom*p[0]+zz[0], h-(zoom*p[1]+zz[1])), tol, 'point')
    near(t.transform(p[0], p[1]+1)[1] - t.transform(*p)[1], -zoom, tol, 'up in the model is up on screen')
    near(t.transform(p[0]+1, p[1])[0] - t.transform(*p)[0], zoom, tol, 'right is right')


@R.facet(st.tuples(gen.xform(50, 4), gen.fl(-20, 20)).map(list), n=400)
def widths(s, cx):
    t, m, width = mk.xform(s[0]), mk.mat(s[0]), s[1]
    sx, sy = math.hypot(m[0], m[3]), math.hypot(m[1], m[4])
    cx.nt(abs(sx-1) + abs(sy-1) > 1e-6 and width != 0)
    tol = 1e-12*(1+ref.norm(m))
    got = t.scale_vals()
    same(len(got), 2, 'two factors')
    near(got[0], sx, tol, 'x factor')
    near(got[1], sy, tol, 'y factor')
    z = t.transform(0, 0)
    near(math.dist(t.transform(1, 0), z), got[0], tol*(1+ref.shift(m)), 'stretch of the x axis')
    near(math.dist(t.transform(0, 1), z), got[1], tol*(1+ref.shift(m)), 'stretch of the y axis')
    near(t.transform_width(width), width*(sx+sy)/2, tol*(1+abs(width)), 'width')
    near(t.transform_width(2*width), 2*t.transform_width(width), 4*tol*(1+abs(width)), 'linear in the width')
    same(t.as_6tuple(), tuple(float(v) for v in m), 'unchanged')
    near(t.copy().rotate(33).translate(4, 5).transform_width(width), width*(sx+sy)/2, 4*tol*(1+abs(width)),
         'later rotation and translation do not matter')


E = gen.one_of(gen.fl(0.01, 5), gen.fl(-5, -0.01), st.integers(1, 9), st.integers(-9, -1))
MATS = gen.one_of(
    st.tuples(st.just('axis'), E, E, gen.coord(50), gen.coord(50)).map(list),
    st.tuples(st.just('quarter'), E, E, gen.coord(50), gen.coord(50)).map(list),
    st.tuples(st.just('general'), gen.xform(50, 4)).map(list),
    st.tuples(st.just('turn'), st.integers(-8, 8), E, E, gen.coord(50), gen.coord(50)).map(list),
    st.tuples(st.just('skew'), E, E, E, gen.coord(50), gen.coord(50), st.booleans()).map(list),
)


@R.facet(MATS, n=600)
def decompose(s, cx):
    k = s[0]
    cx.label(k)
    if k == 'axis':
        t = Transform((s[1], 0, s[3], 0, s[2], s[4]))
    elif k == 'quarter':
        t = Transform((0, s[1], s[3], s[2], 0, s[4]))
    elif k == 'general':
        t = mk.xform(s[1])
    elif k == 'turn':
        t = Transform().rotate(90*s[1]).scale(s[2], s[3]).translate(s[4], s[5])
    else:
        t = Transform((s[1], 0, s[4], s[3], s[2], s[5]) if s[6] else (s[1], s[3], s[4], 0, s[2], s[5]))
    m = t.as_6tuple()
    a, b, c, d, e, f = m
    size = max(abs(a), abs(b), abs(d), abs(e))
    off = min(max(abs(b), abs(d)), max(abs(a), abs(e)))/size
    if 1e-15 < off < 1e-7 and k == 'general':
        cx.label('skipped: within rounding of axis-parallel')
        return
    # axis-parallel boxes go to axis-parallel boxes
    simple = off < 1e-7
    cx.nt(m != ref.IDENT)
    cx.label('simple' if simple else 'not simple')
    same(bool(t.is_simple()), simple, 'is_simple of %r' % (m,))
    first, second = t.simplify()
    tol = 1e-13*size
    back = first.copy().compose(second).as_6tuple()
    for i in range(6):
        near(back[i], m[i], tol + 1e-13*abs(m[i]), 'composition of the parts [%d]' % i)
    fm, sm = first.as_6tuple(), second.as_6tuple()
    if simple:
        same(sm, ref.IDENT, 'second part of an axis-aligned map')
        expect(first.is_simple(), 'first part is simple')
    else:
        same(fm, (1.0, 0.0, c, 0.0, 1.0, f), 'first part of a general map is its translation')
        same((sm[2], sm[5]), (0.0, 0.0), 'second part has no translation')
    same(t.as_6tuple(), m, 'unchanged')
    first.translate(1, 2)
    second.translate(1, 2)
    same(t.as_6tuple(), m, 'parts are independent of the original')


def times(v, f):
    """All numbers of a spec times f"""
    return [times(x, f) for x in v] if isinstance(v, (list, tuple)) else v*f


@R.facet(st.tuples(box(), box(), gen.xform(50, 2), st.booleans(), gen.angle(), gen.xy(100), gen.xy(100), st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5]), st.booleans()).map(list), n=100)
def sizes(s, cx):
    """Very small and very large boxes"""
    a, b, prior, keep, deg, c, p, f, both = s
    with unit(f if both else max(f, 1)):
        fit([times(a, f), times(b, f if both else 1), mk.scaled_ops(prior, f), keep], cx)
        about([deg, times(c, f), times(p, f), mk.scaled_ops(prior, f)], cx)
    cx.label('%g' % f)
