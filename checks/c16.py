"""C16: control points keep their geometry under copy, reversal and transforms"""
import math
from hypothesis import strategies as st
from x7.geom.geom import BBox, Point, PointRelative, Vector
from x7.geom.bezier import ControlPoint
from x7.geom.vec_field import Mesh
from harness import gen, mk, ref
from harness.core import Registry, expect, near, near_xy, same, mag, unit

R = Registry('C16', 'Control points of every kind with arbitrary handles (also zero, equal, on relative points), affine '
             'maps, and vector fields over smooth, very-smooth and sharp points; edit programs for copies. Non-trivial: '
             'the two handles differ and are not both zero.')


def state(cp):
    return cp.c.xy(), cp.dl.xy(), cp.dr.xy(), cp.kind


def want(s):
    return tuple(s[0]), tuple(s[1]), tuple(s[2]), s[3]


def nt(s):
    return s[1] != s[2] and (any(s[1]) or any(s[2]))


CP = gen.one_of(gen.cp(), gen.cp(100, 50), gen.cp().map(lambda c: [c[0], c[1], c[1], c[3]]), st.tuples(gen.xy(100), gen.xy(50), st.just([0, 0]), gen.kind()).map(list))


def edit(cp, how):
    k, x, y = how
    if k == 0:
        cp.c.setxy(x, y)
    elif k == 1:
        cp.dl.setxy(x, y)
    elif k == 2:
        cp.dr.setxy(x, y)
    elif k == 3:
        cp.kind = 'sharp' if cp.kind != 'sharp' else 'smooth'
    elif k == 4:
        cp.c = Point(x, y)
    elif k == 5:
        cp.dl = Vector(x, y)
    else:
        cp.dr = Vector(x, y)


def edited(s, how):
    """The description after the edit"""
    k, x, y = how
    s = list(s)
    if k == 3:
        s[3] = 'sharp' if s[3] != 'sharp' else 'smooth'
    else:
        s[k if k < 3 else k - 4] = [x, y]
    return s


EDITS = st.lists(st.tuples(st.integers(0, 6), gen.coord(90), gen.coord(90)).map(list), min_size=1, max_size=5)


@R.facet(st.tuples(CP, EDITS, st.sampled_from(['copy', 'fixed']), st.booleans()).map(list), n=500)
def copies(s, cx):
    spec, edits, how, edit_copy = s
    cx.nt(nt(spec))
    cx.label(how)
    cp = mk.cp(spec)
    dup = getattr(cp, how)()
    expect(dup is not cp, 'a new object')
    expect(dup == cp and cp == dup, 'equal to the original')
    same(state(dup), want(spec), 'values of the %s' % how)
    model = spec
    for e in edits:
        edit(dup if edit_copy else cp, e)
        model = edited(model, e)
        same(state(dup if edit_copy else cp), want(model), 'one part edited')
    same(state(cp if edit_copy else dup), want(spec), 'the other after edits')
    if edit_copy:
        dup.restore(cp)
        same(state(dup), want(spec), 'restored')
        edit(dup, [0, 1, 1])
        edit(dup, [1, 1, 2])
        edit(dup, [2, 1, 3])
        same(state(cp), want(spec), 'restore source after edits')
    else:
        cp.restore(dup)
        same(state(cp), want(spec), 'restored')
        expect(cp == dup, 'equal after restore')
        model = spec
        for e in edits:
            edit(cp, e)
            model = edited(model, e)
            same(state(cp), want(model), 'one part edited after restoring')
        same(state(dup), want(spec), 'restore source after later edits')
        cp.restore(dup)
        same(state(cp), want(spec), 'restored again')


@R.facet(st.tuples(CP, gen.xy(20), gen.xy(20)).map(list), n=150)
def relative_center(s, cx):
    """fixed() detaches from the base, copy() follows it"""
    spec, base, moved = s
    cx.nt(nt(spec) and base != moved)
    b = Point(*base)
    cp = ControlPoint(PointRelative(spec[0][0]-base[0], spec[0][1]-base[1], b), Vector(*spec[1]), Vector(*spec[2]), spec[3])
    fixed, copy = cp.fixed(), cp.copy()
    at = cp.c.xy()
    b.setxy(*moved)
    same(fixed.c.xy(), at, 'fixed snapshot')
    same(copy.c.xy(), cp.c.xy(), 'copy follows the same base')
    same((fixed.dl.xy(), fixed.dr.xy(), fixed.kind), (tuple(spec[1]), tuple(spec[2]), spec[3]), 'rest')


@R.facet(st.lists(CP, max_size=5), n=300)
def reverse(s, cx):
    cps = mk.cps(s)
    cx.nt(any(nt(c) for c in s))
    was = [state(c) for c in cps]
    for cp, spec in zip(cps, s):
        r = cp.reversed()
        same(state(r), (tuple(spec[0]), tuple(spec[2]), tuple(spec[1]), spec[3]), 'reversed')
        same(state(r.reversed()), want(spec), 'reversed twice')
        expect(r is not cp, 'a new object')
        near_xy(r.l.xy(), cp.r.xy(), 0, 'left end of the reversed point')
    rl = ControlPoint.reverse_list(cps)
    same([state(c) for c in rl], [(c, r, l, k) for c, l, r, k in reversed(was)], 'reversed list')
    same([state(c) for c in ControlPoint.reverse_list(rl)], was, 'list reversed twice')
    same([state(c) for c in cps], was, 'input')


@R.facet(CP, n=300)
def box_and_ends(s, cx):
    cp = mk.cp(s)
    cx.nt(nt(s))
    c, l, r = mk.cp_abs(s)
    same(cp.l.xy(), l, 'left end')
    same(cp.r.xy(), r, 'right end')
    same(cp.bbox().as_tuple(), ref.box([c, l, r]), 'box')
    same(state(cp), want(s), 'unchanged')
    rd = cp.round(1)
    for got, w in zip(state(rd)[:3], want(s)[:3]):
        near_xy(got, w, 0.05 + 1e-9, 'rounded')
        same(tuple(round(v, 1) for v in got), got, 'one digit')
    same(rd.kind, s[3], 'kind of the rounded point')
    same(state(cp), want(s), 'unchanged by rounding')


@R.facet(st.tuples(CP, gen.xform(100, 4)).map(list), n=500)
def affine(s, cx):
    spec, xf = s
    cp, t, m = mk.cp(spec), mk.xform(xf), mk.mat(xf)
    cx.nt(nt(spec) and bool(xf))
    got = cp.transform(t)
    tol = 1e-12*(1 + ref.norm(m)*mag(spec)*2 + ref.shift(m))
    c, l, r = mk.cp_abs(spec)
    near_xy(got.c.xy(), ref.ap(m, c), tol, 'center')
    near_xy(got.l.xy(), ref.ap(m, l), tol, 'left end')
    near_xy(got.r.xy(), ref.ap(m, r), tol, 'right end')
    lin = (m[0], m[1], 0, m[3], m[4], 0)
    near_xy(got.dl.xy(), ref.ap(lin, spec[1]), tol, 'left handle')
    near_xy(got.dr.xy(), ref.ap(lin, spec[2]), tol, 'right handle')
    same(got.kind, spec[3], 'kind')
    same(state(cp), want(spec), 'original')
    same(t.as_6tuple(), tuple(float(v) for v in m), 'transform')


SMOOTH = st.tuples(gen.xy(40), gen.fl(-3.1, 3.1), gen.fl(0.5, 20), gen.fl(0, 20), gen.kind(), st.integers(0, 3)).map(list)


@R.facet(st.tuples(SMOOTH, st.lists(gen.fl(-6, 6), min_size=18, max_size=18)).map(list), n=400)
def field(s, cx):
    (c, ang, a, b, kind, zero), vals = s
    if kind == 'very-smooth':
        b = a
    dr = [a*math.cos(ang), a*math.sin(ang)]
    dl = [-b*math.cos(ang), -b*math.sin(ang)]
    if kind == 'sharp':
        dl = [b*math.cos(ang+1), b*math.sin(ang+1)]
    if zero == 1:
        dl, dr = [0, 0], [0, 0]
    cp = mk.cp([c, dl, dr, kind])
    was = state(cp)
    vf = Mesh(BBox(-100, -100, 100, 100), 3).zeros()
    for i in range(9):
        vf.vx[i // 3, i % 3] = vals[i]
        vf.vy[i // 3, i % 3] = vals[i+9]

    def f(p):
        dx, dy = vf.lookup(*p)
        return float(p[0]+dx), float(p[1]+dy)

    got = cp.transform(vf)
    fc, fl_, fr = f(c), f((c[0]+dl[0], c[1]+dl[1])), f((c[0]+dr[0], c[1]+dr[1]))
    tol = 1e-9
    cx.nt(any(vals) and zero != 1)
    cx.label(kind)
    near_xy(got.c.xy(), fc, tol, 'center')
    same(got.kind, kind, 'kind')
    same(state(cp), was, 'original')
    ml = (fl_[0]-fc[0], fl_[1]-fc[1])
    mr = (fr[0]-fc[0], fr[1]-fc[1])
    gl, gr = got.dl.xy(), got.dr.xy()
    if kind == 'sharp':
        near_xy(got.l.xy(), fl_, tol, 'left end')
        near_xy(got.r.xy(), fr, tol, 'right end')
        return
    near(gl[0]*gr[1] - gl[1]*gr[0], 0, 1e-8*(1+math.hypot(*gl)*math.hypot(*gr)), 'handles are collinear')
    expect(gl[0]*gr[0] + gl[1]*gr[1] <= 1e-8, 'handles are opposite: %r %r', gl, gr)
    if kind == 'very-smooth':
        near(math.hypot(*gl), math.hypot(*gr), 1e-9, 'equal handles')
    else:
        near(math.hypot(*gl), math.hypot(*ml), 1e-8, 'length of the left handle')
        near(math.hypot(*gr), math.hypot(*mr), 1e-8, 'length of the right handle')
    # still heads the way the mapped handles do
    d = (mr[0]-ml[0], mr[1]-ml[1])
    expect(gr[0]*d[0]+gr[1]*d[1] >= -1e-8, 'direction of the right handle')
    dlen = math.hypot(*d)
    if dlen > 1e-6:
        near(gr[0]*d[1] - gr[1]*d[0], 0, 1e-8*(1+dlen)*(1+math.hypot(*gr)), 'handles are parallel to the line of their mapped ends')
    if kind == 'very-smooth':
        near_xy((gr[0]-gl[0], gr[1]-gl[1]), d, 1e-8*(1+dlen), 'span of the handles')


@R.facet(st.tuples(CP, st.integers(0, 3), gen.fl(-3.1, 3.1), st.sampled_from([1e-11, 1e-3, 0.5, 2.0]),
                   st.sampled_from([0, 0.4, 0.9, 1.1, 3, 1000])).map(list), n=500)
def closeness(s, cx):
    spec, part, ang, delta, f = s
    cx.nt(f > 0)
    cp = mk.cp(spec)
    o = mk.cp(spec)
    default = delta == 1e-11
    if default:
        # representable displacement at this magnitude
        f = 0 if f < 1 else f*1e6
    dx, dy = f*delta*math.cos(ang), f*delta*math.sin(ang)
    if part == 3:
        o.kind = {'smooth': 'sharp', 'sharp': 'very-smooth', 'very-smooth': 'smooth'}[o.kind]
        close = False
    else:
        p = (o.c, o.dl, o.dr)[part]
        x, y = p.xy()
        p.setxy(x+dx, y+dy)
        close = f < 1
    got = cp.close(o) if default else cp.close(o, delta)
    same(bool(got), close, 'close with part %d moved by %g of %g' % (part, f*delta, delta))
    same(bool(o.close(cp) if default else o.close(cp, max_delta=delta)), close, 'symmetric')
    same(cp == o, part != 3 and state(cp) == state(o), 'equality')
    expect(not (cp == 'x') and not cp == state(cp), 'not equal to other types')


@R.facet(st.tuples(CP, gen.xform(100, 4), st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=100)
def sizes(s, cx):
    """Very small and very large geometry"""
    (c, dl, dr, k), ops, f = s
    with unit(f):
        affine([[[v*f for v in c], [v*f for v in dl], [v*f for v in dr], k], mk.scaled_ops(ops, f)], cx)
    cx.label('%g' % f)


@R.facet(st.tuples(CP, EDITS, st.sampled_from(['copy', 'fixed', 'restore', 'transform', 'round']), st.booleans()).map(list), n=250)
def one_handle(s, cx):
    """Both handles of a point may be one object: those of its copies are still moved one by one"""
    spec, edits, how, center = s
    spec = [spec[0], spec[1], spec[1], spec[3]]
    v = Vector(*spec[1])
    cp = ControlPoint(Point(*spec[0]), v, v, spec[3])
    if how == 'restore':
        dup = mk.cp([[1, 2], [3, 4], [5, 6], 'sharp'])
        dup.restore(cp)
    elif how == 'transform':
        dup = cp.transform(mk.xform([]))
    elif how == 'round':
        spec = [[round(c, 1) for c in p] for p in spec[:3]] + [spec[3]]
        cp = mk.cp(spec)
        cp.dr = cp.dl
        dup = cp.round(1)
    else:
        dup = getattr(cp, how)()
    model = spec
    if how == 'transform':
        model = list(state(dup))        # (handles may be off by rounding)
    same(state(dup), want(model), how)
    for e in edits:
        if how == 'round' and e[0] == 3:
            continue
        edit(dup, e)
        model = edited(model, e)
        same(state(dup), want(model), '%s edited' % how)
        same(state(cp), want(spec), 'original after the %s was edited' % how)
    cx.nt(any(e[0] in (1, 2) for e in edits))
    cx.label(how)
    v = dup.dl.xy(), dup.dr.xy()
    edit(cp, [1, 77, 78])
    edit(cp, [0, 79, 80])
    same((dup.dl.xy(), dup.dr.xy(), dup.c.xy()), v + (tuple(model[0]),), '%s after the original was edited' % how)
