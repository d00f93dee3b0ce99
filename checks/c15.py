"""C15: resolving self-intersection preserves the curve and separates it"""
import contextlib
import io
import math
import numpy as np
from hypothesis import strategies as st
import x7.geom.bezier as bezier_mod
from x7.geom.geom import Point
from x7.geom.bezier import bez_self_intersect, ControlPoint
from x7.geom.model import ElemCurve
from harness import gen, mk, ref
from harness.core import Registry, expect, near, near_xy, same, mag, fail

R = Registry('C15', 'Closed curves of 2..5 control points (smooth and sharp, handles 2..50) in general position; the '
             'crossings of the original and of each piece are counted on samplings of two resolutions, areas are exact '
             '(Green). Cases whose samplings disagree are skipped as undecided. Non-trivial: the curve crosses itself.')


def jitter(spec):
    """Fixed irregular displacements: no cusps, tangencies or coincident arcs by construction of round numbers"""
    out = []
    for i, (c, l, r, k) in enumerate(spec):
        c = [c[0] + 1.7*math.sin(3.1*i+0.7), c[1] + 1.9*math.cos(2.3*i*i+0.4)]
        ll, lr, ang = l
        a = ang + 0.1234*(i+1)
        rr = [lr*math.cos(a), lr*math.sin(a)]
        if k == 'sharp':
            b = a + r[0]
            lv = [ll*math.cos(b), ll*math.sin(b)]
        else:
            lv = [-ll*math.cos(a), -ll*math.sin(a)]
            if k == 'very-smooth':
                lv = [-v for v in rr]
        out.append([c, lv, rr, k])
    return out


HLEN = gen.one_of(gen.fl(2, 50), st.integers(2, 50))
CP = st.tuples(gen.xy(50), st.tuples(HLEN, HLEN, gen.fl(-3.2, 3.2)).map(list), st.tuples(gen.fl(0.6, 5.6)).map(list),
               st.sampled_from(['smooth', 'smooth', 'very-smooth', 'sharp'])).map(list)
CURVE = st.lists(CP, min_size=2, max_size=5).map(jitter)


def crossings(pts, gap=1):
    """Transversal self-crossings of a closed polygon: list of (i, j, sine, point)"""
    p = np.array(pts)
    n = len(p)
    q = np.roll(p, -1, axis=0)
    d = q - p
    den = d[:, None, 0]*d[None, :, 1] - d[:, None, 1]*d[None, :, 0]
    dx = p[None, :, 0] - p[:, None, 0]
    dy = p[None, :, 1] - p[:, None, 1]
    with np.errstate(divide='ignore', invalid='ignore'):
        t = (dx*d[None, :, 1] - dy*d[None, :, 0])/den
        u = (dx*d[:, None, 1] - dy*d[:, None, 0])/den
    ok = (t >= 0) & (t < 1) & (u >= 0) & (u < 1)
    ii, jj = np.nonzero(ok)
    out = []
    ln = np.hypot(d[:, 0], d[:, 1])
    for i, j in zip(ii.tolist(), jj.tolist()):
        k = (j - i) % n
        if i >= j or k <= gap or n - k <= gap:
            continue
        out.append((i + t[i, j], j + u[i, j], abs(den[i, j])/(ln[i]*ln[j]), tuple(p[i] + t[i, j]*d[i])))
    return out


def closed_poly(segs, n):
    return [p for s in segs for p in ref.sample(s, n)[:-1]]


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


def segs_of(cps):
    return ref.segs_of([mk.real_abs(c) for c in cps], True)


def length(segs):
    return sum(ref.poly_len(ref.sample(x, 80)) for x in segs)


def visits(path, p, tol):
    """How many times the closed polyline passes within tol of p"""
    a = np.array(path)
    d = np.hypot(a[:, 0]-p[0], a[:, 1]-p[1])
    loc = (d <= np.roll(d, 1)) & (d < np.roll(d, -1)) & (d < tol)
    return int(loc.sum())


def check_pieces(segs, pieces, size, label):
    """Pieces are closed, lie on the original, add up to it and do not cross themselves"""
    expect(len(pieces) >= 2, '%s: a crossing separates the curve into at least two pieces, got %d', label, len(pieces))
    psegs = []
    for p in pieces:
        expect(len(p) >= 2, '%s: piece with %d control points', label, len(p))
        psegs.append(segs_of(p))
    area = ref.bez_area(segs)
    near(sum(ref.bez_area(s) for s in psegs), area, 1e-6*size*size, label + ': signed areas add up')
    ln = length(segs)
    near(sum(length(s) for s in psegs), ln, 0.01*ln, label + ': lengths add up')
    fine = closed_poly(segs, 300)
    arr = np.array(fine + fine[:1])
    step = max(np.hypot(*(arr[1:]-arr[:-1]).T))
    for k, s in enumerate(psegs):
        for q in closed_poly(s, 9):
            d = np.hypot(arr[:, 0]-q[0], arr[:, 1]-q[1]).min()
            expect(d <= step, '%s: piece %d passes through %r, %.3g off the original', label, k, q, d)
        if all(any(x[2] > 0.2 for x in crossings(closed_poly(s, n), gap=3)) for n in (23, 40)):
            fail('%s: piece %d crosses itself: %r', label, k, pieces[k])


@R.facet(CURVE, n=200)
def resolve(s, cx, move=None):
    segs = segs_of(mk.cps(s))
    f, ox, oy = move or (1, 0, 0)
    cps = mk.cps([[[c[0]*f + ox, c[1]*f + oy]] + [[v[0]*f, v[1]*f] for v in (l, r)] + [k] for c, l, r, k in s] if move else s)
    was = repr(cps)
    objs = [(cp, cp.c, cp.dl, cp.dr) for cp in cps]
    pieces = quiet(bez_self_intersect, cps)
    same(repr(cps), was, 'the curve passed in')
    for cp, (o, c, l, r) in zip(cps, objs):
        expect(cp is o and cp.c is c and cp.dl is l and cp.dr is r, 'parts of the curve passed in were replaced')
    if move:
        # back to where the original is
        pieces = [[ControlPoint(Point((cp.c.x-ox)/f, (cp.c.y-oy)/f), cp.dl/f, cp.dr/f, cp.kind) for cp in p] for p in pieces]
    size = mag(s)
    counts = []
    for n in (24, 41, 67):
        x = crossings(closed_poly(segs, n))
        counts.append((len(x), min([1.0] + [v[2] for v in x])))
    certain = len({c for c, _ in counts}) == 1 and min(v for _, v in counts) > 0.05
    nx = counts[-1][0]
    cx.nt(nx > 0)
    cx.label('crossings: %s' % (min(nx, 4) if certain else 'undecided'))
    if pieces:
        if nx == 0:
            # the sampling may have stepped over a tiny loop: the junctions must be real
            fine = closed_poly(segs, 3000)
            for p in pieces:
                v = visits(fine, p[0].c.xy(), 0.01*size)
                if v < 2:
                    # adjacent passes of a tiny loop merge into one minimum
                    tiny = min(length(segs_of(q)) for q in pieces)
                    expect(tiny < 0.02*size, 'curve without self-crossing was split at %r: %r', p[0].c.xy(), pieces)
        check_pieces(segs, pieces, size, 'pieces')
        for p in pieces:
            expect(any(cp.kind == 'sharp' for cp in p), 'a piece has a corner at the crossing')
    else:
        same(pieces, [], 'nothing')
        if certain:
            same(nx, 0, 'crossings of a curve reported as not self-crossing')


@R.facet(st.tuples(CURVE, gen.xform_similarity(30), gen.name()).map(list), n=60)
def element(s, cx):
    """ElemCurve.self_intersect: pieces in the element's external space, named after it"""
    spec, xf, name = s
    m = mk.mat(xf)
    e = ElemCurve(name, mk.penbrush([['black', 2], 'red']), mk.cps(spec), closed=True, xform=mk.xform(xf))
    was = repr(e), e.xform.as_6tuple(), e.penbrush
    saved = bezier_mod.bz_plot_curves
    bezier_mod.bz_plot_curves = lambda *a, **k: None        # debugging aid: no windows
    try:
        got = quiet(e.self_intersect)
    finally:
        bezier_mod.bz_plot_curves = saved
    same((repr(e), e.xform.as_6tuple(), e.penbrush), was, 'element')
    plain = quiet(bez_self_intersect, mk.cps(spec))
    cx.nt(bool(plain))
    same(len(got), len(plain), 'number of pieces')
    if not got:
        return
    segs = [tuple(ref.ap_list(m, x)) for x in segs_of(mk.cps(spec))]
    check_pieces(segs, [g.control_points for g in got], mag(segs), 'element')
    same(len({g.name for g in got}), len(got), 'distinct names')
    for g in got:
        expect(isinstance(g, ElemCurve) and g.closed and g.penbrush == e.penbrush, 'style and closedness')
        expect(g.name.startswith(name), 'name %r is derived from %r', g.name, name)
        same(g.xform.as_6tuple(), ref.IDENT, 'pieces have no transform of their own')


@R.facet(st.tuples(st.lists(gen.fl(8, 40), min_size=3, max_size=8), gen.xform_similarity(30)).map(list), n=80)
def simple_curves(s, cx):
    """Star-shaped curves with short radial-normal handles never cross"""
    radii, xf = s
    n = len(radii)
    m = mk.mat(xf)
    cx.nt(n > 3)
    cps = []
    lin = (m[0], m[1], 0, m[3], m[4], 0)
    for i, r in enumerate(radii):
        a = 2*math.pi*i/n + 0.05*math.sin(5*i)
        k = min(radii)*0.2
        c = ref.ap(m, (r*math.cos(a), r*math.sin(a)))
        h = ref.ap(lin, (-k*math.sin(a), k*math.cos(a)))
        cps.append([list(c), [-h[0], -h[1]], list(h), 'smooth'])
    segs = segs_of(mk.cps(cps))
    if crossings(closed_poly(segs, 40)):
        cx.label('skipped')
        return
    same(quiet(bez_self_intersect, mk.cps(cps)), [], 'pieces of a simple curve')


@R.facet(st.tuples(gen.fl(5, 40), gen.fl(5, 40), gen.fl(3, 30), gen.fl(3, 30), gen.xform_similarity(30)).map(list), n=60)
def eight(s, cx):
    """Figure eight: two lobes, each with the area of its side, in opposite senses"""
    w, v, h1, h2, xf = s
    m = ref.mul(mk.mat(xf), ref.rot(11.7))
    lin = (m[0], m[1], 0, m[3], m[4], 0)
    cx.nt()
    cps = [[list(ref.ap(m, (-w, 0.3))), list(ref.ap(lin, (0, -h1))), list(ref.ap(lin, (0, h1))), 'smooth'],
           [list(ref.ap(m, (v, -0.2))), list(ref.ap(lin, (0, -h2))), list(ref.ap(lin, (0, h2))), 'smooth']]
    got = quiet(bez_self_intersect, mk.cps(cps))
    same(len(got), 2, 'lobes')
    segs = segs_of(mk.cps(cps))
    check_pieces(segs, got, mag(cps), 'eight')
    a = [ref.bez_area(segs_of(g)) for g in got]
    expect(a[0]*a[1] < 0, 'lobes are traversed in opposite senses: %r', a)


@R.facet(st.tuples(CURVE, st.integers(-16, 22), st.sampled_from([0, 0, 1, 30, 1000]), gen.angle()).map(list), n=80)
def sizes(s, cx):
    """Small and large curves, also far from the origin"""
    spec, k, far, ang = s
    f = 2.0**k
    d = 50*far*f
    resolve(spec, cx, (f, d*math.cos(math.radians(ang)), d*math.sin(math.radians(ang))))
    cx.label('size 1e%d' % math.floor(k*math.log10(2)), True)
    cx.label('far', far > 1)
