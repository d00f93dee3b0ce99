"""C32: drawing paints exactly where the model says"""
import math
import numpy as np
from hypothesis import strategies as st
from PIL import Image, ImageColor
from x7.geom.geom import Point
from x7.geom.drawing import DrawingContext
from x7.geom.model import Group, ElemCurve, ElemRectangle, ElemEllipse
from x7.geom.colors import PenBrush, Pen
from harness import gen, mk, ref
from harness.core import Registry, expect, near, near_xy, same, fail

R = Registry('C32', 'Shapes of every kind with every combination of pen, brush, width and colour (also translucent and '
             'transparent), shapes with holes and nested, hidden and overlapping groups, drawn in production and draft '
             'through rotated, mirrored and scaled contexts fitted to the canvas, over noisy base images, plus lines, '
             'polygons, cropping and pixel coordinates. Every pixel whose colour the geometry determines (away from '
             'outlines by two pixels) is compared. Non-trivial: some pixels certainly painted and some certainly not.')

SIZE = 72
MARGIN = 2.0


def noisy(seed, opaque=True, size=(SIZE, SIZE)):
    w, h = size
    y, x = np.mgrid[0:h, 0:w]
    data = np.stack([(x*7 + seed*13) % 256, (y*11 + seed*29) % 256, (x*y + seed) % 256,
                     np.full_like(x, 255) if opaque else (x + y*3 + seed) % 256], axis=2).astype('uint8')
    return Image.fromarray(data, 'RGBA')


def rgba(c):
    if isinstance(c, str):
        c = ImageColor.getrgb(c)
    c = tuple(c)
    return c if len(c) == 4 else c + (255,)


def seg_dist(px, py, pts, width=0):
    """
    (distance to the polyline, perpendicular distance to segments the pixel projects well into) for pixel arrays.
    Segments shorter than the pen is wide are left out of the latter: they are drawn as roughly rounded boxes.
    """
    pts = np.array(pts, dtype=float)
    a, b = pts[:-1], pts[1:]
    d = b - a
    dd = (d*d).sum(1)
    ok = dd > 1e-12
    best = np.full(px.shape, np.inf)
    perp = np.full(px.shape, np.inf)
    for (ax, ay), (dx, dy), q in zip(a[ok], d[ok], dd[ok]):
        t = ((px-ax)*dx + (py-ay)*dy)/q
        tc = np.clip(t, 0, 1)
        dist = np.hypot(px - ax - tc*dx, py - ay - tc*dy)
        best = np.minimum(best, dist)
        length = math.sqrt(q)
        if length >= max(8, width):
            perp = np.where((t*length >= 2) & (t*length <= length-2), np.minimum(perp, dist), perp)
    for x, y in pts[:1]:
        best = np.minimum(best, np.hypot(px-x, py-y))
    return best, perp


def inside(px, py, pts):
    res = np.zeros(px.shape, bool)
    n = len(pts)
    for i in range(n):
        x0, y0 = pts[i]
        x1, y1 = pts[(i+1) % n]
        if y0 == y1:
            continue
        cross = (y0 > py) != (y1 > py)
        res ^= cross & (px < x0 + (py-y0)*(x1-x0)/(y1-y0))
    return res


def widths(pen, scale, own):
    """(least, largest) width in pixels of a pen; own is a bound on the stretch of the shapes' own transforms"""
    w = pen.width
    if w > 0:
        lo = hi = max(1, round(w))
    else:
        v = -w*scale
        lo = hi = max(1, round(v))
        if abs(v - math.floor(v) - 0.5) < 1e-6:
            lo, hi = max(1, math.floor(v)), max(1, math.ceil(v))
        if own is not None:
            lo, hi = 1, max(hi, 1 + math.ceil(v*own))
    return lo, hi


def own_stretch(s):
    """Bound on the stretch of a model's own transforms, None if it has none"""
    kids = s.get('elems', []) + ([s['outside']] + s['inside'] if s['k'] == 'holes' else [])
    sub = [own_stretch(k) for k in kids]
    mine = ref.norm(mk.mat(s['xf'])) if s['xf'] else None
    if mine is None and all(x is None for x in sub):
        return None
    return (mine or 1.0) * max([1.0] + [x for x in sub if x])


class Oracle(object):
    """Layer colour of every pixel, as far as the geometry determines it"""

    def __init__(self, size):
        self.h, self.w = size[1], size[0]
        y, x = np.mgrid[0:self.h, 0:self.w].astype(float)
        self.x, self.y = x, y
        self.color = np.zeros((self.h, self.w, 4), float)       # layer, premultiplied not needed: raw writes
        self.known = np.ones((self.h, self.w), bool)
        self.touched = np.zeros((self.h, self.w), bool)

    def paint(self, certain, possible, color):
        self.color[certain] = color
        self.known[possible & ~certain] = False
        self.known[certain] = True
        self.touched |= possible

    def path(self, pb, pts, prod, scale, own):
        if not pts:
            return
        lo, hi = widths(pb.pen, scale, own) if pb.stroked else (0, 0)
        dist, perp = seg_dist(self.x, self.y, pts, lo)
        if pb.filled:
            ins = inside(self.x, self.y, pts)
            self.paint(ins & (dist > MARGIN), ins | (dist <= MARGIN), rgba(pb.fill_color))
        if pb.stroked:
            if prod:
                certain = (perp <= lo/2 - 2) if lo >= 5 else np.zeros_like(self.known)
            else:
                certain = np.zeros_like(self.known)
            self.paint(certain, dist <= hi/2 + MARGIN, rgba(pb.stroke_color))

    def compare(self, image, base, what):
        got = np.array(image, dtype=float)
        back = np.array(base.convert('RGBA'), dtype=float)
        same(got.shape, back.shape, '%s: size' % what)
        alpha = self.color[..., 3:4]/255
        want = self.color*alpha + back*(1-alpha)
        want[..., 3] = 255
        tol = np.where(alpha == 0, 0, np.where(alpha == 1, 0, 2))
        want = np.where(alpha == 0, back, want)
        bad = (np.abs(got-want) > tol).any(axis=2) & self.known
        if bad.any():
            y, x = map(int, np.argwhere(bad)[0])
            fail('%s: pixel (%d, %d) is %r, expected %r (%d such pixels)', what, x, y,
                 tuple(got[y, x].astype(int).tolist()), tuple(want[y, x].astype(int).tolist()), int(bad.sum()))
        free = ~self.touched
        return int((self.known & (self.color[..., 3] > 0)).sum()), int(free.sum())


def fit(box, size, view):
    """Transform spec that maps a box into the canvas, turned and mirrored"""
    ang, flip, sx, dx, dy = view
    cx, cy = (box[0]+box[2])/2, (box[1]+box[3])/2
    ext = max(box[2]-box[0], box[3]-box[1], 1e-6)
    k = 0.75*size/ext*(0.7 if ang % 90 else 1.0)
    k = min(k, 20.0)
    return [['t', -cx, -cy], ['s', k*sx, -k if flip else k], ['r', ang], ['t', size/2 + dx, size/2 + dy]]


VIEW = st.tuples(gen.one_of(st.sampled_from([0, 0, 90, 180, -90, 45]), gen.fl(-180, 180)), st.booleans(),
                 st.sampled_from([1, 1, -1, 0.7]), gen.small(8), gen.small(8)).map(list)
COL = gen.one_of(st.sampled_from(['black', 'red', 'green', 'blue', 'yellow', 'white', '#102030', '#f80']),
                st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(0, 255)).map(list),
                st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(0, 255),
                          st.sampled_from([0, 255, 128, 30])).map(list))
WIDTH = gen.one_of(st.sampled_from([0, 1, 2, 5, 8, -1, -3]), gen.fl(0, 10), gen.fl(-4, 0))
PENB = st.tuples(gen.one_of(st.none(), st.tuples(COL, WIDTH).map(list)), gen.one_of(st.none(), COL)).map(list)
NUM = gen.one_of(st.integers(-50, 50), gen.fl(-50, 50))
XY = st.tuples(NUM, NUM).map(list)
SML = st.tuples(gen.fl(-25, 25), gen.fl(-25, 25)).map(list)
CPS = st.lists(st.tuples(XY, SML, SML, gen.kind()).map(list), min_size=2, max_size=4)
CORN = gen.two_corners(50, 4)
OPS = st.lists(gen.one_of(st.tuples(st.just('t'), gen.small(20), gen.small(20)).map(list),
                         st.tuples(st.just('s'), st.sampled_from([-2, 0.5, 1.5]), st.sampled_from([1, 2, -1])).map(list),
                         st.tuples(st.just('r'), gen.angle()).map(list)), max_size=1)


def leaf_s():
    def mk_(v):
        k, pb, xf, corners, cps, rad, closed = v
        if k == 'curve':
            if not closed:
                pb = [pb[0], None]
            return dict(k=k, name='x', pb=pb, closed=closed, xf=xf, cps=cps)
        d = dict(k=k, name='x', pb=pb, xf=xf, p=corners)
        if k == 'rrect':
            d['radius'] = rad
        return d
    return st.tuples(st.sampled_from(['rect', 'ellipse', 'rrect', 'curve']), PENB, OPS, CORN, CPS,
                     st.integers(0, 20), st.sampled_from([True, True, False])).map(mk_)


def holes_s():
    frac = gen.fl(0.3, 0.7)
    hole = st.tuples(st.sampled_from(['rect', 'ellipse', 'ring']), frac, frac, gen.fl(0.08, 0.25), gen.fl(0.08, 0.25),
                     st.just([]), st.just('h')).map(list)

    def mk_(v):
        pb, xf, out, ins, axf = v
        out = dict(out, xf=axf)
        if out['k'] == 'curve':
            out = dict(k='ellipse', name='x', pb=out['pb'], xf=axf, p=[[-20, -20], [20, 30]])
        return dict(k='holes', name='x', pb=pb, xf=xf, outside=out, inside=ins)
    return st.tuples(PENB, OPS, leaf_s(), st.lists(hole, min_size=1, max_size=3), OPS).map(mk_)


LEAF = gen.one_of(leaf_s(), leaf_s(), holes_s())


def group_s(kids, lo, hi):
    return st.tuples(OPS, st.sampled_from([False, False, True]), st.lists(kids, min_size=lo, max_size=hi)).map(
        lambda v: dict(k='group', name='g', pb=[['black', 1], None], xf=v[0], hidden=v[1],
                       elems=[dict(e, name='e%d' % i) for i, e in enumerate(v[2])]))


SCENE = st.tuples(OPS, st.lists(gen.one_of(LEAF, LEAF, group_s(LEAF, 0, 3)), min_size=2, max_size=4)).map(
    lambda v: dict(k='group', name='root', pb=[['black', 1], None], xf=v[0], hidden=False,
                   elems=[dict(e, name='e%d' % i) for i, e in enumerate(v[1])]))

PPC = 16


def run(spec, view, seed, prod, what, cx, debug=True, size=SIZE):
    spec = mk.expand(spec)
    pts = [p for _pb, _c, ps in mk.scene(spec, ppc=PPC) for p in ps]
    if not pts:
        pts = [(0, 0), (1, 1)]
    ops = fit(ref.box(pts), size, view)
    m = mk.mat(ops)
    base = noisy(seed, size=(size, size))
    raw = base.tobytes()
    el = mk.elem(spec)
    before = mk.state(el)
    matrix = mk.xform(ops)
    m6 = tuple(matrix.as_6tuple())
    dc = DrawingContext(base, matrix, prod=prod)
    dc.points_per_curve = PPC
    dc.debug = debug
    same(dc.image().tobytes(), raw, '%s: nothing drawn yet' % what)
    el.draw(dc)
    image = dc.image()
    o = Oracle((size, size))
    scale = (math.hypot(m[0], m[3]) + math.hypot(m[1], m[4]))/2
    own = own_stretch(spec)
    for pb, _closed, ps in mk.scene(spec, m, PPC):
        o.path(pb, ps, prod, scale, own)
    painted, free = o.compare(image, base, what)
    cx.nt(painted > 20 and free > 20)
    cx.label('painted', painted > 20)
    same(base.tobytes(), raw, '%s: base image' % what)
    same(tuple(matrix.as_6tuple()), m6, '%s: drawing transform' % what)
    same(mk.state(el), before, '%s: model' % what)
    # drawing the same again changes nothing
    if all(c is None or rgba(c)[3] in (0, 255) for c in colors_of(spec)):
        el.draw(dc)
        same(dc.image().tobytes(), image.tobytes(), '%s: drawn twice' % what)
    return image, el, o, m, scale


def colors_of(s):
    out = [mk.color(s['pb'][0][0]) if s['pb'][0] else None, mk.color(s['pb'][1]) if s['pb'][1] else None]
    for k in s.get('elems', []) + ([s['outside']] + s['inside'] if s['k'] == 'holes' else []):
        out += colors_of(k)
    return out


@R.facet(st.tuples(LEAF, VIEW, st.integers(0, 99), st.booleans(), st.booleans()).map(list), n=500)
def shapes(v, cx):
    spec, view, seed, prod, debug = v
    cx.label(spec['k'])
    image, el, o, m, scale = run(spec, view, seed, prod, spec['k'], cx, debug)
    # the pen is visible all along the outline
    if spec['k'] == 'holes' or not spec['pb'][0]:
        return
    pen, fill = spec['pb']
    pc = rgba(mk.color(pen[0]))
    if pc[3] != 255:
        return
    ((pb, _c, pts),) = mk.scene(spec, m, PPC)
    data = np.array(image)
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        x, y = (x0+x1)/2, (y0+y1)/2
        xi, yi = int(round(x)), int(round(y))
        if 3 <= xi < SIZE-3 and 3 <= yi < SIZE-3:
            around = data[yi-1:yi+2, xi-1:xi+2].reshape(-1, 4)
            if not prod:        # dots at the points have a red border in drafts
                ok = (around == pc).all(axis=1).any() or (around == (255, 0, 0, 255)).all(axis=1).any()
            else:
                ok = (around == pc).all(axis=1).any()
            expect(ok, 'no pixel of the pen %r near (%.2f, %.2f) on the outline', pc, x, y)


@R.facet(st.tuples(SCENE, VIEW, st.integers(0, 99), st.booleans()).map(list), n=350)
def scenes(v, cx):
    spec, view, seed, prod = v
    cx.label('hidden', any(e.get('hidden') for e in spec['elems']))
    run(spec, view, seed, prod, 'scene', cx)


@R.facet(st.tuples(st.lists(st.tuples(XY, SML, SML, gen.kind()).map(list), max_size=1), PENB, OPS, VIEW, st.integers(0, 99),
                   st.tuples(*[st.booleans()]*5).map(list)).map(list), n=150)
def tiny_curves(v, cx):
    """Curves of one point (or none) draw nothing, or stay close to the point, alone and in a group"""
    cps, pb, xf, view, seed, (prod, closed, debug, show, grouped) = v
    if not closed:
        pb = [pb[0], None]
    spec = dict(k='curve', name='x', pb=pb, closed=closed, xf=xf, cps=cps)
    full = dict(k='rect', name='y', pb=[None, None], xf=[], p=[[-50, -50], [50, 50]])
    ops = fit([-50, -50, 50, 50], SIZE, view)
    root = dict(k='group', name='g', pb=[['black', 1], None], xf=[], hidden=False, elems=[spec, full])
    dc = DrawingContext(noisy(seed), mk.xform(ops), prod=prod)
    dc.points_per_curve = PPC
    dc.debug = debug
    dc.show_cps = show and not grouped and not closed and bool(cps) and bool(xf)
    el = mk.elem(root if grouped else spec)
    before = mk.state(el)
    el.draw(dc)
    same(mk.state(el), before, 'model')
    image = dc.image()
    cx.nt(bool(cps) and (bool(pb[0]) or bool(pb[1])))
    if not cps or dc.show_cps or not closed:
        if not dc.show_cps:
            same(image.tobytes() == noisy(seed).tobytes(), True, 'nothing is drawn')
        return
    o = Oracle((SIZE, SIZE))
    scale = ref.norm(mk.mat(ops))
    own = own_stretch(root)
    for pb_, _closed, ps in mk.scene(root if grouped else spec, mk.mat(ops), PPC):
        o.path(pb_, ps, prod, scale, own)
    o.compare(image, noisy(seed), 'curve of one point')


@R.facet(st.tuples(st.lists(LEAF, min_size=2, max_size=3), VIEW, st.integers(0, 99), st.booleans()).map(list), n=120)
def one_by_one(v, cx):
    """Drawing the elements of a group one after another gives the picture of the group"""
    leaves, view, seed, prod = v
    spec = mk.expand(dict(k='group', name='g', pb=[['black', 1], None], xf=[], hidden=False,
                          elems=[dict(e, name='e%d' % i) for i, e in enumerate(leaves)]))
    pts = [p for _pb, _c, ps in mk.scene(spec, ppc=PPC) for p in ps]
    ops = fit(ref.box(pts), SIZE, view)
    images = []
    for way in range(3):
        base = noisy(seed)
        dc = DrawingContext(base, mk.xform(ops), prod=prod)
        dc.points_per_curve = PPC
        if way == 0:
            mk.elem(spec).draw(dc)
        elif way == 1:
            for e in spec['elems']:
                mk.elem(e).draw(dc)
        else:
            hid = dict(spec, elems=spec['elems'] + [dict(spec, name='hid', hidden=True)])
            mk.elem(hid).draw(dc)
        images.append(dc.image().tobytes())
    cx.nt(images[0] != noisy(seed).tobytes())
    same(images[1] == images[0], True, 'one after another')
    same(images[2] == images[0], True, 'with a hidden copy on top')


def inv_pts(m, pts):
    im = ref.inv(m)
    return [ref.ap(im, p) for p in pts]


PIX = st.tuples(gen.fl(2, SIZE-3), gen.fl(2, SIZE-3)).map(list)
MAP = st.tuples(st.sampled_from([1, -1, 0.1, 3, -7]), st.sampled_from([1, -1, 0.25, -2]), gen.angle(),
                gen.fl(-100, 100), gen.fl(-100, 100)).map(lambda v: [['s', v[0], v[1]], ['r', v[2]], ['t', v[3], v[4]]])


@R.facet(st.tuples(MAP, st.lists(PIX, min_size=3, max_size=6), COL.filter(lambda c: rgba(mk.color(c))[3] == 255),
                   COL.filter(lambda c: rgba(mk.color(c))[3] == 255), st.integers(1, 9), st.integers(0, 99),
                   st.sampled_from(['tuple', 'Point']), st.booleans()).map(list), n=300)
def primitives(v, cx):
    """Lines and polygons of the context"""
    ops, pix, c1, c2, width, seed, form, outlined = v
    m = mk.mat(ops)
    pts = inv_pts(m, pix)
    c1, c2 = mk.color(c1), mk.color(c2)
    base = noisy(seed)
    dc = DrawingContext(base, mk.xform(ops))
    given = [Point(*p) for p in pts] if form == 'Point' else [tuple(p) for p in pts]
    dc.polygon(given, fill=c1, outline=c2 if outlined else None)
    o = Oracle((SIZE, SIZE))
    loop = [tuple(p) for p in pix] + [tuple(pix[0])]
    o.path(PenBrush(Pen(c2, 1) if outlined else None, c1), loop, True, 1, None)
    painted, free = o.compare(dc.image(), base, 'polygon')
    (x1, y1), (x2, y2) = pts[0], pts[1]
    dc.line(x1, y1, x2, y2, c2, width)
    o.path(PenBrush(Pen(c2, width), None), [tuple(pix[0]), tuple(pix[1])], True, 1, None)
    o.compare(dc.image(), base, 'polygon and line')
    cx.nt(painted > 10 and free > 10)
    got = dc.image().load()
    mid = [(a+b)/2 for a, b in zip(pix[0], pix[1])]
    xi, yi = int(round(mid[0])), int(round(mid[1]))
    if math.dist(pix[0], pix[1]) > 3:
        expect(any(got[x, y] == rgba(c2) for x in (xi-1, xi, xi+1) for y in (yi-1, yi, yi+1)), 'line is visible')
    # edge only, and nothing at all
    dc3 = DrawingContext(base, mk.xform(ops))
    dc3.polygon(given, fill=None, outline=c2)
    o3 = Oracle((SIZE, SIZE))
    o3.path(PenBrush(Pen(c2, 1), None), loop, True, 1, None)
    o3.compare(dc3.image(), base, 'polygon without fill')
    dc3 = DrawingContext(base, mk.xform(ops))
    dc3.polygon(given, fill=None, outline=None)
    same(dc3.image().tobytes(), base.convert('RGBA').tobytes(), 'polygon without fill and outline')
    # defaults
    dc2 = DrawingContext(base, mk.xform(ops))
    dc2.polygon(given)
    o2 = Oracle((SIZE, SIZE))
    o2.path(PenBrush(Pen('black', 1), 'blue'), loop, True, 1, None)
    o2.compare(dc2.image(), base, 'polygon in default colours')


@R.facet(st.tuples(MAP, st.lists(PIX, min_size=2, max_size=2), PIX, st.integers(0, 99), gen.fl(0, 20),
                   st.sampled_from(['RGBA', 'RGB', 'L', 'none'])).map(list), n=300)
def coordinates(v, cx):
    ops, (a, b), p, seed, width, mode = v
    m = mk.mat(ops)
    box = [c for q in inv_pts(m, [a, b]) for c in q]
    base = None if mode == 'none' else noisy(seed).convert(mode)
    raw = base and base.tobytes()
    dc = DrawingContext(base, mk.xform(ops))
    tol = 1e-9*(1 + ref.norm(m)*200 + ref.shift(m))*(1 + 1/abs(ref.det(m)))
    q = inv_pts(m, [p])[0]
    near_xy(dc.scale_pt(*q), p, tol, 'pixel of a model point')
    near_xy(dc.unscale_pt(*p), q, tol, 'model point of a pixel')
    sx, sy = math.hypot(m[0], m[3]), math.hypot(m[1], m[4])
    near(dc.stroke_width(width), width*(sx+sy)/2, 1e-9*(1+width)*(1+sx+sy), 'scaled width')
    # crop: boxes given in model space, any two opposite corners
    crop = dc.crop_to_pixels(tuple(box))
    xl, yl, xh, yh = min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1])
    for got, want in zip(crop, (xl, yl, xh, yh)):
        expect(isinstance(got, int), 'pixel box %r', crop)
        expect(want - 1 - tol <= got <= want + tol, 'pixel box %r of %r', crop, (xl, yl, xh, yh))
    if crop[0] == crop[2] or crop[1] == crop[3]:
        return
    cx.nt(mode != 'none')
    dc.line(*box, 'red', 3)
    full = dc.image(crop=False)
    same(full.size, (1000, 1000) if mode == 'none' else base.size, 'size of the full picture')
    same(full.mode, 'RGBA', 'mode')
    want = full.crop(crop)
    got = dc.image(crop=tuple(box))
    same((got.size, got.tobytes() == want.tobytes()), (want.size, True), 'picture cropped on request')
    same(dc.image().tobytes() == full.tobytes(), True, 'no crop by default')
    dc2 = DrawingContext(base, mk.xform(ops), crop=tuple(box))
    dc2.line(*box, 'red', 3)
    got = dc2.image()
    same((got.size, got.tobytes() == want.tobytes()), (want.size, True), 'context with a crop')
    same(dc2.image(crop=False).tobytes() == full.tobytes(), True, 'context with a crop, uncropped')
    # another box asked for: smaller, shifted, or one that sticks out
    for i, j in ((0.25, 0.5), (0.5, 1.5), (-0.5, 1.25)):
        box2 = tuple(c for q in inv_pts(m, [tuple(a[k] + i*(b[k] - a[k]) for k in (0, 1)),
                                            tuple(a[k] + j*(b[k] - a[k]) for k in (0, 1))]) for c in q)
        crop2 = dc.crop_to_pixels(box2)
        if crop2[0] != crop2[2] and crop2[1] != crop2[3]:
            want2, got = full.crop(crop2), dc2.image(crop=box2)
            same((got.size, got.tobytes() == want2.tobytes()), (want2.size, True), 'context with a crop, cropped to another box')
    if base:
        same(base.tobytes(), raw, 'base image')


@R.facet(st.tuples(LEAF, LEAF, VIEW, st.integers(0, 99)).map(list), n=60)
def shadows(v, cx):
    """Casting a shadow leaves the layer, the colours and the drawing target as they were"""
    spec, other, view, seed = v
    spec, other = mk.expand(dict(spec, xf=[])), mk.expand(dict(other, xf=[]))
    pts = [p for s in (spec, other) for _pb, _c, ps in mk.scene(s, ppc=PPC) for p in ps]
    ops = fit(ref.box(pts), SIZE, view)
    base = noisy(seed)
    raw = base.tobytes()
    el, el2 = mk.elem(spec), mk.elem(other)
    before = mk.state(el)
    dc = DrawingContext(base, mk.xform(ops))
    dc.points_per_curve = PPC
    target = dc.draw
    dc.shadow_draw(el)
    expect(dc.draw is target, 'drawing target')
    expect(dc.shadow_color is None, 'shadow colour is reset')
    expect(dc.layer.getbbox() is None, 'the shadow does not go to the layer')
    same(mk.state(el), before, 'model')
    el2.draw(dc)
    plain = DrawingContext(base, mk.xform(ops))
    plain.points_per_curve = PPC
    el2.draw(plain)
    same(dc.layer.tobytes() == plain.layer.tobytes(), True, 'later drawing is not affected by the shadow')
    want = Image.alpha_composite(Image.alpha_composite(base, dc.shadow), dc.layer)
    same(dc.image().tobytes() == want.tobytes(), True, 'picture is layer over shadow over base')
    same(base.tobytes(), raw, 'base image')
    cx.nt(dc.shadow.getbbox() is not None)

    class Broken(object):
        def draw(self, dc_):
            dc_.line(0, 0, 1, 1)
            raise KeyError('broken')

    try:
        dc.shadow_draw(Broken())
    except KeyError:
        pass
    expect(dc.draw is target and dc.shadow_color is None, 'drawing target and colour after a failure')


@R.facet(st.tuples(OPS, st.lists(gen.one_of(LEAF, group_s(LEAF, 1, 3)), min_size=2, max_size=4), st.integers(6, 16), VIEW,
                   st.integers(0, 99), st.booleans(), st.booleans()).map(list), n=20)
def crowded(v, cx):
    """Many elements, or many levels, one over the other"""
    ops, kids, n, view, seed, prod, nest = v
    cx.label('nested', nest)
    if nest:
        spec = kids[0]
        for i in range(min(n, 9)):
            spec = dict(k='group', name='g', pb=[['black', 1], None], xf=[['t', 45*(i % 3 - 1), 45*(1 - i % 2)]], hidden=False,
                        elems=[dict(kids[(i+1) % len(kids)], name='side'), dict(spec, name='down')])
        spec = dict(spec, xf=ops)
    else:
        spec = dict(k='group', name='root', pb=[['black', 1], None], xf=ops, hidden=False,
                    elems=[dict(kids[i % len(kids)], name='e%d' % i, xf=[['s', 0.3, 0.3], ['t', 40*(i % 4), 40*(i//4)]])
                           for i in range(n)])
    run(spec, view, seed, prod, 'crowd', cx, size=130)


@R.facet(st.tuples(SCENE, VIEW, st.integers(0, 99), st.booleans(), st.sampled_from(['RGBA', 'RGBA', 'RGB', 'L', 'none']),
                   st.sampled_from(['drawn', 'nothing', 'hidden', 'empty', 'outside']), st.booleans()).map(list), n=120)
def taken_again(v, cx):
    """The picture belongs to the caller: painting on it shows neither in the base image nor in later pictures"""
    spec, view, seed, prod, mode, what, crop = v
    spec = mk.expand(spec)
    pts = [p for _pb, _c, ps in mk.scene(spec, ppc=PPC) for p in ps] or [(0, 0), (1, 1)]
    ops = fit(ref.box(pts), SIZE, view)
    base = None if mode == 'none' else noisy(seed).convert(mode)
    raw = base and base.tobytes()
    if what == 'outside':
        ops = ops + [['t', 9000, 9000]]
    box = None
    if crop:
        (ax, ay), (bx, by) = inv_pts(mk.mat(ops), [(5.5, 8.5), (60.5, 40.5)])
        box = (ax, ay, bx, by)
    if what == 'hidden':
        spec = dict(spec, hidden=True)
    elif what == 'empty':
        spec = dict(spec, elems=[])

    def make(spoil):
        dc = DrawingContext(base, mk.xform(ops), crop=box, prod=prod)
        out = []
        for n in range(4):
            for im in (dc.image(), dc.image(crop=False)):
                out.append((im.mode, im.size, im.tobytes()))
                if spoil:
                    im.paste((1, 2, 3, 4), (0, 0, im.size[0], im.size[1]//2 + 1))
                    im.putpixel((im.size[0]-1, im.size[1]-1), (9, 8, 7, 6))
            if n == 1 and what != 'nothing':
                mk.elem(spec).draw(dc)
        return out
    got, want = make(True), make(False)
    same(len(got), len(want), 'pictures')
    for n, (a, b) in enumerate(zip(got, want)):
        same(a == b, True, 'picture %d after painting on the earlier ones' % n)
    for n in (2, 6):
        same(want[n] == want[n-2] and want[n+1] == want[n-1], True, 'the same picture again')
    if base:
        same(base.tobytes() == raw, True, 'base image')
    cx.nt(what in ('nothing', 'hidden', 'empty', 'outside') or want[7] != want[1])
    cx.label(what)
