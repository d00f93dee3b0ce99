"""C40: editing aids and shadows are drawn where the model is"""
import math
import numpy as np
from hypothesis import strategies as st
from PIL import Image
from x7.geom.drawing import DrawingContext
from harness import gen, mk, ref
from harness.core import Registry, expect, same, fail, near, near_pts
from checks import c32

R = Registry('C40', 'Shapes of every kind, shapes with holes and nested, hidden and transformed groups drawn with control '
             'points shown, with debugging dots, in draft and production, and with shadows, through rotated, mirrored and '
             'scaled contexts over noisy base images; grids through such contexts. Marks, connecting lines, dots, grid lines '
             'and the extent of shadows are compared with positions computed by hand. Non-trivial: some mark, line, dot or '
             'shadow inside the canvas and some canvas certainly free.')

SIZE = 110
GREY, RED = (128, 128, 128, 255), (255, 0, 0, 255)
VIEW = c32.VIEW


def strip(s):
    """The model without pens and brushes"""
    s = dict(s, pb=[None, None])
    if s['k'] == 'group':
        s['pb'] = [['black', 1], None]
        s['elems'] = [strip(e) for e in s['elems']]
    elif s['k'] == 'holes':
        s['outside'] = strip(s['outside'])
        s['inside'] = [strip(e) for e in s['inside']]
    return s


def marks(s, m=ref.IDENT, pb=None):
    """[(c, l, r) or (corner, None, None)] in drawing order, mapped"""
    m = ref.mul(m, mk.mat(s['xf']))
    if s['k'] == 'group':
        if s.get('hidden'):
            return []
        return [x for e in s['elems'] for x in marks(e, m)]
    if s['k'] == 'holes':
        return [x for e in [s['outside']] + s['inside'] for x in marks(e, m)]
    if s['k'] == 'curve':
        return [tuple(ref.ap(m, p) for p in mk.cp_abs(c)) for c in s['cps']]
    if s['k'] == 'ellipse':
        return [tuple(ref.ap(m, p) for p in c) for c in mk.ellipse_cps(*s['p'])]
    if s['k'] == 'rect':
        return [(ref.ap(m, p), None, None) for p in mk.leaf_internal_pts(s)]
    return None


def dist_seg(x, y, a, b):
    dx, dy = b[0]-a[0], b[1]-a[1]
    q = dx*dx + dy*dy
    t = np.clip(((x-a[0])*dx + (y-a[1])*dy)/q, 0, 1) if q else 0
    return np.hypot(x - a[0] - t*dx, y - a[1] - t*dy)


def no_rrect(s):
    if s['k'] == 'rrect':
        return dict({k: v for k, v in s.items() if k != 'radius'}, k='ellipse')
    if s['k'] == 'group':
        return dict(s, elems=[no_rrect(e) for e in s['elems']])
    if s['k'] == 'holes':
        return dict(s, outside=no_rrect(s['outside']), inside=[no_rrect(e) for e in s['inside']])
    return s


def canvas(seed):
    return c32.noisy(seed, size=(SIZE, SIZE))


def fitted(spec, view):
    pts = [p for _pb, _c, ps in mk.scene(spec, ppc=c32.PPC) for p in ps] or [(0, 0), (1, 1)]
    return c32.fit(ref.box(pts), SIZE, view)


@R.facet(st.tuples(gen.one_of(c32.LEAF, c32.SCENE), VIEW, st.integers(0, 99), st.booleans()).map(list), n=350)
def control_points(v, cx):
    """Every control point: a square at the point, dots at the handles, lines between; nothing else"""
    spec, view, seed, prod = v
    spec = strip(no_rrect(mk.expand(spec)))
    ops = fitted(spec, view)
    base = canvas(seed)
    el = mk.elem(spec)
    before = mk.state(el)
    dc = DrawingContext(base, mk.xform(ops), prod=prod)
    dc.points_per_curve = c32.PPC
    el.draw(dc)
    same(dc.image().tobytes() == base.tobytes(), True, 'nothing is shown unless asked for')
    dc.show_cps = True
    el.draw(dc)
    same(mk.state(el), before, 'model')
    data = np.array(dc.image())
    layer = np.array(dc.layer)
    y, x = np.mgrid[0:SIZE, 0:SIZE].astype(float)
    free = np.ones((SIZE, SIZE), bool)
    spots = []      # (center, mark) in drawing order
    lines = []
    for c, l, r in marks(spec, mk.mat(ops)):
        if l is not None:
            lines += [(len(spots), c, l), (len(spots), c, r)]
            spots += [(l, False), (r, False)]
        spots.append((c, True))
    for (px, py), _sq in spots:
        free &= ~((np.abs(x-px) <= 7) & (np.abs(y-py) <= 7))
    for _i, a, b in lines:
        free &= dist_seg(x, y, a, b) > 2
    if (layer[..., 3] > 0)[free].any():
        yy, xx = np.argwhere((layer[..., 3] > 0) & free)[0]
        fail('pixel (%d, %d) is painted %r away from all marks', int(xx), int(yy), data[yy, xx].tolist())
    for (px, py), square in spots:
        body = (np.abs(x-px) <= 4) & (np.abs(y-py) <= 4) if square else np.hypot(x-px, y-py) <= 4
        if not (layer[..., 3] == 255)[body].all():
            fail('the %s at (%.2f, %.2f) is missing', 'square' if square else 'dot', px, py)
    seen = 0
    for i, ((px, py), square) in enumerate(spots):
        later = spots[i+1:]
        if not (8 <= px < SIZE-8 and 8 <= py < SIZE-8):
            continue
        # lines of later points may cross: leave those out
        if any(abs(qx-px) <= 13 and abs(qy-py) <= 13 for (qx, qy), _s in later):
            continue
        near_line = [ln for ln in lines if ln[0] > i and float(dist_seg(px, py, ln[1], ln[2])) < 10]
        if near_line:
            continue
        seen += 1
        xi, yi = int(round(px)), int(round(py))
        core = data[yi-2:yi+3, xi-2:xi+3].reshape(-1, 4)
        expect((core == GREY).all(), 'mark at (%.2f, %.2f) is not filled grey: %r', px, py, core.tolist()[:3])
        for dx, dy in ((-1, 0), (1, 0), (0, -1), (0, 1)):
            ring = [tuple(data[yi + k*dy, xi + k*dx].tolist()) for k in (4, 5, 6)]
            expect(RED in ring, 'mark at (%.2f, %.2f) has no red edge towards (%d, %d): %r', px, py, dx, dy, ring)
        # corners tell squares from dots: the reach of a dot along the diagonal is shorter
        for dx, dy in ((-1, -1), (1, -1), (-1, 1), (1, 1)):
            corner = [tuple(layer[yi + k*dy, xi + k*dx].tolist()) for k in (5, 6)]
            if square:
                expect(RED in corner or tuple(layer[yi+4*dy, xi+4*dx].tolist()) == RED,
                       'no square corner at (%.2f, %.2f)', px, py)
            elif not any(float(dist_seg(px + 6*dx, py + 6*dy, a, b)) < 4 for _i, a, b in lines) and \
                    not any(abs(qx-px) <= 14 and abs(qy-py) <= 14 for k, ((qx, qy), _s) in enumerate(spots) if k != i):
                expect(corner[1][3] == 0, 'dot at (%.2f, %.2f) is not round', px, py)
    for i, a, b in lines:
        mid = ((a[0]+b[0])/2, (a[1]+b[1])/2)
        xi, yi = int(round(mid[0])), int(round(mid[1]))
        if 2 <= xi < SIZE-2 and 2 <= yi < SIZE-2:
            around = layer[yi-1:yi+2, xi-1:xi+2].reshape(-1, 4)
            expect((around == GREY).all(axis=1).any() or (around == RED).all(axis=1).any(),
                   'no line from point to handle near (%.2f, %.2f)', *mid)
    colors = {tuple(c) for c in layer.reshape(-1, 4).tolist()}
    expect(colors <= {GREY, RED, (0, 0, 0, 0)}, 'colours %r', sorted(colors)[:5])
    cx.nt(seen > 1 and free.sum() > 50)
    cx.label('handles', bool(lines))


def hide(s, flags):
    if s['k'] == 'group':
        s = dict(s, hidden=flags.pop() if flags else False)
        s['elems'] = [hide(e, flags) for e in s['elems']]
    return s


@R.facet(st.tuples(gen.model(), st.lists(st.booleans(), min_size=3, max_size=6), gen.xform()).map(list), n=250)
def hidden_groups(v, cx):
    """Whatever is in a hidden group, at any depth, has no control points shown; all the rest has, in order"""
    spec, flags, ops = v
    spec = no_rrect(mk.expand(hide(spec, list(flags) + [False])))
    el = mk.elem(spec)
    got = [p for path in el.control_paths(mk.dc(ops)) for p in path.points]
    want = marks(spec, mk.mat(ops))
    same(len(got), len(want), 'number of control points')
    tol = 1e-9*(mk.big(spec)*(1+ref.norm(mk.mat(ops))) + ref.shift(mk.mat(ops)))
    for g, w in zip(got, want):
        near_pts(mk.real_abs(g) if w[1] else [g.xy()], w if w[1] else w[:1], tol, 'control point')
    cx.nt('group' in [e['k'] for e in spec['elems']] and any(flags))


@R.facet(st.tuples(c32.leaf_s(), VIEW, st.integers(0, 99), st.booleans(), gen.fl(5, 14)).map(list), n=300)
def dots(v, cx):
    """Debugging dots are as wide as the pen and lie at the outline's points, drafts are one pixel wide"""
    spec, view, seed, prod, width = v
    spec = mk.expand(dict(spec, pb=[['#103050', width], None]))
    if spec['k'] in ('rrect',):
        spec = no_rrect(spec)
    ops = fitted(spec, view)
    m = mk.mat(ops)
    ((_pb, _c, pts),) = mk.scene(spec, m, c32.PPC)
    images = []
    for debug in (True, False):
        dc = DrawingContext(canvas(seed), mk.xform(ops), prod=prod)
        dc.points_per_curve = c32.PPC
        dc.debug = debug
        mk.elem(spec).draw(dc)
        images.append(np.array(dc.layer))
    pen = (0x10, 0x30, 0x50, 255)
    y, x = np.mgrid[0:SIZE, 0:SIZE].astype(float)
    dist, _perp = c32.seg_dist(x, y, pts)
    rad = max(1, round(width))/2
    with_, without = images
    seen = 0
    at = np.full((SIZE, SIZE), np.inf)
    for px, py in pts:
        at = np.minimum(at, np.hypot(x-px, y-py))
    # with dots: all pixels well within the radius of some point are painted
    disc = at <= rad - 1.5
    seen = int(disc.sum())
    got = with_[disc]
    ok = (got == pen).all(axis=1) | ((got == RED).all(axis=1) if not prod else False)
    expect(ok.all(), 'dot pixels not painted: %r', got[~ok][:3].tolist())
    far = (dist > rad + 2) & (at > rad + 2)
    expect((with_[far][:, 3] == 0).all(), 'painted further than the pen reaches')
    reds = (with_ == RED).all(axis=2)
    if prod:
        expect(not reds.any(), 'red edges of dots in production')
    elif rad > 2 and any(10 < px < SIZE-10 and 10 < py < SIZE-10 for px, py in pts):
        # the last point's dot keeps its red edge
        expect(reds.any(), 'no red edge of a dot in a draft')
        expect((np.abs(at[reds] - rad) >= 0).all() and (at[reds] <= rad + 2).all(), 'red away from dots')
    expect(not (without == RED).all(axis=2).any(), 'red without dots')
    if not prod:
        expect((without[dist > 2][:, 3] == 0).all(), 'a draft without dots is wider than a pixel')
    else:
        painted = (without == pen).all(axis=2)
        expect(not painted[far].any(), 'painted further than the pen reaches')
    cx.nt(seen > 10)
    cx.label('draft', not prod)


@R.facet(st.tuples(c32.leaf_s(), VIEW, st.integers(0, 99), st.booleans(), gen.fl(0, 4)).map(list), n=100)
def no_dots_when_thin(v, cx):
    """Thin pens have no dots: debugging or not is the same picture"""
    spec, view, seed, prod, width = v
    spec = mk.expand(dict(spec, pb=[['#103050', min(width, 4)], spec['pb'][1]]))
    ops = fitted(spec, view)
    out = []
    for debug in (True, False):
        dc = DrawingContext(canvas(seed), mk.xform(ops), prod=prod)
        dc.points_per_curve = c32.PPC
        dc.debug = debug
        mk.elem(spec).draw(dc)
        out.append(dc.image().tobytes())
    cx.nt(out[0] != canvas(seed).tobytes())
    same(out[0] == out[1], True, 'dots for a thin pen')


GRID = [((1000, 0), (-1000, 0), 'red'), ((0, 1000), (0, -1000), 'red')] + [
    (a, b, c) for r, c in ((100, 'black'), (50, 'green'), (10, 'blue'))
    for a, b in (((-r, r), (r, r)), ((r, -r), (r, r)), ((r, -r), (-r, -r)), ((-r, -r), (-r, r)))]


@R.facet(st.tuples(st.sampled_from([0.3, 0.45, 1, 2, 4.5]), st.booleans(), gen.one_of(gen.fl(-180, 180), st.sampled_from([0, 90])),
                   gen.fl(-30, 30), gen.fl(-30, 30), st.integers(0, 99)).map(list), n=250)
def grid(v, cx):
    """Axes in red, squares of half side 10, 50 and 100 in blue, green and black, mapped as everything else"""
    k, flip, ang, dx, dy, seed = v
    ops = [['s', k, -k if flip else k], ['r', ang], ['t', SIZE/2 + dx, SIZE/2 + dy]]
    m = mk.mat(ops)
    base = canvas(seed)
    dc = DrawingContext(base, mk.xform(ops))
    dc.grid()
    layer = np.array(dc.layer)
    y, x = np.mgrid[0:SIZE, 0:SIZE].astype(float)
    total = np.full((SIZE, SIZE), np.inf)
    dists = []
    for a, b, c in GRID:
        a, b = ref.ap(m, a), ref.ap(m, b)
        d = dist_seg(x, y, a, b)
        dists.append((d, a, b, c32.rgba(c)))
        total = np.minimum(total, d)
    expect((layer[total > 2.6][:, 3] == 0).all(), 'painted away from the grid')
    seen = 0
    for i, (d, a, b, c) in enumerate(dists):
        others = np.full((SIZE, SIZE), np.inf)
        for j, (e, *_r) in enumerate(dists):
            if j != i:
                others = np.minimum(others, e)
        n = int(math.dist(a, b)/3) + 2
        for t in range(1, n):
            px, py = a[0] + (b[0]-a[0])*t/n, a[1] + (b[1]-a[1])*t/n
            xi, yi = int(round(px)), int(round(py))
            if 3 <= xi < SIZE-3 and 3 <= yi < SIZE-3 and others[yi, xi] > 7:
                around = layer[yi-2:yi+3, xi-2:xi+3].reshape(-1, 4)
                seen += 1
                expect((around == c).all(axis=1).any(), 'no %r near (%.2f, %.2f) of the line from %r to %r', c, px, py, a, b)
                near(len({tuple(q) for q in around.tolist()} - {(0, 0, 0, 0)}), 1, 0, 'colours there')
    cx.nt(seen > 20)


SHADOW = gen.one_of(st.none(), st.tuples(*[st.integers(0, 255)]*3).map(lambda c: list(c) + [255]))


@R.facet(st.tuples(c32.leaf_s(), VIEW, st.integers(0, 99), SHADOW, c32.COL, st.booleans()).map(list), n=250)
def shadows(v, cx):
    """Shadows: of the given colour, solid under the shape, towards the lower right, fading, nowhere else"""
    spec, view, seed, color, fill, holes = v
    if spec['k'] == 'curve':
        spec = dict(spec, closed=True)
    spec = mk.expand(dict(spec, pb=[None, fill]))
    ang, flip, sx, dx, dy = view
    pts = [p for _pb, _c, ps in mk.scene(spec, ppc=c32.PPC) for p in ps]
    box = ref.box(pts)
    # away from the rim, so that nothing wraps around
    k = 0.5
    ops = c32.fit(box, SIZE*k, [ang, flip, sx, 0, 0]) + [['t', SIZE*(1-k)/2 - 15, SIZE*(1-k)/2 - 13]]
    m = mk.mat(ops)
    base = canvas(seed)
    raw = base.tobytes()
    dc = DrawingContext(base, mk.xform(ops))
    dc.points_per_curve = c32.PPC
    if color is None:
        dc.shadow_draw(mk.elem(spec))
        color = (140, 140, 170, 255)
    else:
        dc.shadow_draw(mk.elem(spec), tuple(color))
    same(base.tobytes() == raw, True, 'base image')
    plain = DrawingContext(base, mk.xform(ops))
    plain.points_per_curve = c32.PPC
    mk.elem(spec).draw(plain)
    cast = dc.shadow.copy()
    mk.elem(spec).draw(dc)
    same(dc.layer.tobytes() == plain.layer.tobytes(), True, 'the shape itself, drawn over its shadow')
    same(dc.shadow.tobytes() == cast.tobytes(), True, 'the shadow after the shape was drawn')
    same(dc.image().tobytes() == Image.alpha_composite(Image.alpha_composite(base, cast), plain.layer).tobytes(), True,
         'the picture: shape over shadow over base')
    dc.layer.paste((0, 0, 0, 0), (0, 0, SIZE, SIZE))
    shadow = np.array(dc.shadow).astype(int)
    same(shadow.shape[:2], (SIZE, SIZE), 'size')
    alpha = shadow[..., 3]
    y, x = np.mgrid[0:SIZE, 0:SIZE].astype(float)
    ((_pb, _c, path),) = mk.scene(spec, m, c32.PPC)
    invisible = mk.color(fill) == (0, 0, 0, 0)
    if invisible:
        same(int(alpha.max()), 0, 'shadow of an invisible shape')
        same(dc.image().tobytes() == base.tobytes(), True, 'picture without shadow')
        return
    ins = c32.inside(x, y, path)
    dist, _ = c32.seg_dist(x, y, path)
    certain = ins & (dist > 2)
    possible = ins | (dist <= 2)
    expect((alpha[certain] == 255).all(), 'the shadow is not solid under the shape')
    if certain.any():
        dark = alpha > 0
        expect((shadow[dark][:, :3] == np.array(color[:3])).all(), 'colour %r of the shadow, expected %r',
               shadow[dark][0].tolist(), color)
    # displaced by (4, 3): well inside the displaced shape it is dark
    def moved(mask, kx, ky):
        return np.roll(np.roll(mask, kx, 1), ky, 0)
    deep = moved(ins & (dist > 6), 4, 3)
    expect((alpha[deep] >= 200).all(), 'no shadow at the lower right: %r', int(alpha[deep].min()) if deep.any() else None)
    deepest = ins & (dist > 16)
    for step in range(2, 7):
        there = moved(deepest, 4*step, 3*step)
        low = 255*0.95**step - 12
        expect((alpha[there] >= low).all(), 'the shadow is too faint after %d steps', step)
    reach = np.zeros_like(ins)
    for step in range(0, 7):
        reach |= moved(possible, 4*step, 3*step)
    near_ = np.zeros_like(ins)
    for kx in range(-18, 19):
        near_ |= moved(reach, kx, 0)
    wide = np.zeros_like(ins)
    for ky in range(-18, 19):
        wide |= moved(near_, 0, ky)
    expect((alpha[~wide] == 0).all(), 'shadow far from the shape')
    cx.nt(certain.sum() > 30 and (~wide).sum() > 30)
    want = Image.alpha_composite(base, dc.shadow)
    same(dc.image().tobytes() == want.tobytes(), True, 'picture is the shadow over the base')


FILLS = st.sampled_from(['red', 'black', 'white', '#000000', [0, 0, 0], [0, 0, 0, 255], [255, 255, 255], [255, 255, 255, 0],
                         [0, 0, 0, 1], [140, 140, 170, 255]])


@R.facet(st.tuples(st.integers(0, 99), SHADOW, gen.fl(0, 360), st.sampled_from(['rect', 'ellipse']), FILLS).map(list), n=90)
def shadow_of_everything(v, cx):
    """A shape that covers the whole picture casts a solid shadow of the given colour everywhere"""
    seed, color, ang, k, fill = v
    spec = dict(k=k, name='r', pb=[None, fill], xf=[['r', ang]], p=[[-400, -400], [400, 400]])
    base = canvas(seed)
    dc = DrawingContext(base, mk.xform([]))
    dc.shadow_draw(mk.elem(spec), **({} if color is None else dict(color=tuple(color))))
    cx.nt(color is not None)
    want = tuple(color or (140, 140, 170, 255))
    same(dc.shadow.getcolors(), [(SIZE*SIZE, want)], 'colours of the shadow')
    same(dc.image().getcolors(), [(SIZE*SIZE, want)], 'colours of the picture')


TWO = st.tuples(*[st.tuples(st.sampled_from(['rect', 'ellipse']), st.integers(20, 70), st.integers(20, 70), st.integers(8, 25),
                            st.integers(8, 25)).map(list)]*2).map(list)


@R.facet(st.tuples(TWO, st.integers(0, 99), SHADOW, st.booleans()).map(list), n=60)
def two_shadows(v, cx):
    """The shadow of a second shape joins that of the first: solid under both, and nothing of the first is lost"""
    shapes, seed, color, draw_between = v
    specs = [dict(k=k, name='r', pb=[None, 'red'], xf=[], p=[[x-w, y-h], [x+w, y+h]]) for k, x, y, w, h in shapes]
    kw = {} if color is None else dict(color=tuple(color))
    color = tuple(color or (140, 140, 170, 255))
    base = canvas(seed)
    dc = DrawingContext(base, mk.xform([]))
    dc.points_per_curve = c32.PPC
    alone = []
    for spec in specs:
        one = DrawingContext(base, mk.xform([]))
        one.points_per_curve = c32.PPC
        one.shadow_draw(mk.elem(spec), **kw)
        alone.append(np.array(one.shadow).astype(int)[..., 3])
    y, x = np.mgrid[0:SIZE, 0:SIZE].astype(float)
    solid = []
    for spec in specs:
        ((_pb, _c, path),) = mk.scene(spec, mk.mat([]), c32.PPC)
        dist, _ = c32.seg_dist(x, y, path)
        solid.append(c32.inside(x, y, path) & (dist > 2))
    for i, spec in enumerate(specs):
        dc.shadow_draw(mk.elem(spec), **kw)
        if draw_between:
            mk.elem(spec).draw(dc)
        got = np.array(dc.shadow).astype(int)
        for j in range(i+1):
            expect((got[..., 3][solid[j]] == 255).all(), 'the shadow under shape %d after %d were cast', j, i+1)
            # (brightness is rounded down at every step)
            low = alone[j] - 2
            expect((got[..., 3] >= low).all(), 'the shadow of shape %d is fainter after %d were cast: %r', j, i+1,
                   int((low - got[..., 3]).max()))
        dark = got[..., 3] > 0
        expect((got[dark][:, :3] == np.array(color[:3])).all(), 'colour of the shadow')
    cx.nt(solid[0].sum() > 100 and solid[1].sum() > 100)
