"""Builders: spec -> real objects of the code under test, and spec -> independent reference geometry"""
from PIL import Image

from x7.geom.geom import Point, Vector
from x7.geom.transform import Transform
from x7.geom.colors import PenBrush, Pen
from x7.geom.drawing import DrawingContext
from x7.geom.model import (
    ControlPoint, ElemCurve, ElemRectangle, ElemRectangleRounded, ElemEllipse, ElemWithHoles, Group,
)
from . import core, ref


def pt(v):
    return Point(*v)


def vec(v):
    return Vector(*v)


def mat(ops):
    """Reference matrix of a transform spec"""
    m = ref.IDENT
    for op in ops:
        k = op[0]
        if k == 't':
            n = ref.translate(op[1], op[2])
        elif k == 's':
            n = ref.scale(op[1], op[2])
        elif k == 'r':
            n = ref.rot(op[1])
        elif k == 'k':
            n = (1.0, op[1], 0.0, 0.0, 1.0, 0.0)
        elif k == 'm':
            n = tuple(op[1])
        else:
            raise ValueError(op)
        m = ref.mul(n, m)
    return m


def xform(ops):
    """A Transform with the matrix of the spec"""
    return Transform(mat(ops))


def color(v):
    return tuple(v) if isinstance(v, list) else v


def penbrush(pb):
    p, b = pb
    pen = None if p is None else Pen(color(p[0]), p[1])
    return PenBrush(pen, None if b is None else color(b))


def cp(v):
    c, dl, dr, kind = v
    return ControlPoint(Point(*c), Vector(*dl), Vector(*dr), kind)


def cps(v):
    return [cp(c) for c in v]


def cp_abs(v):
    """(c, l, r) absolute xy of a control point spec"""
    c, dl, dr, _k = v
    return tuple(c), (c[0]+dl[0], c[1]+dl[1]), (c[0]+dr[0], c[1]+dr[1])


def real_abs(cp_):
    """(c, l, r) absolute xy of a real control point, from its public parts"""
    c, dl, dr = cp_.c.xy(), cp_.dl.xy(), cp_.dr.xy()
    return tuple(c), (c[0]+dl[0], c[1]+dl[1]), (c[0]+dr[0], c[1]+dr[1])


def ellipse_cps(p1, p2):
    """Reference control points (absolute) of an ellipse"""
    (xl, yl), (xh, yh) = ((min(p1[0], p2[0]), min(p1[1], p2[1])), (max(p1[0], p2[0]), max(p1[1], p2[1])))
    cx, cy, rx, ry = (xl+xh)/2, (yl+yh)/2, (xh-xl)/2, (yh-yl)/2
    k = ref.BEZ_90
    out = []
    for ux, uy in ((1, 0), (0, -1), (-1, 0), (0, 1)):
        c = (cx + ux*rx, cy + uy*ry)
        # clockwise travel: incoming handle is counter-clockwise of c
        tx, ty = -uy*rx*k, ux*ry*k
        out.append((c, (c[0]+tx, c[1]+ty), (c[0]-tx, c[1]-ty)))
    return out


def hole_spec(h, box):
    """Concrete leaf spec for one hole placed inside box (outside's box, in the shape's internal space)"""
    kind, fx, fy, fw, fh, xf, name = h
    xl, yl, xh, yh = box
    w, hh = xh-xl, yh-yl
    cx, cy = xl + fx*w, yl + fy*hh
    p1, p2 = [cx - fw*w, cy - fh*hh], [cx + fw*w, cy + fh*hh]
    if kind == 'group':
        return dict(k='group', name=name, pb=[None, None], closed=True, hidden=False, xf=xf, elems=[
            hole_spec(['ring', fx - 0.7*fw, fy, 0.2*fw, fh, [], 'ha'], box),
            hole_spec(['rect', fx + 0.7*fw, fy, 0.2*fw, fh, [], 'hb'], box)])
    if kind == 'ring':
        return dict(k='curve', name=name, pb=[None, None], closed=True, xf=xf, cps=[
            [[p1[0], cy], [0, -fh*hh], [0, fh*hh], 'smooth'],
            [[p2[0], cy], [0, fh*hh], [0, -fh*hh], 'smooth']])
    d = dict(k=kind, name=name, pb=[None, None], xf=xf, p=[p1, p2])
    if kind == 'rrect':
        d['radius'] = min(fw*w, fh*hh) / 2
    return d


def leaf_internal_pts(s):
    """Points whose hull (box) is the documented internal box of a leaf"""
    if s['k'] == 'curve':
        return [p for c in s['cps'] for p in cp_abs(c)]
    (x1, y1), (x2, y2) = s['p']
    return [(x1, y1), (x1, y2), (x2, y2), (x2, y1)]


def outside_box(s):
    """Box of a leaf in its parent's space"""
    b = ref.box(leaf_internal_pts(s))
    corners = [(b[0], b[1]), (b[0], b[3]), (b[2], b[3]), (b[2], b[1])]
    return ref.box(ref.ap_list(mat(s['xf']), corners))


def expand(s):
    """Replace relative hole specs by concrete leaf specs (recursively)"""
    s = dict(s)
    if s['k'] == 'holes':
        box = outside_box(s['outside'])
        ins = [hole_spec(h, box) if isinstance(h, list) else h for h in s['inside']]
        s['inside'] = ins
    elif s['k'] == 'group':
        s['elems'] = [expand(e) for e in s['elems']]
    return s


def elem(s):
    """Spec -> element"""
    s = expand(s)
    k = s['k']
    pb = penbrush(s['pb'])
    xf = xform(s['xf'])
    if k == 'curve':
        return ElemCurve(s['name'], pb, cps(s['cps']), closed=s['closed'], xform=xf)
    if k == 'rect':
        return ElemRectangle(s['name'], pb, pt(s['p'][0]), pt(s['p'][1]), xform=xf)
    if k == 'ellipse':
        return ElemEllipse(s['name'], pb, pt(s['p'][0]), pt(s['p'][1]), xform=xf)
    if k == 'rrect':
        return ElemRectangleRounded(s['name'], pb, pt(s['p'][0]), pt(s['p'][1]), s['radius'], xform=xf)
    if k == 'holes':
        return ElemWithHoles(s['name'], pb, elem(s['outside']), [elem(e) for e in s['inside']],
                             closed=s.get('closed', True), xform=xf)
    if k == 'group':
        return Group(s['name'], pb, hidden=s['hidden'], xform=xf, elems=[elem(e) for e in s['elems']],
                     closed=s.get('closed', False))
    raise ValueError(k)


def dc(matrix=None, size=8, ppc=None):
    """A drawing context over a tiny image; matrix is a transform spec"""
    d = DrawingContext(Image.new('RGBA', (size, size), 'white'), xform(matrix or []))
    if ppc is not None:
        d.points_per_curve = ppc
    return d


def path_pts(path):
    """xy list of a Path"""
    return [tuple(p) for p in path.points.tolist()]


def paths_sig(el, d):
    """[(penbrush, closed, points)] of an element in a context"""
    return [(p.penbrush, p.closed, path_pts(p)) for p in el.paths(d)]


def big(spec):
    """Largest coordinate magnitude a model spec can reach, for tolerances"""
    spec = expand(spec)
    k = spec['k']
    m = mat(spec['xf'])
    if k == 'holes':
        inner = max([big(spec['outside'])] + [big(e) for e in spec['inside']])
    elif k == 'group':
        inner = max([core.UNIT[0]] + [big(e) for e in spec['elems']])
    else:
        inner = core.UNIT[0] + max(abs(v) for p in leaf_internal_pts(spec) for v in p) + spec.get('radius', 0)
    return core.UNIT[0] + ref.norm(m)*inner + ref.shift(m)


def scaled_ops(ops, f):
    """The same operations on a geometry f times as large"""
    out = []
    for op in ops:
        if op[0] == 't':
            out.append(['t', op[1]*f, op[2]*f])
        elif op[0] == 'm':
            a, b, c, d, e, g = op[1]
            out.append(['m', [a, b, c*f, d, e, g*f]])
        else:
            out.append(op)
    return out


def scaled(spec, f):
    """The model spec f times as large, with the same pens"""
    s = dict(expand(spec))
    s['xf'] = scaled_ops(s['xf'], f)
    if 'cps' in s:
        s['cps'] = [[[v*f for v in c], [v*f for v in dl], [v*f for v in dr], k] for c, dl, dr, k in s['cps']]
    if 'p' in s:
        s['p'] = [[v*f for v in p] for p in s['p']]
    if 'radius' in s:
        s['radius'] = s['radius']*f
    if 'outside' in s:
        s['outside'] = scaled(s['outside'], f)
        s['inside'] = [scaled(e, f) for e in s['inside']]
    if 'elems' in s:
        s['elems'] = [scaled(e, f) for e in s['elems']]
    return s


def count_leaves(spec):
    if spec['k'] == 'holes':
        return 1 + len(spec['inside'])
    if spec['k'] == 'group':
        return sum(count_leaves(e) for e in spec['elems'])
    return 1


def depth(spec):
    if spec['k'] == 'group':
        return 1 + max([0] + [depth(e) for e in spec['elems']])
    if spec['k'] == 'holes':
        return 1
    return 0


def state(e):
    """Everything observable about an element, as nested tuples"""
    if isinstance(e, Group):
        rest = (bool(e.hidden), tuple((k, state(v)) for k, v in e.elems.items()),
                tuple((k, tuple(p.xy())) for k, p in e.points.items()))
    elif isinstance(e, ElemWithHoles):
        rest = (state(e.outside), tuple(state(v) for v in e.inside))
    elif isinstance(e, ElemCurve):
        rest = tuple((real_abs(c), c.kind) for c in e.control_points)
    else:
        rest = (tuple(e.p1.xy()), tuple(e.p2.xy()), getattr(e, 'radius', None))
    return type(e).__name__, e.name, repr(e.penbrush), bool(e.closed), tuple(e.xform.as_6tuple()), rest


def map_path(m, pts):
    return [ref.ap(m, p) for p in pts]


def leaf_path(s, ppc=80):
    """Internal path of a leaf spec, taken from the same leaf with no transform under the identity context"""
    s = dict(s)
    s['xf'] = []
    (p,) = elem(s).paths(dc([], 8, ppc))
    return path_pts(p)


def scene(s, m=ref.IDENT, ppc=80, pb=None, joined=True):
    """
    Expected [(penbrush, closed, points)] of a model spec: internal geometry of each leaf mapped through every
    enclosing transform, innermost first, then m.
    """
    s = expand(s)
    m = ref.mul(m, mat(s['xf']))
    pb = s['pb'] if pb is None else pb
    if s['k'] == 'group':
        if s['hidden']:
            return []
        return [p for e in s["elems"] for p in scene(e, m, ppc, None, joined)]
    if s['k'] == 'holes':
        edge = PenBrush(penbrush(pb).pen, None)
        fill = PenBrush(None, penbrush(pb).brush)
        parts = [scene(e, m, ppc, pb) for e in [s['outside']] + s['inside']]
        edges = [(edge, c, pts) for part in parts for _pb, c, pts in part]
        if fill.brush and joined:
            pts = list(edges[0][2])
            last = pts[-1]
            for _e, _c, hole in edges[1:]:
                pts += list(hole) + [last]
            return [(fill, edges[0][1], pts)] + edges
        return edges
    return [(penbrush(pb), s.get('closed', True), map_path(m, leaf_path(s, ppc)))]


def far_point(a, b, tol):
    """A vertex of a further than tol from the polyline b, or None"""
    import numpy as np
    pa = np.array(a, dtype=float)
    pb = np.array(b, dtype=float)
    p, q = (pb[:-1], pb[1:]) if len(pb) > 1 else (pb, pb)
    d = q - p
    dd = (d*d).sum(1)
    dd = np.where(dd == 0, 1, dd)
    rel = pa[:, None, :] - p[None]
    t = np.clip((rel*d[None]).sum(2)/dd, 0, 1)
    dist = np.hypot(*np.moveaxis(rel - t[..., None]*d[None], 2, 0)).min(1)
    i = int(dist.argmax())
    return None if dist[i] <= tol else (tuple(a[i]), float(dist[i]))


def same_fill(a, b, tol):
    """Do two closed polygons enclose the same area (even-odd), judged on a grid of points away from both outlines?"""
    xl, yl, xh, yh = ref.box(list(a) + list(b))
    margin = max(10*tol, 1e-6*max(xh-xl, yh-yl))
    for i in range(11):
        for j in range(11):
            p = (xl + (i+0.37)/11*(xh-xl), yl + (j+0.61)/11*(yh-yl))
            if far_point([p], a, margin) and far_point([p], b, margin):
                if ref.inside_poly(p, a) != ref.inside_poly(p, b):
                    return p
    return None


def same_paths(got, want, tol, what='', outline=False):
    """
    Compare two [(penbrush, closed, points)].  With outline, closed paths may start elsewhere or run the other way
    round, as long as they trace the same line; joined filled paths then need to enclose the same area.
    """
    from .core import same, near_pts, fail, Violation
    same(len(got), len(want), '%s: number of paths' % what)
    for i, ((gp, gc, gpts), (wp, wc, wpts)) in enumerate(zip(got, want)):
        same(gp, wp, '%s: pen and brush of path %d' % (what, i))
        same(bool(gc), bool(wc), '%s: closedness of path %d' % (what, i))
        try:
            near_pts(gpts, wpts, tol, '%s: path %d' % (what, i))
        except Violation:
            if not outline or not gc or not gpts or not wpts:
                raise
            if gp.filled and not gp.stroked:
                bad = same_fill(gpts, wpts, tol)
                if bad:
                    fail('%s: path %d: %r is inside one and outside the other', what, i, bad)
            else:
                bad = far_point(gpts, wpts, tol)
                if bad:
                    fail('%s: path %d: %r is %g away from the expected outline', what, i, *bad)
                bad = far_point(wpts, gpts, tol)
                if bad:
                    fail('%s: path %d: %r is expected but %g away from the outline', what, i, *bad)


def simple_chain(s):
    """True if every transform in the model is built from scales and translations only"""
    ok = all(op[0] in 'st' for op in s['xf'])
    if s['k'] == 'group':
        return ok and all(simple_chain(e) for e in s['elems'])
    if s['k'] == 'holes':
        return ok and simple_chain(s['outside'])
    return ok
