"""Edits of elements made between two questions, and fresh elements made from the parts of edited ones"""
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector
from x7.geom.colors import PenBrush, Pen
from x7.geom.transform import Transform
from x7.geom.bezier import ControlPoint
from x7.geom.model import ElemCurve, ElemEllipse, ElemWithHoles, ElemRectangle, ElemRectangleRounded, Group
from harness import gen
from harness.core import Violation

KINDS = ['pt', 'pt', 'pt_new', 'handle', 'handle_new', 'more', 'less', 'xf', 'xf', 'xf_new', 'pen', 'name', 'closed']
EDIT = st.tuples(st.integers(0, 40), st.sampled_from(KINDS), st.integers(0, 5), gen.coord(90), gen.coord(90)).map(list)
EDITS = st.lists(EDIT, min_size=1, max_size=3)


def nodes(e, parts):
    """All elements of a model; with parts also the ones that shapes with holes are made of"""
    out = [e]
    if isinstance(e, Group):
        for c in e.elems.values():
            out += nodes(c, parts)
    elif isinstance(e, ElemWithHoles) and parts:
        for c in [e.outside] + e.inside:
            out += nodes(c, parts)
    return out


def edit(root, o, parts=False):
    """Change something in place; the parts of shapes with holes (which have to stay inside) only if asked to"""
    pick, k, i, x, y = o
    all_ = nodes(root, parts)
    e = all_[pick % len(all_)]
    if k == 'xf':
        [lambda: e.xform.translate(x, y), lambda: e.xform.scale(2, 3), lambda: e.xform.rotate(30),
         lambda: e.xform.reset(), lambda: e.xform.compose(Transform((1, 2, x, 3, 4, y))),
         lambda: e.xform.set_matrix(Transform((2, 0, x, 0, 1, y)))][i]()
    elif k == 'xf_new':
        e.xform = Transform((1, 0, x, i, 1, y))
    elif k == 'pen':
        pen = [None, Pen('red'), Pen('green', 3), Pen('blue', -2), Pen('cyan', -0.5), Pen((1, 2, 3))][i]
        e.penbrush = PenBrush(pen, e.penbrush.brush if x > 0 or not e.closed else 'orange')
    elif k == 'name':
        e.name = 'renamed%d' % i
    elif k == 'closed' and isinstance(e, (ElemCurve, Group)):
        if not e.penbrush.filled:
            e.closed = not e.closed
    elif isinstance(e, Group):
        names = list(e.elems)
        if k == 'more' and 'new%d' % i not in e.elems:
            e.add('new%d' % i, ElemRectangle('n', PenBrush('red'), Point(x, y), Point(x+1, y+2)))
        elif k == 'less' and len(names) > 1:
            del e.elems[names[i % len(names)]]
        elif k in ('pt', 'pt_new') and names:
            n = names[i % len(names)]
            e.elems[n] = ElemEllipse(n, PenBrush('red'), Point(x, y), Point(x+2, y+1))
        elif k == 'handle':
            e.hidden = not e.hidden
    elif isinstance(e, ElemWithHoles):
        if k in ('less', 'pt') and e.inside:
            del e.inside[i % len(e.inside)]
    elif isinstance(e, ElemCurve):
        cps = e.control_points
        cp = cps[i % len(cps)]
        if k == 'pt':
            cp.c.setxy(x, y)
        elif k == 'pt_new':
            cp.c = Point(x, y)
        elif k == 'handle':
            (cp.dl if x > 0 else cp.dr).setxy(x, y)
        elif k == 'handle_new':
            cp.dr = Vector(x, y)
        elif k == 'more':
            cps.insert(i % len(cps), ControlPoint(Point(x, y), Vector(1, 2), Vector(-2, 1)))
        elif k == 'less' and len(cps) > 2:
            del cps[i % len(cps)]
    else:
        if k == 'pt':
            (e.p1 if i % 2 else e.p2).setxy(x, y)
        elif k == 'pt_new':
            e.p1 = Point(x, y)
        elif k == 'handle_new':
            e.p2 = Point(x, y)
        elif k in ('more', 'less', 'handle') and isinstance(e, ElemRectangleRounded):
            e.radius = 1 + i


def _pt(p):
    return Point(*p.xy())


def _vec(v):
    return Vector(*v.xy())


def rebuilt(e):
    """A new element made from the parts of e by its constructor, sharing nothing with e"""
    xf = Transform(e.xform.as_6tuple())
    pb = e.penbrush
    pb = PenBrush(pb.pen and Pen(pb.pen.brush.color, pb.pen.width), pb.brush and pb.brush.color)
    if isinstance(e, Group):
        return Group(e.name, pb, hidden=e.hidden, xform=xf, elems={k: rebuilt(v) for k, v in e.elems.items()},
                     points={k: _pt(p) for k, p in e.points.items()}, closed=e.closed)
    if isinstance(e, ElemWithHoles):
        out, ins = rebuilt(e.outside), [rebuilt(h) for h in e.inside]
        pens = [out.penbrush] + [h.penbrush for h in ins]
        new = ElemWithHoles(e.name, pb, out, ins, closed=e.closed, xform=xf)
        for part, pen in zip([out] + ins, pens):
            part.penbrush = pen
        return new
    if isinstance(e, ElemCurve):
        return ElemCurve(e.name, pb, [ControlPoint(_pt(c.c), _vec(c.dl), _vec(c.dr), c.kind) for c in e.control_points],
                         closed=e.closed, xform=xf)
    if isinstance(e, ElemRectangleRounded):
        return ElemRectangleRounded(e.name, pb, _pt(e.p1), _pt(e.p2), e.radius, xform=xf)
    return type(e)(e.name, pb, _pt(e.p1), _pt(e.p2), xform=xf)


def alike(a, b):
    """Equal, numbers up to rounding"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= 1e-9*(1 + abs(a) + abs(b))
        except TypeError:
            return False
    return a == b


def same(a, b, what):
    if not alike(a, b):
        raise Violation('%s: got %r, expected %r' % (what, a, b))


def asked_again(e, edits, asks, what, parts=False):
    """
    The answer for an element asked before, between and after edits is the one for a new element of the same parts.
    asks: the questions in turn, functions of an element.
    """
    first = [ask(e) for ask in asks]
    changed = False
    for o in edits:
        edit(e, o, parts)
        want = [ask(rebuilt(e)) for ask in asks]
        for n, ask in enumerate(asks + asks[:1]):
            same(ask(e), want[n % len(asks)], what + ' after an edit')
        changed = changed or want != first
    return changed


SHARE = st.lists(st.tuples(st.sampled_from(['child', 'child', 'child', 'hole', 'xform', 'pen', 'corners', 'cp', 'cp', 'handle']),
                           st.integers(0, 40), st.integers(0, 40)).map(list), min_size=1, max_size=4)


STAGES = dict(handle=0, cp=1, xform=1, pen=1, corners=1, hole=2, child=3)


def sharing(make, picks):
    """
    (apart, shared, how often): the same model twice. In the second one elements, transforms, pens, points occur at
    several places as one object, in the first one these are equal objects.
    """
    both = make(), make()
    count = 0
    twins = [], []
    for kind, a, b in sorted(picks, key=lambda p: STAGES[p[0]]):
        done = False
        for e, one in zip(both, (False, True)):
            all_ = nodes(e, False)
            holes = [n for n in all_ if isinstance(n, ElemWithHoles) and n.inside]
            curves = [n for n in all_ if isinstance(n, ElemCurve) and n.control_points]
            corners = [n for n in all_ if hasattr(n, 'p1')]
            if kind == 'child':
                # (not into groups which occur more than once)
                groups = [n for n in all_ if isinstance(n, Group) and not any(n is k for t in twins[one] for k in nodes(t, False))]
                g = groups[a % len(groups)] if groups else None
                kids = [n for n in all_ if g and not any(g is k for k in nodes(n, False))]
                if kids and len(all_) < 40:
                    kid = kids[b % len(kids)]
                    new = kid if one else rebuilt(kid)
                    g.elems['twin%d_%d' % (a, len(g.elems))] = new
                    twins[one].extend([kid, new])
                    done = True
            elif kind == 'hole' and holes:
                h = holes[a % len(holes)]
                hole = h.inside[b % len(h.inside)]
                h.inside.append(hole if one else rebuilt(hole))
                done = True
            elif kind in ('xform', 'pen') and len(all_) > 1:
                x, y = all_[a % len(all_)], all_[b % len(all_)]
                if kind == 'xform':
                    y.xform = x.xform if one else Transform(x.xform.as_6tuple())
                    done = x is not y
                elif y.closed or not x.penbrush.filled:
                    y.penbrush = x.penbrush if one else rebuilt(x).penbrush
                    done = x is not y
            elif kind == 'corners' and len(corners) > 1:
                x, y = corners[a % len(corners)], corners[b % len(corners)]
                y.p1, y.p2 = (x.p1, x.p2) if one else (_pt(x.p1), _pt(x.p2))
                done = x is not y
            elif kind in ('cp', 'handle') and curves:
                x, y = curves[a % len(curves)], curves[b % len(curves)]
                cp = x.control_points[b % len(x.control_points)]
                if kind == 'handle':
                    cp.dl = cp.dr if one else _vec(cp.dr)
                else:
                    new = cp if one else ControlPoint(_pt(cp.c), _vec(cp.dl), _vec(cp.dr), cp.kind)
                    y.control_points.insert(a % (1 + len(y.control_points)), new)
                done = True
        count += done
    return both + (count,)


def alike_shared(make, picks, asks, what):
    """A model some parts of which are one object answers like one in which they are merely equal"""
    apart, shared, count = sharing(make, picks)
    for n, ask in enumerate(asks + asks[:1]):
        same(ask(shared), ask(apart), '%s (%d) of a model sharing parts' % (what, n % len(asks)))
    return count
