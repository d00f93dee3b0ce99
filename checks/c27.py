"""C27: point animations depend only on time and hit their key positions"""
import math
from hypothesis import strategies as st
from x7.geom.geom import Point, PointRelative, PointCalc, Vector
from x7.geom.bezier import ControlPoint
from x7.geom.colors import PenBrush
from x7.geom.model import ElemCurve
from x7.geom.anim import (
    Animation, AnimationCircular, AnimationGeneric, AnimationHolder, AnimationLinear, AnimationLinearFunc,
    AnimationSinusoidal,
)
from harness import gen, mk, ref
from harness.core import Registry, expect, near, near_xy, raises, same, mag

R = Registry('C27', 'Point animations of every kind with arbitrary original positions, targets, radii, frequencies, phases '
             'and timing functions, updated along arbitrary histories of times (repeated, backward, outside 0..1, as pairs '
             'where accepted), alone and in holders, also on points that a curve is built on. Non-trivial: at least two '
             'different times and a target or radius that moves the point.')

TIME = gen.one_of(st.sampled_from([0, 1, 0.5, 0.25, 1.0, 0.0]), gen.fl(0, 1), gen.fl(-1, 2))
TIMES = st.lists(TIME, min_size=2, max_size=8)
FREQ = gen.one_of(st.sampled_from([1, 1.0, 2, 0.5, 3]), gen.fl(-3, 3))
FUNCS = {'square': lambda t: t*t, 'half': lambda t: t/2 + 0.25, 'flip': lambda t: 1 - t, 'const': lambda t: 0.3,
         'pair': lambda t: (t, 1 - t), 'ramp': lambda t: Animation.ramp_up(0.2, 0.7)(t)}

SPEC = gen.one_of(
    st.tuples(st.just('linear'), gen.xy(), gen.xy()).map(list),
    st.tuples(st.just('func'), gen.xy(), gen.xy(), st.sampled_from(sorted(FUNCS))).map(list),
    st.tuples(st.just('sinus'), gen.xy(), gen.xy(), FREQ, gen.angle()).map(list),
    st.tuples(st.just('sinus0'), gen.xy(), gen.xy()).map(list),
    st.tuples(st.just('circular'), gen.xy(), gen.fl(-50, 200), FREQ, gen.fl(-7, 7)).map(list),
    st.tuples(st.just('circular0'), gen.xy(), gen.fl(-50, 200), FREQ).map(list),
    st.tuples(st.just('generic'), gen.xy(), gen.coord(50)).map(list),
)


def lerp(o, g, tx, ty):
    return (1-tx)*o[0] + tx*g[0], (1-ty)*o[1] + ty*g[1]


def make(s, p):
    """(animation, expected position at t, target point or None)"""
    k, o = s[0], tuple(s[1])
    if k == 'linear':
        g = Point(*s[2])
        return AnimationLinear(p, g), lambda t: lerp(o, s[2], *(t if isinstance(t, tuple) else (t, t))), g
    if k == 'func':
        g = Point(*s[2])
        f = FUNCS[s[3]]

        def want(t):
            v = f(t)
            return lerp(o, s[2], *(v if isinstance(v, tuple) else (v, v)))
        return AnimationLinearFunc(p, g, f), want, g
    if k in ('sinus', 'sinus0'):
        g = Point(*s[2])
        freq, off = (s[3], s[4]) if k == 'sinus' else (1, 0)
        a = AnimationSinusoidal(p, g, freq, off) if k == 'sinus' else AnimationSinusoidal(p, g)

        def want(t):
            v = math.sin(math.pi*freq*t + math.radians(off)/2)**2
            return lerp(o, s[2], v, v)
        return a, want, g
    if k in ('circular', 'circular0'):
        off = s[4] if k == 'circular' else 0
        a = AnimationCircular(p, s[2], s[3], off) if k == 'circular' else AnimationCircular(p, s[2], s[3])

        def want(t):
            th = 2*math.pi*s[3]*t + off       # from straight up, clockwise
            return o[0] + s[2]*math.cos(math.pi/2 - th), o[1] + s[2]*math.sin(math.pi/2 - th)
        return a, want, None

    def func(t, orig, point):
        same(orig.xy(), o, 'original position handed to the function')
        expect(point is p, 'the point itself is handed to the function')
        return orig.x + s[2]*t, orig.y - 2*t*t

    return AnimationGeneric(p, func), lambda t: (o[0] + s[2]*t, o[1] - 2*t*t), None


def tol_of(s, t):
    v = max(abs(x) for x in (t if isinstance(t, tuple) else (t,)))
    return 1e-12*mag(s[1:])*(1 + v)*10


def moves(s):
    if s[0] in ('linear', 'func', 'sinus', 'sinus0'):
        return s[1] != s[2]
    return s[2] != 0


@R.facet(st.tuples(SPEC, TIMES).map(list), n=800)
def single(v, cx):
    s, times = v
    p = Point(*s[1])
    a, want, target = make(s, p)
    same(p.xy(), tuple(s[1]), 'position before any update')
    cx.nt(moves(s) and len(set(times)) > 1)
    cx.label(s[0])
    seen = {}
    for t in times:
        a.update(t)
        near_xy(p.xy(), want(t), tol_of(s, t), '%s at %r' % (s[0], t))
        if t in seen:
            same(p.xy(), seen[t], 'same time, same position')
        seen[t] = p.xy()
        expect(a.point is p, 'animated point')
        same(a.orig.xy(), tuple(s[1]), 'original position')
        if target is not None:
            same(target.xy(), tuple(s[2]), 'target')


@R.facet(st.tuples(gen.xy(), gen.xy(), st.lists(st.tuples(TIME, TIME).map(list), min_size=1, max_size=6)).map(list), n=200)
def per_axis(v, cx):
    """Linear motion with its own time for each axis"""
    o, g, times = v
    p, target = Point(*o), Point(*g)
    a = AnimationLinear(p, target)
    b = AnimationLinearFunc(Point(*o), target, Animation.identity_xy())
    cx.nt(o != g and any(t[0] != t[1] for t in times))
    for tx, ty in times:
        a.update((tx, ty))
        near_xy(p.xy(), lerp(o, g, tx, ty), 1e-12*mag(o, g)*10, 'per axis')
        b.update((tx, ty))
        near_xy(b.point.xy(), lerp(o, g, tx, ty), 1e-12*mag(o, g)*10, 'per axis, shaped')


@R.facet(st.tuples(st.sampled_from(['linear', 'sinus', 'func']), gen.xy(), gen.xy()).map(list), n=200)
def key_positions(v, cx):
    k, o, g = v
    p, target = Point(*o), Point(*g)
    cx.nt(o != g)
    if k == 'linear':
        a = AnimationLinear(p, target)
        keys = [(1, g), (0, o), (0.5, [(o[0]+g[0])/2, (o[1]+g[1])/2])]
    elif k == 'func':
        a = AnimationLinearFunc(p, target, Animation.ramp_down(0.25, 0.75))
        keys = [(0, g), (0.25, g), (0.5, [(o[0]+g[0])/2, (o[1]+g[1])/2]), (0.8, o), (1, o), (2, o)]
    else:
        a = AnimationSinusoidal(p, target)
        keys = [(0, o), (0.5, g), (1, o), (0.25, [(o[0]+g[0])/2, (o[1]+g[1])/2])]
    for t, w in keys:
        a.update(t)
        near_xy(p.xy(), w, 1e-12*mag(o, g)*4, '%s at %r' % (k, t))
    if k == 'linear':
        a.update(1)
        near_xy(p.xy(), tuple(g), 1e-13*mag(o, g), 'exactly at the target')
        a.update(0)
        near_xy(p.xy(), tuple(o), 1e-13*mag(o, g), 'exactly back')


@R.facet(st.tuples(st.lists(SPEC, min_size=1, max_size=5), TIMES).map(list), n=250)
def holders(v, cx):
    specs, times = v
    h = AnimationHolder()
    pts, wants = [], []
    for s in specs:
        p = Point(*s[1])
        a, want, _t = make(s, p)
        h.add(a)
        pts.append(p)
        wants.append(want)
    same(len(h.animations), len(specs), 'held animations')
    other = AnimationHolder()
    same(other.animations, [], 'a new holder is empty')
    cx.nt(len(specs) > 1 and len(set(times)) > 1)
    for t in times:
        h.update(t)
        for s, p, w in zip(specs, pts, wants):
            near_xy(p.xy(), w(t), tol_of(s, t), '%s at %r' % (s[0], t))


@R.facet(st.tuples(gen.xy(), st.lists(SPEC, min_size=2, max_size=5), st.lists(st.booleans(), min_size=5, max_size=5),
                   TIMES).map(list), n=200)
def same_point(v, cx):
    """Several animations of one point in a holder: all are updated, in the order they were added, so the last one decides"""
    o, specs, on, times = v
    h = AnimationHolder()
    p = Point(*o)
    log, held, last = [], [], None
    for i, (s, shared) in enumerate(zip(specs, on)):
        s = [s[0], o] + s[2:] if shared else s
        a, want, _t = make(s, p if shared else Point(*s[1]))

        def update(t, i=i, real=a.update):
            log.append(i)
            real(t)
        a.update = update
        h.add(a)
        held.append((s, a, want))
        last = i if shared else last
    same([a for a in h.animations], [a for _s, a, _w in held], 'held animations')
    cx.nt(sum(on[:len(specs)]) > 1 and len(set(times)) > 1)
    for t in times:
        log.clear()
        h.update(t)
        same(log, list(range(len(specs))), 'updates')
        for i, (s, a, want) in enumerate(held):
            if not on[i] or i == last:
                near_xy(a.point.xy(), want(t), tol_of(s, t), '%s at %r' % (s[0], t))


@R.facet(st.tuples(gen.xy(100), gen.xy(100), gen.xy(30), gen.xy(30), TIMES).map(list), n=200)
def on_a_curve(v, cx):
    """Points that curves and relative points are built on move the curve"""
    o, g, d1, d2, times = v
    p = Point(*o)
    rel = PointRelative(d1[0], d1[1], p)
    e = ElemCurve('c', PenBrush('red'), [ControlPoint(p, Vector(*d1), Vector(*d2)), ControlPoint(rel, Vector(*d2), Vector(*d1))], False)
    a = AnimationLinear(p, Point(*g))
    cx.nt(o != g and len(set(times)) > 1)
    for t in times:
        a.update(t)
        c = lerp(o, g, t, t)
        near_xy(e.control_points[0].c.xy(), c, 1e-12*mag(v)*10, 'control point')
        near_xy(e.control_points[1].c.xy(), (c[0]+d1[0], c[1]+d1[1]), 1e-12*mag(v)*10, 'relative control point')
        near_xy(e.control_points[0].l.xy(), (c[0]+d1[0], c[1]+d1[1]), 1e-12*mag(v)*10, 'handle end')


@R.facet(st.tuples(gen.xy(100), gen.xy(100), TIMES, st.lists(gen.xy(100), min_size=2, max_size=4)).map(list), n=150)
def moving_target(v, cx):
    """The target is a point of the model; motion follows where it is now"""
    o, g, times, moves_ = v
    p, target = Point(*o), Point(*g)
    a = AnimationLinear(p, target)
    b = AnimationSinusoidal(Point(*o), target)
    # targets that are themselves built on the point
    rel = PointRelative(3, -4, target)
    calc = PointCalc(PointRelative(3, -4, target), 2.5)
    derived = [(AnimationLinear(Point(*o), rel), rel, (3, -4), False), (AnimationLinear(Point(*o), calc), calc, (7.5, -10), False),
               (AnimationSinusoidal(Point(*o), rel), rel, (3, -4), True)]
    cx.nt(len(set(map(tuple, moves_))) > 1)
    for t, m in zip(times, moves_):
        target.setxy(*m)
        a.update(t)
        near_xy(p.xy(), lerp(o, m, t, t), 1e-12*mag(v)*10, 'linear')
        b.update(t)
        w = math.sin(math.pi*t)**2
        near_xy(b.point.xy(), lerp(o, m, w, w), 1e-12*mag(v)*10, 'sinusoidal')
        same(target.xy(), tuple(m), 'target')
        for anim, goal, (dx, dy), wave in derived:
            anim.update(t)
            f = w if wave else t
            near_xy(anim.point.xy(), lerp(o, (m[0] + dx, m[1] + dy), f, f), 1e-12*(mag(v) + 10)*10, 'derived target')
            near_xy(goal.xy(), (m[0] + dx, m[1] + dy), 1e-12*(mag(v) + 10)*10, 'derived target itself')


@R.facet(st.tuples(gen.xy(100), gen.xy(100)).map(list), n=60)
def refusals(v, cx):
    o, g = v
    cx.nt()
    base = Point(*o)
    rel = PointRelative(g[0], g[1], base)
    for bad in (rel, PointCalc(rel, 0.5)):
        for f in (lambda: AnimationLinear(bad, base), lambda: AnimationLinearFunc(bad, base, lambda t: t),
                  lambda: AnimationSinusoidal(bad, base), lambda: AnimationCircular(bad, 1, 1),
                  lambda: AnimationGeneric(bad, lambda t, o_, p: (0, 0))):
            raises(ValueError, f, 'animating %r' % bad)
    same(base.xy(), tuple(o), 'base')


@R.facet(st.tuples(st.lists(SPEC, min_size=1, max_size=3), st.integers(6, 40), st.lists(TIME, min_size=6, max_size=20)).map(list), n=50)
def crowds(v, cx):
    """Many animated points, many updates"""
    specs, n, times = v
    holders([[specs[i % len(specs)] for i in range(n)], times], cx)


FAR = st.tuples(gen.coord(100), gen.coord(100), st.integers(-18, 18), st.integers(-18, 18)).map(
    lambda v: [v[0]*10.0**v[2], v[1]*10.0**v[3]])


@R.facet(st.tuples(FAR, FAR, st.lists(st.sampled_from([0, 1, 0.0, 1.0, (0, 1), (1, 0), (1, 1), 0.5]), min_size=1, max_size=6)).map(list), n=150)
def far_apart(v, cx):
    """However far away one end is, linear motion begins and ends exactly at its ends"""
    o, g, times = v
    cx.nt(o != g)
    p, target = Point(*o), Point(*g)
    q = Point(*o)
    a, b = AnimationLinear(p, target), AnimationLinearFunc(q, target, lambda t: t)
    for t in times:
        t = tuple(t) if isinstance(t, list) else t
        a.update(t)
        b.update(t)
        for i, (w, ti) in enumerate(zip(zip(o, g), t if isinstance(t, tuple) else (t, t))):
            for r, what in ((p, 'linear'), (q, 'shaped')):
                if ti in (0, 1):
                    near(r.xy()[i], w[ti == 1], 1e-12*abs(w[ti == 1]), '%s at %r' % (what, t))
                else:
                    near_xy((r.xy()[i], 0), ((w[0] + w[1])/2, 0), 1e-12*(abs(w[0]) + abs(w[1])), '%s half way' % what)
