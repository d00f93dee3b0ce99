"""C30: multi-step morphs pass through every key shape in order"""
import math
from hypothesis import strategies as st
from x7.geom.geom import PointRelative, Point
from x7.geom.model import ElemCurve, Group
from x7.geom.anim import Animation, Morph, MorphError, MorphMultiStep
from harness import gen, mk, ref
from harness.core import Registry, expect, near_xy, raises, same, fail
from checks.c29 import CP, OPS, FUNCS, quiet, outline

R = Registry('C30', 'Source curves and 1..4 key curves (2..5 control points each, counts equal or not, open or closed, with '
             'arbitrary increasing key times, aligned or not) morphed inside groups with transforms, updated at key times, '
             'between, before and after them in arbitrary orders, hidden in between, restored and morphed again, key '
             'curves shared between steps and between morphs. Non-trivial: at least two different key shapes and an '
             'update strictly between two key times.')

KEYS = st.integers(1, 4).flatmap(lambda n: st.tuples(
    st.booleans(), st.booleans(),
    st.lists(gen.one_of(st.sampled_from([0.25, 0.5, 1]), gen.fl(0.05, 1), gen.fl(0.05, 1), st.sampled_from([2e-4, 5e-4, 1e-5]), st.integers(1, 60)), min_size=n, max_size=n),
    st.integers(2, 5), st.lists(st.lists(CP, min_size=2, max_size=5), min_size=n+1, max_size=n+1), OPS, OPS,
    st.booleans(), st.sampled_from([1, 1, 1, 0.001, 1000])).map(list))
STEPS = st.lists(gen.one_of(st.tuples(st.just('key'), st.integers(0, 4)).map(list),
                           st.tuples(st.just('between'), st.integers(0, 4), gen.fl(0, 1)).map(list),
                           st.tuples(st.just('at'), gen.one_of(gen.fl(-1, 4), gen.fl(0, 100))).map(list)), min_size=1, max_size=8)


def norm(v):
    """(closed, equal counts, key times, [cps per key], group ops, source ops, aligned)"""
    closed, equal, dts, n, cpss, gops, sops, force, scale = v
    times, t = [0.0], 0.0
    for d in dts:
        t = round(t + d, 6)
        times.append(t)
    if equal:
        cpss = [(c*3)[:n] if len(c) < n else c[:n] for c in cpss]
        # repeated control points would make alignment ambiguous
        cpss = [[[[cp[0][0] + 0.5*i, cp[0][1] - 0.25*i]] + cp[1:] for i, cp in enumerate(c)] for c in cpss]
    if scale != 1:
        cpss = [[[[x*scale for x in part] if isinstance(part, list) else part for part in cp] for cp in c] for c in cpss]
    return closed, equal, times, cpss, gops, sops, force


def when(step, times):
    if step[0] == 'key':
        return times[step[1] % len(times)]
    if step[0] == 'between':
        i = step[1] % len(times)
        j = min(i+1, len(times)-1)
        return times[i] + step[2]*(times[j]-times[i])
    return step[1]


PB = [['black', 1], None]


def curve(name, closed, cps, ops=()):
    return ElemCurve(name, mk.penbrush(PB), mk.cps(cps), closed=closed, xform=mk.xform(list(ops)))


def world(closed, cps, gops, sops):
    model = Group('model', mk.penbrush(PB))
    sub = Group('sub', mk.penbrush(PB), xform=mk.xform(gops))
    model.add('other', curve('other', closed, cps, sops))
    model.add('sub', sub)
    src = curve('s', closed, cps, sops)
    sub.add('s', src)
    return model, sub, src


def cps_of(e):
    return [mk.real_abs(c) for c in e.control_points]


def between(a, b, f):
    return [[tuple(p + f*(q-p) for p, q in zip(u, v)) for u, v in zip(ca, cb)] for ca, cb in zip(a, b)]


def expected_at(t, times, keyed):
    """Interpolated control points at time t given those at the key times"""
    if t <= times[0]:
        return keyed[0]
    for i in range(1, len(times)):
        if t < times[i]:
            return between(keyed[i-1], keyed[i], (t-times[i-1])/(times[i]-times[i-1]))
    return keyed[-1]


def near_cps(got, want, tol, what):
    same(len(got), len(want), '%s: number of control points' % what)
    for i, (g, w) in enumerate(zip(got, want)):
        for a, b, part in zip(g, w, ('center', 'left', 'right')):
            near_xy(a, b, tol, '%s: %s of point %d' % (what, part, i))


@R.facet(st.tuples(KEYS, STEPS).map(list), n=450)
def history(v, cx):
    spec, steps = v
    closed, equal, times, cpss, gops, sops, force = norm(spec)
    model, sub, src = world(closed, cpss[0], gops, sops)
    targets = [(t, curve('key%d' % i, closed, c)) for i, (t, c) in enumerate(zip(times[1:], cpss[1:]))]
    before = mk.state(model)
    tstate = [mk.state(c) for _t, c in targets]
    handed = list(targets)
    with quiet():
        m = MorphMultiStep(model, src, targets, lambda t: t, force)
        # the key shapes as a separate morph shows them, used for the times between
        model2, sub2, src2 = world(closed, cpss[0], gops, sops)
        m2 = MorphMultiStep(model2, src2, [(t, curve('key%d' % i, closed, c)) for i, (t, c) in
                                           enumerate(zip(times[1:], cpss[1:]))], lambda t: t, force)
    same(targets, handed, 'list of key shapes')
    count = max(len(c) for c in cpss)
    size = 1 + max(abs(x) for c in cpss for cp in c for p in mk.cp_abs(cp) for x in p)
    keyed = []
    now2 = sub2.elems['s']
    for i, t in enumerate(times):
        m2.update(t)
        keyed.append(cps_of(now2))
        same(len(keyed[-1]), count, 'number of control points')
        if equal and (not force or not closed):
            near_cps(keyed[-1], [mk.cp_abs(c) for c in cpss[i]], 1e-12*size, 'key shape %d as given' % i)
        elif equal:
            # same points in the same cyclic order, starting lower left
            want = [mk.cp_abs(c) for c in cpss[i]]
            rots = [want[k:] + want[:k] for k in range(len(want))]
            best = min(rots, key=lambda r: max(math.dist(p, q) for a, b in zip(r, keyed[-1]) for p, q in zip(a, b)))
            near_cps(keyed[-1], best, 1e-12*size, 'key shape %d' % i)
        path = [mk.path_pts(p) for p in now2_paths(keyed[-1], closed)]
        ref_path = [mk.path_pts(p) for p in curve('x', closed, cpss[i]).paths(mk.dc([], 8, 60))]
        for a, b in ((path[0], ref_path[0]), (ref_path[0], path[0])):
            bad = mk.far_point(a, b, 2e-3*size)
            if bad:
                fail('outline of key shape %d: %r is %g off', i, *bad)
        if not closed:
            near_xy(path[0][0], ref_path[0][0], 1e-9*size, 'start of open key shape %d' % i)
            near_xy(path[0][-1], ref_path[0][-1], 1e-9*size, 'end of open key shape %d' % i)
        if closed and force and not (sops and i == 0):
            corner = now2_curve(keyed[-1], closed).bbox().p1.xy()
            dist = [math.dist(c[0], corner) for c in keyed[-1]]
            expect(dist[0] <= min(dist) + 1e-9*size, 'aligned shape starts at its lower left: %r', dist)
    asked = [when(s, times) for s in steps]
    inner = [t for t in asked if times[0] < t < times[-1] and t not in times]
    cx.nt(bool(inner) and any(a != b for a, b in zip(keyed, keyed[1:])))
    cx.label('unequal counts', len({len(c) for c in cpss}) > 1)
    cx.label('open', not closed)
    now = sub.elems['s']
    expect(now is m.morph, 'the morph takes the place of the source')
    gap = min(b-a for a, b in zip(times, times[1:]))
    tol = 1e-12*size*(1 + max(times)/gap)*10
    d = mk.dc([], 8, 12)
    for t in asked:
        m.update(t)
        now = sub.elems['s']
        near_cps(cps_of(now), expected_at(t, times, keyed), tol, 'shape at %r' % t)
        same((now.closed, now.penbrush), (src.closed, src.penbrush), 'closedness and pen')
        same(tuple(now.xform.as_6tuple()), tuple(src.xform.as_6tuple()), 'transform')
        same(mk.state(src), mk.state(curve('s', closed, cpss[0], sops)),
             'source')
        same([mk.state(c) for _t, c in targets], tstate, 'key curves')
        same(mk.state(model.elems['other']), mk.state(curve('other', closed, cpss[0], sops)), 'other curve')
        # drawn under the source's transforms
        want = mk.map_path(ref.mul(mk.mat(gops), mk.mat(sops)), mk.path_pts(now2_paths(cps_of(now), closed, 12)[0]))
        got = mk.path_pts(sub.paths(d)[0])
        for p, q in zip(got, want):
            near_xy(p, q, 1e-9*size*50, 'drawn')
    m.restore()
    expect(sub.elems['s'] is src, 'the source is back')
    same(mk.state(model), before, 'model after restoring')


def now2_curve(cps, closed):
    from x7.geom.geom import Vector
    from x7.geom.bezier import ControlPoint
    return ElemCurve('x', mk.penbrush(PB), [
        ControlPoint(Point(*c), Vector(l[0]-c[0], l[1]-c[1]), Vector(r[0]-c[0], r[1]-c[1])) for c, l, r in cps],
        closed=closed)


def now2_paths(cps, closed, ppc=60):
    return now2_curve(cps, closed).paths(mk.dc([], 8, ppc))


@R.facet(st.tuples(KEYS, st.sampled_from(['ramp', 'sin', 'hide', 'square', 'never', 'int']),
                   st.lists(gen.fl(-0.5, 1.5), min_size=2, max_size=6), st.integers(1, 2)).map(list), n=250)
def timing(v, cx):
    """The timing function decides what is shown, including nothing; restoring and morphing again starts afresh"""
    spec, fname, ts, rounds = v
    closed, equal, times, cpss, gops, sops, force = norm(spec)
    model, sub, src = world(closed, cpss[0], gops, sops)
    before = mk.state(model)
    make, want = FUNCS[fname]
    targets = [(t, curve('key%d' % i, closed, c)) for i, (t, c) in enumerate(zip(times[1:], cpss[1:]))]
    shown = [want(t) for t in ts]
    cx.nt(len(cpss) > 2 and any(x is not None and 0 < x < times[-1] for x in shown))
    cx.label('hidden then shown', any(a is None and b is not None for a, b in zip(shown, shown[1:])))
    with quiet():
        model2, sub2, src2 = world(closed, cpss[0], gops, sops)
        plain = MorphMultiStep(model2, src2, targets, lambda t: t, force)
    for rnd in range(rounds):
        with quiet():
            m = MorphMultiStep(model, src, targets, make(), force)
        for t, x in zip(ts, shown):
            m.update(t)
            now = sub.elems['s']
            if x is None:
                for c in cps_of(now):
                    expect(all(math.hypot(*p) > 1e5 for p in c), 'hidden curve is out of sight: %r', c)
                same(mk.state(model.elems['other']), mk.state(curve('other', closed, cpss[0], sops)), 'other curve')
                continue
            plain.update(x)
            near_cps(cps_of(now), cps_of(sub2.elems['s']), 1e-6, 'shape for value %r' % x)
        m.restore()
        expect(sub.elems['s'] is src, 'the source is back')
        same(mk.state(model), before, 'model after restoring')


@R.facet(st.tuples(KEYS, KEYS, st.lists(gen.fl(-0.2, 2), min_size=1, max_size=5), st.booleans()).map(list), n=200)
def shared_keys(v, cx):
    """Key curves used several times, also by another morph, do not influence each other"""
    a, b, ts, single = v
    closed, equal, times, cpss, gops, sops, force = norm(a)
    _c, _e, times2, cpss2, gops2, sops2, force2 = norm(b)
    model, sub, src = world(closed, cpss[0], gops, sops)
    model2, sub2, src2 = world(closed, cpss2[0], gops2, sops2)
    keys = [curve('key%d' % i, closed, c) for i, c in enumerate(cpss[1:])]
    steps = [(t, k) for t, k in zip(times[1:], keys)] + [(times[-1] + 0.5, keys[0])]
    steps2 = [(t, keys[i % len(keys)]) for i, t in enumerate(times2[1:])]
    cx.nt(len({len(c) for c in cpss + cpss2}) > 1)
    if single and len(cpss2[0]) != len(cpss[1]):
        cx.label('with a simple morph')
    with quiet():
        m = MorphMultiStep(model, src, steps, lambda t: t, force)
        # an independent pair, built from fresh curves
        f_model, f_sub, f_src = world(closed, cpss[0], gops, sops)
        fresh = [curve('key%d' % i, closed, c) for i, c in enumerate(cpss[1:])]
        f = MorphMultiStep(f_model, f_src, [(t, k) for t, k in zip(times[1:], fresh)] + [
            (times[-1] + 0.5, curve('again', closed, cpss[1]))], lambda t: t, force)
        if single:
            other = Morph(model2, src2, keys[0], lambda t: t)
        else:
            other = MorphMultiStep(model2, src2, steps2, lambda t: t, force2)
    for t in ts:
        m.update(t)
        other.update(t)
        f.update(t)
        same(cps_of(sub.elems['s']), cps_of(f_sub.elems['s']), 'with shared key curves at %r' % t)
    same([mk.state(k) for k in keys], [mk.state(curve('key%d' % i, closed, c)) for i, c in enumerate(cpss[1:])],
         'key curves')
    m.restore()
    other.restore()
    expect(sub.elems['s'] is src and sub2.elems['s'] is src2, 'sources are back')


@R.facet(KEYS, n=100)
def missing(v, cx):
    closed, equal, times, cpss, gops, sops, force = norm(v)
    model, sub, src = world(closed, cpss[0], gops, sops)
    targets = [(t, curve('key%d' % i, closed, c)) for i, (t, c) in enumerate(zip(times[1:], cpss[1:]))]
    before = mk.state(model)
    tstate = [mk.state(c) for _t, c in targets]
    stranger = curve('stranger', closed, cpss[-1])
    sstate = mk.state(stranger)
    cx.nt()
    with quiet():
        raises(MorphError, lambda: MorphMultiStep(model, stranger, targets, lambda t: t, force), 'source not in the model')
    same(mk.state(model), before, 'model')
    same(mk.state(stranger), sstate, 'source')
    same([mk.state(c) for _t, c in targets], tstate, 'key curves')


@R.facet(st.tuples(st.tuples(
    st.booleans(), st.booleans(), st.lists(gen.fl(0.05, 1), min_size=9, max_size=9), st.integers(2, 5),
    st.lists(st.lists(CP, min_size=2, max_size=4), min_size=3, max_size=4), OPS, OPS, st.booleans(), st.just(1),
    st.integers(5, 9)).map(list), st.lists(gen.one_of(
        st.tuples(st.just('key'), st.integers(0, 9)).map(list), st.tuples(st.just('between'), st.integers(0, 9), gen.fl(0, 1)).map(list)),
        min_size=4, max_size=12)).map(list), n=30)
def long_history(v, cx):
    """Many key shapes"""
    (closed, equal, dts, n, cpss, gops, sops, force, scale, keys), steps = v
    many = [[[[cp[0][0] + i, cp[0][1] - 2*i]] + cp[1:] for cp in cpss[i % len(cpss)]] for i in range(keys + 1)]
    history([[closed, equal, dts[:keys], n, many, gops, sops, force, scale], steps], cx)


@R.facet(st.tuples(KEYS, st.sampled_from(['s', 'k', 'other', 'model']), st.lists(gen.fl(-0.2, 3), min_size=2, max_size=5), st.booleans()).map(list), n=120)
def names(v, cx):
    """What the key curves are called is nothing to the shapes; the source may be one of them"""
    spec, name, ts, again = v
    closed, equal, times, cpss, gops, sops, force = norm(spec)
    cx.nt(len(cpss) > 2)
    cx.label(name)
    subs = []
    for alike in (True, False):
        model, sub, src = world(closed, cpss[0], gops, sops)
        keys = [(t, curve(name if alike else 'key%d' % i, closed, c)) for i, (t, c) in enumerate(zip(times[1:], cpss[1:]))]
        if again:
            keys.append((times[-1] + 1, src if alike else curve('last', closed, cpss[0], sops)))
        before = mk.state(model)
        with quiet():
            m = MorphMultiStep(model, src, keys, lambda t: t, force)
        subs.append((m, model, sub, src, before))
    for t in ts + times:
        for m, *_rest in subs:
            m.update(t)
        same(cps_of(subs[0][2].elems['s']), cps_of(subs[1][2].elems['s']), 'shape at %r with key curves called %r' % (t, name))
    for m, model, sub, src, before in subs:
        m.restore()
        expect(sub.elems['s'] is src, 'the source is back')
        same(mk.state(model), before, 'model after restoring')
