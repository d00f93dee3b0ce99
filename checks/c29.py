"""C29: morphing interpolates from source to target without disturbing either"""
import contextlib
import functools
import io
import math
from hypothesis import strategies as st
from x7.geom.geom import Point, PointRelative, Vector
from x7.geom.bezier import ControlPoint
from x7.geom.model import ElemCurve, Group, ElemWithHoles
from x7.geom.anim import Animation, Morph, MorphError, AnimationHolder
from harness import gen, mk, ref
from harness.core import Registry, expect, near_xy, raises, same, fail

R = Registry('C29', 'Pairs of curves with 2..6 control points (equal or unequal counts, open or closed, plain or relative '
             'points, own transforms) morphed inside nested models with transforms (at top level, in subgroups, as outside '
             'or hole of a shape), with timing functions of every kind including hiding, along arbitrary histories of '
             'times, restored and morphed again, several morphs sharing a target. Non-trivial: source and target differ '
             'and some update shows neither of them.')

TIME = gen.one_of(st.sampled_from([0, 1, 0.5, 0.25, 0.75, 1.0, 0.0]), gen.fl(0, 1), gen.fl(-0.5, 1.5))
# (hardly any two times alike, or the same few again and again)
TIMES = gen.one_of(st.lists(TIME, min_size=1, max_size=6),
                   st.tuples(TIME, st.one_of(TIME, st.just(0))).flatmap(lambda p: st.lists(st.sampled_from(p), min_size=3, max_size=6)))
FUNCS = {
    'identity': (Animation.identity, lambda t: t),
    'int': (lambda: lambda t: int(t > 0.5), lambda t: int(t > 0.5)),
    'ramp': (lambda: Animation.ramp_up(0.2, 0.8), lambda t: min(1, max(0, (t-0.2)/0.6))),
    'sin': (lambda: Animation.sin(1, -90, 0.5, 0.5), lambda t: 0.5 - 0.5*math.cos(2*math.pi*t)),
    'hide': (lambda: Animation.hide_if(lambda t: 2*t - 0.5), lambda t: None if 2*t - 0.5 < 0 else 2*t - 0.5),
    'never': (lambda: lambda t: None, lambda t: None),
    'square': (lambda: lambda t: t*t, lambda t: t*t),
}
FUNC = st.sampled_from(sorted(FUNCS))
FRONT = ['identity', 'ramp', 'sin', 'hide', 'square', 'hide']


OPS = st.lists(gen.one_of(st.tuples(st.just('t'), gen.small(), gen.small()).map(list),
                         st.tuples(st.just('s'), st.sampled_from([-2, 0.5, 3]), st.sampled_from([1, 2, -1])).map(list),
                         st.tuples(st.just('r'), gen.angle()).map(list),
                         st.tuples(st.just('k'), st.sampled_from([0.5, -1])).map(list)), max_size=2)
NUM = gen.one_of(st.integers(-60, 60), gen.fl(-60, 60))
XY = st.tuples(NUM, NUM).map(list)
CP = st.tuples(XY, XY, XY, gen.kind()).map(list)


@functools.lru_cache(None)
def curve(closed, lo=2, hi=6, n=None):
    lo, hi = (n, n) if n else (lo, hi)
    return st.fixed_dictionaries(dict(k=st.just('curve'), name=st.sampled_from(['s', 't', 'body', "it's"]),
                                      pb=gen.penbrush(closed), closed=st.just(closed), xf=OPS,
                                      cps=st.lists(CP, min_size=lo, max_size=hi)))


@functools.lru_cache(None)
def two(closed, n, m):
    return st.tuples(curve(closed, n=n), curve(closed, n=m)).map(list)


def pair(equal):
    def mk_(v):
        closed, n, m = v
        if equal:
            m = n
        elif m == n:
            m = n + 1
        return two(closed, n, m)
    return st.tuples(st.booleans(), st.integers(2, 5), st.integers(2, 6)).flatmap(mk_)


WHERE = ['top', 'sub', 'subsub', 'outside', 'inside', 'holes-in-sub']


def place(src, where, sibs, xfs, pbs):
    """Model spec with the source curve at a chosen place among siblings"""
    def group(name, xf, elems):
        return dict(k='group', name=name, pb=[['black', 1], None], xf=xf, hidden=False, elems=elems)

    def sib(i):
        return dict(sibs[i], name='sib%d' % i)

    ring = dict(k='rect', name='hole', pb=[None, None], xf=[], p=[[-5, -5], [5, 5]])
    big = dict(k='rect', name='out', pb=[None, None], xf=xfs[2], p=[[-300, -300], [300, 300]])
    if where == 'top':
        inner = src
    elif where == 'sub':
        inner = group('sub', xfs[0], [sib(1), src])
    elif where == 'subsub':
        inner = group('sub', xfs[0], [group('subsub', xfs[1], [src, sib(1)])])
    elif where == 'outside':
        inner = dict(k='holes', name='h', pb=pbs, xf=xfs[0], outside=src, inside=[ring])
    elif where == 'inside':
        inner = dict(k='holes', name='h', pb=pbs, xf=xfs[0], outside=big, inside=[ring, src])
    else:
        inner = group('sub', xfs[0], [dict(k='holes', name='h', pb=pbs, xf=xfs[1], outside=big, inside=[src])])
    return group('model', xfs[2], [sib(0), inner, sib(2)])


def find(el, src):
    """Element objects of the model at the place of the source: the one named like it outside the siblings"""
    out = []
    if isinstance(el, Group):
        for e in el.elems.values():
            out += find(e, src)
    elif isinstance(el, ElemWithHoles):
        for e in [el.outside] + list(el.inside):
            out += find(e, src)
    elif isinstance(el, ElemCurve) and el.name == src['name']:
        out.append(el)
    return out


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


SIB = st.tuples(st.sampled_from(['rect', 'ellipse']), gen.xy(50), gen.fl(1, 60), gen.penbrush()).map(
    lambda v: dict(k=v[0], name='x', pb=v[3], xf=[], p=[v[1], [v[1][0]+v[2], v[1][1]+5]]))
SETUP = st.tuples(st.sampled_from(WHERE), st.tuples(SIB, SIB, SIB).map(list), st.tuples(OPS, OPS, OPS).map(list),
                  gen.penbrush(must=True)).map(list)


def lerp_cps(a, b, t):
    return [[[p + t*(q-p) for p, q in zip(u, v)] for u, v in zip(ca[:3], cb[:3])] + [ca[3]] for ca, cb in zip(a, b)]


def near_lerp(got, a, b, f):
    """The control points themselves, to full precision"""
    same(len(got), len(a), 'number of control points')
    for c, c0, c1 in zip(got, a, b):
        for p, u, w in zip(mk.real_abs(c), mk.cp_abs(c0), mk.cp_abs(c1)):
            near_xy(p, (u[0] + f*(w[0]-u[0]), u[1] + f*(w[1]-u[1])), 1e-13*(1+abs(f))*(200 + abs(u[0]) + abs(u[1]) + abs(w[0]) + abs(w[1])),
                    'control point')


def place_spec(src, setup):
    where, sibs, xfs, pbs = setup
    if not src['closed'] and where not in ('top', 'sub', 'subsub'):
        where = 'sub'       # shapes with holes are made of closed curves
    return place(src, where, [dict(s, name='x') for s in sibs], xfs, pbs)


def sigs(model, ppc=20):
    return mk.paths_sig(model, mk.dc([], 8, ppc))


def check_hidden(model, spec, src, sib_sig, morph):
    for c in morph.control_points:
        for p in mk.real_abs(c):
            expect(math.hypot(*p) > 1e5, 'hidden curve is out of sight: %r', p)
    got = [mk.state(e) for k, e in model.elems.items() if k.startswith('sib')]
    same(got, sib_sig, 'siblings of a hidden curve')


def check_shown(model, spec_src, setup, cps, ppc=20):
    """The model draws like a fresh model holding the given control points"""
    spec = place_spec(dict(spec_src, cps=cps), setup)
    tol = 1e-9*mk.big(spec)
    mk.same_paths(sigs(model, ppc), sigs(mk.elem(spec), ppc), tol, 'model with interpolated curve')


@R.facet(st.tuples(pair(True), SETUP, FUNC, TIMES, st.booleans(), st.integers(1, 2)).map(list), n=450)
def equal_counts(v, cx):
    (s, t), setup, fname, times, force, rounds = v
    spec = place_spec(s, setup)
    model = mk.elem(spec)
    (src,) = find(model, s)
    target = mk.elem(t)
    before, tstate, sstate = mk.state(model), mk.state(target), mk.state(src)
    drawn = sigs(model)
    make, want = FUNCS[fname]
    sib_sig = [mk.state(e) for k, e in model.elems.items() if k.startswith('sib')]
    cx.label(setup[0])
    shown = [want(x) for x in times]
    cx.nt(s['cps'] != t['cps'] and any(x is not None and x not in (0, 1) for x in shown))
    cx.label('hidden then shown', any(a is None and b is not None for a, b in zip(shown, shown[1:])))
    for rnd in range(rounds):
        with quiet():
            m = Morph(model, src, target, make(), force)
        (now,) = find(model, s)
        expect(now is m.morph, 'the morph takes the place of the source')
        mk.same_paths(sigs(model), drawn, 1e-9*mk.big(spec), 'before the first update')
        for x in times:
            m.update(x)
            f = want(x)
            if f is None:
                check_hidden(model, spec, s, sib_sig, m.morph)
            else:
                check_shown(model, s, setup, lerp_cps(s['cps'], t['cps'], f))
                near_lerp(m.morph.control_points, s['cps'], t['cps'], f)
            same(mk.state(target), tstate, 'target')
            same(mk.state(src), sstate, 'source')
        with quiet():
            m.restore()
        same(mk.state(model), before, 'model after restoring')
        (now,) = find(model, s)
        expect(now is src, 'the source itself is back')
        same(sigs(model), drawn, 'drawn as before')


@R.facet(st.tuples(pair(False), SETUP.filter(lambda v: v[0] in ('top', 'sub', 'subsub')), st.sampled_from(FRONT), TIMES,
                   st.booleans()).map(list), n=250)
def unequal_counts(v, cx):
    (s, t), setup, fname, times, live = v
    setup = [setup[0], setup[1], [[op for op in xf if op[0] != 'k'] for xf in setup[2]], setup[3]]
    spec = place_spec(s, setup)
    model = mk.elem(spec)
    (src,) = find(model, s)
    if live:
        base = Point(3, 4)
        for c, cs in zip(src.control_points, s['cps']):
            c.c = PointRelative(cs[0][0]-3, cs[0][1]-4, base)
    target = mk.elem(t)
    before, tstate, sstate = mk.state(model), mk.state(target), mk.state(src)
    raises(MorphError, lambda: Morph(model, src, target, lambda x: x, force=False), 'unequal counts not forced')
    same(mk.state(model), before, 'model after refusal')
    same(mk.state(target), tstate, 'target after refusal')
    make, want = FUNCS[fname]
    cx.nt(any(want(x) not in (None, 0, 1) for x in times))
    cx.label('source shorter', len(s['cps']) < len(t['cps']))
    with quiet():
        m = Morph(model, src, target, make())
    count = max(len(s['cps']), len(t['cps']))
    ref_m = ident_states(s, t, live)
    for x in list(times) + [None]:
        if x is None:
            break
        m.update(x)
        (now,) = find(model, s)
        expect(now is m.morph, 'the morph takes the place of the source')
        same(len(now.control_points), count, 'number of control points')
        f = want(x)
        if f is None:
            for c in now.control_points:
                expect(all(math.hypot(*p) > 1e5 for p in mk.real_abs(c)), 'out of sight')
            continue
        # linear interpolation between the states at 0 and 1, whatever points were added
        for c, c0, c1 in zip(now.control_points, *ref_m):
            for p, p0, p1 in zip(mk.real_abs(c), c0, c1):
                near_xy(p, (p0[0] + f*(p1[0]-p0[0]), p0[1] + f*(p1[1]-p0[1])), 1e-6, 'interpolated point')
        same(mk.state(target), tstate, 'target')
        same(mk.state(src), sstate, 'source')
    # shapes at the ends
    ppc = 60
    with quiet():
        m.restore()
        m = Morph(model, src, target, lambda x: x)
    for f, cps in ((0, s['cps']), (1, t['cps']), (0, s['cps'])):
        m.update(f)
        want_spec = place_spec(dict(s, cps=cps), setup)
        tol = 2e-3*mk.big(want_spec)
        outline(sigs(model, ppc), sigs(mk.elem(want_spec), ppc), tol, 'end shape at %r' % f)
    with quiet():
        m.restore()
    same(mk.state(model), before, 'model after restoring')
    same(mk.state(src), sstate, 'source after restoring')


def outline(got, want, tol, what):
    """Same lines within the sampling error; paths of the morphed curve may be sampled differently"""
    same(len(got), len(want), '%s: number of paths' % what)
    for (gp, gc, gpts), (wp, wc, wpts) in zip(got, want):
        same((gp, gc), (wp, wc), '%s: pen and closedness' % what)
        for a, b in ((gpts, wpts), (wpts, gpts)):
            bad = mk.far_point(a, b, tol)
            if bad:
                fail('%s: %r is %g off (tol %g)', what, bad[0], bad[1], tol)
        if not gc:
            near_xy(gpts[0], wpts[0], tol, '%s: start' % what)
            near_xy(gpts[-1], wpts[-1], tol, '%s: end' % what)


def ident_states(s, t, live):
    """Control points of the morph at 0 and 1, from a separate morph of the same pair"""
    model = Group('g', mk.penbrush([['black', 1], None]))
    src = mk.elem(s)
    model.add(src.name, src)
    with quiet():
        m = Morph(model, src, mk.elem(t), lambda x: x)
    out = []
    for f in (0, 1):
        m.update(f)
        (now,) = find(model, s)
        out.append([mk.real_abs(c) for c in now.control_points])
    return out


@R.facet(st.tuples(st.booleans(), st.lists(st.integers(2, 5), min_size=3, max_size=4), st.none(),
                   st.lists(gen.cps(5, 5), min_size=4, max_size=4), TIMES, st.booleans()).map(list), n=150)
def shared(v, cx):
    """Several curves morphing into the same target, and one curve used as target and source"""
    closed, counts, _x, cpss, times, chain = v
    pb = mk.penbrush([['black', 1], None])

    def curve_(i, name):
        return ElemCurve(name, pb, mk.cps(cpss[i][:counts[i]]), closed=closed)

    sources = [curve_(i, 'c%d' % i) for i in range(1, len(counts))]
    target = curve_(0, 'target')
    model = Group('g', pb)
    for e in sources:
        model.add(e.name, e)
    if chain:
        model.add('target', target)
    before = mk.state(model)
    tstate = mk.state(target)
    with quiet():
        morphs = [Morph(model, e, target, lambda x: x) for e in sources]
        if chain:
            morphs.append(Morph(model, target, sources[0], lambda x: x))
    holder = AnimationHolder()
    for m in morphs:
        holder.add(m)
    cx.nt(len(set(counts)) > 1)
    for x in times + [0, 1]:
        holder.update(x)
        for i, e in enumerate(sources):
            # alone, the morph would look just the same
            alone_model = Group('g', pb)
            one = curve_(i+1, 'c%d' % (i+1))
            alone_model.add(one.name, one)
            with quiet():
                alone = Morph(alone_model, one, curve_(0, 'target'), lambda x: x)
            alone.update(x)
            got, want = model.elems['c%d' % (i+1)], alone_model.elems['c%d' % (i+1)]
            same([mk.real_abs(c) for c in got.control_points], [mk.real_abs(c) for c in want.control_points],
                 'curve %d at %r with a shared target' % (i, x))
    same(mk.state(target), tstate, 'shared target')
    with quiet():
        for m in morphs:
            m.restore()
    same(mk.state(model), before, 'model after restoring all')


@R.facet(st.tuples(st.integers(2, 4), st.lists(gen.cps(4, 4), min_size=4, max_size=4), st.booleans(),
                   st.lists(st.tuples(st.integers(0, 1), TIME).map(list), min_size=1, max_size=6),
                   st.sampled_from(['hide', 'identity', 'never', 'int', 'swap'])).map(list), n=250)
def twins(v, cx):
    """Two like-named curves in different groups keep apart even when they look the same for a while"""
    n, cpss, order, calls, fname = v
    pb = mk.penbrush([['black', 1], None])
    model = Group('g', pb)
    groups = [Group('left', pb), Group('right', pb, xform=mk.xform([['t', 50, 0]]))]
    curves = []
    for g, cps in zip(groups, cpss):
        model.add(g.name, g)
        e = ElemCurve('eye', pb, mk.cps(cps[:n]))
        g.add('eye', e)
        curves.append(e)
    if cpss[0][:n] == cpss[1][:n]:
        return
    make = (lambda: lambda t: t) if fname == 'swap' else FUNCS[fname][0]
    want = (lambda t: t) if fname == 'swap' else FUNCS[fname][1]
    targets = [ElemCurve('eye', pb, mk.cps(cps[:n])) for cps in (
        [cpss[1], cpss[0]] if fname == 'swap' else [cpss[2], cpss[2]])]
    tcps = [cpss[1], cpss[0]] if fname == 'swap' else [cpss[2], cpss[2]]
    before = mk.state(model)
    with quiet():
        morphs = [Morph(model, e, t, make()) for e, t in zip(curves, targets)]
    cx.nt(len({c[0] for c in calls}) > 1)
    for i, t in calls:
        morphs[i].update(t)
        f = want(t)
        now = groups[i].elems['eye']
        if f is not None:
            for c, c0, c1 in zip(now.control_points, cpss[i][:n], tcps[i][:n]):
                for p, a, b in zip(mk.real_abs(c), mk.cp_abs(c0), mk.cp_abs(c1)):
                    near_xy(p, (a[0] + f*(b[0]-a[0]), a[1] + f*(b[1]-a[1])), 1e-9*(1+abs(f))*400, 'twin %d' % i)
    with quiet():
        for m in (morphs if order else morphs[::-1]):
            m.restore()
    for g, e in zip(groups, curves):
        expect(g.elems['eye'] is e, 'each source is back in its own place')
    same(mk.state(model), before, 'model after restoring')


@R.facet(st.tuples(pair(True), pair(False), SETUP).map(list), n=120)
def missing(v, cx):
    """A source that the model does not hold is refused and nothing changes"""
    (s, t), (s2, t2), setup = v
    model = mk.elem(place_spec(s, setup))
    stranger = ElemCurve('stranger', mk.penbrush([['black', 1], None]), mk.cps(s2['cps']), closed=s2['closed'])
    target = mk.elem(t2)
    cx.nt()
    before, st_, tt = mk.state(model), mk.state(stranger), mk.state(target)
    with quiet():
        raises(MorphError, lambda: Morph(model, stranger, target, lambda x: x), 'source not in the model')
    same(mk.state(model), before, 'model')
    same(mk.state(stranger), st_, 'source')
    same(mk.state(target), tt, 'target')


@functools.lru_cache(None)
def long_pair(equal):
    """Curves of many control points"""
    def mk_(v):
        s, t, n, m = v
        def grow(c, k, dx):
            base = c['cps']
            return dict(c, cps=[[[base[i % len(base)][0][0] + dx*(i // len(base)), base[i % len(base)][0][1] - 3*(i // len(base))]]
                                + base[i % len(base)][1:] for i in range(k)])
        return [grow(s, n, 5), grow(dict(t, closed=s['closed']), n if equal else m if m != n else n+1, -4)]
    return st.booleans().flatmap(lambda c: st.tuples(curve(c, 2, 5), curve(c, 2, 5), st.integers(7, 18), st.integers(2, 18)).map(mk_))


@R.facet(st.tuples(long_pair(True), SETUP, FUNC, TIMES, st.booleans(), st.integers(1, 2)).map(list), n=30)
def long_equal(v, cx):
    """Many control points each"""
    equal_counts(v, cx)


@R.facet(st.tuples(long_pair(False), SETUP.filter(lambda v: v[0] in ('top', 'sub', 'subsub')), st.sampled_from(FRONT), TIMES,
                   st.booleans()).map(list), n=20)
def long_unequal(v, cx):
    """Many control points to be added"""
    unequal_counts(v, cx)


@R.facet(st.tuples(pair(True), SETUP, FUNC, TIMES, st.integers(1, 2), st.sampled_from(['itself', 'copy', 'sharing'])).map(list), n=150)
def itself(v, cx):
    """A curve morphed into itself, or into one made of the same points, stays as it is whatever is shown meanwhile"""
    (s, _t), setup, fname, times, rounds, how = v
    spec = place_spec(s, setup)
    model = mk.elem(spec)
    (src,) = find(model, s)
    before, sstate, drawn = mk.state(model), mk.state(src), sigs(model)
    make, want = FUNCS[fname]
    sib_sig = [mk.state(e) for k, e in model.elems.items() if k.startswith('sib')]
    cx.nt(any(want(x) is None for x in times) or len(times) > 1)
    cx.label(how)
    for rnd in range(rounds):
        target = src if how == 'itself' else src.copy() if how == 'copy' else \
            ElemCurve('other', src.penbrush, src.control_points, closed=src.closed)
        tstate = mk.state(target)
        with quiet():
            m = Morph(model, src, target, make())
        for x in times:
            m.update(x)
            f = want(x)
            if f is None:
                check_hidden(model, spec, s, sib_sig, m.morph)
            else:
                check_shown(model, s, setup, s['cps'])
                near_lerp(m.morph.control_points, s['cps'], s['cps'], f)
            same(mk.state(src), sstate, 'source')
            same(mk.state(target), tstate, 'target')
        for c in m.morph.control_points:
            c.c.setxy(1, 2)
            c.dl.setxy(3, 4)
            c.dr.setxy(5, 6)
        same(mk.state(src), sstate, 'source after the shown curve was edited')
        with quiet():
            m.restore()
        same(mk.state(model), before, 'model after restoring')
        (now,) = find(model, s)
        expect(now is src, 'the source itself is back')
        same(sigs(model), drawn, 'drawn as before')


@R.facet(st.tuples(pair(True), pair(False), st.booleans(), st.lists(st.sampled_from(['top', 'left', 'right', 'deep']), min_size=2, max_size=4, unique=True),
                   OPS, TIMES, st.booleans()).map(list), n=200)
def several_places(v, cx):
    """One curve used in several places of a model is morphed in all of them, and is back in all of them afterwards"""
    eq, uneq, equal, places, ops, times, own_target = v
    s, t = eq if equal else uneq
    pb = mk.penbrush([['black', 1], None])

    def world(cur):
        deep = Group('deep', pb, xform=mk.xform(ops))
        right = Group('right', pb, xform=mk.xform([['t', 50, 0]]))
        top, left = Group('top', pb), Group('left', pb)
        top.add('left', left)
        top.add('right', right)
        right.add('deep', deep)
        groups = dict(top=top, left=left, right=right, deep=deep)
        for p in places:
            groups[p].add(cur.name, cur)
        return top, groups
    src, target = mk.elem(s), mk.elem(t)
    top, groups = world(src)
    before, sstate, tstate = mk.state(top), mk.state(src), mk.state(target)
    with quiet():
        m = Morph(top, src, target, lambda x: x)
        # a model with that curve only
        alone = Group('g', pb)
        one = mk.elem(s)
        alone.add(one.name, one)
        m1 = Morph(alone, one, mk.elem(t), lambda x: x)
    cx.nt(s['cps'] != t['cps'])
    cx.label('places=%d' % len(places))
    for x in times:
        m.update(x)
        m1.update(x)
        want = [mk.real_abs(c) for c in alone.elems[s['name']].control_points]
        for p in places:
            same([mk.real_abs(c) for c in groups[p].elems[s['name']].control_points], want, 'curve in %s at %r' % (p, x))
        same(mk.state(src), sstate, 'source')
        same(mk.state(target), tstate, 'target')
    with quiet():
        m.restore()
    same(mk.state(top), before, 'model after restoring')
    for p in places:
        expect(groups[p].elems[s['name']] is src, 'the source itself is back in %s', p)
    if equal and own_target:
        # a curve morphed into itself stays as it is
        with quiet():
            m = Morph(top, src, src, lambda x: x)
        for x in times:
            m.update(x)
            now = groups[places[0]].elems[s['name']]
            near_lerp(now.control_points, s['cps'], s['cps'], x)
        with quiet():
            m.restore()
        same(mk.state(top), before, 'model after restoring')
