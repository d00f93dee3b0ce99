"""C28: timing functions are exact, monotone where promised and reusable"""
import math
import numpy as np
from hypothesis import strategies as st
from x7.geom.anim import Animation
from harness import gen
from harness.core import Registry, expect, near, near_xy, same

R = Registry('C28', 'Timing functions built with arbitrary parameters (knots, ramp ends, frequencies, phases in degrees, '
             'scales, shifts, thresholds, nestings of them) and evaluated at lists of times inside and outside 0..1, '
             'integral, fractional, repeated, as numbers of several types and as pairs. Non-trivial: at least two different '
             'times and parameters other than the defaults.')

TIME = gen.one_of(st.sampled_from([0, 1, 0.5, 0.25, 0.75, 1.0, 0.0, 2, -1]), gen.fl(0, 1), gen.fl(-2, 3))
TIMES = st.lists(TIME, min_size=1, max_size=8)
FREQ = gen.one_of(st.sampled_from([1, 1.0, 2, 0.5, 3, 0]), gen.fl(-4, 4))
AMP = gen.one_of(st.sampled_from([1, 0.5, 2, -1, 0]), gen.fl(-20, 20))


def knots():
    """Strictly increasing times with values"""
    def mk(v):
        start, steps, values = v
        out, t = [], start
        for dt, val in zip(steps, values):
            out.append([round(t, 6), val])
            t += dt
        return out
    return st.integers(1, 6).flatmap(lambda n: st.tuples(
        gen.fl(-1, 1), st.lists(gen.one_of(st.sampled_from([0.25, 0.5, 1]), gen.fl(0.01, 1)), min_size=n, max_size=n),
        st.lists(gen.coord(20), min_size=n, max_size=n)).map(mk))


def lin(kn, t):
    """Piecewise linear through the knots, constant outside"""
    if t <= kn[0][0]:
        return kn[0][1]
    for (t0, v0), (t1, v1) in zip(kn, kn[1:]):
        if t0 <= t <= t1:
            f = (t-t0)/(t1-t0)
            return v0*(1-f) + v1*f
    return kn[-1][1]


def num(v, what):
    """A plain number, not an array or pair"""
    expect(np.isscalar(v) and not isinstance(v, (str, bytes, bool, complex)), '%s is not a number: %r', what, v)
    return float(v)


def number_types(t):
    """The same time as several number types"""
    out = [t, float(t), np.float64(t)]
    if float(t).is_integer():
        out += [int(t), np.int64(int(t))]
    return out


@R.facet(st.tuples(knots(), TIMES, st.lists(TIME, min_size=1, max_size=4)).map(list), n=900)
def interpolate(v, cx):
    kn, times, others = v
    table = [tuple(k) for k in kn]
    f = Animation.interpolate(table)
    tol = 1e-9*(1 + max(abs(k[1]) for k in kn))*(1 + 1/min([1] + [b[0]-a[0] for a, b in zip(kn, kn[1:])]))
    cx.nt(len(kn) > 2 and len(set(times)) > 1)
    for t, val in kn:
        near(num(f(t), 'value'), val, tol, 'through the knot at %r' % t)
    for t in times:
        for tt in number_types(t):
            near(num(f(tt), 'value'), lin(kn, t), tol, 'interpolation at %r' % (tt,))
    for a, b in zip(times, others):
        got = f((a, b))
        expect(isinstance(got, tuple) and len(got) == 2, 'a pair of times gives a pair of values, not %r', got)
        near_xy(got, (lin(kn, a), lin(kn, b)), tol, 'pair (%r, %r)' % (a, b))
    same(table, [tuple(k) for k in kn], 'the knots handed in')
    same([num(f(t), 'value') for t in times], [num(f(t), 'value') for t in times], 'second evaluation')


@R.facet(st.tuples(knots(), st.lists(st.tuples(st.integers(0, 5), gen.coord(20)).map(list), min_size=1, max_size=3), TIMES,
                   TIMES).map(list), n=300)
def jumps(v, cx):
    """Two knots at the same time make the value jump there, from the first to the second"""
    kn, extra, times, others = v
    table = [list(k) for k in kn]
    for i, val in extra:
        t = kn[i % len(kn)][0]
        last = max(j for j, k in enumerate(table) if k[0] == t)
        if sum(k[0] == t for k in table) < 2:
            table.insert(last + 1, [t, val])
    at = [k[0] for k in kn]
    f = Animation.interpolate([tuple(k) for k in table])
    tol = 1e-9*(1 + max(abs(k[1]) for k in table))*(1 + 1/min([1] + [b-a for a, b in zip(at, at[1:])]))
    cx.nt(any(b[0] == a[0] and b[1] != a[1] for a, b in zip(table, table[1:])))
    probe = times + [t + d*e for t in at for d in (-1, 1) for e in (1e-3, 0.1)]

    def want(t):
        for a, b in zip(table, table[1:]):
            if a[0] < t < b[0]:
                g = (t-a[0])/(b[0]-a[0])
                return a[1]*(1-g) + b[1]*g
        return table[0][1] if t < at[0] else table[-1][1]
    for t in probe:
        if t not in at:
            near(num(f(t), 'value'), want(t), tol, 'interpolation at %r' % t)
    for a, b in zip(probe, others):
        if a not in at and b not in at:
            near_xy(f((a, b)), (want(a), want(b)), tol, 'pair')


RAMP = st.tuples(gen.fl(0, 1), gen.fl(0, 1), st.sampled_from([0, 0, 1, 2])).map(
    lambda v: sorted([v[0] if v[2] != 1 else 0, v[1] if v[2] != 2 else 1])).filter(lambda v: v[1] - v[0] > 1e-3)


@R.facet(st.tuples(gen.one_of(st.none(), RAMP), st.lists(TIME, min_size=2, max_size=10)).map(list), n=700)
def ramps(v, cx):
    ends, times = v
    s, e = ends or (0.25, 0.75)
    up = Animation.ramp_up(*ends) if ends else Animation.ramp_up()
    dn = Animation.ramp_down(*ends) if ends else Animation.ramp_down()
    up_kw = Animation.ramp_up(start=s, end=e)
    cx.nt(len(set(times)) > 1 and any(s < t < e for t in times))
    cx.label('touches 0 or 1', s == 0 or e == 1)
    prev = None
    for t in sorted(times):
        want = 0 if t <= s else 1 if t >= e else (t-s)/(e-s)
        u, d = num(up(t), 'ramp up'), num(dn(t), 'ramp down')
        near(u, want, 1e-11, 'ramp up %r..%r at %r' % (s, e, t))
        near(d, 1-want, 1e-11, 'ramp down %r..%r at %r' % (s, e, t))
        if t < s or t > e:
            same((u, d), ((0, 1) if t < s else (1, 0)), 'exact outside the ramp')
        same(num(up_kw(t), 'ramp up'), u, 'by keyword')
        if prev is not None:
            expect(prev[0] <= u and prev[1] >= d, 'monotone')
        prev = u, d
    for a, b in zip(times, times[1:]):
        got = up((a, b))
        expect(isinstance(got, tuple), 'pair in, pair out')
        same(tuple(map(float, got)), (float(up(a)), float(up(b))), 'ramp of a pair')
        got = dn((a, b))
        expect(isinstance(got, tuple), 'pair in, pair out')
        same(tuple(map(float, got)), (float(dn(a)), float(dn(b))), 'ramp down of a pair')


def trig(which, th):
    return math.cos(th - math.pi/2) if which == 'sin' else math.sin(th + math.pi/2)


@R.facet(st.tuples(FREQ, gen.angle(), AMP, AMP, TIMES).map(list), n=900)
def periodic(v, cx):
    freq, off, scale, shift, times = v
    cx.nt(off != 0 and freq != 0 and scale != 0 and len(set(times)) > 1)
    fs, fc = Animation.sin(freq, off, scale, shift), Animation.cos(freq, off, scale, shift)
    both = Animation.sin_cos(freq, off, scale, shift)
    gp = Animation.periodic(lambda a: math.sin(a)**2, frequency=freq, offset=off, scale=scale, shift=shift)
    slow = Animation.periodic(lambda a: math.sin(a/3) + a/10, freq, off, scale, shift)
    for rnd in range(2):
        for t in times:
            for tt in number_types(t):
                th = 2*math.pi*(freq*t + off/360)
                tol = 1e-12*(1 + abs(scale))*(1 + abs(th)) + 1e-13*abs(shift)
                near(num(slow(tt), 'periodic'), scale*(math.sin(th/3) + th/10) + shift, 3*tol,
                     'given function that does not repeat, at %r' % (tt,))
                s, c = scale*trig('sin', th) + shift, scale*trig('cos', th) + shift
                near(num(fs(tt), 'sin'), s, tol, 'sin at %r' % (tt,))
                near(num(fc(tt), 'cos'), c, tol, 'cos at %r' % (tt,))
                got = both(tt)
                expect(isinstance(got, tuple) and len(got) == 2, 'sin_cos gives a pair, not %r', got)
                near_xy(got, (s, c), tol, 'sin, cos at %r' % (tt,))
                near(num(gp(tt), 'periodic'), scale*(1-math.cos(2*th))/2 + shift, 3*tol, 'given function at %r' % (tt,))


@R.facet(st.tuples(st.integers(0, 4), FREQ, gen.angle(), AMP, AMP, TIME).map(list), n=200)
def periodic_defaults(v, cx):
    """Any tail of the parameters may be left out: one turn, no phase, amplitude one, no shift"""
    k, freq, off, scale, shift, t = v
    args = [freq, off, scale, shift][:k]
    full = args + [1, 0, 1, 0][k:]
    cx.nt(k < 4 and t not in (0, 1))
    for f in (Animation.sin, Animation.cos, Animation.sin_cos):
        a, b = f(*args)(t), f(*full)(t)
        near_xy(a if isinstance(a, tuple) else (a, 0), b if isinstance(b, tuple) else (b, 0), 1e-9*(1+abs(full[2])),
                'defaults')
    # a full turn later the value is the same
    if freq:
        near(Animation.sin(freq, off)(t + 1/freq), Animation.sin(freq, off)(t), 1e-8*(1+abs(freq*t)), 'period')
    # a phase of 90 degrees turns sine into cosine
    near(Animation.sin(freq, off + 90)(t), Animation.cos(freq, off)(t), 1e-9*(1+abs(freq*t)+abs(off)/360), 'phase')


@R.facet(st.tuples(knots(), AMP, TIMES, st.booleans()).map(list), n=700)
def hiding(v, cx):
    kn, threshold, times, dflt = v
    table = [tuple(k) for k in kn]
    # thresholds on attained values matter most
    calls = []
    inner = Animation.interpolate(table)

    def func(t):
        calls.append(t)
        return inner(t)

    if dflt:
        f, limit = Animation.hide_if(func), 0
    else:
        f, limit = Animation.hide_if(func, threshold), threshold
    at = Animation.hide_if(func, inner(times[0]))
    seen = set()
    for rnd in range(2):
        for t in times:
            val = inner(t)
            got = f(t)
            seen.add(got is None)
            if val < limit:
                expect(got is None, 'value %r below %r is hidden, got %r', val, limit, got)
            else:
                expect(got is not None, 'value %r not below %r is kept', val, limit)
                same(float(got), float(val), 'value kept')
    expect(at(times[0]) is not None, 'a value at the threshold is not hidden')
    expect(all(any(c == t for t in times) for c in calls), 'the function is asked for the given times only')
    cx.nt(len(seen) > 1)


@R.facet(st.tuples(knots(), RAMP, FREQ, gen.angle(), TIMES, TIMES, st.integers(0, 2)).map(list), n=500)
def pairs_and_identity(v, cx):
    kn, ends, freq, off, times, other, which = v
    fx = Animation.interpolate([tuple(k) for k in kn])
    fy = [Animation.ramp_down(*ends), Animation.cos(freq, off), Animation.identity()][which]
    both = Animation.xy(fx, fy)
    only_x, only_y, neither = Animation.xy(fx), Animation.xy(y_func=fy), Animation.xy()
    ident, ident_xy = Animation.identity(), Animation.identity_xy()
    cx.nt(len(set(times)) > 1)
    for rnd in range(2):
        for t in times:
            got = both(t)
            expect(isinstance(got, tuple) and len(got) == 2, 'pair')
            same(tuple(map(float, got)), (float(fx(t)), float(fy(t))), 'the two given functions at %r' % t)
            same(tuple(map(float, only_x(t))), (float(fx(t)), float(t)), 'default y')
            same(tuple(map(float, only_y(t))), (float(t), float(fy(t))), 'default x')
            same(neither(t), (t, t), 'both default')
            same(ident(t), t, 'identity')
            same(ident_xy(t), (t, t), 'identity pair from a number')
    for p in zip(times, other):
        same(ident(p), p, 'identity of a pair')
        same(ident_xy(p), p, 'identity of a pair')


@R.facet(st.tuples(st.lists(st.tuples(FREQ, gen.angle(), AMP, AMP).map(list), min_size=2, max_size=4),
                   st.lists(st.tuples(st.integers(0, 3), TIME).map(list), min_size=3, max_size=12)).map(list), n=300)
def independent(v, cx):
    """Functions do not influence each other, whatever the order of evaluation"""
    params, calls = v
    funcs = [Animation.sin_cos(*p) for p in params] + [Animation.hide_if(Animation.sin(*p), p[3]) for p in params]
    ramps_ = [Animation.ramp_up(0.1*i, 0.1*i + 0.3) for i in range(len(params))]
    first = {}
    cx.nt(len({c[0] % len(params) for c in calls}) > 1)
    for rnd in range(2):
        for i, t in calls:
            i %= len(params)
            got = (funcs[i](t), funcs[i + len(params)](t), float(ramps_[i](t)))
            if (i, t) in first:
                same(got, first[i, t], 'same function, same time')
            first[i, t] = got
            fresh = (Animation.sin_cos(*params[i])(t), Animation.hide_if(Animation.sin(*params[i]), params[i][3])(t),
                     float(Animation.ramp_up(0.1*i, 0.1*i + 0.3)(t)))
            same(got, fresh, 'a fresh function with the same parameters')


def _many(v):
    start, dts, vals, n = v
    out, t = [], start
    for i in range(n):
        out.append([round(t, 6), round(vals[i % len(vals)] + 0.5*i, 6)])
        t += dts[i % len(dts)]
    return out


MANY = st.tuples(gen.fl(-1, 1), st.lists(gen.fl(0.01, 0.3), min_size=3, max_size=3), st.lists(gen.coord(20), min_size=4, max_size=4),
                 st.integers(7, 40)).map(_many)


@R.facet(st.tuples(MANY, st.lists(gen.fl(-1, 6), min_size=3, max_size=20), st.lists(TIME, min_size=1, max_size=4)).map(list), n=100)
def many_knots(v, cx):
    interpolate(v, cx)
