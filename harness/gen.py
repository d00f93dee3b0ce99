"""Hypothesis strategies producing JSON-serialisable specs"""
from hypothesis import strategies as st
from harness import mk


def one_of(*opts):
    """
    One of the strategies, each as likely as the others.  (st.one_of flattens what is nested in it, so that an
    alternative that itself has many alternatives crowds out the rest.)
    """
    if len(opts) == 1 and isinstance(opts[0], (list, tuple)):
        opts = opts[0]
    opts = list(opts)
    if len(opts) == 1:
        return opts[0]
    return st.sampled_from(range(len(opts))).flatmap(opts.__getitem__)


def _r6(v):
    return round(v, 6)


def fl(lo, hi):
    """A float in the range: one of at most 6 decimals, or one that no short decimal gives"""
    def mk(v):
        v, full = v
        if full:
            return min(max(round(3*v, 4)/3, lo), hi)
        return _r6(v)
    return st.tuples(st.floats(lo, hi, allow_nan=False, allow_infinity=False), st.booleans()).map(mk)


def coord(m=1000):
    """A coordinate: small integers, integers, quarters and arbitrary floats (6 decimals)"""
    return one_of(
        st.integers(-10, 10),
        st.integers(-m, m),
        st.integers(-4*m, 4*m).map(lambda v: v/4),
        fl(-m, m),
    )


def pos(lo, hi):
    """A positive number in lo..hi"""
    return one_of(st.integers(max(1, int(lo)), max(1, int(hi))).filter(lambda v: lo <= v <= hi), fl(lo, hi)) \
        if int(hi) >= max(1, lo) else fl(lo, hi)


def small(n=6):
    return st.integers(-n, n)


def xy(m=1000):
    return st.tuples(coord(m), coord(m)).map(list)


def angle():
    return one_of(st.sampled_from([0, 30, 45, 60, 90, 120, 135, 180, 225, 270, 315, -90, -45, 360, 450, -360]),
                     st.integers(-720, 720), fl(-720, 720))


def factor():
    """A scale factor bounded away from zero"""
    return one_of(st.sampled_from([1, 2, 0.5, -1, 3, -2, 1.5]), fl(0.2, 4), fl(-4, -0.2))


def xf_op(m=100):
    return one_of(
        st.tuples(st.just('t'), coord(m), coord(m)).map(list),
        st.tuples(st.just('s'), factor(), factor()).map(list),
        st.tuples(st.just('r'), angle()).map(list),
        st.sampled_from([['s', -1, 1], ['s', 1, -1], ['s', -1, -1], ['m', [0, -1, 0, 1, 0, 0]], ['m', [0, 1, 0, -1, 0, 0]],
                         ['m', [0, 1, 0, 1, 0, 0]]]).map(lambda v: list(v)),
        st.tuples(st.just('k'), fl(-1, 1)).map(list),
        st.tuples(st.just('m'), fl(-1, 1).map(lambda v: [1.0, 0.0, 0.0, v, 1.0, 0.0])).map(list),
    )


def xform(m=100, max_ops=3):
    """Spec of an invertible affine map: a list of operations, first applied first"""
    return st.lists(xf_op(m), max_size=max_ops)


def xform_similarity(m=100):
    return st.tuples(angle(), fl(0.25, 4), coord(m), coord(m)).map(
        lambda v: [['r', v[0]], ['s', v[1], v[1]], ['t', v[2], v[3]]])


def xform_rigid(m=100):
    return st.tuples(angle(), coord(m), coord(m)).map(lambda v: [['r', v[0]], ['t', v[1], v[2]]])


def xform_axis(m=100):
    """translation and scale only"""
    return st.tuples(factor(), factor(), coord(m), coord(m)).map(lambda v: [['s', v[0], v[1]], ['t', v[2], v[3]]])


COLORS = ['black', 'red', 'green', 'blue', 'yellow', 'white', '#102030', 'NoColor']
NAMES = ['a', 'b', 'c', 'rect', 'x1', 'body', 'curve#0', "it's", 'n m', '']


def color():
    return one_of(st.sampled_from(COLORS[:-1]),
                     st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(0, 255)).map(list),
                     st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(0, 255),
                               st.integers(0, 255)).map(list))


def pen():
    """None or [color, width]"""
    return one_of(st.none(), st.tuples(color(), one_of(st.integers(-5, 5), fl(-5, 5))).map(list))


def penbrush(closed=True, must=False):
    brush = one_of(st.none(), color()) if closed else st.none()
    p = st.tuples(pen(), brush).map(list)
    if must:
        p = p.filter(lambda v: v[0] is not None or v[1] is not None)
    return p


def kind():
    return st.sampled_from(['smooth', 'very-smooth', 'sharp'])


def cp(m=100, h=50):
    """Control point: [c, dl, dr, kind]; a handle is sometimes missing"""
    handle = one_of(xy(h), xy(h), xy(h), st.just([0, 0]))
    return st.tuples(xy(m), handle, handle, kind()).map(list)


def cps(lo=2, hi=6, m=100, h=50):
    return st.lists(cp(m, h), min_size=lo, max_size=hi)


def two_corners(m=100, minsize=0.5):
    """[p1, p2] opposite corners of a non-degenerate box, in any of the 4 orders"""
    def mk(v):
        x, y, w, h, fx, fy = v
        p1, p2 = [x, y], [x + w, y + h]
        if fx:
            p1[0], p2[0] = p2[0], p1[0]
        if fy:
            p1[1], p2[1] = p2[1], p1[1]
        return [p1, p2]
    size = one_of(st.integers(1, m), fl(minsize, m))
    return st.tuples(coord(m), coord(m), size, size, st.booleans(), st.booleans()).map(mk)


def name():
    return st.sampled_from(['a', 'b', 'c', 'd', 'rect', 'x1', 'body', 'curve#0', "it's", 'n m', 'n  m',
                            '"q" \\', 'ü'])


def _xf(allow):
    return {'any': xform(60, 3), 'none': st.just([]), 'axis': xform_axis(60),
            'sim': xform_similarity(60)}[allow]


def elem_curve(xf='any', closed=None, lo=2, hi=5, m=100, h=50):
    cl = st.booleans() if closed is None else st.just(closed)
    return cl.flatmap(lambda c: st.fixed_dictionaries(dict(
        k=st.just('curve'), name=name(), pb=penbrush(c), closed=st.just(c), xf=_xf(xf), cps=cps(lo, hi, m, h))))


def straight(xf='any', closed=None, m=100):
    """A straight line along an axis: a curve without area (closed: there and back)"""
    def mk(v):
        s, at, d, across, n = v
        return dict(s, cps=[[[at[0] + (0 if across else d*i), at[1] + (d*i if across else 0)], [0, 0], [0, 0], 'sharp']
                            for i in range(n)])
    return st.tuples(elem_curve(xf, closed, 2, 2, m), xy(m), one_of(st.integers(1, 50), fl(0.5, 50), fl(-50, -0.5)),
                     st.booleans(), st.integers(2, 4)).map(mk)


def elem_rect(xf='any', kinds=('rect', 'ellipse')):
    return st.sampled_from(kinds).flatmap(lambda k: st.fixed_dictionaries(dict(
        k=st.just(k), name=name(), pb=penbrush(), xf=_xf(xf), p=two_corners())))


def elem_rrect(xf='any'):
    return st.fixed_dictionaries(dict(
        k=st.just('rrect'), name=name(), pb=penbrush(), xf=_xf(xf), p=two_corners(),
        radius=one_of(st.just(0), st.integers(0, 60), fl(0, 80))))


def leaf(xf='any', kinds=('curve', 'rect', 'rrect', 'ellipse'), closed=None):
    opts = []
    if 'curve' in kinds:
        opts += [straight(xf, closed)] + [elem_curve(xf, closed=closed)]*3 + [elem_curve(xf, closed=closed, lo=6, hi=14)]
        opts += [elem_curve(xf, closed=closed, lo=1, hi=1)]
    rk = tuple(k for k in ('rect', 'ellipse') if k in kinds)
    if rk:
        opts += [elem_rect(xf, rk)]*3
    if 'rrect' in kinds:
        opts += [elem_rrect(xf)]*3
    return one_of(opts)


def holes(xf='any', max_inside=2, min_inside=0, kinds=('curve', 'rect', 'rrect', 'ellipse')):
    """
    Shape with holes.  The outside is any closed leaf; inside elements are placed, by construction, within the
    middle of the outside's box ('fit' in the spec; see mk.holes): pos in 0.3..0.7 of the box, size 0.05..0.2 of it.
    """
    frac = fl(0.3, 0.7)
    hole = st.tuples(st.sampled_from(2*([k for k in kinds if k != 'curve'] + ['ring']) + ['group']), frac, frac,
                     fl(0.02, 0.15), fl(0.02, 0.15), _xf('none'), name()).map(list)

    def alike(v):
        # names of holes need not differ from each other or from that of the outside
        s, how = v
        # (holes within an outside without area would be outside of it by rounding)
        x1, y1, x2, y2 = mk.outside_box(s['outside'])
        if min(x2-x1, y2-y1) < 1e-6*(1 + max(map(abs, (x1, y1, x2, y2)))):
            new = dict(cps=[[[0, 0], [0, 4], [0, -4], 'smooth'], [[9, 5], [-3, 0], [3, 0], 'smooth']]) \
                if s['outside']['k'] == 'curve' else dict(p=[[0, 0], [9, 5]])
            s = dict(s, outside=dict(s['outside'], xf=[], **new))
        if how and s['inside']:
            n = s['inside'][0][6] if how == 'same' else s['outside']['name']
            s = dict(s, inside=[h[:6] + [n] for h in s['inside']])
        return s
    return closed_pb().flatmap(lambda c: st.tuples(st.fixed_dictionaries(dict(
        k=st.just('holes'), name=name(), pb=st.just(c[1]), closed=st.just(c[0]), xf=_xf(xf),
        outside=leaf(xf, kinds, closed=True),
        inside=st.lists(hole, min_size=min_inside, max_size=max_inside))),
        st.sampled_from([None, None, None, 'same', 'same', 'outside'])).map(alike))


def closed_pb(open_too=(True, True, True, False), must=False):
    """Closedness and a style it allows: what is not closed is not filled"""
    return st.sampled_from(open_too).flatmap(lambda c: st.tuples(st.just(c), penbrush(c, must)))


def unique_names(elems):
    """Children of a group need distinct names"""
    seen = set()
    out = []
    for i, e in enumerate(elems):
        e = dict(e)
        if e['name'] in seen:
            e['name'] = '%s_%d' % (e['name'], i)
        seen.add(e['name'])
        out.append(e)
    return out


def group_of(children, xf='any', min_size=0, max_size=3, hidden=True):
    return closed_pb((False, False, True), must=True).flatmap(lambda c: st.fixed_dictionaries(dict(
        k=st.just('group'), name=name(), pb=st.just(c[1]), closed=st.just(c[0]), xf=_xf(xf),
        hidden=st.sampled_from([False, False, False, True]) if hidden else st.just(False),
        elems=st.lists(children, min_size=min_size, max_size=max_size).map(unique_names))))


def model(xf='any', kinds=('curve', 'rect', 'rrect', 'ellipse'), with_holes=True, hidden=True, min_size=1,
          empty_sub=True, closed=None):
    """A group, nested up to three levels"""
    base = leaf(xf, kinds, closed)
    opts = [base, base, holes(xf, kinds=kinds)] if with_holes else [base]
    lvl0 = one_of(opts)
    lvl1 = group_of(lvl0, xf, 0 if empty_sub else 1, 3, hidden)
    lvl2 = group_of(one_of(lvl0, lvl1), xf, 0 if empty_sub else 1, 3, hidden)
    return group_of(one_of(lvl0, lvl1, lvl2), xf, min_size, 4, False)


def any_elem(xf='any', kinds=('curve', 'rect', 'rrect', 'ellipse'), with_holes=True, hidden=True, groups=True,
             empty_sub=True, closed=None):
    opts = [leaf(xf, kinds, closed), leaf(xf, kinds, closed)]
    if with_holes:
        opts.append(holes(xf, kinds=kinds))
    if groups:
        opts.append(model(xf, kinds, with_holes, hidden, 1, empty_sub, closed))
    return one_of(opts)


def long_curve(xf='any', lo=15, hi=60, closed=None):
    """A curve of many control points"""
    def mk(v):
        s, n = v
        base = s['cps']
        s = dict(s, cps=[[[c[0][0] + 7*(i//len(base)), c[0][1] - 4*(i//len(base))], c[1], c[2], c[3]]
                         for i, c in ((i, base[i % len(base)]) for i in range(n))])
        return s
    return st.tuples(elem_curve(xf, closed, 2, 4), st.integers(lo, hi)).map(mk)


def crowd(xf='any', lo=8, hi=40, kinds=('curve', 'rect', 'rrect', 'ellipse'), closed=None, hidden=False):
    """A group of many children"""
    def mk(v):
        g, base, n = v
        return dict(g, elems=[dict(base[i % len(base)], name='e%d' % i, xf=base[i % len(base)]['xf'] + [['t', 3*i, -2*i]])
                              for i in range(n)])
    return st.tuples(group_of(st.nothing(), xf, 0, 0, hidden),
                     st.lists(leaf(xf, kinds, closed), min_size=1, max_size=3), st.integers(lo, hi)).map(mk)


def deep(xf='any', lo=4, hi=9, kinds=('curve', 'rect', 'rrect', 'ellipse'), with_holes=True, closed=None):
    """Groups within groups, many levels"""
    def mk(v):
        e, levels, sib = v
        for i, (g, at) in enumerate(levels):
            others = [] if sib is None or i % 2 else [dict(sib, name='s%d' % i)]
            me = dict(e, name='d%d' % i)
            e = dict(g, hidden=False, elems=[me] + others if at else others + [me])
        return e
    inner = one_of(leaf(xf, kinds, closed), holes(xf, kinds=kinds)) if with_holes else leaf(xf, kinds, closed)
    small = {'any': xform(20, 1), 'axis': xform_axis(20)}.get(xf, _xf(xf))
    lvl = st.tuples(group_of(st.nothing(), 'none', 0, 0, False), small).map(lambda v: dict(v[0], xf=v[1]))
    return st.tuples(inner, st.lists(st.tuples(lvl, st.booleans()), min_size=lo, max_size=hi),
                     one_of(st.none(), leaf(xf, kinds, closed))).map(mk)


def many_holes(xf='any', lo=4, hi=12):
    """A shape with many holes"""
    def mk(v):
        s, kinds, n = v
        ins = []
        for i in range(n):
            k = kinds[i % len(kinds)]
            ins.append([k, 0.3 + 0.1*(i % 4), 0.3 + 0.1*(i // 4), 0.03, 0.04, [], 'h%d' % i])
        return dict(s, inside=ins)
    return st.tuples(holes(xf, 0), st.lists(st.sampled_from(['rect', 'ellipse', 'rrect', 'ring', 'group']), min_size=1, max_size=4),
                     st.integers(lo, hi)).map(mk)


def large(xf='any', with_holes=True):
    """Elements with many parts or levels"""
    opts = [long_curve(xf), crowd(xf), deep(xf, with_holes=with_holes)] + ([many_holes(xf)] if with_holes else [])
    return one_of(opts)


def tag(name_, spec, edits):
    return st.tuples(st.just(name_), spec, edits, st.booleans()).map(list)
