"""C38: values compare equal exactly when their parts do"""
import copy
import math
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector, BBox, Line, PointCalc, PointRelative, VectorRelative
from x7.geom.transform import Transform
from x7.geom.model import ElemCurve, ElemRectangle, ElemEllipse, ElemRectangleRounded, ElemWithHoles, Group
from harness import edits, gen, mk
from harness.core import Registry, expect, same

R = Registry('C38', 'Elements of every kind, shapes with holes and nested models built twice from one description, the second '
             'time with one part changed at a random place (any depth): name, pen, brush, width, closedness, transform, a '
             'coordinate, handle, kind, radius, a hole or child added or taken away, outside or hole, child name, registered '
             'point, visibility, element kind; and lines, control points and transforms likewise. Non-trivial: the part that '
             'is changed is not the first one looked at, or lies inside another element.')

PB1, PB2 = [['red', 1], None], [['red', 2], None]


def nodes(s):
    out = [s]
    if s['k'] == 'group':
        for e in s['elems']:
            out += nodes(e)
    elif s['k'] == 'holes':
        out += nodes(s['outside'])
        for e in s['inside']:
            out += nodes(e)
    return out


def bump(v):
    return v + 1 if v != v + 1 else v*2


def fresh_name(base, taken):
    n = base + 'z'
    while n in taken:
        n += 'z'
    return n


def edit(root, where, what, k, tiny):
    """Change one part of the description; returns what was changed or None"""
    all_ = nodes(root)
    n = all_[where % len(all_)]
    parent = next((p for p in all_ if p['k'] == 'group' and any(e is n for e in p['elems'])), None)
    in_holes = any(p['k'] == 'holes' and (p['outside'] is n or any(e is n for e in p['inside'])) for p in all_)
    d = 1e-9 if tiny else 1
    if what == 'name':
        n['name'] = fresh_name(n['name'], {e['name'] for e in parent['elems']} if parent else ())
    elif what == 'pen':
        if in_holes:
            return None         # parts of a shape with holes take its style
        n['pb'] = [[n['pb'][0][0], n['pb'][0][1] + 1], n['pb'][1]] if n['pb'][0] else [['red', 1], n['pb'][1]]
    elif what == 'pen color':
        if in_holes or not n['pb'][0]:
            return None
        n['pb'] = [['#010203' if n['pb'][0][0] != '#010203' else 'red', n['pb'][0][1]], n['pb'][1]]
    elif what == 'brush':
        if in_holes or not n.get('closed', n['k'] != 'group'):
            return None
        n['pb'] = [n['pb'][0], '#010203' if n['pb'][1] != '#010203' else 'red']
    elif what == 'closed':
        if n['k'] not in ('curve', 'group', 'holes') or n['pb'][1] or in_holes and any(
                p['k'] == 'holes' and p['pb'][1] for p in all_):
            return None
        n['closed'] = not n.get('closed', n['k'] == 'holes')
    elif what == 'xform':
        m = list(mk.mat(n['xf']))
        m[k % 6] = m[k % 6] + d*0.5
        if m[k % 6] == mk.mat(n['xf'])[k % 6]:
            return None
        n['xf'] = [['m', m]]
    elif what == 'point':
        if n['k'] == 'curve':
            c = n['cps'][k % len(n['cps'])]
            i, j = divmod(k // 7 % 6, 2)
            was = c[i][j]
            c[i] = list(c[i])
            c[i][j] = was + d
            if c[i][j] == was:
                return None
        elif 'p' in n:
            i, j = divmod(k % 4, 2)
            was = n['p'][i][j]
            n['p'][i] = list(n['p'][i])
            n['p'][i][j] = was + d
            if n['p'][i][j] == was:
                return None
        else:
            return None
    elif what == 'kind':
        if n['k'] != 'curve':
            return None
        c = n['cps'][k % len(n['cps'])]
        c[3] = {'smooth': 'sharp', 'sharp': 'very-smooth', 'very-smooth': 'smooth'}[c[3]]
    elif what == 'radius':
        if n['k'] != 'rrect':
            return None
        was = n['radius']
        n['radius'] += d
        if n['radius'] == was:
            return None
    elif what == 'swap':
        if n['k'] == 'curve':
            a, b = n['cps'][0], n['cps'][-1]
            if a == b:
                return None
            n['cps'][0], n['cps'][-1] = b, a
        elif 'p' in n:
            if n['p'][0] == n['p'][1]:
                return None
            n['p'] = n['p'][::-1]
        elif n['k'] == 'holes' and len(n['inside']) > 1 and n['inside'][0] != n['inside'][-1]:
            n['inside'][0], n['inside'][-1] = n['inside'][-1], n['inside'][0]
        else:
            return None
    elif what == 'type':
        if n['k'] not in ('rect', 'ellipse'):
            return None
        n['k'] = 'ellipse' if n['k'] == 'rect' else 'rect'
    elif what == 'more':
        if n['k'] == 'curve':
            n['cps'].append(copy.deepcopy(n['cps'][-1]))
        elif n['k'] == 'group':
            n['elems'].append(dict(k='rect', name=fresh_name('new', {e['name'] for e in n['elems']}), pb=PB1, xf=[],
                                   p=[[0, 0], [1, 1]]))
        elif n['k'] == 'holes':
            n['inside'].append(dict(k='rect', name='new', pb=n['pb'], xf=[], p=[[0, 0], [1, 1]]))
        else:
            return None
    elif what == 'less':
        key = {'curve': 'cps', 'group': 'elems', 'holes': 'inside'}.get(n['k'])
        if key is None or len(n[key]) < (2 if key == 'cps' else 1):
            return None
        del n[key][k % len(n[key])]
    elif what == 'hidden':
        if n['k'] != 'group':
            return None
        n['hidden'] = not n['hidden']
    elif what == 'reg':
        if n['k'] != 'group':
            return None
        pts = n.setdefault('points', {})
        if 'q' in pts and k % 3 == 0:
            del pts['q']
        elif 'q' in pts and k % 3 == 1:
            pts['q'] = [pts['q'][0] + d, pts['q'][1]]
        else:
            pts['other'] = [1, 2]
    else:
        raise ValueError(what)
    return n['k']


WHATS = ['name', 'pen', 'pen color', 'brush', 'closed', 'xform', 'point', 'kind', 'radius', 'swap', 'type', 'more', 'less',
         'hidden', 'reg']


def build(s):
    """mk.elem plus the registered points"""
    e = mk.elem(s)

    def points(s_, e_):
        if s_['k'] == 'group':
            for name, (x, y) in s_.get('points', {}).items():
                e_.add_pt(name, Point(x, y))
            for c in s_['elems']:
                points(c, e_.elems[c['name']])
        elif s_['k'] == 'holes':
            for c, part in zip([s_['outside']] + s_['inside'], [e_.outside] + e_.inside):
                points(c, part)
    points(mk.expand(s), e)
    return e


def full(s):
    """Absolute holes, so that the parts can be edited one by one; points registered in every group"""
    s = copy.deepcopy(mk.expand(s))
    for n in nodes(s):
        if n['k'] == 'holes':
            for part in [n['outside']] + n['inside']:
                part['pb'] = n['pb']
                if part['k'] == 'curve':
                    part['closed'] = True
        if n['k'] == 'group':
            n['points'] = {'q': [1, 2]}
    return s


def check(s, where, what, k, tiny, cx):
    spec = full(s)
    a, b = build(spec), build(copy.deepcopy(spec))
    expect(a == b and b == a, 'two %s of the same parts are equal', spec['k'])
    expect(not (a != b) and not (b != a), 'two %s of the same parts are not unequal', spec['k'])
    expect(a == a, 'equal to itself')
    other = copy.deepcopy(spec)
    kind = edit(other, where, what, k, tiny)
    if kind is None:
        return
    cx.label(what)
    cx.nt(where > 0)
    c = build(other)
    was = mk.state(a), mk.state(c)
    expect(not (a == c), '%s changed in a %s: still equal', what, kind)
    expect(not (c == a), '%s changed in a %s: still equal the other way round', what, kind)
    expect(a != c and c != a, '%s changed in a %s: != says equal', what, kind)
    expect(not (a in [c]) and a in [c, b], 'found in a list exactly when equal')
    same((mk.state(a), mk.state(c)), was, 'values compared')


ARGS = (st.integers(0, 9), st.sampled_from(WHATS), st.integers(0, 41), st.booleans())


@R.facet(st.tuples(gen.leaf(), *ARGS).map(list), n=700)
def leaves(v, cx):
    s, where, what, k, tiny = v
    check(s, where, what, k, tiny, cx)


@R.facet(st.tuples(gen.holes(), *ARGS).map(list), n=500)
def holes(v, cx):
    s, where, what, k, tiny = v
    check(s, where, what, k, tiny, cx)


@R.facet(st.tuples(gen.model(), *ARGS).map(list), n=700)
def models(v, cx):
    s, where, what, k, tiny = v
    check(s, where, what, k, tiny, cx)


def zoo(s):
    """Values of every kind from the same numbers"""
    x, y, z, w = s
    pb = mk.penbrush(PB1)
    cps = mk.cps([[[x, y], [z, w], [1, 2], 'smooth'], [[z, w], [1, 2], [3, 4], 'sharp']])
    return [
        Point(x, y), Vector(x, y), PointRelative(0, 0, Point(x, y)), VectorRelative(Point(x, y), Point(0, 0)),
        BBox(min(x, z), min(y, w), max(x, z), max(y, w)), Line(Point(x, y), Vector(z, w)), cps[0],
        Transform((1, 0, x, 0, 1, y)), pb, pb.pen, pb.pen.brush,
        ElemCurve('n', pb, cps, True), ElemRectangle('n', pb, Point(x, y), Point(z, w)),
        ElemEllipse('n', pb, Point(x, y), Point(z, w)), ElemRectangleRounded('n', pb, Point(x, y), Point(z, w), 0),
        ElemWithHoles('n', pb, ElemRectangle('n', pb, Point(x, y), Point(z, w)), []),
        Group('n', pb, elems=[ElemRectangle('n', pb, Point(x, y), Point(z, w))]), Group('n', pb),
    ]


@R.facet(st.tuples(*[gen.coord(50)]*4).map(list), n=60)
def kinds(s, cx):
    """Values of different kinds are never equal, nor equal to anything foreign"""
    cx.nt(len(set(s)) > 1)
    a, b = zoo(s), zoo(s)
    for i, p in enumerate(a):
        for j, q in enumerate(b):
            same(bool(p == q), i == j, '%r == %r' % (p, q))
            same(bool(p != q), i != j, '%r != %r' % (p, q))
        for foreign in (None, 0, 1.5, 'n', (s[0], s[1]), [s[0], s[1]], {}, object()):
            same(bool(p == foreign), False, '%r == %r' % (p, foreign))
            same(bool(foreign == p), False, '%r == %r' % (foreign, p))
            same(bool(p != foreign), True, '%r != %r' % (p, foreign))


@R.facet(st.tuples(gen.cp(), st.integers(0, 6), st.booleans()).map(list), n=500)
def control_points(v, cx):
    s, part, tiny = v
    d = 1e-9 if tiny else 1
    a, b = mk.cp(s), mk.cp(s)
    expect(a == b and not a != b, 'same parts')
    t = copy.deepcopy(s)
    if part == 6:
        t[3] = {'smooth': 'sharp', 'sharp': 'very-smooth', 'very-smooth': 'smooth'}[t[3]]
    else:
        i, j = divmod(part, 2)
        t[i] = list(t[i])
        t[i][j] += d
        if t[i][j] == s[i][j]:
            return
    cx.nt(part > 1)
    c = mk.cp(t)
    expect(not (a == c) and not (c == a) and a != c, 'part %d changed', part)
    swapped = mk.cp([s[0], s[2], s[1], s[3]])
    same(bool(a == swapped), s[1] == s[2], 'handles exchanged')


@R.facet(st.tuples(gen.xform(), st.integers(0, 5), st.booleans(), st.booleans()).map(list), n=400)
def transforms(v, cx):
    """Equality is that of the maps, whatever happened before"""
    ops, i, tiny, used = v
    m = list(mk.mat(ops))
    a, b = Transform(tuple(m)), Transform(tuple(m))
    if used:
        b.push()
        b.translate(5, 5)
        b.pop()
        b.untransform(1, 2)
    expect(a == b and b == a and not a != b, 'same maps')
    m2 = list(m)
    m2[i] += 1e-9 if tiny else 1
    if m2[i] == m[i]:
        return
    cx.nt(i > 0)
    c = Transform(tuple(m2))
    expect(not (a == c) and not (c == a) and a != c, 'entry %d changed', i)


def magnitude():
    """Numbers of any size"""
    return gen.one_of(gen.coord(), st.tuples(gen.fl(-9, 9), st.integers(-30, 30)).map(lambda v: v[0]*10.0**v[1]),
                      st.sampled_from([0, 1, -1, 1e20, 1e-20, 0.1]))


VALUES = {
    'point': (2, lambda n: Point(*n)),
    'named point': (2, lambda n: Point(n[0], n[1], 'q')),
    'vector': (2, lambda n: Vector(*n)),
    'relative point': (4, lambda n: PointRelative(n[0], n[1], Point(n[2], n[3]))),
    'relative vector': (4, lambda n: VectorRelative(Point(n[0], n[1]), Point(n[2], n[3]))),
    'box': (4, lambda n: BBox(n[0] - abs(n[2]), n[1] - abs(n[3]), n[0], n[1])),
    'line': (4, lambda n: Line(Point(n[0], n[1]), Vector(n[2], n[3]))),
    'control point': (6, lambda n: mk.cp([n[:2], n[2:4], n[4:], 'smooth'])),
    'transform': (6, lambda n: Transform(tuple(n))),
    'pen': (1, lambda n: mk.penbrush([['red', n[0]], None])),
    'rectangle': (4, lambda n: ElemRectangle('n', mk.penbrush(PB1), Point(*n[:2]), Point(*n[2:]))),
    'rounded rectangle': (5, lambda n: ElemRectangleRounded('n', mk.penbrush(PB1), Point(*n[:2]), Point(*n[2:4]), n[4])),
    'group': (2, lambda n: Group('n', mk.penbrush(PB1), points={'p': Point(*n)})),
    'moved group': (6, lambda n: Group('n', mk.penbrush(PB1), xform=Transform(tuple(n)))),
}


@R.facet(st.sampled_from(sorted(VALUES)).flatmap(lambda k: st.tuples(
    st.just(k), st.lists(magnitude(), min_size=VALUES[k][0], max_size=VALUES[k][0]), st.integers(0, 5),
    st.sampled_from(['up', 'down', 'more', 'negate', 'all', 'half', 'swap']))).map(list), n=900)
def numbers(v, cx):
    """Numbers of any size: equal exactly when every one of them is"""
    k, nums, i, how = v
    make = VALUES[k][1]
    nums = [float(x) for x in nums]
    i %= len(nums)
    other = list(nums)
    if how in ('up', 'down'):
        other[i] = math.nextafter(nums[i], math.inf if how == 'up' else -math.inf)
    elif how == 'more':
        other[i] = nums[i] + 1
    elif how == 'negate':
        other[i] = -nums[i]
    elif how == 'all':
        other[len(nums)//2:] = [-x for x in nums[len(nums)//2:]]
    elif how == 'half':
        other[len(nums)//2:] = [x/2 for x in nums[len(nums)//2:]]
    else:
        other = nums[::-1]
    a, b, c = make(nums), make(list(nums)), make(other)
    expect(a == b and not a != b, '%s from the same numbers', k)
    want = nums == other
    if k == 'box':
        want = tuple(a.as_tuple()) == tuple(c.as_tuple())
    cx.nt(not want and how != 'more')
    same(bool(a == c), want, '%s with %r changed' % (k, how))
    same(bool(c == a), want, '%s with %r changed, the other way round' % (k, how))
    same(bool(a != c), not want, '!=')


@R.facet(st.tuples(gen.large(), st.integers(0, 99), ARGS[1], st.integers(0, 999), ARGS[3]).map(list), n=200)
def large(v, cx):
    """Many parts, many levels"""
    s, where, what, k, tiny = v
    check(s, where, what, k, tiny, cx)


def whole(s, turn, at=None):
    """The description with whole numbers only, those of the parts turn picks as floats"""
    at = [0] if at is None else at
    if isinstance(s, dict):
        return {k: v if k in ('k', 'name', 'closed', 'hidden') else
                [v[0] and [v[0][0], whole(v[0][1], turn, at)], v[1]] if k == 'pb' else whole(v, turn, at) for k, v in s.items()}
    if isinstance(s, list):
        if s and s[0] in ('r', 'k'):
            return list(s)
        return [whole(x, turn, at) for x in s]
    if isinstance(s, (int, float)) and not isinstance(s, bool):
        at[0] += 1
        n = round(s) or 1
        return float(n) if turn[at[0] % len(turn)] else n
    return s


@R.facet(st.tuples(gen.one_of(gen.leaf(), gen.holes(), gen.model()), st.lists(st.booleans(), min_size=1, max_size=7),
                   st.lists(st.booleans(), min_size=1, max_size=5)).map(list), n=400)
def kinds_of_numbers(v, cx):
    """Whole numbers given as int or as float, anywhere, are the same values"""
    s, t1, t2 = v
    spec = full(s)
    s1, s2 = whole(spec, t1), whole(spec, t2)
    cx.nt(repr(s1) != repr(s2))
    cx.label(spec['k'])
    a, b = build(s1), build(s2)
    expect(a == b and b == a and not a != b and not b != a, 'the same numbers: %r, %r', a, b)
    expect(a in [b], 'found')


DN = st.one_of(st.none(), st.sampled_from(['', 'n', 'q']))
DC = st.integers(-2, 2)


def derived(depth):
    """Spec of a plain, relative or calculated point"""
    plain = st.tuples(st.just('P'), DC, DC, DN).map(list)
    if not depth:
        return plain
    rel = derived(depth-1).flatmap(lambda b: st.tuples(st.just('R'), DC, DC, DN, st.just(b)).map(list))
    calc = rel.flatmap(lambda b: st.tuples(st.just('C'), DC, st.just(0), DN, st.just(b)).map(list))
    return gen.one_of(plain, rel, rel, calc)


def make_derived(s):
    if s[0] == 'P':
        return Point(s[1], s[2], s[3])
    if s[0] == 'R':
        return PointRelative(s[1], s[2], make_derived(s[4]), s[3])
    if s[0] == 'C':
        return PointCalc(make_derived(s[4]), s[1], s[3])
    return VectorRelative(make_derived(s[1]), make_derived(s[2]))


def flat(s):
    """Position of a spec"""
    if s[0] == 'P':
        return s[1], s[2]
    if s[0] == 'R':
        b = flat(s[4])
        return s[1] + b[0], s[2] + b[1]
    b = flat(s[4][4])
    return s[1]*s[4][1] + b[0], s[1]*s[4][2] + b[1]


DPT = derived(3)
TWIST = st.sampled_from(['same', 'base name', 'base flat', 'shift', 'name', 'deep', 'value', 'other'])


@R.facet(st.tuples(DPT, TWIST, st.integers(0, 5), DPT, st.booleans()).map(list), n=900)
def derived_values(v, cx):
    """Derived points and vectors: the offset, scale, name and the base itself count, at any depth, not where they lie"""
    s, how, k, s2, as_vec = v
    t = copy.deepcopy(s)
    chain = [t]
    while chain[-1][0] != 'P':
        chain.append(chain[-1][4])
    n = chain[k % len(chain)]
    if how == 'base name':
        chain[-1][3] = 'other'
    elif how == 'base flat' and n[0] == 'R' and n[4][0] != 'P':
        x, y = flat(n[4])
        n[4] = ['P', x, y, n[4][3]]
    elif how == 'shift' and n[0] == 'R' and n[4][0] in 'PR':
        # the same position by another offset from another place
        n[1] += 1
        n[4][1] -= 1
    elif how == 'name':
        n[3] = 'other'
    elif how == 'deep':
        # one more level, at the same position
        new = ['R', 0, 0, n[3], list(n)]
        n[:] = new
        if len(chain) > 1 and any(c[0] == 'C' and c[4] is n for c in chain):
            return
    elif how == 'value':
        n[1] += 1
    elif how == 'other':
        t = s2
    cx.label(how)
    cx.nt(s != t and flat(s) == flat(t))
    if as_vec:
        a, b = make_derived(['V', s, s2]), make_derived(['V', t, s2])
        c, d = make_derived(['V', s2, s]), make_derived(['V', s2, t])
        pairs = [(a, b), (c, d)]
    else:
        pairs = [(make_derived(s), make_derived(t))]
    for a, b in pairs:
        same(bool(a == b), s == t, '%r == %r' % (s, t))
        same(bool(b == a), s == t, '%r == %r' % (t, s))
        same(bool(a != b), s != t, '!=')
    if as_vec:
        same(bool(pairs[0][0] == pairs[1][0]), s == s2, 'reversed vector')
    else:
        p = make_derived(s)
        expect(p.copy() == p or s[0] == 'P', 'copy of %r', s)


@R.facet(st.tuples(gen.any_elem(), edits.EDITS, st.booleans()).map(list), n=250)
def edited_between(v, cx):
    """Elements compared before, between and after edits: equal exactly when elements made anew of the parts are"""
    spec, eds, parts = v
    e = mk.elem(spec)
    olds = [edits.rebuilt(e)]
    expect(e == olds[0] and olds[0] == e and not e != olds[0], 'made anew')
    differs = False
    for o in eds:
        edits.edit(e, o, parts)
        now = edits.rebuilt(e)
        olds.append(now)
        for k, old in enumerate(olds):
            eq = now == old
            differs = differs or not eq
            if spec['k'] != 'group' or mk.state(now) == mk.state(old):
                same(eq, mk.state(now) == mk.state(old), 'equality of elements made anew')
            same((e == old, old == e, e != old, old != e), (eq, eq, not eq, not eq), 'edited element and what it was %d edits before' % (len(olds)-1-k))
    expect(e == now and now == e, 'at the end')
    cx.nt(differs)
    cx.label(spec['k'])
