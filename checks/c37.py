"""C37: test-support pickling and matching of geometry is faithful"""
import copy
import io
import pickle
from hypothesis import strategies as st
from x7.geom.bezier import ControlPoint
from x7.geom.colors import Brush, Pen, PenBrush
from x7.geom.geom import BBox, BasePoint, Point, PointCalc, PointRelative, Vector, VectorRelative
from x7.geom.model import Elem
from x7.geom.testing import (
    ExtendedMatcherControlPoint, ExtendedMatcherPoint, ExtendedMatcherVector, PicklerExtensionGeom, TestCaseGeomExtended,
)
from x7.geom.transform import Transform
from x7.testing.support import Pickler
from harness import gen, mk, ref
from harness.core import Registry, expect, near, raises, same

R = Registry('C37', 'Points (plain, named, relative, calculated), vectors (plain and relative), boxes, control points on all of '
             'those, pens, brushes, transforms, elements and nested models, lists and tuples and dictionaries of them nested '
             'up to three deep, lists of named placed elements; pairs of points, vectors, control points and nested lists '
             'with perturbations from nothing through the tolerance to large, every kind of tolerance. Non-trivial: a '
             'nesting or an element; a pair that is neither identical nor far apart.')

C = gen.coord(300)
XY = st.tuples(C, C).map(list)
PT = gen.one_of(st.tuples(st.just('pt'), C, C, st.sampled_from([None, None, 'n', "it's"])).map(list),
               st.tuples(st.just('rel'), C, C, XY).map(list), st.tuples(st.just('calc'), C, C, XY, gen.fl(-3, 3)).map(list))
VEC = gen.one_of(st.tuples(st.just('vec'), C, C).map(list), st.tuples(st.just('vrel'), XY, XY).map(list))
CPT = st.tuples(st.just('cp'), PT, VEC, VEC, gen.kind()).map(list)
BBOX = st.tuples(st.just('bbox'), C, C, C, C).map(list)
PB = st.tuples(st.just('pb'), gen.penbrush()).map(list)
PENS = gen.one_of(st.tuples(st.just('pen'), gen.color(), gen.fl(-5, 5)).map(list), st.tuples(st.just('brush'), gen.color()).map(list))
XF = st.tuples(st.just('xf'), gen.xform(60, 2)).map(list)
SCALAR = gen.one_of(st.tuples(st.just('lit'), gen.one_of(st.none(), st.booleans(), st.integers(-9, 9), gen.fl(-9, 9),
                                                       st.sampled_from(['', 'a', "it's", 'a\nb']))).map(list))
FLAT = gen.one_of(PT, VEC, CPT, BBOX, PB, PENS, XF, SCALAR)
LEAF = gen.leaf('any')
ELEM = st.tuples(st.just('elem'), gen.one_of(LEAF, LEAF, gen.holes('any', 2))).map(list)
# curves whose control points use every kind of point
CURVE = st.tuples(st.just('curve'), st.lists(CPT, min_size=2, max_size=4), st.booleans(), gen.name()).map(list)
MODEL = st.tuples(st.just('elem'), gen.model('any', kinds=('curve', 'rect'), min_size=1)).map(list)


def make(s):
    k = s[0]
    if k == 'pt':
        return Point(s[1], s[2], s[3]) if s[3] else Point(s[1], s[2])
    if k == 'rel':
        return PointRelative(s[1], s[2], Point(*s[3]))
    if k == 'calc':
        return PointCalc(PointRelative(s[1], s[2], Point(*s[3])), s[4])
    if k == 'vec':
        return Vector(s[1], s[2])
    if k == 'vrel':
        return VectorRelative(Point(*s[1]), Point(*s[2]))
    if k == 'cp':
        return ControlPoint(make(s[1]), make(s[2]), make(s[3]), s[4])
    if k == 'bbox':
        return BBox(*s[1:])
    if k == 'pb':
        return mk.penbrush(s[1])
    if k == 'pen':
        return Pen(mk.color(s[1]), s[2])
    if k == 'brush':
        return Brush(mk.color(s[1]))
    if k == 'xf':
        return mk.xform(s[1])
    if k == 'lit':
        return s[1]
    if k == 'elem':
        return mk.elem(s[1])
    if k == 'curve':
        from x7.geom.model import ElemCurve
        return ElemCurve(s[3], PenBrush('red'), [make(c) for c in s[1]], closed=s[2])
    if k == 'list':
        return [make(x) for x in s[1]]
    if k == 'tuple':
        return tuple(make(x) for x in s[1])
    if k == 'dict':
        return {'k%d' % i if i % 2 else 'it\'s %d' % i: make(x) for i, x in enumerate(s[1])}
    if k == 'placed':
        return [('n%d"\'' % i, make(e), mk.xform(x)) for i, (e, x) in enumerate(s[1])]
    raise ValueError(k)


def st_of(x):
    """Everything observable, as nested tuples"""
    if isinstance(x, Elem):
        return mk.state(x)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(st_of(v) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, st_of(v)) for k, v in sorted(x.items()))
    if isinstance(x, BasePoint):
        return type(x).__name__, x.xy(), x.name
    if isinstance(x, Vector):
        return type(x).__name__, x.xy()
    if isinstance(x, ControlPoint):
        return 'cp', st_of(x.c), st_of(x.dl), st_of(x.dr), x.kind
    if isinstance(x, Transform):
        return 'xf', tuple(x.as_6tuple())
    return type(x).__name__, repr(x)


_PICKLER = []


def pickler():
    """Made when first used: a failure to make it is a failing case"""
    if not _PICKLER:
        _PICKLER.append(Pickler(TestCaseGeomExtended.PICKLERS))
    return _PICKLER[0]


def roundtrip(data, cx, std=True):
    """data: {key: value}"""
    was = {k: st_of(v) for k, v in data.items()}
    out = io.StringIO()
    pickler().dump_dict(data, out)
    text = out.getvalue()
    same({k: st_of(v) for k, v in data.items()}, was, 'the data pickled')
    back = pickler().load(io.StringIO(text))
    same(sorted(back), sorted(data), 'keys')
    for k, v in data.items():
        same(type(back[k]), type(v), 'type of %r' % k)
        same(st_of(back[k]), was[k], 'unpickled %r' % k)
        expect(back[k] == v and v == back[k], 'unpickled %r is equal', k)
    out = io.StringIO()
    pickler().dump_dict(back, out)
    same(out.getvalue(), text, 'pickled again')
    if std:
        for k, v in data.items():
            # recorded data must also survive Python's own pickling and copying
            q = pickle.loads(pickle.dumps(v))
            same(st_of(q), was[k], 'value through pickle')
            expect(q == v, 'value through pickle is equal')
            same(st_of(copy.deepcopy(v)), was[k], 'deep copy')


@R.facet(st.lists(FLAT, min_size=1, max_size=6), n=400)
def values(v, cx):
    cx.nt(len(v) > 1)
    for x in v:
        cx.label(x[0])
    roundtrip({'key %d' % i: make(x) for i, x in enumerate(v)}, cx)


NEST = st.recursive(FLAT, lambda ch: st.tuples(st.sampled_from(['list', 'tuple', 'dict']),
                                               st.lists(ch, max_size=4)).map(list), max_leaves=10)


@R.facet(NEST, n=300)
def nestings(v, cx):
    cx.nt(v[0] in ('list', 'tuple', 'dict') and len(v[1]) > 1)
    roundtrip({'it\'s': make(v)}, cx)


@R.facet(gen.one_of(ELEM, CURVE), n=200)
def elements(v, cx):
    cx.nt(True)
    cx.label(v[0] if v[0] == 'curve' else v[1]['k'])
    roundtrip({'e': make(v)}, cx)


@R.facet(st.tuples(st.lists(gen.one_of(ELEM, CURVE), min_size=1, max_size=3),
                   st.sampled_from(['list', 'tuple', 'dict', 'deep', 'mixed'])).map(list), n=150)
def element_nestings(v, cx):
    es, how = v
    s = ['list' if how in ('mixed', 'deep') else how, es]
    if how == 'deep':
        s = ['dict', [['dict', [s, ['pt', 1, 2, None]]], es[0]]]
    if how == 'mixed':
        s = ['list', es + [['vec', 1, 2]]]
    cx.nt(True)
    cx.label(how)
    roundtrip({'a': make(s), 'b': 1}, cx)


@R.facet(MODEL, n=100)
def models(v, cx):
    cx.nt(mk.count_leaves(v[1]) > 1)
    roundtrip({'m': make(v)}, cx)
    roundtrip({'m': {'deeper': make(v)}}, cx)


@R.facet(st.lists(st.tuples(gen.one_of(ELEM, CURVE, MODEL), gen.xform(60, 2)).map(list), min_size=1, max_size=3), n=120)
def placed(v, cx):
    """Lists of (name, element, transform), as iteration over elements yields"""
    cx.nt(len(v) > 1)
    roundtrip({'p': make(['placed', v])}, cx)
    roundtrip({'d': {'deeper': make(['placed', v]), 'x': 1}}, cx)


def tc():
    return TestCaseGeomExtended()


TINY = gen.one_of(st.sampled_from([0, 0, 0, 0, 1e-13, 4e-12, 2e-11, 1e-9, 4e-8, 6e-8, 1e-7, 4e-4, 6e-4, 0.04, 0.4, 0.6, 3, 50]),
                 gen.fl(0, 1))
SIGNED = st.tuples(TINY, st.sampled_from([1, -1])).map(lambda v: v[0]*v[1])
MAYBE = gen.one_of(st.just(0), st.just(0), SIGNED)
TOL = gen.one_of(st.just([None, None]), st.tuples(st.integers(0, 10), st.none()).map(list),
                st.tuples(st.none(), st.sampled_from([1e-12, 1e-9, 5e-8, 1e-6, 1e-3, 0.1, 0.5, 1, 10])).map(list))


def agree(a, b, tol):
    """Do two numbers agree within the tolerance?"""
    if a == b:
        return True
    d = abs(a - b)
    if tol[1] is not None:
        return d <= tol[1]
    return round(d, 7 if tol[0] is None else tol[0]) == 0


def agree_val(a, b, tol):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return agree(a, b, tol)
    if type(a) is not type(b):
        return False
    if isinstance(a, (BasePoint, Vector)):
        return agree(a.x, b.x, tol) and agree(a.y, b.y, tol)
    if isinstance(a, ControlPoint):
        return all(agree_val(getattr(a, k), getattr(b, k), tol) for k in ('c', 'dl', 'dr', 'kind'))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(agree_val(x, y, tol) for x, y in zip(a, b))
    return a == b


def shift_by(s, d):
    """The spec moved a little: d supplies the deltas"""
    k = s[0]
    if k in ('pt', 'rel', 'calc', 'vec'):
        return [k, s[1] + d.pop(), s[2] + d.pop()] + s[3:]
    if k == 'vrel':
        return [k, [s[1][0] + d.pop(), s[1][1] + d.pop()], s[2]]
    if k == 'cp':
        return [k] + [shift_by(x, d) for x in s[1:4]] + [s[4]]
    if k in ('list', 'tuple'):
        return [k, [shift_by(x, d) for x in s[1]]]
    if k == 'lit':
        return [k, s[1] + d.pop()]
    raise ValueError(k)


ONE = gen.one_of(PT, VEC, CPT, CPT)
MATCHABLE = gen.one_of(ONE, ONE, st.tuples(st.sampled_from(['list', 'tuple']), st.lists(
    gen.one_of(ONE, ONE, st.tuples(st.just('lit'), gen.fl(-9, 9)).map(list)), min_size=1, max_size=3)).map(list))
CHANGE = st.sampled_from(['none', 'none', 'none', 'none', 'kind', 'type', 'drop', 'swap'])


def change(s, how, other):
    if how == 'kind' and s[0] == 'cp':
        return s[:4] + ['sharp' if s[4] != 'sharp' else 'smooth']
    if how == 'type' and s[0] == 'pt':
        return ['rel', s[1], s[2], [0, 0]]
    if how == 'type' and s[0] == 'list':
        return ['tuple', s[1]]
    if how == 'drop' and s[0] in ('list', 'tuple'):
        return [s[0], s[1][:-1]]
    if how == 'swap':
        return other
    return s


def check_match(t, a, b, want, tol, what):
    kw = {}
    if tol[0] is not None:
        kw['places'] = tol[0]
    if tol[1] is not None:
        kw['delta'] = tol[1]
    got = t.almostEqual(a, b, **kw)
    same(got is True, want, '%s: almost equal (%r)' % (what, got))
    if not want:
        expect(isinstance(got, str) and got, '%s: a difference is reported', what)
    if want:
        t.assertAlmostEqual(a, b, **kw)
    else:
        raises(AssertionError, lambda: t.assertAlmostEqual(a, b, **kw), what + ': assertion')


@R.facet(st.tuples(MATCHABLE, st.lists(MAYBE, min_size=40, max_size=40), CHANGE, MATCHABLE, TOL).map(list), n=600)
def matching(v, cx):
    s, deltas, how, other, tol = v
    s2 = change(shift_by(s, list(deltas)), how, other)
    a, b = make(s), make(s2)
    want = agree_val(a, b, tol)
    t = tc()
    cx.nt(how != 'swap' and a != b)
    cx.label('almost equal', want)
    cx.label(s[0])
    was = st_of(a), st_of(b)
    check_match(t, a, b, want, tol, 'pair')
    check_match(t, b, a, want, tol, 'pair swapped')
    check_match(t, [a], [b], want, tol, 'in a list')
    check_match(t, (1, [a]), (1, [b]), want, tol, 'deeper')
    check_match(t, a, make(s), True, tol, 'equal values')
    same((st_of(a), st_of(b)), was, 'the values')


@R.facet(st.tuples(ONE, st.integers(0, 5), TOL, st.sampled_from([0.3, 0.9, -0.9, 1.2, -3, 30])).map(list), n=400)
def tolerance(v, cx):
    """A single part moved by somewhat less or more than the tolerance"""
    s, at, tol, f = v
    by = f * (tol[1] if tol[1] is not None else 0.5*10.0**-(7 if tol[0] is None else tol[0]))
    n = 6 if s[0] == 'cp' else 2
    moves = [0.0]*40
    moves[-1-at % n] = by
    a, b = make(s), make(shift_by(s, moves))
    cx.nt(a != b)
    cx.label(s[0])
    want = agree_val(a, b, tol)
    t = tc()
    check_match(t, a, b, want, tol, 'part moved')
    check_match(t, [b], [a], want, tol, 'part moved, in a list')


def close(a, b):
    return (a.x - b.x)**2 + (a.y - b.y)**2 < 1e-22


def close_val(a, b):
    if isinstance(a, ControlPoint):
        return a.kind == b.kind and all(close(getattr(a, k), getattr(b, k)) for k in ('c', 'dl', 'dr'))
    return close(a, b)


def borderline(a, b):
    if isinstance(a, ControlPoint):
        return any(borderline(getattr(a, k), getattr(b, k)) for k in ('c', 'dl', 'dr'))
    return abs(((a.x - b.x)**2 + (a.y - b.y)**2)**0.5 - 1e-11) < 1e-15


SMALL = gen.one_of(st.just(0), st.sampled_from([1e-13, 1e-12, 4e-12, 9e-12, 1.2e-11, 2e-11, 1e-9, 1e-3, 5]))
PAIR = gen.one_of(PT, VEC, CPT, CPT)


@R.facet(st.tuples(PAIR, st.lists(SMALL, min_size=40, max_size=40), st.sampled_from(['none', 'none', 'none', 'kind']),
                   PAIR).map(list), n=500)
def explaining(v, cx):
    s, deltas, how, other = v
    a, b = make(s), make(change(shift_by(s, list(deltas)), how, None))
    t = tc()
    cx.nt(a != b)
    if borderline(a, b):
        return
    want = close_val(a, b)
    cx.label('close', want)
    cls = ExtendedMatcherControlPoint if s[0] == 'cp' else ExtendedMatcherVector if s[0] in ('vec', 'vrel') \
        else ExtendedMatcherPoint
    for x, y in ((a, b), (b, a), (a, a)):
        got = cls(t).explain_mismatch(x, y)
        expect(isinstance(got, tuple) and len(got) == 2, 'explanation')
        same(bool(got[0]), want or x is y, 'close')
        same(got[1] is None or isinstance(got[1], str), True, 'message')
    for x, y in ((a, b), (b, a)):
        msg = t.matchExact(x, y)
        if x == y:
            same(msg, True, 'equal values match')
        else:
            expect(isinstance(msg, str), 'a message')
            same('Close: ' in msg, want, 'message calls the values close')
            same('Diff : ' in msg, not want, 'message calls the values different')
    c = make(other)
    for x, y in ((a, c), (c, a), ([a], [c]), ([a, b], [c, a]), ([a], [a, b]), ((a,), (b,)), ([a], [b])):
        msg = t.matchExact(x, y)
        same(msg is True, x == y, 'match of %r and %r' % (x, y))
        expect(msg is True or isinstance(msg, str), 'match result')
    m = t.matchExact([a], [b])
    if a != b:
        same(']: Close:' in m, want, 'in a list: close')


@R.facet(st.tuples(st.sampled_from([5, 10, 16, 20]), st.lists(st.tuples(gen.fl(0, 9), gen.fl(0, 9)).map(list), min_size=2,
                                                              max_size=4), st.sampled_from(['ok', 'msg', 'exc'])).map(list),
         n=6, thorough=20)
def plots(v, cx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    shrink, pts, result = v
    cx.nt(True)
    seen = []

    class Case(TestCaseGeomExtended):
        def match(self, new_data, case='0', func=None, cls=None, matcher=None):
            seen.append((new_data, case, func, cls))
            return True if result == 'ok' else 'differs' if result == 'msg' else AssertionError('differs')

    t = Case()
    before = {k: repr(x) for k, x in plt.rcParams.items() if k.startswith('axes.title')}
    figs = plt.get_fignums()

    def run():
        with t.assertMatchPlot(shrink=shrink, case='c'):
            plt.plot([p[0] for p in pts], [p[1] for p in pts])
            plt.title('title')
    if result == 'ok':
        run()
    else:
        raises(AssertionError, run, 'a mismatch')
    same({k: repr(x) for k, x in plt.rcParams.items() if k.startswith('axes.title')}, before, 'settings')
    same(plt.get_fignums(), figs, 'figures left open') if result == 'ok' or True else None
    same(len(seen), 1, 'matched once')
    im, case, func, cls = seen[0]
    same((case, func, cls), ('c', 'run', Case), 'recorded under')
    w, h = plt.rcParams['figure.figsize']
    dpi = plt.rcParams['figure.dpi']
    same((im.size, im.mode, im.info), ((int(w*dpi)//shrink, int(h*dpi)//shrink), 'RGB', {}), 'image of the plot')


@R.facet(st.just(0), n=1)
def canvas(v, cx):
    dc = TestCaseGeomExtended.simple_dc()
    same((dc.image().size, dc.image().mode), ((1000, 1000), 'RGBA'), 'canvas')
    dc = TestCaseGeomExtended.simple_dc(20)
    same((dc.image().size, set(dc.image().getdata()), dc.points_per_curve), ((20, 20), {(255, 255, 255, 255)}, 5), 'canvas')
    ext = PicklerExtensionGeom(pickler())
    expect({'Point', 'Vector', 'BBox', 'ControlPoint', 'Pen', 'Brush', 'PenBrush', 'Transform', 'Group', 'ElemCurve',
            'ElemWithHoles'} <= set(ext.methods()), 'names known when loading')
    cx.nt(True)


@R.facet(st.tuples(st.lists(FLAT, min_size=1, max_size=3), st.integers(8, 30), st.sampled_from(['list', 'tuple', 'dict', 'nest']),
                   st.booleans()).map(list), n=60)
def long_values(v, cx):
    """Long containers, deep containers, many keys"""
    base, n, how, keys = v
    cx.nt()
    items = [base[i % len(base)] for i in range(n)]
    if how == 'nest':
        s = base[0]
        for i in range(min(n, 12)):
            s = [['list', 'tuple', 'dict'][i % 3], [s] + ([base[-1]] if i % 2 else [])]
    else:
        s = [how, items]
    roundtrip({'v': make(s)}, cx)
    if keys:
        roundtrip({'key %d' % i: make(x) for i, x in enumerate(items)}, cx)


@R.facet(gen.large('any'), n=20)
def large_models(v, cx):
    """Curves of many points, many children, many levels"""
    cx.nt()
    roundtrip({'m': make(['elem', v])}, cx)
