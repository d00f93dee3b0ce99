"""C26: iterating a model visits every leaf once with its name and full transform"""
from hypothesis import strategies as st
from x7.geom.colors import PensByShape
from x7.geom.model import GroupBuilder, Group, ElemWithHoles
from x7.geom.transform import Transform
from harness import edits, gen, mk, ref
from harness.core import Registry, expect, near, near_pts, same, unit

R = Registry('C26', 'Nested models (groups up to three levels, hidden and empty ones, shapes with holes, arbitrary transforms '
             'at each level) iterated with and without a root name, from a matrix with 0..2 saved states, through the group '
             'or its builder; names, order, transforms and drawings compared with the model description. Non-trivial: at '
             'least two leaves and a transform that moves points.')


def leaves(s, prefix, m):
    """[(dotted name, spec, matrix to model space without the leaf's own transform)]"""
    path = '%s.%s' % (prefix, s['name']) if prefix else s['name']
    if s['k'] == 'group':
        m = ref.mul(m, mk.mat(s['xf']))
        return [x for e in s['elems'] for x in leaves(e, path, m)]
    if s['k'] == 'holes':
        m = ref.mul(m, mk.mat(s['xf']))
        return leaves(s['outside'], path + '.outside', m) + [x for e in s['inside'] for x in leaves(e, path + '.inside', m)]
    return [(path, s, m)]


def real_leaves(e):
    if isinstance(e, Group):
        return [x for c in e.elems.values() for x in real_leaves(c)]
    if isinstance(e, ElemWithHoles):
        return [x for c in [e.outside] + e.inside for x in real_leaves(c)]
    return [e]


def moving(s):
    return mk.mat(s['xf']) != ref.IDENT or any(moving(e) for e in s.get('elems', [])) or \
        ('outside' in s and moving(s['outside']))


def matrix(ops, depth):
    if ops is None:
        return None
    m = mk.xform(ops)
    keep = m.as_6tuple()
    for i in range(depth):
        m.translate(i+1, 2).push()
    m.set_matrix(Transform(keep))
    return m


def near_mat(got, want, tol, what):
    for g, w in zip(got, want):
        near(g, w, tol, what)


MAT = gen.one_of(st.none(), gen.xform())
ROOT = st.sampled_from([None, 'top', 'a.b', ''])


@R.facet(st.tuples(gen.any_elem(), ROOT, MAT, st.integers(0, 2), st.booleans()).map(list), n=600)
def deep(s, cx):
    spec, root, ops, depth, builder = s
    spec = mk.expand(spec)
    e = mk.elem(spec)
    was = mk.state(e)
    m0 = mk.mat(ops or [])
    mx = matrix(ops, depth)
    mx_was = None if mx is None else (mx.as_6tuple(), [a.ndmat.tolist() for a in mx.stack])
    is_leaf = spec['k'] not in ('group', 'holes')
    it = e
    if builder and spec['k'] == 'group':
        it = GroupBuilder('b', PensByShape(), group=e)
    if is_leaf:
        root = root or 'r'
        if mx is None:
            mx = matrix([], 0)
            mx_was = (mx.as_6tuple(), [])
    want = leaves(spec, root, m0)
    ids = [id(x) for x in real_leaves(e)]
    got = []
    tol = 1e-10*(mk.big(spec)*(1+ref.norm(m0)) + ref.shift(m0))
    for name, leaf, t in it.iter_elems(root, mx):
        got.append(name)
        i = len(got) - 1
        expect(i < len(want), 'more elements than leaves: %r', name)
        wname, ws, wm = want[i]
        same(name, wname, 'name of leaf %d' % i)
        same(id(leaf), ids[i], 'leaf %d' % i)
        near_mat(t.as_6tuple(), wm, tol, 'transform of %s' % name)
        # combined with the leaf's own transform it maps to model space
        full = ref.mul(t.as_6tuple(), leaf.xform.as_6tuple())
        near_mat(full, ref.mul(wm, mk.mat(ws['xf'])), tol, 'full transform of %s' % name)
        # drawing the leaf under its transform
        drawn = mk.paths_sig(leaf, mk.dc([['m', t.as_6tuple()]], 8, 9))
        (_pb, closed, pts), = drawn
        near_pts(pts, mk.map_path(ref.mul(wm, mk.mat(ws['xf'])), mk.leaf_path(ws, 9)), tol, 'leaf %s drawn' % name)
    same(len(got), len(want), 'number of leaves')
    same(mk.state(e), was, 'model')
    if mx is not None:
        same((mx.as_6tuple(), [a.ndmat.tolist() for a in mx.stack]), mx_was, 'matrix passed in')
    cx.nt(len(want) > 1 and moving(spec) or is_leaf and moving(spec))
    cx.label('leaves=%d' % min(9, len(want)))
    # again, and the same
    same([n for n, _e, _t in it.iter_elems(root, mx)], got, 'second iteration')


@R.facet(st.tuples(gen.model(hidden=False), MAT).map(list), n=300)
def redraw(s, cx):
    """Drawing each leaf under its given transform reproduces the model, outline for outline"""
    spec, ops = s
    e = mk.elem(spec)
    whole = [pts for pb, _c, pts in mk.scene(spec, mk.mat(ops or []), 9, joined=False)]
    got = []
    for _name, leaf, t in e.iter_elems('r', matrix(ops, 0)):
        got += [pts for _pb, _c, pts in mk.paths_sig(leaf, mk.dc([['m', t.as_6tuple()]], 8, 9))]
    same(len(got), len(whole), 'outlines')
    cx.nt(len(got) > 1 and moving(spec))
    m0 = mk.mat(ops or [])
    for g, w in zip(got, whole):
        near_pts(g, w, 1e-10*(mk.big(spec)*(1+ref.norm(m0)) + ref.shift(m0)), 'outline')


@R.facet(st.tuples(gen.one_of(gen.model(), gen.holes(max_inside=3)), ROOT, MAT, st.integers(0, 2), st.booleans()).map(list), n=500)
def shallow(s, cx):
    spec, root, ops, depth, builder = s
    spec = mk.expand(spec)
    e = mk.elem(spec)
    was = mk.state(e)
    m0 = mk.mat(ops or [])
    mx = matrix(ops, depth)
    mx_was = None if mx is None else (mx.as_6tuple(), [a.ndmat.tolist() for a in mx.stack])
    it = e
    if builder and spec['k'] == 'group':
        it = GroupBuilder('b', PensByShape(), group=e)
    path = '%s.%s' % (root, spec['name']) if root else spec['name']
    m = ref.mul(m0, mk.mat(spec['xf']))
    if spec['k'] == 'group':
        want = [(path + '.' + c['name'], c, None) for c in spec['elems']]
    else:
        want = [(path + '.outside.' + spec['outside']['name'], spec['outside'], spec['pb'])] + [
            (path + '.inside.' + c['name'], c, spec['pb']) for c in spec['inside']]
    got = list(it.iter_elems_transformed(root, mx))
    same(mk.state(e), was, 'model')
    if mx is not None:
        same((mx.as_6tuple(), [a.ndmat.tolist() for a in mx.stack]), mx_was, 'matrix passed in')
    same([x.name for x in got], [n for n, _c, _pb in want], 'names')
    cx.nt(len(got) > 1 and moving(spec))
    cx.label(spec['k'])
    tol = 1e-8*(mk.big(spec)*(1+ref.norm(m0)) + ref.shift(m0))
    children = list(e.elems.values()) if spec['k'] == 'group' else [e.outside] + e.inside
    for x, c, (_n, cs, pb) in zip(got, children, want):
        expect(x is not c, 'an element of its own')
        same(type(x), type(c), 'type')
        same(x.penbrush, c.penbrush, 'style')
        mk.same_paths(mk.paths_sig(x, mk.dc()), mk.scene(cs, m, pb=pb), tol, 'child %s in place' % x.name,
                      outline=cs['k'] != 'curve')
        x.xform.translate(5, 5)
    same(mk.state(e), was, 'model after the results were edited')


@R.facet(st.tuples(gen.one_of(gen.crowd(), gen.deep(), gen.many_holes()), ROOT, MAT, st.integers(0, 2), st.booleans()).map(list), n=100)
def large(s, cx):
    """Many parts, many levels"""
    deep(s, cx)
    shallow(s, cx)


def renamed(s, names):
    """Groups, shapes with holes and some leaves get other names"""
    s = dict(s)
    if s['k'] == 'group':
        s['elems'] = [renamed(e, names) for e in s['elems']]
        if len({e['name'] for e in s['elems']}) < len(s['elems']):
            s['elems'] = [dict(e, name='%s%d' % (e['name'], i)) for i, e in enumerate(s['elems'])]
    if s['k'] in ('group', 'holes') or len(s['name']) % 2:
        s['name'] = names[len(s['name']) % len(names)]
    return s


@R.facet(st.tuples(gen.one_of(gen.model(), gen.deep(), gen.holes(max_inside=3)), ROOT, MAT, st.integers(0, 2), st.booleans(),
                   st.lists(st.sampled_from(['', '', 'a', 'outside', 'inside', '#', ' ']), min_size=1, max_size=3)).map(list), n=100)
def odd_names(s, cx):
    """Empty and misleading names"""
    spec = renamed(mk.expand(s[0]), s[5])
    spec['name'] = spec['name'] or s[1] or 'top'        # the outermost name is given somehow
    deep([spec] + s[1:5], cx)
    shallow([spec] + s[1:5], cx)


def invert(ops):
    """Operations that undo ops"""
    out = []
    for op in reversed(ops):
        if op[0] == 't':
            out.append(['t', -op[1], -op[2]])
        elif op[0] == 's':
            out.append(['s', 1/op[1], 1/op[2]])
        elif op[0] == 'r':
            out.append(['r', -op[1]])
        else:
            return None
    return out


@R.facet(st.tuples(gen.one_of(gen.model(), gen.holes(max_inside=3)), ROOT, st.integers(0, 2), st.booleans()).map(list), n=200)
def undone(s, cx):
    """The matrix given undoes the transform of the model"""
    spec, root, depth, builder = s
    if spec['k'] not in ('group', 'holes'):
        return
    ops = invert(spec['xf'])
    if not ops:
        ops = [['t', 5, -7]]
        spec = dict(spec, xf=[['t', -5, 7]])
    shallow([spec, root, ops, depth, builder], cx)
    deep([spec, root, ops, depth, builder], cx)


@R.facet(st.tuples(gen.model(), MAT, st.sampled_from([1e-6, 1e-4, 1e-2, 1e3, 1e5])).map(list), n=80)
def sizes(s, cx):
    """Very small and very large models"""
    spec, ops, f = s
    spec, ops = mk.scaled(spec, f), mk.scaled_ops(ops or [], f)
    with unit(f):
        deep([spec, None, ops, 0, False], cx)
        shallow([spec, None, ops, 0, False], cx)
    cx.label('%g' % f)


@R.facet(st.tuples(gen.model(), gen.xform(), edits.EDITS).map(list), n=200)
def edited_between(v, cx):
    """The model as it is now is what is iterated over"""
    spec, ops, eds = v
    m = mk.xform(ops)

    def deep(e):
        return [(n, mk.state(x), t.as_6tuple()) for n, x, t in e.iter_elems(None, m)]

    def shallow(e):
        return [mk.state(x) for x in e.iter_elems_transformed('r', m)]

    def bare(e):
        return [(n, t.as_6tuple()) for n, _x, t in e.iter_elems('r')]
    cx.nt(edits.asked_again(mk.elem(spec), eds, [deep, shallow, bare], 'iteration'))


@R.facet(st.tuples(gen.model(), edits.SHARE, gen.xform(), st.booleans()).map(list), n=200)
def sharing(v, cx):
    """Elements, transforms and points may occur at several places of a model, or be the starting transform"""
    spec, picks, ops, own = v
    m = mk.xform(ops)

    def deep(e):
        return [(n, mk.state(x), t.as_6tuple()) for n, x, t in e.iter_elems(None, m)]

    def shallow(e):
        return [mk.state(x) for x in e.iter_elems_transformed('r', m)]
    cx.nt(edits.alike_shared(lambda: mk.elem(spec), picks, [deep, shallow], 'iteration') > 0)
    # starting from the transform of the model itself
    e = mk.elem(spec)
    before = mk.state(e)
    for it in (lambda m: [(n, t.as_6tuple()) for n, _x, t in e.iter_elems('r', m)], lambda m: [mk.state(x) for x in e.iter_elems_transformed('r', m)]):
        edits.same(it(e.xform), it(mk.xform([['m', list(e.xform.as_6tuple())]])), 'iteration from its own transform')
        same(mk.state(e), before, 'model')
