"""C36: vector fields interpolate their grid exactly and derive without aliasing"""
import random
import numpy as np
from hypothesis import strategies as st
from x7.geom.geom import BBox, Point, PointRelative
from x7.geom.vec_field import Mesh, VectorField
from harness import gen, mk
from harness.core import Registry, expect, near, near_xy, near_pts, raises, same

R = Registry('C36', 'Meshes over arbitrary boxes (corners in any order) with 2..9 steps; random, sparse, uniform, impulse and '
             'zero fields of small and large magnitude; points at nodes, inside cells, on edges and outside; sequences of '
             'copying, scaling, normalizing, smoothing and looking up in any order. Non-trivial: more than two steps and a '
             'field that is not uniform.')

BOX = st.tuples(gen.fl(-100, 100), gen.fl(-100, 100), st.sampled_from([1, 2, 10, 37.5, 200]),
                st.sampled_from([1, 3, 10, 41.25, 200])).map(list)
FIELD = st.fixed_dictionaries(dict(
    box=BOX, flip=st.integers(0, 3), steps=st.integers(2, 9), seed=st.integers(0, 10000),
    mag=st.sampled_from([1, 1, 0.01, 50, 1000]),
    style=st.sampled_from(['random', 'random', 'random', 'sparse', 'uniform', 'affine', 'impulse', 'zero'])))


def mesh_of(s):
    x, y, w, h = s['box']
    p, q = (x, y), (x + w, y + h)
    if s['flip'] & 1:
        p, q = (q[0], p[1]), (p[0], q[1])
    if s['flip'] & 2:
        p, q = (p[0], q[1]), (q[0], p[1])
    return Mesh(BBox(*p, *q), s['steps'])


def node(s, i, j):
    x, y, w, h = s['box']
    n = s['steps'] - 1
    return x + w*i/n, y + h*j/n


def values(s):
    """{(i, j): (vx, vy)}"""
    n, m, rng = s['steps'], s['mag'], random.Random(s['seed'])
    style = s['style']
    u, v, a, b, c, d = [rng.uniform(-m, m) for _ in range(6)]
    at = rng.randrange(n), rng.randrange(n)
    out = {}
    for i in range(n):
        for j in range(n):
            r = rng.uniform(-m, m), rng.uniform(-m, m)
            if style == 'random':
                q = r
            elif style == 'sparse':
                q = r if rng.random() < 0.3 else (0.0, 0.0)
            elif style == 'uniform':
                q = (u, v)
            elif style == 'affine':
                q = (u + a*i/n + b*j/n, v + c*i/n + d*j/n)
            elif style == 'impulse':
                q = (u, v) if (i, j) == at else (0.0, 0.0)
            else:
                q = (0.0, 0.0)
            out[i, j] = q
    return out


def field(s, how=0):
    mesh = mesh_of(s)
    n = s['steps']
    val = values(s)
    vx = np.array([[val[i, j][0] for j in range(n)] for i in range(n)])
    vy = np.array([[val[i, j][1] for j in range(n)] for i in range(n)])
    if how % 2:
        f = mesh.zeros()
        f.vx[:] = vx
        f.vy[:] = vy
    else:
        f = VectorField(mesh, vx, vy)
    return f


def arr(f):
    return f.vx.tolist(), f.vy.tolist()


def snap(f):
    m = f.mesh
    return arr(f), m.bbox.as_tuple(), m.steps, m.coord_x.tolist(), m.coord_y.tolist(), m.x_grid.tolist(), m.y_grid.tolist()


def ref_lookup(s, val, p):
    """Bilinear interpolation, linearly extended"""
    n = s['steps'] - 1
    x, y, w, h = s['box']
    u, v = (p[0] - x)/w*n, (p[1] - y)/h*n
    i, j = min(max(int(np.floor(u)), 0), n-1), min(max(int(np.floor(v)), 0), n-1)
    u, v = u - i, v - j
    return tuple(val[i, j][k]*(1-u)*(1-v) + val[i+1, j][k]*u*(1-v) + val[i, j+1][k]*(1-u)*v + val[i+1, j+1][k]*u*v
                 for k in (0, 1))


UV = st.tuples(gen.fl(-0.5, 1.5), gen.fl(-0.5, 1.5)).map(list)
INNER = st.tuples(gen.fl(0, 1), gen.fl(0, 1)).map(list)
PTS = st.lists(gen.one_of(INNER, UV), min_size=1, max_size=6)


def place(s, uv):
    x, y, w, h = s['box']
    return x + w*uv[0], y + h*uv[1]


def tol_of(s):
    return 1e-9*(1 + 100*s['mag'])*(1 + 200/min(s['box'][2:]))


@R.facet(st.tuples(FIELD, PTS, st.integers(0, 3)).map(list), n=250)
def lookups(v, cx):
    s, uvs, how = v
    f = field(s, how)
    val = values(s)
    n = s['steps']
    cx.nt(n > 2 and s['style'] in ('random', 'sparse', 'affine', 'impulse'))
    tol = tol_of(s)
    same(f.mesh.bbox.as_tuple(), BBox(*node(s, 0, 0), s['box'][0] + s['box'][2], s['box'][1] + s['box'][3]).as_tuple(), 'box')
    before = snap(f)
    nodes = [(i, j) for i in range(n) for j in range(n)]
    if how & 2:
        uvs = uvs[::-1]
    for i, j in nodes:
        p = node(s, i, j)
        near_xy((f.mesh.coord_x[i], f.mesh.coord_y[j]), p, 1e-9*(1 + abs(p[0]) + abs(p[1])), 'node %d %d' % (i, j))
        near_xy(f.lookup(*p), val[i, j], tol, 'lookup at node %d %d' % (i, j))
    pts = [place(s, u) for u in uvs]
    got = [f.lookup(*p) for p in pts]
    for p, g in zip(pts, got):
        near_xy(g, ref_lookup(s, val, p), tol, 'lookup at %r' % (p,))
    bx, by = f.interp_coords(np.array(pts))
    near_pts(list(zip(bx, by)), got, tol, 'bulk lookup')
    bx, by = f.interp_coords(np.array([node(s, *k) for k in nodes]))
    near_pts(list(zip(bx, by)), [val[k] for k in nodes], tol, 'bulk lookup of the nodes')
    # inside a cell the vector stays within those of its corners
    for u, g in zip(uvs, got):
        if 0 <= u[0] <= 1 and 0 <= u[1] <= 1:
            i, j = (min(int(c*(n-1)), n-2) for c in u)
            cs = [val[a, b] for a in (i, i+1) for b in (j, j+1)]
            for k in (0, 1):
                expect(min(c[k] for c in cs) - tol <= g[k] <= max(c[k] for c in cs) + tol, 'between the corners')
    same(snap(f), before, 'the field')


@R.facet(st.tuples(FIELD, PTS, st.integers(0, 3)).map(list), n=250)
def moving(v, cx):
    """Every input form moves each point by the field there"""
    s, uvs, how = v
    f = field(s, how)
    val = values(s)
    tol = tol_of(s)
    before = snap(f)
    pts = [place(s, u) for u in uvs]
    cx.nt(s['style'] != 'zero' and len(pts) > 1)
    cx.label('zero field', s['style'] == 'zero')
    want = []
    for p in pts:
        d = ref_lookup(s, val, p)
        want.append((p[0] + d[0], p[1] + d[1]))
    if s['style'] == 'zero':
        near_pts(want, pts, 0, 'oracle')
    objs = [PointRelative(p[0]-1, p[1]-2, Point(1, 2)) if i % 3 == 2 else Point(*p) for i, p in enumerate(pts)]
    was = [o.xy() for o in objs]
    got = {
        'transform': [f.transform(*p) for p in pts],
        'transform_pt': [f.transform_pt(o).xy() for o in objs],
        'transform_pt as pair': [f.transform_pt(o, as_pt=False) for o in objs],
        'transform_pts of points': [q.xy() for q in f.transform_pts(objs)],
        'transform_pts of pairs': [tuple(q) for q in f.transform_pts(pts)],
    }
    flat = f.transform_pts(objs, flatten=True)
    got['flattened'] = list(zip(flat[0::2], flat[1::2]))
    flat = f.transform_pts(pts, flatten=True)
    got['flattened pairs'] = list(zip(flat[0::2], flat[1::2]))
    for k, res in got.items():
        same(len(res), len(pts), k + ': count')
        for p, q in zip(res, want):
            near_xy(p, q, tol, k)
    expect(all(isinstance(q, Point) for q in f.transform_pts(objs)), 'points for points')
    expect(all(isinstance(q, tuple) and len(q) == 2 for q in f.transform_pts(pts)), 'pairs for pairs')
    same([o.xy() for o in objs], was, 'the given points')
    same(snap(f), before, 'the field')
    expect(f.LINEAR is False, 'not linear')


@R.facet(st.tuples(FIELD, st.sampled_from([1, 2, 0.5, -1, 0, 3.7, -0.25]), gen.one_of(st.none(), st.sampled_from([1, 2, -3, 0, 0.1])),
                   PTS, st.booleans()).map(list), n=250)
def deriving(v, cx):
    s, sx, sy, uvs, early = v
    f = field(s)
    val = values(s)
    n = s['steps']
    cx.nt(n > 2 and s['style'] in ('random', 'sparse', 'affine'))
    pts = [place(s, u) for u in uvs]
    if early:
        [f.lookup(*p) for p in pts]
    before = snap(f)
    tol = tol_of(s)
    nodes = [(i, j) for i in range(n) for j in range(n)]
    # scaling
    ty = sx if sy is None else sy
    g = f.scaled(sx) if sy is None else f.scaled(sx, sy)
    for k in nodes:
        near_xy((g.vx[k], g.vy[k]), (val[k][0]*sx, val[k][1]*ty), 1e-12*(1 + s['mag']*10), 'scaled node')
    for p in pts:
        d = ref_lookup(s, val, p)
        near_xy(g.lookup(*p), (d[0]*sx, d[1]*ty), 5*tol, 'lookup in the scaled field')
    derived = [('scaled', g), ('copy', f.copy())]
    # normalizing
    big = max(np.hypot(*val[k]) for k in nodes)
    if big > 1e-9*s['mag']:
        q = f.normalized()
        derived.append(('normalized', q))
        near(max(np.hypot(q.vx[k], q.vy[k]) for k in nodes), 1, 1e-9, 'longest vector')
        for k in nodes:
            near_xy((q.vx[k]*big, q.vy[k]*big), val[k], 1e-9*(big + s['mag']), 'direction and proportion')
        for p in pts:
            d = ref_lookup(s, val, p)
            near_xy(q.lookup(*p), (d[0]/big, d[1]/big), 5*tol/min(1, big), 'lookup in the normalized field')
        twice = q.normalized()
        near_pts(list(zip(twice.vx.flat, twice.vy.flat)), list(zip(q.vx.flat, q.vy.flat)), 1e-9, 'normalized twice')
        derived.append(('smoothed', f.smoothed())) if s['style'] not in ('impulse', 'sparse') or True else None
    c = derived[1][1]
    expect(c == f and f == c and not (c != f), 'a copy equals its field')
    for p in pts:
        near_xy(c.lookup(*p), ref_lookup(s, val, p), tol, 'lookup in the copy')
    same(snap(f), before, 'the field after deriving')
    # nothing is shared
    for name, d in derived:
        expect(type(d) is VectorField and d is not f, name + ': a new field')
        expect(d.mesh == f.mesh, name + ': same mesh')
        expect(not np.shares_memory(d.vx, f.vx) and not np.shares_memory(d.vy, f.vy)
               and not np.shares_memory(d.vx, d.vy), name + ': own values')
        keep = arr(d)
        d.vx[0, 0] += 7
        d.vy[-1, -1] -= 3
        same(snap(f), before, 'the field after editing the %s one' % name)
        expect(d != f or name != 'copy', 'edited copy differs')
        d.vx[0, 0], d.vy[-1, -1] = keep[0][0][0], keep[1][-1][-1]
    dsnap = [arr(d) for _n, d in derived]
    f.vx[0, -1] += 5
    f.vy[0, 0] *= 2
    same([arr(d) for _n, d in derived], dsnap, 'derived fields after editing the field')
    for p in pts:
        near_xy(derived[1][1].lookup(*p), ref_lookup(s, val, p), tol, 'copy after editing the field')


@R.facet(FIELD, n=200)
def smoothing(s, cx):
    f = field(s)
    val = values(s)
    n = s['steps']
    nodes = [(i, j) for i in range(n) for j in range(n)]
    big = max(np.hypot(*val[k]) for k in nodes)
    cx.label('style ' + s['style'], True)
    if big <= 1e-9*s['mag']:
        return
    cx.nt(n > 3 and s['style'] in ('random', 'sparse', 'affine', 'impulse'))
    before = snap(f)
    g = f.smoothed()
    same(snap(f), before, 'the field')
    out = {k: (float(g.vx[k]), float(g.vy[k])) for k in nodes}
    near(max(np.hypot(*out[k]) for k in nodes), 1, 1e-9, 'longest vector of the smoothed field')
    if s['style'] == 'uniform':
        for k in nodes:
            near_xy(out[k], (val[k][0]/big, val[k][1]/big), 1e-9, 'uniform field keeps its direction')
    if s['style'] == 'impulse':
        at = [k for k in nodes if val[k] != (0, 0)][0]
        for k in nodes:
            near(out[k][0]*val[at][1], out[k][1]*val[at][0], 1e-9*big, 'direction of the impulse')
            along = (out[k][0]*val[at][0] + out[k][1]*val[at][1])/big
            far = max(abs(k[0] - at[0]), abs(k[1] - at[1]))
            if k == at:
                near(along, 1, 1e-9, 'largest at the impulse')
            elif far == 1:
                expect(0 < along < 1, 'neighbours of an impulse follow it: %r', along)
            elif far > 2:
                near(along, 0, 1e-12, 'only the neighbourhood follows')
            else:
                expect(-1e-12 <= along < 1, 'smoothed impulse')
    # one scale k makes every vector lie among those within two nodes
    lo, hi = 0.0, float('inf')
    for (i, j) in nodes:
        near_by = [val[a, b] for a in range(max(0, i-2), min(n, i+3)) for b in range(max(0, j-2), min(n, j+3))]
        for c in (0, 1):
            a, b = min(q[c] for q in near_by), max(q[c] for q in near_by)
            eps = 1e-9*big
            x = out[i, j][c]
            # a - eps <= k*x <= b + eps
            if x > 1e-9:
                lo, hi = max(lo, (a - eps)/x), min(hi, (b + eps)/x)
            elif x < -1e-9:
                lo, hi = max(lo, (b + eps)/x), min(hi, (a - eps)/x)
    expect(lo <= hi*(1 + 1e-9) + 1e-12 and hi > 0, 'local averages up to one scale (%r..%r)', lo, hi)
    # mirrored signs and scaled fields smooth alike
    h = f.scaled(-2).smoothed()
    near_pts(list(zip(h.vx.flat, h.vy.flat)), [(-out[k][0], -out[k][1]) for k in nodes], 1e-9, 'smoothing of the scaled field')
    t = VectorField(f.mesh, f.vy, f.vx).smoothed()
    near_pts(list(zip(t.vy.flat, t.vx.flat)), [out[k] for k in nodes], 1e-9, 'components are smoothed alike')


@R.facet(st.tuples(FIELD, FIELD, st.sampled_from(['same', 'value', 'steps', 'box', 'other', 'other values']),
                   st.integers(0, 80)).map(list), n=200)
def equality(v, cx):
    s, o, how, at = v
    t = dict(s)
    if how == 'other':
        t = o
    elif how == 'other values':
        t = dict(s, seed=o['seed'], style=o['style'])
    elif how == 'steps':
        t['steps'] = s['steps'] + 1
    elif how == 'box':
        t['box'] = s['box'][:2] + [s['box'][2] + 1, s['box'][3]]
    f, g = field(s), field(t, 1)
    if how == 'value':
        k = (at % s['steps'], at//9 % s['steps'])
        (g.vx if at % 2 else g.vy)[k] += s['mag']/8
    mesh_eq = s['steps'] == t['steps'] and mesh_of(s).bbox.as_tuple() == mesh_of(t).bbox.as_tuple()
    want = mesh_eq and arr(f) == arr(g)
    cx.nt(how not in ('other',))
    cx.label('equal', want)
    for a, b in ((f, g), (g, f)):
        same(a == b, want, 'equality of fields')
        same(a != b, not want, 'inequality of fields')
        same(a.mesh == b.mesh, mesh_eq, 'equality of meshes')
    f.lookup(*node(s, 0, 0))
    same(f == g, want, 'equality after a lookup')
    for x in (None, 1, 'f', f.vx.tolist(), f.mesh):
        expect(not (f == x) and f != x, 'differs from other things')
    expect(not (f.mesh == f) and f.mesh != 3, 'mesh differs from other things')


@R.facet(st.tuples(FIELD, st.sampled_from([0.5, 1, 100]), st.integers(0, 1000)).map(list), n=100)
def making(v, cx):
    """Fields made by a mesh are independent of each other"""
    s, m, seed = v
    mesh = mesh_of(s)
    n = s['steps']
    cx.nt(n > 2)
    a, b = mesh.zeros(), mesh.zeros()
    expect(a == b, 'zero fields')
    for f in (a, b):
        same(f.vx.shape, (n, n), 'shape')
        expect(not f.vx.any() and not f.vy.any(), 'zero')
    a.vx[0, 0] = 3
    expect(not b.vx.any() and not mesh.zeros().vx.any() and not a.vy.any(), 'own values')
    state = random.getstate()
    try:
        random.seed(seed)
        u, w = mesh.uniform(m), mesh.uniform(m)
        random.seed(seed)
        again = mesh.uniform(m)
    finally:
        random.setstate(state)
    for f in (u, w):
        expect(np.abs(f.vx).max() <= m and np.abs(f.vy).max() <= m, 'within the magnitude')
        expect(len(set(f.vx.flat) | set(f.vy.flat)) == 2*n*n, 'values vary')
    expect(u != w and again == u, 'random fields differ, repeat with the seed')
    p = node(s, n//2, n//2)
    same(tuple(b.lookup(*p)), (0, 0), 'zero field moves nothing')
    same(tuple(b.transform(*p)), tuple(p), 'zero field moves nothing')
    expect(mesh == mesh_of(s) and a.mesh is mesh or a.mesh == mesh, 'the mesh')


BIG = st.tuples(FIELD, st.integers(10, 32)).map(lambda v: dict(v[0], steps=v[1]))


@R.facet(st.tuples(BIG, PTS, st.integers(0, 3), st.sampled_from(['lookups', 'moving', 'smoothing'])).map(list), n=60)
def fine_grids(v, cx):
    """Many nodes"""
    s, uvs, how, what = v
    cx.label(what)
    if what == 'lookups':
        lookups([s, uvs, how], cx)
    elif what == 'moving':
        moving([s, uvs, how], cx)
    else:
        smoothing(s, cx)


CELL = st.tuples(st.integers(0, 8), st.integers(0, 8), gen.fl(-5, 5), gen.fl(-5, 5)).map(list)
EDIT = gen.one_of(
    st.tuples(st.just('cell'), CELL),
    st.tuples(st.just('cell'), CELL),
    st.tuples(st.just('all'), gen.fl(-5, 5), gen.fl(-5, 5)),
    st.tuples(st.just('times'), gen.fl(-2, 2)),
    st.tuples(st.just('new_x'), st.integers(0, 1000)),
    st.tuples(st.just('new_y'), st.integers(0, 1000)),
    st.tuples(st.just('new'), st.integers(0, 1000)),
    st.tuples(st.just('derive'), st.sampled_from(['copy', 'scaled', 'normalized', 'smoothed'])),
    st.tuples(st.just('look'), gen.fl(-0.5, 1.5), gen.fl(-0.5, 1.5)),
).map(list)


@R.facet(st.tuples(FIELD, st.lists(EDIT, min_size=2, max_size=8), PTS, st.booleans()).map(list), n=150)
def edited(v, cx):
    """A field shows the values it has now, whatever was looked up before they were edited or replaced"""
    s, ops, uvs, every = v
    n = s['steps']
    f = field(s)
    val = dict(values(s))
    tol = 10*tol_of(s)
    cx.nt(n > 2 and sum(o[0] in ('cell', 'all', 'times', 'new', 'new_x', 'new_y') for o in ops) >= 1)
    kept = []

    def look(what):
        top = max(max(abs(c) for c in q) for q in val.values())
        t = tol*(1 + top)
        for u in uvs:
            p = place(s, u)
            near_xy(f.lookup(*p), ref_lookup(s, val, p), t, 'lookup %s' % what)
            near_xy(f.transform(*p), tuple(a + b for a, b in zip(p, ref_lookup(s, val, p))), t, 'moving %s' % what)
        for k in val:
            near_xy(f.lookup(*node(s, *k)), val[k], t, 'node %s' % what)

    look('first')
    for op in ops:
        if op[0] == 'cell':
            i, j, x, y = op[1]
            i, j = i % n, j % n
            f.vx[i, j], f.vy[i, j] = x, y
            val[i, j] = x, y
        elif op[0] == 'all':
            f.vx[:] = op[1]
            f.vy.fill(op[2])
            val = {k: (op[1], op[2]) for k in val}
        elif op[0] == 'times':
            f.vx *= op[1]
            f.vy *= op[1]
            val = {k: (x*op[1], y*op[1]) for k, (x, y) in val.items()}
        elif op[0] in ('new', 'new_x', 'new_y'):
            rng = random.Random(op[1])
            new = np.array([[rng.uniform(-5, 5) for _ in range(n)] for _ in range(n)])
            if op[0] != 'new_y':
                f.vx = new
                val = {k: (new[k], y) for k, (x, y) in val.items()}
            if op[0] != 'new_x':
                f.vy = new.T.copy()
                val = {k: (x, new[k[::-1]]) for k, (x, y) in val.items()}
        elif op[0] == 'look':
            f.lookup(*place(s, op[1:]))
        else:
            if op[1] in ('normalized', 'smoothed') and not any(x or y for x, y in val.values()):
                continue
            g = f.scaled(0.5) if op[1] == 'scaled' else getattr(f, op[1])()
            if op[1] in ('copy', 'scaled'):
                k = 1 if op[1] == 'copy' else 0.5
                want = {c: (x*k, y*k) for c, (x, y) in val.items()}
                top = 1 + max(max(abs(c) for c in q) for q in want.values())
                for c in want:
                    near_xy(g.lookup(*node(s, *c)), want[c], tol*top, op[1])
            kept.append((g, snap(g), g.lookup(*place(s, uvs[0])), place(s, uvs[0])))
        if every:
            look('after %s' % op[0])
    look('at the end')
    for g, was, at, p in kept:
        same(snap(g), was, 'derived field after edits of the original')
        same(g.lookup(*p), at, 'lookup in the derived field')


@R.facet(st.tuples(FIELD, PTS, st.sampled_from([1e-200, 1e-20, 1e-9, 1e-4, 1e4, 1e9, 1e200]),
                   st.sampled_from([1e-6, 1e-3, 1, 1e3, 1e6])).map(list), n=120)
def sizes(v, cx):
    """Fields of tiny or huge vectors over tiny or huge boxes"""
    s, uvs, k, b = v
    s = dict(s, mag=1, box=[c*b for c in s['box']])
    n = s['steps']
    base = values(s)
    val = {c: (x*k, y*k) for c, (x, y) in base.items()}
    f = field(s)
    f.vx *= k
    f.vy *= k
    tol = 1e-9*(1 + 200*b/min(s['box'][2:]))*k
    cx.nt(n > 2 and s['style'] in ('random', 'sparse', 'affine', 'impulse'))
    for c in val:
        near_xy(f.lookup(*node(s, *c)), val[c], tol, 'node')
    for u in uvs:
        p = place(s, u)
        near_xy(f.lookup(*p), ref_lookup(s, val, p), 4*tol, 'lookup')
    longest = max(np.hypot(*q) for q in base.values())
    if longest > 1e-12:
        g = f.normalized()
        near(max(np.hypot(x, y) for x, y in zip(g.vx.flat, g.vy.flat)), 1, 1e-9, 'longest')
        for c in val:
            near_xy((g.vx[c], g.vy[c]), tuple(q/longest for q in base[c]), 1e-9, 'normalized')
    h = f.scaled(1/k)
    for c in val:
        near_xy((h.vx[c], h.vy[c]), base[c], 1e-9, 'scaled')
    expect(f == f.copy() and (longest == 0 or f != h or k == 1), 'equality')


@R.facet(st.tuples(FIELD, st.integers(0, 80), st.integers(0, 3), st.sampled_from(['normalized', 'copy', 'scaled', 'smoothed', 'scaled_xy'])).map(list), n=150)
def unit_fields(v, cx):
    """Fields whose longest vector has length one already: what is derived from them is still a field of its own"""
    s, at, d, how = v
    s = dict(s, mag=0.2)
    n = s['steps']
    f = field(s)
    k = (at // n) % n, at % n
    f.vx[k], f.vy[k] = ((1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0))[d]
    cx.nt(n > 2 and s['style'] in ('random', 'sparse', 'affine'))
    cx.label(how)
    for g in (f, f.normalized(), VectorField(f.mesh, np.full((n, n), (1.0, 0.0)[d % 2]), np.full((n, n), (0.0, 1.0)[d % 2]))):
        before = snap(g)
        h = g.scaled(1) if how == 'scaled' else g.scaled(1, 1) if how == 'scaled_xy' else getattr(g, how)()
        was = snap(h)
        if how != 'smoothed':
            near_pts(list(zip(h.vx.flat, h.vy.flat)), list(zip(g.vx.flat, g.vy.flat)), 1e-12, how)
        p = place(s, (0.4, 0.6))
        at_p = h.lookup(*p)
        for a, b, b_was, what in ((h, g, before, 'the field after editing the %s one' % how), (g, h, snap(h), 'the %s field after editing its original' % how)):
            b_was = snap(b)
            a.vx[0, 0] += 7
            a.vy[-1, 0] -= 3
            a.vx *= 2
            same(snap(b), b_was, what)
            a.vx /= 2
            a.vy[-1, 0] += 3
            a.vx[0, 0] -= 7
        near_pts(list(zip(g.vx.flat, g.vy.flat)), [tuple(q) for q in zip(np.array(before[0][0]).flat, np.array(before[0][1]).flat)], 1e-9, 'put back')
        near_xy(h.lookup(*p), at_p, 1e-9, 'lookup in the %s field' % how)
        same(len(snap(h)), len(was), 'parts')


@R.facet(st.tuples(FIELD, PTS, st.sampled_from(['int', 'int', 'int32', 'float32', 'mixed', 'fortran']), st.sampled_from([2, 0.5, -3])).map(list), n=150)
def kinds_of_numbers(v, cx):
    """Arrays of whole numbers, in whatever format, are as good as floating-point ones"""
    s, uvs, kind, k = v
    s = dict(s, mag=max(s['mag'], 50))
    n = s['steps']
    f = field(s)
    vx, vy = np.round(f.vx), np.round(f.vy)
    cx.nt(n > 2 and s['style'] in ('random', 'sparse', 'affine'))
    cx.label(kind)
    form = {'int': lambda a: a.astype(int), 'int32': lambda a: a.astype(np.int32), 'float32': lambda a: a.astype(np.float32),
            'mixed': lambda a: a.astype(int), 'fortran': lambda a: np.asfortranarray(a.astype(int))}[kind]
    f = VectorField(f.mesh, vx.copy(), vy.copy())
    g = VectorField(f.mesh, form(vx), vy.copy() if kind == 'mixed' else form(vy))
    tol = tol_of(s) if kind != 'float32' else 1e-3*s['mag']*(1 + 200/min(s['box'][2:]))

    def alike(a, b, what):
        for p, q in ((a.vx, b.vx), (a.vy, b.vy)):
            expect(np.allclose(p, q, rtol=1e-5, atol=tol), '%s: got %r, expected %r', what, p, q)
        for u in uvs:
            p = place(s, u)
            near_xy(a.lookup(*p), b.lookup(*p), 4*tol, what + ': lookup')
    steps = [('field', lambda x: x), ('copy', lambda x: x.copy()), ('scaled', lambda x: x.scaled(k)), ('scaled', lambda x: x.scaled(1, k))]
    if np.abs(vx).max() > 0 or np.abs(vy).max() > 0:
        steps += [('normalized', lambda x: x.normalized()), ('smoothed', lambda x: x.smoothed())]
    for what, fn in steps:
        alike(fn(g), fn(f), what)
    alike(g, f, 'field afterwards')
