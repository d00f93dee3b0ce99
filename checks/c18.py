"""C18: drawing-space paths compose transforms and leave the context unchanged"""
from hypothesis import strategies as st
from x7.geom.bezier import ControlPoint
from harness import edits, gen, mk, ref
from harness.core import Registry, expect, near_pts, near_xy, same

R = Registry('C18', 'Elements and nested models (arbitrary transforms at every level, hidden and empty groups, shapes '
             'whose holes are shapes or groups of shapes) queried in contexts with arbitrary matrices, 0..3 saved states '
             'and 1..90 points per curve, compared with the internal geometry mapped by hand-composed matrices; histories '
             'of interleaved queries on shared contexts. Non-trivial: something is drawn and at least one transform '
             'moves points.')


def context(ops, ppc, depth):
    d = mk.dc(ops, 8, ppc)
    keep = d.matrix.as_6tuple()
    for i in range(depth):
        d.matrix.translate(i+1, -3).push()
    d.matrix.set_matrix(mk.xform(ops))
    same(d.matrix.as_6tuple(), keep, 'setup')
    return d


def dc_state(d):
    return d.matrix.as_6tuple(), [[tuple(r) for r in m.ndmat.tolist()] for m in d.matrix.stack], d.points_per_curve, d.show_cps


def tol_of(spec, m):
    return 1e-11*(mk.big(spec)*(1 + ref.norm(m)) + ref.shift(m))


def moving(s):
    if mk.mat(s['xf']) != ref.IDENT:
        return True
    return any(moving(e) for e in s.get('elems', [])) or ('outside' in s and moving(s['outside']))


CTX = st.tuples(gen.xform(), gen.one_of(st.integers(1, 90), st.just(80)), st.integers(0, 3)).map(list)


@R.facet(st.tuples(gen.one_of(gen.elem_curve(lo=1), gen.elem_curve(lo=1), gen.elem_curve(lo=6, hi=14)), CTX).map(list), n=400)
def curves(s, cx):
    spec, (ops, ppc, depth) = s
    m = mk.mat(ops)
    d = context(ops, ppc, depth)
    before = dc_state(d)
    e = mk.elem(spec)
    was = mk.state(e)
    (p,) = e.paths(d)
    full = ref.mul(m, mk.mat(spec['xf']))
    cps = [tuple(ref.ap(full, q) for q in mk.cp_abs(c)) for c in spec['cps']]
    want = ref.path_of(cps, spec['closed'], ppc)
    pts = mk.path_pts(p)
    near_pts(pts, want, tol_of(spec, m), 'curve path')
    cx.nt(len(pts) > 2 and full != ref.IDENT)
    same(p.closed, spec['closed'], 'closed')
    same(p.penbrush, e.penbrush, 'style')
    if spec['closed']:
        same(pts[0], pts[-1], 'ends where it starts')
    (cpath,) = e.control_paths(d)
    same(len(cpath.points), len(cps), 'control points')
    for got, (c, l, r), orig in zip(cpath.points, cps, spec['cps']):
        near_pts([got.c.xy(), got.l.xy(), got.r.xy()], [c, l, r], tol_of(spec, m), 'control point')
        same(got.kind, orig[3], 'kind')
    same(dc_state(d), before, 'context')
    same(mk.state(e), was, 'element')


@R.facet(st.tuples(gen.leaf(kinds=('rect', 'ellipse', 'rrect')), CTX).map(list), n=400)
def boxes(s, cx):
    spec, (ops, ppc, depth) = s
    m = mk.mat(ops)
    d = context(ops, ppc, depth)
    before = dc_state(d)
    e = mk.elem(spec)
    was = mk.state(e)
    (p,) = e.paths(d)
    full = ref.mul(m, mk.mat(spec['xf']))
    cx.nt(full != ref.IDENT)
    cx.label(spec['k'])
    tol = tol_of(spec, m)
    pts = mk.path_pts(p)
    same(pts[0], pts[-1], 'ends where it starts')
    same((p.closed, p.penbrush), (True, e.penbrush), 'closed and style')
    (x1, y1), (x2, y2) = spec['p']
    if spec['k'] == 'rect':
        want = [(x1, y1), (x1, y2), (x2, y2), (x2, y1), (x1, y1)]
        mk.same_paths([(p.penbrush, True, pts)], [(p.penbrush, True, ref.ap_list(full, want))], tol, 'rect', outline=True)
        (cpath,) = e.control_paths(d)
        got = sorted(q.xy() for q in cpath.points)
        for q in ref.ap_list(full, want[:4]):
            expect(any(abs(q[0]-g[0]) <= tol and abs(q[1]-g[1]) <= tol for g in got), 'corner %r missing in %r', q, got)
        same(len(got), 4, 'corners')
    else:
        if spec['k'] == 'ellipse':
            want = ref.path_of([tuple(ref.ap(full, q) for q in c) for c in mk.ellipse_cps(*spec['p'])], True, 20)
            mk.same_paths([(p.penbrush, True, pts)], [(p.penbrush, True, want)], tol, 'ellipse', outline=True)
        near_pts(pts, ref.ap_list(full, mk.leaf_path(spec, ppc)), tol, 'internal path mapped')
        (cpath,) = e.control_paths(d)
        inner = e.make_control_points()
        same(len(cpath.points), len(inner), 'control points')
        for got, c in zip(cpath.points, inner):
            near_pts([got.c.xy(), got.l.xy(), got.r.xy()], ref.ap_list(full, mk.real_abs(c)), tol, 'control point')
    same(dc_state(d), before, 'context')
    same(mk.state(e), was, 'element')


def group_holes(spec, names=('g', 'h')):
    """Wrap all holes of a shape into one group: its paths then come from one element"""
    spec = mk.expand(spec)
    ins = gen.unique_names(spec['inside'])
    spec['inside'] = [dict(k='group', name=names[0], pb=['black', None] and [['black', 1], None], xf=[], hidden=False,
                           elems=ins)]
    return spec


def check_model(spec, ctx, cx):
    ops, ppc, depth = ctx
    m = mk.mat(ops)
    d = context(ops, ppc, depth)
    before = dc_state(d)
    e = mk.elem(spec)
    was = mk.state(e)
    got = mk.paths_sig(e, d)
    same(dc_state(d), before, 'context')
    same(mk.state(e), was, 'model')
    want = mk.scene(spec, m, ppc)
    cx.nt(len(got) > 0 and moving(spec))
    cx.label('paths=%d' % min(len(got), 6))
    mk.same_paths(got, want, tol_of(spec, m)*10, 'model')
    for _pb, closed, pts in got:
        if closed:
            same(pts[0], pts[-1], 'ends where it starts')
    return e, d


@R.facet(st.tuples(gen.model(), CTX).map(list), n=300)
def models(s, cx):
    check_model(s[0], s[1], cx)


@R.facet(st.tuples(gen.holes(), CTX).map(list), n=200)
def holes(s, cx):
    check_model(s[0], s[1], cx)


@R.facet(st.tuples(gen.holes(min_inside=1, max_inside=3), CTX).map(list), n=200)
def holes_in_group(s, cx):
    """A hole element that draws several paths"""
    check_model(group_holes(s[0]), s[1], cx)
    cx.label('holes=%d' % len(s[0]['inside']))


def expected_controls(s, m):
    s = mk.expand(s)
    m = ref.mul(m, mk.mat(s['xf']))
    if s['k'] == 'group':
        return [] if s['hidden'] else [p for e in s['elems'] for p in expected_controls(e, m)]
    if s['k'] == 'holes':
        return [p for e in [s['outside']] + s['inside'] for p in expected_controls(e, m)]
    if s['k'] == 'curve':
        return [[tuple(ref.ap(m, q) for q in mk.cp_abs(c)) for c in s['cps']]]
    flat = dict(s, xf=[])
    (path,) = mk.elem(flat).control_paths(mk.dc())
    return [[tuple(ref.ap(m, q) for q in (mk.real_abs(c) if isinstance(c, ControlPoint) else [c.xy()]))
             for c in path.points]]


@R.facet(st.tuples(gen.one_of(gen.any_elem(), gen.any_elem(), gen.group_of(gen.any_elem(groups=False))), CTX).map(list), n=300)
def controls(s, cx):
    spec, (ops, ppc, depth) = s
    m = mk.mat(ops)
    d = context(ops, ppc, depth)
    before = dc_state(d)
    e = mk.elem(spec)
    was = mk.state(e)
    mk.same_paths(mk.paths_sig(e, d), mk.scene(spec, m, ppc), tol_of(spec, m)*10, 'paths')
    same(dc_state(d), before, 'context after paths')
    got = [[mk.real_abs(c) if isinstance(c, ControlPoint) else (c.xy(),) for c in p.points] for p in e.control_paths(d)]
    same(dc_state(d), before, 'context')
    same(mk.state(e), was, 'model')
    want = expected_controls(spec, m)
    cx.nt(len(got) > 0 and moving(spec))
    same(len(got), len(want), 'control paths')
    for g, w in zip(got, want):
        same(len(g), len(w), 'points')
        for a, b in zip(g, w):
            near_pts(a, b, tol_of(spec, m)*10, 'control point')


QUERIES = st.lists(st.tuples(st.integers(0, 2), st.sampled_from(
    ['paths', 'paths', 'control_paths', 'draw', 'bbox', 'iter', 'iter_transformed', 'curves', 'str', 'transform']),
    st.booleans()).map(list), min_size=2, max_size=10)


@R.facet(st.tuples(st.lists(gen.any_elem(empty_sub=False, hidden=False), min_size=1, max_size=3), CTX, QUERIES).map(list), n=150)
def histories(s, cx):
    """Interleaved queries on one context: every one answers as if it were the only one"""
    specs, (ops, ppc, depth), queries = s
    d = context(ops, ppc, depth)
    before = dc_state(d)
    elems = [mk.elem(sp) for sp in specs]
    states = [mk.state(e) for e in elems]
    firsts = {}
    n = 0
    for i, q, fresh in queries:
        i %= len(elems)
        e = elems[i]
        dd = context(ops, ppc, 0) if fresh else d
        if q == 'paths':
            res = mk.paths_sig(e, dd)
        elif q == 'control_paths':
            res = [[repr(c) for c in p.points] for p in e.control_paths(dd)]
        elif q == 'draw':
            dd.debug = False
            e.draw(dd)
            res = None
        elif q == 'bbox':
            res = e.bbox().as_tuple()
        elif q == 'iter':
            res = [(name, type(x).__name__, t.as_6tuple()) for name, x, t in e.iter_elems('r', d.matrix.copy())]
        elif q == 'iter_transformed':
            res = [mk.state(x) for x in e.iter_elems_transformed('r', mk.xform(ops))] if 'k' in specs[i] and \
                specs[i]['k'] in ('group', 'holes') else None
        elif q == 'curves':
            res = [mk.state(x) for x in e.as_curves()]
        elif q == 'str':
            res = str(e), repr(e)
        else:
            res = mk.state(e.transform(mk.xform(ops)))
        same(dc_state(d), before, 'context after %s' % q)
        same([mk.state(x) for x in elems], states, 'models after %s' % q)
        if (i, q) in firsts:
            same(res, firsts[i, q], 'repeated %s' % q)
            n += 1
        firsts[i, q] = res
    cx.nt(n > 0 or len(firsts) > 2)
    cx.label('repeats=%d' % n)


@R.facet(st.tuples(gen.large(), CTX).map(list), n=80)
def large(s, cx):
    """Many parts, many levels"""
    check_model(s[0], s[1], cx)


@R.facet(st.tuples(gen.elem_curve(lo=51, hi=130), CTX).map(list), n=20, thorough=200)
def very_long(s, cx):
    """Curves of many control points"""
    curves([s[0], s[1]], cx)


LOOK = st.tuples(gen.xform(), gen.one_of(st.integers(1, 12), st.just(80)), st.booleans()).map(list)


@R.facet(st.tuples(gen.any_elem(), st.lists(LOOK, min_size=2, max_size=3), edits.EDITS, st.booleans()).map(list), n=250)
def edited_between(v, cx):
    """The element and the context as they are now are what counts"""
    spec, looks, eds, one = v
    shared = mk.dc([], 8)

    def ask(ops, ppc, show):
        own = mk.dc([], 8)

        def fn(e):
            d = shared if one else own
            d.matrix.set_matrix(mk.xform(ops))
            d.points_per_curve, d.show_cps = ppc, show
            return [(repr(pb), c, pts) for pb, c, pts in mk.paths_sig(e, d)], \
                [[mk.real_abs(c) if isinstance(c, ControlPoint) else c.xy() for c in p.points] for p in e.control_paths(d)]
        return fn
    cx.nt(edits.asked_again(mk.elem(spec), eds, [ask(*k) for k in looks], 'paths', parts=True))
    cx.label(spec['k'])


@R.facet(st.tuples(gen.any_elem(), gen.xform(), gen.coord(90)).map(list), n=120)
def spoilt(v, cx):
    """What the caller does to paths is nothing to the model or to the next caller"""
    spec, ops, x = v
    e = mk.elem(spec)
    was = mk.state(e)
    d = mk.dc(ops, 8, 6)
    first = mk.paths_sig(e, d)
    cpaths = e.control_paths(d)
    keep = [[repr(c) for c in p.points] for p in cpaths]
    for p in e.paths(d):
        p.closed = False
        p.penbrush = None
        p.points.transform((2, 0, 1, 0, 3, x))
    for p in cpaths:
        for c in p.points:
            (c.c if isinstance(c, ControlPoint) else c).setxy(x, 1)
            if isinstance(c, ControlPoint):
                c.dl.setxy(5, x)
                c.kind = 'sharp'
        del p.points[:1]
    same(mk.state(e), was, 'the element')
    same(mk.paths_sig(e, d), first, 'paths')
    same([[repr(c) for c in p.points] for p in e.control_paths(d)], keep, 'control paths')
    cx.nt(bool(first))


@R.facet(st.tuples(gen.one_of(gen.model(), gen.model(), gen.holes(min_inside=1), gen.any_elem()), edits.SHARE, LOOK, st.booleans()).map(list), n=250)
def sharing(v, cx):
    """Elements, transforms, points and pens may occur at several places of a model, or be the context's"""
    spec, picks, (ops, ppc, show), own = v

    def ask(e):
        d = mk.dc(ops, ppc=ppc)
        d.show_cps = show
        return [(repr(pb), c, pts) for pb, c, pts in mk.paths_sig(e, d)], \
            [[mk.real_abs(c) if isinstance(c, ControlPoint) else c.xy() for c in p.points] for p in e.control_paths(d)]
    count = edits.alike_shared(lambda: mk.elem(spec), picks, [ask], 'paths')
    cx.nt(count > 0)
    cx.label(spec['k'])
    # the transform of an element is that of the context, too
    e = mk.elem(spec)
    d, d2 = mk.dc([], ppc=ppc), mk.dc([], ppc=ppc)
    d.matrix = e.xform
    d2.matrix.set_matrix(e.xform)
    before = mk.state(e)
    edits.same([pts for _pb, _c, pts in mk.paths_sig(e, d)], [pts for _pb, _c, pts in mk.paths_sig(e, d2)], 'paths under its own transform')
    same(mk.state(e), before, 'element')
