"""C25: groups are consistent namespaces under any edit history"""
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector
from x7.geom.colors import PenBrush, PensByShape
from x7.geom.model import (
    Group, GroupBuilder, ElemCurve, ElemRectangle, ElemEllipse, ElemRectangleRounded, ElemWithHoles, ControlPoint,
)
from harness import gen, mk, ref
from harness.core import Registry, Violation, expect, fail, raises, same

R = Registry('C25', 'Histories of up to 25 additions (plain, colliding, dotted, with and without name fixing, through groups '
             'and builders, leaves, sub-groups and shapes with holes), lookups of present and absent names, replacements '
             '(present at several depths, inside shapes with holes, absent, by free, equal, taken or dotted names) and '
             'point registrations, against a dictionary model. Non-trivial: a name collision, a replacement or a '
             'sub-group occurred.')

NAMES = ['a', 'b', 'c', 'a#0', 'rectangle#0', 'curve#0', 'group#0', 'ellipse#1', 'x y', "it's", 'edge']
DOTTED = ['a.b', 'x.a', '.b', 'g.h.a', 'root.rectangle#0']     # the last part is never empty
PB = PenBrush('red')


def make(kind, name, v):
    if kind == 'rect':
        return ElemRectangle(name, PB, Point(0, 0), Point(v, v+1))
    if kind == 'ellipse':
        return ElemEllipse(name, PB, Point(0, 0), Point(v, v+1))
    if kind == 'rrect':
        return ElemRectangleRounded(name, PB, Point(0, 0), Point(v, v+1), 2)
    if kind == 'curve':
        return ElemCurve(name, PB, [ControlPoint(Point(v, 0), Vector(1, 2), Vector(3, 4)),
                                    ControlPoint(Point(9, v), Vector(0, 2), Vector(3, 0))], closed=False)
    if kind == 'group':
        return Group(name, PB)
    if kind == 'holes':
        return ElemWithHoles(name, PB, make('rect', 'out', 50), [make('ellipse', 'in', v), make('curve', 'in2', v)])
    raise ValueError(kind)


def order(g):
    """[(key, id)] in order"""
    return [(k, id(e)) for k, e in g.elems.items()]


def walk(g, path=()):
    """All (path, element) of elements in groups, depth first"""
    for k, e in g.elems.items():
        yield path + (k,), e
        if isinstance(e, Group):
            yield from walk(e, path + (k,))


def consistent(root, tracked):
    """Every tracked element is under its own name, by plain and dotted name"""
    seen = []
    for path, e in walk(root):
        same(e.name, path[-1], 'name carried by the element at %r' % (path,))
        expect('.' not in path[-1], 'dot in the name %r', path[-1])
        expect(root.lookup('.'.join(path)) is e, 'lookup of %r', path)
        seen.append(id(e))
    same(len(seen), len(set(seen)), 'elements appear once')
    same(sorted(seen), sorted(id(e) for e in tracked), 'exactly the elements added and not replaced')


def groups_of(root):
    return [root] + [e for _p, e in walk(root) if isinstance(e, Group)]


OPS = st.lists(st.tuples(
    st.sampled_from(['add', 'add', 'add', 'addgroup', 'fixname', 'dotted', 'lookup', 'absent', 'replace', 'replace', 'point',
                     'builder', 'clone', 'move']),
    st.integers(0, 30), st.sampled_from(NAMES), st.sampled_from(['rect', 'ellipse', 'rrect', 'curve', 'holes']),
    st.integers(1, 3), st.sampled_from(NAMES + DOTTED)).map(list), min_size=1, max_size=25)


def do_add(g, name, e, fix, cx, tracked):
    before = order(g)
    names = set(g.elems)
    g.add(name, e, fix) if fix else g.add(name, e)
    after = order(g)
    same(after[:-1], before, 'existing elements after an addition')
    same(after[-1][1], id(e), 'the element added')
    expect(after[-1][0] not in names, 'fresh name')
    if name not in names and '.' not in name:
        same(after[-1][0], name, 'a free name is used as given')
    cx.nt(name in names)
    cx.label('collision', name in names)
    tracked.append(e)


def states(root):
    return {p: mk.state(e) for p, e in walk(root)}


def snapshot(root):
    return [(p, id(e)) for p, e in walk(root)]


def do_replace(root, tracked, i, newname, kind, v, cx):
    flat = [(p, e) for p, e in walk(root)]
    if not flat:
        return
    path, target = flat[i % len(flat)]
    if any(t is target for t in groups_of(root)):
        probe = target.copy()
    else:
        probe = target.copy() if i % 2 else target
    new = make(kind if kind != 'holes' else 'rect', newname, v + 10)
    hits = [(p, e) for p, e in flat if e == probe and not any(
        q == p[:len(q)] and q != p and oe == probe for q, oe in flat)]
    parents = {p[:-1]: (root if len(p) == 1 else root.lookup('.'.join(p[:-1]))) for p, _e in hits}
    taken = [p for p, _e in hits if '.' in newname or (newname != p[-1] and newname in parents[p[:-1]].elems)]
    before = snapshot(root)
    was = states(root)
    try:
        count = root.replace(probe, new)
    except ValueError:
        expect(taken, 'refused replacing %r by %r although the name is free', hits, newname)
        cx.label('refused')
        cx.nt()
        same(snapshot(root), before, 'model after a refused replacement')
        same(states(root), was, 'elements after a refused replacement')
        # nothing is lost: what is gone was replaced
        left = {id(e) for _p, e in walk(root)}
        gone = [(p, e) for p, e in flat if id(e) not in left]
        for p, e in gone:
            expect(any(p[:len(q)] == q for q, _h in hits), 'lost %r', p)
            expect(not any(p[:len(q)] == q for q in taken), 'lost %r whose replacement was refused', p)
        # the same replacement may now be in several places: start over from a clean slate
        return 'stop'
    expect(not taken, 'replaced although the name %r is taken', newname)
    same(count, len(hits), 'number of replacements')
    cx.nt(count > 0)
    cx.label('replaced %d' % count)
    # everything else is as before, in the same order
    want = []
    for p, ident in before:
        hit = [q for q, _e in hits if p[:len(q)] == q]
        if hit:
            if p == hit[0]:
                want.append((p[:-1] + (newname,), id(new)))
        else:
            want.append((p, ident))
    same(snapshot(root), want, 'model after replacing')
    for p, e in walk(root):
        if e is not new and not any(q[:len(p)] == p for q, _h in hits):
            same(mk.state(e), was[p], 'untouched element')
    dead = {ident for _p, ident in before} - {id(e) for _p, e in walk(root)}
    tracked[:] = [t for t in tracked if id(t) not in dead]
    if count == 1:
        tracked.append(new)
        return None
    return 'stop' if count > 1 else None


def absent_lookup(root, tag):
    try:
        got = root.lookup(tag)
    except (KeyError, ValueError):
        return
    fail('lookup of the absent %r returned %r', tag, got)


@R.facet(OPS, n=700)
def histories(ops, cx):
    root = Group('root', PB)
    tracked = []
    points = {}
    for k, i, name, kind, v, newname in ops:
        gs = groups_of(root)
        g = gs[i % len(gs)]
        if k == 'add':
            do_add(g, name, make(kind, 'other' if i % 2 else name, v), False, cx, tracked)
        elif k == 'addgroup':
            do_add(g, name, Group('g', PB), False, cx, tracked)
            cx.nt()
        elif k == 'fixname':
            do_add(g, newname, make(kind, 'z', v), True, cx, tracked)
        elif k == 'clone':
            # an equal element in another group, so that one replacement has several targets
            flat = [e for _p, e in walk(root) if not isinstance(e, Group)]
            if flat:
                e = flat[i % len(flat)]
                free = [x for x in gs if e.name not in x.elems]
                if free:
                    do_add(free[v % len(free)], e.name, e.copy(), False, cx, tracked)
                    cx.label('clone')
        elif k == 'move':
            # an element taken out of its group goes into another, maybe under another name
            places = [(gg, n_, e) for gg in gs for n_, e in gg.elems.items() if not isinstance(e, Group)]
            if places:
                frm, n_, e = places[i % len(places)]
                del frm.elems[n_]
                tracked[:] = [t for t in tracked if t is not e]
                do_add(gs[v % len(gs)], name, e, bool(i % 2), cx, tracked)
                cx.label('moved')
        elif k == 'dotted':
            bad = newname if '.' in newname else 'p.' + name
            before = order(g)
            if bad not in g.elems:
                raises(ValueError, lambda: g.add(bad, make(kind, 'q', v)), 'adding %r' % bad)
                same(order(g), before, 'group after a refused addition')
        elif k == 'lookup':
            consistent(root, tracked)
        elif k == 'absent':
            if name not in root.elems:
                absent_lookup(root, name)
                absent_lookup(root, name + '.a')
            for p, e in walk(root):
                if isinstance(e, Group):
                    if name not in e.elems:
                        absent_lookup(root, '.'.join(p + (name,)))
                else:
                    absent_lookup(root, '.'.join(p + ('zzz',)))
        elif k == 'replace':
            if do_replace(root, tracked, i, newname, kind, v, cx) == 'stop':
                break
        elif k == 'point':
            if (id(g), name) not in points:
                p = Point(v, i)
                expect(g.add_pt(name, p) is p, 'add_pt returns the point')
                points[id(g), name] = (g, p)
                same(p.name, name, 'name of the point')
            for (_i, n), (gg, p) in points.items():
                expect(gg.lookup_pt(n) is p, 'registered point %r', n)
            raises((KeyError, AssertionError), lambda: g.lookup_pt('none such'), 'absent point')
            before = dict(g.points)
            raises((AssertionError, ValueError, KeyError), lambda: g.add_pt(name, Point(0, 0)), 'point registered twice')
            same({n: id(p) for n, p in g.points.items()}, {n: id(p) for n, p in before.items()}, 'points')
        elif k == 'builder':
            b = GroupBuilder('b', PensByShape(), group=g)
            before = order(g)
            p1, p2 = Point(0, 0), Point(v, 2)
            if kind == 'curve':
                e = b.curve(name, [ControlPoint(p1, Vector(), Vector())])
            elif kind == 'holes':
                e = b.group(name).the_group
            elif kind == 'rrect':
                e = b.rrect(name, p1, p2, 1)
            else:
                e = getattr(b, kind)(name, p1, p2)
            same(order(g)[:-1], before, 'existing elements after building')
            expect(b.lookup(e.name) is e, 'built element found by its name')
            tracked.append(e)
        if k != 'lookup':
            consistent(root, tracked)
    cx.label('groups=%d' % min(4, len(groups_of(root))))


@R.facet(st.tuples(st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(['rect', 'curve', 'ellipse', 'group'])).map(list),
                            max_size=8), st.sampled_from(['list', 'tuple', 'dict'])).map(list), n=300)
def constructor(s, cx):
    items, form = s
    elems = [make(k, n, 1) for n, k in items]
    if form == 'dict':
        d = {}
        for e in elems:
            if e.name not in d:
                d[e.name] = e
        g = Group('g', PB, elems=d)
        elems = list(d.values())
        d2 = dict(d)
        g.add('fresh', make('rect', 'q', 1))
        expect(d == d2, 'the dictionary passed in')
        del g.elems['fresh']
    else:
        g = Group('g', PB, elems=elems if form == 'list' else tuple(elems))
    cx.nt(len({n for n, _k in items}) < len(items))
    same([id(e) for e in g.elems.values()], [id(e) for e in elems], 'elements in order')
    consistent(g, elems)


@R.facet(st.tuples(st.lists(st.sampled_from(['outside', 'in', 'in', 'other']), min_size=1, max_size=4), st.booleans(),
                   st.sampled_from(['fresh', 'a']), st.integers(1, 3)).map(list), n=200)
def replace_in_holes(s, cx):
    """Occurrences inside shapes with holes, next to plain ones"""
    slots, plain, newname, depth = s
    target = make('rect', 'a', 2)
    new = make('ellipse', newname, 7)
    outside = make('rect', 'out', 90)
    inside = []
    hits = 0
    for i, slot in enumerate(slots):
        if slot == 'outside':
            outside = target.copy()
        elif slot == 'in':
            inside.append(target.copy())
        else:
            inside.append(make('curve', 'k%d' % i, 3))
    w = ElemWithHoles('w', target.penbrush, outside, inside)
    others = [id(e) for e in inside if e != target]
    hits += (outside == target) + sum(e == target for e in inside)
    root = g = Group('root', PB)
    for i in range(depth):
        sub = Group('s%d' % i, PB)
        g.add(sub.name, sub)
        g = sub
    g.add('w', w)
    if plain:
        root.add('a', target)
        hits += 1
    g.add('z', make('curve', 'z', 2))
    cx.nt(hits > 0)
    cx.label('hits=%d' % hits)
    inside_was = list(inside)
    count = root.replace(target.copy(), new)
    same(count, hits, 'number of replacements')
    same(list(g.elems), ['w', 'z'], 'order')
    expect((w.outside is new) == ('outside' in slots), 'outside')
    same([id(e) for e in w.inside], [id(new) if e == target else id(e) for e in inside_was], 'inside')
    same([id(e) for e in w.inside if e is not new], others, 'other holes')
    if plain:
        expect(root.elems[newname] is new, 'plain occurrence')


@R.facet(st.tuples(st.lists(st.sampled_from(['outside', 'in', 'in', 'other']), min_size=1, max_size=4),
                   st.sampled_from(['group', 'holes']), st.booleans()).map(list), n=200)
def replace_in_nested_holes(s, cx):
    """Shapes with holes whose outside or holes are themselves groups or shapes with holes"""
    slots, form, own = s
    target = make('rect', 'a', 2)
    new = make('ellipse', 'a', 7)
    hits = [0]

    def nest(i, hit):
        t = target.copy() if hit else make('curve', 'a', 3)
        hits[0] += hit
        if form == 'group':
            sub = Group('sub%d' % i, PB)
            sub.add('k', make('curve', 'k', 4))
            sub.add('a', t)
            return sub, lambda: (list(sub.elems), sub.elems['a'])
        w_ = ElemWithHoles('sub%d' % i, target.penbrush, make('rect', 'o', 50), [make('curve', 'k', 4), t])
        return w_, lambda: ([e.name for e in w_.inside], w_.inside[1])

    nested = [nest(i, slot != 'other') for i, slot in enumerate(slots)]
    first = 'outside' == slots[0]
    outside = nested[0][0] if first else make('rect', 'out', 90)
    inside = [n for n, _ in nested[1:]] if first else [n for n, _ in nested]
    if own:
        inside.insert(0, target.copy())
        hits[0] += 1
    w = ElemWithHoles('w', target.penbrush, outside, inside)
    g = Group('g', PB)
    g.add('w', w)
    cx.nt(hits[0] > 1)
    count = g.replace(target.copy(), new)
    same(count, hits[0], 'number of replacements')
    expect(w.outside is outside, 'outside')
    same(len(w.inside), len(inside), 'number of holes')
    if own:
        expect(w.inside[0] is new, 'own hole')
    for i, ((_, look), slot) in enumerate(zip(nested, slots)):
        names, it = look()
        same(names, ['k', 'a'], 'names')
        same(it is new, slot != 'other', 'nested occurrence %d' % i)


@R.facet(st.tuples(st.sampled_from(['rect', 'curve', 'ellipse', 'rrect', 'group']), st.sampled_from(NAMES[:3]),
                   st.integers(8, 40), st.integers(1, 9), st.sampled_from(['plain', 'builder', 'fixname']),
                   st.lists(st.integers(0, 60), min_size=1, max_size=5)).map(list), n=60)
def crowds(v, cx):
    """Many elements wanting one name, deep down"""
    kind, name, n, depth, how, picks = v
    cx.nt()
    cx.label('more than ten of a kind', n > 12)
    root = Group('root', PB)
    tracked = []
    g = root
    for i in range(depth):
        sub = Group('x', PB)
        g.add('down', sub)
        do_add(g, 'beside', make('rect', 'z', i), False, cx, tracked)
        tracked.append(sub)
        g = sub
    b = GroupBuilder('b', PensByShape(), group=g)
    made = []
    for i in range(n):
        if how == 'builder' and kind != 'group':
            before = order(g)
            p1, p2 = Point(0, 0), Point(i, 2)
            if kind == 'curve':
                e = b.curve(name, [ControlPoint(p1, Vector(), Vector())])
            elif kind == 'rrect':
                e = b.rrect(name, p1, p2, 1)
            else:
                e = getattr(b, kind)(name, p1, p2)
            same(order(g)[:-1], before, 'existing elements after building')
            expect(g.elems[e.name] is e, 'built element under its name')
            tracked.append(e)
        else:
            e = make(kind, 'other', i) if kind != 'group' else Group('g', PB)
            do_add(g, ('p.' + name) if how == 'fixname' and i % 2 else name, e, how == 'fixname' or i % 3 == 0, cx, tracked)
        made.append(e)
    consistent(root, tracked)
    same(len(g.elems), n, 'number of elements')
    # replacing and adding again leaves no name used twice
    for k in picks:
        victim = made[k % n]
        if not any(victim is x for x in g.elems.values()) or kind == 'group':
            continue
        at = list(g.elems).index(victim.name)
        new = make('rect', 'new%d' % k, 1000 + k)
        if new.name in g.elems:
            continue
        twin = [x for x in g.elems.values() if x == victim]
        same(root.replace(victim, new), len(twin), 'replacements')
        expect(list(g.elems)[at] == new.name and g.elems[new.name] is new, 'replaced in place')
        tracked[:] = [t for t in tracked if t is not victim] + [new]
        consistent(root, tracked)
        do_add(g, name, make('rect', 'z', 2000 + k), False, cx, tracked)
        consistent(root, tracked)
