"""C10: push/pop restore transforms exactly, in stack order"""
from hypothesis import strategies as st
from x7.geom.geom import Point
from x7.geom.transform import Transform, EmptyStackError
from harness import gen, mk, ref
from harness.core import Registry, expect, near, same, near_xy, raises, fail
from harness.tprog import Prog, mat_ops, stack_ops, SLOTS

R = Registry('C10', 'Trees of with-blocks, push/pop calls, mutations, unmatched pops and exceptions (raised at a '
             'generated place and caught at a generated enclosing level), interpreted against a list-of-matrices model '
             'with exact comparison; flat push/pop programs over three transforms with copies. Non-trivial: nesting '
             'of at least two, or an unmatched pop, or an exception.')

MUT = gen.one_of(
    st.tuples(st.just('t'), gen.coord(50), gen.coord(50)).map(list),
    st.tuples(st.just('s'), gen.factor(), gen.factor()).map(list),
    st.tuples(st.just('r'), gen.angle()).map(list),
    st.tuples(st.just('ra'), gen.angle(), gen.coord(20), gen.coord(20)).map(list),
    st.just(['reset']),
    st.tuples(st.just('compose'), gen.xform(20, 2)).map(list),
    st.tuples(st.just('outer'), gen.xform(20, 2)).map(list),
    st.tuples(st.just('set'), gen.xform(20, 2)).map(list),
    st.just(['inv']),
)
LEAF = gen.one_of(MUT, MUT, st.just(['push']), st.just(['pop']),
                 st.tuples(st.just('raise'), st.integers(0, 12)).map(list), st.just(['empty-with']), st.just(['copy']))


def block(children):
    body = st.lists(children, max_size=4)
    return gen.one_of(
        st.tuples(st.just('with'), body, st.booleans()).map(list),      # with t.push(): ... ; catch?
        st.tuples(st.just('with-pushed'), body).map(list),              # t.push() ; with t: ...
        st.tuples(st.just('try'), body).map(list),
    )


RAISE = st.tuples(st.just('raise'), st.integers(0, 12)).map(list)
THROW = st.tuples(st.sampled_from(['with', 'with-pushed']), st.tuples(st.lists(MUT, max_size=2), RAISE).map(
    lambda v: v[0] + [v[1]]), st.booleans()).map(list)        # a block left by an exception
TREE = st.lists(gen.one_of(LEAF, THROW, st.recursive(gen.one_of(LEAF, THROW), block, max_leaves=12)),
                min_size=1, max_size=6)


class Boom(BaseException):
    """Raised by programs; its subclasses are also exceptions of many ordinary kinds"""


BOOMS = [type('Boom' + e.__name__, (Boom, e), {}) for e in
         (Exception, ValueError, TypeError, KeyError, IndexError, ZeroDivisionError, RuntimeError, AssertionError,
          AttributeError, StopIteration, OSError, KeyboardInterrupt, GeneratorExit)]


class World(object):
    def __init__(self):
        self.t = Transform()
        self.model = [self.t.as_6tuple()]       # saved matrices, below the current one
        self.model = []
        self.copies = []
        self.depth = self.max_depth = 0
        self.refused = self.booms = 0

    def mutate(self, op):
        t = self.t
        k = op[0]
        if k == 't':
            t.translate(op[1], op[2])
        elif k == 's':
            t.scale(op[1], op[2])
        elif k == 'r':
            t.rotate(op[1])
        elif k == 'ra':
            t.rotate_about(op[1], Point(op[2], op[3]))
        elif k == 'reset':
            t.reset()
        elif k == 'compose':
            t.compose(mk.xform(op[1]))
        elif k == 'outer':
            t.compose_outer(mk.xform(op[1]))
        elif k == 'set':
            t.set_matrix(mk.xform(op[1]))
        elif k == 'inv':
            t.inverse.shape

    def pop(self):
        """Explicit pop, expected to be refused if nothing is pending"""
        t = self.t
        if self.model:
            want = self.model.pop()
            t.pop()
            same(t.as_6tuple(), want, 'matrix after pop')
        else:
            self.refused += 1
            was = t.as_6tuple()
            raises(EmptyStackError, t.pop, 'pop without push')
            same(t.as_6tuple(), was, 'matrix after refused pop')
        same(len(t.stack), len(self.model), 'pending pushes')

    def leave(self):
        """A with-block has been left (by whatever means): its implied pop happened or was refused"""

    def run(self, prog):
        for op in prog:
            self.step(op)

    def step(self, op):
        t = self.t
        k = op[0]
        if k == 'push':
            r = t.push()
            expect(r is t, 'push returns the transform')
            self.model.append(t.as_6tuple())
        elif k == 'pop':
            self.pop()
        elif k == 'raise':
            self.booms += 1
            raise BOOMS[op[1] % len(BOOMS)]()
        elif k == 'copy':
            c = t.copy()
            same(c.as_6tuple(), t.as_6tuple(), 'copy')
            raises(EmptyStackError, c.pop, 'pop of a copy that was never pushed')
            c.push()
            c.translate(1, 1)
            self.copies.append((c, c.as_6tuple()))
        elif k == 'empty-with':
            if not self.model:
                self.refused += 1
                was = t.as_6tuple()
                try:
                    with t:
                        fail('with-block without a push was entered')
                except EmptyStackError:
                    pass
                same(t.as_6tuple(), was, 'matrix after refused with')
        elif k == 'try':
            try:
                self.run(op[1])
            except Boom:
                pass
        elif k in ('with', 'with-pushed'):
            self.depth += 1
            self.max_depth = max(self.depth, self.max_depth)
            entry = len(self.model)
            refused = False
            try:
                try:
                    if k == 'with':
                        self.model.append(t.as_6tuple())
                        with t.push() as got:
                            expect(got is t, 'with gives the transform')
                            self.run(op[1])
                    else:
                        t.push()
                        self.model.append(t.as_6tuple())
                        with t:
                            self.run(op[1])
                finally:
                    self.depth -= 1
                    # the exit pops the newest pending push, or finds none
                    if self.model:
                        want = self.model.pop()
                        same(t.as_6tuple(), want, 'matrix after leaving a with-block')
                    else:
                        refused = True
            except EmptyStackError:
                expect(refused, 'leaving the block was refused although a push was pending')
                self.refused += 1
            except Boom:
                if not (len(op) > 2 and op[2]):
                    raise
            else:
                expect(not refused, 'leaving a with-block without pending push was accepted')
            same(len(t.stack), len(self.model), 'pending pushes')
            del entry
        else:
            self.mutate(op)


@R.facet(TREE, n=700)
def nesting(s, cx):
    w = World()
    try:
        w.run(s)
    except Boom:
        pass
    same(len(w.t.stack), len(w.model), 'pending pushes')
    # whatever is left pending comes back in stack order
    while w.model:
        w.pop()
    w.pop()
    cx.nt(w.max_depth >= 2 or w.refused > 1 or w.booms)
    cx.label('exception', w.booms)
    cx.label('refused', w.refused > 1)
    # the transform is still usable
    w.t.reset().translate(3, 4)
    same(w.t.transform(1, 1), (4.0, 5.0), 'usable')
    for c, m in w.copies:
        same(c.as_6tuple(), m, 'copy unaffected')
        c.pop()
        raises(EmptyStackError, c.pop, 'copy holds only its own pushes')


@R.facet(st.lists(gen.one_of(mat_ops() + stack_ops()*3), min_size=2, max_size=20), n=500)
def programs(s, cx):
    p = Prog()
    for op in s:
        p.step(op)
        if p.too_big():
            break
        p.check_matrix('after %d operations,' % p.ops)
        for sl in p.slots:
            same(len(sl.t.stack), len(sl.stack), 'pending pushes')
    cx.nt(p.pushes >= 2)
    cx.label('refused', p.refused)
    for sl in p.slots:
        while sl.stack:
            m = sl.stack.pop()[3]
            sl.t.pop()
            same(sl.t.as_6tuple(), m, 'unwound')
        was = sl.t.as_6tuple()
        raises(EmptyStackError, sl.t.pop, 'pop without push')
        same(sl.t.as_6tuple(), was, 'after refused pop')


@R.facet(st.tuples(st.integers(5, 40), st.lists(gen.one_of(mat_ops() + stack_ops()*2), min_size=5, max_size=12), st.integers(0, 3)).map(list), n=60)
def deep_stacks(s, cx):
    """Many pending pushes of one transform"""
    n, ops, back = s
    p = Prog()
    for i in range(n):
        p.step(['push', 0])
        p.step(['t', 0, i + 1, -i])
        op = ops[i % len(ops)]
        if not p.too_big():
            p.step(op)
    for i in range(n + back):
        p.step(['pop', 0])
        p.check_matrix('after %d pops,' % (i + 1))
        for sl in p.slots:
            same(len(sl.t.stack), len(sl.stack), 'pending pushes')
    cx.nt()
