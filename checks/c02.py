"""C02: derived points and vectors track their bases over any history"""
import math
from hypothesis import strategies as st
from x7.geom.geom import Point, Vector, PointRelative, PointCalc, VectorRelative
from harness import gen
from harness.core import Registry, expect, near, near_xy, same, mag

R = Registry('C02', 'A random graph of plain, relative and calculated points and relative vectors, then a random '
             'history of base edits, offset/scale edits, snapshots and copies, every accessor compared with a value '
             'model after each step; non-trivial: the graph has a derived object whose base is edited later.')

C = gen.coord(100)
IDX = st.integers(0, 50)
SC = gen.one_of(gen.fl(-3, 3), gen.fl(-3, 3), st.sampled_from([0, 1, -1, 2, 0.5, 1.0, 1 + 1e-9]))
NODE = gen.one_of(
    st.tuples(st.just('P'), C, C).map(list),
    st.tuples(st.just('R'), IDX, C, C).map(list),
    st.tuples(st.just('F'), IDX, C, C).map(list),       # fromxy
    st.tuples(st.just('C'), IDX, SC).map(list),
)
OP = gen.one_of(
    st.tuples(st.just('set'), IDX, C, C).map(list),
    st.tuples(st.just('setp'), IDX, IDX).map(list),
    st.tuples(st.just('off'), IDX, C, C).map(list),
    st.tuples(st.just('scale'), IDX, SC).map(list),
    st.tuples(st.just('snap'), IDX).map(list),
    st.tuples(st.just('vsnap'), IDX).map(list),
    st.tuples(st.just('copy'), IDX).map(list),
    st.tuples(st.just('vcopy'), IDX).map(list),
)
SPEC = st.fixed_dictionaries(dict(
    nodes=st.lists(NODE, min_size=1, max_size=7),
    vecs=st.lists(st.tuples(IDX, IDX).map(list), max_size=3),
    ops=st.lists(OP, max_size=12)))


class World(object):
    def __init__(self, s):
        self.real = []
        self.model = []         # ['P', x, y] | ['R', base, dx, dy] | ['C', base, scale]
        self.deps = set()
        for n in s['nodes']:
            self.add(n)
        self.vecs = []
        for a, b in s['vecs']:
            a, b = a % len(self.real), b % len(self.real)
            self.vecs.append((VectorRelative(self.real[a], self.real[b]), a, b))
        self.snaps = []
        self.vcopies = []

    def add(self, n):
        k = n[0]
        if k in 'RF' and self.real:
            b = n[1] % len(self.real)
            self.deps.add(b)
            if k == 'R':
                self.real.append(PointRelative(n[2], n[3], self.real[b]))
                self.model.append(['R', b, n[2], n[3]])
            else:
                bx, by = self.val(b)
                self.real.append(PointRelative.fromxy(n[2], n[3], self.real[b]))
                self.model.append(['R', b, n[2]-bx, n[3]-by])
            return
        rel = [i for i, m in enumerate(self.model) if m[0] == 'R']
        if k == 'C' and rel:
            b = rel[n[1] % len(rel)]
            self.deps.add(b)
            self.real.append(PointCalc(self.real[b], n[2]))
            self.model.append(['C', b, n[2]])
            return
        x, y = n[-2:] if k in 'PRF' else (n[1], n[2])
        self.real.append(Point(x, y))
        self.model.append(['P', x, y])

    def val(self, i):
        m = self.model[i]
        if m[0] == 'P':
            return m[1], m[2]
        if m[0] == 'R':
            bx, by = self.val(m[1])
            return m[2] + bx, m[3] + by
        r = self.model[m[1]]
        bx, by = self.val(r[1])
        return m[2]*r[2] + bx, m[2]*r[3] + by

    def check(self, cx):
        vals = [self.val(i) for i in range(len(self.model))]
        tol = 1e-9 * mag(vals)
        for i, (p, e) in enumerate(zip(self.real, vals)):
            w = 'node %d %s' % (i, self.model[i][0])
            near_xy(p.xy(), e, tol, w + ' xy')
            near(p.x, e[0], tol, w + ' x')
            near(p.y, e[1], tol, w + ' y')
            near_xy(tuple(p), e, tol, w + ' iter')
            near_xy(p.v.xy(), e, tol, w + ' v')
            near_xy((-p).xy(), (-e[0], -e[1]), tol, w + ' neg')
            near_xy((p + Vector(1, 2)).xy(), (e[0]+1, e[1]+2), tol, w + ' add')
            near_xy((p - Vector(1, 2)).xy(), (e[0]-1, e[1]-2), tol, w + ' sub')
            near_xy((p - Point(1, 2)).xy(), (e[0]-1, e[1]-2), tol, w + ' diff')
            near_xy((Point(1, 2) - p).xy(), (1-e[0], 2-e[1]), tol, w + ' rdiff')
            near_xy(p.mid(Point(0, 0)).xy(), (e[0]/2, e[1]/2), tol, w + ' mid')
            near_xy(round(p, 9).xy(), e, tol + 1e-8, w + ' round')
            expect(p.close(Point(*e), 10*tol), '%s close', w)
        for v, a, b in self.vecs + self.vcopies:
            e = (vals[a][0]-vals[b][0], vals[a][1]-vals[b][1])
            self.check_vec(v, e, tol)
        for p, e in self.snaps:
            same(p.xy(), e, 'snapshot')

    @staticmethod
    def check_vec(v, e, tol):
        ln = math.hypot(*e)
        near_xy(v.xy(), e, tol, 'vec xy')
        near(v.x, e[0], tol, 'vec x')
        near(v.y, e[1], tol, 'vec y')
        near_xy(tuple(v), e, tol, 'vec iter')
        near_xy(v.p.xy(), e, tol, 'vec p')
        near(v.length(), ln, tol, 'vec length')
        near_xy((v + Vector(1, 2)).xy(), (e[0]+1, e[1]+2), tol, 'vec add')
        near_xy((Vector(1, 2) + v).xy(), (e[0]+1, e[1]+2), tol, 'vec radd')
        near_xy((v - Vector(1, 2)).xy(), (e[0]-1, e[1]-2), tol, 'vec sub')
        near_xy((v * 2).xy(), (e[0]*2, e[1]*2), tol*2, 'vec mul')
        near_xy((2 * v).xy(), (e[0]*2, e[1]*2), tol*2, 'vec rmul')
        near_xy((v / 2).xy(), (e[0]/2, e[1]/2), tol, 'vec div')
        near_xy((-v).xy(), (-e[0], -e[1]), tol, 'vec neg')
        near_xy((Point(1, 2) + v).xy(), (e[0]+1, e[1]+2), tol, 'pt + vec')
        near_xy((Point(1, 2) - v).xy(), (1-e[0], 2-e[1]), tol, 'pt - vec')
        near_xy(v.normal().xy(), (e[1], -e[0]), tol, 'vec normal')
        near_xy(v.rotate(90).xy(), (-e[1], e[0]), 2*tol, 'vec rotate')
        near(v.dot(Vector(3, -2)), 3*e[0] - 2*e[1], 5*tol, 'vec dot')
        near(v.cross(Vector(3, -2)), -2*e[0] - 3*e[1], 5*tol, 'vec cross')
        near_xy(v.fixed().xy(), e, tol, 'vec fixed')
        if ln > 1e-3:
            near_xy(v.unit().xy(), (e[0]/ln, e[1]/ln), 1e-9 + 4*tol/ln, 'vec unit')
            got = math.radians(v.angle())
            near_xy((math.cos(got), math.sin(got)), (e[0]/ln, e[1]/ln), 1e-9 + 4*tol/ln, 'vec angle')
            expect(bool(v), 'bool of non-zero relative vector')
        if max(abs(e[0]), abs(e[1])) == 0 and tuple(v.xy()) == (0, 0):
            expect(not v, 'bool of zero relative vector')


@R.facet(SPEC, n=700)
def history(s, cx):
    w = World(s)
    w.check(cx)
    edited = False
    for op in s['ops']:
        n = len(w.real)
        k = op[0]
        if k in ('set', 'setp'):
            plain = [i for i, m in enumerate(w.model) if m[0] == 'P']
            i = plain[op[1] % len(plain)]
            if k == 'set':
                w.real[i].setxy(op[2], op[3])
                w.model[i] = ['P', op[2], op[3]]
            else:
                j = op[2] % n
                v = w.real[j].xy()
                w.real[i].set(w.real[j])
                w.model[i] = ['P', v[0], v[1]]
            edited = edited or i in w.deps
        elif k == 'off':
            rel = [i for i, m in enumerate(w.model) if m[0] == 'R']
            if rel:
                i = rel[op[1] % len(rel)]
                w.real[i].dx, w.real[i].dy = op[2], op[3]
                w.model[i][2:] = [op[2], op[3]]
                edited = edited or i in w.deps
        elif k == 'scale':
            calc = [i for i, m in enumerate(w.model) if m[0] == 'C']
            if calc:
                i = calc[op[1] % len(calc)]
                w.real[i].scale = op[2]
                w.model[i][2] = op[2]
        elif k == 'snap':
            i = op[1] % n
            f = w.real[i].fixed()
            w.snaps.append((f, w.real[i].xy()))
        elif k == 'vsnap' and w.vecs:
            v = w.vecs[op[1] % len(w.vecs)][0]
            w.snaps.append((v.fixed(), v.xy()))
        elif k == 'copy':
            der = [i for i, m in enumerate(w.model) if m[0] in 'RC']
            if der:
                i = der[op[1] % len(der)]
                c = w.real[i].copy()
                expect(c == w.real[i], 'copy equal')
                w.real.append(c)
                w.model.append(list(w.model[i]))
                cx.label('copied')
        elif k == 'vcopy' and w.vecs:
            v, a, b = w.vecs[op[1] % len(w.vecs)]
            if w.model[a][0] != 'P' and w.model[b][0] != 'P':
                # the copy is made of copies of the end points, which follow the same bases
                ca, cb = w.real[a].copy(), w.real[b].copy()
                w.real.extend([ca, cb])
                w.model.extend([list(w.model[a]), list(w.model[b])])
                same(v.copy().xy(), v.xy(), 'vector copy')
                c = v.copy()
                # c's ends copy a and b as they are now: it follows the bases, but not offset edits of a and b
                w.vcopies.append((c, len(w.real)-2, len(w.real)-1))
        # a copied relative vector copies the offsets of its ends: forget it once offsets/scales change
        if k in ('off', 'scale'):
            w.vcopies = []
        w.check(cx)
    cx.nt(edited)
    cx.label('calc', any(m[0] == 'C' for m in w.model))
    cx.label('vec', bool(w.vecs))
    cx.label('edited-dep', edited)


@R.facet(st.tuples(C, C, C, C, SC, C, C).map(list), n=200)
def names_and_equality(s, cx):
    """Structural equality of derived points follows the parts; fixed() of a named point stays a plain point"""
    x, y, dx, dy, k, x2, y2 = s
    cx.nt((x, y) != (x2, y2))
    b1, b2 = Point(x, y), Point(x, y)
    r1, r2 = PointRelative(dx, dy, b1, 'n'), PointRelative(dx, dy, b2, 'n')
    c1, c2 = PointCalc(r1, k), PointCalc(r2, k)
    v1, v2 = VectorRelative(r1, b1), VectorRelative(r2, b2)
    expect(r1 == r2 and c1 == c2 and v1 == v2, 'structurally equal')
    b2.setxy(x2, y2)
    differ = (x, y) != (x2, y2)
    expect((r1 != r2) == differ, 'relative points differ when bases differ')
    expect((c1 != c2) == differ, 'calculated points differ when bases differ')
    expect((v1 != v2) == differ, 'relative vectors differ when ends differ')
    f = r1.fixed()
    same(type(f), Point, 'fixed type')
    b1.setxy(x2, y2)
    same(f.xy(), (dx + x, dy + y), 'fixed value')


LAST = gen.one_of(st.just(-1), st.just(-1), st.just(-1), IDX)
LINK = gen.one_of(st.tuples(st.just('R'), LAST, C, C).map(list), st.tuples(st.just('C'), LAST, SC).map(list))


@R.facet(st.fixed_dictionaries(dict(
    nodes=st.tuples(C, C, st.lists(LINK, min_size=3, max_size=10)).map(lambda v: [['P', v[0], v[1]]] + v[2]),
    vecs=st.lists(st.tuples(LAST, IDX).map(list), max_size=2), ops=st.lists(OP, min_size=1, max_size=8))), n=300)
def chains(s, cx):
    """Long chains, mostly each link on the one before"""
    history(s, cx)
