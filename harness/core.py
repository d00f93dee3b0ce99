"""
Facets: one executable statement about generated inputs.

A property's check module (checks/cNN.py) holds `R = Registry('CNN', rule)` and functions decorated with
`@R.facet(strategy, n=...)`.  The strategy generates a JSON-serialisable *spec*; the function builds real objects
from the spec, exercises the code under test through its public interface and raises on disagreement with the
oracle.  A spec alone is therefore a complete, library-independent reproduction (see --replay).
"""
import contextlib
import hashlib
import json
import math


class Violation(AssertionError):
    pass


class Cx(object):
    """Per-case context: classification of the generated case"""
    __slots__ = ('nontrivial', 'labels')

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def nt(self, cond=True):
        """Mark the case non-trivial"""
        if cond:
            self.nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.append(str(name))


class Facet(object):
    def __init__(self, name, strategy, fn, n, thorough):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.n = n
        self.thorough = thorough


class Registry(object):
    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.facets = []
        self.findings = []

    def facet(self, strategy, n=200, thorough=None):
        def deco(fn):
            self.facets.append(Facet(fn.__name__, strategy, fn, n, thorough or n * 40))
            return fn
        return deco


def spec_hash(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------------------------------------------
# Comparison helpers.  All raise Violation, which is an AssertionError.

def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def near(a, b, tol, what=''):
    """|a-b| <= tol (absolute); NaN never near"""
    a = float(a)
    b = float(b)
    if not (abs(a - b) <= tol):
        raise Violation('%s: got %r, expected %r (tol %.3g)' % (what, a, b, tol))


def near_xy(p, q, tol, what=''):
    px, py = p
    qx, qy = q
    if not (abs(px - qx) <= tol and abs(py - qy) <= tol):
        raise Violation('%s: got (%r, %r), expected (%r, %r) (tol %.3g)' % (what, px, py, qx, qy, tol))


def near_pts(ps, qs, tol, what=''):
    ps = [tuple(p) for p in ps]
    qs = [tuple(q) for q in qs]
    if len(ps) != len(qs):
        raise Violation('%s: %d points, expected %d' % (what, len(ps), len(qs)))
    for i, (p, q) in enumerate(zip(ps, qs)):
        near_xy(p, q, tol, '%s[%d]' % (what, i))


def same(a, b, what=''):
    if not (a == b):
        raise Violation('%s: got %r, expected %r' % (what, a, b))


def raises(exc, fn, what=''):
    try:
        got = fn()
    except exc:
        return
    except Exception as err:
        raise Violation('%s: raised %r, expected %r' % (what, err, exc))
    raise Violation('%s: returned %r, expected %r' % (what, got, exc))


UNIT = [1.0]


@contextlib.contextmanager
def unit(f):
    """Geometry within is of size f instead of 1: tolerances derived from magnitudes are smaller or larger accordingly"""
    was = UNIT[0]
    UNIT[0] = float(f)
    try:
        yield
    finally:
        UNIT[0] = was


def mag(*vals):
    """1 (or the unit) + largest magnitude among numbers / nested sequences"""
    one = UNIT[0]
    m = one
    todo = list(vals)
    while todo:
        v = todo.pop()
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            if math.isfinite(v):
                m = max(m, one + abs(v))
        elif isinstance(v, dict):
            todo.extend(v.values())
        elif isinstance(v, (list, tuple)):
            todo.extend(v)
        elif hasattr(v, 'xy'):
            todo.extend(v.xy())
    return m
