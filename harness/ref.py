"""
Reference models, written from the documentation and independent of the code under test.

A reference matrix is a 6-tuple (a, b, c, d, e, f):  x' = a*x + b*y + c ;  y' = d*x + e*y + f
"""
import math

IDENT = (1.0, 0.0, 0.0, 0.0, 1.0, 0.0)


def mul(m, n):
    """m after n"""
    a, b, c, d, e, f = m
    g, h, i, j, k, l = n
    return (a*g + b*j, a*h + b*k, a*i + b*l + c,
            d*g + e*j, d*h + e*k, d*i + e*l + f)


def ap(m, p):
    a, b, c, d, e, f = m
    x, y = p
    return a*x + b*y + c, d*x + e*y + f


def ap_list(m, ps):
    return [ap(m, p) for p in ps]


def inv(m):
    a, b, c, d, e, f = m
    det = a*e - b*d
    ia, ib, id_, ie = e/det, -b/det, -d/det, a/det
    return ia, ib, -(ia*c + ib*f), id_, ie, -(id_*c + ie*f)


def det(m):
    return m[0]*m[4] - m[1]*m[3]


def translate(dx, dy):
    return 1.0, 0.0, dx, 0.0, 1.0, dy


def scale(sx, sy):
    return sx, 0.0, 0.0, 0.0, sy, 0.0


def rot(deg):
    """counter-clockwise rotation"""
    r = math.radians(deg)
    c, s = math.cos(r), math.sin(r)
    return c, -s, 0.0, s, c, 0.0


def about(deg_ccw, cx, cy):
    return mul(translate(cx, cy), mul(rot(deg_ccw), translate(-cx, -cy)))


def norm(m):
    """Largest stretch (Frobenius bound)"""
    return math.sqrt(m[0]**2 + m[1]**2 + m[3]**2 + m[4]**2)


def shift(m):
    return abs(m[2]) + abs(m[5])


def bern(p0, p1, p2, p3, t):
    s = 1 - t
    w = (s*s*s, 3*s*s*t, 3*s*t*t, t*t*t)
    return (sum(wi*p[0] for wi, p in zip(w, (p0, p1, p2, p3))),
            sum(wi*p[1] for wi, p in zip(w, (p0, p1, p2, p3))))


def bern_d(p0, p1, p2, p3, t):
    """Derivative"""
    s = 1 - t
    d = [(q[0]-p[0], q[1]-p[1]) for p, q in ((p0, p1), (p1, p2), (p2, p3))]
    w = (3*s*s, 6*s*t, 3*t*t)
    return sum(wi*p[0] for wi, p in zip(w, d)), sum(wi*p[1] for wi, p in zip(w, d))


def sample(seg, n):
    """n+1 points of one segment (p0..p3)"""
    return [bern(*seg, i/n) for i in range(n+1)]


def segs_of(cps, closed):
    """Control polygon segments of control points given as (c, l, r) xy triples (absolute handle ends)"""
    out = []
    pairs = list(zip(cps, cps[1:] + (cps if closed else [])))
    for (c0, _l0, r0), (c1, l1, _r1) in pairs:
        out.append((c0, r0, l1, c1))
    return out


def path_of(cps, closed, n):
    """Sampled path, joints not repeated"""
    pts = []
    for seg in segs_of(cps, closed):
        s = sample(seg, n)
        pts.extend(s[1:] if pts else s)
    return pts


def shoelace(pts):
    """Signed area, >0 for CCW"""
    n = len(pts)
    return sum(pts[i][0]*pts[(i+1) % n][1] - pts[i][1]*pts[(i+1) % n][0] for i in range(n)) / 2


def bez_area(segs):
    """Exact signed area enclosed by closed cubic segments (Green)"""
    total = 0.0
    for (x0, y0), (x1, y1), (x2, y2), (x3, y3) in segs:
        total += (x0*(6*y1 + 3*y2 + y3) + x1*(-6*y0 + 3*y2 + 3*y3)
                  + x2*(-3*y0 - 3*y1 + 6*y3) + x3*(-y0 - 3*y1 - 6*y2)) / 20
    return total


def poly_len(pts):
    return sum(math.dist(p, q) for p, q in zip(pts, pts[1:]))


def dist_pt_seg(p, a, b):
    ax, ay = a
    bx, by = b
    dx, dy = bx-ax, by-ay
    dd = dx*dx + dy*dy
    if dd == 0:
        return math.dist(p, a)
    t = max(0.0, min(1.0, ((p[0]-ax)*dx + (p[1]-ay)*dy)/dd))
    return math.dist(p, (ax+t*dx, ay+t*dy))


def dist_pt_path(p, pts):
    return min(dist_pt_seg(p, a, b) for a, b in zip(pts, pts[1:]))


def inside_poly(p, pts):
    """Even-odd rule"""
    x, y = p
    res = False
    n = len(pts)
    for i in range(n):
        x0, y0 = pts[i]
        x1, y1 = pts[(i+1) % n]
        if (y0 > y) != (y1 > y):
            if x < x0 + (y-y0)*(x1-x0)/(y1-y0):
                res = not res
    return res


def box(pts):
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return min(xs), min(ys), max(xs), max(ys)


BEZ_90 = 4/3 * math.tan(math.radians(90/4))
