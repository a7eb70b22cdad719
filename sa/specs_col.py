"""Bounding volumes and triangle tests (col: intersection and containment; vol: construction, transformation, corners, planes)."""
from dsl import *
from specs_vec import dot, cross, xform, qmul, conj
from specs_mat import from_quat, det4, minor, Z, ONE
from specs_quat import from_matrix

P = "collision::"
SP, BX, OB, FR, TT = P + "BoundingSphere::", P + "BoundingBox::", P + "BoundingOrientedBox::", P + "BoundingFrustum::", P + "triangle_tests::"
RAYEPS = 1e-20
FMAX = bits32(0x7F7FFFFF)
OFFS = [(-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1), (-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1)]
OPT = dict(limit=120)


def col(*names):
    return spec("col", *names, **OPT)


def vol(*names):
    return spec("vol", *names, **OPT)


def Q(out=None, **kw):
    return R(out, mode=kw.pop("mode", "atomic"), **kw)


# ------------------------------------------------------------------ vector helpers (lists of three words)
def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def mul(a, s):
    return [x * s for x in a]


def d3(a, b):
    return dot(a, b, 3)


def lsq(a):
    return dot(a, a, 3)


def rot(v, q):
    return qmul(qmul(q, list(v[:3]) + [Z]), conj(q))[:3]


def irot(v, q):
    return qmul(qmul(conj(q), list(v[:3]) + [Z]), q)[:3]


def mmin(xs):
    r = xs[0]
    for x in xs[1:]:
        r = vmin(r, x)
    return r


def mmax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = vmax(r, x)
    return r


def ints(c, a, b):
    a = a if isinstance(a, W) else W(const(32, a))
    b = b if isinstance(b, W) else W(const(32, b))
    return W(mk_ite(c.t, a.t, b.t))


def contain(disjoint, inside):
    """0 DISJOINT, 1 INTERSECTS, 2 CONTAINS"""
    return ints(disjoint, 0, ints(inside, 2, 1))


def inout(inside):
    return ints(inside, 2, 0)


def side(front, back):
    """0 FRONT, 1 INTERSECTING, 2 BACK"""
    return ints(front, 0, ints(back, 2, 1))


class Sph:
    def __init__(s, A, i):
        w = A.words(i, 4)
        s.c, s.r = w[:3], w[3]


class Box:
    def __init__(s, A, i):
        w = A.words(i, 6)
        s.c, s.e = w[:3], w[3:]


class Obb:
    def __init__(s, A=None, i=None, box=None):
        if box is not None:
            s.c, s.e, s.q = box.c, box.e, [Z, Z, Z, ONE]
            return
        w = A.words(i, 10)
        s.c, s.e, s.q = w[:3], w[3:6], w[6:]


class Fru:
    def __init__(s, A, i):
        w = A.words(i, 13)
        s.o, s.q = w[:3], w[3:7]
        s.right, s.left, s.top, s.bottom, s.near, s.far = w[7:]

    def slopes(s):
        """edge directions right-top, right-bottom, left-top, left-bottom"""
        return [[s.right, s.top, ONE], [s.right, s.bottom, ONE], [s.left, s.top, ONE], [s.left, s.bottom, ONE]]

    def local(s):
        return [mul(d, k) for k in (s.near, s.far) for d in s.slopes()]

    def world(s):
        return [add(rot(c, s.q), s.o) for c in s.local()]

    def axes(s):
        """local outward normals: near, far, right, left, top, bottom"""
        return [[Z, Z, lit(-1.0)], [Z, Z, ONE], [ONE, Z, -s.right], [lit(-1.0), Z, s.left], [Z, ONE, -s.top], [Z, lit(-1.0), s.bottom]]

    def dists(s):
        """n.p <= dist inside"""
        return [-s.near, s.far, Z, Z, Z, Z]

    def planes(s):
        """local (n, d) with n.p + d <= 0 inside"""
        return [n + [-d] for n, d in zip(s.axes(), s.dists())]

    def wplanes(s):
        """normalised planes in world space, and the condition under which the normals have a direction"""
        out, care = [], TRUE
        for p in s.planes():
            n = rot(p, s.q)
            d = p[3] - d3(n, s.o)
            l = lsq(n)
            care = care & (l > 0)
            out.append([x / l.sqrt() for x in n + [d]])
        return out, care


def pt(p, pl):
    return d3(p, pl) + pl[3]


def planes6(A, i):
    return [A.v(i + k) for k in range(6)]


def sph_plane(s, p):
    d = pt(s.c, p)
    return d > s.r, d < -s.r


def box_plane(b, p):
    d = pt(b.c, p)
    r = d3(b.e, [abs(x) for x in p[:3]])
    return d > r, d < -r


def obb_plane(b, p):
    m = from_quat(b.q)
    d = pt(b.c, p)
    r = d3(b.e, [abs(d3(p, m[i])) for i in range(3)])
    return d > r, d < -r


def pts_plane(ps, p):
    ds = [d3(p, x) for x in ps]
    return mmin(ds) > -p[3], mmax(ds) < -p[3]


def tri_plane(ps, p):
    ds = [pt(x, p) for x in ps]
    return mmin(ds) > 0, mmax(ds) < 0


def six(f, x, planes):
    rs = [f(x, p) for p in planes]
    return contain(anyb([r[0] for r in rs]), allb([r[1] for r in rs]))


# ------------------------------------------------------------------ planes
def _mk_planes():
    for pre, mk, f in ((SP, Sph, sph_plane), (BX, Box, box_plane), (OB, Obb, obb_plane), (FR, None, pts_plane)):
        def obj(A, mk=mk):
            return Fru(A, 0).world() if mk is None else mk(A, 0)

        @col(pre + "IntersectsPlane")
        def _(A, f=f, obj=obj):
            return Q(side(*f(obj(A), A.v(1))), note="side of the plane on which the whole volume lies")

        @col(pre + "ContainedBy")
        def _(A, f=f, obj=obj):
            return Q(six(f, obj(A), planes6(A, 1)), note="disjoint if wholly in front of one plane, contained if wholly behind all six")


_mk_planes()


@col(TT + "IntersectsPlane")
def _(A):
    return Q(side(*tri_plane([A.v(0), A.v(1), A.v(2)], A.v(3))), note="side of the plane on which all three vertices lie")


@col(TT + "ContainedBy")
def _(A):
    return Q(six(tri_plane, [A.v(0), A.v(1), A.v(2)], planes6(A, 3)), note="disjoint if all vertices are in front of one plane, contained if all are behind all six")


# ------------------------------------------------------------------ sphere
@col(SP + "ContainsPoint")
def _(A):
    s = Sph(A, 0)
    return Q(inout(lsq(sub(A.v(1)[:3], s.c)) <= s.r * s.r), note="distance to the centre at most the radius")


@col(SP + "ContainsSphere")
def _(A):
    a, b = Sph(A, 0), Sph(A, 1)
    d = lsq(sub(b.c, a.c)).sqrt()
    return Q(contain(a.r + b.r < d, a.r - b.r >= d), note="centre distance against sum and difference of radii")


@col(SP + "IntersectsSphere")
def _(A):
    a, b = Sph(A, 0), Sph(A, 1)
    r = a.r + b.r
    return Q(lsq(sub(b.c, a.c)) <= r * r, note="centre distance at most the sum of radii")


def seg_near(a, b, p):
    """point of the segment a..b nearest to p, and the condition that it is not degenerate"""
    d = sub(b, a)
    pr = d3(p, d) - d3(a, d)
    l = lsq(d)
    t = pr / l
    return [(pr > l).ite(y, (pr < 0).ite(x, t * z + x)) for x, y, z in zip(a, b, d)], l > 0


def sph_tri(s, v):
    v0, v1, v2 = v
    n = cross(sub(v1, v0), sub(v2, v0))[:3]
    l = lsq(n)
    n = [x / l.sqrt() for x in n]
    dist = d3(sub(s.c, v0), n)
    p = [c - x * dist for c, x in zip(s.c, n)]
    nn = cross(sub(v2, v0), sub(v1, v0))[:3]
    ins = allb([d3(cross(sub(p, a), sub(b, a))[:3], nn) >= 0 for a, b in ((v0, v1), (v1, v2), (v2, v0))])
    care = l > 0
    hit = ins
    for a, b in ((v0, v1), (v1, v2), (v2, v0)):
        q, c = seg_near(a, b, s.c)
        care = care & c
        hit = hit | (lsq(sub(s.c, q)) <= s.r * s.r)
    return hit & ~((dist < -s.r) | (dist > s.r)), care


def tri(A, i):
    return [A.v(i + k)[:3] for k in range(3)]


@col(SP + "IntersectsTriangle")
def _(A):
    h, care = sph_tri(Sph(A, 0), tri(A, 1))
    return Q(h, care=care, note="nearest point of the triangle within the radius")


@col(SP + "ContainsTriangle")
def _(A):
    s, t = Sph(A, 0), tri(A, 1)
    h, care = sph_tri(s, t)
    return Q(contain(~h, allb([lsq(sub(v, s.c)) <= s.r * s.r for v in t])), care=care, note="disjoint unless they intersect, contained if all vertices are")


def clampd(c, lo, hi, dlo, dhi):
    return (c > hi).ite(dhi, (c < lo).ite(dlo, 0.0))


def proper(b):
    return allb([e >= 0 for e in b.e])


def box_sph(b, s):
    d = [clampd(x, c - e, c + e, x - (c - e), x - (c + e)) for x, c, e in zip(s.c, b.c, b.e)]
    return lsq(d) <= s.r * s.r


def obb_sph(b, s):
    p = irot(sub(s.c, b.c), b.q)
    d = [clampd(x, -e, e, x + e, x - e) for x, e in zip(p, b.e)]
    return lsq(d) <= s.r * s.r


def box_corners(b):
    return [[e * float(o) + c for e, o, c in zip(b.e, os, b.c)] for os in OFFS]


def obb_corners(b):
    return [add(rot([e * float(o) for e, o in zip(b.e, os)], b.q), b.c) for os in OFFS]


def ball(s, ps):
    return allb([lsq(sub(p, s.c)) <= s.r * s.r for p in ps])


@col(SP + "ContainsBox")
def _(A):
    s, b = Sph(A, 0), Box(A, 1)
    return Q(contain(~box_sph(b, s), ball(s, box_corners(b))), care=proper(b), note="disjoint unless they intersect, contained if all corners are")


@col(SP + "ContainsOrientedBox")
def _(A):
    s, b = Sph(A, 0), Obb(A, 1)
    return Q(contain(~obb_sph(b, s), ball(s, obb_corners(b))), care=proper(b), note="disjoint unless they intersect, contained if all corners are")


@col(SP + "ContainsFrustum")
def _(A):
    s, f = Sph(A, 0), Fru(A, 1)
    h, care = fru_sph(f, s)
    return Q(contain(~h, ball(s, f.world())), care=care, note="disjoint unless they intersect, contained if all corners are")


@col(SP + "IntersectsBox")
def _(A):
    return Q(box_sph(Box(A, 1), Sph(A, 0)), care=proper(Box(A, 1)), note="nearest box point within the radius")


@col(SP + "IntersectsOrientedBox")
def _(A):
    return Q(obb_sph(Obb(A, 1), Sph(A, 0)), care=proper(Obb(A, 1)), note="nearest box point within the radius")


@col(SP + "IntersectsFrustum")
def _(A):
    h, c = fru_sph(Fru(A, 1), Sph(A, 0))
    return Q(h, care=c, note="nearest frustum point within the radius")


@col(SP + "IntersectsRay")
def _(A):
    s, o, d = Sph(A, 0), A.v(1)[:3], A.v(2)[:3]
    l = sub(s.c, o)
    p, l2, r2 = d3(l, d), lsq(l), s.r * s.r
    m2 = l2 - p * p
    hit = ~(((p < 0) & (l2 > r2)) | (m2 > r2))
    q = (r2 - m2).sqrt()
    return Q(hit, a3=[hit.ite((l2 <= r2).ite(p + q, p - q), 0.0)], note="nearest non-negative root along the ray; 0 when missed")


# ------------------------------------------------------------------ axis-aligned box
def inb(p, e):
    return allb([abs(x) <= y for x, y in zip(p, e)])


@col(BX + "ContainsPoint")
def _(A):
    b = Box(A, 0)
    return Q(inout(allb([(x - c <= e) & (x - c >= -e) for x, c, e in zip(A.v(1), b.c, b.e)])), note="within the extents of the centre on all axes")


def box_tri(b, t):
    v0, v1, v2 = t
    lo, hi = sub(b.c, b.e), add(b.c, b.e)
    no = FALSE
    for i in range(3):
        no = no | (mmin([v[i] for v in t]) > hi[i]) | (lo[i] > mmax([v[i] for v in t]))
    n = cross(sub(v1, v0), sub(v2, v0))[:3]
    dist = d3(n, v0)
    mn = d3([(n[i] > 0).ite(lo[i], hi[i]) for i in range(3)], n)
    mx = d3([(n[i] > 0).ite(hi[i], lo[i]) for i in range(3)], n)
    no = no | (mn > dist) | (mx < dist)
    tv = [sub(v, b.c) for v in t]
    for i in range(3):
        for a, c in ((v0, v1), (v1, v2), (v2, v0)):
            e = sub(c, a)
            ax = [Z, Z, Z]
            ax[(i + 1) % 3], ax[(i + 2) % 3] = -e[(i + 2) % 3], e[(i + 1) % 3]
            ps = [d3(v, ax) for v in tv]
            r = d3(b.e, [abs(x) for x in ax])
            no = no | (mmin(ps) > r) | (mmax(ps) < -r)
    return ~no


@col(BX + "IntersectsTriangle")
def _(A):
    return Q(box_tri(Box(A, 0), tri(A, 1)), note="no separating axis among box axes, triangle normal and the nine edge products")


@col(BX + "ContainsTriangle")
def _(A):
    b, t = Box(A, 0), tri(A, 1)
    return Q(contain(~box_tri(b, t), allb([inb(sub(v, b.c), b.e) for v in t])), note="disjoint unless they intersect, contained if all vertices are")


@col(BX + "IntersectsSphere")
def _(A):
    return Q(box_sph(Box(A, 0), Sph(A, 1)), care=proper(Box(A, 0)), note="nearest box point within the radius")


@col(BX + "ContainsSphere")
def _(A):
    b, s = Box(A, 0), Sph(A, 1)
    ins = allb([(c - e + s.r <= x) & (x <= c + e - s.r) & (e + e > s.r) for x, c, e in zip(s.c, b.c, b.e)])
    return Q(contain(~box_sph(b, s), ins), care=proper(b), note="disjoint unless they intersect, contained if the centre is a radius inside every face")


def box_box(a, b):
    no = FALSE
    for i in range(3):
        no = no | (a.c[i] - a.e[i] > b.c[i] + b.e[i]) | (b.c[i] - b.e[i] > a.c[i] + a.e[i])
    return ~no


@col(BX + "IntersectsBox")
def _(A):
    return Q(box_box(Box(A, 0), Box(A, 1)), note="intervals overlap on all axes")


@col(BX + "ContainsBox")
def _(A):
    a, b = Box(A, 0), Box(A, 1)
    ins = allb([(a.c[i] - a.e[i] <= b.c[i] - b.e[i]) & (b.c[i] + b.e[i] <= a.c[i] + a.e[i]) for i in range(3)])
    return Q(contain(~box_box(a, b), ins), note="disjoint, nested or overlapping intervals")


@col(BX + "IntersectsOrientedBox")
def _(A):
    return Q(obb_obb(Obb(A, 1), Obb(box=Box(A, 0))), note="no separating axis among the fifteen")


@col(BX + "ContainsOrientedBox")
def _(A):
    a, b = Box(A, 0), Obb(A, 1)
    return Q(contain(~obb_obb(b, Obb(box=a)), allb([inb(sub(p, a.c), a.e) for p in obb_corners(b)])), note="disjoint unless they intersect, contained if all corners are")


@col(BX + "IntersectsFrustum")
def _(A):
    return Q(fru_obb(Fru(A, 1), Obb(box=Box(A, 0))), note="no separating axis")


@col(BX + "ContainsFrustum")
def _(A):
    a, f = Box(A, 0), Fru(A, 1)
    return Q(contain(~fru_obb(f, Obb(box=a)), allb([inb(sub(p, a.c), a.e) for p in f.world()])), note="disjoint unless they intersect, contained if all corners are")


def slab(o, d, e):
    """o: centre relative to the ray origin, d: direction, both in the box frame"""
    par = [abs(x) <= RAYEPS for x in d]
    t1 = [(a - b) * (1.0 / x) for a, b, x in zip(o, e, d)]
    t2 = [(a + b) * (1.0 / x) for a, b, x in zip(o, e, d)]
    lo = mmax([p.ite(-FMAX, vmin(a, b)) for p, a, b in zip(par, t1, t2)])
    hi = mmin([p.ite(FMAX, vmax(a, b)) for p, a, b in zip(par, t1, t2)])
    no = (lo > hi) | (hi < 0)
    for p, a, b in zip(par, o, e):
        no = no | (p & ~((a <= b) & (a >= -b)))
    return ~no, [(~no).ite(lo, 0.0)]


@col(BX + "IntersectsRay")
def _(A):
    b = Box(A, 0)
    h, t = slab(sub(b.c, A.v(1)[:3]), A.v(2)[:3], b.e)
    return Q(h, a3=t, note="latest entry before earliest exit over the three slabs; parallel axes must overlap")


# ------------------------------------------------------------------ oriented box
@col(OB + "ContainsPoint")
def _(A):
    b = Obb(A, 0)
    p = irot(sub(A.v(1)[:3], b.c), b.q)
    return Q(inout(allb([(x <= e) & (x >= -e) for x, e in zip(p, b.e)])), note="within the extents in the box frame")


class _L:
    pass


def obb_local_tri(b, t):
    o = _L()
    o.c, o.e = [Z, Z, Z], b.e
    return o, [irot(sub(v, b.c), b.q) for v in t]


@col(OB + "IntersectsTriangle")
def _(A):
    o, t = obb_local_tri(Obb(A, 0), tri(A, 1))
    return Q(box_tri(o, t), note="no separating axis, in the box frame")


@col(OB + "ContainsTriangle")
def _(A):
    o, t = obb_local_tri(Obb(A, 0), tri(A, 1))
    return Q(contain(~box_tri(o, t), allb([inb(v, o.e) for v in t])), note="disjoint unless they intersect, contained if all vertices are")


@col(OB + "IntersectsSphere")
def _(A):
    return Q(obb_sph(Obb(A, 0), Sph(A, 1)), care=proper(Obb(A, 0)), note="nearest box point within the radius")


@col(OB + "ContainsSphere")
def _(A):
    b, s = Obb(A, 0), Sph(A, 1)
    p = irot(sub(s.c, b.c), b.q)
    ins = allb([(x - s.r <= e) & (x - s.r >= -e) & (x + s.r <= e) & (x + s.r >= -e) for x, e in zip(p, b.e)])
    return Q(contain(~obb_sph(b, s), ins), care=proper(b), note="disjoint unless they intersect, contained if the sphere's bounds are")


def obb_obb(a, b):
    m = from_quat(qmul(conj(b.q), a.q))
    t = irot(sub(b.c, a.c), a.q)
    ab = [[abs(m[i][j]) for j in range(3)] for i in range(3)]
    no = FALSE
    for i in range(3):
        no = no | (abs(t[i]) > a.e[i] + sum_([b.e[j] * ab[i][j] for j in range(3)]))
    for j in range(3):
        no = no | (abs(sum_([t[i] * m[i][j] for i in range(3)])) > b.e[j] + sum_([a.e[i] * ab[i][j] for i in range(3)]))
    for i in range(3):
        for j in range(3):
            i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
            no = no | (abs(t[i2] * m[i1][j] - t[i1] * m[i2][j]) > a.e[i1] * ab[i2][j] + a.e[i2] * ab[i1][j] + b.e[j1] * ab[i][j2] + b.e[j2] * ab[i][j1])
    return ~no


def sum_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


@col(OB + "IntersectsOrientedBox")
def _(A):
    return Q(obb_obb(Obb(A, 0), Obb(A, 1)), note="no separating axis among the fifteen")


@col(OB + "IntersectsBox")
def _(A):
    return Q(obb_obb(Obb(A, 0), Obb(box=Box(A, 1))), note="no separating axis among the fifteen")


def obb_in(a, ps):
    r = []
    for p in ps:
        q = irot(sub(p, a.c), a.q)
        r.append(allb([(x <= e) & (x >= -e) for x, e in zip(q, a.e)]))
    return allb(r)


@col(OB + "ContainsOrientedBox")
def _(A):
    a, b = Obb(A, 0), Obb(A, 1)
    return Q(contain(~obb_obb(a, b), obb_in(a, obb_corners(b))), note="disjoint unless they intersect, contained if all corners are")


@col(OB + "ContainsBox")
def _(A):
    a, b = Obb(A, 0), Obb(box=Box(A, 1))
    return Q(contain(~obb_obb(a, b), obb_in(a, obb_corners(b))), note="disjoint unless they intersect, contained if all corners are")


@col(OB + "IntersectsFrustum")
def _(A):
    return Q(fru_obb(Fru(A, 1), Obb(A, 0)), note="no separating axis")


@col(OB + "ContainsFrustum")
def _(A):
    a, f = Obb(A, 0), Fru(A, 1)
    return Q(contain(~fru_obb(f, a), obb_in(a, f.world())), note="disjoint unless they intersect, contained if all corners are")


@col(OB + "IntersectsRay")
def _(A):
    b = Obb(A, 0)
    m = from_quat(b.q)
    o, d = sub(b.c, A.v(1)[:3]), A.v(2)[:3]
    h, t = slab([d3(m[i], o) for i in range(3)], [d3(m[i], d) for i in range(3)], b.e)
    return Q(h, a3=t, note="latest entry before earliest exit over the three slabs of the box frame")


# ------------------------------------------------------------------ frustum
@col(FR + "ContainsPoint")
def _(A):
    f = Fru(A, 0)
    p = irot(sub(A.v(1)[:3], f.o), f.q)
    return Q(inout(~anyb([pt(p, pl) > 0 for pl in f.planes()])), note="not in front of any of the six planes")


def _mk_fru():
    for nm, mk, f in (("Sphere", Sph, sph_plane), ("Box", Box, box_plane), ("OrientedBox", Obb, obb_plane), ("Frustum", None, pts_plane), ("Triangle", 1, tri_plane)):
        @col(FR + "Contains" + nm)
        def _(A, mk=mk, f=f):
            pl, care = Fru(A, 0).wplanes()
            x = Fru(A, 1).world() if mk is None else tri(A, 1) if mk == 1 else mk(A, 1)
            return Q(six(f, x, pl), care=care, note="the volume against the six world-space planes of the frustum")


_mk_fru()

ADJ = [(2, 3, 4, 5), (2, 3, 4, 5), (0, 1, 4, 5), (0, 1, 4, 5), (0, 1, 2, 3), (0, 1, 2, 3)]
EDGES = [(0, 1), (2, 3), (0, 2), (1, 3), (4, 5), (6, 7), (4, 6), (5, 7), (0, 4), (1, 5), (2, 6), (3, 7)]


def fru_sph(f, s):
    pl = []
    for p in f.planes():
        l = lsq(p)
        pl.append([x / l.sqrt() for x in p[:3]] + [p[3]])
    c = irot(sub(s.c, f.o), f.q)
    ds = [pt(c, p) for p in pl]
    out = anyb([d > s.r for d in ds])
    hit = allb([d <= -s.r for d in ds]) | allb([d <= 0 for d in ds])
    for i in range(6):
        q = [x - n * ds[i] for x, n in zip(c, pl[i])]
        hit = hit | ((ds[i] > 0) & allb([pt(q, pl[j]) <= 0 for j in ADJ[i]]))
    co = f.local()
    care = TRUE
    for a, b in EDGES:
        q, k = seg_near(co[a], co[b], c)
        care = care & k
        hit = hit | (lsq(sub(c, q)) <= s.r * s.r)
    return ~out & hit, care


@col(FR + "IntersectsSphere")
def _(A):
    h, c = fru_sph(Fru(A, 0), Sph(A, 1))
    return Q(h, care=c, note="nearest frustum point within the radius")


def edge_axes(sl):
    rt, rb, lt, lb = sl
    return [rt, rb, lt, lb, sub(rt, lt), sub(lb, lt)]


def fru_obb(f, b):
    c = irot(sub(b.c, f.o), f.q)
    m = from_quat(qmul(conj(f.q), b.q))
    co = f.local()
    out, ins, cen = FALSE, TRUE, TRUE
    for p in f.planes():
        d = pt(c, p)
        r = d3(b.e, [abs(d3(p, m[i])) for i in range(3)])
        out, ins, cen = out | (d > r), ins & (d <= -r), cen & (d <= 0)
    sep = FALSE
    for i in range(3):
        ds = [d3(x, m[i]) for x in co]
        bd = d3(c, m[i])
        sep = sep | (mmin(ds) > bd + b.e[i]) | (mmax(ds) < bd - b.e[i])
    for i in range(3):
        for e in edge_axes(f.slopes()):
            ax = cross(m[i][:3], e)[:3]
            ds = [d3(ax, x) for x in co]
            d = d3(c, ax)
            r = d3(b.e, [abs(d3(ax, m[k])) for k in range(3)])
            sep = sep | (d > mmax(ds) + r) | (d < mmin(ds) - r)
    return ~out & (ins | cen | ~sep)


@col(FR + "IntersectsOrientedBox")
def _(A):
    return Q(fru_obb(Fru(A, 0), Obb(A, 1)), note="no separating axis among planes, box axes and edge products")


@col(FR + "IntersectsBox")
def _(A):
    return Q(fru_obb(Fru(A, 0), Obb(box=Box(A, 1))), note="no separating axis among planes, box axes and edge products")


@col(FR + "IntersectsFrustum")
def _(A):
    b, a = Fru(A, 0), Fru(A, 1)
    o = irot(sub(a.o, b.o), b.q)
    q = qmul(conj(b.q), a.q)
    sa = [rot(x, q) for x in a.slopes()]
    ca = [add(mul(x, k), o) for k in (a.near, a.far) for x in sa]
    cb = b.local()
    out, ins = FALSE, TRUE
    for ax, pd in zip(b.axes(), b.dists()):
        ds = [d3(ax, x) for x in ca]
        out, ins = out | (mmin(ds) > pd), ins & (mmax(ds) <= pd)
    aa = [rot(x, q) for x in a.axes()]
    pda = [d3(aa[0], ca[0]), d3(aa[1], ca[4])] + [d3(aa[i], o) for i in range(2, 6)]
    sep = FALSE
    for ax, pd in zip(aa, pda):
        sep = sep | (mmin([d3(ax, x) for x in cb]) > pd)
    for ea in edge_axes(sa):
        for eb in edge_axes(b.slopes()):
            ax = cross(ea, eb)[:3]
            da, db = [d3(ax, x) for x in ca], [d3(ax, x) for x in cb]
            sep = sep | (mmin(da) > mmax(db)) | (mmin(db) > mmax(da))
    return Q(~out & (ins | ~sep), note="no separating axis among both frusta's planes and the edge products")


@col(FR + "IntersectsTriangle")
def _(A):
    f = Fru(A, 0)
    t = [irot(sub(v, f.o), f.q) for v in tri(A, 1)]
    out, ins = FALSE, TRUE
    for ax, pd in zip(f.axes(), f.dists()):
        ds = [d3(v, ax) for v in t]
        out, ins = out | (mmin(ds) > pd), ins & (mmax(ds) <= pd)
    co = f.local()
    n = cross(sub(t[1], t[0]), sub(t[2], t[0]))[:3]
    ds, d = [d3(x, n) for x in co], d3(n, t[0])
    sep = (mmin(ds) > d) | (mmax(ds) < d)
    for e in (sub(t[1], t[0]), sub(t[2], t[1]), sub(t[0], t[2])):
        for g in edge_axes(f.slopes()):
            ax = cross(e, g)[:3]
            da, db = [d3(v, ax) for v in t], [d3(ax, x) for x in co]
            sep = sep | (mmin(da) > mmax(db)) | (mmin(db) > mmax(da))
    return Q(~out & (ins | ~sep), note="no separating axis among frustum planes, triangle normal and edge products")


def fru_ray(f, o, d, active):
    p = irot(sub(o, f.o), f.q)
    inside = ~anyb([pt(p, pl) > 0 for pl in f.planes()])
    pls, care = f.wplanes()
    pl = []
    for k, p in enumerate(pls):
        vn, vd = pt(o, p), d3(p, d)
        t = -vn / vd
        if k in active:         # generic position: the origin on no plane, no two crossings at the same distance
            care = care & vd.ne(RAYEPS) & vd.ne(-RAYEPS) & vn.ne(0) & t.ne(FMAX) & t.ne(-FMAX) & allb([t.ne(pl[x][2]) for x in active if x < k])
        pl.append((vn, vd, t))

    def pick(c, a, b):
        return c.iteb(a[0], b[0]), c.ite(a[1], b[1])
    no = FALSE, lit(0.0)

    def go(i, near, far):
        """(hit, distance) from plane i on, with latest entry and earliest exit so far"""
        if i == len(pl):
            x = (near >= 0).ite(near, far)
            return x >= 0, (x >= 0).ite(x, 0.0)
        vn, vd, t = pl[i]
        keep = go(i + 1, near, far)
        r = keep
        if i in active:
            r = pick(vd < 0, pick(t > far, no, go(i + 1, vmax(t, near), far)), pick(t < near, no, go(i + 1, near, vmin(t, far))))
        return pick(abs(vd) <= RAYEPS, pick(vn > 0, no, keep), r)
    hit, dist = go(0, -FMAX, FMAX)
    return inside | hit, inside.ite(0.0, dist), care


@col(FR + "IntersectsRay")
def _(A):
    # The orientation is a third of a turn about (1,1,1): local x, y, z are world y, z, x.
    # Families of rays and frusta with at most three planes not parallel to the ray.
    h = lit(0.5)
    dx, dy, dz = A.w(2, 1), A.w(2, 2), A.w(2, 0)
    flat = {"right": Z, "left": Z, "top": Z, "bottom": Z}
    rs = []
    for (x, y, z), fixed, active in (
            ((Z, Z, dz), flat, (0, 1)), ((dx, Z, Z), {}, (2, 3)), ((Z, dy, Z), {}, (4, 5)),
            ((dx, Z, dz), dict(flat, left=dx / dz, right=None), (0, 1, 2)), ((dx, Z, dz), dict(flat, right=dx / dz, left=None), (0, 1, 3)),
            ((Z, dy, dz), dict(flat, bottom=dy / dz, top=None), (0, 1, 4)), ((Z, dy, dz), dict(flat, top=dy / dz, bottom=None), (0, 1, 5)),
            ((dx, Z, dz), {"top": Z, "bottom": Z}, (0, 1, 2, 3)), ((Z, dy, dz), {"right": Z, "left": Z}, (0, 1, 4, 5)), ((dx, dy, Z), {}, (2, 3, 4, 5))):
        f, o, d = Fru(A, 0), A.v(1)[:3], [z, x, y]
        f.q = [h] * 4
        m = {("a0", 3 + i): h for i in range(4)}
        for k, v in fixed.items():
            if v is not None:
                setattr(f, k, v)
                m[("a0", {"right": 7, "left": 8, "top": 9, "bottom": 10}[k])] = v
        for i in range(3):
            m[("a2", i)] = d[i]
        hit, dist, care = fru_ray(f, o, d, active)
        if z is dz and x is not y:
            care = care & dz.ne(0)
        rs.append(Q(hit, a3=[dist], mode="real", care=care, assume=m, note="0 from inside; otherwise latest entry, or exit if the entry lies behind the origin"))
    rs[0].also = rs[1:]
    return rs[0]


# ------------------------------------------------------------------ triangles
@col(TT + "IntersectsRay")
def _(A):
    o, d = A.v(0)[:3], A.v(1)[:3]
    v0, v1, v2 = tri(A, 2)
    e1, e2 = sub(v1, v0), sub(v2, v0)
    p = cross(d, e2)[:3]
    det = d3(e1, p)
    s = sub(o, v0)
    u, q = d3(s, p), cross(s, e1)[:3]
    v, t = d3(d, q), d3(e2, q)
    pos = ~((u < 0) | (u > det) | (v < 0) | (u + v > det) | (t < 0))
    neg = ~((u > 0) | (u < det) | (v > 0) | (u + v < det) | (t > 0))
    hit = (det >= RAYEPS).iteb(pos, (det <= -RAYEPS) & neg)
    return Q(hit, a5=[hit.ite(t / det, 0.0)], note="barycentric coordinates inside the triangle and distance not negative; 0 when missed")


@col(TT + "IntersectsTriangle")
def _(A):
    a, b = tri(A, 0), tri(A, 3)

    def plane(x):
        return cross(sub(x[1], x[0]), sub(x[2], x[0]))[:3]
    n1, n2 = plane(a), plane(b)

    def signs(n, pts, o):
        ds = [d3(n, sub(p, o)) for p in pts]
        z = [abs(x) < RAYEPS for x in ds]
        ds = [zz.ite(0.0, x) for zz, x in zip(z, ds)]
        return z, [x < 0 for x in ds], [x > 0 for x in ds]
    bz, bl, bg = signs(n1, b, a[0])
    az, al, ag = signs(n2, a, b[0])
    no = allb(bl) | allb(bg) | allb(al) | allb(ag)
    cop = allb(az) | allb(bz)
    cno = FALSE
    for n, t, u in ((n1, a, b), (n2, b, a)):
        for i in range(3):
            ax = cross(n, sub(t[(i + 1) % 3], t[i]))[:3]
            cno = cno | (mmin([d3(x, ax) for x in u]) >= d3(ax, t[i]))

    def arrange(t, z, l, g):
        """(condition, vertex alone on its side, its two successors in the order that makes the side positive)"""
        le, ge = [x | y for x, y in zip(l, z)], [x | y for x, y in zip(g, z)]
        out = []
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            out.append(((ge[i] & l[j] & l[k]) | (g[i] & le[j] & le[k]), t[i], t[j], t[k], True))
            out.append(((le[i] & g[j] & g[k]) | (l[i] & ge[j] & ge[k]), t[i], t[k], t[j], False))
        return out
    res = FALSE
    ra, rb = arrange(a, az, al, ag), arrange(b, bz, bl, bg)
    for ca, a0, a1, a2, pa in reversed(ra):
        inner = FALSE
        for cb, b0, b1, b2, pb in reversed(rb):
            x, y = (b0, a0) if pa != pb else (a0, b0)
            t0 = d3(sub(x, y), cross(sub(b2, b0), sub(a2, a0))[:3])
            t1 = d3(sub(y, x), cross(sub(b1, b0), sub(a1, a0))[:3])
            inner = cb.iteb(~(t0 > 0) & ~(t1 > 0), inner)
        res = ca.iteb(inner, res)
    return Q(~no & cop.iteb(~cno, res), note="plane sides, then interval overlap on the common line, or edge separation for co-planar triangles")


# ------------------------------------------------------------------ construction and transformation
def _def(ty, ws):
    @spec("vol", "<%s%s as std::default::Default>::default" % (P, ty))
    def _(A):
        return R([lit(x) for x in ws], mode="exact", note="all fields zero")


_def("BoundingSphere", [0] * 4)
_def("BoundingBox", [0] * 6)
_def("BoundingOrientedBox", [0] * 10)
_def("BoundingFrustum", [0] * 13)


def _clone(ty, n):
    @spec("vol", "<%s%s as std::clone::Clone>::clone" % (P, ty))
    def _(A):
        return R(A.words(0, n), mode="exact", note="copy")


for _t, _n in (("ContainmentType", 1), ("PlaneIntersectionType", 1)):
    _clone(_t, _n)


def minmax(ps):
    lo = [mmin([p[i] for p in ps]) for i in range(3)]
    hi = [mmax([p[i] for p in ps]) for i in range(3)]
    return lo, hi


def ce(ps):
    lo, hi = minmax(ps)
    return [(a + b) * 0.5 for a, b in zip(lo, hi)] + [(b - a) * 0.5 for a, b in zip(lo, hi)]


def points(A, i, n):
    w = A.words(i, 3 * n)
    return [w[3 * k:3 * k + 3] for k in range(n)]


def npts(A):
    return A.args[1]["size"] // 12


def positions(n):
    """the positions of a list that are tried in turn: all of a short one, around the powers of two of a long one"""
    return [i for i in range(n) if n < 20 or i < 2 or i > n - 3 or any(abs(i - (1 << k)) < 2 for k in range(4, 16))]


def each_point(A, n, f):
    """for long lists: one obligation per position, where every other point equals the first (or, for the first, the last)"""
    ps, rs = points(A, 1, n), []
    for i in positions(n):
        j = 0 if i else n - 1
        rs.append(f([ps[k] if k == i else ps[j] for k in range(n)],
                    dict(assume={("a1", 3 * k + c): ("a1", 3 * j + c) for k in range(n) if k not in (i, j) for c in range(3)})))
    rs[0].also = rs[1:]
    return rs[0]


@vol(BX + "GetCorners")
def _(A):
    return Q(a1=sum(box_corners(Box(A, 0)), []), note="centre +- extents, documented order")


@vol(OB + "GetCorners")
def _(A):
    return Q(a1=sum(obb_corners(Obb(A, 0)), []), note="rotated extents around the centre, documented order")


@vol(FR + "GetCorners")
def _(A):
    w = Fru(A, 0).world()
    return Q(a1=sum([w[i] for i in (2, 0, 1, 3, 6, 4, 5, 7)], []), note="slopes times near and far, rotated and moved")


@vol(FR + "GetPlanes")
def _(A):
    pl, care = Fru(A, 0).wplanes()
    kw = {}
    for i in range(6):
        if A.args[i + 1]["kind"] == "mut":
            kw["a%d" % (i + 1)] = pl[i]
    return Q(care=care, note="outward normalised world planes; absent outputs skipped", **kw)


def rowscale(m):
    return mmax([lsq(m[i]) for i in range(3)]).sqrt()


@vol(SP + "TransformMatrix")
def _(A):
    s, m = Sph(A, 0), A.m(2)
    return Q(a1=xform(s.c, m, 3, True)[:3] + [s.r * rowscale(m)], note="centre transformed, radius by the largest row length")


def dec(c, A):
    return add(rot([x * A.f(2) for x in c], A.v(3)), A.v(4)[:3])


@vol(SP + "TransformDecomposed")
def _(A):
    s = Sph(A, 0)
    return Q(a1=dec(s.c, A) + [s.r * A.f(2)], note="scaled, rotated, moved")


@vol(BX + "TransformMatrix")
def _(A):
    m = A.m(2)
    return Q(a1=ce([xform(p, m, 3, True)[:3] for p in box_corners(Box(A, 0))]), note="bounds of the transformed corners")


@vol(BX + "TransformDecomposed")
def _(A):
    return Q(a1=ce([dec(p, A) for p in box_corners(Box(A, 0))]), note="bounds of the transformed corners")


def mquat(m):
    """quaternions (accepted formulas) of the normalised upper rows"""
    care = TRUE
    rows = []
    for i in range(3):
        l = lsq(m[i])
        care = care & (l > 0)
        rows.append([x / l.sqrt() for x in m[i][:3]])
    return [(q, care & c) for q, c in (from_matrix(rows, n) for n in (True, False))]


@vol(OB + "TransformMatrix")
def _(A):
    b, m = Obb(A, 0), A.m(2)
    return [Q(a1=xform(b.c, m, 3, True)[:3] + [e * lsq(m[i]).sqrt() for i, e in enumerate(b.e)] + qmul(q, b.q), care=c,
              note="centre transformed, extents by the row lengths, orientation composed") for q, c in mquat(m)]


@vol(OB + "TransformDecomposed")
def _(A):
    b = Obb(A, 0)
    return Q(a1=dec(b.c, A) + [e * A.f(2) for e in b.e] + qmul(A.v(3), b.q), note="scaled, rotated, moved")


@vol(FR + "TransformMatrix")
def _(A):
    f, m = Fru(A, 0), A.m(2)
    k = rowscale(m)
    return [Q(a1=xform(f.o, m, 3, True)[:3] + qmul(q, f.q) + [f.right, f.left, f.top, f.bottom, f.near * k, f.far * k], care=c,
              note="origin transformed, depths by the largest row length, orientation composed") for q, c in mquat(m)]


@vol(FR + "TransformDecomposed")
def _(A):
    f = Fru(A, 0)
    return Q(a1=dec(f.o, A) + qmul(A.v(3), f.q) + [f.right, f.left, f.top, f.bottom, f.near * A.f(2), f.far * A.f(2)], note="scaled, rotated, moved")


@vol(FR + "CreateFromMatrix")
def _(A):
    m = A.m(1)
    d = det4(m)
    inv = [[None] * 4 for _ in range(4)]
    for i in range(4):
        for j in range(4):
            c = minor(m, j, i)
            inv[i][j] = (-c if (i + j) % 2 else c) / d
    care = d.ne(0)
    ps = []
    for k, h in enumerate(((1, 0, 1, 1), (-1, 0, 1, 1), (0, 1, 1, 1), (0, -1, 1, 1), (0, 0, 0, 1), (0, 0, 1, 1))):
        v = [sum_([inv[i][c] * float(h[i]) for i in range(4)]) for c in range(4)]
        w = v[2] if k < 4 else v[3]
        care = care & w.ne(0)
        ps.append([x / w for x in v])
    rh = A.boolean(2)
    return Q(a0=[Z, Z, Z, Z, Z, Z, ONE, ps[0][0], ps[1][0], ps[2][1], ps[3][1], rh.ite(ps[5][2], ps[4][2]), rh.ite(ps[4][2], ps[5][2])],
             care=care, note="slopes and depths of the unprojected clip volume")


@vol(BX + "CreateFromPoints")
def _(A):
    n = npts(A)
    if n == 0:
        return R(a0=[None] * 6, mode="exact", note="no points: unconstrained")
    if n > 3:
        return each_point(A, n, lambda ps, kw: Q(a0=ce(ps), note="bounds of the points", **kw))
    return Q(a0=ce(points(A, 1, n)), note="bounds of the points")


@vol(BX + "CreateFromSphere")
def _(A):
    s = Sph(A, 1)
    return Q(a0=s.c + [s.r] * 3, leak=True, note="cube around the sphere")


@vol(BX + "CreateMerged")
def _(A):
    a, b = Box(A, 1), Box(A, 2)
    return Q(a0=ce([sub(a.c, a.e), sub(b.c, b.e)])[:0] + merged(a, b), note="bounds of both boxes")


def merged(a, b):
    lo = [vmin(x - e, y - g) for x, e, y, g in zip(a.c, a.e, b.c, b.e)]
    hi = [vmax(x + e, y + g) for x, e, y, g in zip(a.c, a.e, b.c, b.e)]
    return [(x + y) * 0.5 for x, y in zip(lo, hi)] + [(y - x) * 0.5 for x, y in zip(lo, hi)]


@vol(OB + "CreateFromBoundingBox")
def _(A):
    b = Box(A, 1)
    return R(a0=b.c + b.e + [Z, Z, Z, ONE], mode="exact", note="same box, identity orientation")


@vol(SP + "CreateFromBoundingBox")
def _(A):
    b = Box(A, 1)
    return Q(a0=b.c + [lsq(b.e).sqrt()], note="circumscribed sphere")


@vol(SP + "CreateFromBoundingOrientedBox")
def _(A):
    b = Obb(A, 1)
    return Q(a0=b.c + [lsq(b.e).sqrt()], note="circumscribed sphere")


@vol(SP + "CreateMerged")
def _(A):
    a, b = Sph(A, 1), Sph(A, 2)
    v = sub(b.c, a.c)
    d = lsq(v).sqrt()
    touch, in1, in2 = a.r + b.r >= d, a.r - b.r >= d, b.r - a.r >= d
    t1, t2 = vmin(-a.r, d - b.r), vmax(a.r, d + b.r)
    h = (t2 - t1) * 0.5
    m = [x + (y / d) * (h + t1) for x, y in zip(a.c, v)] + [h]
    w1, w2 = a.c + [a.r], b.c + [b.r]
    return Q(a0=[(touch & in1).ite(x, (touch & in2).ite(y, z)) for x, y, z in zip(w1, w2, m)], care=d > 0, note="the larger sphere if it contains the other, else the sphere spanning both")


def ritter(ps):
    ext = []
    for i in range(3):
        lo = hi = ps[0]
        for p in ps[1:]:
            c, e = p[i] < lo[i], p[i] > hi[i]
            lo, hi = [c.ite(x, y) for x, y in zip(p, lo)], [e.ite(x, y) for x, y in zip(p, hi)]
        ext.append((lo, hi, lsq(sub(hi, lo)).sqrt()))
    (x0, x1, dx), (y0, y1, dy), (z0, z1, dz) = ext
    cx, cy = (dx > dy) & (dx > dz), ~(dx > dy) & (dy > dz)

    def pick(a, b, c):
        return cx.ite(a, cy.ite(b, c))
    c = [pick((a + b) * 0.5, (e + f) * 0.5, (g + h) * 0.5) for a, b, e, f, g, h in zip(x0, x1, y0, y1, z0, z1)]
    r = pick(dx, dy, dz) * 0.5
    for p in ps:
        dl = sub(p, c)
        d = lsq(dl).sqrt()
        far = d > r
        nr = (r + d) * 0.5
        c = [far.ite(x + (1.0 - nr / d) * y, x) for x, y in zip(c, dl)]
        r = far.ite(nr, r)
    return c + [r]


@vol(SP + "CreateFromPoints")
def _(A):
    n = npts(A)
    if n == 0:
        return R(a0=[None] * 4, mode="exact", note="no points: unconstrained")
    if n > 3:
        # a segment from (-14,0,0) to (14,0,0) and, at each position in turn, one point 15 from its middle (which is not
        # the far end along any axis); the remaining points are copies of the segment's start
        a, b, c = (-14.0, 0.0, 0.0), (14.0, 0.0, 0.0), (-9.0, 12.0, 0.0)
        rs = []
        for i in range(n) if n < 12 else (0, 1, n // 2, n - 2, n - 1):
            l = n - 1 if i != n - 1 else n - 2
            ps = [c if k == i else b if k == l else a for k in range(n)]
            rs.append(Q(a0=ritter([[lit(x) for x in p] for p in ps]), mode="real", note="Ritter's sphere of %d points, point %d outside the first guess" % (n, i),
                        assume={("a1", 3 * k + j): lit(p[j]) for k, p in enumerate(ps) for j in range(3)}))
            ps = [b if k == i else a for k in range(n)]
            rs.append(Q(a0=[lit(0.0), lit(0.0), lit(0.0), lit(14.0)], mode="real", note="sphere around the segment to point %d of %d" % (i, n),
                        assume={("a1", 3 * k + j): lit(p[j]) for k, p in enumerate(ps) for j in range(3)}))
        rs[0].also = rs[1:]
        return rs[0]
    ps = points(A, 1, n)
    care = allb([ps[i][k].ne(ps[j][k]) for i in range(n) for j in range(i) for k in range(3)]) if n > 1 else None
    return Q(a0=ritter(ps), care=care, note="Ritter's sphere")


@vol(OB + "CreateFromPoints")
def _(A):
    n = npts(A)
    if n == 0:
        return R(a0=[None] * 10, mode="exact", note="no points: unconstrained")
    q = x, y, z, w = [A.old("cut", i) for i in range(4)]
    m = [[1.0 - (y * y + z * z) * 2.0, (x * y + z * w) * 2.0, (x * z - y * w) * 2.0],
         [(x * y - z * w) * 2.0, 1.0 - (x * x + z * z) * 2.0, (y * z + x * w) * 2.0],
         [(x * z + y * w) * 2.0, (y * z - x * w) * 2.0, 1.0 - (x * x + y * y) * 2.0]]
    rs = []
    for fwd, back in ((lambda v: rot(v, q), lambda v: irot(v, q)),
                      (lambda v: [d3(v, [r[i] for r in m]) for i in range(3)], lambda v: [d3(v, r) for r in m])):
        def one(ps, kw):
            b = ce([back(p) for p in ps])
            return Q(a0=fwd(b[:3]) + b[3:] + [None] * 4, cut={("a0", 6 + i): i for i in range(4)},
                     note="centre and extents bound the points in the frame of the stored orientation", **kw)
        rs.append(each_point(A, n, one) if n > 3 else one(points(A, 1, n), {}))
    return rs


@vol(SP + "CreateFromFrustum")
def _(A):
    # The orientation is a third of a turn about (1,1,1); a proper frustum around its axis.
    f = Fru(A, 1)
    h = lit(0.5)
    f.q = [h] * 4
    pos = [f.near, f.far, f.far - f.near, f.right, -f.left, f.top, -f.bottom]
    for hi, lo in ((f.right, f.left), (f.top, f.bottom)):
        vs = [hi * f.far, hi * f.near, lo * f.near, lo * f.far]
        pos += [vs[i] - vs[j] for i in range(4) for j in range(i + 1, 4)]
    w = f.world()
    return Q(a0=ritter([w[i] for i in (2, 0, 1, 3, 6, 4, 5, 7)]), mode="real", assume={("a1", 3 + i): h for i in range(4)}, positive=pos, note="Ritter's sphere of the corners")
