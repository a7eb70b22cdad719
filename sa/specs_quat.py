"""Quaternion (quat) and plane (plane) specifications."""
from dsl import *
from llir import T
from specs_vec import rep, dot, pad, cross, xform, qmul, conj, near, EPS
from specs_mat import det3, from_quat, quat_rpy, sc, Z, ONE, mmul, rotx, roty, rotz

OME = 1.0 - 0.00001


@spec("quat", "XMQuaternionEqual")
def _(A):
    return R(allb([x.eq(y) for x, y in zip(A.v(0), A.v(1))]), mode="exact", note="all four components equal")


@spec("quat", "XMQuaternionNotEqual")
def _(A):
    return R(anyb([x.ne(y) for x, y in zip(A.v(0), A.v(1))]), mode="exact", note="some component differs")


@spec("quat", "XMQuaternionIsNaN")
def _(A):
    return R(anyb([x.isnan() for x in A.v(0)]), mode="exact", note="some component is NaN")


@spec("quat", "XMQuaternionIsInfinite")
def _(A):
    return R(anyb([x.isinf() for x in A.v(0)]), mode="exact", note="some component is infinite")


@spec("quat", "XMQuaternionIsIdentity")
def _(A):
    return R(allb([x.eq(y) for x, y in zip(A.v(0), (0.0, 0.0, 0.0, 1.0))]), mode="exact", note="equals (0,0,0,1)")


@spec("quat", "XMQuaternionIdentity")
def _(A):
    return R([Z, Z, Z, ONE], mode="exact", note="(0,0,0,1)")


@spec("quat", "XMQuaternionDot")
def _(A):
    return R(rep(dot(A.v(0), A.v(1), 4)), note="4D dot")


@spec("quat", "XMQuaternionMultiply")
def _(A):
    return R(qmul(A.v(1), A.v(0)), note="Q2*Q1: rotation Q1 followed by Q2")


@spec("quat", "XMQuaternionLengthSq")
def _(A):
    q = A.v(0)
    return R(rep(dot(q, q, 4)), note="length squared")


@spec("quat", "XMQuaternionLength")
def _(A):
    q = A.v(0)
    return R(rep(dot(q, q, 4).sqrt()), note="length")


@spec("quat", "XMQuaternionReciprocalLength")
def _(A):
    q = A.v(0)
    l = dot(q, q, 4)
    return R(rep(1.0 / l.sqrt()), care=l > 0, note="1/length")


@spec("quat", "XMQuaternionNormalize", "XMQuaternionNormalizeEst")
def _(A):
    q = A.v(0)
    l = dot(q, q, 4)
    return R([x / l.sqrt() for x in q], care=l > 0, note="unit quaternion of the same direction")


@spec("quat", "XMQuaternionConjugate")
def _(A):
    return R(conj(A.v(0)), note="vector part negated")


def qinv(q):
    l = dot(q, q, 4)
    z = l <= EPS
    return [z.ite(0.0, x / l) for x in conj(q)]


@spec("quat", "XMQuaternionInverse")
def _(A):
    return R(qinv(A.v(0)), note="conjugate / length squared; zero for a (near) zero quaternion")


def qln(q):
    w = q[3]
    th = fn("acos", w)
    s = th / fn("sin", th)
    inb = (w <= OME) & (w >= -OME)
    return [inb.ite(x * s, x) for x in q[:3]] + [Z]


def qexp(q):
    th = dot(q, q, 3).sqrt()
    s = fn("sin", th) / th
    nz = abs(th) <= EPS
    return [nz.ite(x, x * s) for x in q[:3]] + [fn("cos", th)]


@spec("quat", "XMQuaternionLn")
def _(A):
    w = A.v(0)[3]
    sn = fn("sin", fn("acos", w))
    return R(qln(A.v(0)), care=sn.ne(0), note="logarithm of a unit quaternion")


@spec("quat", "XMQuaternionExp")
def _(A):
    return R(qexp(A.v(0)), note="exponential of a pure quaternion")


def slerp(q0, q1, t):
    c = dot(q0, q1, 4)
    sg = (c < 0).ite(-1.0, 1.0)
    c = c * sg
    sn = (1.0 - c * c).sqrt()
    om = fn("atan2", sn, c)
    u = 1.0 - t
    lt = c < OME
    s0 = lt.ite(fn("sin", u * om) / sn, u)
    s1 = lt.ite(fn("sin", t * om) / sn, t) * sg
    return [a * s0 + b * s1 for a, b in zip(q0, q1)]


def lanes_eq(i):
    return {("a%d" % i, k): ("a%d" % i, 0) for k in (1, 2, 3)}


@spec("quat", "XMQuaternionSlerp")
def _(A):
    return R(slerp(A.v(0), A.v(1), A.f(2)), note="shortest-arc spherical interpolation")


@spec("quat", "XMQuaternionSlerpV")
def _(A):
    return R(slerp(A.v(0), A.v(1), A.w(2)), assume=lanes_eq(2), note="shortest-arc spherical interpolation")


def squad(q0, q1, q2, q3, t):
    return slerp(slerp(q0, q3, t), slerp(q1, q2, t), (t - t * t) * 2.0)


@spec("quat", "XMQuaternionSquad")
def _(A):
    return R(squad(A.v(0), A.v(1), A.v(2), A.v(3), A.f(4)), note="spherical quadrangle interpolation")


@spec("quat", "XMQuaternionSquadV")
def _(A):
    return R(squad(A.v(0), A.v(1), A.v(2), A.v(3), A.w(4)), assume=lanes_eq(4), note="spherical quadrangle interpolation")


def bary(q0, q1, q2, f, g, eps, strict):
    s = f + g
    near0 = ((s < eps) & (s > -eps)) if strict else ((s <= eps) & (s >= -eps))
    r = slerp(slerp(q0, q1, s), slerp(q0, q2, s), g / s)
    return [near0.ite(a, b) for a, b in zip(q0, r)]


@spec("quat", "XMQuaternionBaryCentric")
def _(A):
    return R(bary(A.v(0), A.v(1), A.v(2), A.f(3), A.f(4), lit(0.00001), True), note="barycentric combination of rotations")


@spec("quat", "XMQuaternionBaryCentricV")
def _(A):
    m = lanes_eq(3)
    m.update(lanes_eq(4))
    return R(bary(A.v(0), A.v(1), A.v(2), A.w(3), A.w(4), lit(1.0 / 65536), False), assume=m, note="barycentric combination of rotations")


@spec("quat", "XMQuaternionSquadSetup")
def _(A):
    q0, q1, q2, q3 = A.v(3), A.v(4), A.v(5), A.v(6)

    def ls(a, b, s):
        d = [x + y if s > 0 else x - y for x, y in zip(a, b)]
        return dot(d, d, 4)

    def flip(ref, q):
        c = ls(ref, q, 1) < ls(ref, q, -1)
        return [c.ite(-x, x) for x in q]
    s2 = flip(q1, q2)
    c0 = ls(q0, q1, 1) < ls(q0, q1, -1)
    s0 = [c0.ite(-x, x) for x in q0]
    s3 = flip(s2, q3)

    def mul(a, b):      # XMQuaternionMultiply(a, b)
        return qmul(b, a)

    def inner(q, a, b):
        i = qinv(q)
        l = [(x + y) * -0.25 for x, y in zip(qln(mul(i, a)), qln(mul(i, b)))]
        return mul(q, qexp(l))
    return R(a0=inner(q1, s0, s2), a1=inner(s2, q1, s3), a2=s2, note="intermediate control points")


@spec("quat", "XMQuaternionRotationRollPitchYaw")
def _(A):
    return R(quat_rpy(A.f(0), A.f(1), A.f(2)), note="roll about z, then pitch about x, then yaw about y")


@spec("quat", "XMQuaternionRotationRollPitchYawFromVector")
def _(A):
    return R(quat_rpy(*A.v(0)[:3]), note="roll about z, then pitch about x, then yaw about y")


def axisq(n, a):
    s, c = sc(a * 0.5)
    return [x * s for x in n[:3]] + [c]


@spec("quat", "XMQuaternionRotationNormal")
def _(A):
    return R(axisq(A.v(0), A.f(1)), note="(n sin(a/2), cos(a/2))")


@spec("quat", "XMQuaternionRotationAxis")
def _(A):
    v = A.v(0)
    l = dot(v, v, 3)
    return R(axisq([x / l.sqrt() for x in v[:3]], A.f(1)), care=l > 0, note="(n sin(a/2), cos(a/2)), n the normalised axis")


@spec("quat", "XMQuaternionToAxisAngle")
def _(A):
    q = A.v(2)
    return R(a0=q[:3] + [None], a1=[2.0 * fn("acos", q[3])], note="axis = vector part, angle = 2 acos w")


def tensor(m):
    """rows 4*q_i*q of the quaternion of a rotation matrix (row-vector convention)"""
    d = [[1.0 + m[0][0] - m[1][1] - m[2][2]], [1.0 - m[0][0] + m[1][1] - m[2][2]], [1.0 - m[0][0] - m[1][1] + m[2][2]], [1.0 + m[0][0] + m[1][1] + m[2][2]]]
    x2, y2, z2, w2 = [r[0] for r in d]
    xy, xz, yz = m[0][1] + m[1][0], m[0][2] + m[2][0], m[1][2] + m[2][1]
    xw, yw, zw = m[1][2] - m[2][1], m[2][0] - m[0][2], m[0][1] - m[1][0]
    return [[x2, xy, xz, xw], [xy, y2, yz, yw], [xz, yz, z2, zw], [xw, yw, zw, w2]]


def from_matrix(m, norm):
    t = tensor(m)
    a, b, c = m[2][2] <= 0, m[1][1] - m[0][0] <= 0, m[1][1] + m[0][0] <= 0

    def row(i):
        if norm:
            l = dot(t[i], t[i], 4).sqrt()
            return [x / l for x in t[i]]
        l = t[i][i].sqrt() * 2.0
        return [x / l for x in t[i]]
    r = [row(i) for i in range(4)]
    care = a.iteb(b.iteb(t[0][0] > 0, t[1][1] > 0), c.iteb(t[2][2] > 0, t[3][3] > 0))
    return [a.ite(b.ite(r[0][k], r[1][k]), c.ite(r[2][k], r[3][k])) for k in range(4)], care


@spec("quat", "XMQuaternionRotationMatrix")
def _(A):
    m = A.m(0)
    out = []
    for n in (True, False):
        r, care = from_matrix(m, n)
        out.append(R(r, care=care, note="row of 4 q q^T with the largest diagonal, normalised"))
    return out


# ------------------------------------------------------------------ planes
@spec("plane", "XMPlaneEqual")
def _(A):
    return R(allb([x.eq(y) for x, y in zip(A.v(0), A.v(1))]), mode="exact", note="all four coefficients equal")


@spec("plane", "XMPlaneNotEqual")
def _(A):
    return R(anyb([x.ne(y) for x, y in zip(A.v(0), A.v(1))]), mode="exact", note="some coefficient differs")


@spec("plane", "XMPlaneIsNaN")
def _(A):
    return R(anyb([x.isnan() for x in A.v(0)]), mode="exact", note="some coefficient is NaN")


@spec("plane", "XMPlaneIsInfinite")
def _(A):
    return R(anyb([x.isinf() for x in A.v(0)]), mode="exact", note="some coefficient is infinite")


@spec("plane", "XMPlaneDot")
def _(A):
    return R(rep(dot(A.v(0), A.v(1), 4)), note="4D dot")


@spec("plane", "XMPlaneDotCoord")
def _(A):
    p = A.v(0)
    return R(rep(dot(p, A.v(1), 3) + p[3]), note="n.x + d")


@spec("plane", "XMPlaneDotNormal")
def _(A):
    return R(rep(dot(A.v(0), A.v(1), 3)), note="n.x")


def pnorm(p):
    l = dot(p, p, 3)
    return [x / l.sqrt() for x in p], l > 0


@spec("plane", "XMPlaneNormalize", "XMPlaneNormalizeEst")
def _(A):
    r, c = pnorm(A.v(0))
    return R(r, care=c, note="coefficients divided by the normal's length")


@spec("plane", "XMPlaneNearEqual")
def _(A):
    a, ca = pnorm(A.v(0))
    b, cb = pnorm(A.v(1))
    return R(allb([abs(x - y) <= e for x, y, e in zip(a, b, A.v(2))]), care=ca & cb, note="normalised coefficients within epsilon")


QNAN = bits32(0x7FC00000)


@spec("plane", "XMPlaneIntersectLine")
def _(A):
    p, a, b = A.v(0), A.v(1), A.v(2)
    d = dot(p, a, 3) - dot(p, b, 3)
    t = (dot(p, a, 3) + p[3]) / d
    par = abs(d) <= EPS
    return R([W(mk_ite(par.t, QNAN.t, (a[i] + (b[i] - a[i]) * t).t)) for i in range(3)] + [None], note="intersection point; NaN when parallel")


@spec("plane", "XMPlaneIntersectPlane")
def _(A):
    p, q = A.v(2), A.v(3)
    v = cross(q, p)
    l = dot(v, v, 3)
    e, f = cross(q, v), cross(v, p)
    par = l <= EPS
    o1 = [W(mk_ite(par.t, QNAN.t, ((e[i] * p[3] + f[i] * q[3]) / l).t)) for i in range(3)]
    o2 = [W(mk_ite(par.t, QNAN.t, ((e[i] * p[3] + f[i] * q[3]) / l + v[i]).t)) for i in range(3)]
    return R(a0=o1 + [None], a1=o2 + [None], note="two points of the intersection line; NaN when parallel")


@spec("plane", "XMPlaneTransform")
def _(A):
    return R(xform(A.v(0), A.m(1), 4, False), note="p M")


@spec("plane", "XMPlaneFromPointNormal")
def _(A):
    p, n = A.v(0), A.v(1)
    return R(n[:3] + [-dot(p, n, 3)], note="(n, -n.p)")


@spec("plane", "XMPlaneFromPoints")
def _(A):
    a, b, c = A.v(0), A.v(1), A.v(2)
    n = cross([x - y for x, y in zip(a, b)], [x - y for x, y in zip(a, c)])
    l = dot(n, n, 3)
    n = [x / l.sqrt() for x in n[:3]]
    return R(n + [-dot(n, a, 3)], care=l > 0, note="plane through three points")


@spec("plane", "XMFresnelTerm")
def _(A):
    out = []
    for c, n in zip(A.v(0), A.v(1)):
        g = abs(c * c + n * n - 1.0).sqrt()
        r = 0.5 * ((g - c) * (g - c)) / ((g + c) * (g + c)) * ((c * (g + c) - 1.0) * (c * (g + c) - 1.0) / ((c * (g - c) + 1.0) * (c * (g - c) + 1.0)) + 1.0)
        out.append(((r < 1).ite(r, 1.0), (g + c).ne(0) & (c * (g - c) + 1.0).ne(0)))
    return R(out, note="Fresnel reflectance, clamped to [0,1]")


# ------------------------------------------------------------------ decomposition
def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def _unit(v):
    l = dot(v, v, 3).sqrt()
    return [x / l for x in v]


def _free(i):
    return W(T.mk("in", 32, "free", 4 * i))


def _rotation(B, norm):
    q, qc = from_matrix([r + [Z] for r in B] + [[Z, Z, Z, ONE]], norm)
    return q, qc & B[2][2].ne(0) & (B[1][1] - B[0][0]).ne(0) & (B[1][1] + B[0][0]).ne(0)


def _completed(A, order, norm, u, n, cc, pos):
    """one axis of any direction u (length n), the other two below the threshold: completed by a perpendicular to the axis's least component"""
    eps = lit(0.0001)
    a, b, c = order
    k = [None] * 3
    k[a], k[b], k[c] = n, _free(1), _free(2)
    pos = pos + [n, k[b], k[c], n - k[b], n - k[c], k[b] - k[c], n - eps, eps - k[b], eps - k[c]]
    m = {("a3", 4 * i + j): (u[j] if i == a else k[i] if j == 0 else Z) for i in range(3) for j in range(3)}
    B = [None] * 3
    B[a] = [t / n for t in u]
    B[b] = _unit(cross3(B[a], [ONE if i == cc else Z for i in range(3)]))
    B[c] = cross3(B[a], B[b])
    if order in ((0, 2, 1), (1, 0, 2), (2, 1, 0)):
        k[a] = -k[a]
        B[a] = [-t for t in B[a]]
    q, qc = _rotation(B, norm)
    return R(TRUE, a0=k + [Z], a1=[(t, qc) for t in q], a2=A.m(3)[3], assume=m, positive=pos, leak=True, note="scale, rotation and translation; two axes completed")


def _decompose(A, order, nd, norm, sign, tie=0):
    """matrix = rotation of the quaternion q/|q|, its rows times lengths k (decreasing in `order`, the last nd below the threshold;
    tie 1, 2: the first/last two equal, 3: all equal), reflected if sign < 0, and a translation"""
    eps = lit(0.0001)
    a, b, c = order
    k = [None] * 3
    k[a] = _free(0)
    k[b] = _free(0) if tie & 1 else _free(1)
    k[c] = k[b] if tie & 2 else _free(2)
    q = [_free(i) for i in range(3, 7)]
    qq = dot(q, q, 4)
    pos = [k[c], k[b], k[a], qq]
    pos += [] if tie & 1 else [k[a] - k[b]]
    pos += [] if tie & 2 else [k[b] - k[c]]
    pos += [] if tie else [k[a] - k[c]]
    for n, i in enumerate(order):
        pos.append(eps - k[i] if n >= 3 - nd else k[i] - eps)
    rot = [r[:3] for r in from_quat(q)[:3]]
    for i in range(3):
        rot[i][i] = q[i] * q[i] * 2.0 + q[3] * q[3] * 2.0 - qq
    rot = [[x / qq for x in r] for r in rot]
    B = [[t * lit(float(sign)) for t in r] for r in rot]
    m = {("a3", 4 * i + j): k[i] * B[i][j] for i in range(3) for j in range(3)}
    E = [[ONE if i == j else Z for j in range(3)] for i in range(3)]
    if nd == 3:
        B[a] = E[a]
        B[b] = cross3(E[a], E[1 if a == 2 else 2])
    if nd:
        B[c] = cross3(B[a], B[b])
    # the axis built last completes (a, b, c), whose order may be odd; otherwise the matrix itself is a reflection
    if (order in ((0, 2, 1), (1, 0, 2), (2, 1, 0))) if nd else sign < 0:
        k[a] = -k[a]
        B[a] = [-t for t in B[a]]
    q, qc = _rotation(B, norm)
    return R(TRUE, a0=k + [Z], a1=[(t, qc) for t in q], a2=A.m(3)[3], assume=m, positive=pos, leak=True, note="scale, rotation and translation; %d axes replaced" % nd)


def _sheared(A, order, norm, plane):
    """two axes at an angle other than a right one: refused unless the volume of the unit axes is 1 to within the threshold"""
    eps = lit(0.0001)
    a, b, c = order
    k = [_free(i) for i in range(3)]
    t = _free(3)
    i, j, l = plane
    den = t * t + 1.0
    B = [None] * 3
    B[i] = [ONE if x == i else Z for x in range(3)]
    B[l] = [ONE if x == l else Z for x in range(3)]
    B[j] = [t * 2.0 / den if x == i else (1.0 - t * t) / den if x == j else Z for x in range(3)]
    pos = k + [k[a] - k[b], k[b] - k[c], k[a] - k[c], k[a] - eps, k[b] - eps, k[c] - eps, t, 1.0 - t, (1.0 - t * t) / den]
    off = (1.0 - t * t) / den - 1.0
    ok = ~(eps < off * off)
    m = {("a3", 4 * x + y): k[x] * B[x][y] for x in range(3) for y in range(3)}
    q, qc = _rotation(B, norm)
    return R(ok, a0=k + [Z], a1=[(v, qc & ok) for v in q], a2=A.m(3)[3], assume=m, positive=pos, leak=True, note="sheared matrices are refused")


ORDERS = ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))
TIES = (((0, 1, 2), 1), ((2, 0, 1), 2), ((0, 2, 1), 1), ((1, 0, 2), 2), ((1, 2, 0), 1), ((0, 1, 2), 2), ((0, 1, 2), 3))


@spec("mat", "XMMatrixDecompose")
def _(A):
    out = []
    # any direction: length n, angles with tangents of half angles s, t in (0, 1) and three signs
    n, s, t = [_free(i) for i in range(3, 6)]
    ss, tt = s * s + 1.0, t * t + 1.0
    r = n * (1.0 - s * s) / ss
    least, mid, big = n * s * 2.0 / ss, r * t * 2.0 / tt, r * (1.0 - t * t) / tt
    base = [n, s, t, 1.0 - s, 1.0 - t, r, least, mid, big, mid - least, big - least, big - mid]
    base += [v / n for v in base]
    base.append(r * r / (n * n))
    for norm in (True, False):
        rs = [_decompose(A, o, nd, norm, sg) for sg in (1, -1) for nd in (0, 1, 3) for o in ORDERS]
        rs += [_decompose(A, o, 0, norm, sg, t) for sg in (1, -1) for o, t in TIES] + [_decompose(A, o, 3, norm, 1, t) for o, t in TIES]
        for oi, o in enumerate(ORDERS):
            for wi, (g, h, l) in enumerate(ORDERS):
                u = [None] * 3
                u[g], u[h], u[l] = [v * lit(1.0 - 2.0 * ((oi + wi * 3 >> i) & 1)) for i, v in enumerate((big, mid, least))]
                rs.append(_completed(A, o, norm, u, n, l, base))
            for i in range(3):
                for sg in (1.0, -1.0):
                    rs.append(_completed(A, o, norm, [n * sg if j == i else Z for j in range(3)], n, 1 if i == 2 else 2, []))
        rs += [_sheared(A, o, norm, p) for o in ORDERS for p in ORDERS]
        rs[0].also = rs[1:]
        out.append(rs[0])
    return out
