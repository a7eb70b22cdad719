"""Matrix specifications (mat: algebra, ctor: constructors)."""
from dsl import *
from specs_vec import rep, dot, pad, cross, det3, xform, qmul, conj, mmul

Z, ONE = lit(0.0), lit(1.0)


def ident():
    return [[ONE if i == j else Z for j in range(4)] for i in range(4)]


def transpose(m):
    return [[m[j][i] for j in range(4)] for i in range(4)]


def madd(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def minor(m, i, j):
    rs = [[m[r][c] for c in range(4) if c != j] for r in range(4) if r != i]
    return det3(rs)


def det3(m):
    a, b, c = m
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def det4(m):
    r = m[0][0] * minor(m, 0, 0)
    for j in range(1, 4):
        t = m[0][j] * minor(m, 0, j)
        r = r - t if j % 2 else r + t
    return r


def translation(x, y, z):
    m = ident()
    m[3] = [x, y, z, ONE]
    return m


def scaling(x, y, z):
    return [[x, Z, Z, Z], [Z, y, Z, Z], [Z, Z, z, Z], [Z, Z, Z, ONE]]


def from_quat(q):
    x, y, z, w = q
    return [[1.0 - 2.0 * (y * y) - 2.0 * (z * z), 2.0 * (x * y) + 2.0 * (z * w), 2.0 * (x * z) - 2.0 * (y * w), Z],
            [2.0 * (x * y) - 2.0 * (z * w), 1.0 - 2.0 * (x * x) - 2.0 * (z * z), 2.0 * (y * z) + 2.0 * (x * w), Z],
            [2.0 * (x * z) + 2.0 * (y * w), 2.0 * (y * z) - 2.0 * (x * w), 1.0 - 2.0 * (x * x) - 2.0 * (y * y), Z],
            [Z, Z, Z, ONE]]


def rotx(s, c):
    return [[ONE, Z, Z, Z], [Z, c, s, Z], [Z, -s, c, Z], [Z, Z, Z, ONE]]


def roty(s, c):
    return [[c, Z, -s, Z], [Z, ONE, Z, Z], [s, Z, c, Z], [Z, Z, Z, ONE]]


def rotz(s, c):
    return [[c, s, Z, Z], [-s, c, Z, Z], [Z, Z, ONE, Z], [Z, Z, Z, ONE]]


def sc(a):
    return fn("sin", a), fn("cos", a)


def rotaxis(n, a):
    """right-multiplied row-vector rotation about the unit axis n"""
    s, c = sc(a)
    x, y, z = n[:3]
    t = 1.0 - c
    return [[t * x * x + c, t * x * y + s * z, t * x * z - s * y, Z],
            [t * x * y - s * z, t * y * y + c, t * y * z + s * x, Z],
            [t * x * z + s * y, t * y * z - s * x, t * z * z + c, Z],
            [Z, Z, Z, ONE]]


def quat_rpy(p, y, r):
    """rotation by roll about z, then pitch about x, then yaw about y"""
    sp, cp = sc(p * 0.5)
    sy, cy = sc(y * 0.5)
    sr, cr = sc(r * 0.5)
    qx, qy, qz = [sp, Z, Z, cp], [Z, sy, Z, cy], [Z, Z, sr, cr]
    return qmul(qy, qmul(qx, qz))


@spec("mat", "XMMatrixMultiply", "XMMatrixMultiplyTranspose")
def _(A):
    r = mmul(A.m(0), A.m(1))
    if A.meta["path"].endswith("Transpose"):
        return R(transpose(r), note="transpose of the product")
    return R(r, note="matrix product")


@spec("mat", "XMMatrixTranspose")
def _(A):
    return R(transpose(A.m(0)), mode="exact", note="transpose")


@spec("mat", "XMMatrixDeterminant")
def _(A):
    return R(rep(det4(A.m(0))), note="determinant, replicated")


@spec("mat", "XMMatrixInverse")
def _(A):
    m = A.m(1)
    d = det4(m)
    adj = [[None] * 4 for _ in range(4)]
    for i in range(4):
        for j in range(4):
            c = minor(m, j, i)
            adj[i][j] = (-c if (i + j) % 2 else c) / d
    kw = {}
    if A.args[0]["kind"] == "mut":
        kw["a0"] = rep(d)
    return R(adj, care=d.ne(0), note="adjugate / determinant; determinant returned", **kw)


@spec("mat", "XMMatrixVectorTensorProduct")
def _(A):
    a, b = A.v(0), A.v(1)
    return R([[x * y for y in b] for x in a], note="outer product")


def _flat(m):
    return [x for r in m for x in r]


@spec("mat", "XMMatrixIsNaN")
def _(A):
    return R(anyb([x.isnan() for x in _flat(A.m(0))]), mode="exact", note="some element is NaN")


@spec("mat", "XMMatrixIsInfinite")
def _(A):
    return R(anyb([x.isinf() for x in _flat(A.m(0))]), mode="exact", note="some element is +-infinity")


@spec("mat", "XMMatrixIsIdentity")
def _(A):
    m = A.m(0)
    e = allb([m[i][j].eq(1.0 if i == j else 0.0) for i in range(4) for j in range(4)])
    b = allb([m[i][j].ieq(lit(1.0 if i == j else 0.0)) for i in range(4) for j in range(4)])
    return [R(e, mode="exact", note="all elements equal those of the identity"), R(b, mode="exact", note="all elements are bitwise those of the identity")]


@spec("ctor", "XMMatrixIdentity")
def _(A):
    return R(ident(), mode="exact", note="identity")


@spec("ctor", "XMMatrixSet", "XMMatrix::set")
def _(A):
    return R([[A.f(4 * i + j) for j in range(4)] for i in range(4)], mode="exact", note="row-major elements")


@spec("ctor", "XMMatrixTranslation")
def _(A):
    return R(translation(A.f(0), A.f(1), A.f(2)), mode="exact", note="translation")


@spec("ctor", "XMMatrixTranslationFromVector")
def _(A):
    return R(translation(*A.v(0)[:3]), mode="exact", note="translation")


@spec("ctor", "XMMatrixScaling")
def _(A):
    return R(scaling(A.f(0), A.f(1), A.f(2)), mode="exact", note="scaling")


@spec("ctor", "XMMatrixScalingFromVector")
def _(A):
    return R(scaling(*A.v(0)[:3]), note="scaling")


for nm, f in (("X", rotx), ("Y", roty), ("Z", rotz)):
    def _mk(nm, f):
        @spec("ctor", "XMMatrixRotation" + nm)
        def _(A):
            return R(f(*sc(A.f(0))), note="rotation about " + nm)
    _mk(nm, f)


def rpy(p, y, r):
    full = mmul(mmul(rotz(*sc(r)), rotx(*sc(p))), roty(*sc(y)))
    return [R(from_quat(quat_rpy(p, y, r)), note="roll about z, then pitch about x, then yaw about y"), R(full, note="Rz Rx Ry")]


@spec("ctor", "XMMatrixRotationRollPitchYaw")
def _(A):
    return rpy(A.f(0), A.f(1), A.f(2))


@spec("ctor", "XMMatrixRotationRollPitchYawFromVector")
def _(A):
    return rpy(*A.v(0)[:3])


@spec("ctor", "XMMatrixRotationNormal")
def _(A):
    return R(rotaxis(A.v(0), A.f(1)), note="rotation about a unit axis")


@spec("ctor", "XMMatrixRotationAxis")
def _(A):
    v = A.v(0)
    l2 = dot(v, v, 3)
    l = l2.sqrt()
    return R(rotaxis([x / l for x in v[:3]], A.f(1)), care=l2 > 0, note="rotation about an axis")


@spec("ctor", "XMMatrixRotationQuaternion")
def _(A):
    return R(from_quat(A.v(0)), note="rotation of a quaternion")


def affine(so, sq, s, ro, rq, t):
    """Transformation: -so, sq^T, S, sq, +so, -ro, rq, +ro, +t"""
    m = ident()
    if so is not None:
        o = from_quat(sq)
        m = mmul(translation(-so[0], -so[1], -so[2]), transpose(o))
        m = mmul(m, scaling(*s[:3]))
        m = mmul(m, o)
        m = mmul(m, translation(*so[:3]))
    else:
        m = scaling(*s[:3])
    m = mmul(m, translation(-ro[0], -ro[1], -ro[2]))
    m = mmul(m, rq)
    m = mmul(m, translation(*ro[:3]))
    return mmul(m, translation(*t[:3]))


@spec("ctor", "XMMatrixTransformation")
def _(A):
    return R(affine(A.v(0), A.v(1), A.v(2), A.v(3), from_quat(A.v(4)), A.v(5)), note="scale about oriented origin, rotate about origin, translate")


@spec("ctor", "XMMatrixAffineTransformation")
def _(A):
    return R(affine(None, None, A.v(0), A.v(1), from_quat(A.v(2)), A.v(3)), note="scale, rotate about origin, translate")


@spec("ctor", "XMMatrixAffineTransformation2D")
def _(A):
    s, ro, t = A.v(0), A.v(1), A.v(3)
    return R(affine(None, None, s[:2] + [ONE], ro[:2] + [Z], rotz(*sc(A.f(2))), t[:2] + [Z]), note="2D scale, rotate about origin, translate")


@spec("ctor", "XMMatrixTransformation2D")
def _(A):
    so, s, ro, t = A.v(0), A.v(2), A.v(3), A.v(5)
    o = rotz(*sc(A.f(1)))
    m = mmul(translation(-so[0], -so[1], Z), transpose(o))
    m = mmul(m, scaling(s[0], s[1], ONE))
    m = mmul(m, o)
    m = mmul(m, translation(so[0], so[1], Z))
    m = mmul(m, translation(-ro[0], -ro[1], Z))
    m = mmul(m, rotz(*sc(A.f(4))))
    m = mmul(m, translation(ro[0], ro[1], Z))
    return R(mmul(m, translation(t[0], t[1], Z)), note="2D transformation")


@spec("ctor", "XMMatrixReflect")
def _(A):
    p = A.v(0)
    l2 = dot(p, p, 3)
    l = l2.sqrt()
    n = [x / l for x in p]
    m = [[(-2.0 * n[i] * n[j] if i != j else 1.0 - 2.0 * n[i] * n[j]) for j in range(3)] + [Z] for i in range(3)]
    m.append([-2.0 * n[3] * n[j] for j in range(3)] + [ONE])
    return R(m, care=l2 > 0, leak=True, note="reflection through a plane")


@spec("ctor", "XMMatrixShadow")
def _(A):
    p, L = A.v(0), A.v(1)
    l2 = dot(p, p, 3)
    l = l2.sqrt()
    n = [x / l for x in p]
    d = n[0] * L[0] + n[1] * L[1] + n[2] * L[2] + n[3] * L[3]
    # rows: d*I - n (outer) L
    m = [[(d - n[i] * L[j]) if i == j else -(n[i] * L[j]) for j in range(4)] for i in range(4)]
    return R(m, care=l2 > 0, note="projection onto a plane from a light")


def lookto(eye, d, up):
    l2 = dot(d, d, 3)
    r2 = [x / l2.sqrt() for x in d[:3]]
    c = cross(up, r2)
    c2 = dot(c, c, 3)
    r0 = [x / c2.sqrt() for x in c[:3]]
    r1 = cross(r2, r0)
    ds = [-dot(r, eye, 3) for r in (r0, r1, r2)]
    return R([[r0[i], r1[i], r2[i], Z] for i in range(3)] + [ds + [ONE]], care=(l2 > 0) & (c2 > 0), note="orthonormal view basis and translation")


@spec("ctor", "XMMatrixLookToLH")
def _(A):
    return lookto(A.v(0), A.v(1), A.v(2))


@spec("ctor", "XMMatrixLookToRH")
def _(A):
    return lookto(A.v(0), [-x for x in A.v(1)], A.v(2))


@spec("ctor", "XMMatrixLookAtLH")
def _(A):
    e, f = A.v(0), A.v(1)
    return lookto(e, [b - a for a, b in zip(e, f)], A.v(2))


@spec("ctor", "XMMatrixLookAtRH")
def _(A):
    e, f = A.v(0), A.v(1)
    return lookto(e, [a - b for a, b in zip(e, f)], A.v(2))


def persp(x, y, n, f, lh, off=None):
    r = f / (f - n) if lh else f / (n - f)
    w = ONE if lh else lit(-1.0)
    row2 = [Z, Z, r, w] if off is None else [off[0], off[1], r, w]
    return [[x, Z, Z, Z], [Z, y, Z, Z], row2, [Z, Z, (-(r * n)) if lh else r * n, Z]]


def _mk_proj(h):
    lh = h == "LH"

    @spec("ctor", "XMMatrixPerspective" + h)
    def _(A):
        w, hh, n, f = [A.f(i) for i in range(4)]
        return R(persp((n + n) / w, (n + n) / hh, n, f, lh), care=w.ne(0) & hh.ne(0) & f.ne(n), note="perspective " + h)

    @spec("ctor", "XMMatrixPerspectiveFov" + h)
    def _(A):
        fov, asp, n, f = [A.f(i) for i in range(4)]
        s, c = sc(fov * 0.5)
        y = c / s
        return R(persp(y / asp, y, n, f, lh), care=s.ne(0) & asp.ne(0) & f.ne(n), note="perspective field of view " + h)

    @spec("ctor", "XMMatrixPerspectiveOffCenter" + h)
    def _(A):
        l, r, b, t, n, f = [A.f(i) for i in range(6)]
        k = -1.0 if lh else 1.0
        off = [k * ((l + r) / (r - l)), k * ((t + b) / (t - b))]
        return R(persp((n + n) / (r - l), (n + n) / (t - b), n, f, lh, off), care=l.ne(r) & b.ne(t) & f.ne(n), note="off-centre perspective " + h)

    @spec("ctor", "XMMatrixOrthographic" + h)
    def _(A):
        w, hh, n, f = [A.f(i) for i in range(4)]
        r = 1.0 / (f - n) if lh else 1.0 / (n - f)
        last = -(r * n) if lh else r * n
        return R([[2.0 / w, Z, Z, Z], [Z, 2.0 / hh, Z, Z], [Z, Z, r, Z], [Z, Z, last, ONE]], care=w.ne(0) & hh.ne(0) & f.ne(n), note="orthographic " + h)


_mk_proj("LH")
_mk_proj("RH")


def adjugate(m):
    return [[(-minor(m, j, i) if (i + j) % 2 else minor(m, j, i)) for j in range(4)] for i in range(4)]


@spec("geo", "XMVector3Unproject")
def _(A):
    v = A.v(0)
    x, y, w, h, zn, zf = [A.f(i) for i in range(1, 7)]
    m = mmul(mmul(A.m(9), A.m(8)), A.m(7))
    adj = adjugate(m)
    n = [(v[0] - x) * 2.0 / w - 1.0, 1.0 - (v[1] - y) * 2.0 / h, (v[2] - zn) / (zf - zn)]
    r = [n[0] * adj[0][j] + n[1] * adj[1][j] + n[2] * adj[2][j] + adj[3][j] for j in range(4)]
    return R([r[0] / r[3], r[1] / r[3], r[2] / r[3], None], care=r[3].ne(0) & det4(m).ne(0) & w.ne(0) & h.ne(0) & zf.ne(zn), note="screen to object space")
