"""Vector specifications: comparisons (cmp), routing (route), bitwise (bits), per-lane arithmetic (lane),
geometric functions (geo)."""
import math, re
from dsl import *

CR_TRUE, CR_FALSE, CR_BOUNDS = 0x80, 0x20, 0x20
EPS = llir.b2f(0x34000000)       # 1.192092896e-7
N = {"2": 2, "3": 3, "4": 4}


def rep(x):
    return [x] * 4


def dot(a, b, n):
    r = a[0] * b[0]
    for i in range(1, n):
        r = r + a[i] * b[i]
    return r


def pad(xs):
    xs = list(xs)
    return xs + [None] * (4 - len(xs))


# ------------------------------------------------------------------ comparisons
FALSEB = B(llir.FALSE)

LANE = {
    "Equal": lambda a, b: a.eq(b), "NotEqual": lambda a, b: a.ne(b),
    "Greater": lambda a, b: a > b, "GreaterOrEqual": lambda a, b: a >= b,
    "Less": lambda a, b: a < b, "LessOrEqual": lambda a, b: a <= b,
    "EqualInt": lambda a, b: a.ieq(b), "NotEqualInt": lambda a, b: ~a.ieq(b),
}


def _mk_lane(nm, p):
    @spec("cmp", "XMVector" + nm)
    def _(A):
        a, b = A.v(0), A.v(1)
        return R([p(x, y).mask() for x, y in zip(a, b)], mode="exact", note="lane mask of %s" % nm)


for nm, p in LANE.items():
    _mk_lane(nm, p)


def crec(bs, nots=None):
    """record of a set of lane conditions: all true -> 0x80, all false -> 0x20, mixed -> 0"""
    t = allb(bs)
    f = allb(nots if nots is not None else [~b for b in bs])
    return t.u32(CR_TRUE, 0).bor(B(llir.mk_band(f.t, llir.mk_not(t.t))).u32(CR_FALSE, 0))


def ordered(a, b, n):
    return allb([~(x.isnan() | y.isnan()) for x, y in zip(a[:n], b[:n])])


REV = {"Greater": lambda a, b: a <= b, "GreaterOrEqual": lambda a, b: a < b}


def _mk_R(nm, p):
    @spec("cmp", "XMVector%sR" % nm)
    def _(A):
        a, b = A.v(1), A.v(2)
        bs = [p(x, y) for x, y in zip(a, b)]
        return R([x.mask() for x in bs], a0=crec(bs), mode="exact", note="mask and record of %sR" % nm)


for nm in ("Equal", "Greater", "GreaterOrEqual", "EqualInt"):
    _mk_R(nm, LANE[nm])


def _mk_n(nm, p, n):
    @spec("cmp", "XMVector%d%s" % (n, nm))
    def _(A):
        a, b = A.v(0), A.v(1)
        bs = [p(a[i], b[i]) for i in range(n)]
        r = anyb(bs) if nm.startswith("Not") else allb(bs)
        return R(r, mode="exact", note="%s over the first %d lanes" % (nm, n))


for n in (2, 3, 4):
    for nm, p in LANE.items():
        _mk_n(nm, p, n)


def _mk_nR(nm, p, n):
    @spec("cmp", "XMVector%d%sR" % (n, nm))
    def _(A):
        a, b = A.v(0), A.v(1)
        bs = [p(a[i], b[i]) for i in range(n)]
        note = "record over the first %d lanes" % n
        out = [R([crec(bs)], mode="exact", note=note)]
        if nm in REV:       # "all false" may also mean that every lane is in the opposite relation (differs for NaN only)
            out.append(R([crec(bs, [REV[nm](a[i], b[i]) for i in range(n)])], mode="exact", note=note))
        return out


for n in (2, 3, 4):
    for nm in ("Equal", "Greater", "GreaterOrEqual", "EqualInt"):
        _mk_nR(nm, LANE[nm], n)


def near(a, b, e):
    return abs(a - b) <= e


def inb(v, b):
    return (v <= b) & ((-b) <= v)


QNAN = bits32(0x7FC00000)


def nan_false(A, n, mask):
    """with a NaN in lane i of any operand, lane i (or the whole predicate) is false"""
    out = []
    for i in range(n):
        for k in range(A.nargs):
            exp = [bits32(0) if j == i else None for j in range(4)] if mask else FALSEB
            out.append(R(exp, assume={("a%d" % k, i): QNAN}, mode="exact", note="a NaN lane is not near anything"))
    return out


@spec("cmp", "XMVectorNearEqual")
def _(A):
    a, b, e = A.v(0), A.v(1), A.v(2)
    return R([near(*x).mask() for x in zip(a, b, e)], also=nan_false(A, 4, True), note="|a-b| <= eps per lane")


@spec("cmp", "XMVectorInBounds")
def _(A):
    return R([inb(v, b).mask() for v, b in zip(A.v(0), A.v(1))], mode="exact", note="-B <= V <= B per lane")


@spec("cmp", "XMVectorInBoundsR")
def _(A):
    bs = [inb(v, b) for v, b in zip(A.v(1), A.v(2))]
    return R([b.mask() for b in bs], a0=allb(bs).u32(CR_BOUNDS, 0), mode="exact", note="mask; record = 0x20 iff all lanes in bounds")


@spec("cmp", "XMVectorIsNaN")
def _(A):
    return R([x.isnan().mask() for x in A.v(0)], mode="exact", note="lane is NaN")


@spec("cmp", "XMVectorIsInfinite")
def _(A):
    return R([x.isinf().mask() for x in A.v(0)], mode="exact", note="lane is +-infinity")


def _mk_misc(n):
    @spec("cmp", "XMVector%dNearEqual" % n)
    def _(A):
        return R(allb([near(*x) for x in list(zip(A.v(0), A.v(1), A.v(2)))[:n]]), also=nan_false(A, n, False), note="|a-b| <= eps on %d lanes" % n)

    @spec("cmp", "XMVector%dInBounds" % n)
    def _(A):
        return R(allb([inb(*x) for x in list(zip(A.v(0), A.v(1)))[:n]]), mode="exact", note="in bounds on %d lanes" % n)

    @spec("cmp", "XMVector%dIsNaN" % n)
    def _(A):
        return R(anyb([x.isnan() for x in A.v(0)[:n]]), mode="exact", note="any of %d lanes NaN" % n)

    @spec("cmp", "XMVector%dIsInfinite" % n)
    def _(A):
        return R(anyb([x.isinf() for x in A.v(0)[:n]]), mode="exact", note="any of %d lanes infinite" % n)


for n in (2, 3, 4):
    _mk_misc(n)


def _mk_cmpq(nm, f):
    @spec("cmp", "XMComparison" + nm)
    def _(A):
        return R(f(A.f(0)), mode="exact", note="predicate on the record bits")


def _bit(cr, m):
    return ~cr.band(bits32(m)).ieq(bits32(0))


_mk_cmpq("AllTrue", lambda c: _bit(c, 0x80))
_mk_cmpq("AnyTrue", lambda c: ~_bit(c, 0x20))
_mk_cmpq("AllFalse", lambda c: _bit(c, 0x20))
_mk_cmpq("AnyFalse", lambda c: ~_bit(c, 0x80))
_mk_cmpq("Mixed", lambda c: ~_bit(c, 0xF0))
_mk_cmpq("AllInBounds", lambda c: _bit(c, 0x20))
_mk_cmpq("AnyOutOfBounds", lambda c: ~_bit(c, 0x20))


# ------------------------------------------------------------------ bitwise
def _mk_bits(nm, f):
    @spec("bits", "XMVector" + nm)
    def _(A):
        return R([f(x, y) for x, y in zip(A.v(0), A.v(1))], mode="exact", note="bitwise " + nm)


_mk_bits("AndInt", lambda a, b: a.band(b))
_mk_bits("AndCInt", lambda a, b: a.band(b.bnot()))
_mk_bits("OrInt", lambda a, b: a.bor(b))
_mk_bits("NorInt", lambda a, b: a.bor(b).bnot())
_mk_bits("XorInt", lambda a, b: a.bxor(b))


@spec("bits", "XMVectorSelect")
def _(A):
    return R([select(*x) for x in zip(A.v(0), A.v(1), A.v(2))], mode="exact", note="(a & ~c) | (b & c)")


def _mk_const(nm, ws):
    @spec("bits", "XMVector" + nm)
    def _(A):
        return R([bits32(w) for w in ws], mode="exact", note="constant")


for nm, w in (("TrueInt", FULL), ("FalseInt", 0), ("Zero", 0), ("SplatOne", 0x3F800000), ("SplatInfinity", 0x7F800000),
              ("SplatEpsilon", 0x34000000), ("SplatSignMask", 0x80000000)):
    _mk_const(nm, [w] * 4)


@spec("bits", "XMVectorSplatQNaN")
def _(A):
    return R([bits32(0x7FC00000)] * 4, mode="exact", note="quiet NaN")


@spec("bits", "XMVectorSplatConstantInt")
def _(A):
    return R(rep(A.f(0)), mode="exact", note="integer splat")


@spec("bits", "XMVectorSetBinaryConstant")
def _(A):
    return R([(~A.f(i).band(bits32(1)).ieq(bits32(0))).ite(1.0, 0.0) for i in range(4)], mode="exact", note="bit 0 -> 1.0/0.0")


# ------------------------------------------------------------------ routing
def _mk_get():
    for i, c in enumerate("XYZW"):
        def g(i=i, c=c):
            @spec("route", "XMVectorGet" + c, "XMVectorGetInt" + c)
            def _(A):
                return R([A.v(0)[i]], mode="exact", note="lane " + c)

            @spec("route", "XMVectorGet%sPtr" % c)
            def _(A):
                return R(a0=[A.v(1)[i]], mode="exact", note="lane " + c)

            @spec("route", "XMVectorSet" + c, "XMVectorSetInt" + c)
            def _(A):
                v = A.v(0)
                v[i] = A.f(1)
                return R(v, mode="exact", note="lane %s replaced" % c)

            @spec("route", "XMVectorSplat" + c)
            def _(A):
                return R(rep(A.v(0)[i]), mode="exact", note="lane %s everywhere" % c)
        g()


_mk_get()


@spec("route", "XMVectorGetByIndex", "XMVectorGetIntByIndex")
def _(A):
    return R([A.v(0)[A.c(1)]], mode="exact", note="lane by index")


@spec("route", "XMVectorSetByIndex", "XMVectorSetIntByIndex")
def _(A):
    v = A.v(0)
    v[A.c(2)] = A.f(1)
    return R(v, mode="exact", note="lane by index replaced")


@spec("route", "XMVectorSet", "XMVectorSetInt")
def _(A):
    return R([A.f(i) for i in range(4)], mode="exact", note="four lanes")


@spec("route", "XMVectorReplicate", "XMVectorReplicateInt", "XMVectorReplicatePtr")
def _(A):
    return R(rep(A.f(0)), mode="exact", note="replicate")


@spec("route", "XMVectorMergeXY")
def _(A):
    a, b = A.v(0), A.v(1)
    return R([a[0], b[0], a[1], b[1]], mode="exact", note="merge")


@spec("route", "XMVectorMergeZW")
def _(A):
    a, b = A.v(0), A.v(1)
    return R([a[2], b[2], a[3], b[3]], mode="exact", note="merge")


@spec("route", "XMVectorSwizzle")
def _(A):
    v = A.v(0)
    return R([v[A.c(1 + i)] for i in range(4)], mode="exact", note="swizzle")


@spec("route", "XMVectorPermute")
def _(A):
    v = A.v(0) + A.v(1)
    return R([v[A.c(2 + i)] for i in range(4)], mode="exact", note="permute")


@pspec("route", r"<\((Swizzle\w, ){3}Swizzle\w\) as XMVectorSwizzle>::XMVectorSwizzle", 0)
def _(A):
    v = A.v(0)
    return R([v["XYZW".index(x)] for x in re.findall(r"Swizzle([XYZW])\b", A.meta["path"])], mode="exact", note="specialised swizzle")


@pspec("route", r"<\((Permute\w\w, ){3}Permute\w\w\) as XMVectorPermute>::XMVectorPermute", 0)
def _(A):
    v = A.v(0) + A.v(1)
    return R([v[4 * int(k) + "XYZW".index(x)] for k, x in re.findall(r"Permute([01])([XYZW])\b", A.meta["path"])], mode="exact", note="specialised permute")


@spec("route", "XMVectorShiftLeft")
def _(A):
    v = A.v(0) + A.v(1)
    return R(v[A.c(2):A.c(2) + 4], mode="exact", note="shift left")


@spec("route", "XMVectorRotateLeft")
def _(A):
    v, k = A.v(0), A.c(1)
    return R([v[(i + k) % 4] for i in range(4)], mode="exact", note="rotate left")


@spec("route", "XMVectorRotateRight")
def _(A):
    v, k = A.v(0), A.c(1)
    return R([v[(i - k) % 4] for i in range(4)], mode="exact", note="rotate right")


@spec("route", "XMVectorInsert")
def _(A):
    # Insert(VD, VS, VSLeftRotateElements, Select0..3)
    d, s, k = A.v(0), A.v(1), A.c(2)
    return R([s[(i + k) % 4] if A.c(3 + i) else d[i] for i in range(4)], mode="exact", note="rotate + masked insert")


@spec("route", "XMVectorSelectControl")
def _(A):
    return R([bits32(FULL if A.c(i) else 0) for i in range(4)], mode="exact", note="control mask")


# ------------------------------------------------------------------ per-lane arithmetic
def lane(names, f, mode="real", note="", care=None):
    names = names.split()

    @spec("lane", *["XMVector" + n for n in names])
    def _(A):
        vs = list(zip(*[A.v(i) for i in range(A.nargs)]))
        c = allb([care(*x) for x in vs]) if care else None
        return R([f(*x) for x in vs], mode=mode, note=note, care=c)


lane("Add", lambda a, b: a + b, "exact", "a+b")
lane("Subtract", lambda a, b: a - b, "exact", "a-b")
lane("Multiply", lambda a, b: a * b, "exact", "a*b")
lane("Divide", lambda a, b: a / b, mode="exact", note="a/b")
lane("MultiplyAdd", lambda a, b, c: a * b + c, note="a*b+c")
lane("NegativeMultiplySubtract", lambda a, b, c: c - a * b, note="c-a*b")
@spec("lane", "XMVectorNegate")
def _(A):
    return [R([0.0 - a for a in A.v(0)], mode="exact", note="0-a"), R([-a for a in A.v(0)], mode="exact", note="-a")]


@spec("lane", "XMVectorAbs")
def _(A):
    v = A.v(0)
    return [R([abs(a) for a in v], mode="exact", note="|a|"), R([vmax(0.0 - a, a) for a in v], mode="exact", note="max(0-a, a)"),
            R([vmax(a, 0.0 - a) for a in v], mode="exact", note="max(a, 0-a)")]


lane("Min", lambda a, b: vmin(a, b), "exact", note="min")
lane("Max", lambda a, b: vmax(a, b), "exact", note="max")
def clamps(v, lo, hi):
    """the orders of operands, which differ for NaN and for zeros only"""
    for inner in (vmax(lo, v), vmax(v, lo)):
        for r in (vmin(hi, inner), vmin(inner, hi)):
            yield r
    for inner in (vmin(hi, v), vmin(v, hi)):
        for r in (vmax(lo, inner), vmax(inner, lo)):
            yield r


@spec("lane", "XMVectorClamp")
def _(A):
    a, lo, hi = A.v(0), A.v(1), A.v(2)
    c = allb([x <= y for x, y in zip(lo, hi)])
    return [R(list(r), mode="exact", care=c, note="min(max(v,lo),hi)") for r in zip(*[clamps(*x) for x in zip(a, lo, hi)])]


@spec("lane", "XMVectorSaturate")
def _(A):
    return [R(list(r), mode="exact", note="clamp to [0,1]") for r in zip(*[clamps(x, lit(0.0), lit(1.0)) for x in A.v(0)])]


lane("Sqrt", lambda v: v.sqrt(), mode="exact", note="sqrt", care=lambda v: v >= 0)
lane("SqrtEst", lambda v: v.sqrt(), note="sqrt (estimate)", care=lambda v: v > 0)
lane("Reciprocal", lambda v: 1.0 / v, mode="exact", note="1/v")
lane("ReciprocalEst", lambda v: 1.0 / v, note="1/v", care=lambda v: v.ne(0))
lane("ReciprocalSqrt", lambda v: 1.0 / v.sqrt(), mode="exact", note="1/sqrt")
lane("ReciprocalSqrtEst", lambda v: 1.0 / v.sqrt(), note="1/sqrt", care=lambda v: v > 0)
def rounding(name, *fs):
    """the rounding operation of the processor, or one that rounds every number and returns large ones (no fraction) and infinities unchanged"""
    @spec("lane", "XMVector" + name)
    def _(A):
        v = A.v(0)
        big = allb([abs(x) > lit(8388608.0) for x in v])
        rs = [R([fs[0](x) for x in v], mode="exact", note=name.lower())]
        for f in fs:
            rs.append(R([f(x) for x in v], note=name.lower(), also=[] if f is half_even else [R(v, care=big, mode="exact", note="numbers without fraction unchanged")]))
        return rs


rounding("Floor", W.floor)
rounding("Ceiling", W.ceil)
rounding("Truncate", W.trunc)


def half_even(v):
    """round half to even written out"""
    f = v.floor()
    r = v - f
    return (r < 0.5).ite(f, (r > 0.5).ite(f + 1.0, ((f / 2.0).trunc() * 2.0).eq(f).ite(f, f + 1.0)))


rounding("Round", W.rnd, half_even)
lane("Mod", lambda a, b: a - b * (a / b).trunc(), note="a - b*trunc(a/b)", care=lambda a, b: b.ne(0))
lane("LerpV", lambda a, b, t: a + (b - a) * t, note="a+(b-a)t")
TWO_PI = llir.b2f(f2b(6.283185307))
RTWO_PI = llir.b2f(f2b(0.159154943))
F_PI = llir.b2f(f2b(3.141592654))


@spec("lane", "XMVectorModAngles")
def _(A):
    return [R([v - TWO_PI * g(v * RTWO_PI) for v in A.v(0)], note="v - 2pi*round(v/2pi)") for g in (W.rnd, half_even)]


def wrapang(s):
    """one-turn wrap of a sum of two angles into [-pi, pi)"""
    return s - (s >= F_PI).ite(TWO_PI, 0.0) + (s < -F_PI).ite(TWO_PI, 0.0)


lane("AddAngles", lambda a, b: wrapang(a + b), note="wrapped a+b")
lane("SubtractAngles", lambda a, b: wrapang(a - b), note="wrapped a-b")


@spec("lane", "XMVectorScale")
def _(A):
    return R([x * A.f(1) for x in A.v(0)], mode="exact", note="v*s")


@spec("lane", "XMVectorSum")
def _(A):
    v = A.v(0)
    return R(rep(v[0] + v[1] + v[2] + v[3]), note="x+y+z+w replicated")


@spec("lane", "XMVectorLerp")
def _(A):
    return R([a + (b - a) * A.f(2) for a, b in zip(A.v(0), A.v(1))], note="a+(b-a)t")


def herm(p0, t0, p1, t1, ts):
    a, b, c, d = ts
    return (p0 * (2.0 * a * a * a - 3.0 * a * a + 1.0) + t0 * (b * b * b - 2.0 * b * b + b)
            + p1 * (-2.0 * c * c * c + 3.0 * c * c) + t1 * (d * d * d - d * d))


@spec("lane", "XMVectorHermite")
def _(A):
    t = A.f(4)
    return R([herm(*x, [t] * 4) for x in zip(*[A.v(i) for i in range(4)])], note="Hermite basis")


@spec("lane", "XMVectorHermiteV")
def _(A):
    t = A.v(4)
    return R([herm(*x, t) for x in zip(*[A.v(i) for i in range(4)])], note="Hermite basis, parameter lanes x,y,z,w per basis function")


def catm(p0, p1, p2, p3, t):
    t2 = t * t
    t3 = t2 * t
    return (p0 * (2.0 * t2 - t3 - t) + p1 * (3.0 * t3 - 5.0 * t2 + 2.0) + p2 * (4.0 * t2 + t - 3.0 * t3) + p3 * (t3 - t2)) * 0.5


@spec("lane", "XMVectorCatmullRom")
def _(A):
    t = A.f(4)
    return R([catm(*x, t) for x in zip(*[A.v(i) for i in range(4)])], note="Catmull-Rom")


@spec("lane", "XMVectorCatmullRomV")
def _(A):
    return R([catm(*x) for x in zip(*[A.v(i) for i in range(5)])], note="Catmull-Rom")


@spec("lane", "XMVectorBaryCentric")
def _(A):
    f, g = A.f(3), A.f(4)
    return R([a + f * (b - a) + g * (c - a) for a, b, c in zip(A.v(0), A.v(1), A.v(2))], note="barycentric")


@spec("lane", "XMVectorBaryCentricV")
def _(A):
    return R([a + f * (b - a) + g * (c - a) for a, b, c, f, g in zip(*[A.v(i) for i in range(5)])], note="barycentric")


# ------------------------------------------------------------------ geometry
def clamp(x, lo, hi):
    return vmin(vmax(x, lit(lo)), lit(hi))


def _mk_geo(n):
    P = "XMVector%d" % n

    @spec("geo", P + "Dot")
    def _(A):
        return R(rep(dot(A.v(0), A.v(1), n)), note="dot of %d lanes, replicated" % n)

    @spec("geo", P + "LengthSq")
    def _(A):
        v = A.v(0)
        return R(rep(dot(v, v, n)), note="length squared, replicated")

    @spec("geo", P + "Length", P + "LengthEst")
    def _(A):
        v = A.v(0)
        return R(rep(dot(v, v, n).sqrt()), note="length, replicated")

    @spec("geo", P + "ReciprocalLength", P + "ReciprocalLengthEst")
    def _(A):
        v = A.v(0)
        l = dot(v, v, n)
        return R(rep(1.0 / l.sqrt()), care=l > 0, note="1/length, replicated")

    @spec("geo", P + "Normalize")
    def _(A):
        v = A.v(0)
        l = dot(v, v, n)
        inf, one = lit(float("inf")), lit(1.0)
        at = [[s if k == i else one for k in range(n)] for i in range(n) for s in (inf, bits32(0xFF800000))] + [[lit(3e38)] * n, [lit(-2e19)] * n]
        also = [R(pad([bits32(0x7FC00000)] * n), mode="exact", note="NaN for infinite length", assume={("a0", k): x for k, x in enumerate(p)}) for p in at]
        return R(pad([(l > 0).ite(v[i] / l.sqrt(), 0.0) for i in range(n)]), note="v/length, zero for zero length", also=also)

    @spec("geo", P + "NormalizeEst")
    def _(A):
        v = A.v(0)
        l = dot(v, v, n)
        return R(pad([v[i] / l.sqrt() for i in range(n)]), care=l > 0, note="v/length")

    def clamplen(A, lo, hi):
        v = A.v(0)
        l2 = dot(v, v, n)
        l = l2.sqrt()
        over, under = l > hi, l < lo
        care = (lo <= hi) & (lo >= 0)
        return R(pad([(l2 > 0).ite(over.ite(under.ite(x, x / l * hi), under.ite(x / l * lo, x)), 0.0) for x in v[:n]]),
                 care=care, note="length clamped to [min,max], direction kept")

    @spec("geo", P + "ClampLength")
    def _(A):
        return clamplen(A, A.f(1), A.f(2))

    @spec("geo", P + "ClampLengthV")
    def _(A):
        lo, hi = A.v(1), A.v(2)
        r = clamplen(A, lo[0], hi[0])
        r.assume = {(a, i): (a, 0) for i in (1, 2, 3) for a in ("a1", "a2")}
        r.note += " (replicated bounds)"
        return r

    @spec("geo", P + "Reflect")
    def _(A):
        i, nn = A.v(0), A.v(1)
        d = dot(i, nn, n)
        return R(pad([i[k] - 2.0 * d * nn[k] for k in range(n)]), note="I - 2(I.N)N")

    def refr(A, idx):
        i, nn = A.v(0), A.v(1)
        d = dot(i, nn, n)
        out, care = [], TRUE
        for k in range(n):
            e = idx[k]
            r = 1.0 - (1.0 - d * d) * e * e
            out.append((r > 0).ite(e * i[k] - nn[k] * (e * d + r.sqrt()), 0.0))
            care = care & r.ne(0)
        return R(pad(out), care=care, note="refraction, zero on total internal reflection")

    @spec("geo", P + "Refract")
    def _(A):
        return refr(A, rep(A.f(2)))

    @spec("geo", P + "RefractV")
    def _(A):
        if n == 2:
            return refr(A, A.v(2))
        r = refr(A, rep(A.v(2)[0]))
        r.assume = {("a2", i): ("a2", 0) for i in (1, 2, 3)}
        r.note += " (replicated index)"
        return r

    @spec("geo", P + "AngleBetweenNormals", P + "AngleBetweenNormalsEst")
    def _(A):
        est = "Est" if A.meta["path"].endswith("Est") else ""
        return R(rep(fn("acos" + est, clamp(dot(A.v(0), A.v(1), n), -1.0, 1.0))), note="acos(clamp(a.b))")

    @spec("geo", P + "AngleBetweenVectors")
    def _(A):
        a, b = A.v(0), A.v(1)
        la, lb = dot(a, a, n), dot(b, b, n)
        return R(rep(fn("acos", clamp(dot(a, b, n) * (1.0 / la.sqrt() * (1.0 / lb.sqrt())), -1.0, 1.0))), care=(la > 0) & (lb > 0), note="acos(a.b/|a||b|)")


for n in (2, 3, 4):
    _mk_geo(n)


@spec("geo", "XMVector2Cross")
def _(A):
    a, b = A.v(0), A.v(1)
    return R(rep(a[0] * b[1] - a[1] * b[0]), note="2D cross, replicated")


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


@spec("geo", "XMVector3Cross")
def _(A):
    return R(cross(A.v(0), A.v(1)) + [lit(0.0)], note="3D cross, w = 0")


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


@spec("geo", "XMVector4Cross")
def _(A):
    ms = [A.v(0), A.v(1), A.v(2)]
    out = []
    for k in range(4):
        d = det3([[r[c] for c in range(4) if c != k] for r in ms])
        out.append(d if k % 2 == 0 else -d)
    return R(out, note="4D cross product (cofactors)")


@spec("geo", "XMVector2Orthogonal")
def _(A):
    v = A.v(0)
    return R([-v[1], v[0], None, None], note="(-y,x)")


@spec("geo", "XMVector3Orthogonal")
def _(A):
    v = A.v(0)
    x, y, z = v[:3]
    same = (z < 0).iteb(y < 0, ~(y < 0))
    return R([same.ite(y + z, y - z), -x, same.ite(-x, x), None], note="orthogonal vector")


@spec("geo", "XMVector4Orthogonal")
def _(A):
    v = A.v(0)
    return R([v[2], v[3], -v[0], -v[1]], note="(z,w,-x,-y)")


def _mk_lpd(n):
    @spec("geo", "XMVector%dLinePointDistance" % n)
    def _(A):
        p1, p2, p = A.v(0), A.v(1), A.v(2)
        pv = [p[i] - p1[i] for i in range(n)]
        lv = [p2[i] - p1[i] for i in range(n)]
        ll = dot(lv, lv, n)
        s = dot(pv, lv, n) / ll
        d = [pv[i] - lv[i] * s for i in range(n)]
        return R(rep(dot(d, d, n).sqrt()), care=ll > 0, note="distance to line, replicated")


_mk_lpd(2)
_mk_lpd(3)


@spec("geo", "XMVector2IntersectLine")
def _(A):
    a1, a2, b1, b2 = [A.v(i) for i in range(4)]
    v1 = [a2[i] - a1[i] for i in range(2)]
    v2 = [b2[i] - b1[i] for i in range(2)]
    v3 = [a1[i] - b1[i] for i in range(2)]
    c1 = v1[0] * v2[1] - v1[1] * v2[0]
    c2 = v2[0] * v3[1] - v2[1] * v3[0]
    par = near(c1, lit(0.0), lit(EPS))
    coin = near(c2, lit(0.0), lit(EPS))
    return R(pad([par.ite(coin.ite(bits32(0x7F800000), bits32(0x7FC00000)), a1[i] + v1[i] * (c2 / c1)) for i in range(2)]),
             note="intersection; infinity if coincident, NaN if parallel")


def xform(v, m, n, w):
    """row vector (v[0..n), w) times matrix"""
    out = []
    for c in range(4):
        r = v[0] * m[0][c]
        for i in range(1, n):
            r = r + v[i] * m[i][c]
        if w:
            r = r + m[3][c]
        out.append(r)
    return out


@spec("geo", "XMVector2Transform")
def _(A):
    return R(xform(A.v(0), A.m(1), 2, True), note="(x,y,0,1) M")


@spec("geo", "XMVector3Transform")
def _(A):
    return R(xform(A.v(0), A.m(1), 3, True), note="(x,y,z,1) M")


@spec("geo", "XMVector4Transform")
def _(A):
    return R(xform(A.v(0), A.m(1), 4, False), note="v M")


def _mk_tc(n):
    @spec("geo", "XMVector%dTransformCoord" % n)
    def _(A):
        r = xform(A.v(0), A.m(1), n, True)
        return R(pad([r[i] / r[3] for i in range(n)]), care=r[3].ne(0), note="perspective divide")

    @spec("geo", "XMVector%dTransformNormal" % n)
    def _(A):
        r = xform(A.v(0), A.m(1), n, False)
        return R(pad(r[:n]), note="rotation part only")


_mk_tc(2)
_mk_tc(3)


def qmul(p, q):
    """Hamilton product p*q, components (x,y,z,w)"""
    px, py, pz, pw = p
    qx, qy, qz, qw = q
    return [pw * qx + px * qw + py * qz - pz * qy,
            pw * qy - px * qz + py * qw + pz * qx,
            pw * qz + px * qy - py * qx + pz * qw,
            pw * qw - px * qx - py * qy - pz * qz]


def conj(q):
    return [-q[0], -q[1], -q[2], q[3]]


@spec("geo", "XMVector3Rotate")
def _(A):
    v, q = A.v(0), A.v(1)
    r = qmul(qmul(q, v[:3] + [lit(0.0)]), conj(q))
    return R(r[:3] + [None], note="q v q*")


@spec("geo", "XMVector3InverseRotate")
def _(A):
    v, q = A.v(0), A.v(1)
    r = qmul(qmul(conj(q), v[:3] + [lit(0.0)]), q)
    return R(r[:3] + [None], note="q* v q")


@spec("geo", "XMVector3ComponentsFromNormal")
def _(A):
    # (out par, out perp, V, N)
    v, n = A.v(2), A.v(3)
    d = dot(v, n, 3)
    par = [d * n[i] for i in range(3)]
    return R(a0=par + [None], a1=[v[i] - par[i] for i in range(3)] + [None], note="parallel and perpendicular parts")


def mmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(1, 4)), a[i][0] * b[0][j]) for j in range(4)] for i in range(4)]


@spec("geo", "XMVector3Project")
def _(A):
    v = A.v(0)
    x, y, w, h, zn, zf = [A.f(i) for i in range(1, 7)]
    p, vw, wo = A.m(7), A.m(8), A.m(9)
    m = mmul(mmul(wo, vw), p)
    r = xform(v, m, 3, True)
    ndc = [r[i] / r[3] for i in range(3)]
    return R([x + w * 0.5 + ndc[0] * (w * 0.5), y + h * 0.5 - ndc[1] * (h * 0.5), zn + ndc[2] * (zf - zn), None], care=r[3].ne(0), note="object to screen space")
