"""Loads, stores and constructors (mem), numeric conversions (conv), scalar helpers (scalar)."""
from dsl import *
from specs_vec import rep, EPS

Z, ONE = lit(0.0), lit(1.0)


# ------------------------------------------------------------------ loads and stores: bit-exact copies
def _mk_ls(nm, n):
    @spec("mem", "XMLoad" + nm)
    def _(A):
        return R(A.words(0, n) + [Z] * (4 - n), mode="exact", note="%d words, the rest zero" % n)

    @spec("mem", "XMStore" + nm)
    def _(A):
        out = A.v(1)[:n]
        if A.args[0]["size"] > 4 * n:
            out += [None] * (A.args[0]["size"] // 4 - n)
        return R(a0=out, mode="exact", note="first %d lanes" % n)


for nm, n in (("Int2", 2), ("Int3", 3), ("Int4", 4), ("Float2", 2), ("Float3", 3), ("Float3A", 3), ("Float4", 4), ("Float4A", 4)):
    _mk_ls(nm, n)


@spec("mem", "XMStoreFloat")
def _(A):
    return R(a0=[A.v(1)[0]], mode="exact", note="lane x")


def _mk_lm(nm, rows, cols, tr):
    @spec("mem", "XMLoad" + nm)
    def _(A):
        m = [[(ONE if i == j else Z) for j in range(4)] for i in range(4)]
        for r in range(rows):
            for c in range(cols):
                w = A.w(0, cols * r + c)
                if tr:
                    m[c][r] = w
                else:
                    m[r][c] = w
        return R(m, mode="exact", note="matrix elements, identity elsewhere")

    @spec("mem", "XMStore" + nm)
    def _(A):
        m = A.m(1)
        return R(a0=[(m[c][r] if tr else m[r][c]) for r in range(rows) for c in range(cols)], mode="exact", note="matrix elements")


for nm, r, c, tr in (("Float3x3", 3, 3, False), ("Float3x4", 3, 4, True), ("Float4x3", 4, 3, False), ("Float4x4", 4, 4, False), ("Float4x4A", 4, 4, False)):
    _mk_lm(nm, r, c, tr)


@spec("mem", "XMFLOAT2::set", "XMFLOAT3::set", "XMFLOAT4::set", "XMINT2::set", "XMINT3::set", "XMINT4::set", "XMUINT2::set", "XMUINT3::set", "XMUINT4::set", "XMVector::set")
def _(A):
    return R([A.w(i) for i in range(A.nargs)], mode="exact", note="components in order")


# ------------------------------------------------------------------ conversions
def p2(e):
    return lit(2.0 ** e)


def sitofp(w):
    return W(llir.sitofp(w.t))


def uitofp(w):
    return W(T.mk("uitofp", w.t))


def fptosi(w):
    return W(T.mk("fptosi", 32, w.t))


def fptoui(w):
    return W(T.mk("fptoui", 32, w.t))


@spec("conv", "XMConvertVectorIntToFloat")
def _(A):
    return R([sitofp(x) * p2(-A.c(1)) for x in A.v(0)], note="signed lanes / 2^e")


@spec("conv", "XMConvertVectorUIntToFloat")
def _(A):
    s = p2(-A.c(1))
    low = lambda x: sitofp(x.band(bits32(0x7FFFFFFF)))
    fix = lambda x: W(mk_ite(x.neg_().t, lit(2147483648.0).t, Z.t))
    sc = lambda x: x * s if A.c(1) else x
    return [R([sc(uitofp(x)) for x in A.v(0)], mode="exact", note="unsigned lanes / 2^e"),
            R([sc(low(x) + fix(x)) for x in A.v(0)], mode="exact", note="unsigned lanes / 2^e")]


def saturated(ys, lo, hi, least, most, cuts):
    """exact obligations: the saturated integer words, bit for bit (all comparisons the code may make with a threshold are given)"""
    below = [(W(const(32, least)), allb([y <= lo, ~(y > lo)] + [~(y >= c) & (y < c) for c in cuts if c > lo])) for y in ys]
    above = [(W(const(32, most)), allb([y >= hi, ~(y < hi)] + [(y > c) & (y >= c) & ~(y <= c) for c in cuts if c < hi])) for y in ys]
    return [R(below, mode="exact", note="smallest integer below the range"), R(above, mode="exact", note="largest integer above the range")]


@spec("conv", "XMConvertVectorFloatToInt")
def _(A):
    out, alt = [], []
    ys = [x * p2(A.c(1)) if A.c(1) else x for x in A.v(0)]
    for y in ys:
        hi = y > 2147483520.0
        # the float grid has no value strictly between 2147483520 and 2^31
        care = ~(hi & (y < 2147483648.0))
        t = W(mk_ite(hi.t, const(32, 0x7FFFFFFF), fptosi(y).t))
        alt.append((t, care))
        out.append((W(mk_ite((y <= -2147483648.0).t, const(32, 0x80000000), t.t)), care))
    up = saturated(ys, -2147483648.0, 2147483648.0, 0x80000000, 0x7FFFFFFF, [-2147483648.0, 0.0, 2147483520.0, 2147483648.0])
    return [R(out, note="truncation of x*2^e, saturated", also=up), R(alt, note="truncation of x*2^e, saturated", also=up[1:])]


@spec("conv", "XMConvertVectorFloatToUInt")
def _(A):
    out, alt = [], []
    ys = [x * p2(A.c(1)) if A.c(1) else x for x in A.v(0)]
    for y in ys:
        hi = y > 4294967040.0
        care = ~(hi & (y < 4294967296.0))
        lo = y <= 0
        t = fptoui(y)
        big = y >= 2147483648.0
        t2 = W(mk_ite(big.t, fptosi(y - 2147483648.0).bxor(bits32(0x80000000)).t, fptosi(y).t))
        for o, v in ((out, t), (alt, t2)):
            o.append((W(mk_ite(hi.t, const(32, FULL), mk_ite(lo.t, const(32, 0), v.t))), care))
    up = saturated(ys, 0.0, 4294967296.0, 0, FULL, [0.0, 2147483520.0, 2147483648.0, 4294967040.0, 4294967296.0])
    return [R(out, note="truncation of x*2^e to unsigned, saturated", also=up), R(alt, note="truncation of x*2^e to unsigned, saturated", also=up)]


@spec("conv", "XMVectorSplatConstant")
def _(A):
    return R(rep(sitofp(A.w(0)) * p2(-A.c(1))), note="constant / 2^e in every lane")


@spec("half", "XMConvertFloatToHalf")
def _(A):
    return R(W(T.mk("call", 16, "f2h", A.f(0).t)), mode="exact", note="IEEE half nearest to the value")


@spec("half", "XMConvertHalfToFloat")
def _(A):
    return R(W(T.mk("h2f", slc(A.w(0).t, 0, 16))), mode="exact", note="the half's value")


def f32(x):
    return llir.b2f(llir.f2b(x))


@spec("conv", "XMConvertToRadians")
def _(A):
    return [R(A.f(0) * lit(f32(f32(PI) / 180.0)), note="degrees * pi/180"), R(A.f(0) * f32(PI) / 180.0)]


@spec("conv", "XMConvertToDegrees")
def _(A):
    return [R(A.f(0) * lit(f32(180.0 / f32(PI))), note="radians * 180/pi"), R(A.f(0) * 180.0 / f32(PI))]


# ------------------------------------------------------------------ scalars
@spec("scalar", "XMMin")
def _(A):
    a, b = A.w(0), A.w(1)
    lt = a < b if A.args[0]["ty"] == "f32" else a.ult(b)
    return R(W(mk_ite(lt.t, a.t, b.t)), mode="exact" if A.args[0]["ty"] != "f32" else "real", note="smaller")


@spec("scalar", "XMMax")
def _(A):
    a, b = A.w(0), A.w(1)
    lt = a > b if A.args[0]["ty"] == "f32" else b.ult(a)
    return R(W(mk_ite(lt.t, a.t, b.t)), mode="exact" if A.args[0]["ty"] != "f32" else "real", note="larger")


@spec("scalar", "XMScalarNearEqual")
def _(A):
    return R(abs(A.f(0) - A.f(1)) <= A.f(2), note="|a-b| <= eps")


@spec("scalar", "XMScalarModAngle")
def _(A):
    a = A.f(0) + f32(PI)
    p = f32(6.283185307)
    t = abs(a)
    q = t / p
    t = t - p * sitofp(fptosi(q)) - f32(PI)
    return R((a < 0).ite(-t, t), care=q < 2147483648.0, note="angle modulo 2 pi")
