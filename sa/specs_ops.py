"""Operators, conversions and views: equal to the named functions they stand for."""
from dsl import *
import llir
from specs_vec import mmul


def vec(A, i, ty=None):
    """the four lanes (or the replicated scalar) an operand stands for"""
    if A.args[i].get("size", 4) == 4:
        return [A.f(i)] * 4
    return A.v(i)


def res(A, words, dst):
    return R(**{dst: words}) if dst != "out" else R(words)


BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def _vec(op, tr, rhs):
    div = op == "div"

    def f(A):
        a, b = vec(A, 0), vec(A, 1)
        dst = "a0" if A.args[0]["kind"] == "mut" else "out"
        r = R([BIN[op](x, y) for x, y in zip(a, b)], mode="exact", note="lane-wise %s" % op) if dst == "out" else \
            R(mode="exact", note="lane-wise %s in place" % op, a0=[BIN[op](x, y) for x, y in zip(a, b)])
        return r
    g = "<%s>" % rhs if rhs else ""
    spec("ops", "<XMVector as std::ops::%s%s>::%s" % (tr, g, op))(f)
    spec("ops", "<XMVector as std::ops::%sAssign%s>::%s_assign" % (tr, g, op))(f)
    return f


for _op, _tr in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div")):
    _f = _vec(_op, _tr, "")
    if _op in ("mul", "div"):
        _f = _vec(_op, _tr, "f32")
    if _op == "mul":
        spec("ops", "<f32 as std::ops::Mul<XMVector>>::mul")(_f)


@spec("ops", "<XMVector as std::ops::Neg>::neg")
def _(A):
    return [R([f(x) for x in A.v(0)], mode="exact", note="negated lanes") for f in (lambda x: -x, lambda x: 0.0 - x)]


@spec("ops", "<XMVector as std::cmp::PartialEq>::eq")
def _(A):
    return R(allb([x.eq(y) for x, y in zip(A.v(0), A.v(1))]), mode="exact", note="all four lanes equal")


def flat(m):
    return [x for r in m for x in r]


def mrows(A, i):
    w = A.words(i, 16)
    return w


def _mat(op, tr):
    def f(A):
        a, b = mrows(A, 0), mrows(A, 1)
        w = [BIN[op](x, y) for x, y in zip(a, b)]
        return R(a0=w, mode="exact") if A.args[0]["kind"] == "mut" else R(w, mode="exact")
    spec("ops", "<XMMatrix as std::ops::%s>::%s" % (tr, op))(f)
    spec("ops", "<XMMatrix as std::ops::%sAssign>::%s_assign" % (tr, op))(f)


_mat("add", "Add")
_mat("sub", "Sub")


@spec("ops", "<XMMatrix as std::ops::Mul>::mul", "<XMMatrix as std::ops::MulAssign>::mul_assign")
def _(A):
    w = flat(mmul(A.m(0), A.m(1)))
    return R(a0=w) if A.args[0]["kind"] == "mut" else R(w, note="matrix product")


@spec("ops", "<XMMatrix as std::ops::Mul<f32>>::mul", "<XMMatrix as std::ops::MulAssign<f32>>::mul_assign", "<f32 as std::ops::Mul<XMMatrix>>::mul")
def _(A):
    i = 0 if A.args[0]["size"] == 64 else 1
    w = [x * A.f(1 - i) for x in mrows(A, i)]
    return R(a0=w, mode="exact") if A.args[0]["kind"] == "mut" else R(w, mode="exact", note="scaled matrix")


@spec("ops", "<XMMatrix as std::ops::Div<f32>>::div", "<XMMatrix as std::ops::DivAssign<f32>>::div_assign")
def _(A):
    s = A.f(1)
    w = [x / s for x in mrows(A, 0)]
    return R(a0=w, mode="exact") if A.args[0]["kind"] == "mut" else R(w, mode="exact", note="matrix / scalar")


@spec("ops", "<XMMatrix as std::ops::Neg>::neg")
def _(A):
    return [R([f(x) for x in mrows(A, 0)], mode="exact", note="negated matrix") for f in (lambda x: -x, lambda x: 0.0 - x)]


@spec("ops", "<XMMatrix as std::cmp::PartialEq>::eq")
def _(A):
    return R(allb([x.eq(y) for x, y in zip(mrows(A, 0), mrows(A, 1))]), mode="exact", note="all sixteen elements equal")


# values of one type seen as another: bit for bit
@pspec("ops", r"<(XM\w+|collision::Bounding\w+|__vector4|Align16.*) as std::(convert::(From|Into)<.*>|clone::Clone)>::(from|into|clone)", 60)
def _(A):
    n = A.args[0]["size"] // 4
    assert A.meta["out_size"] == A.args[0]["size"]
    return R(A.words(0, n), mode="exact", note="the same words")


@pspec("ops", r"<XM(FLOAT|U?INT)\w+ as std::default::Default>::default", 10)
def _(A):
    return R([bits32(0)] * (A.meta["out_size"] // 4), mode="exact", note="all zero")


@pspec("ops", r"<collision::\w+Type as std::cmp::PartialEq>::eq", 2)
def _(A):
    ok = None
    for i in (0, 1):
        b = A.w(i).ult(bits32(3))
        ok = b if ok is None else ok & b
    return R(A.w(0).ieq(A.w(1)), mode="exact", care=ok, note="same variant")


# references converted to references: same address, no larger than the object viewed
@pspec("ops", r"<.* as std::(convert::(From|Into|AsRef|AsMut)<.*>|ops::Deref(Mut)?)>::(from|into|as_ref|as_mut|deref|deref_mut)", 70, refs=True)
def _(A):
    p = T.mk("ptr", llir.Ptr("a0", 0))
    if A.meta["out_inner_size"] > A.args[0]["size"]:
        return R([bits32(0), bits32(0)], mode="exact", note="the view is larger than the object")
    return R([W(slc(p, 0, 32)), W(slc(p, 32, 32))], mode="exact", note="a view of the same object")


@spec("route", "template::XMVectorSwizzle")
def _(A):
    return R([A.w(0, int(k)) for k in A.meta["variant"].split("_")], mode="exact", note="lane k of the result is the lane the k-th parameter names")


@spec("route", "template::XMVectorPermute")
def _(A):
    return R([A.w(int(k) >> 2, int(k) & 3) for k in A.meta["variant"].split("_")], mode="exact", note="lane k of the result is the lane the k-th parameter names")
