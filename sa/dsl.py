"""Specification language: expected results written as terms over a function's inputs.

A specification is a Python function spec(A) that builds, with ordinary arithmetic on W (32-bit word)
and B (condition) objects, the words the function must leave in its result ("out") and in every object
it may write ("a0", "a1", ...).  It returns R(...) or a list of R (accepted alternatives).
"""
from fractions import Fraction
import llir
from llir import T, const, f2b, mk_ite, mk_not, mk_band, mk_bor, fbin, fcmp, icmp, bitop, arith, fneg, fabs_, slc, cat, zext, sext

PI = 3.141592654
FULL = 0xFFFFFFFF


def lit(x):
    if isinstance(x, W):
        return x
    return W(const(32, f2b(float(x))))


def bits32(x):
    return W(const(32, x & FULL))


class B:
    """a condition"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __and__(self, o):
        return B(mk_band(self.t, o.t))

    def __or__(self, o):
        return B(mk_bor(self.t, o.t))

    def __invert__(self):
        return B(mk_not(self.t))

    def ite(self, a, b):
        return W(mk_ite(self.t, lit(a).t, lit(b).t))

    def iteb(self, a, b):
        return B(mk_ite(self.t, a.t, b.t))

    def mask(self):
        return W(mk_ite(self.t, const(32, FULL), const(32, 0)))

    def u32(self, a, b):
        return W(mk_ite(self.t, const(32, a), const(32, b)))

    def byte(self):
        return W(mk_ite(self.t, const(8, 1), const(8, 0)))


TRUE, FALSE = B(llir.TRUE), B(llir.FALSE)


def allb(bs):
    r = TRUE
    for b in bs:
        r = r & b
    return r


def anyb(bs):
    r = FALSE
    for b in bs:
        r = r | b
    return r


class W:
    """a 32-bit word (as float unless an integer operation is used)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _b(op):
        def f(self, o):
            return W(fbin(op, self.t, lit(o).t))

        def g(self, o):
            return W(fbin(op, lit(o).t, self.t))
        return f, g
    __add__, __radd__ = _b("fadd")
    __sub__, __rsub__ = _b("fsub")
    __mul__, __rmul__ = _b("fmul")
    __truediv__, __rtruediv__ = _b("fdiv")

    def __neg__(self):
        return W(fneg(self.t))

    def __abs__(self):
        return W(fabs_(self.t))

    def _c(p, sw=False):
        def f(self, o):
            a, b = self.t, lit(o).t
            return B(fcmp(p, b, a) if sw else fcmp(p, a, b))
        return f
    __lt__, __le__ = _c("olt"), _c("ole")
    __gt__, __ge__ = _c("olt", True), _c("ole", True)

    def eq(self, o):
        return B(fcmp("oeq", self.t, lit(o).t))

    def ne(self, o):
        """not equal, true for unordered operands"""
        return ~self.eq(o)

    def isnan(self):
        return B(fcmp("uno", self.t, self.t))

    def isinf(self):
        return abs(self).eq(bits32(0x7F800000))

    def sqrt(self):
        return W(T.mk("sqrt", self.t))

    def floor(self):
        return W(T.mk("floor", self.t))

    def ceil(self):
        return W(T.mk("ceil", self.t))

    def trunc(self):
        return W(T.mk("ftrunc", self.t))

    def rnd(self):
        return W(T.mk("rndeven", self.t))

    # integer / bit operations
    def band(self, o):
        return W(bitop("and", 32, self.t, o.t))

    def bor(self, o):
        return W(bitop("or", 32, self.t, o.t))

    def bxor(self, o):
        return W(bitop("xor", 32, self.t, o.t))

    def bnot(self):
        return W(bitop("xor", 32, self.t, const(32, FULL)))

    def ieq(self, o):
        return B(icmp("eq", self.t, o.t))

    def ult(self, o):
        return B(icmp("ult", self.t, o.t))

    def iadd(self, o):
        return W(arith("add", 32, self.t, o.t))

    def isub(self, o):
        return W(arith("sub", 32, self.t, o.t))

    def neg_(self):
        """sign bit set"""
        return B(T.mk("icmp", "neg", self.t))

    def sl(self, off, w):
        return W(slc(self.t, off, w))


def fma(a, b, c):
    return a * b + c


def fn(name, *xs):
    return W(T.mk("fn", name, *[lit(x).t for x in xs]))


def select(a, b, c):
    """bitwise (a & ~c) | (b & c)"""
    return a.band(c.bnot()).bor(b.band(c))


def vmin(a, b):
    return (a < b).ite(a, b)


def vmax(a, b):
    return (a > b).ite(a, b)


class R:
    """expected words; None = unconstrained word, missing object = must be unchanged/absent"""

    def __init__(self, out=None, care=None, mode="real", note="", assume=None, also=(), cut=None, positive=(), leak=False, **objs):
        self.leak = leak          # words outside the formula may take part in the arithmetic (they cancel)
        self.objs = dict(objs)
        self.assume = assume      # {(obj, word): (obj, word) or W}: input words known to equal another word or a value
        self.cut = cut            # {(obj, word): k}: this result word is word k of the pseudo-input "cut" wherever it is used
        self.positive = list(positive)   # values that are positive on the domain
        self.also = list(also)    # further obligations
        if out is not None:
            self.objs["out"] = out
        self.care, self.mode, self.note = care, mode, note

    def __repr__(self):
        return "R(%s)" % self.note


class Args:
    def __init__(self, meta, cfg):
        self.meta, self.cfg = meta, cfg
        self.args = {a["i"]: a for a in meta["args"]}

    def w(self, i, k=0):
        """word k of argument i"""
        return W(T.mk("in", 32, "a%d" % i, 4 * k))

    def words(self, i, n):
        return [self.w(i, k) for k in range(n)]

    def v(self, i):
        return [self.w(i, k) for k in range(4)]

    def f(self, i):
        return self.w(i)

    def m(self, i):
        return [[self.w(i, 4 * r + c) for c in range(4)] for r in range(4)]

    def old(self, obj, k):
        return W(T.mk("in", 32, obj, 4 * k))

    def c(self, i):
        """constant (enumerated) argument"""
        return self.args[i]["value"]

    def boolean(self, i):
        return B(llir.slc(T.mk("in", 32, "a%d" % i, 0), 0, 1))

    @property
    def nargs(self):
        return len(self.args)


SPECS = {}    # path -> (property id, function)


def spec(prop, *paths, **opts):
    def deco(f):
        for p in paths:
            assert p not in SPECS, p
            SPECS[p] = (prop, f, opts)
        return f
    return deco


PATTERNS = []     # (property tag, regex over paths, function, opts, least number of matches)


def pspec(prop, rx, least, **opts):
    def deco(f):
        PATTERNS.append((prop, rx, f, opts, least))
        return f
    return deco
