"""Accuracy of the approximated functions: abstract interpretation of the value terms (llir) with
Taylor models.

The parameter interval is divided; on each part every word of the term is one of
  * a constant bit pattern, or
  * a float given by a polynomial in the parameter plus a bound on everything else
    (truncation of the polynomial, the rounding of each single-precision operation: 2^-24 relative
    and 2^-149 absolute, the documented error of rcp/rsqrt).
Tests that the ranges do not decide are taken both ways, roundings to an integer every way; parts
on which the required bound is not met are divided again.  Nothing is executed: the result holds
for every input of the interval.
"""
import math, struct
import llir

DEG = 8
U = 2.0 ** -24
TINY = 2.0 ** -149
SLACK = 1e-15
SCALE = 1.0         # below 1: demand more than the bounds (to measure their headroom)


class Fork(Exception):
    def __init__(self, t, alts):
        self.t, self.alts = t, alts


class Split(Exception):
    pass


class Odd(Exception):
    """outside what the domain represents"""


class NotANumber(Exception):
    """an operation with a NaN operand, or the square root of a negative number"""


class TM:
    __slots__ = ("p", "e")

    def __init__(self, p, e=0.0):
        self.p, self.e = p, e

    def rad(self):
        return sum(abs(x) for x in self.p[1:]) + self.e

    def rng(self):
        r = self.rad()
        # quadratic refinement would be possible; linear bound suffices with subdivision
        return self.p[0] - r, self.p[0] + r

    def mag(self):
        return abs(self.p[0]) + self.rad()

    def isconst(self):
        return self.e == 0 and not any(self.p[1:])


def K(x):
    return TM([x])


def trim(p):
    while len(p) > 1 and p[-1] == 0:
        p = p[:-1]
    return p


def fit(p, e):
    if len(p) > DEG + 1:
        e += sum(abs(x) for x in p[DEG + 1:])
        p = p[:DEG + 1]
    return TM(p, e + SLACK * sum(abs(x) for x in p))


def add(a, b, s=1.0):
    if a.isconst() and b.isconst():
        x, y = a.p[0], s * b.p[0]
        z = x + y
        return TM([z], 0.0 if z - x == y and z - y == x else SLACK * abs(z))
    n = max(len(a.p), len(b.p))
    p = [(a.p[i] if i < len(a.p) else 0.0) + s * (b.p[i] if i < len(b.p) else 0.0) for i in range(n)]
    return TM(trim(p), a.e + b.e + SLACK * (abs(a.p[0]) + abs(b.p[0])))


def sub(a, b):
    return add(a, b, -1.0)


def scale(a, k):
    return TM([x * k for x in a.p], a.e * abs(k))


def mul(a, b):
    if a.isconst():
        return scale(b, a.p[0])
    if b.isconst():
        return scale(a, b.p[0])
    p = [0.0] * (len(a.p) + len(b.p) - 1)
    for i, x in enumerate(a.p):
        if x:
            for j, y in enumerate(b.p):
                p[i + j] += x * y
    sa, sb = sum(map(abs, a.p)), sum(map(abs, b.p))
    return fit(p, a.e * sb + b.e * sa + a.e * b.e)


def compose(cs, rem, a):
    """sum cs[k] (a - a0)^k, remainder rem"""
    g = TM([0.0] + a.p[1:], a.e)
    r = K(cs[-1])
    for c in reversed(cs[:-1]):
        r = add(mul(r, g), K(c))
    return TM(r.p, r.e + rem + SLACK * abs(cs[0]))


def inv(a):
    c, h = a.p[0], a.rad()
    if abs(c) <= h * 1.25:
        raise Split()
    q = h / abs(c)
    cs = [(-1) ** k / c ** (k + 1) for k in range(DEG + 1)]
    return compose(cs, q ** (DEG + 1) / (abs(c) * (1 - q)), a)


def sqrt(a):
    lo, hi = a.rng()
    if hi <= 0 or (lo <= 0 and hi < 1e-8):
        h = math.sqrt(max(hi, 0.0))
        return TM([h / 2], h / 2 + 1e-18)
    c, h = a.p[0], a.rad()
    if c <= h * 1.25:
        raise Split()
    q, cs, b = h / c, [], 1.0
    for k in range(DEG + 1):
        cs.append(math.sqrt(c) * b / c ** k)
        b *= (0.5 - k) / (k + 1)
    return compose(cs, math.sqrt(c) * q ** (DEG + 1) / (1 - q), a)


def exp(a):
    c, h = a.p[0], a.rad()
    if h > 2:
        raise Split()
    e = math.exp(c)
    cs, f = [], 1.0
    for k in range(DEG + 1):
        cs.append(e / f)
        f *= k + 1
    return compose(cs, e * math.exp(h) * h ** (DEG + 1) / f, a)


def trig(a, co):
    c, h = a.p[0], a.rad()
    if h > 2:
        raise Split()
    s, k0 = (math.cos(c), 1) if co else (math.sin(c), 0)
    t = [math.sin(c), math.cos(c), -math.sin(c), -math.cos(c)]
    cs, f = [], 1.0
    for k in range(DEG + 1):
        cs.append(t[(k + k0) % 4] / f)
        f *= k + 1
    return compose(cs, h ** (DEG + 1) / f, a)


def sin(a):
    return trig(a, 0)


def cos(a):
    return trig(a, 1)


def tan(a):
    return mul(sin(a), inv(cos(a)))


def atan(a):
    c, h = a.p[0], a.rad()
    rho = math.sqrt(1 + c * c)
    q = h / rho
    if q > 0.6:
        raise Split()
    # 1/(1+(c+x)^2) = 1/((1+c^2) + 2c x + x^2)
    d, g = [1 + c * c, 2 * c, 1.0], []
    for k in range(DEG + 1):
        v = 1.0 if k == 0 else 0.0
        for j in (1, 2):
            if k >= j:
                v -= d[j] * g[k - j]
        g.append(v / d[0])
    cs = [math.atan(c)] + [g[k - 1] / k for k in range(1, DEG + 1)]
    return compose(cs, q ** (DEG + 1) / ((DEG + 1) * (1 - q)), a)


def asin(a):
    c, h = a.p[0], a.rad()
    if c > 0.75:
        return sub(K(math.pi / 2), scale(asin(sqrt(scale(sub(K(1.0), a), 0.5))), 2.0))
    if c < -0.75:
        return scale(asin(scale(a, -1.0)), -1.0)
    rho = (1 - abs(c)) * 0.9
    if rho <= 0 or h / rho > 0.6:
        raise Split()
    q = h / rho
    # f' = (1-x^2)^(-1/2): (1-x^2) f'' = x f'
    g = [1 / math.sqrt(1 - c * c)]
    # with y = f'(c+x): (1-c^2 - 2cx - x^2) y' = (c + x) y
    for k in range(DEG):
        s = c * g[k] + (g[k - 1] if k else 0.0)
        s += 2 * c * k * g[k] + ((k - 1) * g[k - 1] if k else 0.0)
        g.append(s / ((1 - c * c) * (k + 1)))
    cs = [math.asin(c)] + [g[k - 1] / k for k in range(1, DEG + 1)]
    return compose(cs, 1.6 * q ** (DEG + 1) / (1 - q), a)


def f2(bits):
    return struct.unpack("<f", struct.pack("<I", bits & 0xFFFFFFFF))[0]


def fbits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def pow2(x):
    return x != 0 and math.frexp(abs(x))[0] == 0.5


LN2 = math.log(2.0)
# library functions and summarised functions of the crate: real function and assumed relative error
FN = {"sin": sin, "cos": cos, "tan": tan, "asin": asin, "atan": atan,
      "acos": lambda a: add(K(math.pi / 2), asin(a), -1.0), "exp": exp, "exp2": lambda a: exp(scale(a, LN2)),
      "sinh": lambda a: scale(sub(exp(a), exp(scale(a, -1.0))), 0.5), "cosh": lambda a: scale(add(exp(a), exp(scale(a, -1.0))), 0.5),
      "tanh": lambda a: sub(K(1.0), scale(inv(add(exp(scale(a, 2.0)), K(1.0))), 2.0))}


class Eval:
    def __init__(self, inputs, dec, fnerr):
        self.inputs, self.dec, self.fnerr = inputs, dec, fnerr
        self.memo = {}

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._ev(t)
        return r

    def fl(self, t):
        v = self.ev(t)
        if isinstance(v, int):
            x = f2(v)
            if x != x:
                raise NotANumber()
            if abs(x) == math.inf:
                raise Odd("arithmetic with %r" % x)
            return K(x)
        return v

    def rnd(self, v, exact=False):
        if exact:
            return v
        if v.isconst():
            x = v.p[0]
            if abs(x) < 3.4e38:
                # the rounded constant itself
                return K(f2(fbits(x)))
        return TM(v.p, v.e + U * v.mag() + TINY)

    def big(self, t, v):
        """a sum so large that single precision leaves only whole (or half) numbers"""
        lo, hi = v.rng()
        m = min(abs(lo), abs(hi))
        if lo * hi <= 0 or m < 2.0 ** 22 or max(abs(lo), abs(hi)) > 2.0 ** 24:
            return None
        g = 0.5 if m < 2.0 ** 23 else 1.0
        a, b = math.ceil(lo / g - 0.5), math.floor(hi / g + 0.5)
        if b - a > 3:
            return None
        return fbits((a if a == b else self.choose(t, list(range(a, b + 1)))) * g)

    def choose(self, t, alts):
        if t in self.dec:
            return self.dec[t]
        raise Fork(t, alts)

    def cond(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v)
        raise Odd("condition")

    def _ev(self, t):
        n = llir.nd(t)
        o = n[0]
        f = getattr(self, "o_" + o, None)
        if f is None:
            raise Odd("operation " + o)
        try:
            return f(t, n)
        except NotANumber:
            return 0x7FC00000

    def o_c(self, t, n):
        return n[2]

    def o_in(self, t, n):
        v = self.inputs.get((n[2], n[3]))
        if v is None:
            raise Odd("depends on input word %d of %s" % (n[3] // 4, n[2]))
        return v

    def two(self, n, k=1):
        return self.fl(n[k]), self.fl(n[k + 1])

    def o_fadd(self, t, n):
        a, b = self.two(n)
        z = (a.isconst() and a.p[0] == 0) or (b.isconst() and b.p[0] == 0)
        v = add(a, b)
        r = self.big(t, v)
        return r if r is not None else self.rnd(v, z)

    def o_fsub(self, t, n):
        if n[1] == n[2]:
            return 0
        a, b = self.two(n)
        z = (a.isconst() and a.p[0] == 0) or (b.isconst() and b.p[0] == 0)
        # subtraction of values within a factor of two of each other is exact
        if not z and a.p[0] * b.p[0] > 0:
            (al, ah), (bl, bh) = a.rng(), b.rng()
            if a.p[0] < 0:
                al, ah, bl, bh = -ah, -al, -bh, -bl
            z = al > 0 and bl > 0 and ah <= 2 * bl and bh <= 2 * al
        return self.rnd(sub(a, b), z)

    def o_fmul(self, t, n):
        a, b = self.two(n)
        z = any(x.isconst() and (x.p[0] == 0 or (pow2(x.p[0]) and abs(x.p[0]) >= 0.25)) for x in (a, b))
        return self.rnd(mul(a, b), z)

    def o_fma(self, t, n):
        a, b = self.two(n)
        c = self.fl(n[3])
        m = mul(a, b)
        z = m.isconst() and m.p[0] == 0 or (c.isconst() and c.p[0] == 0 and any(x.isconst() and pow2(x.p[0]) for x in (a, b)))
        return self.rnd(add(m, c), z)

    def o_fneg(self, t, n):
        return scale(self.fl(n[1]), -1.0)

    def o_fdiv(self, t, n):
        a, b = self.two(n)
        return self.rnd(mul(a, inv(b)))

    def o_sqrt(self, t, n):
        a = self.fl(n[1])
        if a.rng()[1] < -1e-6:
            raise NotANumber()
        return self.rnd(sqrt(a))

    def o_rcp(self, t, n):
        v = inv(self.fl(n[1]))
        return TM(v.p, v.e + 1.5 * 2.0 ** -12 * v.mag())

    def o_fn(self, t, n):
        if n[1] not in FN:
            raise Odd("function " + n[1])
        v = FN[n[1]](self.fl(n[2]))
        return TM(v.p, v.e + self.fnerr.get(n[1], 2 * U) * max(v.mag(), 0.0) + TINY)

    def o_ite(self, t, n):
        return self.ev(n[2]) if self.cond(n[1]) else self.ev(n[3])

    def o_not(self, t, n):
        return not self.cond(n[1])

    def o_band(self, t, n):
        try:
            a = self.cond(n[1])
        except Fork:
            if not self.cond(n[2]):
                return False
            raise
        return a and self.cond(n[2])

    def o_bor(self, t, n):
        try:
            a = self.cond(n[1])
        except Fork:
            if self.cond(n[2]):
                return True
            raise
        return a or self.cond(n[2])

    def o_fcmp(self, t, n):
        p = n[1]
        a, b = self.ev(n[2]), self.ev(n[3])
        if isinstance(a, int) and isinstance(b, int):
            a, b = f2(a), f2(b)
            un = a != a or b != b
            lo = (a, a), (b, b)
        else:
            un = any(isinstance(x, int) and f2(x) != f2(x) for x in (a, b))
            lo = tuple((f2(x), f2(x)) if isinstance(x, int) else x.rng() for x in (a, b))
        if p in ("ord", "uno"):
            return un == (p == "uno")
        if un:
            return p[0] == "u"
        (al, ah), (bl, bh) = lo
        q = p[1:]
        if q in ("gt", "ge"):
            al, ah, bl, bh = bl, bh, al, ah
            q = "l" + q[1]
        r = None
        if q == "lt":
            r = True if ah < bl else False if al >= bh else None
        elif q == "le":
            r = True if ah <= bl else False if al > bh else None
        elif q in ("eq", "ne"):
            r = False if ah < bl or bh < al else True if al == ah == bl == bh else None
            if r is not None and q == "ne":
                r = not r
        else:
            raise Odd("fcmp " + p)
        return r if r is not None else self.choose(t, (True, False))

    def sgn(self, v):
        """sign bit of a word, None if not known"""
        if isinstance(v, int):
            return v >> 31 & 1
        if isinstance(v, Bits):
            raise Odd("bits")
        lo, hi = v.rng()
        if v.e == 0 and lo < hi:        # exact values of a half-open part: its end is +0 or -0 accordingly
            return 0 if lo >= 0 else 1 if hi <= 0 else None
        return 0 if lo > 0 else 1 if hi < 0 else None

    def sign_of(self, t, v):
        s = self.sgn(v)
        return s if s is not None else self.choose(("sign", t), (0, 1))

    def o_icmp(self, t, n):
        p = n[1]
        a = self.ev(n[2])
        if p == "neg":
            return bool(self.sign_of(n[2], a))
        b = self.ev(n[3])
        if isinstance(a, int) and isinstance(b, int):
            def sg(x):
                return x - (1 << 32) if x >> 31 & 1 else x
            x, y = (a, b) if p[0] in "ue" or p == "ne" else (sg(a), sg(b))
            return {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[p if len(p) == 2 and p in ("eq", "ne") else p[1:]]
        if p in ("slt", "sgt", "sle", "sge"):
            # order of the bit patterns as signed numbers
            wa, wb = n[2], n[3]
            if p in ("sgt", "sge"):
                a, b, wa, wb = b, a, wb, wa
            sa, sb = self.sign_of(wa, a), self.sign_of(wb, b)
            if sa != sb:
                return sa == 1

            def mags(v):
                if isinstance(v, int):
                    x = abs(f2(v))
                    return x, x
                lo, hi = sorted(map(abs, v.rng()))
                return lo, hi
            (al, ah), (bl, bh) = mags(a), mags(b)       # equal signs: ordered like the magnitudes
            strict = p in ("slt", "sgt")
            if ah < bl or (ah == bl and not strict):
                return True
            if al > bh or (al == bh and strict):
                return False
            return self.choose(t, (True, False))
        if p in ("eq", "ne"):
            return self.choose(t, (True, False))
        raise Odd("icmp " + p)

    def o_isfp(self, t, n):
        raise Odd("isfp")

    # ---- bit operations
    def o_and(self, t, n):
        try:
            a = self.ev(n[2])
        except (Split, Odd):
            if self.ev(n[3]) == 0:
                return 0
            raise
        if isinstance(a, int) and a == 0:
            return 0
        b = self.ev(n[3])
        if isinstance(a, int) and isinstance(b, int):
            return a & b
        w = n[3]
        if isinstance(b, int):
            a, b, w = b, a, n[2]
        if not isinstance(a, int):
            raise Odd("and")
        if a == 0:
            return 0
        if a == 0xFFFFFFFF:
            return b
        if a == 0x80000000:
            return self.sign_of(w, b) << 31
        if a == 0x7FFFFFFF:
            return scale(b, -1.0) if self.sign_of(w, b) else b
        return Bits()

    def o_or(self, t, n):
        a, b = self.ev(n[2]), self.ev(n[3])
        if isinstance(a, int) and isinstance(b, int):
            return a | b
        w = n[3]
        if isinstance(b, int):
            a, b, w = b, a, n[2]
        if not isinstance(a, int):
            if isinstance(a, TM) and isinstance(b, TM) and n[2] != n[3]:
                if self.dec or any(l <= 0 <= h for l, h in (a.rng(), b.rng())):
                    raise Split()
                raise Odd("the bits of two different nonzero numbers are merged")
            raise Odd("or")
        if a == 0:
            return b
        if a & 0x7FFFFFFF == 0x7FFFFFFF:
            return 0xFFFFFFFF
        if a == 0x80000000:
            return b if self.sign_of(w, b) else scale(b, -1.0)
        raise Odd("or")

    def o_xor(self, t, n):
        a, b = self.ev(n[2]), self.ev(n[3])
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        if isinstance(b, int):
            a, b = b, a
        if not isinstance(a, int):
            raise Odd("xor")
        if a == 0:
            return b
        if a == 0x80000000:
            return scale(b, -1.0)
        raise Odd("xor")

    def ints(self, n, f):
        a, b = self.ev(n[2]), self.ev(n[3])
        if not (isinstance(a, int) and isinstance(b, int)):
            raise Odd(n[0])
        return f(a, b) & 0xFFFFFFFF

    def o_add(self, t, n):
        return self.ints(n, lambda a, b: a + b)

    def o_sub(self, t, n):
        return self.ints(n, lambda a, b: a - b)

    def o_mul(self, t, n):
        return self.ints(n, lambda a, b: a * b)

    def o_shl(self, t, n):
        return self.ints(n, lambda a, b: a << (b & 31))

    def o_lshr(self, t, n):
        return self.ints(n, lambda a, b: a >> (b & 31))

    def o_ashr(self, t, n):
        return self.ints(n, lambda a, b: (a - (1 << 32) if a >> 31 else a) >> (b & 31))

    def whole(self, t, v, f):
        lo, hi = v.rng()
        a, b = f(lo), f(hi)
        if b - a > 2:
            raise Split()
        return a if a == b else self.choose(t, list(range(a, b + 1)))

    def o_fptosi(self, t, n):
        return self.whole(t, self.fl(n[2]), lambda x: int(math.trunc(x))) & 0xFFFFFFFF

    def o_sitofp(self, t, n):
        v = self.ev(n[1])
        if not isinstance(v, int):
            raise Odd("sitofp")
        return fbits(float(v - (1 << 32) if v >> 31 else v))

    def o_ftrunc(self, t, n):
        return fbits(float(self.whole(t, self.fl(n[1]), lambda x: int(math.trunc(x)))))

    def o_floor(self, t, n):
        return fbits(float(self.whole(t, self.fl(n[1]), lambda x: int(math.floor(x)))))

    def o_ceil(self, t, n):
        return fbits(float(self.whole(t, self.fl(n[1]), lambda x: int(math.ceil(x)))))

    def o_rndeven(self, t, n):
        v = self.fl(n[1])
        lo, hi = v.rng()
        a, b = math.ceil(lo - 0.5), math.floor(hi + 0.5)
        if b - a > 2:
            raise Split()
        return fbits(float(a if a == b else self.choose(t, list(range(a, b + 1)))))

    o_rndaway = o_rndeven


class Bits:
    """some bits of a finite float: nothing known"""


def outcomes(t, inputs, fnerr, limit=64):
    """all abstract values of t over the ways its undecided tests may go"""
    todo, out, n = [{}], [], 0
    while todo:
        d = todo.pop()
        n += 1
        if n > limit:
            raise Split()
        try:
            E = Eval(inputs, d, fnerr)
            v = E.ev(t)
            out.append((d, v))
        except Fork as f:
            for x in f.alts:
                todo.append({**d, f.t: x})
    return out


class Piece:
    """a parameter interval; at(lo, hi) = (input value(s), reference value, required bound on |result - reference| * weight)"""

    def __init__(self, lo, hi, at, start=16):
        self.lo, self.hi, self.at, self.start = lo, hi, at, start


def prove(t, obj_words, piece, fnerr, tol=1e-7, stats=None):
    """None, or a description of where the bound is not met"""
    w = (piece.hi - piece.lo) / piece.start
    st = [(piece.lo + i * w, piece.lo + (i + 1) * w) for i in range(piece.start)]
    n = 0
    worst = 0.0
    open_ = []      # parts that could not be decided: the search for a definite violation goes on
    while st:
        lo, hi = st.pop()
        n += 1
        if n > 60000 or len(open_) > 300:
            return ("undecided", open_[0] if open_ else "too many parts", worst, n)
        why = None
        fine = hi - lo <= tol * max(1.0, abs(lo), abs(hi))
        try:
            x, ref, bound, weight = piece.at(lo, hi)
            for d, v in outcomes(t, {k: x for k in obj_words}, fnerr):
                if isinstance(v, bool) or isinstance(v, Bits):
                    raise Odd("result is not a float")
                if isinstance(v, int):
                    f = f2(v)
                    if f != f or abs(f) == math.inf:
                        why = "result is %r" % f
                        break
                    v = K(f)
                e = sub(v, ref)
                if weight is not None:
                    e = mul(e, weight)
                m = e.mag()
                if not m <= bound * SCALE:
                    if fine and rounding_only(t, obj_words, d, x, ref, weight, bound, fnerr):
                        why = "accumulated rounding may exceed %.3g" % bound
                        break
                    why = "error up to %.3g where %.3g is allowed" % (m, bound)
                    break
                worst = max(worst, m / bound)
        except Split:
            why = "not representable"
        except Odd as ex:
            if "depends on" in str(ex) or "merged" in str(ex):
                return "violation", str(ex), worst, n
            open_.append(str(ex))
            continue
        except (OverflowError, ZeroDivisionError) as ex:
            why = "overflow"
        if why is None:
            continue
        if fine:
            text = "%s for inputs near %.9g" % (why, piece.name(lo, hi) if hasattr(piece, "name") else (lo + hi) / 2)
            if why not in ("not representable", "overflow") and "rounding" not in why:
                return "violation", text, worst, n
            open_.append(text)
            # the neighbourhood of an undecided point is passed over
            hi2 = lo
            while st and st[-1][1] > hi2 - 1e-3 * (piece.hi - piece.lo) and st[-1][1] - st[-1][0] < 1e-3 * (piece.hi - piece.lo):
                st.pop()
            continue
        m = (lo + hi) / 2
        st += [(lo, m), (m, hi)]
    if open_:
        return "undecided", open_[0], worst, n
    return "ok", "", worst, n


def rounding_only(t, obj_words, dec, x, ref, weight, bound, fnerr):
    """the bound is missed only through the accumulated rounding errors: in real arithmetic the result is well within it"""
    global U
    keep, U = U, 0.0
    try:
        worst = 0.0
        for d, v in outcomes(t, {k: x for k in obj_words}, {k: 0.0 for k in fnerr}):
            if isinstance(v, int) and not isinstance(v, bool):
                v = K(f2(v))
            e = sub(v, ref)
            worst = max(worst, (mul(e, weight) if weight is not None else e).mag())
        return worst < 0.3 * bound
    except Exception:
        return True
    finally:
        U = keep


def ident(lo, hi):
    return TM([(lo + hi) / 2, (hi - lo) / 2])


def fixed(t, word, dom, want):
    """the result is the given bit pattern (or a NaN) for one bit pattern or a range of inputs"""
    x = dom if isinstance(dom, int) else ident(*dom)
    where = "input %r" % (f2(dom) if isinstance(dom, int) else (dom,))
    try:
        for d, v in outcomes(t, {word: x}, {}):
            if not isinstance(v, int) or isinstance(v, bool):
                return "violation", "result for %s is not fixed" % where
            if (f2(v) == f2(v)) if want == "nan" else v != want:
                return "violation", "result for %s is %r" % (where, f2(v))
    except Odd as e:
        # a library function of the argument
        return None if llir.nd(t)[0] == "fn" else ("undecided", str(e))
    except (Split, OverflowError) as e:
        return None if llir.nd(t)[0] == "fn" else ("undecided", "%s: not representable" % where)
    return None
