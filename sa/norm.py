"""Normal forms for the terms of llir: decision diagrams over comparison atoms whose leaves are

  exact mode : hash-consed IEEE terms (commutative, bitwise operators as truth tables)
  real mode  : values of the term as a rational function of its inputs, identified by its value
               at fixed points of a prime field (random interpretation, Gulwani & Necula 2004);
               fma = mul+add, estimates = the function they estimate, uninterpreted sqrt/sin/...

Comparisons of two values are ONE atom with outcomes lt/eq/gt(/unordered), so every predicate on the
same pair is a set of outcomes; atoms are identified up to positive or negative rational scaling.
Two programs with the same diagram compute the same value for every input (modulo the mode).
"""
import hashlib
import decimal
from decimal import Decimal
from fractions import Fraction
from llir import T, nd, width, b2f, f2b, Unsupported
import llir

# a 192-bit prime (first after pi*2^190): powers of two do not wrap around, float constants reconstruct
P = 0xc90fdaa22168c234c4c6628b80dc1cd129024e088a67cca9


class TooBig(Exception):
    pass


def _h(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=64).digest()
    return (int.from_bytes(d[:32], "little") % P, int.from_bytes(d[32:], "little") % P)


def inv(x):
    return pow(x, -1, P)


def frac_fp(fr):
    v = fr.numerator % P * inv(fr.denominator % P) % P
    return v


def ratrec(v, bound=1 << 90):
    """rational reconstruction of v mod P with small numerator/denominator, or None"""
    r0, r1, s0, s1 = P, v % P, 0, 1
    while r1 > bound:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        s0, s1 = s1, s0 - q * s1
    if s1 == 0 or abs(s1) > bound:
        return None
    if s1 < 0:
        r1, s1 = -r1, -s1
    return Fraction(r1, s1)


LT, EQ, GT, UN = 0, 1, 2, 3
PREDS = {"oeq": (EQ,), "one": (LT, GT), "olt": (LT,), "ole": (LT, EQ), "uno": (UN,)}
INF = 0x7F800000


DEC = decimal.Context(prec=60, Emax=100000, Emin=-100000)


def ieee(op, bs):
    """the single-precision result (bits) of one operation on constants; None if not decided here"""
    import math
    if any(b & 0x7FFFFFFF > INF for b in bs):
        return 0x7FC00000
    f = [b2f(b) for b in bs]
    try:
        if op == "fma":
            if all(math.isfinite(x) for x in f):
                v = Fraction(f[0]) * Fraction(f[1]) + Fraction(f[2])
                if v == 0:
                    return None
                w = float(v)
                # a double that is not a rounding boundary of single precision rounds the same way
                if Fraction(w) != v and f2b_sat(w) != f2b_sat(math.nextafter(w, math.inf)) or Fraction(w) != v and \
                        f2b_sat(w) != f2b_sat(math.nextafter(w, -math.inf)):
                    return None
                return f2b_sat(w)
            v = f[0] * f[1] + f[2]
        elif op == "sqrt":
            if f[0] < 0:
                return 0x7FC00000
            v = math.sqrt(f[0])
        elif op == "fdiv":
            if f[1] == 0:
                return 0x7FC00000 if f[0] == 0 else INF | ((bs[0] ^ bs[1]) & 0x80000000)
            v = f[0] / f[1]
        else:
            v = f[0] + f[1] if op == "fadd" else f[0] - f[1] if op == "fsub" else f[0] * f[1]
    except (OverflowError, ValueError):
        return None
    # double arithmetic followed by rounding to single is correctly rounded for one such operation
    return 0x7FC00000 if v != v else f2b_sat(v)


def f2b_sat(v):
    try:
        return f2b(v)
    except OverflowError:
        return INF if v > 0 else INF | 0x80000000


class Norm:
    def __init__(self, mode="real", finite=True, limit=400000, atomic=False):
        self.mode, self.finite, self.limit = mode, finite, limit
        self.atomic = atomic  # absolute values, minima and maxima stay operations instead of case splits
        self.maxset = {}
        self.nodes = []      # id -> (atom, children) | ('L', leaf)
        self.tab = {}
        self.atoms = []      # idx -> (nout, key, payload)
        self.atab = {}
        self.memo = {}
        self.apm = {}
        self.integral = set()
        self.TRUE = self.leaf(("b", 1))
        self.FALSE = self.leaf(("b", 0))
        self.nn = set()      # field values known non-negative (squares, sums of them, roots, ...)
        self.cnum = {}
        self.prov = {}       # field value -> (op, operand values): one way it was computed
        self.sub = {}
        self.ext, self.square = {}, {}
        self.known = {}      # y*y -> y for values assumed positive
        self.pos = set()     # values known strictly positive
        self.fbase = {}      # exact mode: |x|, -x -> x
        self.fneg = {}       # exact mode: -x -> x
        self.root = {}       # x -> sqrt(x)

    # ------------------------------------------------ diagrams
    def leaf(self, l):
        k = ("L", l)
        i = self.tab.get(k)
        if i is None:
            i = len(self.nodes)
            self.nodes.append(k)
            self.tab[k] = i
        return i

    def isleaf(self, d):
        return self.nodes[d][0] == "L"

    def lf(self, d):
        return self.nodes[d][1]

    def node(self, atom, ch):
        ch = tuple(ch)
        a = self.atoms[atom]
        if a[0] >= 3 and self.isleaf(ch[EQ]) and ch[EQ] != ch[LT] and self.mode == "real":
            # continuity: on the eq outcome a value may be rewritten by any multiple of a-b
            le = self.lf(ch[EQ])
            for s in (LT, GT):
                if self.isleaf(ch[s]):
                    ls = self.lf(ch[s])
                    if self.same_mod(le, ls, a[2]):
                        ch = ch[:EQ] + (ch[s],) + ch[EQ + 1:]
                        break
        if a[0] >= 3 and self.mode == "real" and a[2] is not None:
            e2 = self.subst0(ch[EQ], a[2])
            if e2 != ch[EQ]:
                ch = ch[:EQ] + (e2,) + ch[EQ + 1:]
            if self.finite:
                # an outcome that cannot occur takes the value of the eq outcome
                if a[2] in self.nn:
                    ch = (ch[EQ],) + ch[1:]
                elif ((-a[2][0]) % P, (-a[2][1]) % P) in self.nn:
                    ch = ch[:GT] + (ch[EQ],) + ch[GT + 1:]
        if all(c == ch[0] for c in ch):
            return ch[0]
        if a[0] >= 3 and self.mode == "real" and a[2] is not None and ch[LT] == ch[GT] and all(c == ch[LT] for c in ch[3:]):
            if self.subst0(ch[LT], a[2]) == ch[EQ]:
                return ch[LT]
        k = (atom, ch)
        i = self.tab.get(k)
        if i is None:
            i = len(self.nodes)
            if i > self.limit:
                raise TooBig("diagram limit")
            self.nodes.append(k)
            self.tab[k] = i
        return i

    def subst0(self, dd, d):
        """the diagram under d = 0 (only through the recorded provenance of its leaves)"""
        st = self.sub.get(d)
        if st is None:
            neg = ((-d[0]) % P, (-d[1]) % P)
            zero = set()
            for x in (d, neg):
                zero.add(x)
                if x in self.root:
                    zero.add(self.root[x])
                pr = self.prov.get(x)
                if pr and pr[0] == "sqrt":
                    zero.add(pr[1])
            # a vanishing sum of non-negative terms makes every term vanish
            todo = list(zero)
            while todo:
                x = todo.pop()
                new = [((-x[0]) % P, (-x[1]) % P)]
                pr = self.prov.get(x)
                if not pr:
                    pass
                elif pr[0] == "mul" and pr[1] != pr[2] and (pr[1][0] == pr[1][1] or pr[2][0] == pr[2][1]):
                    new.append(pr[2] if pr[1][0] == pr[1][1] else pr[1])
                elif pr[0] == "sub" and pr[1] == (0, 0):
                    new.append(pr[2])
                elif pr[0] == "add" and self.isnn(pr[1]) and self.isnn(pr[2]):
                    new += pr[1:3]
                elif pr[0] == "mul" and pr[1] == pr[2]:
                    new += pr[1:2]
                elif pr[0] == "sqrt":
                    new += pr[1:2]
                for y in new:
                    if y not in zero:
                        zero.add(y)
                        todo.append(y)
            vals = {z: (0, 0) for z in zero}
            pr = self.prov.get(d) or self.prov.get(neg)
            if pr and pr[0] in ("sub", "add"):
                x, y = pr[1], pr[2]
                if pr[0] == "add":
                    y = ((-y[0]) % P, (-y[1]) % P)
                # d = x - y = 0: rewrite one side by the other (towards constants)
                if x[0] == x[1] or (y[0] != y[1] and x < y):
                    x, y = y, x
                if x[0] != x[1] and x not in vals and y not in zero and x not in zero:
                    vals[x] = y
                    vals[((-x[0]) % P, (-x[1]) % P)] = ((-y[0]) % P, (-y[1]) % P)
            st = self.sub[d] = (vals, {})
        vals, memo = st

        def go(x):
            r = memo.get(x)
            if r is None:
                n = self.nodes[x]
                if n[0] == "L":
                    l = n[1]
                    r = x
                    if l[0] == "f":
                        v = self._sub(l[1], vals, 0)
                        if v != l[1]:
                            r = self.F(v)
                    elif l[0] == "w":
                        l2 = self._wsub(l, vals)
                        if l2 != l:
                            r = self.leaf(l2)
                else:
                    ad = self.atoms[n[0]][2]
                    k = self.csign(self._sub(ad, vals, 0)) if ad is not None else None
                    if k is not None:
                        r = go(n[1][k + 1])
                    else:
                        ch = [go(c) for c in n[1]]
                        r = x if tuple(ch) == n[1] else self.case(n[0], ch)
                memo[x] = r
            return r
        n = self.nodes[dd]
        if n[0] != "L" and self.size(dd) > 60:
            return dd
        return go(dd)

    def csign(self, v):
        """sign of a constant value, else None"""
        if v[0] != v[1]:
            return None
        r = self.cval(v)
        return None if r is None or (r and abs(r) < Decimal("1e-40")) else (r > 0) - (r < 0)

    def cval(self, v):
        """numeric value of a constant (rational, or irrational with a recorded derivation), else None"""
        if v in self.cnum:
            return self.cnum[v]
        r = ratrec(v[0]) if v[0] == v[1] else None
        return None if r is None else DEC.divide(Decimal(r.numerator), Decimal(r.denominator))

    def _crec(self, v, op, args):
        if ratrec(v[0]) is not None:
            return
        a = [self.cval(x) for x in args]
        if None in a or (op == "div" and a[1] == 0) or (op == "sqrt" and a[0] < 0):
            return
        f = {"add": DEC.add, "sub": DEC.subtract, "mul": DEC.multiply, "div": DEC.divide, "sqrt": DEC.sqrt}.get(op)
        if f:
            self.cnum[v] = f(*a)

    def _sub(self, v, vals, depth):
        r = vals.get(v)
        if r is not None:
            return r
        pr = self.prov.get(v)
        if pr is None or depth > 200:
            return v
        vals[v] = v
        args = [self._sub(x, vals, depth + 1) for x in pr[1:]]
        op = pr[0]
        if tuple(args) == pr[1:]:
            r = v
        elif op == "add":
            r = self.vadd(*args)
        elif op == "sub":
            r = self.vsub(*args)
        elif op == "mul":
            r = self.vmul(*args)
        elif op == "div":
            r = self.vdiv(*args)
        elif op == "sqrt":
            r = self.sqrt_fp(args[0])
            if r != (0, 0):
                self.nn.add(r)
        elif op in ("Rn", "Tr", "Ra"):
            r = self._int(op, args[0])
        else:
            r = v
        vals[v] = r
        return r

    def _wsub(self, l, vals):
        """a word leaf with the field values inside it substituted"""
        if isinstance(l, tuple):
            if len(l) == 2 and isinstance(l[0], int) and isinstance(l[1], int):
                return self._sub(l, vals, 0)
            r = tuple(self._wsub(x, vals) for x in l)
            if len(r) == 2 and r[0] == "w" and r != l and isinstance(r[1], tuple):
                q = r[1]
                if len(q) == 3 and q[0] in ("fptosi", "fptoui"):
                    return self.toint_leaf(*q)
                if q[0] == "tt":
                    _, w, vs, tab = q
                    ks = [i for i, v in enumerate(vs) if v[0] == "k"]
                    if len(ks) == len(vs):
                        out = 0
                        for bit in range(w):
                            j = 0
                            for i, v in enumerate(vs):
                                j |= (v[1] >> bit & 1) << i
                            out |= (tab >> j & 1) << bit
                        return ("k", out)
            return r
        return l

    def toint_leaf(self, nm, w, v):
        r = ratrec(v[0]) if v[0] == v[1] else None
        if r is not None and abs(r) < 1 << (w - 1):
            return ("k", int(r) & ((1 << w) - 1))
        return ("w", (nm, w, v))

    def rec(self, v, op, *args):
        if v[0] == v[1] and v != (0, 0) and v not in self.cnum and v not in args:
            self._crec(v, op, args)
        if v not in self.prov and v != (0, 0) and not (v[0] == v[1]):
            if v in args:
                return v
            self.prov[v] = (op,) + args
        return v

    def same_mod(self, l1, l2, d):
        f1, f2 = self.num(l1, soft=True), self.num(l2, soft=True)
        if f1 is None or f2 is None or d is None:
            return False
        e1, e2 = (f1[0] - f2[0]) % P, (f1[1] - f2[1]) % P
        # e = s*d with the same field element s at both points
        if d[0] == 0 or d[1] == 0:
            return False
        s1 = e1 * inv(d[0]) % P
        return s1 == e2 * inv(d[1]) % P and ratrec(s1, 1 << 20) is not None

    def top(self, d):
        n = self.nodes[d]
        return 1 << 60 if n[0] == "L" else n[0]

    def cof(self, d, atom, j):
        n = self.nodes[d]
        if n[0] == atom:
            return n[1][j]
        return d

    def apply(self, name, f, *ds):
        """lift f(leaf...)->diagram over the diagrams ds"""
        key = (name, ds)
        r = self.apm.get(key)
        if r is not None:
            return r
        t = min(self.top(d) for d in ds)
        if t == 1 << 60:
            r = f(*[self.lf(d) for d in ds])
        else:
            n = self.atoms[t][0]
            r = self.case(t, [self.apply(name, f, *[self.cof(d, t, j) for d in ds]) for j in range(n)])
        self.apm[key] = r
        return r

    def case(self, atom, ch):
        """node on `atom` whatever the order of atoms inside ch"""
        t = min([self.top(c) for c in ch])
        if t > atom:
            return self.node(atom, ch)
        if t == atom:
            return self.case(atom, [self.cof(c, atom, j) for j, c in enumerate(ch)])
        key = ("case", atom, tuple(ch))
        r = self.apm.get(key)
        if r is None:
            r = self.node(t, [self.case(atom, [self.cof(c, t, j) for c in ch]) for j in range(self.atoms[t][0])])
            self.apm[key] = r
        return r

    def ite(self, c, a, b):
        if c == self.TRUE or a == b:
            return a
        if c == self.FALSE:
            return b
        key = ("ite", c, a, b)
        r = self.apm.get(key)
        if r is None:
            t = min(self.top(c), self.top(a), self.top(b))
            r = self.node(t, [self.ite(self.cof(c, t, j), self.cof(a, t, j), self.cof(b, t, j)) for j in range(self.atoms[t][0])])
            self.apm[key] = r
        return r

    def bnot(self, c):
        return self.ite(c, self.FALSE, self.TRUE)

    def atom(self, nout, key, payload=None):
        i = self.atab.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((nout, key, payload))
            self.atab[key] = i
        return i

    def batom(self, key):
        return self.case(self.atom(2, key), [self.FALSE, self.TRUE])

    # ------------------------------------------------ numeric leaves
    def num(self, l, soft=False):
        """leaf -> field pair"""
        if l[0] == "f":
            return l[1]
        if l[0] == "k":
            b = l[1]
            if (b & INF) == INF:
                if b & 0x7FFFFF:
                    return _h("nan", b)
                v = _h("inf")
                return v if b >> 31 == 0 else ((-v[0]) % P, (-v[1]) % P)
            if b > 0xFFFFFFFF:
                return _h("wide", b)
            v = frac_fp(Fraction(b2f(b)))
            return (v, v)
        if l[0] == "m":
            return self.fadd_fp(l[1], l[2])
        if soft:
            return None
        return _h("asfloat", l)

    @staticmethod
    def fadd_fp(a, b):
        return ((a[0] + b[0]) % P, (a[1] + b[1]) % P)

    def F(self, pr):
        return self.leaf(("f", pr))

    # ------------------------------------------------ evaluation
    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            self.memo[t] = r
        return r

    def _ev(self, t):
        n = nd(t)
        op = n[0]
        f = getattr(self, "e_" + op, None)
        if f is None:
            raise Unsupported("norm op " + op)
        return f(t, n)

    def e_c(self, t, n):
        if n[1] == 1:
            return self.TRUE if n[2] else self.FALSE
        return self.leaf(("k", n[2]))

    def e_in(self, t, n):
        if n[1] == 1:
            return self.batom(("in", n))
        if self.mode == "real":
            return self.F(_h(n))
        return self.leaf(("x", t))

    def e_undef(self, t, n):
        return self.leaf(("u",))

    def amax(self, x, y):
        """max of two field values as an operation: associative, commutative, idempotent"""
        d = self.fp_add(x, y, -1)
        nd_ = self.fp_add(y, x, -1)
        if d == (0, 0) or self.isnn(d):
            return x
        if self.isnn(nd_):
            return y
        if x == ((-y[0]) % P, (-y[1]) % P):
            return self.aabs(x)
        ops = self.maxset.get(x, frozenset((x,))) | self.maxset.get(y, frozenset((y,)))
        v = _h("max", tuple(sorted(ops)))
        self.maxset[v] = ops
        if any(self.isnn(o) for o in ops):
            self.nn.add(v)
        if any(self.ispos(o) for o in ops):
            self.pos.add(v)
        return v

    def aabs(self, x):
        nx = ((-x[0]) % P, (-x[1]) % P)
        if self.isnn(x):
            return x
        if self.isnn(nx):
            return nx
        v = _h("abs", min(x, nx))
        self.nn.add(v)
        return v

    def amm(self, x, y, big):
        if big:
            return self.amax(x, y)
        v = self.amax(((-x[0]) % P, (-x[1]) % P), ((-y[0]) % P, (-y[1]) % P))
        return ((-v[0]) % P, (-v[1]) % P)

    def e_ite(self, t, n):
        if self.atomic:
            c = nd(n[1])
            inv_ = False
            if c[0] == "not":
                c, inv_ = nd(c[1]), True
            if c[0] == "fcmp" and c[1] in ("olt", "ole") and {n[2], n[3]} == {c[2], c[3]} and n[2] != n[3]:
                big = (n[2] == c[3]) != inv_
                return self.apply(("amm", big), lambda a, b: self.F(self.amm(self.num(a), self.num(b), big)), self.ev(n[2]), self.ev(n[3]))
        return self.ite(self.ev(n[1]), self.ev(n[2]), self.ev(n[3]))

    def e_not(self, t, n):
        return self.bnot(self.ev(n[1]))

    def e_band(self, t, n):
        return self.ite(self.ev(n[1]), self.ev(n[2]), self.FALSE)

    def e_cat(self, t, n):
        ws = [width(x) for x in n[1:]]
        ds = [self.ev(x) for x in n[1:]]

        def f(*ls):
            ls = [("k", l[1]) if l[0] == "b" else l for l in ls]
            if all(l[0] == "k" for l in ls):
                v, sh = 0, 0
                for l, w in zip(ls, ws):
                    v |= l[1] << sh
                    sh += w
                return self.leaf(("k", v))
            if all(l[0] == "k" and l[1] == 0 for l in ls[1:]):
                return self.leaf(("w", ("zext", sum(ws), ls[0])))
            return self.leaf(("w", ("cat", tuple(zip(ws, ls)))))
        return self.apply(("cat", tuple(ws)), f, *ds)

    def e_slice(self, t, n):
        off, w = n[2], n[3]

        def f(l):
            if l[0] == "k":
                v = (l[1] >> off) & ((1 << w) - 1)
                if w == 1:
                    return self.TRUE if v else self.FALSE
                return self.leaf(("k", v))
            if w == 1:
                return self.bit(l, off)
            return self.leaf(("w", ("slice", off, w, l)))
        return self.apply(("slice", off, w), f, self.ev(n[1]))

    def e_zext(self, t, n):
        w = n[1]

        def f(l):
            if l[0] in "kb":
                return self.leaf(("k", l[1]))
            return self.leaf(("w", ("zext", w, l)))
        return self.apply(("zext", w), f, self.ev(n[2]))

    def e_sext(self, t, n):
        w, wi = n[1], width(n[2])

        def f(l):
            if l[0] in "kb":
                v = l[1]
                if v >> (wi - 1):
                    v |= ((1 << w) - 1) ^ ((1 << wi) - 1)
                return self.leaf(("k", v))
            return self.leaf(("w", ("sext", w, l)))
        return self.apply(("sext", w, wi), f, self.ev(n[2]))

    # bitwise
    def bitw(self, op, w, la, lb):
        full = (1 << w) - 1
        if la == ("u",) or lb == ("u",):
            return self.leaf(("u",))
        if la[0] == "k" and lb[0] == "k":
            return self.leaf(("k", {"and": la[1] & lb[1], "or": la[1] | lb[1], "xor": la[1] ^ lb[1]}[op]))
        if la[0] == "k":
            la, lb = lb, la
        if lb[0] == "k":
            c = lb[1]
            if op == "and" and c == 0:
                return self.leaf(("k", 0))
            if (op == "and" and c == full) or (op in ("or", "xor") and c == 0):
                return self.leaf(la)
            if op == "or" and c == full:
                return self.leaf(("k", full))
            if self.mode == "real" and w == 32 and la[0] in "fm":
                x = self.num(la)
                if self.atomic and op == "and" and c == 0x7FFFFFFF:
                    return self.F(self.aabs(x))
                if self.atomic and op == "or" and c == 0x80000000:
                    return self.F(self.vneg(self.aabs(x)))
                if op == "xor" and c == 0x80000000:
                    return self.F(self.vneg(x))
                if op == "and" and c == 0x7FFFFFFF:
                    return self.rel(la, ("k", 0), [self.F(self.vneg(x)), self.leaf(("k", 0)), self.leaf(la)])
                if op == "and" and c == 0x80000000:
                    return self.rel(la, ("k", 0), [self.leaf(("k", 0x80000000)), self.leaf(("k", 0)), self.leaf(("k", 0))])
                if op == "or" and c == 0x80000000:
                    ng = self.F(self.vneg(x))
                    return self.rel(la, ("k", 0), [self.leaf(la), self.leaf(("k", 0)), ng])
        if la == lb:
            return self.leaf(la) if op != "xor" else self.leaf(("k", 0))
        if lb[0] == "k" and op == "and" and bin(lb[1]).count("1") <= 4 and lb[1] != 0x80000000 and la[0] in "wx":
            r = self.leaf(("k", 0))
            for k in range(w):
                if lb[1] >> k & 1:
                    bk = self.bit(la, k)
                    r = self.apply(("orbit", k), lambda l, c, k=k: self.leaf(("k", l[1] | (c[1] << k))), r, bk)
            return r
        r = self.tt_op(op, w, la, lb)
        if self.mode == "real" and w == 32:
            l2 = self.lf(r)
            if l2[0] == "w" and l2[1][0] == "tt" and len(l2[1][2]) == 2 and l2[1][2][0][0] == "f" and l2[1][3] in (2, 8):
                X, M = l2[1][2]
                if M == ("w", ("lshr", 32, ("k", 0x7FFFFF), ("w", ("tt", 32, (("k", 31), ("w", ("add", 32, ("k", 1), ("w", ("lshr", 32, X, ("k", 23)))))), 8)))):
                    # M = mask of the fraction bits of X (where 1 <= |X| < 2^24)
                    tr = self.F(self._int("Tr", self.num(X)))
                    if l2[1][3] == 8:
                        res = self.rel(X, self.lf(tr), [self.leaf(("w", ("fracbits", X))), self.leaf(("k", 0)), self.leaf(("w", ("fracbits", X)))])
                    else:
                        res = tr
                    ab = self.bitw("and", 32, X, ("k", 0x7FFFFFFF))
                    return self.apply(("fracm", X, op, r), lambda l: self.rel(l, ("k", f2b(1.0)), [r, res, res]), ab)
        if self.mode == "exact" and w == 32 and lb[0] == "k":
            c, l2 = lb[1], self.lf(r)
            if (op, c) in (("xor", 0x80000000), ("and", 0x7FFFFFFF), ("or", 0x80000000)) and l2 != la:
                self.fbase[l2] = self.fbase.get(la, la)
                if op == "xor":
                    if la in self.fneg:
                        pass
                    else:
                        self.fneg[l2] = la
        return r

    def bit(self, l, k):
        """diagram of bit k of an opaque leaf"""
        if l[0] == "k":
            return self.TRUE if l[1] >> k & 1 else self.FALSE
        if l[0] == "w":
            n = l[1]
            if n[0] == "lshr" and n[3][0] == "k":
                return self.bit(n[2], k + n[3][1]) if k + n[3][1] < n[1] else self.FALSE
            if n[0] == "shl" and n[3][0] == "k":
                return self.bit(n[2], k - n[3][1]) if k >= n[3][1] else self.FALSE
            if n[0] == "slice":
                return self.bit(n[3], k + n[1])
            if n[0] == "zext":
                return self.bit(n[2], k) if k < self.wid(n[2], n[1]) else self.FALSE
            if n[0] == "cat":
                for w, x in n[1]:
                    if k < w:
                        return self.bit(x, k)
                    k -= w
            if n[0] == "tt":
                vs, tab = n[2], n[3]
                r = self.FALSE
                for i in range(1 << len(vs)):
                    if tab >> i & 1:
                        c = self.TRUE
                        for j, v in enumerate(vs):
                            bj = self.bit(v, k)
                            c = self.ite(c, bj if i >> j & 1 else self.bnot(bj), self.FALSE)
                        r = self.ite(c, self.TRUE, r)
                return r
        return self.batom(("bit", k, l))

    def wid(self, l, w):
        return w

    def tt_op(self, op, w, la, lb):
        # truth table over opaque operands
        va, ta = self.tt(la, w)
        vb, tb = self.tt(lb, w)
        vs = tuple(sorted(set(va) | set(vb), key=repr))
        if len(vs) > 6:
            return self.leaf(("w", (op, w) + tuple(sorted((la, lb), key=repr))))
        a, b = self.tt_ext(va, ta, vs), self.tt_ext(vb, tb, vs)
        r = {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        return self.tt_leaf(w, vs, r)

    def tt(self, l, w):
        if l[0] == "k" and l[1] in (0, (1 << w) - 1):
            return (), 1 if l[1] else 0
        if l[0] == "w" and l[1][0] == "tt":
            return l[1][2], l[1][3]
        return (l,), 2

    def tt_ext(self, vs, tab, ws):
        out = 0
        pos = [ws.index(v) for v in vs]
        for i in range(1 << len(ws)):
            j = 0
            for k, p in enumerate(pos):
                if i >> p & 1:
                    j |= 1 << k
            if tab >> j & 1:
                out |= 1 << i
        return out

    def tt_leaf(self, w, vs, tab):
        # constants among the variables never cancel partially; drop variables that do not matter
        vs = list(vs)
        k = 0
        while k < len(vs):
            n = len(vs)
            t0 = t1 = 0
            for i in range(1 << (n - 1)):
                lo = i & ((1 << k) - 1)
                hi = i >> k
                j = lo | (hi << (k + 1))
                if tab >> j & 1:
                    t0 |= 1 << i
                if tab >> (j | 1 << k) & 1:
                    t1 |= 1 << i
            if t0 == t1:
                tab = t0
                vs.pop(k)
            else:
                k += 1
        if not vs:
            return self.leaf(("k", ((1 << w) - 1) if tab & 1 else 0))
        if len(vs) == 1 and tab == 2:
            return self.leaf(vs[0])
        return self.leaf(("w", ("tt", w, tuple(vs), tab)))

    def _bit(self, t, n):
        op, w = n[0], n[1]
        return self.apply((op, w), lambda a, b: self.bitw(op, w, a, b), self.ev(n[2]), self.ev(n[3]))
    e_and = e_or = e_xor = _bit

    def _ar(self, t, n):
        op, w = n[0], n[1]

        def f(a, b):
            if a[0] == "k" and b[0] == "k":
                r = llir.arith(op, w, llir.const(w, a[1]), llir.const(w, b[1]))
                v = llir.isc(r)
                if v is not None:
                    return self.leaf(("k", v))
            if b == ("k", 0) and op in ("add", "sub", "shl", "lshr", "ashr"):
                return self.leaf(a)
            if a == ("k", 0) and op == "add":
                return self.leaf(b)
            if op in ("add", "mul"):
                a, b = sorted((a, b), key=repr)
            full = (1 << w) - 1
            if op == "ashr" and a[0] == "k" and a[1] >> (w - 1):
                return self.bitw("xor", w, ("w", ("lshr", w, ("k", a[1] ^ full), b)), ("k", full))
            return self.leaf(("w", (op, w, a, b)))
        return self.apply((op, w), f, self.ev(n[2]), self.ev(n[3]))
    e_add = e_sub = e_mul = e_shl = e_lshr = e_ashr = e_udiv = e_urem = e_sdiv = e_srem = _ar

    # float
    def _fb(self, t, n):
        op = n[0]
        return self.apply(op, getattr(self, "l_" + op), self.ev(n[1]), self.ev(n[2]))
    e_fadd = e_fsub = e_fmul = e_fdiv = e_frem = _fb

    def _x(self, op, *ls):
        """exact-mode opaque operation"""
        if op in ("fadd", "fsub", "fmul", "fdiv", "fma", "sqrt"):
            if any(l[0] == "k" and l[1] & 0x7FFFFFFF > INF for l in ls):
                return self.leaf(("k", 0x7FC00000))
            if all(l[0] == "k" for l in ls):
                v = ieee(op, [l[1] for l in ls])
                if v is not None:
                    return self.leaf(("k", v))
        if op in ("fptosi", "fptoui") and ls[1][0] == "k" and ls[1][1] & INF != INF:
            v = int(b2f(ls[1][1]))
            if (-(1 << ls[0] - 1) <= v < 1 << ls[0] - 1) if op == "fptosi" else 0 <= v < 1 << ls[0]:
                return self.leaf(("k", v % (1 << ls[0])))
        return self.leaf(("w", (op,) + ls))

    MAGIC = {f2b(8388608.0): 1, f2b(-8388608.0): -1}

    def l_fadd(self, a, b):
        if ("u",) in (a, b):
            return self.leaf(("u",))
        if self.mode == "exact":
            return self._x("fadd", *sorted((a, b), key=repr))
        if b[0] == "k" and b[1] in self.MAGIC:
            a, b = b, a
        if a[0] == "k" and a[1] in self.MAGIC and b[0] != "k":
            if b[0] == "m" and b[2] == self.num(("k", a[1] ^ 0x80000000)):
                return self.rn(b[1])
            if b[0] != "m":
                return self.leaf(("m", self.num(b), self.num(a)))
        return self.F(self.vadd(self.num(a), self.num(b)))

    # ---- values in the field extended by the square roots met so far: v = sum of coef * product of roots
    def exts(self, v):
        return self.ext.get(v) or {(): v}

    def mkext(self, d):
        d = {k: c for k, c in d.items() if c != (0, 0)}
        v0 = v1 = 0
        for k, c in d.items():
            a, b = c
            for r in k:
                a, b = a * r[0] % P, b * r[1] % P
            v0, v1 = v0 + a, v1 + b
        v = (v0 % P, v1 % P)
        if d and (len(d) > 1 or () not in d) and len(d) <= 8:
            self.ext.setdefault(v, d)
        return v

    def fp_add(self, x, y, s=1):
        if x not in self.ext and y not in self.ext:
            return ((x[0] + s * y[0]) % P, (x[1] + s * y[1]) % P)
        d = dict(self.exts(x))
        for k, c in self.exts(y).items():
            o = d.get(k, (0, 0))
            d[k] = ((o[0] + s * c[0]) % P, (o[1] + s * c[1]) % P)
        return self.mkext(d)

    def fp_mul(self, x, y):
        if x not in self.ext and y not in self.ext:
            return (x[0] * y[0] % P, x[1] * y[1] % P)
        d = {}
        for k, c in self.exts(x).items():
            for k2, c2 in self.exts(y).items():
                a, b = c[0] * c2[0] % P, c[1] * c2[1] % P
                rs = set(k)
                for r in k2:
                    if r in rs:
                        rs.remove(r)
                        q = self.square[r]
                        a, b = a * q[0] % P, b * q[1] % P
                    else:
                        rs.add(r)
                kk = tuple(sorted(rs))
                o = d.get(kk, (0, 0))
                d[kk] = ((o[0] + a) % P, (o[1] + b) % P)
        return self.mkext(d)

    def fp_div(self, x, y):
        if y[0] == 0 or y[1] == 0:
            return _h("nan") if x == (0, 0) else _h("div0", x)
        e = self.ext.get(y)
        if e is not None and len(e) == 1:
            (k, c), = e.items()
            # 1/(c*s1*s2) = s1*s2/(c*x1*x2)
            a, b = c
            for r in k:
                q = self.square[r]
                a, b = a * q[0] % P, b * q[1] % P
            if a == 0 or b == 0:
                return _h("div0", x)
            iv = self.mkext({k: (inv(a), inv(b))})
            return self.fp_mul(x, iv)
        if e is None:
            return self.fp_mul(x, (inv(y[0]), inv(y[1])))
        return (x[0] * inv(y[0]) % P, x[1] * inv(y[1]) % P)

    def vadd(self, x, y):
        v = self.rec(self.fp_add(x, y), "add", x, y)
        nx, ny = self.isnn(x), self.isnn(y)
        if nx and ny:
            self.nn.add(v)
            if self.ispos(x) or self.ispos(y):
                self.pos.add(v)
        return v

    def vsub(self, x, y):
        v = self.rec(self.fp_add(x, y, -1), "sub", x, y)
        ny = ((-y[0]) % P, (-y[1]) % P)
        if self.isnn(x) and self.isnn(ny):
            self.nn.add(v)
            if self.ispos(x) or self.ispos(ny):
                self.pos.add(v)
        return v

    def vmul(self, x, y):
        v = self.rec(self.fp_mul(x, y), "mul", x, y)
        if x == y or (self.isnn(x) and self.isnn(y)):
            self.nn.add(v)
            if self.ispos(x) and self.ispos(y):
                self.pos.add(v)
        return v

    def vdiv(self, x, y):
        v = self.rec(self.fp_div(x, y), "div", x, y)
        if self.isnn(x) and self.isnn(y):
            self.nn.add(v)
            if self.ispos(x):
                self.pos.add(v)
        return v

    def vneg(self, x):
        return self.rec(self.fp_add((0, 0), x, -1), "sub", (0, 0), x)

    def ispos(self, x):
        if x in self.pos:
            return True
        if x[0] == x[1]:
            r = ratrec(x[0])
            return r is not None and r > 0
        return False

    def isnn(self, x):
        if x in self.nn:
            return True
        if x[0] == x[1]:
            r = ratrec(x[0])
            return r is not None and r >= 0
        return False

    def l_fsub(self, a, b):
        if ("u",) in (a, b):
            return self.leaf(("u",))
        if self.mode == "exact":
            return self._x("fsub", a, b)
        if b[0] == "k" and b[1] in self.MAGIC and a[0] != "k":
            if a[0] == "m" and a[2] == self.num(b):
                return self.rn(a[1])
            if a[0] != "m":
                return self.leaf(("m", self.num(a), self.num(("k", b[1] ^ 0x80000000))))
        return self.F(self.vsub(self.num(a), self.num(b)))

    def rn(self, x):
        return self.F(self._int("Rn", x))

    def _int_known(self, nm, x):
        neg = ((-x[0]) % P, (-x[1]) % P)
        if neg < x:
            v = _h(nm, neg)
            return ((-v[0]) % P, (-v[1]) % P)
        return _h(nm, x)

    def _int(self, nm, x):
        if x in self.integral:
            return x
        # odd functions: normalise the sign of the argument
        neg = ((-x[0]) % P, (-x[1]) % P)
        if x[0] == x[1]:
            c = ratrec(x[0])
            if c is not None:
                c = int(c) if nm == "Tr" else round(c) if nm == "Rn" else (int(abs(c) + Fraction(1, 2)) * (1 if c > 0 else -1))
                v = frac_fp(Fraction(c))
                return (v, v)
        if neg < x:
            v = _h(nm, neg)
            v = ((-v[0]) % P, (-v[1]) % P)
        else:
            v = _h(nm, x)
        self.rec(v, nm, x)
        self.integral.add(v)
        return v

    def l_fmul(self, a, b):
        if ("u",) in (a, b):
            return self.leaf(("u",))
        if self.mode == "exact":
            return self._x("fmul", *sorted((a, b), key=repr))
        return self.F(self.vmul(self.num(a), self.num(b)))

    def l_fdiv(self, a, b):
        if ("u",) in (a, b):
            return self.leaf(("u",))
        if self.mode == "exact":
            return self._x("fdiv", a, b)
        return self.F(self.vdiv(self.num(a), self.num(b)))

    def l_frem(self, a, b):
        if self.mode == "exact":
            return self._x("frem", a, b)
        return self.F(_h("frem", self.num(a), self.num(b)))

    def e_fma(self, t, n):
        def f(a, b, c):
            if ("u",) in (a, b, c):
                return self.leaf(("u",))
            if self.mode == "exact":
                x, y = sorted((a, b), key=repr)
                return self._x("fma", x, y, c)
            x, y, z = self.num(a), self.num(b), self.num(c)
            return self.F(self.vadd(self.vmul(x, y), z))
        return self.apply("fma", f, self.ev(n[1]), self.ev(n[2]), self.ev(n[3]))

    def _un(self, nm, f):
        return lambda t, n: self.apply(nm, f, self.ev(n[1]))

    def e_sqrt(self, t, n):
        def f(a):
            if self.mode == "exact":
                return self._x("sqrt", a)
            x = self.num(a)
            if x == (0, 0):
                return self.leaf(("k", 0))
            r = ratrec(x[0]) if x[0] == x[1] else None
            if r is not None and r >= 0:
                import math
                p, q = math.isqrt(r.numerator), math.isqrt(r.denominator)
                if p * p == r.numerator and q * q == r.denominator:
                    v = frac_fp(Fraction(p, q))
                    return self.F((v, v))
            if x in self.known:
                return self.F(self.known[x])
            v = self.rec(self.sqrt_fp(x), "sqrt", x)
            self.root[x] = v
            self.nn.add(v)
            if self.ispos(x):
                self.pos.add(v)
            return self.F(v)
        return self.apply("sqrt", f, self.ev(n[1]))

    def positive(self, ts):
        """values of the domain's parametrisation that are positive by its choice"""
        if self.mode == "exact":
            return
        for t in ts:
            d = self.ev(t)
            v = self.num(self.lf(d))
            self.pos.add(v)
            self.nn.add(v)
            self.known[self.vmul(v, v)] = v

    def sqrt_fp(self, x):
        if x == (0, 0):
            return x
        r = self.root.get(x)
        if r is not None:
            return r
        if x in self.known:
            return self.known[x]
        v = _h("sqrt", x)
        if x not in self.ext:
            self.ext[v] = {(v,): (1, 1)}
            self.square[v] = x
        return v

    def e_rsqrt(self, t, n):
        if self.mode == "exact":
            return self.apply("rsqrt", lambda a: self._x("rsqrt", a), self.ev(n[1]))
        d = self.e_sqrt(t, n)
        return self.apply("fdiv", self.l_fdiv, self.leaf(("k", f2b(1.0))), d)

    def e_rcp(self, t, n):
        if self.mode == "exact":
            return self.apply("rcp", lambda a: self._x("rcp", a), self.ev(n[1]))
        return self.apply("fdiv", self.l_fdiv, self.leaf(("k", f2b(1.0))), self.ev(n[1]))

    def e_fn(self, t, n):
        nm = n[1]

        def f(*ls):
            if self.mode == "exact":
                return self._x(nm, *ls)
            return self.F(_h("fn", nm, tuple(self.num(l) for l in ls)))
        return self.apply(("fn", nm), f, *[self.ev(x) for x in n[2:]])

    def guard23(self, a, inner):
        """ite(|a| < 2^23, inner, a)"""
        x = self.num(a)
        if x in self.integral:
            return self.leaf(a)
        ab = self.bitw("and", 32, a, ("k", 0x7FFFFFFF))
        big = ("k", f2b(8388608.0))
        return self.apply(("g23", a, inner), lambda l: self.rel(l, big, [inner, self.leaf(a), self.leaf(a)] + [self.leaf(a)]), ab)

    def trunc_leaf(self, a):
        return self.guard23(a, self.F(self._int("Tr", self.num(a))))

    def e_ftrunc(self, t, n):
        if self.mode == "exact":
            return self.apply("ftrunc", lambda a: self._x("ftrunc", a), self.ev(n[1]))
        return self.apply("ftrunc", self.trunc_leaf, self.ev(n[1]))

    def e_rndeven(self, t, n):
        if self.mode == "exact":
            return self.apply("rndeven", lambda a: self._x("rndeven", a), self.ev(n[1]))
        return self.apply("rndeven", lambda a: self.guard23(a, self.rn(self.num(a))), self.ev(n[1]))

    def e_rndaway(self, t, n):
        if self.mode == "exact":
            return self.apply("rndaway", lambda a: self._x("rndaway", a), self.ev(n[1]))
        return self.apply("rndaway", lambda a: self.F(self._int("Ra", self.num(a))), self.ev(n[1]))

    def _fc(self, n, sgn):
        nm = n[0]
        if self.mode == "exact":
            return self.apply(nm, lambda a: self._x(nm, a), self.ev(n[1]))
        one = f2b(1.0)

        def f(a):
            tr = self.trunc_leaf(a)

            def g(l):
                adj = self.lf(self.l_fsub(l, ("k", one)) if sgn < 0 else self.l_fadd(l, ("k", one)))
                r = self.leaf(adj)
                self.integral.add(self.num(adj))
                same = self.leaf(l)
                # floor: tr > a -> tr-1 ; ceil: tr < a -> tr+1
                return self.rel(l, a, [same, same, r] if sgn < 0 else [r, same, same])
            return self.apply((nm + "2", a), g, tr)
        return self.apply(nm, f, self.ev(n[1]))

    def e_floor(self, t, n):
        return self._fc(n, -1)

    def e_ceil(self, t, n):
        return self._fc(n, 1)

    def e_sitofp(self, t, n):
        w = width(n[1])

        def f(l):
            if l[0] == "k":
                v = l[1]
                if v >> (w - 1):
                    v -= 1 << w
                return self.leaf(("k", f2b(float(v))))
            if self.mode == "real":
                if l[0] == "w" and l[1][0] == "fptosi":
                    return self.F(self._int("Tr", l[1][2]))
                v = _h("sitofp", l)
                self.integral.add(v)
                return self.F(v)
            return self._x("sitofp", l)
        return self.apply(("sitofp", w), f, self.ev(n[1]))

    def e_uitofp(self, t, n):
        w = width(n[1])

        def f(l):
            if l[0] == "k":
                return self.leaf(("k", f2b(float(l[1]))))
            if l[0] == "w" and l[1][0] == "zext":
                l = l[1][2]
            if self.mode == "real":
                if l[0] == "w" and l[1][0] == "fptoui":
                    return self.F(self._int("Tr", l[1][2]))
                v = _h("uitofp", l)
                self.integral.add(v)
                return self.F(v)
            return self._x("uitofp", l)
        return self.apply(("uitofp", w), f, self.ev(n[1]))

    def _toint(self, t, n):
        nm, w = n[0], n[1]

        def f(l):
            if self.mode == "real":
                return self.leaf(self.toint_leaf(nm, w, self.num(l)))
            return self._x(nm, w, l)
        return self.apply((nm, w), f, self.ev(n[2]))
    e_fptosi = e_fptoui = _toint

    def e_call(self, t, n):
        w, nm = n[1], n[2]

        def f(*ls):
            if self.mode == "real" and nm.startswith("f2h"):
                return self.leaf(("w", (nm, tuple(self.num(l) for l in ls))))
            return self.leaf(("w", (nm, w) + tuple(ls)))
        return self.apply((nm, w), f, *[self.ev(x) for x in n[3:]])

    def e_h2f(self, t, n):
        def f(l):
            if self.mode == "real":
                return self.F(_h("h2f", l))
            return self._x("h2f", l)
        return self.apply("h2f", f, self.ev(n[1]))

    def e_maxnum(self, t, n):
        return self._mm(n, GT)

    def e_minnum(self, t, n):
        return self._mm(n, LT)

    def _mm(self, n, which):
        def f(a, b):
            la, lb = self.leaf(a), self.leaf(b)
            if self.atomic:
                return self.F(self.amm(self.num(a), self.num(b), which == GT))
            if self.finite:
                return self.rel(a, b, [la, la, lb] if which == LT else [lb, la, la])
            return self._x(n[0], *sorted((a, b), key=repr))
        return self.apply(n[0], f, self.ev(n[1]), self.ev(n[2]))

    # comparisons
    def rel(self, a, b, ch):
        """case split on the order of two leaves; ch = [lt, eq, gt(, un)]"""
        if len(ch) == 3 and not self.finite:
            ch = list(ch) + [ch[GT] if False else ch[EQ]]
        if self.finite:
            ch = list(ch[:3])
        nout = 3 if self.finite else 4
        if self.mode == "real":
            x, y = self.num(a), self.num(b)
            d = self.vsub(x, y) if x != y else (0, 0)
            if d == (0, 0):
                if self.finite:
                    return ch[EQ]
                return self.case(self.atom(2, ("nan", x)), [ch[EQ], ch[UN]])
            if a[0] == "k" and b[0] == "k":
                fa, fb = b2f(a[1]), b2f(b[1])
                if fa == fa and fb == fb:
                    return ch[LT if fa < fb else GT if fa > fb else EQ]
            if self.finite:
                # finite mode: inputs finite, no intermediate overflow
                for u, v, o in ((a, b, LT), (b, a, GT)):
                    if v == ("k", INF):
                        return ch[o]
                    if v == ("k", 0xFF800000):
                        return ch[GT if o == LT else LT]
            cst = ratrec(d[0]) if d[0] == d[1] else None
            if cst is not None and self.finite:
                return ch[LT if cst < 0 else GT]
            if cst is None and d[0] == d[1] and self.finite:
                self.rec(d, "sub", x, y)
                sg = self.csign(d)
                if sg:
                    return ch[LT if sg < 0 else GT]
            if d[0] == 0 or d[1] == 0:
                raise Unsupported("degenerate point")
            self.rec(d, "sub", x, y)
            if x[0] and x[0] != x[1] and x[0] * d[1] % P == x[1] * d[0] % P:
                # a - b is a rational multiple of a: compare a with zero
                k = ratrec(d[0] * inv(x[0]) % P, 1 << 80)
                if k is not None:
                    d = x
                    if k < 0:
                        ch = [ch[GT], ch[EQ], ch[LT]] + list(ch[3:])
            if self.finite:
                nd_ = ((-d[0]) % P, (-d[1]) % P)
                for u, sg in ((d, 1), (nd_, -1)):
                    pr = self.prov.get(u)
                    if pr and pr[0] == "sqrt":
                        # sqrt(x) vs 0 is x vs 0 (x non-negative where the root exists)
                        if pr[1] not in self.nn:
                            ch = [self.subst0(ch[EQ], d)] * 2 + [ch[GT]] if sg > 0 else [ch[LT]] + [self.subst0(ch[EQ], d)] * 2
                        d = pr[1] if sg > 0 else ((-pr[1][0]) % P, (-pr[1][1]) % P)
                        break
                nd_ = ((-d[0]) % P, (-d[1]) % P)
                if d in self.pos:
                    return ch[GT]
                if nd_ in self.pos:
                    return ch[LT]
                if d in self.nn:
                    e = self.subst0(ch[EQ], d)
                    ch = [e, e, ch[GT]]
                elif nd_ in self.nn:
                    e = self.subst0(ch[EQ], d)
                    ch = [ch[LT], e, e]
            # identify up to rational scale
            ratio = d[0] * inv(d[1]) % P
            lst = self.atab.setdefault(("ratio", ratio), [])
            if not isinstance(lst, list):
                raise Unsupported("atom")
            for i in lst:
                s = ratrec(d[0] * inv(self.atoms[i][2][0]) % P)
                if s is not None:
                    if s < 0:
                        ch = [ch[GT], ch[EQ], ch[LT]] + list(ch[3:])
                    return self.case(i, ch)
            i = self.atom(nout, ("rel", d), d)
            lst.append(i)
            return self.case(i, ch)
        # exact
        un = None if self.finite else ch[UN]
        ch = list(ch[:3])
        if a[0] == "k" and b[0] == "k":
            fa, fb = b2f(a[1]), b2f(b[1])
            if fa != fa or fb != fb:
                return un if un is not None else ch[EQ]
            return ch[LT if fa < fb else GT if fa > fb else EQ]
        a, b = self.cmpform(a), self.cmpform(b)
        if a == b:
            r = ch[EQ]
        else:
            na, nb = self.negform(a), self.negform(b)
            if na is not None and nb is not None:
                a, b = nb, na
            elif na is not None and b[0] == "k":
                a, b = ("k", b[1] ^ 0x80000000), na
            elif nb is not None and a[0] == "k":
                a, b = nb, ("k", a[1] ^ 0x80000000)
            if a in (("k", 0x80000000),):
                a = ("k", 0)
            if b in (("k", 0x80000000),):
                b = ("k", 0)
            sw = repr(a) > repr(b)
            if sw:
                a, b = b, a
                ch = [ch[GT], ch[EQ], ch[LT]]
            r = self.case(self.atom(3, ("rel", a, b)), ch)
        if un is not None:
            for x in {self.fbase.get(a, a), self.fbase.get(b, b)}:
                if x[0] == "k":
                    if (x[1] & 0x7FFFFFFF) > INF:
                        r = un
                else:
                    r = self.case(self.atom(2, ("nan", x)), [r, un])
        return r

    def cmpform(self, l):
        """operand of a comparison: the sign of zero does not matter"""
        if l[0] == "w" and l[1][0] == "fsub" and l[1][1] == ("k", 0):
            return self.lf(self.bitw("xor", 32, l[1][2], ("k", 0x80000000)))
        return l

    def negform(self, l):
        return self.fneg.get(l)

    def e_fcmp(self, t, n):
        out = PREDS[n[1]]

        def f(a, b):
            if ("u",) in (a, b):
                return self.leaf(("u",))
            return self.rel(a, b, [self.TRUE if j in out else self.FALSE for j in range(4)])
        return self.apply(("fcmp", n[1]), f, self.ev(n[2]), self.ev(n[3]))

    def e_isfp(self, t, n):
        m = n[1]

        def grp(i, j):
            return (m >> i & 1) if (m >> i & 1) == (m >> j & 1) else None
        nan, ng, z, ps, ni, pi = grp(0, 1), grp(3, 4), grp(5, 6), grp(7, 8), m >> 2 & 1, m >> 9 & 1

        def tf(v):
            return self.TRUE if v else self.FALSE

        def f(l):
            if None in (ng, z, ps) or (nan is None and not self.finite):
                return self.batom(("isfp", m, l))
            lo, hi = tf(ng), tf(ps)
            if not self.finite:
                if ni != ng:
                    lo = self.rel(l, ("k", 0xFF800000), [tf(ng), tf(ni), tf(ng), tf(nan)])
                if pi != ps:
                    hi = self.rel(l, ("k", INF), [tf(ps), tf(pi), tf(ps), tf(nan)])
            return self.rel(l, ("k", 0), [lo, tf(z), hi, tf(nan or 0)])
        return self.apply(("isfp", m), f, self.ev(n[2]))

    def e_icmp(self, t, n):
        p = n[1]
        if p == "neg":
            w = width(n[2])

            def f(l):
                if l[0] == "k":
                    return self.TRUE if l[1] >> (w - 1) else self.FALSE
                if l == ("u",):
                    return self.leaf(l)
                if self.mode == "real" and l[0] in "fm":
                    return self.rel(l, ("k", 0), [self.TRUE, self.FALSE, self.FALSE, self.FALSE])
                if l[0] == "w" and l[1][0] == "tt" and l[1][1] == w:
                    # sign bit of a bitwise combination = the same combination of the sign bits
                    vs, tab = l[1][2], l[1][3]
                    r = self.TRUE if tab & 1 else self.FALSE
                    for i in range(1, 1 << len(vs)):
                        c = self.TRUE
                        for k, v in enumerate(vs):
                            bk = f(v)
                            c = self.ite(c, bk if i >> k & 1 else self.bnot(bk), self.FALSE)
                        r = self.ite(c, self.TRUE if tab >> i & 1 else self.FALSE, r)
                    return r
                return self.batom(("neg", w, l))
            return self.apply(("neg", w), f, self.ev(n[2]))
        w = width(n[2])

        def f(a, b):
            if ("u",) in (a, b):
                return self.leaf(("u",))
            if a[0] == "k" and b[0] == "k":
                v = llir.isc(llir.icmp(p, llir.const(w, a[1]), llir.const(w, b[1])))
                return self.TRUE if v else self.FALSE
            if a == b:
                return self.TRUE if p == "eq" else self.FALSE
            if p == "eq":
                a, b = sorted((a, b), key=repr)
            if p == "eq" and a[0] == "k" and b[0] == "w" and b[1][0] == "tt" and b[1][1] == w:
                # a bit of the combination that its constants fix to the other value
                vs, tab = b[1][2], b[1][3]
                for i in range(w):
                    got = {tab >> x & 1 for x in range(1 << len(vs)) if all(v[0] != "k" or (v[1] >> i & 1) == (x >> k & 1) for k, v in enumerate(vs))}
                    if a[1] >> i & 1 not in got:
                        return self.FALSE
            if p in ("ult", "eq"):
                # peel zero extension
                if a[0] == "w" and a[1][0] == "zext" and b[0] == "w" and b[1][0] == "zext":
                    return f(a[1][2], b[1][2])
            if self.mode == "real" and self.finite and p == "eq" and w == 32 and "f" in (a[0], b[0]) and a[0] in "fk" and b[0] in "fk":
                # bit equality of finite float values (the sign of zero is not modelled in this mode)
                c = a if a[0] == "k" else b
                if c[0] == "k" and (c[1] & INF) == INF:
                    return self.FALSE
                return self.rel(a, b, [self.FALSE, self.TRUE, self.FALSE, self.FALSE])
            if self.mode == "exact" and p == "eq" and w == 32 and a[0] == "k" and 0 < (a[1] >> 23 & 0xFF) < 0xFF:
                # bit equality with a normal float = float equality
                return self.rel(b, a, [self.FALSE, self.TRUE, self.FALSE, self.FALSE])
            if self.mode == "real" and self.finite and p == "eq" and a == ("k", 0) and b[0] == "w" and b[1][0] == "fracbits":
                return self.FALSE
            if self.mode == "real" and self.finite and p == "ult" and w == 32:
                for u, c, lo in ((a, b, True), (b, a, False)):
                    # biased exponent of X against a constant: |X| against a power of two
                    if c[0] == "k" and 0 < c[1] < 254 and u[0] == "w" and u[1][0] == "tt" and u[1][3] == 8 and u[1][2][0] == ("k", 255):
                        s = u[1][2][1]
                        if s[0] == "w" and s[1][0] == "lshr" and s[1][3] == ("k", 23) and s[1][2][0] == "f":
                            X = s[1][2]
                            lim = ("k", (c[1] if lo else c[1] + 1) << 23)
                            o = [self.TRUE, self.FALSE, self.FALSE] if lo else [self.FALSE, self.TRUE, self.TRUE]
                            ab = self.bitw("and", 32, X, ("k", 0x7FFFFFFF))
                            return self.apply(("expo", X, lim, lo), lambda l: self.rel(l, lim, o), ab)
                T_, F_ = self.TRUE, self.FALSE
                if a[0] == "f" and b[0] == "k" and b[1] <= INF:
                    lt = self.rel(a, b, [T_, F_, F_])
                    return self.rel(a, ("k", 0), [F_, self.rel(("k", 0), b, [T_, F_, F_]), lt])
                if b[0] == "f" and a[0] == "k" and a[1] <= INF:
                    gt = self.rel(a, b, [T_, F_, F_])
                    return self.rel(b, ("k", 0), [T_, F_, gt])
            return self.batom(("icmp", p, w, a, b))
        return self.apply(("icmp", p, w), f, self.ev(n[2]), self.ev(n[3]))

    def e_f64(self, t, n):
        def f(*ls):
            if self.mode == "exact":
                return self._x("f64", n[1], *ls)
            o = n[1]
            xs = [self.num(l) for l in ls]
            if o == "fpext":
                return self.F(xs[0])
            if o == "fadd":
                return self.F(self.vadd(*xs))
            if o == "fsub":
                return self.F(self.vsub(*xs))
            if o == "fmul":
                return self.F(self.vmul(*xs))
            if o == "fdiv":
                return self.F(self.vdiv(*xs))
            return self.F(_h("f64", o, tuple(xs)))
        return self.apply(("f64", n[1]), f, *[self.ev(x) for x in n[2:]])

    def e_fptrunc(self, t, n):
        return self.apply("fptrunc", lambda l: self.leaf(l) if self.mode == "real" else self._x("fptrunc", l), self.ev(n[1]))

    def e_ptr(self, t, n):
        return self.leaf(("w", ("ptr", repr(n[1]))))

    # ------------------------------------------------ comparison of results
    def canon(self, d, isfloat=True):
        """final canonicalisation of a 32-bit result word"""
        def f(l):
            if l[0] == "k" and self.mode == "real" and (l[1] & INF) != INF:
                return self.F(self.num(l))
            if l[0] == "k" and (l[1] & INF) == INF and (l[1] & 0x7FFFFF) and isfloat and l[1] & 0x7FFFFFFF != 0x7FFFFFFF:
                return self.leaf(("k", 0x7FC00000))
            if l[0] == "m":
                return self.F(self.num(l))
            return self.leaf(l)
        return self.apply(("canon", isfloat), f, d)

    def leaves(self, d, seen=None):
        seen = set() if seen is None else seen
        out = set()
        st = [d]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = self.nodes[x]
            if n[0] == "L":
                out.add(n[1])
            else:
                st += n[1]
        return out

    def size(self, d):
        seen, st = set(), [d]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = self.nodes[x]
            if n[0] != "L":
                st += n[1]
        return len(seen)


def lincomb(u, v, w):
    """rationals (a, b) with a*u + b*v = w at both points, or None"""
    det = (u[0] * v[1] - u[1] * v[0]) % P
    if det == 0:
        return None
    i = inv(det)
    a = (w[0] * v[1] - w[1] * v[0]) % P * i % P
    b = (u[0] * w[1] - u[1] * w[0]) % P * i % P
    ra, rb = ratrec(a, 1 << 80), ratrec(b, 1 << 80)
    if ra is None or rb is None:
        return None
    return ra, rb


ONE = (1, 1)


class Path:
    """sign constraints collected on the way down: field value -> -1, 0, 1"""

    def __init__(self, N):
        self.N = N
        self.cs = [(ONE, 1)]

    def sign(self, v):
        """sign of v if one constraint fixes it"""
        for u, su in self.cs:
            if u[0] and u[0] * v[1] % P == u[1] * v[0] % P:
                k = ratrec(v[0] * inv(u[0]) % P, 1 << 80)
                if k is not None:
                    return su * ((k > 0) - (k < 0))
        return None

    def consistent(self, v, s):
        """may v have sign s given the constraints (linear consequences of pairs)?"""
        cs = self.cs
        nv = ((-v[0]) % P, (-v[1]) % P)
        if (s < 0 and v in self.N.nn) or (s > 0 and nv in self.N.nn) or (s == 0 and (v in self.N.pos or nv in self.N.pos)):
            return False
        if s == 0:
            self.N.subst0(self.N.TRUE, v)
            vals = self.N.sub[v][0]
            for u, su in cs[1:]:
                k = self.N.csign(self.N._sub(u, vals, 0))
                if k is not None and k != su:
                    return False
        for pv, sg in ((self.N.prov.get(v), 1), (self.N.prov.get(nv), -1)):
            if pv is not None and pv[0] in ("mul", "div"):
                # a product or quotient has the product of the signs
                x, y = self.sign(pv[1]), self.sign(pv[2])
                if x is not None and y is not None and not (pv[0] == "div" and y == 0):
                    if sg * x * y != s:
                        return False
                elif s and pv[0] == "mul" and (x == 0 or y == 0):
                    return False
        pv = self.N.prov.get(v)
        sg = 1
        if pv is None or pv[0] != "sub":
            pv, sg = self.N.prov.get(((-v[0]) % P, (-v[1]) % P)), -1
        if pv is not None and pv[0] == "sub":
            for x, tr, k in ((pv[1], pv[2], sg), (pv[2], pv[1], -sg)):
                # v = k*(x - trunc x): has the sign of x, or zero; zero needs |x| >= 1 (or x = 0)
                if self.N._int_known("Tr", x) == tr:
                    sx = self.sign(x)
                    if sx is not None and k * s not in (0, sx):
                        return False
                    if s == 0 and sx:
                        y = ((sx * x[0] - 1) % P, (sx * x[1] - 1) % P)
                        if self.sign(y) == -1:
                            return False
        for u, su in cs:
            if su == 0:
                self.N.subst0(self.N.TRUE, u)
                k = self.N.csign(self.N._sub(v, self.N.sub[u][0], 0))
                if k is not None and k != s:
                    return False
            # v = k*u ?
            if u[0] * v[1] % P == u[1] * v[0] % P and u[0]:
                k = ratrec(v[0] * inv(u[0]) % P, 1 << 80)
                if k is not None:
                    sg = su * (1 if k > 0 else -1)
                    if sg != s:
                        return False
        for i in range(len(cs)):
            u, su = cs[i]
            for j in range(i):
                w, sw = cs[j]
                ab = lincomb(u, w, v)
                if ab is None:
                    continue
                a, b = ab
                x = su * ((a > 0) - (a < 0))
                y = sw * ((b > 0) - (b < 0))
                if x == y or x == 0 or y == 0:
                    if (x or y) != s:
                        return False
        return True


def _equiv(self, da, db, budget=60000):
    """equal on every combination of outcomes that is consistent (refinement of diagram identity)"""
    if self.mode != "real" or not self.finite:
        return False
    pth = Path(self)
    left = [budget]
    others = []

    def leaf_eq(a, b):
        if a == b:
            return True
        fa, fb = self.num(a, soft=True), self.num(b, soft=True)
        if fa is None or fb is None:
            return False
        zs = [v for v, s in pth.cs if s == 0]
        e = ((fa[0] - fb[0]) % P, (fa[1] - fb[1]) % P)
        for i, z in enumerate(zs):
            if z[0] and z[0] * e[1] % P == z[1] * e[0] % P and ratrec(e[0] * inv(z[0]) % P, 1 << 80) is not None:
                return True
            for y in zs[:i]:
                if lincomb(z, y, e) is not None:
                    return True
        la, lb = self.leaf(a), self.leaf(b)
        for z in zs:
            la, lb = self.subst0(la, z), self.subst0(lb, z)
            if la == lb:
                return True
        return False

    def go(x, y):
        if x == y:
            return True
        left[0] -= 1
        if left[0] < 0:
            raise TooBig("equivalence")
        t = min(self.top(x), self.top(y))
        if t == 1 << 60:
            ok = leaf_eq(self.lf(x), self.lf(y))
            if not ok:
                self.last_diff = (list(pth.cs), list(others), self.lf(x), self.lf(y))
            return ok
        n, _, d = self.atoms[t]
        for j in range(n):
            cx, cy = self.cof(x, t, j), self.cof(y, t, j)
            if cx == cy:
                continue
            if n >= 3 and d is not None:
                s = j - 1
                if not pth.consistent(d, s):
                    continue
                pth.cs.append((d, s))
                ok = go(cx, cy)
                pth.cs.pop()
            else:
                others.append((self.atoms[t][1], j))
                ok = go(cx, cy)
                others.pop()
            if not ok:
                return False
        return True
    return go(da, db)


Norm.equiv = _equiv
