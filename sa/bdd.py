"""Bit-level domain: a term of llir becomes a vector of reduced ordered BDDs over the bits of the
inputs.  Operations this domain does not interpret (floating point arithmetic, calls) yield
unconstrained bits, so what is shown false here is false for every input."""
import llir
from llir import nd, width


class TooBig(Exception):
    pass


class B:
    """one manager; nodes are ints, 0 = false, 1 = true"""

    def __init__(self, limit=400000, floats=True):
        self.floats = floats
        self.node = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.tab = {}
        self.memo = {}
        self.vars = {}
        self.names = []
        self.tmemo = {}
        self.limit = limit
        self.reserve = None

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.tab.get(k)
        if r is None:
            r = len(self.node)
            if r > self.limit:
                raise TooBig()
            self.node.append(k)
            self.tab[k] = r
        return r

    def var(self, key):
        i = self.vars.get(key)
        if i is None:
            i = len(self.names)
            self.vars[key] = i
            self.names.append(key)
        return self.mk(i, 0, 1)

    def ite(self, c, a, b):
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        if a == 1 and b == 0:
            return c
        k = (c, a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        nc, na, nb = self.node[c], self.node[a], self.node[b]
        v = min(nc[0], na[0], nb[0])
        c0, c1 = (nc[1], nc[2]) if nc[0] == v else (c, c)
        a0, a1 = (na[1], na[2]) if na[0] == v else (a, a)
        b0, b1 = (nb[1], nb[2]) if nb[0] == v else (b, b)
        r = self.mk(v, self.ite(c0, a0, b0), self.ite(c1, a1, b1))
        self.memo[k] = r
        return r

    def neg(self, a):
        return self.ite(a, 0, 1)

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def xor(self, a, b):
        return self.ite(a, self.neg(b), b)

    def witness(self, f):
        """one satisfying assignment {var key: bit}"""
        out = {}
        while f > 1:
            v, lo, hi = self.node[f]
            if lo != 0:
                out[self.names[v]] = 0
                f = lo
            else:
                out[self.names[v]] = 1
                f = hi
        return out

    # ---- bit vectors, least significant bit first
    def konst(self, w, v):
        return [(v >> i) & 1 for i in range(w)]

    def free(self, key, w):
        # most significant bit first in the order
        r = [None] * w
        for i in reversed(range(w)):
            r[i] = self.var((key, i))
        return r

    def add(self, a, b, c=0):
        out = []
        for x, y in zip(a, b):
            t = self.xor(x, y)
            out.append(self.xor(t, c))
            c = self.or_(self.and_(x, y), self.and_(t, c))
        return out, c

    def sub(self, a, b):
        r, c = self.add(a, [self.neg(x) for x in b], 1)
        return r, c  # c = 1: no borrow

    def ult(self, a, b):
        return self.neg(self.sub(a, b)[1])

    def eq(self, a, b):
        r = 1
        for x, y in zip(a, b):
            r = self.and_(r, self.neg(self.xor(x, y)))
        return r

    def mux(self, c, a, b):
        return [self.ite(c, x, y) for x, y in zip(a, b)]

    def shift(self, op, a, s):
        w = len(a)
        fill = a[-1] if op == "ashr" else 0
        r = list(a)
        k = 0
        big = 0
        for k in range(len(s)):
            d = 1 << k
            if d >= w:
                big = self.or_(big, s[k])
                continue
            if op == "shl":
                n = [0] * d + r[:w - d]
            else:
                n = r[d:] + [fill] * d
            r = self.mux(s[k], n, r)
        return self.mux(big, [fill] * w, r)

    def mul(self, a, b):
        w = len(a)
        r = [0] * w
        for i in range(w):
            if b[i] == 0:
                continue
            p = [0] * i + [self.and_(x, b[i]) for x in a[:w - i]]
            r, _ = self.add(r, p)
        return r

    # ---- terms
    def bits(self, t):
        r = self.tmemo.get(t)
        if r is None:
            r = self._bits(t)
            self.tmemo[t] = r
        return r

    def _bits(self, t):
        n = nd(t)
        o = n[0]
        if o == "c":
            return self.konst(n[1], n[2])
        if o == "not":
            return [self.neg(self.bits(n[1])[0])]
        if o == "band":
            a = self.bits(n[1])[0]
            if a == 0:
                return [0]
            return [self.and_(a, self.bits(n[2])[0])]
        if o == "ite":
            c = self.bits(n[1])[0]
            if c == 1:
                return self.bits(n[2])
            if c == 0:
                return self.bits(n[3])
            return self.mux(c, self.bits(n[2]), self.bits(n[3]))
        if o == "cat":
            r = []
            for x in n[1:]:
                r += self.bits(x)
            return r
        if o == "slice":
            return self.bits(n[1])[n[2]:n[2] + n[3]]
        if o in ("and", "or", "xor"):
            f = {"and": self.and_, "or": self.or_, "xor": self.xor}[o]
            return [f(x, y) for x, y in zip(self.bits(n[2]), self.bits(n[3]))]
        if o == "add":
            return self.add(self.bits(n[2]), self.bits(n[3]))[0]
        if o == "sub":
            return self.sub(self.bits(n[2]), self.bits(n[3]))[0]
        if o == "mul" and (llir.isc(n[2]) is not None or llir.isc(n[3]) is not None):
            a, b = (n[2], n[3]) if llir.isc(n[3]) is not None else (n[3], n[2])
            return self.mul(self.bits(a), self.bits(b))
        if o in ("shl", "lshr", "ashr"):
            return self.shift(o, self.bits(n[2]), self.bits(n[3]))
        if o == "zext":
            a = self.bits(n[2])
            return a + [0] * (n[1] - len(a))
        if o == "sext":
            a = self.bits(n[2])
            return a + [a[-1]] * (n[1] - len(a))
        if o == "trunc":
            return self.bits(n[2])[:n[1]]
        if o == "icmp" and n[1] == "neg":
            return [self.bits(n[2])[-1]]
        if o == "icmp":
            a, b = self.bits(n[2]), self.bits(n[3])
            p = n[1]
            if p.startswith("ovf_"):
                return [self.ovf(p[4:], a, b)]
            if p == "eq":
                return [self.eq(a, b)]
            if p == "ne":
                return [self.neg(self.eq(a, b))]
            if p[0] == "s":
                a, b = a[:-1] + [self.neg(a[-1])], b[:-1] + [self.neg(b[-1])]
            p = p[1:]
            if p == "lt":
                return [self.ult(a, b)]
            if p == "gt":
                return [self.ult(b, a)]
            if p == "ge":
                return [self.neg(self.ult(a, b))]
            if p == "le":
                return [self.neg(self.ult(b, a))]
        if o == "call" and n[2] in ("ctlz", "lzcnt"):
            return self.clz(self.bits(n[3]), n[1])
        w = width(t)
        if o == "fcmp" and self.floats and (n[2] == n[3] or llir.isc(n[2]) is not None or llir.isc(n[3]) is not None):
            r = self.fcmp(n[1], n[2], n[3])
            if r is not None:
                return [r]
        return self.free(t, w)

    def ovf(self, name, a, b):
        w = len(a)
        sg = ".s" in name
        if "add" in name or "sub" in name:
            # one bit wider
            x = a + [a[-1] if sg else 0]
            y = b + [b[-1] if sg else 0]
            r = (self.add(x, y) if "add" in name else self.sub(x, y))[0]
            return self.xor(r[w], r[w - 1]) if sg else r[w]
        if all(v in (0, 1) for v in b) or all(v in (0, 1) for v in a):
            if not all(v in (0, 1) for v in b):
                a, b = b, a
            x = a + [a[-1] if sg else 0] * w
            y = b + [b[-1] if sg else 0] * w
            r = self.mul(x, y)
            bad = 0
            for k in range(w, 2 * w):
                bad = self.or_(bad, self.xor(r[k], r[w - 1]) if sg else r[k])
            return bad
        return self.var(("ovf", name, tuple(a), tuple(b)))

    def clz(self, a, w):
        n = len(a)
        r = self.konst(w, n)
        for i in range(n):
            r = self.mux(a[i], self.konst(w, n - 1 - i), r)
        return r

    def fcmp(self, pred, a, b):
        """IEEE single comparison, bit-exact, of two interpreted 32-bit patterns"""
        if width(a) != 32:
            return None
        x, y = self.bits(a), self.bits(b)

        def nan(v):
            e = 1
            for i in range(23, 31):
                e = self.and_(e, v[i])
            m = 0
            for i in range(23):
                m = self.or_(m, v[i])
            return self.and_(e, m)

        def key(v):
            # order-preserving unsigned key; both zeros map to the same key
            z = 1
            for i in range(31):
                z = self.and_(z, self.neg(v[i]))
            s = v[31]
            k = [self.xor(v[i], s) for i in range(31)] + [self.neg(s)]
            zero = [0] * 31 + [1]
            return self.mux(z, zero, k)
        uno = self.or_(nan(x), nan(y))
        if pred == "uno":
            return uno
        if pred == "ord":
            return self.neg(uno)
        kx, ky = key(x), key(y)
        base = {"eq": lambda: self.eq(kx, ky), "ne": lambda: self.neg(self.eq(kx, ky)), "lt": lambda: self.ult(kx, ky),
                "gt": lambda: self.ult(ky, kx), "le": lambda: self.neg(self.ult(ky, kx)), "ge": lambda: self.neg(self.ult(kx, ky))}
        r = base[pred[1:]]()
        return self.and_(self.neg(uno), r) if pred[0] == "o" else self.or_(uno, r)


def is_false(t, limit=400000, floats=True):
    """True: t is false for every input.  A dict: a witness (over the interpreted bits).  None: too big.
    Comparisons of floats are first taken as independent atoms, then interpreted bit by bit."""
    if t == llir.FALSE:
        return True
    r = None
    for fl in (False, True) if floats else (False,):
        b = B(limit, fl)
        try:
            f = b.bits(t)[0]
        except (TooBig, RecursionError):
            continue
        if f == 0:
            return True
        r = b.witness(f)
    return r
