"""Forward value-numbering dataflow over LLVM IR text (SSA, inlined).

Every scalar SSA value is mapped to a hash-consed term over the words the function was given
(a Herbrand-style abstract value); vectors are tuples of scalar terms, memory is a map from
(object, byte offset) to terms, joins are gated (`ite` on the edge conditions).  There is no path
enumeration, no solver and no execution: one pass over the blocks in topological order.
"""
import re, struct, sys

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- terms
class T:
    """hash-consed term table; a term is an int id; node(id) = (op, args...)"""
    tab = {}
    nodes = []

    @classmethod
    def mk(cls, *n):
        i = cls.tab.get(n)
        if i is None:
            i = len(cls.nodes)
            cls.nodes.append(n)
            cls.tab[n] = i
        return i


def nd(t):
    return T.nodes[t]


def const(w, v):
    return T.mk("c", w, v & ((1 << w) - 1))


def isc(t):
    n = T.nodes[t]
    return n[2] if n[0] == "c" else None


TRUE = const(1, 1)
FALSE = const(1, 0)


def width(t):
    n = T.nodes[t]
    o = n[0]
    if o == "c":
        return n[1]
    if o in ("in", "undef"):
        return n[1]
    if o in ("fcmp", "icmp", "not", "band", "bor", "isfp"):
        return 1
    if o == "cat":
        return sum(width(x) for x in n[1:])
    if o == "slice":
        return n[3]
    if o == "ite":
        return width(n[2])
    if o in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr"):
        return n[1]
    if o in ("zext", "sext", "trunc", "fptosi", "fptoui", "call"):
        return n[1]
    if o == "f64":
        return 64
    if o == "ptr":
        return 64
    return 32


def f2b(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def b2f(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def mk_not(a):
    n = nd(a)
    if n[0] == "c":
        return const(1, 1 - n[2])
    if n[0] == "not":
        return n[1]
    return T.mk("not", a)


def mk_band(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == b:
        return a
    if mk_not(a) == b:
        return FALSE
    if a > b:
        a, b = b, a
    return T.mk("band", a, b)


def mk_bor(a, b):
    return mk_not(mk_band(mk_not(a), mk_not(b)))


def mk_ite(c, a, b):
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    n = nd(c)
    if n[0] == "not":
        return mk_ite(n[1], b, a)
    if width(a) == 1:
        if a == TRUE and b == FALSE:
            return c
        if a == FALSE and b == TRUE:
            return mk_not(c)
        return mk_bor(mk_band(c, a), mk_band(mk_not(c), b))
    na, nb = nd(a), nd(b)
    if na[0] == "ite" and na[1] == c:
        a = na[2]
    if nb[0] == "ite" and nb[1] == c:
        b = nb[3]
    if a == b:
        return a
    na, nb = nd(a), nd(b)
    if na[0] == "cat" or nb[0] == "cat":
        sa, sb = words(a), words(b)
        if sa is not None and sb is not None and len(sa) == len(sb) > 1:
            return cat([mk_ite(c, x, y) for x, y in zip(sa, sb)])
    return T.mk("ite", c, a, b)


def words(t):
    """split a term whose width is a multiple of 32 into 32-bit words (little endian)"""
    w = width(t)
    if w == 32:
        return [t]
    if w % 32:
        return None
    return [slc(t, i * 32, 32) for i in range(w // 32)]


def cat(ts):
    """little-endian concatenation"""
    flat = []
    for t in ts:
        n = nd(t)
        if n[0] == "cat":
            flat += n[1:]
        else:
            flat.append(t)
    # fuse
    out = []
    for t in flat:
        if out:
            a, b = nd(out[-1]), nd(t)
            if a[0] == "c" and b[0] == "c" and (a[1] % 32 or b[1] % 32 or True) and a[1] + b[1] <= 32:
                out[-1] = const(a[1] + b[1], a[2] | (b[2] << a[1]))
                continue
            if a[0] == "slice" and b[0] == "slice" and a[1] == b[1] and a[2] + a[3] == b[2]:
                out[-1] = slc(a[1], a[2], a[3] + b[3])
                continue
        out.append(t)
    if len(out) == 1:
        return out[0]
    if all(nd(t)[0] == "c" for t in out):
        v, sh = 0, 0
        for t in out:
            n = nd(t)
            v |= n[2] << sh
            sh += n[1]
        return const(sh, v)
    return T.mk("cat", *out)


def slc(t, off, w):
    n = nd(t)
    if off == 0 and w == width(t):
        return t
    if n[0] == "c":
        return const(w, n[2] >> off)
    if n[0] == "slice":
        return slc(n[1], n[2] + off, w)
    if n[0] == "cat":
        pos = 0
        parts = []
        for x in n[1:]:
            wx = width(x)
            lo, hi = max(off, pos), min(off + w, pos + wx)
            if lo < hi:
                parts.append(slc(x, lo - pos, hi - lo))
            pos += wx
        return cat(parts)
    if n[0] == "ite":
        return mk_ite(n[1], slc(n[2], off, w), slc(n[3], off, w))
    if n[0] == "zext":
        wi = width(n[2])
        if off >= wi:
            return const(w, 0)
        if off + w <= wi:
            return slc(n[2], off, w)
    if n[0] == "sext":
        wi = width(n[2])
        if off + w <= wi:
            return slc(n[2], off, w)
        if wi == 1:
            return T.mk("sext", w, n[2])
    if n[0] == "trunc":
        return slc(n[2], off, w)
    if n[0] in ("and", "or", "xor"):
        return bitop(n[0], w, slc(n[2], off, w), slc(n[3], off, w))
    return T.mk("slice", t, off, w)


def sext(w, t):
    n = nd(t)
    if n[0] == "c":
        v = n[2]
        if v >> (n[1] - 1):
            v |= ((1 << w) - 1) ^ ((1 << n[1]) - 1)
        return const(w, v)
    if n[0] == "ite":
        return mk_ite(n[1], sext(w, n[2]), sext(w, n[3]))
    if width(t) == 1:
        if w > 32 and w % 32 == 0:
            return cat([sext(32, t)] * (w // 32))
        return mk_ite(t, const(w, -1), const(w, 0))
    return T.mk("sext", w, t)


def zext(w, t):
    n = nd(t)
    if n[0] == "c":
        return const(w, n[2])
    if n[0] == "ite":
        return mk_ite(n[1], zext(w, n[2]), zext(w, n[3]))
    if width(t) == 1:
        return mk_ite(t, const(w, 1), const(w, 0))
    if width(t) in (8, 16, 32, 64):
        wi = width(t)
        return cat([t] + ([const(w - wi, 0)]))
    return T.mk("zext", w, t)


def bitop(op, w, a, b):
    if w == 1:
        if op == "and":
            return mk_band(a, b)
        if op == "or":
            return mk_bor(a, b)
        return mk_ite(a, mk_not(b), b)
    ca, cb = isc(a), isc(b)
    full = (1 << w) - 1
    if ca is not None and cb is not None:
        return const(w, {"and": ca & cb, "or": ca | cb, "xor": ca ^ cb}[op])
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if op == "and":
            if cb == 0:
                return const(w, 0)
            if cb == full:
                return a
        if op == "or":
            if cb == 0:
                return a
            if cb == full:
                return const(w, full)
        if op == "xor" and cb == 0:
            return a
    if a == b:
        return a if op != "xor" else const(w, 0)
    if w > 32 and w % 32 == 0:
        return cat([bitop(op, 32, x, y) for x, y in zip(words(a), words(b))])
    na, nb = nd(a), nd(b)
    if na[0] == "cat" or nb[0] == "cat":
        # align on the finer partition
        cuts = set()
        for n, t in ((na, a), (nb, b)):
            pos = 0
            for x in (n[1:] if n[0] == "cat" else [t]):
                cuts.add(pos)
                pos += width(x)
        cuts = sorted(cuts) + [w]
        if len(cuts) > 2:
            return cat([bitop(op, cuts[i + 1] - cuts[i], slc(a, cuts[i], cuts[i + 1] - cuts[i]), slc(b, cuts[i], cuts[i + 1] - cuts[i])) for i in range(len(cuts) - 1)])
    if a > b:
        a, b = b, a
    return T.mk(op, w, a, b)


def arith(op, w, a, b):
    ca, cb = isc(a), isc(b)
    m = (1 << w) - 1
    if ca is not None and cb is not None:
        if op == "add":
            return const(w, ca + cb)
        if op == "sub":
            return const(w, ca - cb)
        if op == "mul":
            return const(w, ca * cb)
        if op == "shl":
            return const(w, ca << cb) if cb < w else const(w, 0)
        if op == "lshr":
            return const(w, ca >> cb) if cb < w else const(w, 0)
        if op == "ashr":
            s = ca - (1 << w) if ca >> (w - 1) else ca
            return const(w, s >> min(cb, w - 1))
        if op == "udiv" and cb:
            return const(w, ca // cb)
        if op == "urem" and cb:
            return const(w, ca % cb)
    if op == "add" and cb == 0:
        return a
    if op == "add" and ca == 0:
        return b
    if op in ("sub", "shl", "lshr", "ashr") and cb == 0:
        return a
    if op == "ashr" and cb == w - 1 and w <= 32:
        return mk_ite(icmp("slt", a, const(w, 0)), const(w, m), const(w, 0))
    if op == "shl" and cb is not None and cb % 8 == 0 and w > 32:
        return cat([const(cb, 0), slc(a, 0, w - cb)])
    if op == "lshr" and cb is not None and (w > 32):
        return cat([slc(a, cb, w - cb), const(cb, 0)])
    if op == "lshr" and cb is not None and cb % 8 == 0 and w == 32:
        pass
    if op in ("add", "mul") and a > b:
        a, b = b, a
    return T.mk(op, w, a, b)


FNEG = 0x80000000


def fneg(a):
    return bitop("xor", 32, a, const(32, FNEG))


def fabs_(a):
    return bitop("and", 32, a, const(32, 0x7FFFFFFF))


def flt(x):
    return const(32, f2b(x))


def fbin(op, a, b):
    if op in ("fadd", "fmul") and a > b:
        a, b = b, a
    return T.mk(op, a, b)


FPRED = {"oeq": ("oeq", 0, 0), "one": ("one", 0, 0), "olt": ("olt", 0, 0), "ogt": ("olt", 1, 0), "ole": ("ole", 0, 0), "oge": ("ole", 1, 0),
         "une": ("oeq", 0, 1), "ueq": ("one", 0, 1), "uge": ("olt", 0, 1), "ule": ("olt", 1, 1), "ugt": ("ole", 0, 1), "ult": ("ole", 1, 1),
         "uno": ("uno", 0, 0), "ord": ("uno", 0, 1)}


def fcmp(pred, a, b):
    if pred == "true":
        return TRUE
    if pred == "false":
        return FALSE
    p, sw, neg = FPRED[pred]
    if sw:
        a, b = b, a
    if p in ("oeq", "one", "uno") and a > b:
        a, b = b, a
    r = T.mk("fcmp", p, a, b)
    return mk_not(r) if neg else r


def absof(t):
    """x where t = x & 0x7FFFFFFF (or fabs x), else None"""
    n = nd(t)
    if n[0] == "and" and width(t) == 32:
        if isc(n[3]) == 0x7FFFFFFF:
            return n[2]
        if isc(n[2]) == 0x7FFFFFFF:
            return n[3]
    if n[0] == "fabs":
        return n[1]
    return None


def icmp(pred, a, b):
    """integer compare; pushed through ite/constant structure"""
    ca, cb = isc(a), isc(b)
    w = width(a)
    if pred in ("ne", "uge", "ule", "sge", "sle"):
        inv = {"ne": "eq", "uge": "ult", "ule": "ugt", "sge": "slt", "sle": "sgt"}[pred]
        return mk_not(icmp(inv, a, b))
    if pred == "ugt":
        return icmp("ult", b, a)
    if pred == "sgt":
        return icmp("slt", b, a)
    if ca is not None and cb is not None:
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        return const(1, {"eq": ca == cb, "ult": ca < cb, "slt": sg(ca) < sg(cb)}[pred])
    if a == b:
        return TRUE if pred == "eq" else FALSE
    if w == 1 and pred == "eq":
        return mk_not(bitop("xor", 1, a, b))
    na, nb = nd(a), nd(b)
    if na[0] == "ite" and (cb is not None or nb[0] == "ite"):
        return mk_ite(na[1], icmp(pred, na[2], b), icmp(pred, na[3], b))
    if nb[0] == "ite" and (ca is not None):
        return mk_ite(nb[1], icmp(pred, a, nb[2]), icmp(pred, a, nb[3]))
    if pred == "eq" and ca is not None:
        a, b, ca, cb, na, nb = b, a, cb, ca, nb, na
    if pred == "eq" and (na[0] == "cat" or nb[0] == "cat"):
        n = na if na[0] == "cat" else nb
        pos, r = 0, TRUE
        for x in n[1:]:
            wx = width(x)
            r = mk_band(r, icmp("eq", slc(a, pos, wx), slc(b, pos, wx)))
            pos += wx
        return r
    if pred == "ult" and na[0] == "cat" and cb is not None:
        # high constant-zero parts
        if isc(na[-1]) == 0 and cb < (1 << (w - width(na[-1]))):
            wl = w - width(na[-1])
            return icmp(pred, slc(a, 0, wl), const(wl, cb))
    if pred == "eq" and w > 32 and w % 32 == 0 and cb is not None:
        r = TRUE
        for x, y in zip(words(a), words(b)):
            r = mk_band(r, icmp("eq", x, y))
        return r
    if pred == "eq" and na[0] in ("and",) and cb is not None:
        # (x & m) == c  with x = ite(..)
        for x, y in ((na[2], na[3]), (na[3], na[2])):
            nx = nd(x)
            if nx[0] == "ite":
                return mk_ite(nx[1], icmp("eq", bitop("and", w, nx[2], y), b), icmp("eq", bitop("and", w, nx[3], y), b))
    if pred == "eq" and cb == 0:
        if na[0] == "or":
            return mk_band(icmp("eq", na[2], b), icmp("eq", na[3], b))
        if na[0] == "xor":
            return icmp("eq", na[2], na[3])
        if na[0] == "and":
            for x, m in ((na[2], na[3]), (na[3], na[2])):
                nx = nd(x)
                if isc(m) is not None and nx[0] == "or":
                    return mk_band(icmp("eq", bitop("and", w, nx[2], m), b), icmp("eq", bitop("and", w, nx[3], m), b))
    if pred == "eq" and cb is not None and na[0] == "xor":
        for x, m in ((na[2], na[3]), (na[3], na[2])):
            if isc(m) is not None:
                return icmp("eq", x, const(w, isc(m) ^ cb))
    if w == 32:
        # sign-stripped bits of a float against a constant
        x = absof(a)
        if pred == "eq" and x is not None and cb == 0:
            return fcmp("oeq", x, const(32, 0))
        if pred == "eq" and x is not None and cb is not None and 0x00800000 <= cb <= 0x7F800000:
            return fcmp("oeq", fabs_(x), const(32, cb))
        if pred == "ult" and x is not None and cb is not None and 0x00800000 <= cb <= 0x7F800000:
            return fcmp("olt", fabs_(x), const(32, cb))
        if pred == "ult" and x is not None and cb == 0x7F800001:
            return mk_not(fcmp("uno", x, x))
        if pred == "ult" and ca == 0x7F800000 and absof(b) is not None:
            return fcmp("uno", absof(b), absof(b))
        if pred == "ult" and cb is not None and na[0] in ("add", "sub") and len(na) == 4:
            lo = isc(na[3]) if isc(na[3]) is not None else isc(na[2]) if na[0] == "add" else None
            y = na[2] if isc(na[3]) is not None else na[3]
            if lo is not None:
                lo = lo if na[0] == "sub" else (-lo) & 0xFFFFFFFF
                x = absof(y)
                if x is not None and lo == 0x7F800001 and lo + cb >= 0x80000000:
                    return fcmp("uno", x, x)
                if x is not None and lo == 0x7F800000 and lo + cb == 0x7F800001:
                    return fcmp("oeq", fabs_(x), const(32, lo))
    if pred == "slt" and cb == 0:
        return T.mk("icmp", "neg", a)
    if pred == "slt" and ca == (1 << w) - 1:
        return mk_not(T.mk("icmp", "neg", b))
    if pred == "eq" and a > b:
        a, b = b, a
    return T.mk("icmp", pred, a, b)


# ---------------------------------------------------------------- types
def parse_type(s, i=0):
    """-> (type, next index). types: ('i',n) ('f',n) ('ptr',) ('vec',n,t) ('arr',n,t) ('st',[t]) ('void',)"""
    while s[i] == " ":
        i += 1
    if s[i] == "<" and s[i + 1] == "{":
        t, j = parse_type(s, i + 1)
        assert s[j] == ">"
        return ("pst", t[1]), j + 1
    if s[i] in "<[":
        m = re.compile(r"[<\[](\d+) x ").match(s, i)
        t, j = parse_type(s, m.end())
        return (("vec" if s[i] == "<" else "arr"), int(m.group(1)), t), j + 1
    if s[i] == "{":
        j = i + 1
        ts = []
        while True:
            while s[j] in " ,":
                j += 1
            if s[j] == "}":
                return ("st", tuple(ts)), j + 1
            t, j = parse_type(s, j)
            ts.append(t)
    m = re.compile(r"i(\d+)|float|double|half|ptr|void|metadata|label").match(s, i)
    if not m:
        raise Unsupported("type at " + s[i:i + 40])
    w = m.group(0)
    if m.group(1):
        return ("i", int(m.group(1))), m.end()
    if w == "float":
        return ("f", 32), m.end()
    if w == "double":
        return ("f", 64), m.end()
    if w == "half":
        return ("f", 16), m.end()
    return (w,), m.end()


def bits(t):
    if t[0] in "if":
        return t[1]
    if t[0] == "ptr":
        return 64
    if t[0] in ("vec", "arr"):
        return t[1] * bits(t[2])
    if t[0] in ("st", "pst"):
        return sum(bits(x) for x in t[1])
    raise Unsupported(str(t))


def align_of(t):
    if t[0] in "if":
        return max(1, t[1] // 8)
    if t[0] == "ptr":
        return 8
    if t[0] == "vec":
        return bits(t) // 8
    if t[0] == "arr":
        return align_of(t[2])
    if t[0] == "st":
        return max([align_of(x) for x in t[1]] or [1])
    return 1


def alloc_size(t):
    if t[0] == "arr":
        return t[1] * alloc_size(t[2])
    if t[0] == "st":
        o = 0
        for x in t[1]:
            a = align_of(x)
            o = (o + a - 1) // a * a + alloc_size(x)
        a = align_of(t)
        return (o + a - 1) // a * a
    if t[0] == "pst":
        return sum(alloc_size(x) for x in t[1])
    return (bits(t) + 7) // 8


def field_off(t, k):
    o = 0
    for i, x in enumerate(t[1]):
        if t[0] == "st":
            a = align_of(x)
            o = (o + a - 1) // a * a
        if i == k:
            return o, x
        o += alloc_size(x)
    raise Unsupported("field")


class Ptr:
    __slots__ = ("base", "off", "dyn")

    def __init__(self, base, off=0, dyn=()):
        self.base, self.off, self.dyn = base, off, tuple(dyn)  # dyn: ((term, scale),...)

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.base, self.off, self.dyn) == (o.base, o.off, o.dyn)

    def __hash__(self):
        return hash((self.base, self.off, self.dyn))

    def plus(self, k):
        return Ptr(self.base, k + self.off, self.dyn)

    def opts(self):
        return [(TRUE, self)]

    def __repr__(self):
        return "Ptr(%s+%d%s)" % (self.base, self.off, "+dyn" if self.dyn else "")


# ---------------------------------------------------------------- module
class PSel(Ptr):
    """one of several pointers, by condition (the last alternative applies when no other does)"""
    __slots__ = ("alts",)

    def __init__(self, alts, off=0, dyn=()):
        Ptr.__init__(self, "sel", off, dyn)
        self.alts = tuple(alts)

    def __eq__(self, o):
        return isinstance(o, PSel) and (self.alts, self.off, self.dyn) == (o.alts, o.off, o.dyn)

    def __hash__(self):
        return hash((self.alts, self.off, self.dyn))

    def plus(self, k):
        return PSel(self.alts, self.off + k, self.dyn)

    def opts(self):
        return [(c, Ptr(q.base, q.off + self.off, list(q.dyn) + list(self.dyn))) for c, q in self.alts]


def psel(c, a, b):
    """a when c, else b"""
    alts = [(mk_band(c, x), q) for x, q in a.opts()] + [(mk_band(mk_not(c), x), q) for x, q in b.opts()]
    out = {}
    for x, q in alts:
        if x != FALSE:
            out[q] = mk_bor(out.get(q, FALSE), x)
    alts = [(x, q) for q, x in out.items()]
    return alts[0][1] if len(alts) == 1 else PSel(alts)


def split_top(s, sep=","):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "<[{(":
                depth += 1
            elif ch in ">]})":
                depth -= 1
            elif ch == sep and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self, path):
        text = open(path).read()
        self.funcs = {}
        self.globals = {}
        # named aggregate types: substitute their bodies
        named = dict(re.findall(r'(?m)^(%(?:"[^"\n]+"|[\w.$]+)) = type (.*)$', text))
        for k in [k for k, v in named.items() if v == "opaque"]:
            del named[k]
        if named:
            pat = re.compile("|".join(re.escape(k) + ("" if k.endswith('"') else r"(?![\w.$])") for k in named))
            for _ in range(4):
                text = pat.sub(lambda m: named[m.group(0)], text)
        self.attrs = dict(re.findall(r"(?m)^attributes (#\d+) = \{(.*)\}$", text))
        for m in re.finditer(r"(?m)^@([\w.$\"]+) = ([^\n]*)$", text):
            self.globals[m.group(1)] = m.group(2)
        for m in re.finditer(r"(?ms)^(define [^\n]*@([\w.$\"]+)\(([^\n]*)\)[^\n]*)\{\n(.*?)^\}", text):
            self.funcs[m.group(2)] = (m.group(1), m.group(4))
        self.decls = set(re.findall(r"(?m)^declare [^\n]*@([\w.$\"]+)\(", text))
        self._g = {}

    def global_bytes(self, name):
        """-> list of byte values / None, or raises"""
        if name in self._g:
            return self._g[name]
        d = self.globals.get(name)
        if d is None:
            raise Unsupported("global " + name)
        m = re.search(r"\b(constant|global)\b ", d)
        if not m:
            raise Unsupported("global kind " + name)
        if m.group(1) == "global":
            raise Unsupported("mutable global " + name)
        t, i = parse_type(d, m.end())
        b = self.init_bytes(t, d[i:].strip())[0]
        self._g[name] = b
        return b

    def init_bytes(self, t, s):
        s = s.strip()
        if s.startswith("zeroinitializer"):
            return [0] * alloc_size(t), s[15:]
        if s.startswith("undef") or s.startswith("poison"):
            return [None] * alloc_size(t), s[5:] if s.startswith("undef") else s[6:]
        if s.startswith('c"'):
            out, i = [], 2
            while s[i] != '"':
                if s[i] == "\\":
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return out, s[i + 1:]
        if t[0] in ("arr", "vec", "st", "pst"):
            op = 2 if s.startswith("<{") else 1
            body = s[op:]
            out = []
            n = 0
            while True:
                body = body.lstrip(" ,")
                if body[0] in "]>}":
                    break
                et, i = parse_type(body, 0)
                if t[0] == "st":
                    o, _ = field_off(t, n)
                    out += [0] * (o - len(out))
                b, body = self.init_bytes(et, body[i:])
                out += b
                n += 1
            body = body[1:]
            if op == 2:
                body = body[1:]
            out += [0] * (alloc_size(t) - len(out))
            return out, body
        m = re.match(r"(-?\d+)|(0x[0-9A-F]+)|(-?[\d.]+e[+-]\d+)|(true|false)|(null)|(@[\w.$\"]+)", s)
        if not m:
            raise Unsupported("init " + s[:40])
        v = scalar_const(t, m.group(0)) if m.group(6) is None else None
        n = alloc_size(t)
        if m.group(6):
            return [("p", m.group(6)[1:], k) for k in range(n)], s[m.end():]
        return ([None] * n if v is None else [(v >> (8 * k)) & 255 for k in range(n)]), s[m.end():]


def scalar_const(t, tok):
    """bit pattern of a scalar literal"""
    if t[0] == "i":
        if tok in ("true", "false"):
            return int(tok == "true")
        return int(tok) & ((1 << t[1]) - 1)
    if t[0] == "ptr":
        return 0
    if t[0] == "f":
        if tok.startswith("0xH"):
            return int(tok[3:], 16)
        if tok.startswith("f0x"):
            return int(tok[3:], 16)
        if tok.startswith("0x"):
            d = struct.unpack("<d", struct.pack("<Q", int(tok[2:], 16)))[0]
            if t[1] == 64:
                return int(tok[2:], 16)
            q = int(tok[2:], 16)
            # NaN payloads: LLVM prints the double extension of the float
            if (q >> 52) & 0x7FF == 0x7FF:
                return ((q >> 63) << 31) | (0xFF << 23) | ((q >> 29) & 0x7FFFFF)
            return f2b(d)
        if tok in ("inf", "+inf", "-inf", "nan", "+nan", "+qnan", "-qnan", "-nan"):
            s = 1 if tok[0] == "-" else 0
            return (s << 31) | (0x7F800000 if "inf" in tok else 0x7FC00000)
        m = re.match(r"([+-]?)(nan|snan)\((0x[0-9a-fA-F]+)\)", tok)
        if m:
            return ((1 << 31) if m.group(1) == "-" else 0) | 0x7F800000 | int(m.group(3), 16) | (0x400000 if m.group(2) == "nan" else 0)
        x = float(tok)
        if t[1] == 64:
            return struct.unpack("<Q", struct.pack("<d", x))[0]
        return f2b(x)
    raise Unsupported("const %s %s" % (t, tok))


# name -> (kinds of the Rust parameters, kind of the result, functions computed)
#   v: XMVECTOR, s: f32, ov/os: &mut XMVECTOR / &mut f32
def _summ():
    r = {}
    for e in ("", "Est"):
        for f in ("Sin", "Cos", "Tan", "ASin", "ACos", "ATan"):
            r["XMVector" + f + e] = (["v"], "v", [f.lower() + e])
        for f in ("Sin", "Cos", "ASin", "ACos"):
            r["XMScalar" + f + e] = (["s"], "s", [f.lower() + e])
        r["XMVectorATan2" + e] = (["v", "v"], "v", ["atan2" + e])
        r["XMScalarSinCos" + e] = (["os", "os", "s"], None, ["sin" + e, "cos" + e])
        r["XMVectorSinCos" + e] = (["ov", "ov", "v"], None, ["sin" + e, "cos" + e])
    for f in ("SinH", "CosH", "TanH", "Exp", "Exp2"):
        r["XMVector" + f] = (["v"], "v", ["exp2" if f == "Exp" else f.lower()])      # XMVectorExp is base 2
    r["XMVectorPow"] = (["v", "v"], "v", ["pow"])
    return r


SUMMARY = _summ()


def summary_of(name):
    for fn in SUMMARY:
        if re.search(r"(?<!\d)%d%s(?![a-z0-9])" % (len(fn), fn), name):
            return fn
    return None


class Result:
    """what one function does: final memory words of its argument objects, panic conditions, ..."""

    def __init__(self):
        self.mem = {}
        self.panics = []
        self.calls = []
        self.accesses = []
        self.align = {}
        self.maybe = []   # (condition, what): accesses through a null or dangling pointer
        self.dyn = []     # (condition of an access outside its object, object, its size, bytes)
        self.exit = TRUE
        self.ninstr = 0


class Func:
    def __init__(self, mod, name, sizes):
        """sizes: {param name: byte size of the referenced object}"""
        self.mod, self.name, self.sizes = mod, name, sizes
        self.head, body = mod.funcs[name]
        self.blocks, self.order = {}, []
        cur = None
        for line in body.split("\n"):
            if not line.strip() or line.lstrip().startswith(";"):
                continue
            m = re.match(r'^("?[\w.$\-]+"?):', line)
            if m:
                cur = m.group(1).strip('"')
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            l = re.sub(r"(, !\w+(\.\w+)* ![\d]+)+\s*$", "", line.strip())
            l = re.sub(r",? ?![\w.]+ !\d+", "", l)
            l = re.sub(r" #\d+$", "", l)
            l = re.sub(r"/\*.*?\*/ ?", "", l)
            if cur is None:
                cur = "entry"
                self.blocks[cur] = []
                self.order.append(cur)
            # multi-line switch
            if self.blocks[cur] and self.blocks[cur][-1].startswith("switch") and not self.blocks[cur][-1].endswith("]"):
                self.blocks[cur][-1] += " " + l
            else:
                self.blocks[cur].append(l)

    actual = None
    mem0 = {}
    here = TRUE
    strict = False   # keep "uninitialised on this path" instead of joining it to the initialised side

    # ---- CFG
    def succs(self, b):
        term = self.blocks[b][-1]
        return [x.strip('"') for x in re.findall(r'label %("?[\w.$\-]+"?)', term)]

    MAXITER = 70

    def topo(self):
        """order of the acyclic part, back edges, and for every block the headers of the loops around it, outermost first"""
        state, out = {}, []
        self.backedges = set()
        stack = [(self.order[0], iter(self.succs(self.order[0])))]
        state[self.order[0]] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s) == 1:
                    self.backedges.add((b, s))
                    continue
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                state[b] = 2
                out.append(b)
                stack.pop()
        out = out[::-1]
        self.rank = {b: i for i, b in enumerate(out)}
        loops = {}
        if self.backedges:
            preds = {}
            for b in out:
                for s in self.succs(b):
                    preds.setdefault(s, []).append(b)
            for l, h in self.backedges:
                body = loops.setdefault(h, {h})
                todo = [l]
                while todo:
                    x = todo.pop()
                    if x in body:
                        continue
                    if x == self.order[0]:
                        raise Unsupported("irreducible loop")
                    body.add(x)
                    todo += preds.get(x, [])
        self.nest = {b: [h for h in sorted(loops, key=lambda h: (-len(loops[h]), self.rank[h])) if b in loops[h]] for b in out}
        for b in out:
            for s in self.succs(b):
                if (b, s) in self.backedges:
                    continue
                for h in self.nest[s]:
                    if h not in self.nest[b] and h != s:
                        raise Unsupported("irreducible loop")
        return out

    # ---- values
    def lit(self, t, s):
        s = s.strip()
        if s.startswith("%"):
            return self.env[s[1:].strip('"')]
        if s in ("undef", "poison"):
            return self.undef(t)
        if s == "zeroinitializer":
            return self.zero(t)
        if t[0] == "ptr":
            if s.startswith("@"):
                return Ptr("g:" + s[1:])
            if s == "null":
                return Ptr("null")
            m = re.match(r"getelementptr .*?\((.*)\)$", s)
            if m:
                return self.gep(m.group(1))
            m = re.match(r"inttoptr \(i64 (\d+) to ptr\)", s)
            if m:
                return Ptr("int", int(m.group(1)))
            raise Unsupported("ptr literal " + s)
        if t[0] == "vec":
            m = re.match(r"splat \((.*)\)$", s)
            if m:
                et, i = parse_type(m.group(1))
                v = self.lit(et, m.group(1)[i:])
                return (v,) * t[1]
            if s.startswith("<"):
                parts = split_top(s[1:-1])
                out = []
                for p in parts:
                    et, i = parse_type(p)
                    out.append(self.lit(et, p[i:]))
                return tuple(out)
            if s.startswith("bitcast"):
                m = re.match(r"bitcast \((.*) to (.*)\)$", s)
                et, i = parse_type(m.group(1))
                return self.bitcast(et, self.lit(et, m.group(1)[i:]), t)
        if t[0] in ("arr", "st") and s[0] in "[{":
            parts = split_top(s[1:-1])
            out = []
            for p in parts:
                et, i = parse_type(p)
                out.append(self.lit(et, p[i:]))
            return tuple(out)
        if t[0] in "if":
            return const(t[1], scalar_const(t, s))
        raise Unsupported("literal %s %s" % (t, s[:50]))

    def undef(self, t):
        if t[0] == "vec" or t[0] == "arr":
            return (self.undef(t[2]),) * t[1]
        if t[0] == "st":
            return tuple(self.undef(x) for x in t[1])
        if t[0] == "ptr":
            return Ptr("undef")
        return T.mk("undef", bits(t))

    def zero(self, t):
        if t[0] in ("vec", "arr"):
            return (self.zero(t[2]),) * t[1]
        if t[0] == "st":
            return tuple(self.zero(x) for x in t[1])
        if t[0] == "ptr":
            return Ptr("null")
        return const(t[1], 0)

    def tobits(self, t, v):
        if t[0] in ("vec", "arr"):
            return cat([self.tobits(t[2], x) for x in v])
        if t[0] == "ptr":
            return T.mk("ptr", v)
        return v

    def frombits(self, t, v):
        if t[0] in ("vec", "arr"):
            w = bits(t[2])
            return tuple(self.frombits(t[2], slc(v, i * w, w)) for i in range(t[1]))
        if t[0] == "ptr":
            n = nd(v)
            if n[0] == "ptr":
                return n[1]
            raise Unsupported("int to ptr")
        return v

    def bitcast(self, t1, v, t2):
        if t1 == t2:
            return v
        if t1[0] == "vec" and t2[0] == "vec" and bits(t1[2]) == bits(t2[2]):
            return v
        return self.frombits(t2, self.tobits(t1, v))

    def tv(self, s):
        """'type value' -> (type, value)"""
        t, i = parse_type(s)
        rest = s[i:].strip()
        rest = re.sub(r"^(?:(?:noundef|nonnull|zeroext|signext|readonly|writeonly|nofree|readnone|returned|noalias|nocapture|immarg|align \d+|captures\([^)]*\)|dereferenceable(?:_or_null)?\(\d+\)|dead_on_return|range\([^)]*\)|nofpclass\([^)]*\)|dead_on_unwind|writable|initializes\(\([^)]*\)\)|sret\([^)]*\)) )*", "", rest)
        return t, self.lit(t, rest)

    def gep(self, s):
        parts = split_top(s)
        t, _ = parse_type(parts[0])
        _, p = self.tv(parts[1])
        if not isinstance(p, Ptr):
            raise Unsupported("gep on non-pointer")
        off, dyn = p.off, list(p.dyn)

        def addidx(ix, scale):
            nonlocal off
            c = isc(ix)
            if c is not None:
                w = width(ix)
                if c >> (w - 1):
                    c -= 1 << w
                off += c * scale
            else:
                dyn.append((ix, scale))
        _, i0 = self.tv(parts[2])
        addidx(i0, alloc_size(t))
        for q in parts[3:]:
            _, ix = self.tv(q)
            if t[0] in ("st", "pst"):
                o, t = field_off(t, isc(ix))
                off += o
            else:
                addidx(ix, alloc_size(t[2]))
                t = t[2]
        return PSel(p.alts, off, dyn) if isinstance(p, PSel) else Ptr(p.base, off, dyn)

    # ---- memory
    def objsize(self, base):
        if base.startswith("g:"):
            return len(self.mod.global_bytes(base[2:]))
        return self.sizes.get(base)

    def ld_cell(self, mem, base, off, nb):
        """nb bytes (1,2,4,8) at constant offset"""
        if base.startswith("g:"):
            b = self.mod.global_bytes(base[2:])
            if off < 0 or off + nb > len(b):
                self.res.accesses.append(("oob", base, off, nb))
                raise Unsupported("oob global read")
            bs = b[off:off + nb]
            if any(not isinstance(x, int) for x in bs):
                raise Unsupported("pointer/undef in global")
            return const(nb * 8, int.from_bytes(bytes(bs), "little"))
        sz = self.objsize(base)
        if sz is not None and (off < 0 or off + nb > sz):
            self.res.accesses.append(("oob", base, off, nb))
            return T.mk("undef", nb * 8)
        # words of 4 bytes aligned to 4 are the cell unit; bytes inside are slices
        parts = []
        o = off
        while o < off + nb:
            w0 = o // 4 * 4
            n = min(off + nb, w0 + 4) - o
            cell = mem.get((base, w0))
            if cell is None:
                if base.startswith("alloca"):
                    cell = T.mk("undef", 32)
                else:
                    cell = T.mk("in", 32, base, w0)
            parts.append(slc(cell, (o - w0) * 8, n * 8))
            o += n
        return cat(parts)

    def st_cell(self, mem, base, off, v):
        w = width(v)
        nb = w // 8
        if base.startswith("g:") or base in ("null", "undef", "int"):
            raise Unsupported("store to " + base)
        sz = self.objsize(base)
        if sz is not None and (off < 0 or off + nb > sz):
            self.res.accesses.append(("oob-write", base, off, nb))
            return
        o = off
        while o < off + nb:
            w0 = o // 4 * 4
            n = min(off + nb, w0 + 4) - o
            piece = slc(v, (o - off) * 8, n * 8)
            if n == 4:
                mem[(base, w0)] = piece
            else:
                old = self.ld_cell(mem, base, w0, 4) if sz is None or w0 + 4 <= sz else (mem.get((base, w0)) if mem.get((base, w0)) is not None else (T.mk("undef", 32) if base.startswith("alloca") else T.mk("in", 32, base, w0)))
                parts = []
                if o > w0:
                    parts.append(slc(old, 0, (o - w0) * 8))
                parts.append(piece)
                if o + n < w0 + 4:
                    parts.append(slc(old, (o + n - w0) * 8, (w0 + 4 - o - n) * 8))
                mem[(base, w0)] = cat(parts)
            o += n

    def dyn_offsets(self, p, nb):
        """possible constant offsets of a pointer with one dynamic index -> [(cond, off)]"""
        sz = self.objsize(p.base)
        if sz is None:
            raise Unsupported("dynamic index into unknown object")
        # group the same term
        agg = {}
        for t, s in p.dyn:
            agg[t] = agg.get(t, 0) + s
        items = list(agg.items())
        out = [(TRUE, p.off)]
        for t, s in items:
            new = []
            leaves = ite_leaves(t)
            for c, o in out:
                if leaves is not None:
                    for lc, lv in leaves:
                        w = width(t)
                        if lv >> (w - 1):
                            lv -= 1 << w
                        new.append((mk_band(c, lc), o + s * lv))
                else:
                    n = sz // s
                    for k in range(n + 1):
                        new.append((mk_band(c, icmp("eq", t, const(width(t), k))), o + s * k))
            out = new
            if len(out) > 4096:
                raise Unsupported("too many dynamic offsets")
        ok = [(c, o) for c, o in out if c != FALSE and 0 <= o and o + nb <= sz]
        bad = [(c, o) for c, o in out if c != FALSE and not (0 <= o and o + nb <= sz)]
        okc = FALSE
        for c, _ in ok:
            okc = mk_bor(okc, c)
        self.res.dyn.append((mk_band(self.here, mk_not(okc)), p.base, sz, nb))
        return ok

    def load(self, t, p):
        if not isinstance(p, Ptr):
            raise Unsupported("load via non-pointer")
        if t[0] == "st":
            out = []
            for k in range(len(t[1])):
                o, ft = field_off(t, k)
                out.append(self.load(ft, p.plus(o)))
            return tuple(out)
        if t[0] in ("vec", "arr"):
            es = alloc_size(t[2])
            if t[0] == "vec" and bits(t[2]) < 8:
                raise Unsupported("sub-byte vector load")
            return tuple(self.load(t[2], p.plus(i * es)) for i in range(t[1]))
        if isinstance(p, PSel):
            o = p.opts()
            h = self.here
            v = None
            for c, q in reversed(o):
                self.here = mk_band(h, c)
                if q.base in ("null", "undef", "int") and len(o) > 1 and self.dead(self.here):
                    continue
                x = self.load(t, q)
                v = x if v is None else self.sel(c, x, v)
            self.here = h
            return v
        if p.base in ("null", "undef", "int"):
            if self.dead(self.here):
                return self.undef(t)
            raise Unsupported("load from " + p.base)
        nb = alloc_size(t)
        if t[0] == "ptr" and p.dyn:
            v = None
            for c, o in reversed(self.dyn_offsets(p, nb)):
                x = self.load(t, Ptr(p.base, o))
                v = x if v is None else self.sel(c, x, v)
            if v is None:
                raise Unsupported("no valid dynamic offset")
            return v
        if t[0] == "ptr" and p.base.startswith("g:"):
            b = self.mod.global_bytes(p.base[2:])
            if 0 <= p.off and p.off + 8 <= len(b) and isinstance(b[p.off], tuple) and b[p.off][2] == 0:
                return Ptr("g:" + b[p.off][1])
        if p.dyn:
            offs = self.dyn_offsets(p, nb)
            if not offs:
                raise Unsupported("no valid dynamic offset")
            v = self.ld_cell(self.mem, p.base, offs[-1][1], nb)
            for c, o in reversed(offs[:-1]):
                v = mk_ite(c, self.ld_cell(self.mem, p.base, o, nb), v)
        else:
            v = self.ld_cell(self.mem, p.base, p.off, nb)
        if t[0] == "ptr":
            return self.asptr(slc(v, 0, 32))
        if bits(t) < nb * 8:
            v = slc(v, 0, bits(t))
        return v

    def dead(self, c):
        if c == FALSE:
            return True
        import bdd
        return bdd.is_false(c, limit=60000, floats=False) is True

    def asptr(self, v):
        """the pointer whose low word is v"""
        n = nd(v)
        if n[0] == "slice" and n[2] == 0 and nd(n[1])[0] == "ptr":
            return nd(n[1])[1]
        if n[0] == "ite":
            return psel(n[1], self.asptr(n[2]), self.asptr(n[3]))
        if n[0] == "c" and n[2] == 0:
            return Ptr("null")
        if n[0] == "undef":
            return Ptr("undef")
        raise Unsupported("load of a pointer")

    def store(self, t, v, p):
        if not isinstance(p, Ptr):
            raise Unsupported("store via non-pointer")
        if t[0] == "st":
            for k in range(len(t[1])):
                o, ft = field_off(t, k)
                self.store(ft, v[k], p.plus(o))
            return
        if t[0] in ("vec", "arr"):
            es = alloc_size(t[2])
            for i in range(t[1]):
                self.store(t[2], v[i], p.plus(i * es))
            return
        if isinstance(p, PSel):
            h = self.here
            for c, q in p.opts():
                self.here = mk_band(h, c)
                self.store(t, self.sel(c, v, self.load(t, q)), q)
            self.here = h
            return
        if t[0] == "ptr":
            v = T.mk("ptr", v)
        nb = alloc_size(t)
        if width(v) < nb * 8:
            v = zext(nb * 8, v)
        if p.dyn:
            for c, o in self.dyn_offsets(p, nb):
                old = self.ld_cell(self.mem, p.base, o, nb)
                self.st_cell(self.mem, p.base, o, mk_ite(c, v, old))
        else:
            self.st_cell(self.mem, p.base, p.off, v)

    # ---- run
    def run(self):
        self.res = Result()
        order = self.topo()
        self.env = {}
        params = re.search(r"@[\w.$\"]+\((.*)\)", self.head).group(1)
        k = 0
        for p in split_top(params):
            m = re.search(r"%([\w.]+)$", p)
            if not m:
                continue
            if self.actual is not None:
                self.env[m.group(1)] = self.actual[k]
                k += 1
                continue
            t, _ = parse_type(p)
            self.env[m.group(1)] = Ptr(m.group(1)) if t[0] == "ptr" else T.mk("in", bits(t), m.group(1), 0)
        import heapq
        entry = (order[0], ())
        preds, edge, inmem, reach = {entry: []}, {}, {}, {entry: TRUE}
        self.phiv = {}     # (pred instance, instance) -> {phi name: value}
        self.ret = []

        def prio(inst):
            b, cs = inst
            k = []
            for h, c in zip(self.nest[b], cs):
                k += [self.rank[h], c]
            return tuple(k + [self.rank[b]])
        heap = [(prio(entry), entry)]
        queued = {entry}
        niter = 0
        self.preds, self.edge = preds, edge
        while heap:
            _, inst = heapq.heappop(heap)
            b, cs = inst
            self.cur = inst
            if inst != entry:
                r = FALSE
                for p in preds[inst]:
                    r = mk_bor(r, edge[(p, inst)])
                reach[inst] = r
                self.mem = self.merge(inst, preds[inst], edge, inmem)
            else:
                self.mem = dict(self.mem0)
            self.here = reach[inst]
            for ins in self.blocks[b]:
                self.res.ninstr += 1
                self.step(ins, reach[inst])
            term = self.blocks[b][-1]
            if term.startswith("br label"):
                out = [(self.succs(b)[0], TRUE)]
            elif term.startswith("br i1"):
                m = re.match(r"br i1 (\S+),", term)
                c = self.lit(("i", 1), m.group(1))
                s = self.succs(b)
                out = [(s[0], c), (s[1], mk_not(c))]
            elif term.startswith("switch"):
                m = re.match(r"switch (i\d+) (\S+), label %(\S+) \[(.*)\]", term)
                t, _ = parse_type(m.group(1))
                v = self.lit(t, m.group(2))
                out, rest = [], TRUE
                for k, l in re.findall(r"i\d+ (-?\d+), label %(\S+)", m.group(4)):
                    c = icmp("eq", v, const(t[1], int(k)))
                    out.append((l, c))
                    rest = mk_band(rest, mk_not(c))
                out.append((m.group(3), rest))
            elif term.startswith("ret"):
                rv = None
                if not term.startswith("ret void"):
                    rv = self.tv(term[4:])[1]
                self.ret.append((reach[inst], dict(self.mem), rv))
                out = []
            elif term.startswith("unreachable"):
                out = []
            else:
                raise Unsupported("terminator " + term[:40])
            for s, c in out:
                s = s.strip('"')
                e = mk_band(reach[inst], c)
                ns, nb = self.nest[s], self.nest[b]
                common = 0
                while common < len(ns) and common < len(nb) and ns[common] == nb[common]:
                    common += 1
                ncs = list(cs[:common])
                if (b, s) in self.backedges:
                    i = nb.index(s)
                    ncs = list(cs[:i + 1])
                    ncs[i] += 1
                    if e == FALSE:
                        continue
                    niter += 1
                    if ncs[i] >= 10:
                        import bdd
                        if bdd.is_false(e, limit=60000, floats=False) is True:
                            continue
                    if ncs[i] > self.MAXITER or niter > 2000:
                        raise Unsupported("loop")
                else:
                    if self.backedges and e == FALSE:
                        continue
                    ncs += [0] * (len(ns) - common)
                dst = (s, tuple(ncs))
                if (inst, dst) in edge:
                    edge[(inst, dst)] = mk_bor(edge[(inst, dst)], e)
                else:
                    edge[(inst, dst)] = e
                    preds.setdefault(dst, []).append(inst)
                    inmem[(inst, dst)] = self.mem
                    if self.backedges:
                        self.phiv[(inst, dst)] = self.phis(b, s)
                if dst not in queued:
                    queued.add(dst)
                    heapq.heappush(heap, (prio(dst), dst))
        # final memory
        if not self.ret:
            raise Unsupported("no return")
        keys = set()
        for _, m, _ in self.ret:
            keys |= set(m)
        self.endmem = {}
        for k in keys:
            v = None
            for c, m, _ in reversed(self.ret):
                x = m.get(k)
                if x is None:
                    x = T.mk("undef", 32) if k[0].startswith("alloca") else T.mk("in", 32, k[0], k[1])
                v = x if v is None else mk_ite(c, x, v)
            self.endmem[k] = v
        self.res.mem = {k: v for k, v in self.endmem.items() if not k[0].startswith("alloca")}
        self.retval = None
        for c, _, rv in reversed(self.ret):
            if rv is not None:
                self.retval = rv if self.retval is None else self.sel(c, rv, self.retval)
        ex = FALSE
        for c, _, _ in self.ret:
            ex = mk_bor(ex, c)
        self.res.exit = ex
        return self.res

    def gate(self, b, vals):
        """vals: list of (pred, value) -> merged value"""
        if all(v == vals[0][1] for _, v in vals):
            return vals[0][1]
        x = vals[-1][1]
        for p, v in reversed(vals[:-1]):
            x = self.sel(self.edge[(p, b)], v, x)
        return x

    def sel(self, c, a, b):
        if isinstance(a, tuple):
            return tuple(self.sel(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a == b:
                return a
            if a.base == b.base:
                return Ptr(a.base, 0, [(mk_ite(c, const(64, a.off), const(64, b.off)), 1)]) if not a.dyn and not b.dyn else psel(c, a, b)
            return psel(c, a, b)
        return mk_ite(c, a, b)

    def merge(self, b, preds, edge, inmem):
        self.edge = edge
        ms = [(p, inmem[(p, b)]) for p in preds]
        if len(ms) == 1:
            return dict(ms[0][1])
        keys = set()
        for _, m in ms:
            keys |= set(m)
        out = {}
        for k in keys:
            vals = []
            for p, m in ms:
                x = m.get(k)
                if x is None:
                    x = T.mk("undef", 32) if k[0].startswith("alloca") else T.mk("in", 32, k[0], k[1])
                vals.append((p, x))
            # an undefined alloca cell joins to the defined side
            d = vals if self.strict else [v for v in vals if nd(v[1])[0] != "undef"]
            out[k] = self.gate(b, d or vals)
        return out

    FLAGS = re.compile(r"^(?:(?:nuw|nsw|exact|disjoint|nneg|samesign|nnan|ninf|nsz|arcp|contract|afn|reassoc|fast|inbounds|volatile|tail|musttail|notail|inrange\([^)]*\)) )*")

    def strip(self, s):
        return s[self.FLAGS.match(s).end():]

    def step(self, ins, reach):
        m = re.match(r'%("?[\w.$\-]+"?) = (.*)$', ins)
        dst = None
        if m:
            dst, ins = m.group(1).strip('"'), m.group(2)
        ins = re.sub(r"^(tail|musttail|notail) ", "", ins)
        op, _, rest = ins.partition(" ")
        if op in ("br", "ret", "switch"):
            return
        if op == "unreachable":
            self.res.panics.append((reach, "unreachable"))
            return
        v = getattr(self, "op_" + op, None)
        if v is None:
            raise Unsupported("op " + op)
        r = v(self.strip(rest), reach)
        if dst is not None:
            self.env[dst] = r

    def two(self, s):
        t, i = parse_type(s)
        a, b = split_top(s[i:])
        return t, self.lit(t, a), self.lit(t, b)

    def lanes(self, t, f, *vs):
        if t[0] == "vec":
            return tuple(f(t[2], *xs) for xs in zip(*vs))
        return f(t, *vs)

    def _fb(op):
        def g(self, s, r):
            t, a, b = self.two(s)
            if (t[2] if t[0] == "vec" else t) != ("f", 32):
                return self.lanes(t, lambda et, x, y: T.mk("f64" if et == ("f", 64) else "f16", op, x, y), a, b)
            return self.lanes(t, lambda et, x, y: fbin(op, x, y), a, b)
        return g
    op_fadd, op_fsub, op_fmul, op_fdiv, op_frem = map(_fb, ("fadd", "fsub", "fmul", "fdiv", "frem"))

    def op_fneg(self, s, r):
        t, i = parse_type(s)
        return self.lanes(t, lambda et, x: fneg(x), self.lit(t, s[i:]))

    def _ib(op):
        def g(self, s, r):
            t, a, b = self.two(s)
            if op in ("and", "or", "xor"):
                return self.lanes(t, lambda et, x, y: bitop(op, et[1], x, y), a, b)
            return self.lanes(t, lambda et, x, y: arith(op, et[1], x, y), a, b)
        return g
    op_and, op_or, op_xor, op_add, op_sub, op_mul, op_shl, op_lshr, op_ashr, op_udiv, op_urem, op_sdiv, op_srem = map(_ib, ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"))

    def op_fcmp(self, s, r):
        p, _, rest = s.partition(" ")
        t, a, b = self.two(rest)
        return self.lanes(t, lambda et, x, y: fcmp(p, x, y), a, b)

    def op_icmp(self, s, r):
        p, _, rest = s.partition(" ")
        t, a, b = self.two(rest)
        if t == ("i", 64) and p in ("eq", "ne") and (nd(a)[0], nd(b)[0]) in (("ptr", "ptr"), ("ptr", "c"), ("c", "ptr")) and isc(a) in (None, 0) and isc(b) in (None, 0):
            a, b = (nd(x)[1] if nd(x)[0] == "ptr" else Ptr("null") for x in (a, b))
            t = ("ptr",)
        if t[0] == "ptr":
            if isinstance(a, PSel) or isinstance(b, PSel):
                x = FALSE
                for ca, qa in a.opts():
                    for cb, qb in b.opts():
                        x = mk_bor(x, mk_band(mk_band(ca, cb), self.pcmp(p, qa, qb)))
                return x
            return self.pcmp(p, a, b)
        return self.lanes(t, lambda et, x, y: icmp(p, x, y), a, b)

    def pcmp(self, p, a, b):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and not a.dyn and not b.dyn:
                if a.base == b.base:
                    return const(1, {"eq": a.off == b.off, "ne": a.off != b.off, "ult": a.off < b.off, "ule": a.off <= b.off, "ugt": a.off > b.off, "uge": a.off >= b.off}[p])
                if p in ("eq", "ne"):
                    return const(1, p == "ne")
            raise Unsupported("pointer compare")

    def op_select(self, s, r):
        parts = split_top(s)
        tc, c = self.tv(parts[0])
        t, a = self.tv(parts[1])
        _, b = self.tv(parts[2])
        if tc[0] == "vec":
            return tuple(mk_ite(cc, x, y) for cc, x, y in zip(c, a, b))
        return self.sel(c, a, b)

    def phis(self, b, s):
        """values the phis of block s take when control comes from block b now"""
        out = {}
        for ins in self.blocks[s]:
            m = re.match(r"%(\S+) = phi (.*)$", ins)
            if not m:
                break
            body = self.strip(m.group(2))
            t, i = parse_type(body)
            for p in split_top(body[i:]):
                q = re.match(r"\[ (.*), %(\S+) \]$", p)
                if q.group(2).strip('"') == b:
                    out[body] = self.lit(t, q.group(1))
        return out

    def op_phi(self, s, r):
        vals = []
        if self.backedges:
            for pi in self.preds[self.cur]:
                vals.append((pi, self.phiv[(pi, self.cur)][s]))
            return self.gate(self.cur, vals)
        t, i = parse_type(s)
        pis = {p[0]: p for p in self.preds.get(self.cur, [])}
        for p in split_top(s[i:]):
            m = re.match(r"\[ (.*), %(\S+) \]$", p)
            pr = m.group(2).strip('"')
            if pr in pis:
                vals.append((pis[pr], self.lit(t, m.group(1))))
        return self.gate(self.cur, vals)

    def op_freeze(self, s, r):
        return self.tv(s)[1]

    def op_bitcast(self, s, r):
        a, b = s.rsplit(" to ", 1)
        t1, v = self.tv(a)
        t2, _ = parse_type(b)
        return self.bitcast(t1, v, t2)

    def _conv(f):
        def g(self, s, r):
            a, b = s.rsplit(" to ", 1)
            t1, v = self.tv(a)
            t2, _ = parse_type(b)
            w = (t2[2] if t2[0] == "vec" else t2)[1]
            return self.lanes(t1, lambda et, x: f(et, x, w), v)
        return g
    op_zext = _conv(lambda et, x, w: zext(w, x))
    op_sext = _conv(lambda et, x, w: sext(w, x))
    op_trunc = _conv(lambda et, x, w: slc(x, 0, w))
    op_sitofp = _conv(lambda et, x, w: sitofp(x) if w == 32 else T.mk("f64", "sitofp", x))
    op_uitofp = _conv(lambda et, x, w: uitofp(x) if w == 32 else T.mk("f64", "uitofp", x))
    op_fptosi = _conv(lambda et, x, w: T.mk("fptosi", w, x))
    op_fptoui = _conv(lambda et, x, w: T.mk("fptoui", w, x))
    op_fpext = _conv(lambda et, x, w: T.mk("f64", "fpext", x) if et == ("f", 32) else T.mk("h2f", x))
    op_fptrunc = _conv(lambda et, x, w: T.mk("fptrunc", x) if w == 32 else T.mk("call", 16, "f2h", x))

    def op_ptrtoint(self, s, r):
        a, b = s.rsplit(" to ", 1)
        _, v = self.tv(a)
        return T.mk("ptr", v)

    op_ptrtoaddr = op_ptrtoint

    def op_inttoptr(self, s, r):
        a, b = s.rsplit(" to ", 1)
        _, v = self.tv(a)
        n = nd(v)
        if n[0] == "ptr":
            return n[1]
        raise Unsupported("inttoptr")

    def op_shufflevector(self, s, r):
        parts = split_top(s)
        _, a = self.tv(parts[0])
        _, b = self.tv(parts[1])
        t, i = parse_type(parts[2])
        m = parts[2][i:].strip()
        if m in ("poison", "undef"):
            idx = [None] * t[1]
        elif m == "zeroinitializer":
            idx = [0] * t[1]
        elif m.startswith("splat"):
            idx = [int(re.search(r"i32 (\d+)", m).group(1))] * t[1]
        else:
            idx = [None if x.split()[1] in ("poison", "undef") else int(x.split()[1]) for x in split_top(m[1:-1])]
        al = a + b
        w = 32
        for x in al:
            if not isinstance(x, Ptr):
                w = width(x)
        return tuple(T.mk("undef", w) if k is None else al[k] for k in idx)

    def op_extractelement(self, s, r):
        a, b = split_top(s)
        _, v = self.tv(a)
        _, i = self.tv(b)
        c = isc(i)
        if c is not None:
            return v[c]
        x = v[-1]
        for k in range(len(v) - 2, -1, -1):
            x = mk_ite(icmp("eq", i, const(width(i), k)), v[k], x)
        self.res.accesses.append(("dyn-lane", len(v)))
        return x

    def op_insertelement(self, s, r):
        a, b, c = split_top(s)
        _, v = self.tv(a)
        _, x = self.tv(b)
        _, i = self.tv(c)
        k = isc(i)
        if k is not None:
            return v[:k] + (x,) + v[k + 1:]
        self.res.accesses.append(("dyn-lane", len(v)))
        return tuple(mk_ite(icmp("eq", i, const(width(i), j)), x, v[j]) for j in range(len(v)))

    def op_extractvalue(self, s, r):
        parts = split_top(s)
        _, v = self.tv(parts[0])
        for k in parts[1:]:
            v = v[int(k)]
        return v

    def op_insertvalue(self, s, r):
        parts = split_top(s)
        _, v = self.tv(parts[0])
        _, x = self.tv(parts[1])
        if len(parts) != 3:
            raise Unsupported("insertvalue")
        k = int(parts[2])
        return v[:k] + (x,) + v[k + 1:]

    def op_getelementptr(self, s, r):
        return self.gep(s)

    def op_alloca(self, s, r):
        t, _ = parse_type(s)
        base = "alloca%d" % len([k for k in self.sizes if k.startswith("alloca")])
        self.sizes = dict(self.sizes)
        self.sizes[base] = alloc_size(t)
        m = re.search(r", align (\d+)", s)
        self.res.align[base] = int(m.group(1)) if m else 1
        return Ptr(base)

    def steps(self, t):
        """values of which a computed index is a multiple"""
        l = ite_leaves(t)
        return [v for _, v in l] if l is not None else [1]

    def note(self, kind, p, n, align):
        """n bytes accessed through p, which the code claims to be aligned to `align`"""
        if not isinstance(p, Ptr):
            raise Unsupported(kind + " via non-pointer")
        for c, q in p.opts():
            self.res.accesses.append((kind, q.base, q.off, n, align, tuple(sc * g for t, sc in q.dyn for g in self.steps(t))))

    def op_load(self, s, r):
        t, i = parse_type(s)
        parts = split_top(s[i:].lstrip(", "))
        _, p = self.tv(parts[0])
        al = [int(x.split()[1]) for x in parts[1:] if x.startswith("align")]
        self.note("load", p, alloc_size(t), al[0] if al else 0)
        return self.load(t, p)

    def op_store(self, s, r):
        parts = split_top(s)
        t, v = self.tv(parts[0])
        _, p = self.tv(parts[1])
        al = [int(x.split()[1]) for x in parts[2:] if x.startswith("align")]
        self.note("store", p, alloc_size(t), al[0] if al else 0)
        self.store(t, v, p)

    # ---- calls
    def op_call(self, s, r):
        m = re.match(r"(.*?)@([\w.$\"]+)\((.*)\)", s)
        if not m:
            if " asm " in s:
                raise Unsupported("inline asm")
            raise Unsupported("indirect call")
        name, argtext = m.group(2), m.group(3)
        pre = m.group(1).strip()
        if name.startswith(("llvm.lifetime", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg")):
            return None
        if "panicking" in name or "panic" in name or "slice_index" in name or "unwrap_failed" in name:
            self.res.panics.append((r, name))
            return None
        args = [self.tv(a) for a in split_top(argtext)]
        self.res.calls.append(name)
        if name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            n = isc(args[2][1])
            for k, a in list(enumerate(split_top(argtext)))[:1 if "memset" in name else 2]:
                q = re.search(r"\balign (\d+)", a)
                if n:
                    self.note("store" if k == 0 else "load", args[k][1], n, int(q.group(1)) if q else 1)
        fn = summary_of(name)
        if fn is not None and fn != self.target:
            return self.summary(fn, pre, args)
        if name in self.mod.funcs:
            return self.call_defined(name, args, r)
        ts = [a[0] for a in args]
        vs = [a[1] for a in args]
        f = intrinsic(name)
        if f is None:
            raise Unsupported("call " + name)
        return f(self, name, ts, vs)


    target = None
    depth = 0

    def get32(self, t, v, n):
        """n words of an argument passed by value or by pointer"""
        if t[0] == "ptr":
            return [self.load(("i", 32), v.plus(4 * i)) for i in range(n)]
        b = self.tobits(t, v) if t[0] != "st" else cat([self.tobits(x, y) for x, y in zip(t[1], v)])
        return [slc(b, 32 * i, 32) for i in range(n)]

    def summary(self, fn, pre, args):
        kinds, ret, fns = SUMMARY[fn]
        rt = None
        for m in re.finditer(r"void|<4 x float>|float|\[2 x i64\]|i128|\{[^}]*\}|<2 x i64>", pre):
            rt = m.group(0)
        args = list(args)
        sret = None
        if ret and rt == "void":
            sret = args.pop(0)[1]
        ins, outs = [], []
        k = 0
        for kd in kinds:
            if kd in ("ov", "os"):
                outs.append((kd, args[k][1]))
                k += 1
            else:
                n = 4 if kd == "v" else 1
                t, v = args[k]
                k += 1
                if kd == "v" and t[0] in "if" and t[1] == 64:
                    v2 = args[k][1]
                    k += 1
                    ins.append([slc(v, 0, 32), slc(v, 32, 32), slc(v2, 0, 32), slc(v2, 32, 32)])
                else:
                    ins.append(self.get32(t, v, n))
        if k != len(args):
            raise Unsupported("ABI of " + fn)
        res = []
        for f in fns:
            n = len(ins[0])
            res.append([T.mk("fn", f, *[x[i] for x in ins]) for i in range(n)])
        if ret is None:
            for (kd, p), vals in zip(outs, res):
                for i, v in enumerate(vals):
                    self.store(("i", 32), v, p.plus(4 * i))
            return None
        if sret is not None:
            for i, v in enumerate(res[0]):
                self.store(("i", 32), v, sret.plus(4 * i))
            return None
        t, _ = parse_type(rt)
        if t[0] == "st":
            b = cat(res[0])
            out, o = [], 0
            for x in t[1]:
                out.append(self.frombits(x, slc(b, o, bits(x))))
                o += bits(x)
            return tuple(out)
        return self.frombits(t, cat(res[0]))

    def call_defined(self, name, args, reach):
        if self.depth > 40:
            raise Unsupported("recursion")
        sub = Func(self.mod, name, self.sizes)
        sub.depth = self.depth + 1
        sub.target = self.target
        sub.strict = self.strict
        sub.actual = [a[1] for a in args]
        sub.mem0 = self.mem
        r = sub.run()
        self.res.accesses += r.accesses
        self.res.align.update(r.align)
        self.res.dyn += [(mk_band(reach, d[0]),) + d[1:] for d in r.dyn]
        self.res.calls += r.calls
        self.res.ninstr += r.ninstr
        for c, n in r.panics:
            self.res.panics.append((mk_band(reach, c), n))
        self.sizes = sub.sizes
        self.mem = sub.endmem
        return sub.retval


def ite_leaves(t, cond=TRUE, depth=0):
    """[(cond, const)] when t is an ite tree over constants"""
    n = nd(t)
    if n[0] == "c":
        return [(cond, n[2])]
    if n[0] == "ite" and depth < 12:
        a = ite_leaves(n[2], mk_band(cond, n[1]), depth + 1)
        b = ite_leaves(n[3], mk_band(cond, mk_not(n[1])), depth + 1)
        if a is not None and b is not None:
            return a + b
    if n[0] in ("zext", "cat"):
        if n[0] == "cat" and all(isc(x) == 0 for x in n[2:]):
            return ite_leaves(n[1], cond, depth)
    return None


def sitofp(x):
    n = nd(x)
    if n[0] == "and" and any((isc(y) or 1 << n[1]) >> (n[1] - 1) == 0 for y in n[2:]):
        return uitofp(x)
    return T.mk("sitofp", x)


def uitofp(x):
    if width(x) == 1:
        return mk_ite(x, flt(1.0), flt(0.0))
    n = nd(x)
    return T.mk("uitofp", x)


def umul(w):
    pass


_INTR = {}


def intrinsic(name):
    if name in _INTR:
        return _INTR[name]
    for k, f in _PREFIX:
        if name.startswith(k):
            return f
    return None


def reg(*names):
    def d(f):
        for n in names:
            _INTR[n] = f
        return f
    return d


def sat_conv(name, signed):
    """float to integer with saturation and NaN to zero, as Rust's `as`"""
    w = int(re.search(r"sat\.(?:v\d+)?i(\d+)", name).group(1))
    if "f64" in name:
        raise Unsupported("conversion from double")
    lo = -2.0 ** (w - 1) if signed else 0.0
    hi = 2.0 ** (w - 1 if signed else w)
    op = "fptosi" if signed else "fptoui"

    def f(a):
        r = T.mk(op, w, a)
        r = mk_ite(fcmp("ole", a, const(32, f2b(lo))), const(w, int(lo) % 2 ** w), r)
        r = mk_ite(fcmp("oge", a, const(32, f2b(hi))), const(w, int(hi) - 1), r)
        return mk_ite(fcmp("uno", a, a), const(w, 0), r)
    return f


def lanewise(f):
    def g(self, name, ts, vs):
        if ts[0][0] == "vec":
            return tuple(f(*[v[i] for v in vs]) for i in range(ts[0][1]))
        return f(*vs)
    return g


def fmin_x86(a, b):
    return mk_ite(fcmp("olt", a, b), a, b)


def fmax_x86(a, b):
    return mk_ite(fcmp("ogt", a, b), a, b)


def sqrt_(a):
    return T.mk("sqrt", a)


_PREFIX = [
    ("llvm.fabs.", lanewise(fabs_)),
    ("llvm.sqrt.", lanewise(sqrt_)),
    ("llvm.floor.", lanewise(lambda a: T.mk("floor", a))),
    ("llvm.ceil.", lanewise(lambda a: T.mk("ceil", a))),
    ("llvm.trunc.", lanewise(lambda a: T.mk("ftrunc", a))),
    ("llvm.rint.", lanewise(lambda a: T.mk("rndeven", a))),
    ("llvm.nearbyint.", lanewise(lambda a: T.mk("rndeven", a))),
    ("llvm.roundeven.", lanewise(lambda a: T.mk("rndeven", a))),
    ("llvm.round.", lanewise(lambda a: T.mk("rndaway", a))),
    ("llvm.fma.", lanewise(lambda a, b, c: T.mk("fma", min(a, b), max(a, b), c))),
    ("llvm.fmuladd.", lanewise(lambda a, b, c: T.mk("fma", min(a, b), max(a, b), c))),
    ("llvm.sin.", lanewise(lambda a: T.mk("fn", "sin", a))),
    ("llvm.cos.", lanewise(lambda a: T.mk("fn", "cos", a))),
    ("llvm.exp2.", lanewise(lambda a: T.mk("fn", "exp2", a))),
    ("llvm.exp.", lanewise(lambda a: T.mk("fn", "exp", a))),
    ("llvm.log2.", lanewise(lambda a: T.mk("fn", "log2", a))),
    ("llvm.log.", lanewise(lambda a: T.mk("fn", "log", a))),
    ("llvm.pow.", lanewise(lambda a, b: T.mk("fn", "pow", a, b))),
    ("llvm.powi.", lambda self, n, ts, vs: T.mk("fn", "powi", vs[0], vs[1])),
    ("llvm.tan.", lanewise(lambda a: T.mk("fn", "tan", a))),
    ("llvm.fptosi.sat.", lambda self, n, ts, vs: lanewise(sat_conv(n, True))(self, n, ts, vs)),
    ("llvm.fptoui.sat.", lambda self, n, ts, vs: lanewise(sat_conv(n, False))(self, n, ts, vs)),
    ("llvm.copysign.", lanewise(lambda a, b: bitop("or", 32, fabs_(a), bitop("and", 32, b, const(32, FNEG))))),
    ("llvm.umax.", lanewise(lambda a, b: mk_ite(icmp("ugt", a, b), a, b))),
    ("llvm.umin.", lanewise(lambda a, b: mk_ite(icmp("ult", a, b), a, b))),
    ("llvm.smax.", lanewise(lambda a, b: mk_ite(icmp("sgt", a, b), a, b))),
    ("llvm.smin.", lanewise(lambda a, b: mk_ite(icmp("slt", a, b), a, b))),
    ("llvm.maxnum.", lanewise(lambda a, b: T.mk("maxnum", min(a, b), max(a, b)))),
    ("llvm.minnum.", lanewise(lambda a, b: T.mk("minnum", min(a, b), max(a, b)))),
    ("llvm.maximumnum.", lanewise(lambda a, b: T.mk("maxnum", min(a, b), max(a, b)))),
    ("llvm.minimumnum.", lanewise(lambda a, b: T.mk("minnum", min(a, b), max(a, b)))),
    ("llvm.abs.", lambda self, n, ts, vs: lanewise(lambda a: mk_ite(icmp("slt", a, const(width(a), 0)), arith("sub", width(a), const(width(a), 0), a), a))(self, n, ts[:1], vs[:1])),
]


def _fpclass(self, name, ts, vs):
    mask = isc(vs[1])

    def one(a):
        # masks: 1 snan 2 qnan 4 -inf 8 -norm 16 -sub 32 -0 64 +0 128 +sub 256 +norm 512 +inf
        if mask == 3:
            return fcmp("uno", a, a)
        if mask == 516:
            return fcmp("oeq", fabs_(a), const(32, 0x7F800000))
        if mask == 0x3FF & ~516:
            return mk_not(fcmp("oeq", fabs_(a), const(32, 0x7F800000)))
        if mask == 0x3FF & ~3:
            return mk_not(fcmp("uno", a, a))
        if mask == 504:
            return fcmp("olt", fabs_(a), const(32, 0x7F800000))
        if mask == 519:
            return mk_not(fcmp("olt", fabs_(a), const(32, 0x7F800000)))
        return T.mk("isfp", mask, a)
    if ts[0][0] == "vec":
        return tuple(one(x) for x in vs[0])
    return one(vs[0])


_PREFIX.append(("llvm.is.fpclass.", _fpclass))

for _n in ("sinf", "cosf", "tanf", "asinf", "acosf", "atanf", "sinhf", "coshf", "tanhf", "expf", "exp2f", "logf", "log2f", "cbrtf"):
    _INTR[_n] = (lambda nm: lambda self, n, ts, vs: T.mk("fn", nm, vs[0]))(_n[:-1])
for _n in ("atan2f", "powf", "fmodf", "hypotf"):
    _INTR[_n] = (lambda nm: lambda self, n, ts, vs: T.mk("fn", nm, vs[0], vs[1]))(_n[:-1])

CMPPS = ["oeq", "olt", "ole", "uno", "une", "uge", "ugt", "ord",
         "ueq", "ult", "ule", "false", "one", "oge", "ogt", "true"]
# AVX predicates 8..15: EQ_UQ, NGE_US(ult), NGT_US(ule), FALSE, NEQ_OQ(one), GE_OS, GT_OS, TRUE ; 16..31 repeat with the other signalling


@reg("llvm.x86.sse41.insertps")
def _insertps(self, name, ts, vs):
    imm = isc(vs[2])
    if imm is None:
        raise Unsupported("insertps selector")
    r = list(vs[0])
    r[(imm >> 4) & 3] = vs[1][imm >> 6]
    return tuple(const(32, 0) if (imm >> i) & 1 else x for i, x in enumerate(r))


@reg("llvm.x86.sse.cmp.ps", "llvm.x86.avx.cmp.ps.256")
def _cmpps(self, name, ts, vs):
    p = CMPPS[isc(vs[2]) & 15]
    return tuple(sext(32, fcmp(p, a, b)) for a, b in zip(vs[0], vs[1]))


@reg("llvm.x86.sse.cmp.ss")
def _cmpss(self, name, ts, vs):
    p = CMPPS[isc(vs[2]) & 15]
    return (sext(32, fcmp(p, vs[0][0], vs[1][0])),) + vs[0][1:]


_INTR["llvm.x86.sse.min.ps"] = lambda self, n, ts, vs: tuple(fmin_x86(a, b) for a, b in zip(*vs))
_INTR["llvm.x86.sse.max.ps"] = lambda self, n, ts, vs: tuple(fmax_x86(a, b) for a, b in zip(*vs))
_INTR["llvm.x86.sse.min.ss"] = lambda self, n, ts, vs: (fmin_x86(vs[0][0], vs[1][0]),) + vs[0][1:]
_INTR["llvm.x86.sse.max.ss"] = lambda self, n, ts, vs: (fmax_x86(vs[0][0], vs[1][0]),) + vs[0][1:]
_INTR["llvm.x86.sse.rsqrt.ps"] = lambda self, n, ts, vs: tuple(T.mk("rsqrt", a) for a in vs[0])
_INTR["llvm.x86.sse.rcp.ps"] = lambda self, n, ts, vs: tuple(T.mk("rcp", a) for a in vs[0])
_INTR["llvm.x86.sse.rsqrt.ss"] = lambda self, n, ts, vs: (T.mk("rsqrt", vs[0][0]),) + vs[0][1:]
_INTR["llvm.x86.sse.rcp.ss"] = lambda self, n, ts, vs: (T.mk("rcp", vs[0][0]),) + vs[0][1:]
_INTR["llvm.x86.sse2.cvttps2dq"] = lambda self, n, ts, vs: tuple(T.mk("fptosi", 32, a) for a in vs[0])
_INTR["llvm.x86.sse.cvttss2si"] = lambda self, n, ts, vs: T.mk("fptosi", 32, vs[0][0])
_INTR["llvm.x86.sse2.cvtps2dq"] = lambda self, n, ts, vs: tuple(T.mk("fptosi", 32, T.mk("rndeven", a)) for a in vs[0])
_INTR["llvm.x86.sse.cvtss2si"] = lambda self, n, ts, vs: T.mk("fptosi", 32, T.mk("rndeven", vs[0][0]))


@reg("llvm.x86.sse41.round.ps", "llvm.x86.sse41.round.ss")
def _round(self, name, ts, vs):
    if name.endswith("ss"):
        imm = isc(vs[2])
        src = vs[1][0]
    else:
        imm = isc(vs[1])
    op = {0: "rndeven", 1: "floor", 2: "ceil", 3: "ftrunc"}[imm & 3]
    if imm & 4:
        raise Unsupported("round with MXCSR mode")
    if name.endswith("ss"):
        return (T.mk(op, src),) + vs[0][1:]
    return tuple(T.mk(op, a) for a in vs[0])


@reg("llvm.x86.sse41.dpps")
def _dpps(self, name, ts, vs):
    imm = isc(vs[2])
    p = [T.mk("fmul", *sorted((vs[0][i], vs[1][i]))) if imm >> (4 + i) & 1 else flt(0.0) for i in range(4)]
    s01 = fbin("fadd", p[0], p[1])
    s23 = fbin("fadd", p[2], p[3])
    s = fbin("fadd", s01, s23)
    return tuple(s if imm >> i & 1 else flt(0.0) for i in range(4))


@reg("llvm.x86.sse.movmsk.ps")
def _movmsk(self, name, ts, vs):
    return cat([icmp("slt", a, const(32, 0)) for a in vs[0]] + [const(28, 0)])


@reg("llvm.x86.sse41.blendvps")
def _blendv(self, name, ts, vs):
    return tuple(mk_ite(icmp("slt", c, const(32, 0)), b, a) for a, b, c in zip(*vs))


@reg("llvm.x86.avx.vpermilvar.ps")
def _vperm(self, name, ts, vs):
    out = []
    for c in vs[1]:
        k = isc(c)
        if k is None:
            x = vs[0][3]
            lo = bitop("and", 32, c, const(32, 3))
            for j in (2, 1, 0):
                x = mk_ite(icmp("eq", lo, const(32, j)), vs[0][j], x)
            out.append(x)
        else:
            out.append(vs[0][k & 3])
    return tuple(out)


@reg("llvm.x86.vcvtps2ph.128")
def _cvtps2ph(self, name, ts, vs):
    imm = isc(vs[1])
    h = [T.mk("call", 16, "f2h", a) if (imm & 3) == 0 and not imm & 4 else T.mk("call", 16, "f2h_rm%d" % imm, a) for a in vs[0]]
    return tuple(h) + (const(16, 0),) * 4


@reg("llvm.x86.vcvtph2ps.128")
def _cvtph2ps(self, name, ts, vs):
    return tuple(T.mk("h2f", a) for a in vs[0][:4])


@reg("llvm.x86.sse3.addsub.ps")
def _addsub(self, name, ts, vs):
    return tuple(fbin("fadd" if i & 1 else "fsub", a, b) for i, (a, b) in enumerate(zip(*vs)))


@reg("llvm.x86.sse3.hadd.ps")
def _hadd(self, name, ts, vs):
    a, b = vs
    return (fbin("fadd", a[0], a[1]), fbin("fadd", a[2], a[3]), fbin("fadd", b[0], b[1]), fbin("fadd", b[2], b[3]))


@reg("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64")
def _memcpy(self, name, ts, vs):
    d, s, n = vs[0], vs[1], isc(vs[2])
    if n is None:
        raise Unsupported("dynamic memcpy")
    k = 0
    vals = []
    while k < n:
        step = 4 if n - k >= 4 else 1
        t = ("i", 8 * step)
        vals.append((k, t, self.load(t, s.plus(k))))
        k += step
    for k, t, v in vals:
        self.store(t, v, d.plus(k))
    return None


@reg("llvm.memset.p0.i64")
def _memset(self, name, ts, vs):
    d, b, n = vs[0], vs[1], isc(vs[2])
    if n is None:
        raise Unsupported("dynamic memset")
    for k in range(n):
        self.store(("i", 8), b, d.plus(k))
    return None


def _usub_sat(self, name, ts, vs):
    return lanewise(lambda a, b: mk_ite(icmp("ult", a, b), const(width(a), 0), arith("sub", width(a), a, b)))(self, name, ts, vs)


def _ovf(op):
    def g(self, name, ts, vs):
        w = width(vs[0])
        s = arith(op, w, vs[0], vs[1])
        return (s, T.mk("icmp", "ovf_" + name, vs[0], vs[1]))
    return g


def _ctlz(self, name, ts, vs):
    return lanewise(lambda a: T.mk("call", width(a), "ctlz", a))(self, name, ts[:1], vs[:1])


def _reduce(op):
    def g(self, name, ts, vs):
        r = vs[0][0]
        for x in vs[0][1:]:
            r = bitop(op, width(r), r, x)
        return r
    return g


_PREFIX += [("llvm.usub.sat.", _usub_sat), ("llvm.ctlz.", _ctlz), ("llvm.cttz.", lambda self, n, ts, vs: T.mk("call", width(vs[0]), "cttz", vs[0])),
            ("llvm.uadd.with.overflow.", _ovf("add")), ("llvm.usub.with.overflow.", _ovf("sub")), ("llvm.umul.with.overflow.", _ovf("mul")),
            ("llvm.sadd.with.overflow.", _ovf("add")), ("llvm.ssub.with.overflow.", _ovf("sub")), ("llvm.smul.with.overflow.", _ovf("mul")),
            ("llvm.vector.reduce.and.", _reduce("and")), ("llvm.vector.reduce.or.", _reduce("or")),
            ("llvm.bswap.", lambda self, n, ts, vs: T.mk("call", width(vs[0]), "bswap", vs[0]))]


def analyse(mod, sym, meta, strict=False):
    sizes = {"out": meta.get("out_size") or 0}
    for a in meta["args"]:
        if "size" in a:
            sizes["a%d" % a["i"]] = a["size"]
    f = Func(mod, sym, sizes)
    f.target = meta["path"]
    f.strict = strict
    return f.run()
