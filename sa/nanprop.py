"""NaN propagation: does a NaN in an input word reach the results whose formula uses it?

Poison analysis over the result terms: YES (NaN whatever the other inputs are), NO (some selection or constant hides it), or None when the
analysis cannot tell.  Comparisons that see the NaN are decided by IEEE rules (ordered ones false, unordered ones true).
"""
import llir, stab
from llir import nd

YES, NO = True, False
ARITH = ("fadd", "fsub", "fmul", "fdiv", "fma", "sqrt", "floor", "ceil", "ftrunc", "rndeven", "rndaway", "rcp", "rsqrt")


# selections in these formulas only guard against zero and infinite lengths
GUARDED = ("XMVector2Normalize", "XMVector3Normalize", "XMVector4Normalize", "XMPlaneNormalize", "XMQuaternionNormalize")


class Poison:
    def __init__(self, word, formula=False):
        self.word, self.formula = word, formula
        self.memo = {}
        self.zmemo = {}
        self.cmemo = {}

    def cond(self, c):
        """truth of a condition given the NaN: True, False, or None (it depends on other inputs or cannot be told)"""
        r = self.cmemo.get(c, 0)
        if r == 0:
            r = self.cmemo[c] = self._cond(c)
        return r

    def _cond(self, c):
        n = nd(c)
        o = n[0]
        if o == "c":
            return bool(n[2])
        if o == "fcmp":
            if self.p(n[2]) is YES or self.p(n[3]) is YES:
                return n[1].startswith("u")
            return None
        if o == "not":
            r = self.cond(n[1])
            return None if r is None else not r
        if o in ("band", "bor"):
            z = o == "bor"
            l = [self.cond(x) for x in n[1:]]
            return z if z in l else None if None in l else not z
        return None

    def p(self, t):
        r = self.memo.get(t, 0)
        if r == 0:
            r = self.memo[t] = self._p(t)
        return r

    def _p(self, t):
        n = nd(t)
        o = n[0]
        if o == "in":
            return (n[2], n[3] // 4) == self.word
        if o == "c":
            return n[1] == 32 and n[2] & 0x7FFFFFFF > 0x7F800000
        if o == "fmul" and self.formula and any(self.zero(x) for x in n[1:]):
            return NO     # a zero element of a matrix in the formula: not a use
        if o in ARITH or o == "fn":
            l = [self.p(x) for x in (n[1:] if o != "fn" else [x for x in n[1:] if isinstance(x, int)])]
            return YES if YES in l else None if None in l else NO
        if o == "ite":
            c = self.cond(n[1])
            if c is not None:
                return self.p(n[2] if c else n[3])
            l = [self.p(n[2]), self.p(n[3])]
            return YES if l == [YES, YES] else NO if NO in l and None not in l else None
        if o in ("xor", "and") and n[1] == 32:
            for a, b in ((n[2], n[3]), (n[3], n[2])):
                k = llir.isc(a)
                if k is not None and k in ((0x80000000,) if o == "xor" else (0x7FFFFFFF, 0xFFFFFFFF)):
                    return self.p(b)
            if o == "and":
                for a, b in ((n[2], n[3]), (n[3], n[2])):
                    m = self.mask(a)
                    if m is not None:
                        return self.p(b) if m else NO
            return None
        if o == "or" and n[1] == 32:
            l = [self.p(x) for x in n[2:]]
            if l == [None, None]:
                a, b = self.arm(n[2]), self.arm(n[3])
                if a and b and a[0] == b[0] and a[1] != b[1]:
                    l = [self.p(a[2]), self.p(b[2])]
                    return YES if l == [YES, YES] else NO if NO in l and None not in l else None
            return YES if YES in l else None if None in l else NO
        if o in ("sitofp", "uitofp"):
            return NO
        return None

    def arm(self, t):
        """(condition, polarity, value) of a lane mask and a value"""
        n = nd(t)
        if n[0] == "and":
            for a, b in ((n[2], n[3]), (n[3], n[2])):
                pol, m = True, a
                k = nd(m)
                while k[0] == "xor" and 0xFFFFFFFF in (llir.isc(k[2]), llir.isc(k[3])):
                    m, pol = (k[3] if llir.isc(k[2]) == 0xFFFFFFFF else k[2]), not pol
                    k = nd(m)
                c = None
                if k[0] == "sext" and llir.width(k[2]) == 1:
                    c = k[2]
                elif k[0] == "ite" and (llir.isc(k[2]), llir.isc(k[3])) in ((0xFFFFFFFF, 0), (0, 0xFFFFFFFF)):
                    c, pol = k[1], pol == (llir.isc(k[3]) == 0)
                if c is not None:
                    while nd(c)[0] == "not":
                        c, pol = nd(c)[1], not pol
                    return c, pol, b
        return None

    def zero(self, t):
        """a zero of the formula, also when it is a sum of products with zeros"""
        r = self.zmemo.get(t)
        if r is None:
            n = nd(t)
            if n[0] == "c":
                r = n[2] in (0, 0x80000000)
            elif n[0] in ("fadd", "fsub"):
                r = self.zero(n[1]) and self.zero(n[2])
            elif n[0] == "fmul":
                r = self.zero(n[1]) or self.zero(n[2])
            elif n[0] == "xor":
                r = any(llir.isc(a) == 0x80000000 and self.zero(b) for a, b in ((n[2], n[3]), (n[3], n[2])))
            else:
                r = False
            self.zmemo[t] = r
        return r

    def mask(self, t):
        n = nd(t)
        if n[0] == "sext" and llir.width(n[2]) == 1:
            return self.cond(n[2])
        if n[0] == "ite":
            c = self.cond(n[1])
            return None if c is None else self.mask(n[2] if c else n[3])
        if n[0] == "xor" and 0xFFFFFFFF in (llir.isc(n[2]), llir.isc(n[3])):
            m = self.mask(n[3] if llir.isc(n[2]) == 0xFFFFFFFF else n[2])
            return None if m is None else not m
        if n[0] == "c":
            return False if n[2] == 0 else True if n[2] == 0xFFFFFFFF else None
        return None


def plain(t, memo):
    """is a formula pure arithmetic (no selection, minimum, maximum or bit operation)?"""
    r = memo.get(t)
    if r is None:
        n = nd(t)
        o = n[0]
        if o in ("in", "c"):
            r = True
        elif o in ARITH and o not in ("rcp", "rsqrt"):
            r = all(plain(x, memo) for x in n[1:])
        elif o == "fn":
            r = all(plain(x, memo) for x in n[1:] if isinstance(x, int) and not isinstance(x, bool))
        elif o in ("xor", "and") and n[1] == 32:
            r = any(llir.isc(a) == (0x80000000 if o == "xor" else 0x7FFFFFFF) and plain(b, memo) for a, b in ((n[2], n[3]), (n[3], n[2])))
        else:
            r = False
        memo[t] = r
    return r


def form(res, r, path):
    """(violations, number of result words, number of (result word, input word) pairs)"""
    import dsl, engine
    bad, n, pairs = [], 0, 0
    memo, pz = {}, {}
    if r.assume or r.cut:
        return bad, 0, 0
    for o, exp in r.objs.items():
        if isinstance(exp, (dsl.W, dsl.B)):
            exp = [exp]
        flat = []
        for x in exp:
            flat += x if isinstance(x, list) else [x]
        for k, x in enumerate(flat):
            if isinstance(x, tuple):
                x = x[0]
            if x is None or isinstance(x, dsl.B):
                continue
            t = engine.word(res, o, k)
            if llir.width(t) != 32:
                continue
            if plain(x.t, memo):
                used = [w for w in sorted(engine.reads(x.t), key=str) if Poison(w, True).p(x.t) is YES]
            elif path in GUARDED:
                used = sorted(engine.flows(x.t), key=str)
            else:
                continue
            known = 0
            for w in used:
                q = pz.setdefault(w, Poison(w)).p(t)
                if q is NO:
                    bad.append(((o, k), "a NaN in word %d of %s, which the documented formula uses, does not reach it" % (w[1], w[0])))
                known += q is not None
            n += known > 0
            pairs += known
    return bad, n, pairs
