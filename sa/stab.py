"""Magnitude analysis: how much rounding error the arithmetic of a result can collect.

Every term is mapped to a polynomial with non-negative coefficients that bounds the magnitudes of its intermediate sums: inputs are
variables, addition and subtraction add, multiplication multiplies, a root, a quotient's denominator and a library function are new
variables identified by their value.  By the standard running-error argument the rounding error of the result is at most
(number of operations) * 2^-24 * (that polynomial at the magnitudes of the inputs).  The analysis compares the polynomial of the code
with the one of the documented formula: a monomial the formula does not have is a quantity that is added and cancelled again.
"""
import hashlib

import llir
from llir import nd, b2f
from norm import Norm, TooBig, Unsupported, P, inv, ratrec

CAP = 4000


def _hv(*k):
    d = hashlib.sha256(repr(k).encode()).digest()
    e = hashlib.sha256(b"2" + repr(k).encode()).digest()
    return int.from_bytes(d, "big") % P, int.from_bytes(e, "big") % P


class Skip(Exception):
    pass


ONE = (1, 1)


class Mag:
    def __init__(self, N):
        self.N = N
        self.memo = {}
        self.gen = {}
        self.opaque = set()
        self.fac = {}        # monomial -> the two it is the product of
        self.dif = {}        # sum or difference of two inputs (correctly rounded, so a quantity of its own) -> its expansion
        self.parts = {}      # value -> polynomial of the argument of a root or denominator

    def value(self, t):
        """the real value of a term as a field element (branches: identity of its decision diagram)"""
        N = self.N
        d = self.generic(N.ev(t))
        if N.isleaf(d):
            v = N.num(N.lf(d), soft=True)
            if v is not None and len(v) == 2:
                return v
        v = _hv("dd", N.canon(d))
        self.opaque.add(v)
        return v

    def opq(self, t):
        """a quantity known only by name: equal values may have unequal names"""
        v = self.value(t)
        self.opaque.add(v)
        return self.atom(v)

    def generic(self, d):
        """the diagram away from the zeros of non-negative quantities"""
        N = self.N
        if N.isleaf(d):
            return d
        r = self.gen.get(d)
        if r is None:
            a, ch = N.nodes[d]
            n, _, v = N.atoms[a]
            if n >= 3 and v is not None and N.isnn(v):
                r = self.generic(ch[2])
            elif n >= 3 and v is not None and N.isnn(((-v[0]) % P, (-v[1]) % P)):
                r = self.generic(ch[0])
            else:
                r = N.case(a, [self.generic(c) for c in ch])
            self.gen[d] = r
        return r

    def known(self, c):
        """truth of a condition, or None"""
        d = self.generic(self.N.ev(c))
        return bool(self.N.lf(d)[1]) if self.N.isleaf(d) and self.N.lf(d)[0] in "kb" else None

    def mask(self, t):
        """(is a lane mask, its truth if known)"""
        n = nd(t)
        if n[0] == "c":
            return n[2] in (0, 0xFFFFFFFF), n[2] != 0
        if n[0] == "sext" and llir.width(n[2]) == 1:
            return True, self.known(n[2])
        if n[0] == "ite":
            a, b = self.mask(n[2]), self.mask(n[3])
            k = self.known(n[1])
            return a[0] and b[0], a[1] if k is True else b[1] if k is False else a[1] if a[1] == b[1] else None
        if n[0] in ("and", "or", "xor"):
            a, b = self.mask(n[2]), self.mask(n[3])
            if not (a[0] and b[0]):
                return False, None
            if n[0] == "xor":
                return True, None if None in (a[1], b[1]) else a[1] != b[1]
            z = n[0] == "or"
            return True, z if z in (a[1], b[1]) else None if None in (a[1], b[1]) else not z
        return False, None

    def addends(self, t, s=1, out=None):
        """the signed terms a result is summed from"""
        out = [] if out is None else out
        n = nd(t)
        if len(out) > 200:
            raise Skip("size")
        if n[0] in ("fadd", "fsub"):
            self.addends(n[1], s, out)
            self.addends(n[2], s if n[0] == "fadd" else -s, out)
        elif n[0] == "fma":
            out.append((s, llir.T.mk("fmul", n[1], n[2])))
            self.addends(n[3], s, out)
        elif n[0] == "xor" and n[1] == 32 and 0x80000000 in (llir.isc(n[2]), llir.isc(n[3])):
            self.addends(n[3] if llir.isc(n[2]) == 0x80000000 else n[2], -s, out)
        elif n[0] == "ite" and self.known(n[1]) is not None:
            self.addends(n[2] if self.known(n[1]) else n[3], s, out)
        else:
            out.append((s, t))
        return out

    def signs(self, t):
        """whether a term is summed from non-negative terms only / subtracts a non-negative one"""
        pos, neg = True, False
        for s, x in self.addends(t):
            d = self.generic(self.N.ev(x))
            v = self.N.num(self.N.lf(d), soft=True) if self.N.isleaf(d) else None
            if v is None or len(v) != 2:
                return False, False
            if v == (0, 0):
                continue
            m = (-v[0]) % P, (-v[1]) % P
            if not self.N.isnn(v if s > 0 else m):
                pos = False
            if self.N.isnn(m if s > 0 else v):
                neg = True
        return pos, neg

    def add(self, a, b):
        r = dict(a)
        for k, c in b.items():
            r[k] = r.get(k, 0.0) + c
        if len(r) > CAP:
            raise Skip("size")
        return r

    def mul(self, a, b):
        if len(a) * len(b) > 20 * CAP:
            raise Skip("size")
        r = {}
        for k, c in a.items():
            for l, d in b.items():
                m = k[0] * l[0] % P, k[1] * l[1] % P
                if m not in self.fac and k != ONE and l != ONE:
                    self.fac[m] = k, l
                r[m] = r.get(m, 0.0) + c * d
        if len(r) > CAP:
            raise Skip("size")
        return r

    def union(self, a, b):
        r = dict(a)
        for k, c in b.items():
            r[k] = max(r.get(k, 0.0), c)
        if len(r) > CAP:
            raise Skip("size")
        return r

    def p(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._p(t)
        return r

    def within(self, m, b):
        """is the monomial one of b's, or are all the terms of its expansion?"""
        if m in b:
            return True
        e = self.expand(m)
        return set(e) != {m} and all(self.within(x, b) for x in e)

    def expand(self, m):
        d = self.dif.get(m)
        if d is not None:
            return d
        f = self.fac.get(m)
        if f is None:
            return {m: 1.0}
        return self.mul(self.expand(f[0]), self.expand(f[1]))

    def plain(self, t):
        n = nd(t)
        if n[0] == "xor":
            return any(llir.isc(a) == 0x80000000 and self.plain(b) for a, b in ((n[2], n[3]), (n[3], n[2])))
        if n[0] in ("fsub", "fadd"):
            return llir.isc(n[1]) in (0, 0x80000000) and self.plain(n[2])
        return n[0] in ("in", "c")

    def atom(self, v):
        return {v: 1.0} if v != (0, 0) else {}

    def _p(self, t):
        n = nd(t)
        o = n[0]
        if o == "c":
            f = b2f(n[2]) if n[1] == 32 else None
            if f is None or f != f or abs(f) == float("inf"):
                return {}
            return {ONE: abs(f)} if f else {}
        if o == "in":
            return self.atom(self.value(t))
        if o in ("floor", "ceil", "ftrunc", "rndeven", "rndaway", "sitofp", "uitofp"):
            return self.opq(t)
        if o in ("fadd", "fsub"):
            d = self.generic(self.N.ev(t))
            if self.N.isleaf(d):
                v = self.N.num(self.N.lf(d), soft=True)
                if v is not None and self.N.prov.get(v, ("",))[0] in ("Rn", "Tr", "Ra"):
                    return self.atom(v)
            if any(llir.isc(x) in (0, 0x80000000) for x in n[1:3]):
                return self.add(self.p(n[1]), self.p(n[2]))
            if all(self.plain(x) for x in n[1:3]):
                v = self.value(t)
                if v == (0, 0) or v[0] == v[1]:
                    return {ONE: abs(float(ratrec(v[0])))} if ratrec(v[0]) else {}
                nv = (-v[0]) % P, (-v[1]) % P
                v = min(v, nv)
                self.dif[v] = self.add(self.p(n[1]), self.p(n[2]))
                return {v: 1.0}
            return self.add(self.p(n[1]), self.p(n[2]))
        if o == "fmul":
            return self.mul(self.p(n[1]), self.p(n[2]))
        if o == "fma":
            return self.add(self.mul(self.p(n[1]), self.p(n[2])), self.p(n[3]))
        if o == "fdiv":
            v = self.value(n[2])
            if v[0] == v[1]:
                q = ratrec(v[0])
                if q:
                    return {k: c / abs(float(q)) for k, c in self.p(n[1]).items()}
            if 0 in v:
                raise Skip("zero")
            self.parts.setdefault(v, []).append((self.p(n[2]), n[2]))
            return self.mul(self.p(n[1]), {(inv(v[0]), inv(v[1])): 1.0})
        if o == "sqrt":
            v = self.value(n[1])
            self.parts.setdefault(v, []).append((self.p(n[1]), n[1]))
            return self.opq(t)
        if o == "fn":
            return self.opq(t)
        if o == "ite":
            k = self.known(n[1])
            if k is not None:
                return self.p(n[2] if k else n[3])
            return self.union(self.p(n[2]), self.p(n[3]))
        if o in ("maxnum", "minnum"):
            return self.union(self.p(n[1]), self.p(n[2]))
        if o in ("xor", "and") and n[1] == 32:
            for a, b in ((n[2], n[3]), (n[3], n[2])):
                k = llir.isc(a)
                if k is not None and k in ((0x80000000,) if o == "xor" else (0x7FFFFFFF, 0xFFFFFFFF)):
                    return self.p(b)
            if o == "and":
                for a, b in ((n[2], n[3]), (n[3], n[2])):
                    m, k = self.mask(a)
                    if m:
                        return {} if k is False else self.p(b)
        if o in ("or", "xor") and n[1] == 32:
            r = {}
            for a in n[2:]:
                m, k = self.mask(a)
                if m and k is not False:
                    raise Skip("mask")
                if not m:
                    r = self.union(r, self.p(a))
            return r
        raise Skip("operation " + o)


# ---------------------------------------------------------------------------------------------------------------------------------
# the check

LIMIT = 4.01     # growth of a formula's own term
# Functions whose documented result is not a polynomial formula evaluated term by term, where the comparison says nothing: rounding and
# remainders, results piecewise by the length of the vector or by the largest component, and iterated constructions.
NOT_COVERED = ("Round", "Floor", "Ceiling", "Truncate", "Mod", "ClampLength", "QuaternionRotationMatrix", "SquadSetup", "CreateFromPoints", "::TransformMatrix",
               "Est", "Decompose")
TAGS = ["lane", "geo", "mat", "ctor", "quat", "plane", "scalar", "vol"]


def compare(Mc, Ms, t, e):
    """None, or what is wrong with the arithmetic of t measured against the formula e"""
    pc, ps = Mc.p(t), Ms.p(e)
    if not Mc.opaque <= Ms.opaque:
        raise Skip("names")
    # differences may be taken apart over branches, and where they are merely added up
    branch = not Mc.N.isleaf(Mc.generic(Mc.N.ev(t)))
    x = {}
    for m, c in ps.items():
        if branch or m in Ms.dif:
            x = Ms.add(x, {k: c * d for k, d in Ms.expand(m).items()})
    ps = Ms.union(ps, x)
    todo = [("the result", pc, ps, t, e)]
    for v, l in Mc.parts.items():
        m = Ms.parts.get(v)
        if m:
            s = {}
            for x, _ in m:
                s = Ms.union(s, x)
            todo += [("a denominator or root", x, s, y, m[0][1]) for x, y in l]
    worst = None
    for what, a, b, tc, ts in todo:
        fo = sum(1 for m, c in a.items() if c > 1e-12 and not Mc.within(m, b))
        gr = max([a[m] / b[m] for m in a if b.get(m)], default=0)
        if fo:
            return "%s adds and cancels %d product%s the documented formula does not contain" % (what, fo, "s" if fo > 1 else ""), gr
        if Ms.signs(ts)[0] and Mc.signs(tc)[1]:
            return "%s subtracts a non-negative quantity where the documented formula adds non-negative ones only" % what, gr
        if gr > LIMIT:
            worst = "%s adds %.1f times the magnitude of a term of the documented formula and cancels the excess" % (what, gr)
    return worst


def decide(task, form, rule):
    import signal, dsl, engine
    sym, cfgs, which, f, opts = task
    out, seen = [], {}
    for c in cfgs:
        mod, ix = engine.MODS[(c, which)]
        meta = ix.get(sym)
        if meta is None:
            continue
        o = {"path": meta["path"], "variant": meta.get("variant", ""), "cfg": c, "loc": meta["loc"], "instr": 0}
        out.append(o)
        try:
            signal.signal(signal.SIGALRM, engine._alarm)
            signal.alarm(30)
            res = llir.analyse(mod, sym, meta)
            o["instr"] = res.ninstr
            key = tuple(sorted(res.mem.items()))
            if key in seen:
                o.update(seen[key])
                continue
            rs = f(dsl.Args(meta, c))
            best, words = None, 0
            for r in rs if isinstance(rs, list) else [rs]:
                if r.mode == "exact" or r.leak:
                    continue
                bad, n, pairs = form(res, r, meta["path"])
                words = max(words, pairs)
                if n and (best is None or len(bad) < len(best)):
                    best = bad
            if best is None:
                v = {"verdict": "skip"}
            elif best:
                (obj, w), d = best[0]
                v = {"verdict": "violation", "detail": "word %d of %s: %s" % (w, obj, d), "rule": rule, "words": [b[0] for b in best]}
            else:
                v = {"verdict": "ok"}
            v["nwords"] = words
            o.update(v)
            seen[key] = v
        except Exception as e:
            o["verdict"] = "skip"
            if isinstance(e, engine.Timeout):
                break
        finally:
            signal.alarm(0)
    return out


def form(res, r, path):
    import dsl, engine
    N = Norm("real", finite=True)
    N.positive([x.t for x in r.positive])
    bad, n = [], 0
    for o, exp in r.objs.items():
        if isinstance(exp, (dsl.W, dsl.B)):
            exp = [exp]
        flat = []
        for x in exp:
            flat += x if isinstance(x, list) else [x]
        for k, x in enumerate(flat):
            if isinstance(x, tuple):
                x = x[0]
            if x is None or isinstance(x, dsl.B):
                continue
            t = engine.word(res, o, k)
            if r.assume:
                t = engine.rename(t, r.assume, {})
            if llir.width(t) != 32:
                continue
            try:
                w = compare(Mag(N), Mag(N), t, x.t)
            except (Skip, TooBig, Unsupported):
                continue
            n += 1
            if w:
                bad.append(((o, k), w if isinstance(w, str) else w[0]))
    return bad, n, n


TASKS = []
WHAT = None


def _run(i):
    return decide(TASKS[i], *WHAT)


def run(cfgs, tags=TAGS, not_covered=NOT_COVERED, form=form, rule="no cancelled quantity", counted="result_words"):
    global TASKS, WHAT
    WHAT = form, rule
    import multiprocessing as mp
    import engine
    engine.load(cfgs)
    tasks, _ = engine.tasks_for(tags, cfgs)
    path = {s: m["path"] for _, ix in engine.MODS.values() for s, m in ix.items()}
    out = {path[t[0]] for t in tasks if any(s in path[t[0]] for s in not_covered)}
    TASKS = [t for t in tasks if t[2] == "main" and path[t[0]] not in out]
    res = []
    with mp.get_context("fork").Pool(8) as p:
        for r in p.imap_unordered(_run, range(len(TASKS)), chunksize=2):
            res += r
    obls, words = [], 0
    for r in res:
        what = r["path"] + ("[%s]" % r["variant"] if r["variant"] else "")
        if r["verdict"] == "skip":
            out.add(what)
            continue
        words += r.pop("nwords", 0)
        obls.append(dict(r, what=what, key="%s@%s" % (what, r["cfg"])))
    obls.sort(key=lambda o: o["key"])
    return obls, {"functions": len({o["path"] for o in obls}), "instances": len(obls), counted: words, "configurations": cfgs, "not_covered": sorted(out),
                  "ir_instructions": sum(o["instr"] for o in obls)}
