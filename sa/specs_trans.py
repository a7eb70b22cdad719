"""Accuracy required of the approximated functions (C19)."""
import math, re, time, signal
import build, llir, engine
import approx as ap
from dsl import spec, R, W, bits32, lit, fn
from approx import Piece, TM, K, ident, add, sub, scale, mul, inv

FNERR = {}


def small(lo, hi):
    return 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))


def direct(ref, a, b, rel=0.0, lo=-26.0, hi=26.0, weight=None, start=64):
    """|result - ref(x)| <= a + b |x| (times 1/|weight(x)|), plus rel |ref|"""
    def at(l, h):
        x = ident(l, h)
        r = ref(x)
        m = r.rng()
        return x, r, a + b * small(l, h) + rel * small(*m), weight(x) if weight else None
    return [Piece(lo, 0.0, at, start), Piece(0.0, hi, at, start)]


def arc(which, a, sgn=(1, -1)):
    """asin/acos with x = +-(1 - 2 s^2): acos(x) = 2 asin(s) or pi - 2 asin(s)"""
    ps = []
    for sg in sgn:
        def at(l, h, sg=sg):
            s = ident(l, h)
            x = sub(K(1.0), scale(mul(s, s), 2.0))
            x = TM(x.p, 0.0)
            ac = scale(ap.asin(s), 2.0)
            if sg < 0:
                x, ac = scale(x, -1.0), sub(K(math.pi), ac)
            return x, ac if which == "acos" else sub(K(math.pi / 2), ac), a, None
        p = Piece(0.0, math.sqrt(0.5), at, 16)
        p.name = lambda l, h, sg=sg: sg * (1 - 2 * ((l + h) / 2) ** 2)
        ps.append(p)
    return ps


def atanp(a, big=2.0 ** 20):
    ps = []
    for lo, hi in ((-1.0, 0.0), (0.0, 1.0)):
        ps.append(Piece(lo, hi, lambda l, h: (ident(l, h), ap.atan(ident(l, h)), a, None), 16))
    for sg in (1.0, -1.0):
        def at(l, h, sg=sg):
            w = ident(l, h)
            x = scale(inv(w), sg)
            return x, scale(sub(K(math.pi / 2), ap.atan(w)), sg), a, None
        e = 1.0
        while e > 1 / big:
            p = Piece(e / 2, e if e < 1 else 1 / (1 + 2.0 ** -23), at, 4)
            p.name = lambda l, h, sg=sg: sg * 2 / (l + h)
            ps.append(p)
            e /= 2
    return ps


def exp2p(neg, pos):
    """relative error, for negative and for positive exponents"""
    def at(l, h):
        x = ident(l, h)
        r = ap.exp(scale(x, ap.LN2))
        return x, r, (neg if l < 0 else pos) * 2.0 ** l + 2.0 ** -149 * 2, None
    return [Piece(-149.0, 0.0, at, 298), Piece(0.0, 127.99, at, 256)]


def tanp(a, b, edge, turns):
    """around every multiple of pi, up to `edge` from it; the error weighted by cos(x)^2"""
    def at(l, h):
        x = ident(l, h)
        c = ap.cos(x)
        return x, ap.tan(x), a + b * small(l, h), mul(c, c)
    out = []
    for k in range(-turns, turns + 1):
        l, h = k * math.pi - edge, k * math.pi + edge
        out += [Piece(l, 0.0, at, 16), Piece(0.0, h, at, 16)] if k == 0 else [Piece(l, h, at, 32)]
    return out


INF, NAN = 0x7F800000, 0x7FC00000
EXP_SPECIAL = [((128.0, 1024.0), INF), ((2.0 ** 10, 2.0 ** 50), INF), ((2.0 ** 50, 2.0 ** 90), INF), ((2.0 ** 90, 2.0 ** 127), INF), (INF, INF), ((-1024.0, -151.0), 0), ((-2.0 ** 50, -1024.0), 0), ((-2.0 ** 90, -2.0 ** 50), 0), ((-2.0 ** 127, -2.0 ** 90), 0), (INF | 1 << 31, 0), (NAN, "nan")]


def FNS(x):
    return lambda a: ap.FN[x](a)


def table(tier):
    """function -> (pieces, fixed points); the bounds are those of real arithmetic plus single-precision rounding"""
    far = 200.0
    turns = 30
    n = 512
    t = {
        "sin": direct(ap.sin, 8e-7, 1.5e-7, lo=-far, hi=far, start=n),
        "cos": direct(ap.cos, 1.0e-6, 1.8e-7, lo=-far, hi=far, start=n),
        "sinEst": direct(ap.sin, 3e-4, 2e-7, lo=-far, hi=far, start=n),
        "cosEst": direct(ap.cos, 1e-3, 2e-7, lo=-far, hi=far, start=n),
        "tan": tanp(2e-6, 4e-7, 1.55, turns), "tanEst": direct(ap.tan, 3.5e-3, 0, lo=-1.5, hi=1.5, weight=ap.cos),
        "asin": arc("asin", 1.7e-6), "acos": arc("acos", 1.7e-6), "asinEst": arc("asin", 1.3e-3), "acosEst": arc("acos", 1.3e-3),
        "atan": atanp(1.2e-6), "atanEst": atanp(4e-4),
        "exp2": exp2p(1.5e-5, 1.2e-6), "exp": exp2p(1.5e-5, 1.2e-6),
        "sinh": direct(FNS("sinh"), 2.8e-5, 0, rel=2.8e-5, lo=-20.0, hi=20.0), "cosh": direct(FNS("cosh"), 2.8e-5, 0, rel=2.8e-5, lo=-20.0, hi=20.0),
        "tanh": direct(FNS("tanh"), 1.4e-5, 0, lo=-20.0, hi=20.0),
    }
    return t


# summarised functions inside others: relative error taken from their own bound
FNERR = {"exp2": 1.5e-5}


def goals():
    """entry point -> [(object, words, input object, function)]"""
    g = {}
    for e in ("", "Est"):
        for f in ("Sin", "Cos", "Tan", "ASin", "ACos", "ATan"):
            g["XMVector" + f + e] = [("out", 4, "a0", f.lower() + e)]
        for f in ("Sin", "Cos", "ASin", "ACos"):
            g["XMScalar" + f + e] = [("out", 1, "a0", f.lower() + e)]
        for p, w in (("XMVector", 4), ("XMScalar", 1)):
            g[p + "SinCos" + e] = [("a0", w, "a2", "sin" + e), ("a1", w, "a2", "cos" + e)]
    for f in ("SinH", "CosH", "TanH", "Exp", "Exp2"):
        g["XMVector" + f] = [("out", 4, "a0", f.lower())]
    return g


def decide(job):
    path, cfgs, todo, tier = job
    out, seen = [], {}
    tab = table(tier)
    for cfg in cfgs:
        mod, ix = engine.MODS[(cfg, "main")]
        sym = "w_" + path
        meta = ix[sym]
        o = {"path": path, "cfg": cfg, "loc": meta["loc"], "key": "%s@%s" % (path, cfg), "what": path, "sym": sym, "variant": "", "secs": 0}
        out.append(o)
        t0 = time.time()
        try:
            res = llir.analyse(mod, sym, meta)
            o["instr"] = res.ninstr
            v, d, parts, worst = "ok", "", 0, 0.0
            for obj, nw, src, f in todo:
                for k in range(nw):
                    t = engine.word(res, obj, k)
                    # the lane's own input word becomes word 0
                    t = engine.rename(t, {(src, k): ("x", 0)}, {})
                    key = t, f
                    if key not in seen:
                        seen[key] = one(t, f, tab)
                    r = seen[key]
                    parts += r[3]
                    worst = max(worst, r[2])
                    if r[0] != "ok":
                        v, d = r[0], "word %d of %s (%s): %s" % (k, obj, f, r[1])
                        break
                if v != "ok":
                    break
            o.update(verdict=v, detail=d, parts=parts, worst=round(worst, 3))
        except llir.Unsupported as e:
            o.update(verdict="undecided", detail=str(e)[:200])
        except Exception as e:
            o.update(verdict="undecided", detail="analysis error: %r" % e)
        o["secs"] = round(time.time() - t0, 2)
    return out


def one(t, f, tab):
    n, worst = 0, 0.0
    d = llir.nd(t)
    if d[0] == "fn" and d[1] in (f, f.replace("Est", ""), {"exp": "exp2"}.get(f)) and llir.nd(d[2])[:3] == ("in", 32, "x"):
        return "ok", "", 0.0, 1             # the library function, or the checked entry point, itself
    for p in tab[f]:
        r = ap.prove(t, [("x", 0)], p, FNERR)
        n += r[3]
        worst = max(worst, r[2])
        if r[0] != "ok":
            return r[0], r[1], worst, n
    if f in ("exp", "exp2"):
        for dom, want in EXP_SPECIAL:
            r = ap.fixed(t, ("x", 0), dom, want)
            if r:
                return r[0], r[1], worst, n
    return "ok", "", worst, n


def run(tier, cfgs):
    engine.load(cfgs)
    jobs, miss = [], []
    for path, todo in goals().items():
        cs = [c for c in cfgs if "w_" + path in engine.MODS[(c, "main")][1]]
        if cs:
            jobs.append((path, cs, todo, tier))
        for c in cfgs:
            if c not in cs:
                miss.append({"key": path + "@" + c, "what": path, "verdict": "violation", "detail": "the entry point the property speaks about is not part of the public interface", "loc": ""})
    import multiprocessing as mp
    global JOBS
    JOBS = jobs
    res = []
    with mp.get_context("fork").Pool(8) as p:
        for r in p.imap_unordered(_job, range(len(jobs))):
            res += r
    return sorted(res + miss, key=lambda o: o["key"]), {"accuracy_parts": sum(r.get("parts", 0) for r in res)}


JOBS = []


def _job(i):
    return decide(JOBS[i])


# ------------------------------------------------------------------ two arguments
def _at2(e):
    @spec("trans", "XMVectorATan2" + e)
    def _(A):
        def lane(y, x, quo):
            s = y.band(bits32(0x80000000))
            yz, xz, xn = y.eq(0.0), x.eq(0.0), x.neg_()

            def c(v):
                return s.bor(lit(v))
            at = fn("atan" + e, quo(y, x)) + xn.ite(c(math.pi), bits32(0x80000000))
            r = yz.ite(xn.ite(c(math.pi), s), xz.ite(c(math.pi / 2), at))
            return y.isinf().ite(x.isinf().ite(xn.ite(c(math.pi * 3 / 4), c(math.pi / 4)), c(math.pi / 2)), r)
        Y, X = A.v(0), A.v(1)
        quos = [(lambda y, x: y / x, "quotient")]
        if e:
            quos += [(lambda y, x: y * fn("rcp", x), "estimated quotient"), (lambda y, x: y * (1.0 / x), "quotient by reciprocal")]
        return [R([lane(y, x, q) for y, x in zip(Y, X)], mode="exact", note="inverse tangent of the %s, corrected by quadrant" % w)
                for q, w in quos] + [
                R([fn("atan2", y, x) for y, x in zip(Y, X)], mode="exact", note="library function")]


_at2("")
_at2("Est")


@spec("trans", "XMVectorPow")
def _(A):
    return R([fn("pow", a, b) for a, b in zip(A.v(0), A.v(1))], mode="exact", note="power in each lane")
