"""Half/single conversion, decided bit by bit for all 2^16 and 2^32 patterns in the BDD domain."""
import build, llir, bdd
from llir import nd


def h2f(b, h):
    """single with the value of half h (16 bits, LSB first); a NaN's payload is left-aligned and quiet"""
    m, e, s = h[:10], h[10:15], h[15]
    ones = 1
    nz = 0
    for x in e:
        ones = b.and_(ones, x)
        nz = b.or_(nz, x)
    # normal: exponent + 112
    ex, _ = b.add(e + [0] * 3, b.konst(8, 112))
    r = [0] * 13 + m + ex
    inf = [0] * 13 + m + [1] * 8
    # subnormal m * 2^-24: leading one at position k -> exponent 127 - 24 + k
    sub = [0] * 31
    for k in range(10):
        v = [0] * (23 - k) + m[:k] + b.konst(8, 103 + k)
        sub = b.mux(m[k], v, sub)
    r = b.mux(nz, r, sub)
    r = b.mux(ones, inf, r)
    return r + [s]


def f2h(b, f):
    """half nearest to single f, ties to even, overflow to infinity; NaN to a quiet NaN"""
    m, e, s = f[:23], f[23:31], f[31]
    mnz = 0
    for x in m:
        mnz = b.or_(mnz, x)
    r = [0] * 15
    full = m + [1]
    for E in range(102, 113):
        sh = 126 - E
        q = full[sh:] + [0] * 15
        q = q[:15]
        g = full[sh - 1]
        st = 0
        for x in full[:sh - 1]:
            st = b.or_(st, x)
        up = b.and_(g, b.or_(st, q[0]))
        v, _ = b.add(q, [up] + [0] * 14)
        r = b.mux(b.eq(e, b.konst(8, E)), v, r)
    # 113..142: normal
    st = 0
    for x in m[:12]:
        st = b.or_(st, x)
    up = b.and_(m[12], b.or_(st, m[13]))
    ee, _ = b.sub(e, b.konst(8, 112))
    v, _ = b.add(m[13:] + ee[:5], [up] + [0] * 14)
    norm = b.and_(b.neg(b.ult(e, b.konst(8, 113))), b.ult(e, b.konst(8, 143)))
    r = b.mux(norm, v, r)
    big = b.neg(b.ult(e, b.konst(8, 143)))
    r = b.mux(big, b.konst(15, 0x7C00), r)
    nan = b.and_(b.eq(e, b.konst(8, 255)), mnz)
    r = b.mux(nan, m[13:22] + [1] + [1] * 5, r)
    return r + [s]


class HB(bdd.B):
    """also interprets the hardware conversions"""

    def _bits(self, t):
        n = nd(t)
        if n[0] == "h2f":
            return h2f(self, self.bits(n[1]))
        if n[0] == "call" and n[2] == "f2h":
            return f2h(self, self.bits(n[3]))
        return bdd.B._bits(self, t)


def isnan(b, v, eb, mb):
    e = 1
    for x in v[mb:mb + eb]:
        e = b.and_(e, x)
    m = 0
    for x in v[:mb]:
        m = b.or_(m, x)
    return b.and_(e, m)


FNS = {"XMConvertFloatToHalf": (32, f2h, (8, 23), (5, 10)), "XMConvertHalfToFloat": (16, h2f, (5, 10), (8, 23))}


def run(cfgs):
    obls = []
    n = 0
    for cfg in cfgs:
        path, ix = build.ir(cfg)
        mod = llir.Module(path)
        for fn, (w, spec, fi, fo) in FNS.items():
            hits = [(s, m) for s, m in ix.items() if m["path"].split("::")[-1] == fn]
            if not hits:
                obls.append({"key": fn + "@" + cfg, "what": fn, "cfg": cfg, "verdict": "violation", "loc": "src/packed_vector.rs", "detail": "the entry point the property speaks about is not part of the public interface"})
                continue
            for sym, meta in hits:
                o = {"key": "%s@%s" % (fn, cfg), "what": fn, "cfg": cfg, "loc": meta["loc"], "rule": "equal BDDs for all 2^%d inputs" % w}
                obls.append(o)
                try:
                    r = llir.analyse(mod, sym, meta)
                    n += r.ninstr
                    ow = 48 - w
                    t = r.mem[("out", 0)]
                    if ow == 16:
                        t = llir.slc(t, 0, 16)
                    b = HB(3000000, True)
                    inp = b.bits(llir.slc(llir.T.mk("in", 32, "a0", 0), 0, w)) if w < 32 else b.bits(llir.T.mk("in", 32, "a0", 0))
                    got, want = b.bits(t), spec(b, inp)
                    innan = isnan(b, inp, *fi)
                    diff = 0
                    for x, y in zip(got, want):
                        diff = b.or_(diff, b.xor(x, y))
                    bad = b.ite(innan, b.or_(b.neg(isnan(b, got, *fo)), b.xor(got[-1], want[-1])), diff)
                    o["nodes"] = len(b.node)
                    free = [k for k in b.vars if k[0] != llir.T.mk("in", 32, "a0", 0)]
                    if bad == 0:
                        o["verdict"] = "ok"
                    else:
                        wv = b.witness(bad)
                        v = sum(bit << k[1] for k, bit in wv.items() if k[0] == llir.T.mk("in", 32, "a0", 0))
                        # value of both sides at the witness
                        asn = {b.vars[k]: bit for k, bit in wv.items()}

                        def ev(f):
                            while f > 1:
                                vv, lo, hi = b.node[f]
                                f = hi if asn.get(vv, 0) else lo
                            return f
                        gv = sum(ev(x) << i for i, x in enumerate(got))
                        sv = sum(ev(x) << i for i, x in enumerate(want))
                        o["verdict"] = "violation" if not any(k in wv for k in free) else "undecided"
                        o["detail"] = "input 0x%X gives 0x%X, IEEE conversion gives 0x%X" % (v, gv, sv)
                except llir.Unsupported as e:
                    o.update(verdict="undecided", detail="unsupported: " + str(e))
                except (bdd.TooBig, RecursionError) as e:
                    o.update(verdict="undecided", detail="too large")
                except Exception as e:
                    o.update(verdict="undecided", detail="error: %r" % e)
    return obls, {"functions": len(FNS), "instances": len(obls), "configurations": list(cfgs), "ir_instructions": n}
