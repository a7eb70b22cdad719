"""Structural properties, decided on the type-checked program (rustc driver facts) of a matrix of build configurations."""
import itertools, re, math, struct
from concurrent.futures import ThreadPoolExecutor
import build

NOS = ["no_sse3", "no_sse4", "no_avx", "no_f16c", "no_fma", "no_avx2"]
TFS = ["", "+sse3", "+ssse3", "+sse4.1", "+sse4.2", "+avx", "+f16c", "+fma", "+avx2", "+fma,+f16c", "+avx2,+fma", "+avx2,+f16c", "+avx2,+fma,+f16c"]
FULL = TFS[-1]


def matrix(tier):
    m = [(tf, []) for tf in TFS]
    m += [(tf, ["favor_intel"]) for tf in ("", "+sse4.1", "+avx", "+avx2", FULL)]
    m += [("", ["no_intrinsics"]), (FULL, ["no_intrinsics"]), (FULL, ["no_intrinsics", "favor_intel"]), ("", ["no_intrinsics", "specialization"])]
    m += [(FULL, [n]) for n in NOS]
    m += [(FULL, [n for n in NOS if n != k]) for k in NOS]
    m += [(FULL, list(NOS)), (FULL, ["no_avx", "favor_intel"]), (FULL, ["no_avx2", "favor_intel"]), (FULL, ["no_fma", "favor_intel"])]
    if tier == "thorough":
        for k in range(len(NOS) + 1):
            for c in itertools.combinations(NOS, k):
                m += [(FULL, list(c)), (FULL, list(c) + ["favor_intel"])]
        for tf in TFS:
            m += [(tf, ["favor_intel"]), (tf, ["no_intrinsics"])]
    out = []
    for c in m:
        if c not in out:
            out.append(c)
    return out


def name(c):
    return "%s%s" % (c[0] or "sse2", "/" + "+".join(c[1]) if c[1] else "")


def gather(tier):
    build.driver()
    build.root()

    def one(c):
        try:
            return c, build.facts(c), None
        except build.BuildError as e:
            return c, None, str(e)
    with ThreadPoolExecutor(7) as ex:
        return list(ex.map(one, matrix(tier)))


def err(e):
    m = re.search(r"(error(\[E\d+\])?:.*?)(?=\n\n|\Z)", e, re.S)
    return re.sub(r"\s+", " ", m.group(1) if m else e[-400:])[:400]


# ------------------------------------------------------------------ instruction sets
def isa(tier):
    obls = []
    ncalls = 0
    cfgs = []
    for c, f, e in gather(tier):
        cfgs.append(name(c))
        if f is None:
            continue        # buildability is the subject of another property
        have = set(f["target_features"])
        per = 0
        for fn, b in f["bodies"].items():
            bad = []
            for k in b["calls"]:
                per += 1
                if k["missing"]:
                    bad.append("%s needs %s (%s)" % (k["callee"].split("::")[-1], ",".join(k["missing"]), k["loc"]))
            if b["asm"]:
                bad.append("inline assembly")
            extra = [x for x in b["own_features"] if x not in have]
            if extra and b["vis"].startswith("Public"):
                bad.append("declares target_feature(%s), which this configuration does not guarantee" % ",".join(extra))
            if bad:
                obls.append({"key": "%s@%s" % (fn, name(c)), "what": fn, "cfg": name(c), "loc": b["loc"], "verdict": "violation", "detail": "; ".join(bad)[:500]})
            elif b["calls"]:
                obls.append({"key": "%s@%s" % (fn, name(c)), "what": fn, "cfg": name(c), "loc": b["loc"], "verdict": "ok"})
        ncalls += per
    return obls, {"configurations": cfgs, "call_sites": ncalls, "functions": len({o["what"] for o in obls})}


# ------------------------------------------------------------------ purity
IMPURE = re.compile(r"^(std|core|alloc)::(env|fs|io|net|process|thread|time|sync|cell|alloc|rc|os|collections|boxed|vec|string|hint::black_box|arch::x86_64::(_mm_setcsr|_mm_getcsr|_MM_SET\w*|_MM_GET\w*|_rd\w+|__cpuid\w*|_xgetbv|_mm_stream\w*|_mm_pause))|is_x86_feature_detected|std_detect")


def purity(tier):
    obls, cfgs, ncalls = [], [], 0
    for c, f, e in gather(tier):
        cfgs.append(name(c))
        if f is None:
            continue
        for s, v in f["statics"].items():
            bad = v["mut"] or v["thread_local"] or not v["freeze"]
            obls.append({"key": "static %s@%s" % (s, name(c)), "what": "static " + s, "cfg": name(c), "loc": v["loc"], "verdict": "violation" if bad else "ok",
                         "detail": "mutable, thread-local or interior-mutable static" if bad else ""})
        for fn, b in f["bodies"].items():
            bad = []
            for k in b["calls"]:
                ncalls += 1
                if k["local"]:
                    continue
                if IMPURE.search(k["callee"].lstrip("<")):
                    bad.append("%s (%s)" % (k["callee"], k["loc"]))
                elif k["foreign"] and not re.search(r"arch::x86|intrinsics", k["callee"]):
                    bad.append("foreign function %s (%s)" % (k["callee"], k["loc"]))
            if b["asm"]:
                bad.append("inline assembly")
            if re.search(r" as std::fmt::", fn) and not b["asm"]:
                continue
            obls.append({"key": "%s@%s" % (fn, name(c)), "what": fn, "cfg": name(c), "loc": b["loc"], "verdict": "violation" if bad else "ok",
                         "detail": ("depends on or changes state outside its arguments: " + "; ".join(bad)[:400]) if bad else ""})
    return obls, {"configurations": cfgs, "call_sites": ncalls, "functions": len({o["what"] for o in obls})}


# ------------------------------------------------------------------ interface parity
def ntype(t):
    t = t.replace("std::arch::x86_64::__m128", "XMVECTOR").replace("__vector4", "XMVECTOR")
    return re.sub(r"'[a-z_]+ ", "", t)


def sig(v):
    s = v["sig"]
    return "%sfn(%s) -> %s" % ("unsafe " if s["unsafe"] else "", ", ".join(ntype(x) for x in s["inputs"]), ntype(s["output"]))


def surface(f):
    out = {}
    for k, v in f["api"].items():
        kind = k.split()[0]
        if kind == "fn":
            out[k] = sig(v)
        elif kind == "const":
            out[k] = "%s = %s" % (v["ty"], v["value"])
        elif kind == "assoc":
            out[k] = str({x: y for x, y in v.items() if x != "loc"})
        elif kind == "type":
            if "vector4" in k:
                continue
            l = v.get("layout")
            fl = v.get("fields") or []
            offs = (l or {}).get("offsets") or [None] * len(fl)
            out[k] = "%s size/align %s, public fields %s" % (v["kind"], l and (l["size"], l["align"]), [(x["name"], ntype(x["ty"]), o) for x, o in zip(fl, offs) if x["pub"]])
        elif kind in ("alias", "trait"):
            out[k] = ntype(str(v.get("ty", "")))
    for k, v in f["impls"].items():
        if "vector4" in k or "specialization" in k:
            continue
        if v["trait"] in ("Undefined",):
            continue
        out["impl " + ntype(k)] = str(sorted((x["name"], ntype(str(x["sig"]["inputs"])), ntype(x["sig"]["output"])) for x in v["fns"]))
    return out


def parity(tier):
    obls, cfgs = [], []
    ref = None
    n = 0
    for c, f, e in gather(tier):
        nm = name(c)
        cfgs.append(nm)
        if f is None:
            obls.append({"key": "build@" + nm, "what": "build", "cfg": nm, "loc": "Cargo.toml", "verdict": "violation", "detail": "does not build: " + err(e)})
            continue
        obls.append({"key": "build@" + nm, "what": "build", "cfg": nm, "loc": "Cargo.toml", "verdict": "ok"})
        s = surface(f)
        spec = "specialization" in c[1]
        if ref is None:
            ref = (nm, s)
            continue
        for k in sorted(set(ref[1]) | set(s)):
            if spec and k.startswith(("impl ", "trait ")):
                continue
            a, b = ref[1].get(k), s.get(k)
            if is_glue(k):
                continue
            n += 1
            ok = a == b
            obls.append({"key": "%s@%s" % (k, nm), "what": k, "cfg": nm, "loc": loc(f, k), "verdict": "ok" if ok else "violation",
                         "detail": "" if ok else "%s here: %s; in %s: %s" % (k, b or "absent", ref[0], a or "absent")})
    return obls, {"configurations": cfgs, "interface_items": len(ref[1]) if ref else 0}


def is_glue(k):
    return bool(re.search(r"__vector4|TrivialClone|StructuralPartialEq", k))


def loc(f, k):
    v = f["api"].get(k) or {}
    return v.get("loc", "")


# ------------------------------------------------------------------ layout and constants
def f32(x):
    return "%08x" % struct.unpack("<I", struct.pack("<f", x))[0]


CONSTS = {"XM_PI": math.pi, "XM_2PI": 2 * math.pi, "XM_1DIVPI": 1 / math.pi, "XM_1DIV2PI": 1 / (2 * math.pi), "XM_PIDIV2": math.pi / 2, "XM_PIDIV4": math.pi / 4,
          "XM_SELECT_0": 0, "XM_SELECT_1": 0xFFFFFFFF, "XM_CRMASK_CR6": 0xF0, "XM_CRMASK_CR6TRUE": 0x80, "XM_CRMASK_CR6FALSE": 0x20, "XM_CRMASK_CR6BOUNDS": 0x20}
for _i, _n in enumerate("XYZW"):
    CONSTS["XM_PERMUTE_0" + _n] = _i
    CONSTS["XM_PERMUTE_1" + _n] = 4 + _i
    CONSTS["XM_SWIZZLE_" + _n] = _i
LAYOUT = {}
for _p, _t in (("XMFLOAT", "f32"), ("XMINT", "i32"), ("XMUINT", "u32")):
    for _k in (2, 3, 4):
        LAYOUT[_p + str(_k)] = (4 * _k, 4, [(n, 4 * i) for i, n in enumerate("xyzw"[:_k])])
for _r, _c in ((3, 3), (3, 4), (4, 3), (4, 4)):
    LAYOUT["XMFLOAT%dX%d" % (_r, _c)] = (4 * _r * _c, 4, None)
LAYOUT["XMMATRIX"] = LAYOUT["XMMatrix"] = (64, 16, None)
LAYOUT["XMVector"] = (16, 16, None)
for _n in ("F32", "I32", "U32", "U8"):
    LAYOUT["XMVECTOR" + _n] = (16, 16, None)
LAYOUT["collision::BoundingSphere"] = (16, 4, [("Center", 0), ("Radius", 12)])
LAYOUT["collision::BoundingBox"] = (24, 4, [("Center", 0), ("Extents", 12)])
LAYOUT["collision::BoundingOrientedBox"] = (40, 4, [("Center", 0), ("Extents", 12), ("Orientation", 24)])
LAYOUT["collision::BoundingFrustum"] = (52, 4, [("Origin", 0), ("Orientation", 12), ("RightSlope", 28), ("LeftSlope", 32), ("TopSlope", 36), ("BottomSlope", 40), ("Near", 44), ("Far", 48)])


def layout(tier):
    obls, cfgs = [], []
    for c, f, e in gather(tier):
        nm = name(c)
        cfgs.append(nm)
        if f is None:
            continue
        for k, want in CONSTS.items():
            v = f["api"].get("const " + k)
            if v is None:
                obls.append({"key": "%s@%s" % (k, nm), "what": k, "cfg": nm, "loc": "", "verdict": "violation", "detail": "constant is not part of the public interface"})
                continue
            got = v["value"].get("bits")
            w = f32(want) if v["ty"] == "f32" else "%x" % want
            ok = got is not None and int(got, 16) == int(w, 16)
            obls.append({"key": "%s@%s" % (k, nm), "what": k, "cfg": nm, "loc": v["loc"], "verdict": "ok" if ok else "violation", "detail": "" if ok else "has bits 0x%s, documented value has 0x%s" % (got, w)})
        for k, (size, al, fields) in LAYOUT.items():
            v = f["api"].get("type " + k)
            if v is None:
                obls.append({"key": "%s@%s" % (k, nm), "what": k, "cfg": nm, "loc": "", "verdict": "violation", "detail": "type is not part of the public interface"})
                continue
            l = v["layout"]
            bad = []
            if (l["size"], l["align"]) != (size, al):
                bad.append("size %d align %d, documented size %d align %d" % (l["size"], l["align"], size, al))
            if "IS_C" not in v["repr"] and "TRANSPARENT" not in v["repr"].upper():
                bad.append("no C representation")
            if fields is not None:
                got = [(x["name"], o) for x, o in zip(v["fields"], l["offsets"])]
                if got != fields:
                    bad.append("fields at %s, documented %s" % (got, fields))
            obls.append({"key": "%s@%s" % (k, nm), "what": k, "cfg": nm, "loc": v.get("loc", ""), "verdict": "violation" if bad else "ok", "detail": "; ".join(bad)})
    return obls, {"configurations": cfgs, "constants": len(CONSTS), "types": len(LAYOUT)}
