"""Builds, from /repo's current working tree, the inputs of every analysis:

  facts  (rustc driver: public API, signatures, layouts, impls, resolved callees, constants)
  IR     (LLVM IR of the crate + one thin exported wrapper per public entry point, inlined
          and SSA-normalised by `opt`)

for each configuration of the crate.  Outputs go to /verif/.build/<hash of the tree>/<config>/.
Nothing here executes the crate's code.
"""
import hashlib, json, os, re, shutil, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DXM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TC = "nightly-x86_64-unknown-linux-gnu"
HOME = os.environ.get("HOME", "/root")
F_SSE3 = "+sse3"
F_SSE4 = F_SSE3 + ",+ssse3,+sse4.1"
F_AVX = F_SSE4 + ",+avx"
F_F16C = F_AVX + ",+f16c"
F_FMA = F_F16C + ",+fma"
F_AVX2 = F_FMA + ",+avx2"
# name -> (target features, cargo features)
CONFIGS = {
    "noint": ("", ["no_intrinsics"]),
    "sse2": ("", []),
    "sse3": (F_SSE3, []),
    "sse4": (F_SSE4, []),
    "avx": (F_AVX, []),
    "f16c": (F_F16C, []),
    "fma": (F_FMA, []),
    "avx2": (F_AVX2, []),
    "avx_intel": (F_AVX, ["favor_intel"]),
    "avx2_intel": (F_AVX2, ["favor_intel"]),
    "spec": ("", ["no_intrinsics", "specialization"]),
}
PRIM = {"f32", "f64", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize", "bool"}


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["PATH"] = HOME + "/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    if env:
        e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s\n%s" % (p.returncode, " ".join(cmd), p.stdout.decode(errors="replace")[-3000:], p.stderr.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", "+" + TC, "--print", "sysroot"]).strip()
    return _sysroot


def llvm(tool):
    return os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", tool)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src",):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in ("build.rs", "Cargo.toml", "README.md"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            files.append(p)
    for p in files:
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    for p in (__file__, os.path.join(VERIF, "driver/src/main.rs")):
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


class lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    src = os.path.join(VERIF, "driver")
    tgt = os.path.join(BUILD, "driver")
    exe = os.path.join(tgt, "release/dxm-facts")
    stamp = os.path.join(tgt, "stamp")
    want = hashlib.sha256(open(src + "/src/main.rs", "rb").read()).hexdigest()
    with lock(BUILD + "/driver.lock"):
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want):
            sh(["cargo", "+" + TC, "build", "--release", "--offline"], cwd=src, env={"CARGO_TARGET_DIR": tgt})
            open(stamp, "w").write(want)
    return exe


def root():
    r = os.path.join(BUILD, tree_hash())
    if not os.path.isdir(r):
        os.makedirs(r, exist_ok=True)
        # prune other trees (keep the most recently used four)
        olds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.fullmatch(r"[0-9a-f]{16}", d) and os.path.join(BUILD, d) != r]
        olds.sort(key=os.path.getmtime)
        for o in olds[:-4]:
            shutil.rmtree(o, ignore_errors=True)
    else:
        os.utime(r)
    return r


def facts(cfg):
    """facts dict of one configuration"""
    tf, feats = CONFIGS[cfg] if isinstance(cfg, str) else cfg
    name = cfg if isinstance(cfg, str) else "x_" + hashlib.sha256(repr(cfg).encode()).hexdigest()[:10]
    d = os.path.join(root(), name)
    out = os.path.join(d, "facts.json")
    with lock(d + "/facts.lock"):
        if not os.path.exists(out):
            exe = driver()
            tgt = os.path.join(d, "facts_target")
            shutil.rmtree(tgt, ignore_errors=True)
            cmd = ["cargo", "+" + TC, "check", "--offline", "--lib", "--manifest-path", REPO + "/Cargo.toml", "-p", "directx_math"]
            if feats:
                cmd += ["--features", ",".join(feats)]
            sh(cmd, env={
                "CARGO_TARGET_DIR": tgt, "RUSTC_WORKSPACE_WRAPPER": exe, "DXM_FACTS_OUT": out + ".tmp",
                "LD_LIBRARY_PATH": sysroot() + "/lib",
                "RUSTFLAGS": "-C target-cpu=x86-64" + (" -C target-feature=" + tf if tf else "") + " --cap-lints allow",
            })
            shutil.rmtree(tgt, ignore_errors=True)
            os.rename(out + ".tmp", out)
    return json.load(open(out))


def rty(t):
    """facts type string -> Rust source type, as seen from the wrapper crate"""
    t = t.replace("std::arch::x86_64::__m128", "XMVECTOR")
    t = re.sub(r"&'[a-z_]+ ", "&", t)

    def sub(m):
        w = m.group(0)
        if w in PRIM or w in ("mut", "const", "std", "option", "Option"):
            return w
        if w == "__vector4":
            return "XMVECTOR"
        return w
    return re.sub(r"[A-Za-z_][A-Za-z_0-9]*", sub, t)


def ident(s):
    return re.sub(r"[^A-Za-z0-9_]+", "_", s)


def size_of(t, api_types):
    t = t.strip()
    base = {"f32": 4, "u32": 4, "i32": 4, "u16": 2, "i16": 2, "u8": 1, "bool": 1, "usize": 8, "f64": 8, "u64": 8, "i64": 8, "XMVECTOR": 16, "__vector4": 16, "std::arch::x86_64::__m128": 16}
    if t in base:
        return base[t]
    m = re.fullmatch(r"\[(.*); (\d+)\]", t)
    if m:
        return size_of(m.group(1), api_types) * int(m.group(2))
    m = re.fullmatch(r"Align16<(.*)>", t)
    if m:
        return (size_of(m.group(1), api_types) + 15) // 16 * 16
    if t in api_types:
        return api_types[t]
    raise KeyError(t)


SPECIAL = {}  # name -> function(fn facts) -> list of (suffix, const args) ; filled below


def _combos(names, radix):
    import itertools
    return list(itertools.product(range(radix), repeat=names))


# entry points whose index-like parameters range over a small documented set: one wrapper per value
ENUM_ARGS = {
    "XMVectorSwizzle": ([1, 2, 3, 4], 4),
    "XMVectorGetByIndex": ([1], 4),
    "XMVectorGetIntByIndex": ([1], 4),
    "XMVectorGetByIndexPtr": ([2], 4),
    "XMVectorGetIntByIndexPtr": ([2], 4),
    "XMVectorSetByIndex": ([2], 4),
    "XMVectorSetIntByIndex": ([2], 4),
    "XMVectorSetByIndexPtr": ([2], 4),
    "XMVectorSetIntByIndexPtr": ([2], 4),
    "XMVectorShiftLeft": ([2], 4),
    "XMVectorRotateLeft": ([1], 4),
    "XMVectorRotateRight": ([1], 4),
    "XMVectorSelectControl": ([0, 1, 2, 3], 2),
    "XMVectorInsert": ([2, 3, 4, 5, 6], (4, 2, 2, 2, 2)),
    "XMVectorPermute": ([2, 3, 4, 5], 8),
    "XMConvertVectorIntToFloat": ([1], 32),
    "XMConvertVectorFloatToInt": ([1], 32),
    "XMConvertVectorUIntToFloat": ([1], 32),
    "XMConvertVectorFloatToUInt": ([1], 32),
    "XMVectorSplatConstant": ([1], 32),
}
SEPARATE = {"XMVectorPermute"}  # too many instances for the main wrapper crate
SEPPATHS = SEPARATE | {"template::XMVectorPermute"}


def align_of(t, api_aligns):
    t = t.strip()
    base = {"f32": 4, "u32": 4, "i32": 4, "u16": 2, "i16": 2, "u8": 1, "bool": 1, "usize": 8, "f64": 8, "u64": 8, "i64": 8, "XMVECTOR": 16, "__vector4": 16, "std::arch::x86_64::__m128": 16}
    if t in base:
        return base[t]
    m = re.fullmatch(r"\[(.*); (\d+)\]", t)
    if m:
        return align_of(m.group(1), api_aligns)
    if t.startswith("Align16<"):
        return 16
    return api_aligns.get(t, 1)


def gen_wrappers(fx, which="main"):
    """-> (rust source, index) ; index: wrapper symbol -> description"""
    import itertools
    api = fx["api"]
    types = {}
    for k, v in api.items():
        if k.startswith("type ") and v.get("layout"):
            types[v["def"]] = v["layout"]["size"]
    aligns = {v["def"]: v["layout"]["align"] for k, v in api.items() if k.startswith("type ") and v.get("layout")}
    bydef = {}
    for k, v in api.items():
        if k.startswith("fn "):
            p = k[3:]
            if v["def"] not in bydef or p.count("::") < bydef[v["def"]][0].count("::"):
                bydef[v["def"]] = (p, v)
    src = ["#![allow(warnings)]", "use directx_math::*;", "use directx_math::collision;", "use std::mem::MaybeUninit;"]
    index = {}

    def emit(sym, call, params, out, meta):
        # params: list of (rust param text); call: rust expr
        ps = list(params)
        body = call
        if out is not None:
            ps = ["out: &mut MaybeUninit<%s>" % rty(out)] + ps
            body = "out.write(%s);" % call
        src.append("#[no_mangle] pub unsafe extern \"C\" fn %s(%s) { %s }" % (sym, ", ".join(ps), body))
        index[sym] = meta

    def plan(t):
        """input type -> list of alternatives (param text builder, expr builder, kind, inner type)"""
        t = t.strip()
        if t.startswith("&mut "):
            return [("&mut " + rty(t[5:]), "{}", "mut", t[5:], "")]
        if t.startswith("&"):
            return [("&" + rty(t[1:]), "{}", "ref", t[1:], "")]
        m = re.fullmatch(r"std::option::Option<&mut (.*)>", t)
        if m:
            return [("&mut " + rty(m.group(1)), "Some({})", "mut", m.group(1), "Some"), (None, "None", "none", None, "None")]
        if t.startswith("impl Iterator"):
            return [("&[XMFLOAT3; %d]" % n, "{}.iter()", "ref", "[XMFLOAT3; %d]" % n, "n%d" % n) for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 66)]
        return [("&" + rty(t), "*{}", "val", t, "")]

    def do_fn(sym0, callpath, sig, meta0, self_generic=None):
        ins = sig["inputs"]
        base = meta0["path"].split("::")[-1]
        enum = ENUM_ARGS.get(meta0["path"]) if which != "dyn" else None
        alts = []
        for i, t in enumerate(ins):
            if enum and i in enum[0]:
                r = enum[1] if isinstance(enum[1], int) else enum[1][enum[0].index(i)]
                alts.append([(None, str(n), "const", n, str(n)) for n in range(r)])
                if t.startswith("&"):
                    alts[-1] = [(None, "&%s" % a[1], "const", a[3], a[4]) for a in alts[-1]]
            else:
                alts.append(plan(t))
        nopt = sum(1 for a in alts if any(x[2] == "none" for x in a))
        for combo in itertools.product(*alts):
            nn = sum(1 for c in combo if c[2] == "none")
            if nopt > 2 and nn not in (0, 1, nopt):
                continue
            if "Sphere" in meta0["path"] and any(c[4] == "n66" for c in combo):
                continue      # Ritter's iteration over that many points is too large a formula
            suff = "_".join(c[4] for c in combo if c[4])
            sym = sym0 + ("__" + suff if suff else "")
            params, exprs, args = [], [], []
            for i, c in enumerate(combo):
                if c[0] is not None:
                    params.append("a%d: %s" % (i, c[0]))
                    exprs.append(c[1].format("a%d" % i))
                    args.append({"i": i, "kind": c[2], "ty": c[3], "size": size_of(c[3], types), "align": align_of(c[3], aligns)})
                else:
                    exprs.append(c[1])
                    args.append({"i": i, "kind": c[2], "value": c[3]})
            out = None if sig["output"] == "()" else sig["output"]
            m = dict(meta0)
            m.update(args=args, out=out, variant=suff)
            outt = out
            if out and out.startswith("&"):
                continue
            if out:
                m["out_size"] = size_of(out, types)
                m["out_align"] = align_of(out, aligns)
            emit(sym, "%s(%s)" % (callpath, ", ".join(exprs)), params, outt, m)

    for d, (p, v) in sorted(bydef.items()):
        if which == "dyn":
            if p not in ENUM_ARGS:
                continue
        elif (p in SEPARATE) != (which == p):
            continue
        sig = v["sig"]
        meta = {"path": p, "def": d, "loc": v["loc"], "unsafe": sig["unsafe"]}
        gens = [g for g in sig["generics"] if not g.startswith("impl ")]
        if gens:
            for inst in ("f32", "u32"):
                s2 = {"inputs": [re.sub(r"\bT\b", inst, x) for x in sig["inputs"]], "output": re.sub(r"\bT\b", inst, sig["output"])}
                do_fn("w_" + ident(p) + "_" + inst, p, s2, dict(meta, path=p))
        else:
            do_fn("w_" + ident(p), p, sig, meta)
    if which == "main":
        for k, v in sorted(fx["impls"].items()):
            if v["generics"]:
                continue
            tr = v["trait"]
            if tr in ("std::fmt::Debug", "std::clone::TrivialClone", "Undefined", "std::cmp::Eq") or not v["fns"]:
                continue
            self_ = re.sub(r"&'a ", "&", v["self"])
            a = [re.sub(r"&'a ", "&", x) for x in v["args"]]
            for f in v["fns"]:
                if f["sig"]["output"].startswith("&"):
                    # reference-returning conversions: expose as pointer identity
                    ins = f["sig"]["inputs"]
                    if len(ins) == 1 and ins[0].startswith("&"):
                        qual = "<%s as %s%s>::%s" % (rty(self_), tr, "<%s>" % ", ".join(rty(x) for x in a) if a else "", f["name"])
                        sym = "r_" + ident("%s_%s_%s_%s" % (self_.replace("&", "ref "), tr.split("::")[-1], "_".join(x.replace("&", "ref ") for x in a), f["name"]))
                        it = ins[0].replace("&mut ", "&mut ") 
                        m = "mut" if ins[0].startswith("&mut ") else "ref"
                        inner = ins[0][5:] if m == "mut" else ins[0][1:]
                        ot = f["sig"]["output"]
                        src.append("#[no_mangle] pub unsafe extern \"C\" fn %s(out: &mut MaybeUninit<usize>, a0: %s) { let r = %s(a0); out.write(r as *const _ as usize); }" % (sym, ("&mut " if m == "mut" else "&") + rty(inner), qual))
                        index[sym] = {"path": k + "::" + f["name"], "def": f["def"], "loc": f["loc"], "unsafe": False, "args": [{"i": 0, "kind": m, "ty": inner, "size": size_of(inner, types), "align": align_of(inner, aligns)}], "out": ot, "out_size": 8, "variant": "", "refid": True,
                                      "out_inner_size": size_of(re.sub(r"^&(mut )?", "", ot), types), "impl": True}
                    continue
                qual = "<%s as %s%s>::%s" % (rty(self_), tr, "<%s>" % ", ".join(rty(x) for x in a) if a else "", f["name"])
                sym0 = "i_" + ident("%s_%s_%s_%s" % (self_, tr.split("::")[-1], "_".join(x.replace("&", "ref ") for x in a), f["name"]))
                do_fn(sym0, qual, f["sig"], {"path": k + "::" + f["name"], "def": f["def"], "loc": f["loc"], "unsafe": False, "impl": True})
        # trait-based swizzle: all 256
        sw = ["SwizzleX", "SwizzleY", "SwizzleZ", "SwizzleW"]
        for c in _combos(4, 4):
            sym = "t_swizzle_" + "".join(map(str, c))
            src.append("#[no_mangle] pub unsafe extern \"C\" fn %s(out: &mut MaybeUninit<XMVECTOR>, a0: &XMVECTOR) { out.write(<(%s) as template::XMVectorSwizzle>::XMVectorSwizzle(*a0)); }" % (sym, ",".join(sw[i] for i in c)))
            index[sym] = {"path": "template::XMVectorSwizzle", "def": "template::XMVectorSwizzle", "loc": "src/vector.rs", "unsafe": False, "args": [{"i": 0, "kind": "val", "ty": "XMVECTOR", "size": 16, "align": 16}], "out": "XMVECTOR", "out_size": 16, "variant": "_".join(map(str, c)), "trait": True}
    if which == "XMVectorPermute":
        pm = ["Permute0X", "Permute0Y", "Permute0Z", "Permute0W", "Permute1X", "Permute1Y", "Permute1Z", "Permute1W"]
        for c in _combos(4, 8):
            sym = "t_permute_" + "".join(map(str, c))
            src.append("#[no_mangle] pub unsafe extern \"C\" fn %s(out: &mut MaybeUninit<XMVECTOR>, a0: &XMVECTOR, a1: &XMVECTOR) { out.write(<(%s) as template::XMVectorPermute>::XMVectorPermute(*a0, *a1)); }" % (sym, ",".join(pm[i] for i in c)))
            index[sym] = {"path": "template::XMVectorPermute", "def": "template::XMVectorPermute", "loc": "src/vector.rs", "unsafe": False, "args": [{"i": 0, "kind": "val", "ty": "XMVECTOR", "size": 16, "align": 16}, {"i": 1, "kind": "val", "ty": "XMVECTOR", "size": 16, "align": 16}], "out": "XMVECTOR", "out_size": 16, "variant": "_".join(map(str, c)), "trait": True}
    return "\n".join(src) + "\n", index


# leaf transcendental functions: kept as calls in the IR of their callers and summarised there by the
# function they approximate; each is itself checked against its own definition (see llir.SUMMARY)
from llir import summary_of


def keep_calls(t):
    def sub(m):
        line = m.group(0)
        if not re.match(r"[wirt]_", m.group(1)) and summary_of(m.group(1)):
            return re.sub(r" (#\d+)", r" noinline \1", line, count=1)
        return line
    t = re.sub(r"(?m)^define [^\n]*@([\w.$]+)\([^\n]*\{$", sub, t)
    return re.sub(r"\balwaysinline\b", "", t)


PASSES = ("function(lower-expect,sroa,early-cse,simplifycfg),"
          "cgscc(inline),always-inline,"
          "function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),"
          "cgscc(inline),"
          "function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
          "loop-simplify,lcssa,loop-mssa(loop-rotate,licm),loop(indvars,loop-deletion,loop-unroll-full),"
          "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,gvn,sccp,instcombine<no-verify-fixpoint>,simplifycfg,dse,adce,simplifycfg,loop-simplify,lcssa),globaldce")


# For the safety analyses: no pass that may exploit, and so hide, an out-of-bounds access or a dead check
# (scalar replacement drops accesses outside a local; instcombine folds what follows from undefined behaviour).
RAWPASSES = ("function(lower-expect,mem2reg),cgscc(inline),always-inline,"
             "function(mem2reg,early-cse,simplifycfg,loop-simplify,lcssa,loop-mssa(loop-rotate),loop(indvars,loop-unroll-full),"
             "early-cse,sccp,simplifycfg,loop-simplify,lcssa),globaldce")


def ir(cfg, which="main", mode=""):
    """-> (path of IR text, index); mode "" = value analysis, "raw" = safety analyses (overflow checks compiled in)"""
    tf, feats = CONFIGS[cfg]
    debug = mode != "" and which != "dyn"   # selectors outside the documented range: as released, wrapping
    tag = which + ("_" + mode if mode else "")
    d = os.path.join(root(), cfg)
    out = os.path.join(d, tag + ".ll")
    idx = os.path.join(d, tag + ".json")
    with lock(os.path.join(d, tag + ".lock")):
        if not (os.path.exists(out) and os.path.exists(idx)):
            fx = facts(cfg)
            src, index = gen_wrappers(fx, which)
            w = os.path.join(d, "wrap_" + tag)
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w + "/src")
            open(w + "/src/lib.rs", "w").write(src)
            open(w + "/Cargo.toml", "w").write(
                "[package]\nname = \"dxm_wrap\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[lib]\ncrate-type = [\"rlib\"]\n"
                "[dependencies]\ndirectx_math = { path = \"%s\", features = [%s] }\n[workspace]\n"
                "[profile.release]\ncodegen-units = 1\ndebug = 0\npanic = \"abort\"\noverflow-checks = %s\ndebug-assertions = %s\n"
                % (REPO, ", ".join('"%s"' % f for f in feats), str(debug).lower(), "false"))
            tgt = w + "/target"
            flags = "-C target-cpu=x86-64" + (" -C target-feature=" + tf if tf else "") + \
                " --emit=llvm-bc,link -C no-prepopulate-passes -C embed-bitcode=yes --cap-lints allow -Z merge-functions=disabled -Z inline-mir=no -C symbol-mangling-version=v0"
            sh(["cargo", "+" + TC, "build", "--release", "--offline", "--manifest-path", w + "/Cargo.toml"], env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": flags})
            bcs = []
            for dd, _, fs in os.walk(tgt):
                bcs += [os.path.join(dd, f) for f in fs if f.endswith(".bc") and (f.startswith("directx_math-") or f.startswith("dxm_wrap-"))]
            if len(bcs) != 2:
                raise BuildError("expected 2 bitcode files, found %r" % bcs)
            linked = w + "/linked.ll"
            sh([llvm("llvm-link"), "-S", "-o", linked] + bcs)
            t = open(linked).read()
            # let the inliner see every function: noinline/cold/optsize are scheduling hints, not semantics
            t = re.sub(r"(?m)^attributes #(\d+) = \{(.*)\}$", lambda m: "attributes #%s = {%s}" % (m.group(1), re.sub(r"\b(noinline|optsize|minsize|inlinehint)\b", "", m.group(2))), t)
            if mode == "":
                t = keep_calls(t)
            else:
                t = re.sub(r"\balwaysinline\b", "", t)
            open(linked, "w").write(t)
            pub = ",".join(sorted(index))
            lst = w + "/api.txt"
            open(lst, "w").write("\n".join(sorted(index)) + "\n")
            sh([llvm("opt"), "-S", "-o", out + ".tmp", linked, "-internalize-public-api-file=" + lst,
                "-passes=internalize,globaldce," + {"": PASSES, "raw": RAWPASSES}[mode], "-inline-threshold=1000000", "-inlinecold-threshold=1000000", "-inlinehint-threshold=1000000",
                "-unroll-threshold=100000", "-unroll-full-max-count=64", "-vectorize-slp=false"], timeout=900)
            json.dump(index, open(idx, "w"))
            os.rename(out + ".tmp", out)
            shutil.rmtree(w, ignore_errors=True)
    return out, json.load(open(idx))


def prepare(cfgs, which="main", workers=6, mode=""):
    driver()
    with ThreadPoolExecutor(workers) as ex:
        return dict(zip(cfgs, ex.map(lambda c: ir(c, which, mode), cfgs)))


if __name__ == "__main__":
    t0 = time.time()
    if sys.argv[1:] == ["setup"]:
        print(driver())
        sys.exit(0)
    for c in sys.argv[1:] or CONFIGS:
        t = time.time()
        p, i = ir(c)
        print(c, len(i), os.path.getsize(p), round(time.time() - t, 1))
    print(round(time.time() - t0, 1))
