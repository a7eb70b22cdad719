"""The properties: which specifications and structural analyses decide each of them."""
import importlib, os
import build

PROPS = {}
ALLC = [c for c in build.CONFIGS if c != "spec"]
SPECMODS = ["specs_vec", "specs_mat", "specs_quat", "specs_conv", "specs_ops", "specs_col", "specs_trans"]


def prop(pid, rule, tags=(), which=("main",), extra=(), level="other", cfgs=None):
    PROPS[pid] = dict(rule=rule, tags=list(tags), which=which, extra=list(extra), level=level, cfgs=cfgs)


VALUE_RULE = ("Forward value analysis over the compiler IR of every listed public entry point, one instance per entry point, enumerated constant "
              "argument and build configuration (scalar, SSE2, SSE3, SSE4.1, AVX, F16C, FMA3, AVX2, and favor_intel variants): every result word and every "
              "written word is put in a canonical normal form over the symbolic input words and must be identical to the normal form of the formula the "
              "specification prescribes. An obligation is one (entry point, constants, configuration).  ")

prop("C01", VALUE_RULE + "Comparison specifications are decided bit-exactly, with NaN, infinities and signed zeros.", ["cmp"])
prop("C02", VALUE_RULE + "Routing and bitwise specifications are decided bit-exactly on raw lane bits.", ["route", "bits"], which=("main", "XMVectorPermute"), cfgs=ALLC + ["spec"])
prop("C03", VALUE_RULE + "Lane arithmetic.", ["lane"])
prop("C04", VALUE_RULE + "Geometric functions, as identities of real arithmetic.", ["geo"])
prop("C05", VALUE_RULE + "Matrix algebra, as identities of real arithmetic.", ["mat"])
prop("C06", VALUE_RULE + "Matrix constructors, as identities of real arithmetic.", ["ctor"])
prop("C07", VALUE_RULE + "Quaternion functions, as identities of real arithmetic.", ["quat"])
prop("C08", VALUE_RULE + "Plane functions and the Fresnel term, as identities of real arithmetic.", ["plane"])
prop("C09", VALUE_RULE + "Loads, stores, setters and getters, bit-exact; memory the specification does not name must keep its value.", ["mem"])
prop("C10", VALUE_RULE + "Numeric conversions and scalar helpers.", ["conv", "scalar"])
prop("C16", VALUE_RULE + "Operators and conversions between storage types, arrays and vectors; reference conversions must return the address they were given and no larger an object.", ["ops"])
prop("C20", VALUE_RULE + "Collision queries: the decision (a boolean or an enumeration) is a decision diagram over the signs of polynomials in the inputs, compared with the diagram of the geometric criterion.", ["col"])
prop("C21", VALUE_RULE + "Construction and transformation of bounding volumes, as identities of real arithmetic.", ["vol"])


def _safety(kind):
    def f(tier):
        import safety
        return safety.run(kind, ALLC)
    return f


def _accuracy(tier):
    import specs_trans
    return specs_trans.run(tier, ALLC)


def _half(tier):
    import half
    build.prepare(ALLC)
    return half.run(ALLC)


def _structure(name):
    def f(tier):
        import structure
        return getattr(structure, name)(tier)
    return f


def _stability(tier):
    import stab
    for m in SPECMODS:
        importlib.import_module(m)
    return stab.run(ALLC)


def _nan(tier):
    import stab, nanprop
    for m in SPECMODS:
        importlib.import_module(m)
    return stab.run(ALLC, ["lane", "geo", "mat", "ctor", "quat", "plane", "scalar", "vol", "ops"], (), nanprop.form, "NaN propagation", "input_result_pairs")


prop("C23", "Poison analysis over the compiler IR of every listed entry point and configuration: for each result word whose documented formula is plain arithmetic and each input word the formula uses, a NaN in "
     "that input is followed through arithmetic, comparisons (ordered false, unordered true), minima, maxima and selections; it must reach the result word. An obligation is one (entry point, constants, configuration).", extra=[_nan])
prop("C22", "Magnitude analysis over the compiler IR of every listed entry point and configuration: each result word is mapped to the polynomial of absolute values that bounds its intermediate sums, likewise the "
     "documented formula; the code's polynomial (and that of every denominator and root the formula also has) may contain no monomial the formula's lacks and no coefficient more than 4 times larger. "
     "An obligation is one (entry point, constants, configuration).", extra=[_stability])
prop("C11", "Effect analysis over the type-checked program of every feature combination in the matrix: each call to a target-feature intrinsic in a body reachable from a public "
     "entry point must use only instruction sets the build configuration enables for that body; every (body, configuration) is an obligation.", extra=[_structure("isa")])
prop("C12", "Abstract interpretation of unoptimised-order compiler IR (inlined, loops unrolled inside the analysis) with symbolic contents and symbolic run-time selectors: every load and store must lie inside the "
     "object its pointer was derived from, at an address whose known alignment satisfies the access, must not read undefined bytes, and the unreachable paths must be infeasible. "
     "An obligation is one (entry point, constants or symbolic selectors, configuration).", extra=[_safety("memory")])
prop("C13", "Abstract interpretation of the same IR with overflow and bounds checks on: the condition under which any panic call is reached is computed as a boolean over input bits and must be false; "
     "every loop must leave within a bounded number of iterations whatever the inputs.", extra=[_safety("panic")])
prop("C14", "Effect analysis over the type-checked program: from every public entry point, the reachable bodies contain no mutable or interior-mutable static, no thread-local, no input/output, allocation, "
     "clock, random or environment access, and no floating-point control register access.", extra=[_structure("purity")])
prop("C15", "Bit-precise value analysis (binary decision diagrams over the 16 or 32 input bits) of the half-precision conversions against the IEEE 754 conversion function, per configuration.", extra=[_half])
prop("C17", "The crate is type-checked in every configuration of the matrix; the public interface (functions with signatures, types with size, alignment and public fields, constants with values, trait implementations) is extracted from the compiler and compared item by item.",
     extra=[_structure("parity")])
prop("C18", "Layouts and constant values are read from the compiler in every configuration of the matrix and compared with the documented ones.", extra=[_structure("layout")])
prop("C19", "Forward abstract interpretation of every listed entry point's compiler IR (10 configurations) with Taylor models (polynomial in the input plus remainder) carrying a bound on the accumulated "
     "single-precision rounding error; the domain is split adaptively, selections fork, and on every part the enclosure of the difference from the mathematical function must stay within the stated bound. "
     "atan2 and pow: " + VALUE_RULE, ["trans"], extra=[_accuracy])


def run_specs(P, tier):
    import engine, dsl
    for m in SPECMODS:
        importlib.import_module(m)
    cfgs = P["cfgs"] or ALLC
    for w in P["which"]:
        engine.load(cfgs, w)
    tasks, missing = engine.tasks_for(P["tags"], cfgs)
    if "XMVectorPermute" not in P["which"]:
        tasks = [t for t in tasks if t[2] == "main"]
        missing = [m for m in missing if m not in build.SEPPATHS]
    limit = 60 if tier == "quick" else 240
    tasks = [t[:4] + (dict(t[4], limit=max(limit, t[4].get("limit", 0))),) for t in tasks]
    res = engine.run_tasks(tasks)
    obls = []
    for r in res:
        r["key"] = "%s[%s]@%s" % (r["path"], r["variant"], r["cfg"])
        r["what"] = r["path"] + ("[%s]" % r["variant"] if r["variant"] else "")
        obls.append(r)
    for m in missing:
        obls.append({"key": m, "what": m, "verdict": "violation", "detail": "the entry point the property speaks about is not part of the public interface", "loc": ""})
    obls.sort(key=lambda o: o["key"])
    return obls, {"functions": len({r["path"] for r in res}), "instances": len(res), "configurations": cfgs, "ir_instructions": sum(r.get("instr", 0) for r in res)}


def run(pid, tier):
    P = PROPS[pid]
    obls, extra = [], {}
    if P["tags"]:
        obls, extra = run_specs(P, tier)
    for f in P["extra"]:
        o, e = f(tier)
        obls += o
        extra.update(e)
    return obls, extra
