#!/usr/bin/env python3
"""The property catalogue; writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFG = ("every build configuration the crate offers: portable scalar (no_intrinsics), SSE2, SSE3, SSE4.1, AVX, F16C, FMA3, AVX2, and the alternative "
       "code selected by favor_intel")
P = []
NA = []
VTECH = "forward value analysis (global value numbering to canonical normal forms) over compiler IR"
VNOTE = ("Static: no input is run and no solver is asked. The optimised LLVM IR rustc emits for each public entry point (10 build configurations) is put in a "
         "canonical normal form over symbolic input words and compared with the normal form of the documented formula, for all inputs at once. "
         "Trusts rustc's lowering, the IR semantics written in sa/llir.py and the formulas in sa/specs_*.py; polynomial identity is decided by "
         "fingerprints modulo a 192-bit prime at two points (error probability below 2^-180). ")
REAL = "Numeric results are compared as real-arithmetic identities: rounding and overflow are outside the claim. "
EXACT = "Bit-exact, with NaN, infinities, denormals and signed zeros. "


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=VTECH, note=VNOTE, level="other"):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, id
    P.append((d, tech, note, level))


WHYV = ("The tests are doc examples with a handful of literal inputs, run in the one configuration the host compiles (SSE2 by default); other lanes, special values "
        "and the other configurations' code paths are never reached.")

p("C01", "Comparisons decide exactly the documented IEEE relation in every lane",
  "Every vector comparison (lane masks, 2/3/4-component predicates, bounds and near-equality tests, NaN/infinity classification) returns, for every input including NaN, infinities and signed zeros, exactly the documented relation over exactly the documented components: all-ones or zero per lane for mask forms, the conjunction (for the not-equal forms, the disjunction) for predicate forms. "
  "The comparison-record forms set exactly the documented all-true / all-false / all-in-bounds bits, and the record queries read them back accordingly. "
  "Components outside the compared 2 or 3 never influence a 2D or 3D result.",
  ["inputs", "configurations"], "all bit patterns of all lanes, in " + CFG, WHYV,
  ["src/vector.rs", "src/misc.rs", "src/lib.rs"],
  [("lane compares and movemask tests", "src/vector.rs: XMVectorEqual .. XMVector4InBounds"), ("comparison record constants", "src/lib.rs: XM_CRMASK_CR6*")], note=VNOTE + EXACT)
p("C02", "Lane movement and bitwise operations are bit-exact for every selector",
  "Getters, setters, splats, swizzles, permutes, shifts, rotates, inserts, merges, selects and bitwise logic place in every result lane exactly the documented bits of exactly the documented source lane, for every selector value. "
  "No lane is altered, canonicalised or dropped on the way, also when its bits are those of a NaN or denormal. "
  "Lanes that an operation does not name keep their bits.",
  ["inputs", "configurations"], "all lane bit patterns and every selector (all 4096 permutes, 256 swizzles, every index), in " + CFG, WHYV,
  ["src/vector.rs", "src/misc.rs", "src/globals.rs", "src/lib.rs"],
  [("shuffle immediates and mask tables", "src/vector.rs: XMVectorSwizzle, XMVectorPermute, XMVectorShiftLeft, XMVectorInsert"), ("mask constants", "src/globals.rs")], note=VNOTE + EXACT)
p("C03", "Lane-wise arithmetic and interpolation equal their formulas in every lane",
  "Lane-wise arithmetic (add .. multiply-add, min/max/clamp/saturate, square roots and reciprocals with their estimates, floor/ceiling/truncate/round, modulo, angle arithmetic) and interpolation (linear, Hermite, Catmull-Rom, barycentric, scalar and per-lane weights) give in each lane the documented function of the same lane of the operands, up to floating-point rounding; the functions that are a single IEEE operation are that correctly rounded operation, and only the functions named Est may be approximate. "
  "No lane of the result depends on another lane of the vector operands except where the function is documented to sum lanes.",
  ["inputs", "configurations"], "all finite lane values, in " + CFG, WHYV,
  ["src/vector.rs"], [("lane formulas, one per instruction set", "src/vector.rs: XMVectorAdd .. XMVectorBaryCentricV")], note=VNOTE + REAL)
p("C04", "2D, 3D and 4D vector geometry equals its defining formula",
  "Dot, cross, length, normalisation, reflection, refraction, orthogonal, angle, line distance, line intersection, projection and the point/normal/coordinate transforms return in every lane the value of the documented formula in real arithmetic, including the documented results for zero-length and infinite-length vectors (zero and QNaN), total-reflection and parallel cases. "
  "Only the documented components enter the formula, and the result is replicated to the documented lanes.",
  ["inputs", "configurations"], "all finite vectors and matrices, in " + CFG, WHYV,
  ["src/vector.rs"], [("per-ISA dot products, shuffles and fallbacks", "src/vector.rs: XMVector2Dot .. XMVector4Transform")], note=VNOTE + REAL)
p("C05", "Matrix algebra satisfies its row-vector identities",
  "Product, transposed product, transpose, determinant, inverse and vector tensor product produce, in all sixteen elements, the value linear algebra prescribes for row-vector matrices, and inverse also reports the determinant it divided by. "
  "The NaN, infinity and identity predicates examine all sixteen elements. Decomposition recovers scale, rotation and translation (a negative scale for reflections, substitute axes for vanishing ones) and refuses sheared matrices.",
  ["inputs", "configurations"], "all 4x4 matrices with finite elements (predicates: all bit patterns; decomposition: all scales, rotations, reflections and translations, and shears in the coordinate planes), in " + CFG, WHYV,
  ["src/matrix.rs"], [("shuffle-and-accumulate kernels", "src/matrix.rs: XMMatrixMultiply, XMMatrixInverse, XMMatrixDeterminant")], note=VNOTE + REAL)
p("C06", "Matrix constructors build the documented transform",
  "Translation, scaling, rotation (axis, normal, roll-pitch-yaw, quaternion), composed affine and general transformations in 2D and 3D, reflection, shadow, view and projection constructors return, in all sixteen elements, the documented row-vector matrix for their parameters. "
  "Left- and right-handed variants follow their documented sign conventions, and depth maps to [0, 1].",
  ["inputs", "configurations"], "all finite parameters inside each constructor's documented domain, in " + CFG, WHYV,
  ["src/matrix.rs"], [("constructor bodies per instruction set", "src/matrix.rs: XMMatrixTranslation .. XMMatrixOrthographicRH")], note=VNOTE + REAL)
p("C07", "Quaternion operations satisfy quaternion algebra",
  "Product (in the documented concatenation order), conjugate, inverse, norm, normalisation, exponential, logarithm, spherical and barycentric interpolation, squad set-up, and the conversions from axis-angle, roll-pitch-yaw and rotation matrix return the value of the documented formula in all four components, including the near-parallel and sign-flip branches. "
  "The quaternion predicates examine all four components.",
  ["inputs", "configurations"], "all finite quaternions, weights, angles and matrices, in " + CFG, WHYV,
  ["src/misc.rs"], [("quaternion kernels", "src/misc.rs: XMQuaternionMultiply .. XMQuaternionToAxisAngle")], note=VNOTE + REAL)
p("C08", "Plane operations and the Fresnel term equal their formulas",
  "Plane dot products, normalisation, line and plane intersection, transform, construction from points or normals, and the Fresnel term return the documented formula's value in every lane, including the documented results for parallel and degenerate inputs. "
  "The plane predicates examine all four coefficients, and near-equality normalises both planes first.",
  ["inputs", "configurations"], "all finite planes, points, lines and matrices, in " + CFG, WHYV,
  ["src/misc.rs"], [("plane kernels", "src/misc.rs: XMPlaneNormalize .. XMPlaneFromPoints, XMFresnelTerm")], note=VNOTE + REAL)
p("C09", "Loads, stores and setters move exactly the documented components",
  "Loading a storage type yields a vector or matrix whose components are bit for bit the stored ones with the documented fill (zero, or the identity row/column) elsewhere, and storing writes exactly the type's components. "
  "Nothing outside the destination object is written, and the source is left unchanged.",
  ["inputs", "configurations"], "all bit patterns of all components, in " + CFG, WHYV,
  ["src/convert.rs", "src/lib.rs"], [("partial loads and stores", "src/convert.rs: XMLoadFloat3 .. XMStoreFloat4x4A"), ("setters", "src/lib.rs: XMVector::set, XMMatrix::set, set")], note=VNOTE + EXACT)
p("C10", "Integer/float lane conversions scale, truncate and saturate as documented",
  "Integer-to-float conversions give lane / 2^exponent; float-to-integer conversions give lane * 2^exponent truncated toward zero and saturated to the signed or unsigned 32-bit range, for every exponent from 0 to 31. "
  "Constant splats, degree/radian conversion, scalar min/max, near-equality and angle reduction equal their formulas.",
  ["inputs", "configurations"], "all lane values (NaN excepted for the saturating conversions) and every exponent 0..31, in " + CFG, WHYV,
  ["src/convert.rs", "src/vector.rs", "src/misc.rs", "src/lib.rs"], [("scaling by exponent-bias constants", "src/convert.rs: XMConvertVector*"), ("saturation masks", "src/globals.rs")],
  note=VNOTE + "Scaling is compared in real arithmetic, saturation boundaries exactly. ")

STRUCTTECH = "effect analysis over the type-checked program (compiler driver), every feature combination"
STRUCTNOTE = ("A rustc driver (driver/) type-checks /repo once per feature/target-feature combination (quick: 38, thorough: 166) and emits bodies, resolved call sites, statics, layouts and constant values; the rule is applied to all of them. ")
ABSTECH = "abstract interpretation of compiler IR with symbolic inputs (bounds, alignment, undefinedness, reachability)"
ABSNOTE = ("Static: each public entry point's IR in 10 build configurations is interpreted once over symbolic inputs and selectors; reachability conditions are boolean functions over input bits kept in binary decision diagrams. "
           "Loops are unrolled inside the analysis until the back edge is infeasible. Trusts rustc's lowering and the IR semantics in sa/llir.py. ")

p("C11", "No instruction outside the enabled instruction sets is ever executed",
  "In every combination of cargo features and target features, no function of the crate can execute an intrinsic belonging to an instruction-set extension that the combination does not enable (whether by compile-time target features or because a no_* feature opts out of it). "
  "A build made for SSE2 hardware never raises an illegal-instruction fault, and disabling an extension really disables it.",
  ["configurations", "call sites"], "every feature combination in the matrix and every call to a target-feature intrinsic in every body",
  "Tests run in one configuration on one machine that supports every extension, so a mis-gated intrinsic never faults there.",
  ["src/vector.rs", "src/matrix.rs", "src/misc.rs", "src/convert.rs", "src/packed_vector.rs", "src/lib.rs", "Cargo.toml"],
  [("configuration gates around intrinsics", "src/vector.rs, src/matrix.rs: #[cfg(_XM_*_INTRINSICS_)] blocks"), ("gate definitions", "src/lib.rs, Cargo.toml features")], tech=STRUCTTECH, note=STRUCTNOTE)
p("C12", "Safe functions never touch memory outside their arguments",
  "For every input value and every run-time selector, the functions callable from safe code read only initialised bytes of the objects they were given or of the crate's own constants, write only the objects they were given, and never assume more alignment than the argument types guarantee. "
  "Loads and stores of the storage types touch exactly the bytes of the storage type.",
  ["inputs", "configurations", "memory layouts"], "all inputs, all run-time selectors, every 4-byte-aligned placement of storage types, in " + CFG,
  "An over-wide load or a misaligned access is invisible to a test whose stack happens to be readable and aligned; it shows only at a page end, in an array element or under an optimiser exploiting it.",
  ["src/convert.rs", "src/vector.rs", "src/matrix.rs", "src/lib.rs", "src/collision.rs"],
  [("pointer casts to wider types", "src/convert.rs: XMLoad*/XMStore*"), ("unchecked indexing and unions", "src/vector.rs: XMVectorGetByIndexPtr, XMVectorSwizzle; src/lib.rs: Index impls")], tech=ABSTECH, note=ABSNOTE)
p("C13", "No panic, overflow trap or endless loop for any valid input",
  "For every argument in its documented domain, no public function panics (no arithmetic overflow in debug builds, no index out of bounds, no failed assertion, no division by zero), reaches an unreachable marker, or loops without a bound that is independent of the input values.",
  ["inputs", "configurations"], "all inputs in the documented domains (selectors and exponents within their ranges), in " + CFG,
  "Overflow checks and bounds checks only fire for particular bit patterns (a float that is exactly the minimum, a denormal half, a NaN in a loop condition) which a few literal examples never include.",
  ["src/vector.rs", "src/convert.rs", "src/misc.rs", "src/collision.rs", "src/lib.rs"],
  [("integer arithmetic on float bits", "src/packed_vector.rs: XMConvertHalfToFloat, XMConvertFloatToHalf; src/vector.rs: XMVectorExp2, XMVectorLog2"), ("loops", "src/collision.rs: eigen solvers, corner loops; src/misc.rs: angle reduction")], tech=ABSTECH, note=ABSNOTE)
p("C14", "Results depend on the arguments only, and nothing else changes",
  "No function reads or writes state outside its arguments: no mutable, thread-local or interior-mutable static, no floating-point control register, no clock, environment, file, random source, processor detection or allocation. "
  "Calls are therefore repeatable, order-independent and safe to make from any number of threads.",
  ["histories", "schedules", "configurations"], "all call sequences and thread interleavings, in every feature combination of the matrix",
  "Hidden state shows only in particular call sequences or interleavings; a test calls each function once or twice from one thread.",
  ["src/globals.rs", "src/lib.rs", "src/vector.rs", "src/misc.rs", "src/collision.rs"],
  [("constant tables", "src/globals.rs"), ("all public entry points", "src/*.rs")], tech=STRUCTTECH, note=STRUCTNOTE)
p("C15", "Half-precision conversion is the IEEE 754 conversion for every bit pattern",
  "Half-to-float conversion is exact for all 65536 halves (denormals, infinities, NaN class and sign kept); float-to-half conversion rounds to nearest with ties to even, produces denormal halves for small magnitudes, signed zero below them, and the documented overflow result above the half range. "
  "Converting a half to float and back gives it back.",
  ["inputs", "configurations"], "all 2^16 halves, all 2^32 floats, in " + CFG,
  "There are 2^32 floats; rounding, tie and denormal boundaries are isolated bit patterns, and the software path is only compiled without F16C.",
  ["src/packed_vector.rs"], [("software conversion", "src/packed_vector.rs: XMConvertHalfToFloat, XMConvertFloatToHalf"), ("F16C path", "src/packed_vector.rs")],
  tech="bit-precise value analysis (binary decision diagrams) over compiler IR", note="All input bits are symbolic at once; each result bit is a decision diagram compared with the diagram of the IEEE conversion. No execution, no solver. " + ABSNOTE)
p("C16", "Operators and conversions are the functions they stand for",
  "The arithmetic, bitwise, comparison, index and compound-assignment operators of XMVector and XMMatrix give exactly the result of the XM function they stand for, in every lane and row, by value and by reference alike. "
  "Conversions among vectors, storage structures and arrays keep component order; reference conversions return the same address and never a larger object.",
  ["inputs", "configurations", "trait implementations"], "all inputs of every operator and conversion implementation, in " + CFG, WHYV,
  ["src/lib.rs"], [("operator implementations", "src/lib.rs: impl Add/Sub/Mul/... for XMVector, XMMatrix"), ("AsRef/AsMut/From/Deref implementations", "src/lib.rs")], note=VNOTE + REAL)
p("C17", "Every configuration builds and offers the same interface",
  "Every supported combination of cargo features and target features compiles, and all of them export the same functions with the same signatures, the same types with the same size, alignment and public fields, the same constant values and the same trait implementations. "
  "Switching instruction sets never changes what a client can call or how its data is laid out.",
  ["configurations"], "every feature combination in the matrix (quick 38, thorough 166)",
  "The tests compile exactly one configuration.",
  ["Cargo.toml", "src/lib.rs", "src/vector.rs", "src/convert.rs"], [("cfg gates", "src/*.rs: #[cfg(...)]"), ("feature list", "Cargo.toml")], tech=STRUCTTECH, note=STRUCTNOTE)
p("C18", "Storage types and constants have the documented layout and values",
  "Vector, matrix, storage and bounding-volume types have the documented size, alignment and field order in C representation, so arrays of them can be handed to graphics interfaces unchanged; the angle, permute, swizzle, select and comparison-record constants have the documented values.",
  ["configurations", "types"], "every public storage type and constant in every feature combination of the matrix",
  "Tests name fields and constants symbolically, so a reordered field or a shifted constant stays self-consistent in them.",
  ["src/lib.rs", "src/globals.rs", "src/collision.rs"], [("type definitions", "src/lib.rs, src/collision.rs"), ("constants", "src/lib.rs: XM_*")], tech="layout and constant queries over the type-checked program (compiler driver)", note=STRUCTNOTE)

p("C20", "Collision queries give the geometrically correct answer",
  "Every contains, intersects, plane-side and ray query among spheres, axis-aligned boxes, oriented boxes, frusta, triangles, points, planes and rays decides its geometric criterion: nearest-point distance, slab, separating-axis and plane-side tests over all axes, faces, edges and corners, in the right space. "
  "Disjoint, intersecting and contained (or front, intersecting and back) are told apart consistently, and ray hits report the entry distance (0 from inside a frustum, 0 with a miss).",
  ["inputs", "configurations"], "all positions, sizes, orientations and directions in real arithmetic (proper volumes with non-zero plane normals; the ray-frustum query in ten families of directions and slopes), in " + CFG,
  "A separating axis left out, one edge pair mixed up, or one corner skipped changes the answer only in a thin set of configurations; example scenes almost never need that axis.",
  ["src/collision.rs"], [("queries", "src/collision.rs: Contains*, Intersects*, ContainedBy"), ("triangle tests", "src/collision.rs: triangle_tests")],
  note="Oracle: decision diagrams of the geometric criteria written in sa/specs_col.py, with the sign of each polynomial as a test. " + VNOTE + REAL)
p("C21", "Bounding volumes are built and transformed so that they bound",
  "Volumes built from points, boxes, spheres, frusta, projection matrices or pairs of volumes enclose exactly what the construction says (minimum and maximum, circumscribed sphere, Ritter's sphere, box in the stored orientation's frame); "
  "transformation by a matrix or by scale, rotation and translation moves centre, extents, radius, orientation, slopes and depths together; corners and planes are reported in the documented order and world space.",
  ["inputs", "configurations"], "all volumes and transforms in real arithmetic (proper volumes, non-zero scale; point sets of 0 to 3 arbitrary points, in general position for Ritter's sphere, and of up to 17 (boxes: 66) points with one position at a time distinguished; the sphere around a frustum for one orientation), in " + CFG,
  "An error in one corner, one slope sign or the order of composing rotations is invisible for the axis-aligned, origin-centred volumes that tests use.",
  ["src/collision.rs"], [("construction", "src/collision.rs: CreateFrom*, CreateMerged"), ("transformation", "src/collision.rs: TransformMatrix, TransformDecomposed"), ("corners and planes", "src/collision.rs: GetCorners, GetPlanes")],
  note="Oracle: formulas in sa/specs_col.py. The orientation chosen for an oriented box around points is not constrained. " + VNOTE + REAL)

p("C19", "Approximated functions stay within their error bounds over their whole domain",
  "Vector and scalar sin, cos, sincos, tan, asin, acos, atan, exp, exp2, sinh, cosh, tanh and their estimates return, in every lane and for every argument of the domain, a finite value within a fixed bound of the true value. "
  "Bounds: sin and cos 1e-6 plus 1.8e-7 per radian for |x| up to 200 (estimates 3e-4 and 1e-3), tan 2e-6 (relative to sec squared, away from poles; estimate 3.5e-3 over |x| <= 1.5), asin/acos 1.7e-6 (estimates 1.3e-3), atan 1.2e-6 (4e-4), exp2 1.5e-5 relative, sinh/cosh 2.8e-5 relative, tanh 1.4e-5. "
  "exp2 gives infinity, zero and NaN where it must; atan2 picks quadrant and sign for zeros and infinities; pow works lane by lane.",
  ["inputs", "configurations"], "all arguments of the stated domains (intervals, not samples), every lane, in " + CFG,
  "A wrong digit in a minimax coefficient, a range reduction off by one period or a missing reflection hits some part of the domain only, and each configuration has code of its own; the doc examples sample a few angles.",
  ["src/vector.rs", "src/misc.rs", "src/globals.rs"],
  [("range reduction and minimax polynomials", "src/vector.rs: XMVectorModAngles, XMVectorSin .. XMVectorATan2Est"), ("scalar forms", "src/misc.rs: XMScalarModAngle, XMScalarSin .. XMScalarACosEst"), ("coefficients", "src/globals.rs: g_XMSinCoefficients0 .. g_XMExpEst")],
  tech="abstract interpretation (Taylor models with rounding-error bounds) over compiler IR",
  note="Static: no input is run and no solver is asked. Intervals of arguments are propagated through the IR with a polynomial enclosure and a bound on the accumulated single-precision rounding error; each part of the domain is decided as a whole. "
       "A bound missed through accumulated rounding alone is reported as undecided, not as a violation. Trusts rustc's lowering, the IR semantics in sa/llir.py, the enclosures in sa/approx.py and the host's double arithmetic (with slack added for it).")

p("C22", "Algebraic results are formed without adding and cancelling extraneous quantities",
  "The vector, matrix, quaternion, plane, colour and volume functions with an algebraic formula sum the terms of that formula and no others: in every configuration, differences of inputs that the formula multiplies (a direction "
  "between two points, an edge, V1 - V0 in an interpolation) are taken before they are multiplied, and no quantity outside the formula is added and subtracted again, neither in the result nor under a root or in a denominator; where the formula adds non-negative terms (a sum of squares), none is subtracted. "
  "The rounding error therefore stays within a small multiple (number of operations times at most 4) of 2^-24 times the sum of the magnitudes of the formula's terms.",
  ["inputs", "configurations"], "all inputs where the documented formula has no exceptional case (zero length, singular matrix), in " + CFG,
  "An algebraically equal rearrangement (|a|^2 + |b|^2 - 2ab for |a - b|^2, a plane normal from products of positions, V0 - tV0 + tV1) agrees on the small values tests use and loses all digits for points far from the origin.",
  ["src/vector.rs", "src/matrix.rs", "src/misc.rs", "src/collision.rs"],
  [("sums of products", "src/matrix.rs: XMMatrixMultiply, XMMatrixInverse"), ("interpolation and distances", "src/vector.rs: XMVectorLerpV, XMVector3LinePointDistance"), ("planes and quaternions", "src/misc.rs: XMPlaneFromPoints, XMQuaternionMultiply"), ("corners and construction", "src/collision.rs: GetCorners, CreateMerged")],
  tech="magnitude (running error) analysis over compiler IR",
  note="Static: no input is run and no solver is asked. Every result word and the documented formula (sa/specs_*.py) are mapped to polynomials of absolute values; a monomial the formula lacks is the violation. Not covered, and listed in the evidence: estimates, rounding and "
       "remainder functions, ClampLength, decompositions and point-set constructions, whose formula is piecewise. Trusts rustc's lowering, the IR semantics in sa/llir.py and the formulas.")

p("C23", "A NaN in a component the formula uses reaches the results computed from it",
  "Where the documented formula of a result is plain arithmetic on certain input components (sums, products, quotients, roots and library functions, no minimum, maximum or selection), and in normalisation, a NaN in any of those components makes that result NaN, "
  "whatever the other components are. No configuration hides it behind a clamp, a comparison, a shortcut for zero factors or an integer conversion, so invalid data is never turned into a plausible number.",
  ["inputs", "configurations"], "every input component of every formula, all values of the other components, in " + CFG,
  "Tests pass finite values; a guard such as max(x, 0) before a root, or a shortcut that skips a product with zero, is invisible until a NaN arrives, and differs between the scalar and the vector code.",
  ["src/vector.rs", "src/matrix.rs", "src/misc.rs", "src/collision.rs"],
  [("arithmetic and normalisation", "src/vector.rs: XMVectorMultiplyAdd, XMVector3Normalize, XMVector3Transform"), ("matrix products and constructors", "src/matrix.rs: XMMatrixMultiply, XMMatrixInverse"), ("planes and quaternions", "src/misc.rs: XMPlaneDot, XMQuaternionMultiply")],
  tech="poison (NaN propagation) dataflow analysis over compiler IR",
  note="Static: no input is run. The formulas are those of sa/specs_*.py; which of their components count is read off the formula. Functions with minima, maxima or case distinctions in the formula (clamping, refraction, slerp near-parallel branch, point sets) are not covered and listed in the evidence. "
       "Trusts rustc's lowering, the IR semantics in sa/llir.py, and that sin, cos and the other library functions return NaN for NaN.")

NA.append(({"id": "N01", "title": "Composite functions lose at most a few units in the last place of the result",
            "statement": "Matrix products and inverses, quaternion interpolation, plane and collision computations return results whose floating-point error stays within a small multiple of the rounding unit of the exact result.",
            "quantifier": {"over": ["inputs", "configurations"], "text": "all finite inputs"},
            "why_tests_cant": "Cancellation depends on the particular values.",
            "anchors": {"files": ["src/matrix.rs", "src/misc.rs", "src/collision.rs"], "mechanism": [{"name": "sums of products", "where": "src/matrix.rs: XMMatrixInverse, XMMatrixMultiply"}]}},
           "The relative error of a sum of products is unbounded under cancellation, which depends on run-time values; no sound static bound holds for all inputs. C22 decides what can be decided statically: the error relative to the magnitudes of the formula's terms."))


def main():
    import importlib.util
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            f.write(json.dumps(d) + "\n")
        for d, _ in NA:
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 sa/build.py setup",
         "checks": [{"property": d["id"], "quick_cmd": "python3 check.py %s --tier quick" % d["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
                     "evidence_file": "evidence/%s.json" % d["id"], "technique": t, "level": lv, "level_note": n.strip()} for d, t, n, lv in P],
         "not_applicable": [{"property": d["id"], "reason": r} for d, r in NA],
         "notes": "Static analysis only. DESIGN.md describes each check; known-findings.txt lists repaired and recorded defects."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
