#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
G='dpm/detail/generic/type.hpp'; XT='dpm/detail/x86/type.hpp'; GM='dpm/detail/generic/math.hpp'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe,"hook_needed":None}})
LANES=[{"name":"lanes","meaning":"the size() elements of a vector value","where":"simd<T,Abi> storage (array or native vectors)"},
       {"name":"padding","meaning":"storage lanes beyond size() in the last native vector","where":"simd/simd_mask x86 specialisations"}]
CFG="every element type, every ABI (scalar, packed, fixed, 16- and 32-byte aligned, with sizes that are and are not multiples of the native width), every instruction-set configuration"
NOT="The suite has only floating-point math tests on a handful of values with the default ABI; "
prop("C01","Integer arithmetic is lane-wise scalar arithmetic modulo 2^width",
 "For vectors of any integral element type and any supported ABI, +, -, *, /, %, unary + and -, ++ and --, in their plain, compound-assignment and vector-with-scalar forms, give in every lane exactly the scalar C++ result (modulo 2^width; division truncating, defined whenever the divisor lane is non-zero and no lane overflows). No lane's result depends on any other lane, and operands that are not assigned to keep their values.",
 ["inputs","programs","configurations"],"all operand lane values, all sequences of operations on live vectors, "+CFG,
 NOT+"no integer vector is ever created; 8-, 16- and 64-bit products and 64-bit negation are emulated differently per instruction set.",
 [G,XT,"dpm/detail/x86/addsub.hpp","dpm/detail/x86/muldiv.hpp"],[("native add/sub/mul/neg per element width","x86/addsub.hpp, x86/muldiv.hpp"),("operator overloads","generic/type.hpp, x86/type.hpp")],["element values read back with copy_to after each operation"],LANES)
prop("C02","Bitwise operators and shifts act on every lane exactly like the scalar ones",
 "For integral vectors &, |, ^, ~ and their compound forms, << and >> by a vector of counts or by a single count (with compound forms), and the constant logical/arithmetic shifts lsl, lsr, asl, asr, give in every lane the scalar result for every count from 0 to width-1. Right shift of signed elements propagates the sign, right shift of unsigned elements and lsr shift in zeros.",
 ["inputs","programs","configurations"],"all lane values and all in-range shift counts, "+CFG,
 NOT+"no shift or bitwise operator on an integral vector is executed by a test, and variable and 8/64-bit shifts are emulated on several instruction sets.",
 [G,XT,"dpm/detail/x86/bitwise.hpp","dpm/detail/x86/mbase.hpp"],[("emulated shifts","x86/bitwise.hpp"),("bit operators","x86/bitwise.hpp, generic/type.hpp")],["element values read back after each operation"],LANES)
prop("C03","Comparisons produce exactly the mask of lane-wise scalar comparisons",
 "==, !=, <, <=, >, >= between two vectors, and logical ! of a vector, give a mask whose lane i is the scalar comparison (respectively x[i]==0) of lane i, for signed and unsigned integers of every width and for floating point with IEEE semantics (NaN unordered, +0 equal to -0). The produced mask behaves like any other mask in every later use.",
 ["inputs","programs","configurations"],"all operand lane values including NaN, infinities, signed zeros and unsigned values above the signed range, "+CFG,
 NOT+"comparisons are only used on equal float results; unsigned and 64-bit orderings are synthesised.",
 [G,XT,"dpm/detail/x86/cmp.hpp"],[("native compares and emulations","x86/cmp.hpp")],["mask read back via copy_to, and used in later blends and reductions"],LANES)
prop("C04","Mask algebra: mask operators, copies, broadcast, generator, conversion",
 "For masks of every element type and ABI, &, |, ^, &&, ||, !, ~, unary +/-, ==, != and the compound forms are the lane-wise boolean functions, and broadcast, generator construction, copying from and to bool memory (plain, aligned and masked), element read/write and conversion between mask types of the same size preserve every lane. Memory outside the size() bools is never touched, and unselected bools of a masked copy are left alone.",
 ["inputs","programs","configurations"],"all mask patterns and all sequences of mask operations, "+CFG,
 NOT+"masks are produced only by float comparisons and consumed only by all_of.",
 [G,XT,"dpm/detail/alias.hpp"],[("mask operators","generic/type.hpp, x86/type.hpp, alias.hpp")],["mask lanes via copy_to and operator[]; surrounding memory bytes"],LANES)
prop("C05","Mask reductions depend only on the size() lanes of the mask",
 "all_of, any_of, none_of, some_of and reduce_count return exactly the universal, existential, negated existential, mixed and cardinality result over the size() lanes, and for a mask with at least one true lane reduce_min_index and reduce_max_index return the first and last true lane. The answers are a function of those lanes only: never of how the mask was produced, nor of anything stored beyond the last lane.",
 ["inputs","histories","configurations"],"all mask patterns, every way of producing a mask (comparison, negation, load, element write, conversion, generator, blend), "+CFG,
 NOT+"all_of on full native masks only; partial last vectors and dirty padding are never exercised.",
 [G,XT],[("movemask-based reductions and padding masks","x86/type.hpp")],["return values of the reductions"],LANES)
prop("C06","min, max, minmax and clamp select the right operand in every lane",
 "For vectors of any element type, min, max, minmax (vector-vector and vector-scalar) and clamp (vector and scalar bounds, low <= high) give in every lane the smaller, larger, ordered pair or clamped value of the corresponding scalars, for all integers of every width and signedness and for all pairs of ordered floating-point values (infinities and subnormals included). The result is always one of the operand values of that lane.",
 ["inputs","configurations"],"all lane values (NaN excluded), "+CFG,
 NOT+"min/max are not tested at all; 8/16/32/64-bit signed and unsigned versions are emulated on several instruction sets.",
 [G,XT,"dpm/detail/x86/minmax.hpp"],[("native min/max and emulations","x86/minmax.hpp")],["element values read back"],LANES)
prop("C07","Loads and stores move exactly size() elements and touch nothing else",
 "copy_from and copy_to (and construction from memory) transfer elements 0..size()-1 in order, from any address suitably aligned for the flag used (element, vector or over-aligned), converting between arithmetic element types exactly as static_cast does. They never read or write a byte outside those size() elements, whatever the size, address or converted type.",
 ["inputs","configurations"],"all sizes and addresses (including objects ending at an unmapped page), all source/destination element types, all alignment flags, "+CFG,
 NOT+"copies are always of whole native vectors of the same type inside larger arrays, where an out-of-range access goes unseen.",
 [G,XT,"dpm/flags.hpp"],[("copy_from/copy_to block loops and tails","x86/type.hpp, generic/type.hpp"),("alignment flags","flags.hpp")],["memory contents before and after; faults at guard pages; element values"],LANES)
prop("C08","Masked loads and stores touch only the selected elements",
 "A masked copy_from replaces exactly the selected lanes and keeps the others; a masked copy_to writes exactly the selected memory elements and leaves every other byte unchanged; construction from memory with a mask loads the selected lanes. Elements that are not selected are not accessed: they may lie in unmapped or read-only memory.",
 ["inputs","configurations"],"all mask patterns, sizes, addresses and converted types (unselected elements lying beyond an unmapped page included), "+CFG,
 NOT+"no masked copy is executed by any test.",
 [G,XT],[("maskload/maskstore and blend-based emulations","x86/type.hpp, x86/transform.hpp, x86/mbase.hpp")],["memory contents before and after; faults at guard pages; element values"],LANES)
prop("C09","blend picks each lane from the operand chosen by the mask",
 "blend(m, a, b) of vectors and of masks gives in every lane the value of a where m is true and of b where it is false, bit for bit (NaN payloads and negative zeros preserved), whichever way the mask was produced. Neither operand nor the mask changes.",
 ["inputs","histories","configurations"],"all masks, all values, all ways to produce the mask, "+CFG,
 NOT+"the only blend test does not compile and is not part of the suite that runs.",
 [G,XT,"dpm/detail/x86/mbase.hpp"],[("blendv and and/andnot emulations","x86/mbase.hpp, x86/type.hpp")],["element bits read back"],LANES)
prop("C10","Horizontal reductions combine every element exactly once",
 "reduce with any associative and commutative operation, hadd, hmul, hand, hor, hxor, reduce_min and reduce_max return the combination of all size() elements, each used exactly once and nothing else, for every size. Integer results are exact modulo 2^width; floating-point results are those of some order of combination, hence exact whenever every partial combination is exact.",
 ["inputs","configurations"],"all element values, all sizes (odd, partial last vector, larger than two vectors), all operations, "+CFG,
 NOT+"no reduction is executed by any test; tree reductions treat the tail and each element width separately.",
 [G,XT,"dpm/detail/x86/addsub.hpp","dpm/detail/x86/muldiv.hpp","dpm/detail/x86/bitwise.hpp","dpm/detail/x86/minmax.hpp","dpm/detail/x86/utility.hpp"],[("tree reductions","generic/type.hpp, x86/utility.hpp, x86/type.hpp")],["returned scalar"],LANES)
prop("C11","shuffle returns the elements at the given indices in the given order",
 "shuffle with a constant list of indices, applied to a vector or mask, gives a result with exactly as many lanes as indices whose lane i is the source lane named by index i, for every list (identity, reversal, duplicates, broadcasts, longer or shorter than the source, crossing native-vector boundaries) and every element type and ABI.",
 ["inputs","programs","configurations"],"all index lists, all element types, "+CFG,
 NOT+"no shuffle is executed by any test; each index list instantiates different template code.",
 [G,XT,"dpm/detail/x86/transform.hpp"],[("shuffle implementations per element size","x86/transform.hpp, x86/type.hpp")],["element values of the result"],LANES)
prop("C12","Element access, broadcast, generator and native data agree on every lane",
 "Reading x[i] yields lane i, assigning x[i]=v (on vectors and masks) changes lane i and nothing else, broadcast fills every lane, a generator is called once per lane index 0..size()-1 and its i-th value becomes lane i. The native-data view exposes the same lanes in the same order, and a value rebuilt from its native data equals the original.",
 ["inputs","programs","configurations"],"all indices, values and interleavings of element writes with other operations, "+CFG,
 NOT+"element access is only used to read results of native vectors.",
 [G,XT,"dpm/detail/alias.hpp","dpm/detail/x86/mbase.hpp"],[("element references","alias.hpp"),("set/generator kernels","x86/mbase.hpp, x86/type.hpp")],["element values and native bytes read back"],LANES)
prop("C13","Conversions between element types and ABIs convert every lane exactly",
 "Converting or casting a vector (constructor, simd_cast, static_simd_cast, to_fixed_size, to_native, to_compatible) to another element type or ABI of the same size gives in every lane the value static_cast gives for that lane: integers modulo 2^width, floating point to integer truncated, integer to floating point correctly rounded, narrowing of floating point correctly rounded. Conversion back to the original ABI with the same element type restores the identical value.",
 ["inputs","configurations"],"all source/destination type pairs, all values whose conversion is defined, all pairs of ABIs of equal size, "+CFG,
 NOT+"conversions between element types or ABIs are not tested.",
 [G,XT,"dpm/detail/x86/cvt.hpp","dpm/traits.hpp"],[("copy_cast and native casts","generic/type.hpp, x86/cvt.hpp, x86/type.hpp")],["element values of the result"],LANES)
prop("C14","Floating-point +, -, *, /, sqrt and the fma family round correctly",
 "On float and double vectors of any ABI, +, -, *, / (plain, compound, scalar operand), unary minus, ++, -- and sqrt give in every lane the correctly rounded IEEE-754 result, including subnormals, overflow, signed zeros, infinities and NaN. fma, fmadd, fmsub, fnmadd and fnmsub compute respectively a*b+c, a*b+c, a*b-c, -(a*b)+c and -(a*b)-c with one rounding (or, for targets without fused instructions, one rounding per operation). lerp interpolates with the error of its few roundings, returns its first end exactly at factor 0 and NaN for any NaN argument.",
 ["inputs","configurations"],"all operand bit patterns, both formats, "+CFG,
 NOT+"only a few exactly representable sums appear; sign and rounding errors of rarely used variants are invisible.",
 [G,XT,GM,"dpm/detail/x86/addsub.hpp","dpm/detail/x86/muldiv.hpp","dpm/detail/x86/math.hpp","dpm/detail/x86/pow.hpp"],[("native arithmetic and fused variants","x86/muldiv.hpp, x86/mbase.hpp, x86/math_fwd.hpp")],["element bits read back"],LANES)
prop("C15","frexp, modf, ldexp/scalbn and logb/ilogb decompose and rebuild exactly",
 "frexp returns a fraction of magnitude in [0.5,1) and the exponent with x == fraction * 2^exponent (zeros, infinities and NaN pass through), modf splits into integral and fractional parts of the sign of x that add up to x exactly, and logb/ilogb return the exact binary exponent of every finite non-zero value. ldexp, scalbn and scalbln multiply every lane by two to that lane's own exponent with a single rounding (gradual underflow, overflow to infinity).",
 ["inputs","configurations"],"all floating-point values (subnormals, extremes), all exponents per lane, "+CFG,
 "The fp-manipulation tests use a few dozen values with the same exponent in every lane of native vectors; per-lane exponents, partial vectors and large magnitudes are not reached.",
 [GM,"dpm/detail/x86/fmanip.hpp","dpm/detail/x86/frexp.cpp","dpm/detail/x86/modf.cpp","dpm/detail/x86/scalbn.cpp","dpm/detail/x86/logb.cpp"],[("bit-level exponent extraction and scaling","x86/fmanip.hpp and the .cpp files")],["element bits and exponent lanes read back"],LANES)
prop("C16","nextafter, copysign, abs, fdim, fmin/fmax and remainders follow the C rules",
 "In every lane nextafter (and nexttoward) returns the adjacent representable value in the direction of the second argument, copysign and abs/fabs change only the sign bit (integer abs negates negatives modulo 2^width), fmin/fmax ignore a single NaN and otherwise select the smaller/larger, and fdim is the correctly rounded positive difference. fmod, remainder and remquo return the exact remainder with the sign and quotient conventions of the C library.",
 ["inputs","configurations"],"all operand bit patterns, both formats, "+CFG,
 "nextafter is tested on a few values of native vectors; the others are not tested at all.",
 [GM,"dpm/detail/x86/fmanip.hpp","dpm/detail/x86/nextafter.cpp","dpm/detail/x86/math.hpp","dpm/detail/x86/mbase.hpp","dpm/detail/x86/minmax.hpp"],[("sign-bit and ulp manipulation","x86/fmanip.hpp, nextafter.cpp, mbase.hpp")],["element bits read back"],LANES)
prop("C17","ceil, floor, trunc, round, rint, nearbyint and integer roundings are exact",
 "In every lane ceil, floor, trunc and round (halves away from zero) return the exact integral value whatever the rounding mode, and rint and nearbyint honour the current rounding mode; zeros keep their sign, infinities, NaN and values that are already integral (however large) are returned unchanged. The variants returning integers (lround, llround, lrint, llrint and the int/long forms of round, rint and trunc) give the same value as an integer for every representable result. As documented, rint, lrint, llrint and the int/long forms of rint report an inexact result in the exception flags, and nearbyint raises none.",
 ["inputs","configurations"],"all floating-point values and the four rounding modes, both formats, "+CFG,
 NOT+"no nearest-integer function is tested.",
 [GM,"dpm/detail/x86/round.hpp","dpm/detail/x86/cvt.hpp"],[("rounding kernels per instruction set","x86/round.hpp"),("integer conversion","x86/cvt.hpp")],["element bits read back"],LANES)
prop("C18","Floating-point classification and quiet comparisons match IEEE-754",
 "fpclassify, isfinite, isinf, isnan, isnormal and signbit classify every lane exactly according to its bits, and isgreater, isgreaterequal, isless, islessequal, islessgreater and isunordered are the IEEE predicates (false on NaN, except isunordered), which, as documented, raise no floating-point exception for operands that are not signalling NaNs. The produced masks are full masks usable in blends, reductions and mask operators.",
 ["inputs","configurations"],"all bit patterns (every class, payload and sign), both formats, "+CFG,
 NOT+"classification is not tested.",
 [GM,"dpm/detail/x86/class.hpp","dpm/detail/x86/cmp.hpp"],[("bit-pattern classification","x86/class.hpp")],["mask and integer lanes read back and used in later operations"],LANES)
prop("C19","Elementary functions: special arguments give the specified results",
 "In every lane, the elementary functions give the results the C standard specifies for zeros, infinities, NaN and arguments outside the domain: exact zeros and ones keep value and sign, poles give infinities, domain errors give NaN, limits at infinity are reached, and a NaN argument yields NaN (except where C defines otherwise). A special argument in one lane never disturbs the result of another lane.",
 ["inputs","configurations"],"all special arguments in all lane positions mixed with ordinary values, both formats, "+CFG,
 "Tests place one special value in every lane at once and omit most functions, sizes and mixed vectors.",
 [GM,"dpm/detail/x86/exp.hpp","dpm/detail/x86/log.cpp","dpm/detail/x86/log2.cpp","dpm/detail/x86/log10.cpp","dpm/detail/x86/log1p.cpp","dpm/detail/x86/sincos.cpp","dpm/detail/x86/tan.cpp","dpm/detail/x86/asincos.cpp","dpm/detail/x86/atan.cpp","dpm/detail/x86/hypot.cpp","dpm/detail/x86/pow.hpp","dpm/detail/x86/hypbl.hpp","dpm/detail/x86/errfn.hpp"],[("special-case masks and blends","x86/*.cpp")],["element bits read back"],LANES)
prop("C20","Elementary functions are accurate, lane-independent and deterministic",
 "For ordinary arguments every lane of every elementary function (exponentials, logarithms, trigonometric, hyperbolic, power, root, error and gamma functions) is within a few units in the last place of the true mathematical value over the whole range where the result is representable (the logarithms: within a few ulp or, close to their zero, within a few units of 2^-24 or 2^-53; the single precision reciprocal approximations: within 1.5*2^-12). The result of a lane is a function of that lane's arguments only: the same argument gives the same bits in every lane position, next to any neighbours, at any time.",
 ["inputs","histories","configurations"],"all finite arguments in all lane positions next to all neighbours, both formats, "+CFG,
 "Tests compare a handful of points per function, with the same value in every lane of a native vector.",
 [GM,"dpm/detail/x86/exp.hpp","dpm/detail/x86/log.cpp","dpm/detail/x86/log2.cpp","dpm/detail/x86/log10.cpp","dpm/detail/x86/log1p.cpp","dpm/detail/x86/sincos.cpp","dpm/detail/x86/tan.cpp","dpm/detail/x86/asincos.cpp","dpm/detail/x86/atan.cpp","dpm/detail/x86/hypot.cpp","dpm/detail/x86/pow.hpp","dpm/detail/x86/polevl.hpp","dpm/detail/x86/lut.hpp","dpm/detail/fconst.cpp"],[("range reduction and polynomial kernels","x86/*.cpp, x86/polevl.hpp, fconst.cpp")],["element bits read back"],LANES)
prop("C21","Every backend, ABI and size gives the same answer for the same program",
 "A program of vector and mask operations (arithmetic, bitwise, comparisons, blends, masked and plain copies, element writes, shuffles, reductions) leaves the same contents in the same lanes whether run with scalar, packed, fixed-size, 16- or 32-byte aligned ABIs and on any supported instruction set. No operation has an effect on values it is not given, however the operations are interleaved.",
 ["programs","histories","configurations"],"all straight-line programs over live vectors, masks and memory, "+CFG,
 NOT+"each test performs a single function on fresh values; interactions through masks, padding and aliasing are never composed.",
 [G,XT,"dpm/detail/alias.hpp","dpm/detail/x86/transform.hpp"],[("all operator overloads","generic/type.hpp and x86/type.hpp")],["final and intermediate contents of every vector, mask and memory cell"],LANES)
prop("C22","ABI selection and the size, alignment and type traits are consistent",
 "For every element type and size, the vector type selected by compatible, native, fixed_size, deduce, common, rebind and resize has exactly the requested number of elements, storage large enough for them, the promised alignment, and size/alignment traits that agree with the actual types; vectors and masks are recognised by the type traits and nothing else is. deduce returns the hinted ABI whenever it fits and common returns the widest, most aligned of its arguments.",
 ["configurations"],"all element types, sizes 1..32 and alignments 0, 16, 32, all combinations of ABI tags, every instruction-set configuration",
 NOT+"traits are never asserted.",
 ["dpm/traits.hpp","dpm/detail/generic/abi.hpp","dpm/detail/x86/abi.hpp","dpm/abi.hpp",G,XT],[("ABI selection concepts","x86/abi.hpp, generic/abi.hpp"),("size and alignment traits","traits.hpp")],["compile-time trait values"])
prop("C23","Constant evaluation gives the same lanes as execution at run time",
 "Any expression over vectors and masks that a program evaluates at compile time (construction, element access, arithmetic, bitwise, shifts, comparisons, mask operators and reductions, blends, min/max, shuffles, horizontal reductions) yields the same lanes as the same expression evaluated at run time.",
 ["programs","configurations"],"all constant expressions over the portable ABIs (and, where the native ABIs accept constant evaluation, those)",
 "Tests never use a vector in a constant expression.",
 [G,XT],[("is_constant_evaluated branches","x86/type.hpp, generic/type.hpp")],["lanes obtained in constant expressions against the same at run time"],LANES)
prop("C24","Operations respect and preserve the floating-point environment",
 "No vector operation changes the rounding mode, the exception masks or the flush modes, and none clears an exception flag that was raised before it, whatever its arguments and whatever mode is in force. Correctly rounded operations (+, -, *, /, sqrt, fused multiply-add, conversions to floating types, scalbn, rint/nearbyint/lrint) round in the direction in force; exact functions and those with a rounding of their own (fmod, remainder, ceil, floor, trunc, round, lround, truncating conversions, comparisons, classification, nextafter, frexp, modf, logb, masks) do not depend on it; functions documented to leave the exception flags alone (quiet comparisons, nearbyint) raise none and those documented to report (rint, lrint) report an inexact result; elementary functions keep their special values (up to the sign of zero) and stay accurate in every mode.",
 ["inputs","configurations","histories"],"all functions, arguments, lanes, rounding modes and prior flag states, "+CFG,
 "Tests run in the default environment and never look at it.",
 [GM,XT,"dpm/detail/x86/except.hpp","dpm/detail/x86/round.hpp","dpm/detail/x86/exp.hpp","dpm/detail/x86/cvt.hpp"],[("rounding-mode dependent kernels","x86/round.hpp"),("pole and domain results","x86/except.hpp"),("integer to floating conversions","x86/cvt.hpp")],["MXCSR/x87 control bits and raised flags after each call","lanes computed under each rounding mode"],LANES)
prop("C25","CPU feature report matches the processor",
 "On every processor the feature queries report a capability exactly when the identification leaf that exists for it reports it and, for the SSE, AVX and AVX-512 families, the operating system has enabled the registers it needs (XCR0 where XGETBV is available; otherwise no AVX, and SSE as the operating system lists it). The vendor queries compare the whole vendor string. Detection executes nothing the processor lacks and relies on no leaf or subleaf that does not exist.",
 ["configurations"],"all processors: leaf contents, numbers of leaves, XCR0 values, operating system reports","Depends on the machine's identification registers; the tests run on one machine.",
 ["dpm/detail/x86/cpuid.cpp","dpm/detail/x86/cpuid.hpp"],[("cpuid decoding","x86/cpuid.cpp")],["feature query results"])
prop("C26","Switching the library options off only leaves open what they say",
 "With DPM_HANDLE_ERRORS off, every mathematical function still gives the specified and accurate results for finite arguments within its domain whose result is in range, in every lane, whatever erroneous arguments stand in other lanes, and with DPM_PROPAGATE_NAN on NaN arguments still give NaN (or the result specified for them). With neither option the same holds for arguments that are not NaN. DPM_HANDLE_ERRORS implies DPM_PROPAGATE_NAN. With DPM_INLINE_EXTENSIONS off every extension is available from dpm::ext and dpm::simd_abi::ext and works the same.",
 ["inputs","configurations"],"all functions, arguments, lanes and combinations of options, "+CFG,
 "Tests are built with one combination of options only.",
 [GM,"dpm/detail/config.hpp","dpm/detail/x86/exp.hpp","dpm/detail/x86/sincos.cpp","dpm/detail/x86/scalbn.cpp","dpm/detail/x86/logb.cpp","dpm/detail/x86/log1p.cpp","dpm/detail/x86/hypot.cpp","dpm/detail/x86/modf.cpp"],
 [("option-guarded paths","x86/*.cpp, x86/exp.hpp"),("option implications","config.hpp")],["lanes computed by the library built under each combination of options"],LANES)
prop("C27","Mathematical functions of integral or mixed arguments promote them",
 "A mathematical function called with integral vectors, with vectors of different element types, or with a vector and a scalar computes in every lane what the function of double computes for the arguments converted to double (functions of two or three integral vectors of one and the same type excepted where the standard promises nothing), and returns vectors of the promoted type with the same number of lanes; output parameters receive the promoted values.",
 ["inputs","configurations"],"all functions with promoting overloads, all pairs of element types, all lane values, "+CFG,
 "Tests call each function with arguments of its own element type only.",
 [GM],[("promoting overloads","generic/math.hpp")],["lanes and type of the result"],LANES)
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p,s)
    print(len(P),'properties valid')
except ImportError: print(len(P))
