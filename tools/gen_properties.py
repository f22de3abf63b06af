#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording stays in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
CART="src/complex/cartesian_impl.rs"; POL="src/complex/polar_impl.rs"; OPS="src/complex/ops.rs"
FIX="src/fixed_impl.rs"; FLT="src/float_impl.rs"; F32="src/float_impl/f32_impl.rs"; F64="src/float_impl/f64_impl.rs"
INT="src/int_impl.rs"; TRI="src/trigonometry.rs"; ATAN="src/trigonometry/atan.rs"; SQRT="src/trigonometry/sqrt.rs"
FMT="src/complex/cartesian_impl/num_complex_impl.rs"; TR="src/traits.rs"; MT="src/traits/math_traits.rs"; CT="src/traits/complex_traits.rs"; CX="src/complex.rs"

prop("C01","Complex addition and subtraction act componentwise in every operand form",
 "Adding (subtracting) two Cartesian complex numbers adds (subtracts) the real parts and, independently, the imaginary parts; adding or subtracting a real scalar changes the real part by that scalar, converted once to the component type, and leaves the imaginary part as it was. This holds for owned, shared-reference and mutable-reference right-hand sides, for num::Complex right-hand sides, and for the free-function forms. A compound assignment leaves exactly the value the corresponding binary operator returns and changes nothing but its left operand.",
 ["inputs","programs"],"all component values and component types, all operand forms the crate offers",
 "The doc-tests add and subtract one f32 complex and an f64 scalar; no test uses a complex right-hand side, a reference, num::Complex or a compound assignment with a complex operand, and no test can cover all component types.",
 [CART,OPS],[("operator impls generated by impl_core_ops_add_sub_for_cartesian",CART),("add, sub",OPS)],["return value of + - and the left operand after += -="])
prop("C02","Complex multiplication is the complex product in every operand form",
 "The product of Cartesian numbers a+bi and c+di is (ac-bd)+(ad+bc)i for owned, shared-reference and mutable-reference right-hand sides and for the free-function form; a polar right-hand side is multiplied as the Cartesian number it denotes, and a real scalar (converted once to the component type) scales both components. A compound assignment leaves exactly the value the binary operator returns and changes nothing but its left operand.",
 ["inputs","programs"],"all component values and component types, all operand forms the crate offers",
 "Tests square one f32 number and scale by 2; cross terms with distinct operands, references, polar operands and *= are never exercised.",
 [CART,OPS],[("Mul / MulAssign impls",CART),("mul_cartesian",OPS)],["return value of *, left operand after *="])
prop("C03","Complex division is the complex quotient in every operand form",
 "Dividing Cartesian a+bi by c+di gives ((ac+bd)+(bc-ad)i)/(c^2+d^2), using both parts of the divisor, for owned and reference right-hand sides, num::Complex right-hand sides, the free-function form and the compound assignment. Dividing by a non-zero real scalar divides each component by that scalar converted to the component type, in the operator, assignment and free-function forms.",
 ["inputs","programs"],"all dividends, all non-zero divisors, all component types, all operand forms",
 "Tests divide one f32 complex by the scalar 2; no test divides by a complex number at all.",
 [CART,OPS],[("Div / DivAssign impls",CART),("div_cartesian, div_scalar_cartesian",OPS)],["return value of /, left operand after /="])
prop("C04","Division by a zero scalar saturates instead of dividing",
 "Dividing a complex number by a zero real scalar yields the component type's maximum value in both components of a Cartesian number, and in the magnitude of a polar number whose angle is kept. The operator, compound-assignment and free-function forms agree on this, and none of them performs the division, so no numeric type panics.",
 ["inputs","programs"],"all dividends of every component type, every scalar type that compares equal to its zero (including negative zero)",
 "No test divides by zero; the guard has to dominate the division on every path and for every type.",
 [CART,POL,OPS],[("zero guards in the scalar Div / DivAssign impls",CART),("zero guard in Polar / scalar",POL),("div_scalar_cartesian",OPS)])
prop("C05","Polar products multiply magnitudes and add angles",
 "The product of two polar numbers has the product of the magnitudes and the sum of the angles, except that it is exactly zero magnitude at zero angle when either magnitude is zero; a Cartesian right-hand side is first converted to polar form. Multiplying or dividing a polar number by a (non-zero) real scalar multiplies or divides the magnitude and keeps the angle.",
 ["inputs","programs"],"all magnitudes, angles and component types",
 "No test multiplies or divides a polar number.",
 [POL,OPS],[("Mul / Div impls on Polar",POL),("mul_polar",OPS)])
prop("C06","Cartesian and polar forms convert into each other geometrically",
 "Converting Cartesian to polar gives magnitude sqrt(re^2+im^2) and the four-quadrant angle of (im over re); converting polar to Cartesian gives magnitude times cosine and magnitude times sine of the angle. Every route (methods, free functions, constructors from the other form's coordinates) gives the same result, and converting a number to the form it already has returns it unchanged.",
 ["inputs","programs"],"all component values, all quadrants, all angles including those outside one turn, all component types",
 "Tests convert a handful of f32 points in the first quadrant.",
 [OPS,CART,POL,CT],[("to_polar, to_cartesian",OPS),("ToPolar, ToCartesian, NewFromPolar, NewFromCartesian impls",CART+" "+POL)])
prop("C07","Magnitude and argument accessors agree with each other and with the geometry",
 "For a Cartesian number every magnitude accessor (mag, abs, and the free function) returns sqrt(re^2+im^2) and every argument accessor (arg, ang) returns the four-quadrant angle of (im, re); for a polar number they return the stored magnitude and the stored angle. The generic absolute value of a complex number is that magnitude as a purely real complex number (zero imaginary part, or zero angle).",
 ["inputs","programs"],"all component values and component types",
 "Tests check three f32 points.",
 [CART,POL,OPS],[("Mag, Arg, MixedAbs impls",CART+" "+POL),("abs",OPS)])
prop("C08","Conjugation negates exactly the imaginary part or the angle",
 "Conjugating a Cartesian number keeps the real part and negates the imaginary part; conjugating a polar number keeps the magnitude and negates the angle. When the requested result form differs from the operand's form, the result is the conversion of that same conjugate.",
 ["inputs","programs"],"all component values, component types and result forms",
 "One f32 doc-test per form, same-form results only.",
 [CART,POL],[("Conj impls",CART+" "+POL)])
prop("C09","Complex constructors, neutral elements and real embedding store what they say",
 "A complex number constructed from its own coordinates holds exactly those coordinates in that order; the zero element has both coordinates zero, the unit element is the real number one with zero imaginary part or zero angle. Embedding a real number into a complex form gives that number as real part (or magnitude) and zero as the other coordinate.",
 ["inputs","programs"],"all component values and component types",
 "Tests never call the complex zero, one or embedding functions.",
 [CART,POL],[("new, new_from_cartesian, new_from_polar, MixedZero, MixedOne, MixedComplexConversion",CART+" "+POL)])
prop("C10","Complex exponential and integer power follow Euler and de Moivre",
 "The exponential of x+iy is e^x times (cos y + i sin y). Raising a Cartesian number to an integer power n gives the number with magnitude |z|^n at n times its four-quadrant angle.",
 ["inputs"],"all component values, all exponents, all component types the functions accept",
 "The complex exponential is covered by no passing test at this commit; the integer power by a single fixed-point square.",
 [CART,OPS],[("MixedExp for Cartesian",CART),("powi",OPS)])
prop("C11","Numeric conversions are single direct value conversions for every type pair",
 "Converting between any two supported real numeric types, in either direction, gives exactly the result of the direct conversion between those two types (Rust 'as' for primitives, the fixed crate's checked conversion where a fixed-point type is involved), with no intermediate type and no arithmetic on the value. Converting from a Cartesian complex number to a real type uses its real part (from a polar one, its magnitude); converting a real number to a complex one gives a zero imaginary part or angle; complex-to-complex conversion converts each component on its own.",
 ["inputs","programs"],"all values of all ordered pairs of supported numeric types (several thousand conversion functions)",
 "The doc-tests run one value for each float pair only; none covers integer or fixed-point pairs, large values or signs.",
 [FIX,FLT,INT,CART,POL],[("MixedNumConversion impls",FIX+" "+FLT+" "+INT+" "+CART+" "+POL)])
prop("C12","Float elementary functions are the right function at the type's own precision",
 "On f32 and f64 each elementary function (sin, cos, tan, their inverses and hyperbolic forms, atan2, sqrt, cbrt, ceil, floor, exp, exp2, exp10, pow, log, log2, log10) equals the no-std math library's function of that name, at the operand's own precision, applied to the unmodified operand(s) in the documented order. The combined sine-cosine returns the sine first and the cosine second, and f32 and f64 agree on which function each method is.",
 ["inputs"],"all argument values of both float types, all methods",
 "Only atan, log10, exp10 and sincos on single f32 values are reached by tests; f64 methods are hardly called.",
 [F32,F64],[("Mixed* impls",F32+" "+F64)])
prop("C13","Fixed-point elementary functions are the right function on every supported type",
 "On every supported signed fixed-point type the sine, cosine, combined sine-cosine (sine first), arcsine, arccosine, arctangent, four-quadrant arctangent (y first) and exponential equal the cordic library's function of that name applied to the unmodified operand(s), the polynomial arctangent and the phase wrap are the library's own generic ones, and the square root on every supported fixed-point type is the library's NIIR-filter root with two iterations. No supported type deviates from the others.",
 ["inputs","programs"],"all argument values of all 224 supported fixed-point types",
 "Tests instantiate fewer than ten of the 224 types and a few methods each.",
 [FIX],[("impl_mixed_num_for_fixed* macros and their instantiations",FIX)])
prop("C14","Phase wrapping returns the equivalent angle in [-pi, pi) and always terminates",
 "For every finite angle the wrapped phase lies in the half-open range from -pi (included) to pi (excluded) and differs from the input by an integer multiple of 2*pi; an angle already in the range is returned unchanged. It finishes in a bounded number of steps whatever the size of the angle, and never leaves the range on any supported type.",
 ["inputs"],"all finite angles of all float and signed fixed-point types, however large",
 "One angle (6 rad) on one type is tested; range, congruence and termination are for-all statements.",
 [TRI,FIX,FLT],[("wrap_phase",TRI),("MixedWrapPhase impls",FIX+" "+FLT)])
prop("C15","Integer powers are repeated products for every exponent",
 "Raising a real number to a non-negative integer power n gives the product of n copies of the base, with the zeroth power equal to one, for the generic function and for the method on every supported float, fixed-point and integer type. A negative exponent gives the reciprocal of the corresponding positive power and likewise takes a number of steps proportional to the exponent's size.",
 ["inputs","programs"],"all bases, all exponents, all supported types",
 "One square is tested; exponents 0, 1, large and negative and most types are not.",
 [TRI,FIX,FLT,INT],[("powi",TRI),("MixedPowi impls",FIX+" "+FLT+" "+INT)])
prop("C16","The NIIR-filter square root meets its accuracy and terminates for every input",
 "In real arithmetic, with two iterations, the NIIR-filter square root of every non-zero x is the square root of |x| with a relative error below 0.001 (each further iteration does not increase the bound), and the root of zero is exactly zero. The range normalisation is undone exactly, whatever the magnitude of x, and the computation terminates for every input, infinity included.",
 ["inputs"],"all x of all magnitudes, both branches of the normalisation, all twelve acceleration-factor regions",
 "Three values are tested, all near one; a wrong table entry, region bound or normalisation step elsewhere stays invisible.",
 [SQRT,FIX,F32,F64],[("niirf and its acceleration-factor lookup",SQRT),("MixedSqrt impls",FIX+" "+F32+" "+F64)])
prop("C17","Polynomial sine and cosine stay within their error bound",
 "In real arithmetic the polynomial sine differs from the true sine by less than 4e-6 for every angle in [-pi, pi], and the polynomial cosine differs from the true cosine by less than 4e-6 for every angle.",
 ["inputs"],"all angles in [-pi, pi] (sine), all angles (cosine)",
 "The doc-tests pin three sine and two cosine values on f32; the plot test asserts nothing.",
 [TRI],[("sin, cos",TRI)])
prop("C18","Polynomial four-quadrant arctangent is right in every octant",
 "In real arithmetic the polynomial atan2(y, x) differs from the true four-quadrant angle by less than 0.3 degrees for every direction, and is exactly 0, pi, pi/2 or -pi/2 on the axes (0 at the origin). The polynomial atan(x) is atan2(x, 1).",
 ["inputs"],"all (y, x), all eight octants and the four half-axes",
 "Only first-octant, second-octant and y = 0 points are tested: six of the eight octants and two half-axes never run.",
 [ATAN,FIX,F32,F64],[("atan2, atan",ATAN),("mixed_atan2_poly impls",FIX+" "+F32+" "+F64)])
prop("C19","Sign, absolute value and extreme values are consistent on every type",
 "On every supported real type the sign is -1 for negative values and +1 otherwise (zero included), the absolute value is the value itself or its negation, whichever is not negative, and the positive/negative predicates match the sign for every non-zero value and are never both true; unsigned types are never negative. The maximum and minimum values are the type's own largest and smallest (most negative) finite values.",
 ["inputs","programs"],"all values of all supported real types",
 "sign is tested at two values of one type; nothing tests the predicates, the absolute value or the extremes.",
 [TRI,FIX,FLT,INT],[("sign",TRI),("MixedReal, MixedAbs impls",FIX+" "+FLT+" "+INT)])
prop("C20","Decibel conversions are the exact inverse pairs they are named for",
 "On both float types magnitude-to-decibel is 20*log10(x) and power-to-decibel is 10*log10(x), and decibel-to-magnitude and decibel-to-power are 10 to the power x/20 and x/10, so that each pair inverts the other.",
 ["inputs"],"all argument values of both float types",
 "Four f32 values are tested, f64 none.",
 [FLT],[("DbMag, DbPow impls",FLT)])
prop("C21","Pi, tau, zero and one are right on every supported type",
 "On every supported type that offers them, zero is 0, one is 1, pi is the circle constant and tau is twice pi, each within half a unit of the type's resolution or double-precision rounding, whichever is coarser.",
 ["programs","configurations"],"all supported numeric types (226 with pi and tau, 238 with zero and one)",
 "Tests read f32 pi only.",
 [FIX,FLT,INT],[("MixedPi, MixedZero, MixedOne impls",FIX+" "+FLT+" "+INT)])
prop("C22","Complex numbers print both parts with the right signs, digits and radix prefix",
 "Formatting a Cartesian number in any numeric format (decimal, exponent, hexadecimal, octal, binary) writes the real part and then the imaginary part followed by 'i', each as the absolute value in that format with the requested precision and, in alternate form, the radix prefix; the imaginary part always carries '+' or '-', the real part '-' when negative and '+' when a sign is requested; a zero of either sign is written without a '-' of its own. With the std feature a requested width right-aligns the whole text, and without it width is ignored. A polar number prints as magnitude, the angle sign character, angle; every formatter error is propagated.",
 ["inputs","programs","configurations"],"all component values and types, all format traits and format flags, with and without the std feature",
 "Doc-tests format a few f32 values in three of the seven formats, with no precision, sign or alternate flag; radix formats are never run.",
 [FMT,POL],[("write_complex and the fmt impls",FMT),("Display for Polar",POL)])
prop("C23","Every supported numeric type keeps its full set of generic capabilities",
 "Generic code written against the library's traits compiles for every supported type of the kind it needs: f32 and f64, every signed and unsigned primitive integer, and every signed and unsigned fixed-point type of 8 to 64 bits with at least three (signed: sign bit included) integer bits, each with the same trait set as the other types of its kind, and both complex forms over them. Unsigned types are not usable where a signed type is required.",
 ["programs"],"all generic programs over the trait set, all supported types",
 "Tests instantiate a handful of types; a missing or over-constrained implementation for one type only shows when a user program names it.",
 [FIX,FLT,F32,F64,INT,CART,POL,TR,MT,CT],[("trait impls and macro instantiations","src/")])
prop("C24","The library is pure, no-std and free of deliberate panics",
 "Every operation is a pure function of its arguments: it reads and writes no global state, performs no I/O and allocates nothing in the default (no-std) configuration, contains no unsafe code, and changes no operand other than the left side of a compound assignment (or the formatter being written to). Apart from arithmetic the operand type itself rejects (overflow, division by zero), no operation panics or fails to terminate.",
 ["inputs","programs","histories","configurations"],"all operations, all call histories, both feature configurations",
 "Purity, operand preservation and termination are for-all statements over code paths; tests sample a few results.",
 ["src/lib.rs",CART,POL,OPS,FIX,FLT,INT,TRI,ATAN,SQRT,FMT],[("whole crate","src/")])
prop("C25","Generic algorithms only use constants every supported type can represent",
 "For every supported fixed-point type, each constant that a library algorithm available on that type materialises in that type (literals, and constant expressions built from them and pi) lies within the type's range, so that no algorithm overflows independently of its argument. (Whether the pi and tau accessors themselves fit is C21's subject.)",
 ["programs","inputs"],"all library algorithms at all 224 fixed-point types they can be instantiated with",
 "Tests instantiate four fixed-point types; an out-of-range constant panics (debug) or wraps (release) only on the narrow types nobody tested.",
 [TRI,ATAN,SQRT,FIX],[("T::mixed_from_num(constant) sites",TRI+" "+ATAN+" "+SQRT),("from_num(constant) sites",FIX)])
prop("C26","Complex values are plain ordered pairs: equality, ordering, default, layout",
 "Two complex values of the same form are equal exactly when both coordinates are equal, compare lexicographically (real part or magnitude first), and copy and clone unchanged; the default value has default coordinates. Both forms have the C layout of two consecutive coordinates (real then imaginary, magnitude then angle), so that they can be passed to foreign code.",
 ["inputs","programs"],"all pairs of values, all component types",
 "Tests compare one pair; ordering, default, cloning and layout are untested.",
 [CX],[("derives and repr on Cartesian and Polar",CX)])
prop("C27","Cartesian to polar and back is accurate to a few units in the last place",
 "Converting a Cartesian number to polar form and back returns each component within a small multiple of the component type's resolution, for every representable input.",
 ["inputs"],"all component values of all component types",
 "One f32 point is tested.",
 [OPS],[("to_polar, to_cartesian",OPS)])
prop("C28","Fixed-point elementary functions are accurate over the whole input range",
 "On every supported fixed-point type, sine, cosine, arctangent, exponential and square root differ from the real function by no more than a few units of the type's resolution wherever the result is representable.",
 ["inputs"],"all bit patterns of all 224 fixed-point types",
 "A few points on four types are tested.",
 [FIX],[("calls into the cordic crate",FIX)])
prop("C29","No intermediate result overflows when the final result is representable",
 "No operation on fixed-point or integer operands overflows in an intermediate step when its mathematical result is representable in the operand type.",
 ["inputs"],"all operand values of all fixed-point and integer types",
 "Tests stay near one.",
 [OPS,TRI,ATAN,SQRT],[("generic arithmetic",OPS+" "+TRI)])
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
