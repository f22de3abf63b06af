"""Per-property descriptions used by MANIFEST.json and the evidence files."""
AI = "abstract interpretation of MIR (gated value numbering over guarded rational normal forms)"
REAL = ("Formulas are compared in real arithmetic (exact rationals over uninterpreted atoms); rounding, and overflow other than where stated, are outside the claim. "
        "Trusted: rustc's MIR and trait resolution, the transfer functions for core/num/fixed/cordic/libm primitives in engine/.")
TECH, RULE, NOTE = {}, {}, {}


def m(pid, tech, rule, note=REAL):
    TECH[pid], RULE[pid], NOTE[pid] = tech, rule, note


m("C01", AI, "every +,-,+=,-= impl and add/sub method/free function of every operand form returns the componentwise normal form; operands unchanged")
m("C02", AI, "every *,*= impl/method of every operand form returns the complex product normal form; operands unchanged")
m("C03", AI, "every /,/= impl/method of every operand form returns the complex quotient normal form in every cell of the zero tests, also with divisions as rounded quotients and with NaN coordinates; operands unchanged")
m("C04", AI + "; no-division rule on the zero cell", "in the cell 'scalar divisor = 0' the result is the component type's maximum per component and no division by the divisor is reached")
m("C05", AI, "polar products/quotients: magnitude product/quotient, angle sum/difference modulo wrapping; also with divisions as rounded quotients and with NaN coordinates")
m("C06", AI, "conversions between forms equal sqrt(re^2+im^2), atan2(im,re), (mag cos, mag sin) and dispatch to the type's own functions")
m("C07", AI, "every magnitude/argument accessor equals the geometric normal form and agrees with its siblings")
m("C08", AI, "conjugation keeps re/mag and negates im/ang")
m("C09", AI, "constructors, zero/one, is_zero/is_one, embeddings store exactly their arguments")
m("C10", AI, "exp(x+iy)=e^x(cos y+i sin y); powi = magnitude^n, n*angle")
m("C11", AI + " with a single-conversion dispatch rule per type pair", "every conversion impl performs exactly one value conversion src->dst, with no arithmetic")
m("C12", "callee-resolution (dispatch) rule over MIR value graphs", "each float elementary function is exactly the std/libm function of its name at the type's own precision on its own argument, NaN and infinities included")
m("C13", "callee-resolution (dispatch) rule over MIR value graphs", "each fixed-point elementary function is the cordic function of its name, or a formula equal to it, on each type")
m("C14", AI + "; affine congruence and Fourier-Motzkin range bounds", "wrap_phase: result - x = k*2*pi (k integer), result in [-pi,pi), identity in range, no unbounded loop, no intermediate leaves the type's range on any signed fixed-point type; every mixed_wrap_phase dispatches to it")
m("C15", AI + "; loop summarisation by affine induction", "powi / mixed_powi: x^n for every symbolic n, reciprocal for negative exponents, trip count affine in |n|, i32::MIN safe")
m("C16", AI + " for the loops' geometric relation; interval evaluation of the extracted rational iteration", "niirf: normalised mantissa in [1/4,1], result = root(mantissa)*2^K with the same K, relative error < 1e-3 by interval subdivision; terminates on every cell including NaN and infinities")
m("C17", "value-graph extraction of the polynomial + interval/Taylor enclosure", "sin_poly - sin bounded by 4e-6 on [-pi,pi] by subdivision of the extracted polynomial; cos_poly = sin_poly(wrap(x+pi/2))")
m("C18", "value-graph extraction + homogeneity + interval enclosure", "atan2 polynomial within 0.3 degrees of atan2 in all octants, exact on the axes; atan(x)=atan2(x,1)")
m("C19", AI, "sign/abs/min/max/is_positive/is_negative consistency on each type")
m("C20", AI, "decibel conversions equal their closed forms in both directions")
m("C21", "constant propagation with range check per type", "zero, one, pi, tau constants equal the real constants within the type's resolution and lie in its range")
m("C22", AI + " with an output-log domain for the formatter", "the sequence of formatter writes equals the specification in every cell of sign/flags; every error is propagated")
m("C23", "impl-table completeness query over the type-checked crate + compile witnesses", "every supported type has the trait set of its kind; unsigned types lack the signed traits")
m("C24", "effect analysis over the MIR call graph (who-may-call, no-write, loop-bound rules)", "no statics, unsafe, raw pointers, allocation, IO, panic calls; only &mut self/formatter is written; every loop bounded")
m("C25", "constant-obligation analysis: each constant's guard intersected with each type's range", "every constant materialised in a fixed type lies in the type's range wherever its guard is feasible")
m("C26", AI + " of the derived impls; ADT layout query", "derived equality/order/clone/default semantics and repr(C) field order of both forms")
NA = {
 "C27": "The property bounds accumulated floating-point rounding of libm sqrt/atan2/sin/cos at run time; no sound static argument over this source bounds libm's and cordic's own rounding (their code is outside /repo). The formula itself is decided by C06/C07.",
 "C28": "The property bounds the numerical error of the external cordic crate's iterations over all bit patterns: a numerical result of code outside /repo. The dispatch to the right function is decided by C13.",
 "C29": "The property quantifies over the run-time magnitudes of operands of every operation (e.g. re*re+im*im inherently exceeds a type whose range holds the result); the constants' part is decided by C25, wrap_phase's by C14.",
}
