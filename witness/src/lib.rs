//! Compile witnesses of C23: each line compiles exactly when the named capability is offered.
#![no_std]
#![allow(dead_code, unused_imports, non_snake_case, non_local_definitions)]
use mixed_num::{Cartesian, Polar};
fn need_Add2o<S: core::ops::Add<A0, Output = O>, A0, O>() {}
fn need_AddAssign2<S: core::ops::AddAssign<A0>, A0>() {}
fn need_Arg2<S: mixed_num::Arg<A0>, A0>() {}
fn need_Binary1<S: core::fmt::Binary>() {}
fn need_Clone1<S: core::clone::Clone>() {}
fn need_Conj2<S: mixed_num::Conj<A0>, A0>() {}
fn need_Copy1<S: core::marker::Copy>() {}
fn need_Debug1<S: core::fmt::Debug>() {}
fn need_Default1<S: core::default::Default>() {}
fn need_Display1<S: core::fmt::Display>() {}
fn need_Div2o<S: core::ops::Div<A0, Output = O>, A0, O>() {}
fn need_DivAssign2<S: core::ops::DivAssign<A0>, A0>() {}
fn need_Eq1<S: core::cmp::Eq>() {}
fn need_LowerExp1<S: core::fmt::LowerExp>() {}
fn need_LowerHex1<S: core::fmt::LowerHex>() {}
fn need_Mag2<S: mixed_num::Mag<A0>, A0>() {}
fn need_MixedAbs1<S: mixed_num::MixedAbs>() {}
fn need_MixedAtan1<S: mixed_num::MixedAtan>() {}
fn need_MixedComplex1<S: mixed_num::MixedComplex>() {}
fn need_MixedComplexConversion2<S: mixed_num::MixedComplexConversion<A0>, A0>() {}
fn need_MixedCos1<S: mixed_num::MixedCos>() {}
fn need_MixedExp1<S: mixed_num::MixedExp>() {}
fn need_MixedNum1<S: mixed_num::MixedNum>() {}
fn need_MixedNumConversion2<S: mixed_num::MixedNumConversion<A0>, A0>() {}
fn need_MixedOne1<S: mixed_num::MixedOne>() {}
fn need_MixedPi1<S: mixed_num::MixedPi>() {}
fn need_MixedSin1<S: mixed_num::MixedSin>() {}
fn need_MixedZero1<S: mixed_num::MixedZero>() {}
fn need_Mul2o<S: core::ops::Mul<A0, Output = O>, A0, O>() {}
fn need_MulAssign2<S: core::ops::MulAssign<A0>, A0>() {}
fn need_Neg1o<S: core::ops::Neg<Output = O>, O>() {}
fn need_NewFromCartesian2<S: mixed_num::NewFromCartesian<A0>, A0>() {}
fn need_NewFromPolar2<S: mixed_num::NewFromPolar<A0>, A0>() {}
fn need_Octal1<S: core::fmt::Octal>() {}
fn need_PartialEq1<S: core::cmp::PartialEq>() {}
fn need_PartialOrd1<S: core::cmp::PartialOrd>() {}
fn need_Rem2o<S: core::ops::Rem<A0, Output = O>, A0, O>() {}
fn need_Sub2o<S: core::ops::Sub<A0, Output = O>, A0, O>() {}
fn need_SubAssign2<S: core::ops::SubAssign<A0>, A0>() {}
fn need_ToCartesian2<S: mixed_num::ToCartesian<A0>, A0>() {}
fn need_ToPolar2<S: mixed_num::ToPolar<A0>, A0>() {}
fn need_UpperExp1<S: core::fmt::UpperExp>() {}
fn need_UpperHex1<S: core::fmt::UpperHex>() {}
fn s0<S: mixed_num::MixedOps>() { need_MixedNumConversion2::<S, i32>(); need_MixedNumConversion2::<S, i64>(); need_MixedNumConversion2::<S, f32>(); need_MixedNumConversion2::<S, f64>(); need_PartialOrd1::<S>(); need_AddAssign2::<S, S>(); need_SubAssign2::<S, S>(); need_MulAssign2::<S, S>(); need_Add2o::<S, S, S>(); need_Sub2o::<S, S, S>(); need_Mul2o::<S, S, S>(); need_Div2o::<S, S, S>(); need_Rem2o::<S, S, S>(); need_Copy1::<S>(); } // @ supertraits of MixedOps
fn s1<S: mixed_num::MixedAbs>() { let _: fn(&S) -> S = <S as mixed_num::MixedAbs>::mixed_abs; } // @ method MixedAbs::mixed_abs
fn s2<S: mixed_num::MixedPowi>() { let _: fn(&S, i32) -> S = <S as mixed_num::MixedPowi>::mixed_powi; } // @ method MixedPowi::mixed_powi
fn s3<S: mixed_num::MixedWrapPhase>() { let _: fn(&S) -> S = <S as mixed_num::MixedWrapPhase>::mixed_wrap_phase; } // @ method MixedWrapPhase::mixed_wrap_phase
fn s4<S: mixed_num::MixedTan>() { let _: fn(&S) -> S = <S as mixed_num::MixedTan>::mixed_tan; } // @ method MixedTan::mixed_tan
fn s5<S: mixed_num::MixedTanh>() { let _: fn(&S) -> S = <S as mixed_num::MixedTanh>::mixed_tanh; } // @ method MixedTanh::mixed_tanh
fn s6<S: mixed_num::MixedTanh>() { let _: fn(&S) -> S = <S as mixed_num::MixedTanh>::mixed_atanh; } // @ method MixedTanh::mixed_atanh
fn s7<S: mixed_num::MixedAtan>() { let _: fn(&S) -> S = <S as mixed_num::MixedAtan>::mixed_atan; } // @ method MixedAtan::mixed_atan
fn s8<S: mixed_num::MixedAtan>() { let _: fn(&S, S) -> S = <S as mixed_num::MixedAtan>::mixed_atan2; } // @ method MixedAtan::mixed_atan2
fn s9<S: mixed_num::MixedAtan>() { let _: fn(&S, S) -> S = <S as mixed_num::MixedAtan>::mixed_atan2_poly; } // @ method MixedAtan::mixed_atan2_poly
fn s10<S: mixed_num::MixedSin>() { let _: fn(&S) -> S = <S as mixed_num::MixedSin>::mixed_sin; } // @ method MixedSin::mixed_sin
fn s11<S: mixed_num::MixedSin>() { let _: fn(&S) -> (S, S) = <S as mixed_num::MixedSin>::mixed_sincos; } // @ method MixedSin::mixed_sincos
fn s12<S: mixed_num::MixedSin>() { let _: fn(&S) -> S = <S as mixed_num::MixedSin>::mixed_asin; } // @ method MixedSin::mixed_asin
fn s13<S: mixed_num::MixedSinh>() { let _: fn(&S) -> S = <S as mixed_num::MixedSinh>::mixed_sinh; } // @ method MixedSinh::mixed_sinh
fn s14<S: mixed_num::MixedSinh>() { let _: fn(&S) -> S = <S as mixed_num::MixedSinh>::mixed_asinh; } // @ method MixedSinh::mixed_asinh
fn s15<S: mixed_num::MixedCos>() { let _: fn(&S) -> S = <S as mixed_num::MixedCos>::mixed_cos; } // @ method MixedCos::mixed_cos
fn s16<S: mixed_num::MixedCos>() { let _: fn(&S) -> S = <S as mixed_num::MixedCos>::mixed_acos; } // @ method MixedCos::mixed_acos
fn s17<S: mixed_num::MixedCosh>() { let _: fn(&S) -> S = <S as mixed_num::MixedCosh>::mixed_cosh; } // @ method MixedCosh::mixed_cosh
fn s18<S: mixed_num::MixedCosh>() { let _: fn(&S) -> S = <S as mixed_num::MixedCosh>::mixed_acosh; } // @ method MixedCosh::mixed_acosh
fn s19<S: mixed_num::MixedTrigonometry>() { need_MixedSin1::<S>(); need_MixedCos1::<S>(); need_MixedAtan1::<S>(); } // @ supertraits of MixedTrigonometry
fn s20<S: mixed_num::MixedExp>() { let _: fn(&S) -> S = <S as mixed_num::MixedExp>::mixed_exp; } // @ method MixedExp::mixed_exp
fn s21<S: mixed_num::MixedSqrt>() { let _: fn(&S) -> S = <S as mixed_num::MixedSqrt>::mixed_sqrt; } // @ method MixedSqrt::mixed_sqrt
fn s22<S: mixed_num::MixedSqrt>() { let _: fn(&S) -> S = <S as mixed_num::MixedSqrt>::mixed_niirf; } // @ method MixedSqrt::mixed_niirf
fn s23<S: mixed_num::MixedCbrt>() { let _: fn(&S) -> S = <S as mixed_num::MixedCbrt>::mixed_cbrt; } // @ method MixedCbrt::mixed_cbrt
fn s24<S: mixed_num::MixedExp10>() { let _: fn(&S) -> S = <S as mixed_num::MixedExp10>::mixed_exp10; } // @ method MixedExp10::mixed_exp10
fn s25<S: mixed_num::MixedExp2>() { let _: fn(&S) -> S = <S as mixed_num::MixedExp2>::mixed_exp2; } // @ method MixedExp2::mixed_exp2
fn s26<S: mixed_num::MixedPow>() { let _: fn(&S, S) -> S = <S as mixed_num::MixedPow>::mixed_pow; } // @ method MixedPow::mixed_pow
fn s27<S: mixed_num::Mixedlog>() { let _: fn(&S) -> S = <S as mixed_num::Mixedlog>::mixed_log; } // @ method Mixedlog::mixed_log
fn s28<S: mixed_num::Mixedlog10>() { let _: fn(&S) -> S = <S as mixed_num::Mixedlog10>::mixed_log10; } // @ method Mixedlog10::mixed_log10
fn s29<S: mixed_num::Mixedlog2>() { let _: fn(&S) -> S = <S as mixed_num::Mixedlog2>::mixed_log2; } // @ method Mixedlog2::mixed_log2
fn s30<S: mixed_num::DbMag>() { let _: fn(&S) -> S = <S as mixed_num::DbMag>::mixed_mag2db; } // @ method DbMag::mixed_mag2db
fn s31<S: mixed_num::DbMag>() { let _: fn(&S) -> S = <S as mixed_num::DbMag>::mixed_db2mag; } // @ method DbMag::mixed_db2mag
fn s32<S: mixed_num::DbPow>() { let _: fn(&S) -> S = <S as mixed_num::DbPow>::mixed_pow2db; } // @ method DbPow::mixed_pow2db
fn s33<S: mixed_num::DbPow>() { let _: fn(&S) -> S = <S as mixed_num::DbPow>::mixed_db2pow; } // @ method DbPow::mixed_db2pow
fn s34<S: mixed_num::ToCartesian<T>, T>() { let _: fn(&S) -> Cartesian<T> = <S as mixed_num::ToCartesian<T>>::to_cartesian; } // @ method ToCartesian::to_cartesian
fn s35<S: mixed_num::ToPolar<T>, T>() { let _: fn(&S) -> Polar<T> = <S as mixed_num::ToPolar<T>>::to_polar; } // @ method ToPolar::to_polar
fn s36<S: mixed_num::MixedComplexConversion<T>, T>() { let _: fn(T) -> S = <S as mixed_num::MixedComplexConversion<T>>::mixed_to_complex; } // @ method MixedComplexConversion::mixed_to_complex
fn s37<S: mixed_num::NewFromCartesian<T>, T>() { need_MixedComplex1::<S>(); } // @ supertraits of NewFromCartesian
fn s38<S: mixed_num::NewFromCartesian<T>, T>() { let _: fn(T, T) -> S = <S as mixed_num::NewFromCartesian<T>>::new_from_cartesian; } // @ method NewFromCartesian::new_from_cartesian
fn s39<S: mixed_num::NewFromPolar<T>, T>() { need_MixedComplex1::<S>(); } // @ supertraits of NewFromPolar
fn s40<S: mixed_num::NewFromPolar<T>, T>() { let _: fn(T, T) -> S = <S as mixed_num::NewFromPolar<T>>::new_from_polar; } // @ method NewFromPolar::new_from_polar
fn s41<S: mixed_num::Mag<T>, T>() { need_MixedComplex1::<S>(); } // @ supertraits of Mag
fn s42<S: mixed_num::Mag<T>, T>() { let _: fn(&S) -> T = <S as mixed_num::Mag<T>>::mag; } // @ method Mag::mag
fn s43<S: mixed_num::Mag<T>, T>() { let _: fn(&S) -> T = <S as mixed_num::Mag<T>>::abs; } // @ method Mag::abs
fn s44<S: mixed_num::Arg<T>, T>() { need_MixedComplex1::<S>(); } // @ supertraits of Arg
fn s45<S: mixed_num::Arg<T>, T>() { let _: fn(&S) -> T = <S as mixed_num::Arg<T>>::arg; } // @ method Arg::arg
fn s46<S: mixed_num::Arg<T>, T>() { let _: fn(&S) -> T = <S as mixed_num::Arg<T>>::ang; } // @ method Arg::ang
fn s47<S: mixed_num::Conj<T>, T>() { need_MixedComplex1::<S>(); } // @ supertraits of Conj
fn s48<S: mixed_num::Conj<T>, T>() { let _: fn(&S) -> T = <S as mixed_num::Conj<T>>::conj; } // @ method Conj::conj
fn s49<S: mixed_num::MixedCeil>() { let _: fn(&S) -> S = <S as mixed_num::MixedCeil>::mixed_ceil; } // @ method MixedCeil::mixed_ceil
fn s50<S: mixed_num::MixedFloor>() { let _: fn(&S) -> S = <S as mixed_num::MixedFloor>::mixed_floor; } // @ method MixedFloor::mixed_floor
fn s51<S: mixed_num::MixedNumConversion<T>, T>() { let _: fn(T) -> S = <S as mixed_num::MixedNumConversion<T>>::mixed_from_num; } // @ method MixedNumConversion::mixed_from_num
fn s52<S: mixed_num::MixedNumConversion<T>, T>() { let _: fn(&S) -> T = <S as mixed_num::MixedNumConversion<T>>::mixed_to_num; } // @ method MixedNumConversion::mixed_to_num
fn s53<S: mixed_num::MixedZero>() { let _: fn() -> S = <S as mixed_num::MixedZero>::mixed_zero; } // @ method MixedZero::mixed_zero
fn s54<S: mixed_num::MixedOne>() { let _: fn() -> S = <S as mixed_num::MixedOne>::mixed_one; } // @ method MixedOne::mixed_one
fn s55<S: mixed_num::MixedPi>() { let _: fn() -> S = <S as mixed_num::MixedPi>::mixed_pi; } // @ method MixedPi::mixed_pi
fn s56<S: mixed_num::MixedPi>() { let _: fn() -> S = <S as mixed_num::MixedPi>::mixed_tau; } // @ method MixedPi::mixed_tau
fn s57<S: mixed_num::MixedConsts>() { need_MixedPi1::<S>(); need_MixedZero1::<S>(); need_MixedOne1::<S>(); } // @ supertraits of MixedConsts
fn s58<S: mixed_num::MixedNum>() { need_PartialOrd1::<S>(); need_Copy1::<S>(); need_Clone1::<S>(); } // @ supertraits of MixedNum
fn s59<S: mixed_num::MixedReal>() { need_MixedNum1::<S>(); need_MixedNumConversion2::<S, u32>(); need_MixedNumConversion2::<S, u64>(); need_MixedNumConversion2::<S, i32>(); need_MixedNumConversion2::<S, i64>(); need_MixedNumConversion2::<S, f32>(); need_MixedNumConversion2::<S, f64>(); } // @ supertraits of MixedReal
fn s60<S: mixed_num::MixedReal>() { let _: fn() -> S = <S as mixed_num::MixedReal>::mixed_max_value; } // @ method MixedReal::mixed_max_value
fn s61<S: mixed_num::MixedReal>() { let _: fn() -> S = <S as mixed_num::MixedReal>::mixed_min_value; } // @ method MixedReal::mixed_min_value
fn s62<S: mixed_num::MixedReal>() { let _: fn(&S) -> S = <S as mixed_num::MixedReal>::mixed_sign; } // @ method MixedReal::mixed_sign
fn s63<S: mixed_num::MixedReal>() { let _: fn(&S) -> bool = <S as mixed_num::MixedReal>::mixed_is_positive; } // @ method MixedReal::mixed_is_positive
fn s64<S: mixed_num::MixedReal>() { let _: fn(&S) -> bool = <S as mixed_num::MixedReal>::mixed_is_negative; } // @ method MixedReal::mixed_is_negative
fn s65<S: mixed_num::MixedNumSigned>() { need_Neg1o::<S, S>(); } // @ supertraits of MixedNumSigned
fn g0<T: mixed_num::MixedReal + mixed_num::MixedNumSigned + mixed_num::MixedSin + mixed_num::MixedExp + core::ops::MulAssign<T>>() { need_MixedExp1::<Cartesian<T>>(); } // @ generic impl MixedExp for Cartesian<T>
fn g1<T: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_MixedNum1::<Cartesian<T>>(); } // @ generic impl MixedNum for Cartesian<T>
fn g2<T: mixed_num::MixedNum>() { need_MixedNum1::<Polar<T>>(); } // @ generic impl MixedNum for Polar<T>
fn g3<T1: mixed_num::MixedNum, T2: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedNumConversion<T1>>() { need_MixedNumConversion2::<Cartesian<T2>, Cartesian<T1>>(); } // @ generic impl MixedNumConversion<Cartesian<T1>> for Cartesian<T2>
fn g4<T: mixed_num::MixedNum + mixed_num::MixedNumConversion<T2> + mixed_num::MixedZero, T2: mixed_num::MixedNum>() { need_MixedNumConversion2::<Polar<T>, T2>(); } // @ generic impl MixedNumConversion<T2> for Polar<T>
fn g5<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedSqrt + mixed_num::MixedPowi + mixed_num::MixedOps + mixed_num::MixedZero>() { need_MixedAbs1::<Cartesian<T>>(); } // @ generic impl MixedAbs for Cartesian<T>
fn g6<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedZero>() { need_MixedAbs1::<Polar<T>>(); } // @ generic impl MixedAbs for Polar<T>
fn g7<T: mixed_num::MixedNum + mixed_num::MixedZero>() { need_MixedZero1::<Cartesian<T>>(); } // @ generic impl MixedZero for Cartesian<T>
fn g8<T: mixed_num::MixedNum + mixed_num::MixedZero>() { need_MixedZero1::<Polar<T>>(); } // @ generic impl MixedZero for Polar<T>
fn g9<T: mixed_num::MixedNum + mixed_num::MixedZero + mixed_num::MixedOne>() { need_MixedOne1::<Cartesian<T>>(); } // @ generic impl MixedOne for Cartesian<T>
fn g10<T: mixed_num::MixedNum + mixed_num::MixedZero + mixed_num::MixedOne>() { need_MixedOne1::<Polar<T>>(); } // @ generic impl MixedOne for Polar<T>
fn g11<T: core::ops::Sub<Output = T> + core::fmt::Display + core::cmp::PartialOrd + core::clone::Clone + mixed_num::MixedZero + mixed_num::MixedNum + core::ops::Sub<T>>() { need_Display1::<Cartesian<T>>(); } // @ generic impl Display for Cartesian<T>
fn g12<T: core::fmt::Display>() { need_Display1::<Polar<T>>(); } // @ generic impl Display for Polar<T>
fn g13<T: core::ops::Sub<Output = T> + core::fmt::LowerExp + core::cmp::PartialOrd + core::clone::Clone + mixed_num::MixedZero + mixed_num::MixedNum + core::ops::Sub<T>>() { need_LowerExp1::<Cartesian<T>>(); } // @ generic impl LowerExp for Cartesian<T>
fn g14<T: core::ops::Sub<Output = T> + core::fmt::UpperExp + core::cmp::PartialOrd + core::clone::Clone + mixed_num::MixedZero + mixed_num::MixedNum + core::ops::Sub<T>>() { need_UpperExp1::<Cartesian<T>>(); } // @ generic impl UpperExp for Cartesian<T>
fn g15<T: core::ops::Sub<Output = T> + core::fmt::LowerHex + core::cmp::PartialOrd + core::clone::Clone + mixed_num::MixedZero + mixed_num::MixedNum + core::ops::Sub<T>>() { need_LowerHex1::<Cartesian<T>>(); } // @ generic impl LowerHex for Cartesian<T>
fn g16<T: core::ops::Sub<Output = T> + core::fmt::UpperHex + core::cmp::PartialOrd + core::clone::Clone + mixed_num::MixedZero + mixed_num::MixedNum + core::ops::Sub<T>>() { need_UpperHex1::<Cartesian<T>>(); } // @ generic impl UpperHex for Cartesian<T>
fn g17<T: core::ops::Sub<Output = T> + core::fmt::Octal + core::cmp::PartialOrd + core::clone::Clone + mixed_num::MixedZero + mixed_num::MixedNum + core::ops::Sub<T>>() { need_Octal1::<Cartesian<T>>(); } // @ generic impl Octal for Cartesian<T>
fn g18<T: core::ops::Sub<Output = T> + core::fmt::Binary + core::cmp::PartialOrd + core::clone::Clone + mixed_num::MixedZero + mixed_num::MixedNum + core::ops::Sub<T>>() { need_Binary1::<Cartesian<T>>(); } // @ generic impl Binary for Cartesian<T>
fn g19<T: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_MixedComplex1::<Cartesian<T>>(); } // @ generic impl MixedComplex for Cartesian<T>
fn g20<T: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_MixedComplex1::<Polar<T>>(); } // @ generic impl MixedComplex for Polar<T>
fn g21<T: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_NewFromCartesian2::<Cartesian<T>, T>(); } // @ generic impl NewFromCartesian<T> for Cartesian<T>
fn g22<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedSqrt + mixed_num::MixedAtan + mixed_num::MixedPowi + mixed_num::MixedAbs + mixed_num::MixedOps>() { need_NewFromCartesian2::<Polar<T>, T>(); } // @ generic impl NewFromCartesian<T> for Polar<T>
fn g23<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedWrapPhase + mixed_num::MixedTrigonometry + mixed_num::MixedOps>() { need_NewFromPolar2::<Cartesian<T>, T>(); } // @ generic impl NewFromPolar<T> for Cartesian<T>
fn g24<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedWrapPhase + mixed_num::MixedTrigonometry>() { need_NewFromPolar2::<Polar<T>, T>(); } // @ generic impl NewFromPolar<T> for Polar<T>
fn g25<T: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_ToCartesian2::<Cartesian<T>, T>(); } // @ generic impl ToCartesian<T> for Cartesian<T>
fn g26<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedWrapPhase + mixed_num::MixedOps + mixed_num::MixedTrigonometry>() { need_ToCartesian2::<Polar<T>, T>(); } // @ generic impl ToCartesian<T> for Polar<T>
fn g27<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedSqrt + mixed_num::MixedOps + mixed_num::MixedAbs + mixed_num::MixedPowi + mixed_num::MixedAtan>() { need_ToPolar2::<Cartesian<T>, T>(); } // @ generic impl ToPolar<T> for Cartesian<T>
fn g28<T: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_ToPolar2::<Polar<T>, T>(); } // @ generic impl ToPolar<T> for Polar<T>
fn g29<T: mixed_num::MixedNum + mixed_num::MixedZero>() { need_MixedComplexConversion2::<Cartesian<T>, T>(); } // @ generic impl MixedComplexConversion<T> for Cartesian<T>
fn g30<T: mixed_num::MixedNum + mixed_num::MixedZero>() { need_MixedComplexConversion2::<Polar<T>, T>(); } // @ generic impl MixedComplexConversion<T> for Polar<T>
fn g31<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedSqrt + mixed_num::MixedPowi + mixed_num::MixedOps>() { need_Mag2::<Cartesian<T>, T>(); } // @ generic impl Mag<T> for Cartesian<T>
fn g32<T: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_Mag2::<Polar<T>, T>(); } // @ generic impl Mag<T> for Polar<T>
fn g33<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedAtan>() { need_Arg2::<Cartesian<T>, T>(); } // @ generic impl Arg<T> for Cartesian<T>
fn g34<T: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_Arg2::<Polar<T>, T>(); } // @ generic impl Arg<T> for Polar<T>
fn g35<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps>() { need_Mul2o::<Cartesian<T>, Cartesian<T>, Cartesian<T>>(); } // @ generic impl Mul<Cartesian<T>> for Cartesian<T>
fn g36<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + 'a>() { need_Mul2o::<Cartesian<T>, &'a Cartesian<T>, Cartesian<T>>(); } // @ generic impl Mul<&'a Cartesian<T>> for Cartesian<T>
fn g37<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + 'a>() { need_Mul2o::<Cartesian<T>, &'a mut Cartesian<T>, Cartesian<T>>(); } // @ generic impl Mul<&'a mut Cartesian<T>> for Cartesian<T>
fn g38<T1: mixed_num::MixedNum + mixed_num::MixedOps, T2: mixed_num::MixedNum + mixed_num::MixedOps + mixed_num::MixedNumConversion<T1>>() { need_Mul2o::<Cartesian<T2>, T1, Cartesian<T2>>(); } // @ generic impl Mul<T1> for Cartesian<T2>
fn g39<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedTrigonometry + mixed_num::MixedWrapPhase + mixed_num::MixedOps>() { need_Mul2o::<Cartesian<T>, Polar<T>, Cartesian<T>>(); } // @ generic impl Mul<Polar<T>> for Cartesian<T>
fn g40<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedTrigonometry + mixed_num::MixedWrapPhase + mixed_num::MixedOps + 'a>() { need_Mul2o::<Cartesian<T>, &'a Polar<T>, Cartesian<T>>(); } // @ generic impl Mul<&'a Polar<T>> for Cartesian<T>
fn g41<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedTrigonometry + mixed_num::MixedWrapPhase + mixed_num::MixedOps + 'a>() { need_Mul2o::<Cartesian<T>, &'a mut Polar<T>, Cartesian<T>>(); } // @ generic impl Mul<&'a mut Polar<T>> for Cartesian<T>
fn g42<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps>() { need_Mul2o::<Polar<T>, Polar<T>, Polar<T>>(); } // @ generic impl Mul<Polar<T>> for Polar<T>
fn g43<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedSqrt + mixed_num::MixedOps + mixed_num::MixedAbs + mixed_num::MixedPowi + mixed_num::MixedAtan>() { need_Mul2o::<Polar<T>, Cartesian<T>, Polar<T>>(); } // @ generic impl Mul<Cartesian<T>> for Polar<T>
fn g44<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps>() { need_Mul2o::<Polar<T>, T, Polar<T>>(); } // @ generic impl Mul<T> for Polar<T>
fn g45<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedTrigonometry + mixed_num::MixedWrapPhase>() { need_MulAssign2::<Cartesian<T>, Polar<T>>(); } // @ generic impl MulAssign<Polar<T>> for Cartesian<T>
fn g46<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedTrigonometry + mixed_num::MixedWrapPhase + 'a>() { need_MulAssign2::<Cartesian<T>, &'a Polar<T>>(); } // @ generic impl MulAssign<&'a Polar<T>> for Cartesian<T>
fn g47<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedTrigonometry + mixed_num::MixedWrapPhase + 'a>() { need_MulAssign2::<Cartesian<T>, &'a mut Polar<T>>(); } // @ generic impl MulAssign<&'a mut Polar<T>> for Cartesian<T>
fn g48<T1: mixed_num::MixedNum + mixed_num::MixedOps + mixed_num::MixedZero, T2: mixed_num::MixedNum + mixed_num::MixedOps + mixed_num::MixedNumConversion<T1>>() { need_Add2o::<Cartesian<T2>, T1, Cartesian<T2>>(); } // @ generic impl Add<T1> for Cartesian<T2>
fn g49<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero>() { need_Add2o::<Cartesian<T>, Cartesian<T>, Cartesian<T>>(); } // @ generic impl Add<Cartesian<T>> for Cartesian<T>
fn g50<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_Add2o::<Cartesian<T>, &'a Cartesian<T>, Cartesian<T>>(); } // @ generic impl Add<&'a Cartesian<T>> for Cartesian<T>
fn g51<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_Add2o::<Cartesian<T>, &'a mut Cartesian<T>, Cartesian<T>>(); } // @ generic impl Add<&'a mut Cartesian<T>> for Cartesian<T>
fn g52<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero>() { need_Add2o::<Cartesian<T>, num::Complex<T>, Cartesian<T>>(); } // @ generic impl Add<num::Complex<T>> for Cartesian<T>
fn g53<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_Add2o::<Cartesian<T>, &'a num::Complex<T>, Cartesian<T>>(); } // @ generic impl Add<&'a num::Complex<T>> for Cartesian<T>
fn g54<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_Add2o::<Cartesian<T>, &'a mut num::Complex<T>, Cartesian<T>>(); } // @ generic impl Add<&'a mut num::Complex<T>> for Cartesian<T>
fn g55<T1: mixed_num::MixedNum + mixed_num::MixedOps + mixed_num::MixedZero, T2: mixed_num::MixedOps + mixed_num::MixedNumConversion<T1>>() { need_AddAssign2::<Cartesian<T2>, T1>(); } // @ generic impl AddAssign<T1> for Cartesian<T2>
fn g56<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero>() { need_AddAssign2::<Cartesian<T>, Cartesian<T>>(); } // @ generic impl AddAssign<Cartesian<T>> for Cartesian<T>
fn g57<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_AddAssign2::<Cartesian<T>, &'a Cartesian<T>>(); } // @ generic impl AddAssign<&'a Cartesian<T>> for Cartesian<T>
fn g58<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_AddAssign2::<Cartesian<T>, &'a mut Cartesian<T>>(); } // @ generic impl AddAssign<&'a mut Cartesian<T>> for Cartesian<T>
fn g59<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero>() { need_AddAssign2::<Cartesian<T>, num::Complex<T>>(); } // @ generic impl AddAssign<num::Complex<T>> for Cartesian<T>
fn g60<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_AddAssign2::<Cartesian<T>, &'a num::Complex<T>>(); } // @ generic impl AddAssign<&'a num::Complex<T>> for Cartesian<T>
fn g61<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_AddAssign2::<Cartesian<T>, &'a mut num::Complex<T>>(); } // @ generic impl AddAssign<&'a mut num::Complex<T>> for Cartesian<T>
fn g62<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero>() { need_Sub2o::<Cartesian<T>, Cartesian<T>, Cartesian<T>>(); } // @ generic impl Sub<Cartesian<T>> for Cartesian<T>
fn g63<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_Sub2o::<Cartesian<T>, &'a Cartesian<T>, Cartesian<T>>(); } // @ generic impl Sub<&'a Cartesian<T>> for Cartesian<T>
fn g64<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_Sub2o::<Cartesian<T>, &'a mut Cartesian<T>, Cartesian<T>>(); } // @ generic impl Sub<&'a mut Cartesian<T>> for Cartesian<T>
fn g65<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero>() { need_Sub2o::<Cartesian<T>, num::Complex<T>, Cartesian<T>>(); } // @ generic impl Sub<num::Complex<T>> for Cartesian<T>
fn g66<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_Sub2o::<Cartesian<T>, &'a num::Complex<T>, Cartesian<T>>(); } // @ generic impl Sub<&'a num::Complex<T>> for Cartesian<T>
fn g67<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_Sub2o::<Cartesian<T>, &'a mut num::Complex<T>, Cartesian<T>>(); } // @ generic impl Sub<&'a mut num::Complex<T>> for Cartesian<T>
fn g68<T1: mixed_num::MixedNum + mixed_num::MixedOps, T2: mixed_num::MixedOps + mixed_num::MixedNumConversion<T1>>() { need_Sub2o::<Cartesian<T2>, T1, Cartesian<T2>>(); } // @ generic impl Sub<T1> for Cartesian<T2>
fn g69<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero>() { need_SubAssign2::<Cartesian<T>, Cartesian<T>>(); } // @ generic impl SubAssign<Cartesian<T>> for Cartesian<T>
fn g70<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_SubAssign2::<Cartesian<T>, &'a Cartesian<T>>(); } // @ generic impl SubAssign<&'a Cartesian<T>> for Cartesian<T>
fn g71<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_SubAssign2::<Cartesian<T>, &'a mut Cartesian<T>>(); } // @ generic impl SubAssign<&'a mut Cartesian<T>> for Cartesian<T>
fn g72<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero>() { need_SubAssign2::<Cartesian<T>, num::Complex<T>>(); } // @ generic impl SubAssign<num::Complex<T>> for Cartesian<T>
fn g73<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_SubAssign2::<Cartesian<T>, &'a num::Complex<T>>(); } // @ generic impl SubAssign<&'a num::Complex<T>> for Cartesian<T>
fn g74<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + 'a>() { need_SubAssign2::<Cartesian<T>, &'a mut num::Complex<T>>(); } // @ generic impl SubAssign<&'a mut num::Complex<T>> for Cartesian<T>
fn g75<T1: mixed_num::MixedNum + mixed_num::MixedOps, T2: mixed_num::MixedOps + mixed_num::MixedNumConversion<T1>>() { need_SubAssign2::<Cartesian<T2>, T1>(); } // @ generic impl SubAssign<T1> for Cartesian<T2>
fn g76<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedPowi>() { need_Div2o::<Cartesian<T>, Cartesian<T>, Cartesian<T>>(); } // @ generic impl Div<Cartesian<T>> for Cartesian<T>
fn g77<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedPowi + 'a>() { need_Div2o::<Cartesian<T>, &'a Cartesian<T>, Cartesian<T>>(); } // @ generic impl Div<&'a Cartesian<T>> for Cartesian<T>
fn g78<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedPowi + 'a>() { need_Div2o::<Cartesian<T>, &'a mut Cartesian<T>, Cartesian<T>>(); } // @ generic impl Div<&'a mut Cartesian<T>> for Cartesian<T>
fn g79<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedPowi>() { need_Div2o::<Cartesian<T>, num::Complex<T>, Cartesian<T>>(); } // @ generic impl Div<num::Complex<T>> for Cartesian<T>
fn g80<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedPowi + 'a>() { need_Div2o::<Cartesian<T>, &'a num::Complex<T>, Cartesian<T>>(); } // @ generic impl Div<&'a num::Complex<T>> for Cartesian<T>
fn g81<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedPowi + 'a>() { need_Div2o::<Cartesian<T>, &'a mut num::Complex<T>, Cartesian<T>>(); } // @ generic impl Div<&'a mut num::Complex<T>> for Cartesian<T>
fn g82<T1: mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero, T2: mixed_num::MixedReal + mixed_num::MixedOps + mixed_num::MixedNumConversion<T1>>() { need_Div2o::<Cartesian<T2>, T1, Cartesian<T2>>(); } // @ generic impl Div<T1> for Cartesian<T2>
fn g83<T: mixed_num::MixedReal + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero>() { need_Div2o::<Polar<T>, T, Polar<T>>(); } // @ generic impl Div<T> for Polar<T>
fn g84<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + mixed_num::MixedPowi>() { need_DivAssign2::<Cartesian<T>, Cartesian<T>>(); } // @ generic impl DivAssign<Cartesian<T>> for Cartesian<T>
fn g85<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + mixed_num::MixedPowi + 'a>() { need_DivAssign2::<Cartesian<T>, &'a Cartesian<T>>(); } // @ generic impl DivAssign<&'a Cartesian<T>> for Cartesian<T>
fn g86<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + mixed_num::MixedPowi + 'a>() { need_DivAssign2::<Cartesian<T>, &'a mut Cartesian<T>>(); } // @ generic impl DivAssign<&'a mut Cartesian<T>> for Cartesian<T>
fn g87<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + mixed_num::MixedPowi>() { need_DivAssign2::<Cartesian<T>, num::Complex<T>>(); } // @ generic impl DivAssign<num::Complex<T>> for Cartesian<T>
fn g88<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + mixed_num::MixedPowi + 'a>() { need_DivAssign2::<Cartesian<T>, &'a num::Complex<T>>(); } // @ generic impl DivAssign<&'a num::Complex<T>> for Cartesian<T>
fn g89<'a, T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + mixed_num::MixedPowi + 'a>() { need_DivAssign2::<Cartesian<T>, &'a mut num::Complex<T>>(); } // @ generic impl DivAssign<&'a mut num::Complex<T>> for Cartesian<T>
fn g90<T1: mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero, T2: mixed_num::MixedReal + mixed_num::MixedOps + mixed_num::MixedNumConversion<T1>>() { need_DivAssign2::<Cartesian<T2>, T1>(); } // @ generic impl DivAssign<T1> for Cartesian<T2>
fn g91<T: mixed_num::MixedComplex + mixed_num::NewFromCartesian<T2>, T2: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_Conj2::<Cartesian<T2>, T>(); } // @ generic impl Conj<T> for Cartesian<T2>
fn g92<T: mixed_num::MixedComplex + mixed_num::NewFromPolar<T2>, T2: mixed_num::MixedNum + mixed_num::MixedNumSigned>() { need_Conj2::<Polar<T2>, T>(); } // @ generic impl Conj<T> for Polar<T2>
fn g93<T: core::cmp::PartialEq>() { need_PartialEq1::<Cartesian<T>>(); } // @ generic impl PartialEq for Cartesian<T>
fn g94<T: core::cmp::PartialEq>() { need_PartialEq1::<Polar<T>>(); } // @ generic impl PartialEq for Polar<T>
fn g95<T: core::cmp::PartialOrd>() { need_PartialOrd1::<Cartesian<T>>(); } // @ generic impl PartialOrd for Cartesian<T>
fn g96<T: core::cmp::PartialOrd>() { need_PartialOrd1::<Polar<T>>(); } // @ generic impl PartialOrd for Polar<T>
fn g97<T: core::cmp::Eq>() { need_Eq1::<Cartesian<T>>(); } // @ generic impl Eq for Cartesian<T>
fn g98<T: core::cmp::Eq>() { need_Eq1::<Polar<T>>(); } // @ generic impl Eq for Polar<T>
fn g99<T: core::marker::Copy>() { need_Copy1::<Cartesian<T>>(); } // @ generic impl Copy for Cartesian<T>
fn g100<T: core::marker::Copy>() { need_Copy1::<Polar<T>>(); } // @ generic impl Copy for Polar<T>
fn g101<T: core::clone::Clone>() { need_Clone1::<Cartesian<T>>(); } // @ generic impl Clone for Cartesian<T>
fn g102<T: core::clone::Clone>() { need_Clone1::<Polar<T>>(); } // @ generic impl Clone for Polar<T>
fn g103<T: core::fmt::Debug>() { need_Debug1::<Cartesian<T>>(); } // @ generic impl Debug for Cartesian<T>
fn g104<T: core::fmt::Debug>() { need_Debug1::<Polar<T>>(); } // @ generic impl Debug for Polar<T>
fn g105<T: core::default::Default>() { need_Default1::<Cartesian<T>>(); } // @ generic impl Default for Cartesian<T>
fn g106<T: core::default::Default>() { need_Default1::<Polar<T>>(); } // @ generic impl Default for Polar<T>
fn g107<T: mixed_num::MixedReal>() { let _: fn(T) -> T = mixed_num::trigonometry::sign::<T>; } // @ function trigonometry::sign
fn g108<T: mixed_num::MixedNum + mixed_num::MixedOps + mixed_num::MixedPowi + mixed_num::MixedNumSigned + mixed_num::MixedPi>() { let _: fn(T) -> T = mixed_num::trigonometry::sin::<T>; } // @ function trigonometry::sin
fn g109<T: mixed_num::MixedNum + mixed_num::MixedOps + mixed_num::MixedPowi + mixed_num::MixedWrapPhase + mixed_num::MixedPi + mixed_num::MixedNumSigned>() { let _: fn(T) -> T = mixed_num::trigonometry::cos::<T>; } // @ function trigonometry::cos
fn g110<T: mixed_num::MixedNum + mixed_num::MixedOps + mixed_num::MixedPi + mixed_num::MixedNumSigned>() { let _: fn(T) -> T = mixed_num::trigonometry::wrap_phase::<T>; } // @ function trigonometry::wrap_phase
fn g111<T: mixed_num::MixedNum + mixed_num::MixedOps>() { let _: fn(T, usize) -> T = mixed_num::trigonometry::powi::<T>; } // @ function trigonometry::powi
fn g112<T: mixed_num::MixedReal + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + mixed_num::MixedPi + mixed_num::MixedAbs + mixed_num::MixedPowi>() { let _: fn(T, T) -> T = mixed_num::trigonometry::atan::atan2::<T>; } // @ function trigonometry::atan::atan2
fn g113<T: mixed_num::MixedReal + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedZero + mixed_num::MixedPi + mixed_num::MixedAbs + mixed_num::MixedPowi + mixed_num::MixedOne>() { let _: fn(T) -> T = mixed_num::trigonometry::atan::atan::<T>; } // @ function trigonometry::atan::atan
fn g114<T: mixed_num::MixedReal + mixed_num::MixedZero + mixed_num::MixedAbs + mixed_num::MixedOps + mixed_num::MixedPowi>() { let _: fn(T, usize) -> T = mixed_num::trigonometry::sqrt::niirf::<T>; } // @ function trigonometry::sqrt::niirf
fn g115<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedSqrt + mixed_num::MixedAtan + mixed_num::MixedPowi + mixed_num::MixedAbs + mixed_num::MixedOps>() { let _: fn(Cartesian<T>) -> Polar<T> = mixed_num::to_polar::<T>; } // @ function complex::ops::to_polar
fn g116<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedSqrt + mixed_num::MixedPowi + mixed_num::MixedOps>() { let _: fn(Cartesian<T>) -> T = mixed_num::abs::<T>; } // @ function complex::ops::abs
fn g117<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedTrigonometry + mixed_num::MixedWrapPhase + mixed_num::MixedOps>() { let _: fn(Polar<T>) -> Cartesian<T> = mixed_num::to_cartesian::<T>; } // @ function complex::ops::to_cartesian
fn g118<T: mixed_num::MixedNum + mixed_num::MixedOps>() { let _: fn(Cartesian<T>, Cartesian<T>) -> Cartesian<T> = mixed_num::add::<T>; } // @ function complex::ops::add
fn g119<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + core::ops::Sub<T> + core::ops::Sub<Output = T>>() { let _: fn(Cartesian<T>, Cartesian<T>) -> Cartesian<T> = mixed_num::sub::<T>; } // @ function complex::ops::sub
fn g120<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps>() { let _: fn(Polar<T>, Polar<T>) -> Polar<T> = mixed_num::mul_polar::<T>; } // @ function complex::ops::mul_polar
fn g121<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps>() { let _: fn(Cartesian<T>, Cartesian<T>) -> Cartesian<T> = mixed_num::mul_cartesian::<T>; } // @ function complex::ops::mul_cartesian
fn g122<T: fixed::traits::FixedSigned + mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedAtan + mixed_num::MixedSin + mixed_num::MixedSqrt + mixed_num::MixedPowi>() { let _: fn(Cartesian<T>, usize) -> Cartesian<T> = mixed_num::powi::<T>; } // @ function complex::ops::powi
fn g123<T: mixed_num::MixedReal + mixed_num::MixedNumSigned + mixed_num::MixedOps>() { let _: fn(Cartesian<T>, T) -> Cartesian<T> = mixed_num::div_scalar_cartesian::<T>; } // @ function complex::ops::div_scalar_cartesian
fn g124<T: mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOps + mixed_num::MixedPowi>() { let _: fn(Cartesian<T>, Cartesian<T>) -> Cartesian<T> = mixed_num::div_cartesian::<T>; } // @ function complex::ops::div_cartesian
fn g125<T>() { let _: fn(T, T) -> Cartesian<T> = Cartesian::<T>::new; } // @ function Cartesian::<T>::new
fn g126<T>() { let _: fn(T, T) -> Polar<T> = Polar::<T>::new; } // @ function Polar::<T>::new
fn k_signed_fixed<T: mixed_num::MixedAbs + mixed_num::MixedAtan + mixed_num::MixedConsts + mixed_num::MixedCos + mixed_num::MixedExp + mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOne + mixed_num::MixedOps + mixed_num::MixedPi + mixed_num::MixedPowi + mixed_num::MixedReal + mixed_num::MixedSin + mixed_num::MixedSqrt + mixed_num::MixedTrigonometry + mixed_num::MixedWrapPhase + mixed_num::MixedZero + mixed_num::MixedNumConversion<Cartesian<f32>> + mixed_num::MixedNumConversion<Cartesian<f64>> + mixed_num::MixedNumConversion<Cartesian<i128>> + mixed_num::MixedNumConversion<Cartesian<i16>> + mixed_num::MixedNumConversion<Cartesian<i32>> + mixed_num::MixedNumConversion<Cartesian<i64>> + mixed_num::MixedNumConversion<Cartesian<i8>> + mixed_num::MixedNumConversion<Cartesian<isize>> + mixed_num::MixedNumConversion<Cartesian<u128>> + mixed_num::MixedNumConversion<Cartesian<u16>> + mixed_num::MixedNumConversion<Cartesian<u32>> + mixed_num::MixedNumConversion<Cartesian<u64>> + mixed_num::MixedNumConversion<Cartesian<u8>> + mixed_num::MixedNumConversion<Cartesian<usize>> + mixed_num::MixedNumConversion<f32> + mixed_num::MixedNumConversion<f64> + mixed_num::MixedNumConversion<i128> + mixed_num::MixedNumConversion<i16> + mixed_num::MixedNumConversion<i32> + mixed_num::MixedNumConversion<i64> + mixed_num::MixedNumConversion<i8> + mixed_num::MixedNumConversion<isize> + mixed_num::MixedNumConversion<u128> + mixed_num::MixedNumConversion<u16> + mixed_num::MixedNumConversion<u32> + mixed_num::MixedNumConversion<u64> + mixed_num::MixedNumConversion<u8> + mixed_num::MixedNumConversion<usize> + core::fmt::Display + core::default::Default + core::cmp::Eq + core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::Octal + core::fmt::Binary + core::fmt::Debug + fixed::traits::FixedSigned>() { g0::<T>(); g1::<T>(); g2::<T>(); g3::<i32, T>(); g3::<f32, T>(); g4::<T, i32>(); g4::<T, f32>(); g5::<T>(); g6::<T>(); g7::<T>(); g8::<T>(); g9::<T>(); g10::<T>(); g11::<T>(); g12::<T>(); g15::<T>(); g16::<T>(); g17::<T>(); g18::<T>(); g19::<T>(); g20::<T>(); g21::<T>(); g22::<T>(); g23::<T>(); g24::<T>(); g25::<T>(); g26::<T>(); g27::<T>(); g28::<T>(); g29::<T>(); g30::<T>(); g31::<T>(); g32::<T>(); g33::<T>(); g34::<T>(); g35::<T>(); g36::<T>(); g37::<T>(); g38::<i32, T>(); g38::<f32, T>(); g39::<T>(); g40::<T>(); g41::<T>(); g42::<T>(); g43::<T>(); g44::<T>(); g45::<T>(); g46::<T>(); g47::<T>(); g48::<i32, T>(); g48::<f32, T>(); g49::<T>(); g50::<T>(); g51::<T>(); g52::<T>(); g53::<T>(); g54::<T>(); g55::<i32, T>(); g55::<f32, T>(); g56::<T>(); g57::<T>(); g58::<T>(); g59::<T>(); g60::<T>(); g61::<T>(); g62::<T>(); g63::<T>(); g64::<T>(); g65::<T>(); g66::<T>(); g67::<T>(); g68::<i32, T>(); g68::<f32, T>(); g69::<T>(); g70::<T>(); g71::<T>(); g72::<T>(); g73::<T>(); g74::<T>(); g75::<i32, T>(); g75::<f32, T>(); g76::<T>(); g77::<T>(); g78::<T>(); g79::<T>(); g80::<T>(); g81::<T>(); g82::<i32, T>(); g82::<f32, T>(); g83::<T>(); g84::<T>(); g85::<T>(); g86::<T>(); g87::<T>(); g88::<T>(); g89::<T>(); g90::<i32, T>(); g90::<f32, T>(); g91::<mixed_num::Cartesian<T>, T>(); g91::<mixed_num::Polar<T>, T>(); g92::<mixed_num::Cartesian<T>, T>(); g92::<mixed_num::Polar<T>, T>(); g93::<T>(); g94::<T>(); g95::<T>(); g96::<T>(); g97::<T>(); g98::<T>(); g99::<T>(); g100::<T>(); g101::<T>(); g102::<T>(); g103::<T>(); g104::<T>(); g105::<T>(); g106::<T>(); g107::<T>(); g108::<T>(); g109::<T>(); g110::<T>(); g111::<T>(); g112::<T>(); g113::<T>(); g114::<T>(); g115::<T>(); g116::<T>(); g117::<T>(); g118::<T>(); g119::<T>(); g120::<T>(); g121::<T>(); g122::<T>(); g123::<T>(); g124::<T>(); g125::<T>(); g126::<T>(); } // @ capabilities of every signed_fixed type
fn k_unsigned_fixed<T: mixed_num::MixedAbs + mixed_num::MixedConsts + mixed_num::MixedNum + mixed_num::MixedOne + mixed_num::MixedOps + mixed_num::MixedPi + mixed_num::MixedPowi + mixed_num::MixedReal + mixed_num::MixedSqrt + mixed_num::MixedZero + mixed_num::MixedNumConversion<Cartesian<f32>> + mixed_num::MixedNumConversion<Cartesian<f64>> + mixed_num::MixedNumConversion<Cartesian<i128>> + mixed_num::MixedNumConversion<Cartesian<i16>> + mixed_num::MixedNumConversion<Cartesian<i32>> + mixed_num::MixedNumConversion<Cartesian<i64>> + mixed_num::MixedNumConversion<Cartesian<i8>> + mixed_num::MixedNumConversion<Cartesian<isize>> + mixed_num::MixedNumConversion<Cartesian<u128>> + mixed_num::MixedNumConversion<Cartesian<u16>> + mixed_num::MixedNumConversion<Cartesian<u32>> + mixed_num::MixedNumConversion<Cartesian<u64>> + mixed_num::MixedNumConversion<Cartesian<u8>> + mixed_num::MixedNumConversion<Cartesian<usize>> + mixed_num::MixedNumConversion<f32> + mixed_num::MixedNumConversion<f64> + mixed_num::MixedNumConversion<i128> + mixed_num::MixedNumConversion<i16> + mixed_num::MixedNumConversion<i32> + mixed_num::MixedNumConversion<i64> + mixed_num::MixedNumConversion<i8> + mixed_num::MixedNumConversion<isize> + mixed_num::MixedNumConversion<u128> + mixed_num::MixedNumConversion<u16> + mixed_num::MixedNumConversion<u32> + mixed_num::MixedNumConversion<u64> + mixed_num::MixedNumConversion<u8> + mixed_num::MixedNumConversion<usize> + core::fmt::Display + core::default::Default + core::cmp::Eq + core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::Octal + core::fmt::Binary + core::fmt::Debug>() { g2::<T>(); g4::<T, i32>(); g4::<T, f32>(); g7::<T>(); g8::<T>(); g9::<T>(); g10::<T>(); g11::<T>(); g12::<T>(); g15::<T>(); g16::<T>(); g17::<T>(); g18::<T>(); g29::<T>(); g30::<T>(); g38::<i32, T>(); g38::<f32, T>(); g48::<i32, T>(); g48::<f32, T>(); g55::<i32, T>(); g55::<f32, T>(); g68::<i32, T>(); g68::<f32, T>(); g75::<i32, T>(); g75::<f32, T>(); g93::<T>(); g94::<T>(); g95::<T>(); g96::<T>(); g97::<T>(); g98::<T>(); g99::<T>(); g100::<T>(); g101::<T>(); g102::<T>(); g103::<T>(); g104::<T>(); g105::<T>(); g106::<T>(); g107::<T>(); g111::<T>(); g114::<T>(); g118::<T>(); g125::<T>(); g126::<T>(); } // @ capabilities of every unsigned_fixed type
fn k_signed_int<T: mixed_num::MixedAbs + mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOne + mixed_num::MixedOps + mixed_num::MixedPowi + mixed_num::MixedReal + mixed_num::MixedZero + mixed_num::MixedNumConversion<f32> + mixed_num::MixedNumConversion<f64> + mixed_num::MixedNumConversion<i128> + mixed_num::MixedNumConversion<i16> + mixed_num::MixedNumConversion<i32> + mixed_num::MixedNumConversion<i64> + mixed_num::MixedNumConversion<i8> + mixed_num::MixedNumConversion<isize> + mixed_num::MixedNumConversion<u128> + mixed_num::MixedNumConversion<u16> + mixed_num::MixedNumConversion<u32> + mixed_num::MixedNumConversion<u64> + mixed_num::MixedNumConversion<u8> + mixed_num::MixedNumConversion<usize> + core::fmt::Display + core::default::Default + core::cmp::Eq + core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::Octal + core::fmt::Binary + core::fmt::LowerExp + core::fmt::UpperExp + core::fmt::Debug>() { g1::<T>(); g2::<T>(); g3::<i32, T>(); g3::<f32, T>(); g4::<T, i32>(); g4::<T, f32>(); g6::<T>(); g7::<T>(); g8::<T>(); g9::<T>(); g10::<T>(); g11::<T>(); g12::<T>(); g13::<T>(); g14::<T>(); g15::<T>(); g16::<T>(); g17::<T>(); g18::<T>(); g19::<T>(); g20::<T>(); g21::<T>(); g25::<T>(); g28::<T>(); g29::<T>(); g30::<T>(); g32::<T>(); g34::<T>(); g35::<T>(); g36::<T>(); g37::<T>(); g38::<i32, T>(); g38::<f32, T>(); g42::<T>(); g44::<T>(); g48::<i32, T>(); g48::<f32, T>(); g49::<T>(); g50::<T>(); g51::<T>(); g52::<T>(); g53::<T>(); g54::<T>(); g55::<i32, T>(); g55::<f32, T>(); g56::<T>(); g57::<T>(); g58::<T>(); g59::<T>(); g60::<T>(); g61::<T>(); g62::<T>(); g63::<T>(); g64::<T>(); g65::<T>(); g66::<T>(); g67::<T>(); g68::<i32, T>(); g68::<f32, T>(); g69::<T>(); g70::<T>(); g71::<T>(); g72::<T>(); g73::<T>(); g74::<T>(); g75::<i32, T>(); g75::<f32, T>(); g76::<T>(); g77::<T>(); g78::<T>(); g79::<T>(); g80::<T>(); g81::<T>(); g82::<i32, T>(); g82::<f32, T>(); g83::<T>(); g84::<T>(); g85::<T>(); g86::<T>(); g87::<T>(); g88::<T>(); g89::<T>(); g90::<i32, T>(); g90::<f32, T>(); g91::<mixed_num::Cartesian<T>, T>(); g93::<T>(); g94::<T>(); g95::<T>(); g96::<T>(); g97::<T>(); g98::<T>(); g99::<T>(); g100::<T>(); g101::<T>(); g102::<T>(); g103::<T>(); g104::<T>(); g105::<T>(); g106::<T>(); g107::<T>(); g111::<T>(); g114::<T>(); g118::<T>(); g119::<T>(); g120::<T>(); g121::<T>(); g123::<T>(); g124::<T>(); g125::<T>(); g126::<T>(); } // @ capabilities of every signed_int type
fn k_unsigned_int<T: mixed_num::MixedAbs + mixed_num::MixedNum + mixed_num::MixedOne + mixed_num::MixedOps + mixed_num::MixedPowi + mixed_num::MixedReal + mixed_num::MixedZero + mixed_num::MixedNumConversion<f32> + mixed_num::MixedNumConversion<f64> + mixed_num::MixedNumConversion<i128> + mixed_num::MixedNumConversion<i16> + mixed_num::MixedNumConversion<i32> + mixed_num::MixedNumConversion<i64> + mixed_num::MixedNumConversion<i8> + mixed_num::MixedNumConversion<isize> + mixed_num::MixedNumConversion<u128> + mixed_num::MixedNumConversion<u16> + mixed_num::MixedNumConversion<u32> + mixed_num::MixedNumConversion<u64> + mixed_num::MixedNumConversion<u8> + mixed_num::MixedNumConversion<usize> + core::fmt::Display + core::default::Default + core::cmp::Eq + core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::Octal + core::fmt::Binary + core::fmt::LowerExp + core::fmt::UpperExp + core::fmt::Debug>() { g2::<T>(); g4::<T, i32>(); g4::<T, f32>(); g7::<T>(); g8::<T>(); g9::<T>(); g10::<T>(); g11::<T>(); g12::<T>(); g13::<T>(); g14::<T>(); g15::<T>(); g16::<T>(); g17::<T>(); g18::<T>(); g29::<T>(); g30::<T>(); g38::<i32, T>(); g38::<f32, T>(); g48::<i32, T>(); g48::<f32, T>(); g55::<i32, T>(); g55::<f32, T>(); g68::<i32, T>(); g68::<f32, T>(); g75::<i32, T>(); g75::<f32, T>(); g93::<T>(); g94::<T>(); g95::<T>(); g96::<T>(); g97::<T>(); g98::<T>(); g99::<T>(); g100::<T>(); g101::<T>(); g102::<T>(); g103::<T>(); g104::<T>(); g105::<T>(); g106::<T>(); g107::<T>(); g111::<T>(); g114::<T>(); g118::<T>(); g125::<T>(); g126::<T>(); } // @ capabilities of every unsigned_int type
fn k_float<T: mixed_num::DbMag + mixed_num::DbPow + mixed_num::MixedAbs + mixed_num::MixedAtan + mixed_num::MixedCbrt + mixed_num::MixedCeil + mixed_num::MixedConsts + mixed_num::MixedCos + mixed_num::MixedCosh + mixed_num::MixedExp + mixed_num::MixedExp10 + mixed_num::MixedExp2 + mixed_num::MixedFloor + mixed_num::MixedNum + mixed_num::MixedNumSigned + mixed_num::MixedOne + mixed_num::MixedOps + mixed_num::MixedPi + mixed_num::MixedPow + mixed_num::MixedPowi + mixed_num::MixedReal + mixed_num::MixedSin + mixed_num::MixedSinh + mixed_num::MixedSqrt + mixed_num::MixedTan + mixed_num::MixedTanh + mixed_num::MixedTrigonometry + mixed_num::MixedWrapPhase + mixed_num::MixedZero + mixed_num::Mixedlog + mixed_num::Mixedlog10 + mixed_num::Mixedlog2 + mixed_num::MixedNumConversion<Cartesian<f32>> + mixed_num::MixedNumConversion<Cartesian<f64>> + mixed_num::MixedNumConversion<Cartesian<i128>> + mixed_num::MixedNumConversion<Cartesian<i16>> + mixed_num::MixedNumConversion<Cartesian<i32>> + mixed_num::MixedNumConversion<Cartesian<i64>> + mixed_num::MixedNumConversion<Cartesian<i8>> + mixed_num::MixedNumConversion<Cartesian<isize>> + mixed_num::MixedNumConversion<Cartesian<u128>> + mixed_num::MixedNumConversion<Cartesian<u16>> + mixed_num::MixedNumConversion<Cartesian<u32>> + mixed_num::MixedNumConversion<Cartesian<u64>> + mixed_num::MixedNumConversion<Cartesian<u8>> + mixed_num::MixedNumConversion<Cartesian<usize>> + mixed_num::MixedNumConversion<f32> + mixed_num::MixedNumConversion<f64> + mixed_num::MixedNumConversion<i128> + mixed_num::MixedNumConversion<i16> + mixed_num::MixedNumConversion<i32> + mixed_num::MixedNumConversion<i64> + mixed_num::MixedNumConversion<i8> + mixed_num::MixedNumConversion<isize> + mixed_num::MixedNumConversion<u128> + mixed_num::MixedNumConversion<u16> + mixed_num::MixedNumConversion<u32> + mixed_num::MixedNumConversion<u64> + mixed_num::MixedNumConversion<u8> + mixed_num::MixedNumConversion<usize> + core::fmt::Display + core::default::Default + core::fmt::LowerExp + core::fmt::UpperExp + core::fmt::Debug>() { g0::<T>(); g1::<T>(); g2::<T>(); g3::<i32, T>(); g3::<f32, T>(); g4::<T, i32>(); g4::<T, f32>(); g5::<T>(); g6::<T>(); g7::<T>(); g8::<T>(); g9::<T>(); g10::<T>(); g11::<T>(); g12::<T>(); g13::<T>(); g14::<T>(); g19::<T>(); g20::<T>(); g21::<T>(); g22::<T>(); g23::<T>(); g24::<T>(); g25::<T>(); g26::<T>(); g27::<T>(); g28::<T>(); g29::<T>(); g30::<T>(); g31::<T>(); g32::<T>(); g33::<T>(); g34::<T>(); g35::<T>(); g36::<T>(); g37::<T>(); g38::<i32, T>(); g38::<f32, T>(); g39::<T>(); g40::<T>(); g41::<T>(); g42::<T>(); g43::<T>(); g44::<T>(); g45::<T>(); g46::<T>(); g47::<T>(); g48::<i32, T>(); g48::<f32, T>(); g49::<T>(); g50::<T>(); g51::<T>(); g52::<T>(); g53::<T>(); g54::<T>(); g55::<i32, T>(); g55::<f32, T>(); g56::<T>(); g57::<T>(); g58::<T>(); g59::<T>(); g60::<T>(); g61::<T>(); g62::<T>(); g63::<T>(); g64::<T>(); g65::<T>(); g66::<T>(); g67::<T>(); g68::<i32, T>(); g68::<f32, T>(); g69::<T>(); g70::<T>(); g71::<T>(); g72::<T>(); g73::<T>(); g74::<T>(); g75::<i32, T>(); g75::<f32, T>(); g76::<T>(); g77::<T>(); g78::<T>(); g79::<T>(); g80::<T>(); g81::<T>(); g82::<i32, T>(); g82::<f32, T>(); g83::<T>(); g84::<T>(); g85::<T>(); g86::<T>(); g87::<T>(); g88::<T>(); g89::<T>(); g90::<i32, T>(); g90::<f32, T>(); g91::<mixed_num::Cartesian<T>, T>(); g91::<mixed_num::Polar<T>, T>(); g92::<mixed_num::Cartesian<T>, T>(); g92::<mixed_num::Polar<T>, T>(); g93::<T>(); g94::<T>(); g95::<T>(); g96::<T>(); g99::<T>(); g100::<T>(); g101::<T>(); g102::<T>(); g103::<T>(); g104::<T>(); g105::<T>(); g106::<T>(); g107::<T>(); g108::<T>(); g109::<T>(); g110::<T>(); g111::<T>(); g112::<T>(); g113::<T>(); g114::<T>(); g115::<T>(); g116::<T>(); g117::<T>(); g118::<T>(); g119::<T>(); g120::<T>(); g121::<T>(); g123::<T>(); g124::<T>(); g125::<T>(); g126::<T>(); } // @ capabilities of every float type
fn t198() { k_signed_fixed::<fixed::FixedI8<fixed::types::extra::U0>>(); } // @ trait set of FixedI8<U0>
fn t199() { k_signed_fixed::<fixed::FixedI8<fixed::types::extra::U1>>(); } // @ trait set of FixedI8<U1>
fn t200() { k_signed_fixed::<fixed::FixedI8<fixed::types::extra::U2>>(); } // @ trait set of FixedI8<U2>
fn t201() { k_signed_fixed::<fixed::FixedI8<fixed::types::extra::U3>>(); } // @ trait set of FixedI8<U3>
fn t202() { k_signed_fixed::<fixed::FixedI8<fixed::types::extra::U4>>(); } // @ trait set of FixedI8<U4>
fn t203() { k_signed_fixed::<fixed::FixedI8<fixed::types::extra::U5>>(); } // @ trait set of FixedI8<U5>
fn t204() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U0>>(); } // @ trait set of FixedI16<U0>
fn t205() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U1>>(); } // @ trait set of FixedI16<U1>
fn t206() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U2>>(); } // @ trait set of FixedI16<U2>
fn t207() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U3>>(); } // @ trait set of FixedI16<U3>
fn t208() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U4>>(); } // @ trait set of FixedI16<U4>
fn t209() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U5>>(); } // @ trait set of FixedI16<U5>
fn t210() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U6>>(); } // @ trait set of FixedI16<U6>
fn t211() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U7>>(); } // @ trait set of FixedI16<U7>
fn t212() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U8>>(); } // @ trait set of FixedI16<U8>
fn t213() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U9>>(); } // @ trait set of FixedI16<U9>
fn t214() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U10>>(); } // @ trait set of FixedI16<U10>
fn t215() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U11>>(); } // @ trait set of FixedI16<U11>
fn t216() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U12>>(); } // @ trait set of FixedI16<U12>
fn t217() { k_signed_fixed::<fixed::FixedI16<fixed::types::extra::U13>>(); } // @ trait set of FixedI16<U13>
fn t218() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U0>>(); } // @ trait set of FixedI32<U0>
fn t219() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U1>>(); } // @ trait set of FixedI32<U1>
fn t220() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U2>>(); } // @ trait set of FixedI32<U2>
fn t221() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U3>>(); } // @ trait set of FixedI32<U3>
fn t222() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U4>>(); } // @ trait set of FixedI32<U4>
fn t223() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U5>>(); } // @ trait set of FixedI32<U5>
fn t224() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U6>>(); } // @ trait set of FixedI32<U6>
fn t225() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U7>>(); } // @ trait set of FixedI32<U7>
fn t226() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U8>>(); } // @ trait set of FixedI32<U8>
fn t227() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U9>>(); } // @ trait set of FixedI32<U9>
fn t228() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U10>>(); } // @ trait set of FixedI32<U10>
fn t229() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U11>>(); } // @ trait set of FixedI32<U11>
fn t230() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U12>>(); } // @ trait set of FixedI32<U12>
fn t231() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U13>>(); } // @ trait set of FixedI32<U13>
fn t232() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U14>>(); } // @ trait set of FixedI32<U14>
fn t233() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U15>>(); } // @ trait set of FixedI32<U15>
fn t234() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U16>>(); } // @ trait set of FixedI32<U16>
fn t235() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U17>>(); } // @ trait set of FixedI32<U17>
fn t236() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U18>>(); } // @ trait set of FixedI32<U18>
fn t237() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U19>>(); } // @ trait set of FixedI32<U19>
fn t238() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U20>>(); } // @ trait set of FixedI32<U20>
fn t239() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U21>>(); } // @ trait set of FixedI32<U21>
fn t240() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U22>>(); } // @ trait set of FixedI32<U22>
fn t241() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U23>>(); } // @ trait set of FixedI32<U23>
fn t242() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U24>>(); } // @ trait set of FixedI32<U24>
fn t243() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U25>>(); } // @ trait set of FixedI32<U25>
fn t244() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U26>>(); } // @ trait set of FixedI32<U26>
fn t245() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U27>>(); } // @ trait set of FixedI32<U27>
fn t246() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U28>>(); } // @ trait set of FixedI32<U28>
fn t247() { k_signed_fixed::<fixed::FixedI32<fixed::types::extra::U29>>(); } // @ trait set of FixedI32<U29>
fn t248() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U0>>(); } // @ trait set of FixedI64<U0>
fn t249() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U1>>(); } // @ trait set of FixedI64<U1>
fn t250() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U2>>(); } // @ trait set of FixedI64<U2>
fn t251() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U3>>(); } // @ trait set of FixedI64<U3>
fn t252() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U4>>(); } // @ trait set of FixedI64<U4>
fn t253() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U5>>(); } // @ trait set of FixedI64<U5>
fn t254() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U6>>(); } // @ trait set of FixedI64<U6>
fn t255() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U7>>(); } // @ trait set of FixedI64<U7>
fn t256() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U8>>(); } // @ trait set of FixedI64<U8>
fn t257() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U9>>(); } // @ trait set of FixedI64<U9>
fn t258() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U10>>(); } // @ trait set of FixedI64<U10>
fn t259() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U11>>(); } // @ trait set of FixedI64<U11>
fn t260() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U12>>(); } // @ trait set of FixedI64<U12>
fn t261() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U13>>(); } // @ trait set of FixedI64<U13>
fn t262() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U14>>(); } // @ trait set of FixedI64<U14>
fn t263() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U15>>(); } // @ trait set of FixedI64<U15>
fn t264() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U16>>(); } // @ trait set of FixedI64<U16>
fn t265() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U17>>(); } // @ trait set of FixedI64<U17>
fn t266() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U18>>(); } // @ trait set of FixedI64<U18>
fn t267() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U19>>(); } // @ trait set of FixedI64<U19>
fn t268() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U20>>(); } // @ trait set of FixedI64<U20>
fn t269() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U21>>(); } // @ trait set of FixedI64<U21>
fn t270() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U22>>(); } // @ trait set of FixedI64<U22>
fn t271() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U23>>(); } // @ trait set of FixedI64<U23>
fn t272() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U24>>(); } // @ trait set of FixedI64<U24>
fn t273() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U25>>(); } // @ trait set of FixedI64<U25>
fn t274() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U26>>(); } // @ trait set of FixedI64<U26>
fn t275() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U27>>(); } // @ trait set of FixedI64<U27>
fn t276() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U28>>(); } // @ trait set of FixedI64<U28>
fn t277() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U29>>(); } // @ trait set of FixedI64<U29>
fn t278() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U30>>(); } // @ trait set of FixedI64<U30>
fn t279() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U31>>(); } // @ trait set of FixedI64<U31>
fn t280() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U32>>(); } // @ trait set of FixedI64<U32>
fn t281() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U33>>(); } // @ trait set of FixedI64<U33>
fn t282() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U34>>(); } // @ trait set of FixedI64<U34>
fn t283() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U35>>(); } // @ trait set of FixedI64<U35>
fn t284() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U36>>(); } // @ trait set of FixedI64<U36>
fn t285() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U37>>(); } // @ trait set of FixedI64<U37>
fn t286() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U38>>(); } // @ trait set of FixedI64<U38>
fn t287() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U39>>(); } // @ trait set of FixedI64<U39>
fn t288() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U40>>(); } // @ trait set of FixedI64<U40>
fn t289() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U41>>(); } // @ trait set of FixedI64<U41>
fn t290() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U42>>(); } // @ trait set of FixedI64<U42>
fn t291() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U43>>(); } // @ trait set of FixedI64<U43>
fn t292() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U44>>(); } // @ trait set of FixedI64<U44>
fn t293() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U45>>(); } // @ trait set of FixedI64<U45>
fn t294() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U46>>(); } // @ trait set of FixedI64<U46>
fn t295() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U47>>(); } // @ trait set of FixedI64<U47>
fn t296() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U48>>(); } // @ trait set of FixedI64<U48>
fn t297() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U49>>(); } // @ trait set of FixedI64<U49>
fn t298() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U50>>(); } // @ trait set of FixedI64<U50>
fn t299() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U51>>(); } // @ trait set of FixedI64<U51>
fn t300() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U52>>(); } // @ trait set of FixedI64<U52>
fn t301() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U53>>(); } // @ trait set of FixedI64<U53>
fn t302() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U54>>(); } // @ trait set of FixedI64<U54>
fn t303() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U55>>(); } // @ trait set of FixedI64<U55>
fn t304() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U56>>(); } // @ trait set of FixedI64<U56>
fn t305() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U57>>(); } // @ trait set of FixedI64<U57>
fn t306() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U58>>(); } // @ trait set of FixedI64<U58>
fn t307() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U59>>(); } // @ trait set of FixedI64<U59>
fn t308() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U60>>(); } // @ trait set of FixedI64<U60>
fn t309() { k_signed_fixed::<fixed::FixedI64<fixed::types::extra::U61>>(); } // @ trait set of FixedI64<U61>
fn t310() { k_unsigned_fixed::<fixed::FixedU8<fixed::types::extra::U0>>(); } // @ trait set of FixedU8<U0>
fn t311() { k_unsigned_fixed::<fixed::FixedU8<fixed::types::extra::U1>>(); } // @ trait set of FixedU8<U1>
fn t312() { k_unsigned_fixed::<fixed::FixedU8<fixed::types::extra::U2>>(); } // @ trait set of FixedU8<U2>
fn t313() { k_unsigned_fixed::<fixed::FixedU8<fixed::types::extra::U3>>(); } // @ trait set of FixedU8<U3>
fn t314() { k_unsigned_fixed::<fixed::FixedU8<fixed::types::extra::U4>>(); } // @ trait set of FixedU8<U4>
fn t315() { k_unsigned_fixed::<fixed::FixedU8<fixed::types::extra::U5>>(); } // @ trait set of FixedU8<U5>
fn t316() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U0>>(); } // @ trait set of FixedU16<U0>
fn t317() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U1>>(); } // @ trait set of FixedU16<U1>
fn t318() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U2>>(); } // @ trait set of FixedU16<U2>
fn t319() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U3>>(); } // @ trait set of FixedU16<U3>
fn t320() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U4>>(); } // @ trait set of FixedU16<U4>
fn t321() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U5>>(); } // @ trait set of FixedU16<U5>
fn t322() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U6>>(); } // @ trait set of FixedU16<U6>
fn t323() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U7>>(); } // @ trait set of FixedU16<U7>
fn t324() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U8>>(); } // @ trait set of FixedU16<U8>
fn t325() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U9>>(); } // @ trait set of FixedU16<U9>
fn t326() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U10>>(); } // @ trait set of FixedU16<U10>
fn t327() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U11>>(); } // @ trait set of FixedU16<U11>
fn t328() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U12>>(); } // @ trait set of FixedU16<U12>
fn t329() { k_unsigned_fixed::<fixed::FixedU16<fixed::types::extra::U13>>(); } // @ trait set of FixedU16<U13>
fn t330() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U0>>(); } // @ trait set of FixedU32<U0>
fn t331() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U1>>(); } // @ trait set of FixedU32<U1>
fn t332() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U2>>(); } // @ trait set of FixedU32<U2>
fn t333() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U3>>(); } // @ trait set of FixedU32<U3>
fn t334() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U4>>(); } // @ trait set of FixedU32<U4>
fn t335() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U5>>(); } // @ trait set of FixedU32<U5>
fn t336() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U6>>(); } // @ trait set of FixedU32<U6>
fn t337() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U7>>(); } // @ trait set of FixedU32<U7>
fn t338() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U8>>(); } // @ trait set of FixedU32<U8>
fn t339() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U9>>(); } // @ trait set of FixedU32<U9>
fn t340() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U10>>(); } // @ trait set of FixedU32<U10>
fn t341() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U11>>(); } // @ trait set of FixedU32<U11>
fn t342() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U12>>(); } // @ trait set of FixedU32<U12>
fn t343() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U13>>(); } // @ trait set of FixedU32<U13>
fn t344() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U14>>(); } // @ trait set of FixedU32<U14>
fn t345() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U15>>(); } // @ trait set of FixedU32<U15>
fn t346() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U16>>(); } // @ trait set of FixedU32<U16>
fn t347() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U17>>(); } // @ trait set of FixedU32<U17>
fn t348() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U18>>(); } // @ trait set of FixedU32<U18>
fn t349() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U19>>(); } // @ trait set of FixedU32<U19>
fn t350() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U20>>(); } // @ trait set of FixedU32<U20>
fn t351() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U21>>(); } // @ trait set of FixedU32<U21>
fn t352() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U22>>(); } // @ trait set of FixedU32<U22>
fn t353() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U23>>(); } // @ trait set of FixedU32<U23>
fn t354() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U24>>(); } // @ trait set of FixedU32<U24>
fn t355() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U25>>(); } // @ trait set of FixedU32<U25>
fn t356() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U26>>(); } // @ trait set of FixedU32<U26>
fn t357() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U27>>(); } // @ trait set of FixedU32<U27>
fn t358() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U28>>(); } // @ trait set of FixedU32<U28>
fn t359() { k_unsigned_fixed::<fixed::FixedU32<fixed::types::extra::U29>>(); } // @ trait set of FixedU32<U29>
fn t360() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U0>>(); } // @ trait set of FixedU64<U0>
fn t361() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U1>>(); } // @ trait set of FixedU64<U1>
fn t362() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U2>>(); } // @ trait set of FixedU64<U2>
fn t363() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U3>>(); } // @ trait set of FixedU64<U3>
fn t364() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U4>>(); } // @ trait set of FixedU64<U4>
fn t365() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U5>>(); } // @ trait set of FixedU64<U5>
fn t366() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U6>>(); } // @ trait set of FixedU64<U6>
fn t367() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U7>>(); } // @ trait set of FixedU64<U7>
fn t368() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U8>>(); } // @ trait set of FixedU64<U8>
fn t369() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U9>>(); } // @ trait set of FixedU64<U9>
fn t370() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U10>>(); } // @ trait set of FixedU64<U10>
fn t371() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U11>>(); } // @ trait set of FixedU64<U11>
fn t372() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U12>>(); } // @ trait set of FixedU64<U12>
fn t373() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U13>>(); } // @ trait set of FixedU64<U13>
fn t374() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U14>>(); } // @ trait set of FixedU64<U14>
fn t375() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U15>>(); } // @ trait set of FixedU64<U15>
fn t376() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U16>>(); } // @ trait set of FixedU64<U16>
fn t377() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U17>>(); } // @ trait set of FixedU64<U17>
fn t378() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U18>>(); } // @ trait set of FixedU64<U18>
fn t379() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U19>>(); } // @ trait set of FixedU64<U19>
fn t380() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U20>>(); } // @ trait set of FixedU64<U20>
fn t381() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U21>>(); } // @ trait set of FixedU64<U21>
fn t382() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U22>>(); } // @ trait set of FixedU64<U22>
fn t383() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U23>>(); } // @ trait set of FixedU64<U23>
fn t384() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U24>>(); } // @ trait set of FixedU64<U24>
fn t385() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U25>>(); } // @ trait set of FixedU64<U25>
fn t386() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U26>>(); } // @ trait set of FixedU64<U26>
fn t387() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U27>>(); } // @ trait set of FixedU64<U27>
fn t388() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U28>>(); } // @ trait set of FixedU64<U28>
fn t389() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U29>>(); } // @ trait set of FixedU64<U29>
fn t390() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U30>>(); } // @ trait set of FixedU64<U30>
fn t391() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U31>>(); } // @ trait set of FixedU64<U31>
fn t392() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U32>>(); } // @ trait set of FixedU64<U32>
fn t393() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U33>>(); } // @ trait set of FixedU64<U33>
fn t394() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U34>>(); } // @ trait set of FixedU64<U34>
fn t395() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U35>>(); } // @ trait set of FixedU64<U35>
fn t396() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U36>>(); } // @ trait set of FixedU64<U36>
fn t397() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U37>>(); } // @ trait set of FixedU64<U37>
fn t398() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U38>>(); } // @ trait set of FixedU64<U38>
fn t399() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U39>>(); } // @ trait set of FixedU64<U39>
fn t400() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U40>>(); } // @ trait set of FixedU64<U40>
fn t401() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U41>>(); } // @ trait set of FixedU64<U41>
fn t402() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U42>>(); } // @ trait set of FixedU64<U42>
fn t403() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U43>>(); } // @ trait set of FixedU64<U43>
fn t404() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U44>>(); } // @ trait set of FixedU64<U44>
fn t405() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U45>>(); } // @ trait set of FixedU64<U45>
fn t406() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U46>>(); } // @ trait set of FixedU64<U46>
fn t407() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U47>>(); } // @ trait set of FixedU64<U47>
fn t408() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U48>>(); } // @ trait set of FixedU64<U48>
fn t409() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U49>>(); } // @ trait set of FixedU64<U49>
fn t410() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U50>>(); } // @ trait set of FixedU64<U50>
fn t411() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U51>>(); } // @ trait set of FixedU64<U51>
fn t412() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U52>>(); } // @ trait set of FixedU64<U52>
fn t413() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U53>>(); } // @ trait set of FixedU64<U53>
fn t414() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U54>>(); } // @ trait set of FixedU64<U54>
fn t415() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U55>>(); } // @ trait set of FixedU64<U55>
fn t416() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U56>>(); } // @ trait set of FixedU64<U56>
fn t417() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U57>>(); } // @ trait set of FixedU64<U57>
fn t418() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U58>>(); } // @ trait set of FixedU64<U58>
fn t419() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U59>>(); } // @ trait set of FixedU64<U59>
fn t420() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U60>>(); } // @ trait set of FixedU64<U60>
fn t421() { k_unsigned_fixed::<fixed::FixedU64<fixed::types::extra::U61>>(); } // @ trait set of FixedU64<U61>
fn t422() { k_signed_int::<i8>(); } // @ trait set of i8
fn t423() { k_signed_int::<i16>(); } // @ trait set of i16
fn t424() { k_signed_int::<i32>(); } // @ trait set of i32
fn t425() { k_signed_int::<i64>(); } // @ trait set of i64
fn t426() { k_signed_int::<i128>(); } // @ trait set of i128
fn t427() { k_signed_int::<isize>(); } // @ trait set of isize
fn t428() { k_unsigned_int::<u8>(); } // @ trait set of u8
fn t429() { k_unsigned_int::<u16>(); } // @ trait set of u16
fn t430() { k_unsigned_int::<u32>(); } // @ trait set of u32
fn t431() { k_unsigned_int::<u64>(); } // @ trait set of u64
fn t432() { k_unsigned_int::<u128>(); } // @ trait set of u128
fn t433() { k_unsigned_int::<usize>(); } // @ trait set of usize
fn t434() { k_float::<f32>(); } // @ trait set of f32
fn t435() { k_float::<f64>(); } // @ trait set of f64
fn t436() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U0> as A<_>>::f; } // @ FixedU8<U0> must lack MixedNumSigned
fn t437() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U0> as A<_>>::f; } // @ FixedU8<U0> must lack MixedWrapPhase
fn t438() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU8<U0> must lack MixedComplex of Cartesian
fn t439() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU8<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU8<U0> must lack MixedComplex of Polar
fn t440() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU8<U0> must lack complex product
fn t441() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU8<U0> must lack complex quotient
fn t442() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU8<U0> must lack conjugate
fn t443() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U1> as A<_>>::f; } // @ FixedU8<U1> must lack MixedNumSigned
fn t444() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U1> as A<_>>::f; } // @ FixedU8<U1> must lack MixedWrapPhase
fn t445() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU8<U1> must lack MixedComplex of Cartesian
fn t446() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU8<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU8<U1> must lack MixedComplex of Polar
fn t447() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU8<U1> must lack complex product
fn t448() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU8<U1> must lack complex quotient
fn t449() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU8<U1> must lack conjugate
fn t450() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U2> as A<_>>::f; } // @ FixedU8<U2> must lack MixedNumSigned
fn t451() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U2> as A<_>>::f; } // @ FixedU8<U2> must lack MixedWrapPhase
fn t452() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU8<U2> must lack MixedComplex of Cartesian
fn t453() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU8<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU8<U2> must lack MixedComplex of Polar
fn t454() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU8<U2> must lack complex product
fn t455() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU8<U2> must lack complex quotient
fn t456() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU8<U2> must lack conjugate
fn t457() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U3> as A<_>>::f; } // @ FixedU8<U3> must lack MixedNumSigned
fn t458() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U3> as A<_>>::f; } // @ FixedU8<U3> must lack MixedWrapPhase
fn t459() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU8<U3> must lack MixedComplex of Cartesian
fn t460() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU8<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU8<U3> must lack MixedComplex of Polar
fn t461() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU8<U3> must lack complex product
fn t462() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU8<U3> must lack complex quotient
fn t463() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU8<U3> must lack conjugate
fn t464() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U4> as A<_>>::f; } // @ FixedU8<U4> must lack MixedNumSigned
fn t465() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U4> as A<_>>::f; } // @ FixedU8<U4> must lack MixedWrapPhase
fn t466() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU8<U4> must lack MixedComplex of Cartesian
fn t467() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU8<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU8<U4> must lack MixedComplex of Polar
fn t468() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU8<U4> must lack complex product
fn t469() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU8<U4> must lack complex quotient
fn t470() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU8<U4> must lack conjugate
fn t471() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U5> as A<_>>::f; } // @ FixedU8<U5> must lack MixedNumSigned
fn t472() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU8<fixed::types::extra::U5> as A<_>>::f; } // @ FixedU8<U5> must lack MixedWrapPhase
fn t473() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU8<U5> must lack MixedComplex of Cartesian
fn t474() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU8<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU8<U5> must lack MixedComplex of Polar
fn t475() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU8<U5> must lack complex product
fn t476() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU8<U5> must lack complex quotient
fn t477() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU8<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU8<U5> must lack conjugate
fn t478() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U0> as A<_>>::f; } // @ FixedU16<U0> must lack MixedNumSigned
fn t479() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U0> as A<_>>::f; } // @ FixedU16<U0> must lack MixedWrapPhase
fn t480() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU16<U0> must lack MixedComplex of Cartesian
fn t481() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU16<U0> must lack MixedComplex of Polar
fn t482() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU16<U0> must lack complex product
fn t483() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU16<U0> must lack complex quotient
fn t484() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU16<U0> must lack conjugate
fn t485() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U1> as A<_>>::f; } // @ FixedU16<U1> must lack MixedNumSigned
fn t486() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U1> as A<_>>::f; } // @ FixedU16<U1> must lack MixedWrapPhase
fn t487() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU16<U1> must lack MixedComplex of Cartesian
fn t488() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU16<U1> must lack MixedComplex of Polar
fn t489() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU16<U1> must lack complex product
fn t490() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU16<U1> must lack complex quotient
fn t491() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU16<U1> must lack conjugate
fn t492() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U2> as A<_>>::f; } // @ FixedU16<U2> must lack MixedNumSigned
fn t493() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U2> as A<_>>::f; } // @ FixedU16<U2> must lack MixedWrapPhase
fn t494() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU16<U2> must lack MixedComplex of Cartesian
fn t495() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU16<U2> must lack MixedComplex of Polar
fn t496() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU16<U2> must lack complex product
fn t497() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU16<U2> must lack complex quotient
fn t498() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU16<U2> must lack conjugate
fn t499() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U3> as A<_>>::f; } // @ FixedU16<U3> must lack MixedNumSigned
fn t500() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U3> as A<_>>::f; } // @ FixedU16<U3> must lack MixedWrapPhase
fn t501() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU16<U3> must lack MixedComplex of Cartesian
fn t502() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU16<U3> must lack MixedComplex of Polar
fn t503() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU16<U3> must lack complex product
fn t504() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU16<U3> must lack complex quotient
fn t505() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU16<U3> must lack conjugate
fn t506() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U4> as A<_>>::f; } // @ FixedU16<U4> must lack MixedNumSigned
fn t507() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U4> as A<_>>::f; } // @ FixedU16<U4> must lack MixedWrapPhase
fn t508() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU16<U4> must lack MixedComplex of Cartesian
fn t509() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU16<U4> must lack MixedComplex of Polar
fn t510() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU16<U4> must lack complex product
fn t511() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU16<U4> must lack complex quotient
fn t512() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU16<U4> must lack conjugate
fn t513() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U5> as A<_>>::f; } // @ FixedU16<U5> must lack MixedNumSigned
fn t514() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U5> as A<_>>::f; } // @ FixedU16<U5> must lack MixedWrapPhase
fn t515() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU16<U5> must lack MixedComplex of Cartesian
fn t516() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU16<U5> must lack MixedComplex of Polar
fn t517() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU16<U5> must lack complex product
fn t518() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU16<U5> must lack complex quotient
fn t519() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU16<U5> must lack conjugate
fn t520() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U6> as A<_>>::f; } // @ FixedU16<U6> must lack MixedNumSigned
fn t521() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U6> as A<_>>::f; } // @ FixedU16<U6> must lack MixedWrapPhase
fn t522() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU16<U6> must lack MixedComplex of Cartesian
fn t523() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU16<U6> must lack MixedComplex of Polar
fn t524() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U6>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU16<U6> must lack complex product
fn t525() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U6>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU16<U6> must lack complex quotient
fn t526() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U6>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU16<U6> must lack conjugate
fn t527() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U7> as A<_>>::f; } // @ FixedU16<U7> must lack MixedNumSigned
fn t528() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U7> as A<_>>::f; } // @ FixedU16<U7> must lack MixedWrapPhase
fn t529() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU16<U7> must lack MixedComplex of Cartesian
fn t530() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU16<U7> must lack MixedComplex of Polar
fn t531() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U7>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU16<U7> must lack complex product
fn t532() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U7>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU16<U7> must lack complex quotient
fn t533() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U7>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU16<U7> must lack conjugate
fn t534() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U8> as A<_>>::f; } // @ FixedU16<U8> must lack MixedNumSigned
fn t535() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U8> as A<_>>::f; } // @ FixedU16<U8> must lack MixedWrapPhase
fn t536() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU16<U8> must lack MixedComplex of Cartesian
fn t537() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU16<U8> must lack MixedComplex of Polar
fn t538() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U8>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU16<U8> must lack complex product
fn t539() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U8>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU16<U8> must lack complex quotient
fn t540() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U8>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU16<U8> must lack conjugate
fn t541() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U9> as A<_>>::f; } // @ FixedU16<U9> must lack MixedNumSigned
fn t542() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U9> as A<_>>::f; } // @ FixedU16<U9> must lack MixedWrapPhase
fn t543() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU16<U9> must lack MixedComplex of Cartesian
fn t544() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU16<U9> must lack MixedComplex of Polar
fn t545() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U9>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU16<U9> must lack complex product
fn t546() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U9>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU16<U9> must lack complex quotient
fn t547() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U9>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU16<U9> must lack conjugate
fn t548() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U10> as A<_>>::f; } // @ FixedU16<U10> must lack MixedNumSigned
fn t549() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U10> as A<_>>::f; } // @ FixedU16<U10> must lack MixedWrapPhase
fn t550() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU16<U10> must lack MixedComplex of Cartesian
fn t551() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU16<U10> must lack MixedComplex of Polar
fn t552() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U10>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU16<U10> must lack complex product
fn t553() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U10>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU16<U10> must lack complex quotient
fn t554() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U10>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU16<U10> must lack conjugate
fn t555() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U11> as A<_>>::f; } // @ FixedU16<U11> must lack MixedNumSigned
fn t556() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U11> as A<_>>::f; } // @ FixedU16<U11> must lack MixedWrapPhase
fn t557() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU16<U11> must lack MixedComplex of Cartesian
fn t558() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU16<U11> must lack MixedComplex of Polar
fn t559() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U11>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU16<U11> must lack complex product
fn t560() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U11>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU16<U11> must lack complex quotient
fn t561() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U11>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU16<U11> must lack conjugate
fn t562() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U12> as A<_>>::f; } // @ FixedU16<U12> must lack MixedNumSigned
fn t563() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U12> as A<_>>::f; } // @ FixedU16<U12> must lack MixedWrapPhase
fn t564() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU16<U12> must lack MixedComplex of Cartesian
fn t565() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU16<U12> must lack MixedComplex of Polar
fn t566() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U12>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU16<U12> must lack complex product
fn t567() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U12>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU16<U12> must lack complex quotient
fn t568() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U12>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU16<U12> must lack conjugate
fn t569() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U13> as A<_>>::f; } // @ FixedU16<U13> must lack MixedNumSigned
fn t570() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU16<fixed::types::extra::U13> as A<_>>::f; } // @ FixedU16<U13> must lack MixedWrapPhase
fn t571() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU16<U13> must lack MixedComplex of Cartesian
fn t572() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU16<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU16<U13> must lack MixedComplex of Polar
fn t573() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U13>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU16<U13> must lack complex product
fn t574() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U13>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU16<U13> must lack complex quotient
fn t575() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U13>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU16<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU16<U13> must lack conjugate
fn t576() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U0> as A<_>>::f; } // @ FixedU32<U0> must lack MixedNumSigned
fn t577() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U0> as A<_>>::f; } // @ FixedU32<U0> must lack MixedWrapPhase
fn t578() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU32<U0> must lack MixedComplex of Cartesian
fn t579() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU32<U0> must lack MixedComplex of Polar
fn t580() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU32<U0> must lack complex product
fn t581() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU32<U0> must lack complex quotient
fn t582() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU32<U0> must lack conjugate
fn t583() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U1> as A<_>>::f; } // @ FixedU32<U1> must lack MixedNumSigned
fn t584() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U1> as A<_>>::f; } // @ FixedU32<U1> must lack MixedWrapPhase
fn t585() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU32<U1> must lack MixedComplex of Cartesian
fn t586() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU32<U1> must lack MixedComplex of Polar
fn t587() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU32<U1> must lack complex product
fn t588() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU32<U1> must lack complex quotient
fn t589() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU32<U1> must lack conjugate
fn t590() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U2> as A<_>>::f; } // @ FixedU32<U2> must lack MixedNumSigned
fn t591() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U2> as A<_>>::f; } // @ FixedU32<U2> must lack MixedWrapPhase
fn t592() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU32<U2> must lack MixedComplex of Cartesian
fn t593() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU32<U2> must lack MixedComplex of Polar
fn t594() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU32<U2> must lack complex product
fn t595() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU32<U2> must lack complex quotient
fn t596() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU32<U2> must lack conjugate
fn t597() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U3> as A<_>>::f; } // @ FixedU32<U3> must lack MixedNumSigned
fn t598() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U3> as A<_>>::f; } // @ FixedU32<U3> must lack MixedWrapPhase
fn t599() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU32<U3> must lack MixedComplex of Cartesian
fn t600() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU32<U3> must lack MixedComplex of Polar
fn t601() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU32<U3> must lack complex product
fn t602() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU32<U3> must lack complex quotient
fn t603() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU32<U3> must lack conjugate
fn t604() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U4> as A<_>>::f; } // @ FixedU32<U4> must lack MixedNumSigned
fn t605() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U4> as A<_>>::f; } // @ FixedU32<U4> must lack MixedWrapPhase
fn t606() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU32<U4> must lack MixedComplex of Cartesian
fn t607() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU32<U4> must lack MixedComplex of Polar
fn t608() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU32<U4> must lack complex product
fn t609() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU32<U4> must lack complex quotient
fn t610() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU32<U4> must lack conjugate
fn t611() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U5> as A<_>>::f; } // @ FixedU32<U5> must lack MixedNumSigned
fn t612() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U5> as A<_>>::f; } // @ FixedU32<U5> must lack MixedWrapPhase
fn t613() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU32<U5> must lack MixedComplex of Cartesian
fn t614() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU32<U5> must lack MixedComplex of Polar
fn t615() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU32<U5> must lack complex product
fn t616() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU32<U5> must lack complex quotient
fn t617() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU32<U5> must lack conjugate
fn t618() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U6> as A<_>>::f; } // @ FixedU32<U6> must lack MixedNumSigned
fn t619() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U6> as A<_>>::f; } // @ FixedU32<U6> must lack MixedWrapPhase
fn t620() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU32<U6> must lack MixedComplex of Cartesian
fn t621() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU32<U6> must lack MixedComplex of Polar
fn t622() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U6>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU32<U6> must lack complex product
fn t623() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U6>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU32<U6> must lack complex quotient
fn t624() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U6>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU32<U6> must lack conjugate
fn t625() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U7> as A<_>>::f; } // @ FixedU32<U7> must lack MixedNumSigned
fn t626() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U7> as A<_>>::f; } // @ FixedU32<U7> must lack MixedWrapPhase
fn t627() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU32<U7> must lack MixedComplex of Cartesian
fn t628() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU32<U7> must lack MixedComplex of Polar
fn t629() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U7>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU32<U7> must lack complex product
fn t630() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U7>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU32<U7> must lack complex quotient
fn t631() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U7>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU32<U7> must lack conjugate
fn t632() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U8> as A<_>>::f; } // @ FixedU32<U8> must lack MixedNumSigned
fn t633() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U8> as A<_>>::f; } // @ FixedU32<U8> must lack MixedWrapPhase
fn t634() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU32<U8> must lack MixedComplex of Cartesian
fn t635() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU32<U8> must lack MixedComplex of Polar
fn t636() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U8>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU32<U8> must lack complex product
fn t637() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U8>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU32<U8> must lack complex quotient
fn t638() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U8>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU32<U8> must lack conjugate
fn t639() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U9> as A<_>>::f; } // @ FixedU32<U9> must lack MixedNumSigned
fn t640() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U9> as A<_>>::f; } // @ FixedU32<U9> must lack MixedWrapPhase
fn t641() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU32<U9> must lack MixedComplex of Cartesian
fn t642() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU32<U9> must lack MixedComplex of Polar
fn t643() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U9>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU32<U9> must lack complex product
fn t644() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U9>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU32<U9> must lack complex quotient
fn t645() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U9>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU32<U9> must lack conjugate
fn t646() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U10> as A<_>>::f; } // @ FixedU32<U10> must lack MixedNumSigned
fn t647() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U10> as A<_>>::f; } // @ FixedU32<U10> must lack MixedWrapPhase
fn t648() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU32<U10> must lack MixedComplex of Cartesian
fn t649() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU32<U10> must lack MixedComplex of Polar
fn t650() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U10>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU32<U10> must lack complex product
fn t651() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U10>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU32<U10> must lack complex quotient
fn t652() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U10>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU32<U10> must lack conjugate
fn t653() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U11> as A<_>>::f; } // @ FixedU32<U11> must lack MixedNumSigned
fn t654() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U11> as A<_>>::f; } // @ FixedU32<U11> must lack MixedWrapPhase
fn t655() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU32<U11> must lack MixedComplex of Cartesian
fn t656() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU32<U11> must lack MixedComplex of Polar
fn t657() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U11>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU32<U11> must lack complex product
fn t658() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U11>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU32<U11> must lack complex quotient
fn t659() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U11>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU32<U11> must lack conjugate
fn t660() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U12> as A<_>>::f; } // @ FixedU32<U12> must lack MixedNumSigned
fn t661() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U12> as A<_>>::f; } // @ FixedU32<U12> must lack MixedWrapPhase
fn t662() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU32<U12> must lack MixedComplex of Cartesian
fn t663() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU32<U12> must lack MixedComplex of Polar
fn t664() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U12>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU32<U12> must lack complex product
fn t665() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U12>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU32<U12> must lack complex quotient
fn t666() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U12>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU32<U12> must lack conjugate
fn t667() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U13> as A<_>>::f; } // @ FixedU32<U13> must lack MixedNumSigned
fn t668() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U13> as A<_>>::f; } // @ FixedU32<U13> must lack MixedWrapPhase
fn t669() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU32<U13> must lack MixedComplex of Cartesian
fn t670() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU32<U13> must lack MixedComplex of Polar
fn t671() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U13>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU32<U13> must lack complex product
fn t672() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U13>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU32<U13> must lack complex quotient
fn t673() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U13>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU32<U13> must lack conjugate
fn t674() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U14> as A<_>>::f; } // @ FixedU32<U14> must lack MixedNumSigned
fn t675() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U14> as A<_>>::f; } // @ FixedU32<U14> must lack MixedWrapPhase
fn t676() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU32<U14> must lack MixedComplex of Cartesian
fn t677() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU32<U14> must lack MixedComplex of Polar
fn t678() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U14>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU32<U14> must lack complex product
fn t679() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U14>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU32<U14> must lack complex quotient
fn t680() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U14>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU32<U14> must lack conjugate
fn t681() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U15> as A<_>>::f; } // @ FixedU32<U15> must lack MixedNumSigned
fn t682() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U15> as A<_>>::f; } // @ FixedU32<U15> must lack MixedWrapPhase
fn t683() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU32<U15> must lack MixedComplex of Cartesian
fn t684() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU32<U15> must lack MixedComplex of Polar
fn t685() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U15>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU32<U15> must lack complex product
fn t686() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U15>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU32<U15> must lack complex quotient
fn t687() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U15>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU32<U15> must lack conjugate
fn t688() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U16> as A<_>>::f; } // @ FixedU32<U16> must lack MixedNumSigned
fn t689() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U16> as A<_>>::f; } // @ FixedU32<U16> must lack MixedWrapPhase
fn t690() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU32<U16> must lack MixedComplex of Cartesian
fn t691() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU32<U16> must lack MixedComplex of Polar
fn t692() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U16>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU32<U16> must lack complex product
fn t693() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U16>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU32<U16> must lack complex quotient
fn t694() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U16>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU32<U16> must lack conjugate
fn t695() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U17> as A<_>>::f; } // @ FixedU32<U17> must lack MixedNumSigned
fn t696() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U17> as A<_>>::f; } // @ FixedU32<U17> must lack MixedWrapPhase
fn t697() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU32<U17> must lack MixedComplex of Cartesian
fn t698() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU32<U17> must lack MixedComplex of Polar
fn t699() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U17>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU32<U17> must lack complex product
fn t700() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U17>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU32<U17> must lack complex quotient
fn t701() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U17>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU32<U17> must lack conjugate
fn t702() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U18> as A<_>>::f; } // @ FixedU32<U18> must lack MixedNumSigned
fn t703() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U18> as A<_>>::f; } // @ FixedU32<U18> must lack MixedWrapPhase
fn t704() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU32<U18> must lack MixedComplex of Cartesian
fn t705() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU32<U18> must lack MixedComplex of Polar
fn t706() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U18>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU32<U18> must lack complex product
fn t707() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U18>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU32<U18> must lack complex quotient
fn t708() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U18>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU32<U18> must lack conjugate
fn t709() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U19> as A<_>>::f; } // @ FixedU32<U19> must lack MixedNumSigned
fn t710() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U19> as A<_>>::f; } // @ FixedU32<U19> must lack MixedWrapPhase
fn t711() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU32<U19> must lack MixedComplex of Cartesian
fn t712() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU32<U19> must lack MixedComplex of Polar
fn t713() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U19>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU32<U19> must lack complex product
fn t714() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U19>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU32<U19> must lack complex quotient
fn t715() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U19>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU32<U19> must lack conjugate
fn t716() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U20> as A<_>>::f; } // @ FixedU32<U20> must lack MixedNumSigned
fn t717() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U20> as A<_>>::f; } // @ FixedU32<U20> must lack MixedWrapPhase
fn t718() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU32<U20> must lack MixedComplex of Cartesian
fn t719() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU32<U20> must lack MixedComplex of Polar
fn t720() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U20>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU32<U20> must lack complex product
fn t721() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U20>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU32<U20> must lack complex quotient
fn t722() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U20>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU32<U20> must lack conjugate
fn t723() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U21> as A<_>>::f; } // @ FixedU32<U21> must lack MixedNumSigned
fn t724() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U21> as A<_>>::f; } // @ FixedU32<U21> must lack MixedWrapPhase
fn t725() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU32<U21> must lack MixedComplex of Cartesian
fn t726() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU32<U21> must lack MixedComplex of Polar
fn t727() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U21>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU32<U21> must lack complex product
fn t728() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U21>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU32<U21> must lack complex quotient
fn t729() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U21>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU32<U21> must lack conjugate
fn t730() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U22> as A<_>>::f; } // @ FixedU32<U22> must lack MixedNumSigned
fn t731() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U22> as A<_>>::f; } // @ FixedU32<U22> must lack MixedWrapPhase
fn t732() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU32<U22> must lack MixedComplex of Cartesian
fn t733() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU32<U22> must lack MixedComplex of Polar
fn t734() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U22>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU32<U22> must lack complex product
fn t735() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U22>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU32<U22> must lack complex quotient
fn t736() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U22>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU32<U22> must lack conjugate
fn t737() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U23> as A<_>>::f; } // @ FixedU32<U23> must lack MixedNumSigned
fn t738() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U23> as A<_>>::f; } // @ FixedU32<U23> must lack MixedWrapPhase
fn t739() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU32<U23> must lack MixedComplex of Cartesian
fn t740() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU32<U23> must lack MixedComplex of Polar
fn t741() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U23>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU32<U23> must lack complex product
fn t742() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U23>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU32<U23> must lack complex quotient
fn t743() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U23>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU32<U23> must lack conjugate
fn t744() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U24> as A<_>>::f; } // @ FixedU32<U24> must lack MixedNumSigned
fn t745() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U24> as A<_>>::f; } // @ FixedU32<U24> must lack MixedWrapPhase
fn t746() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU32<U24> must lack MixedComplex of Cartesian
fn t747() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU32<U24> must lack MixedComplex of Polar
fn t748() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U24>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU32<U24> must lack complex product
fn t749() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U24>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU32<U24> must lack complex quotient
fn t750() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U24>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU32<U24> must lack conjugate
fn t751() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U25> as A<_>>::f; } // @ FixedU32<U25> must lack MixedNumSigned
fn t752() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U25> as A<_>>::f; } // @ FixedU32<U25> must lack MixedWrapPhase
fn t753() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU32<U25> must lack MixedComplex of Cartesian
fn t754() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU32<U25> must lack MixedComplex of Polar
fn t755() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U25>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU32<U25> must lack complex product
fn t756() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U25>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU32<U25> must lack complex quotient
fn t757() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U25>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU32<U25> must lack conjugate
fn t758() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U26> as A<_>>::f; } // @ FixedU32<U26> must lack MixedNumSigned
fn t759() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U26> as A<_>>::f; } // @ FixedU32<U26> must lack MixedWrapPhase
fn t760() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU32<U26> must lack MixedComplex of Cartesian
fn t761() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU32<U26> must lack MixedComplex of Polar
fn t762() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U26>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU32<U26> must lack complex product
fn t763() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U26>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU32<U26> must lack complex quotient
fn t764() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U26>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU32<U26> must lack conjugate
fn t765() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U27> as A<_>>::f; } // @ FixedU32<U27> must lack MixedNumSigned
fn t766() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U27> as A<_>>::f; } // @ FixedU32<U27> must lack MixedWrapPhase
fn t767() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU32<U27> must lack MixedComplex of Cartesian
fn t768() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU32<U27> must lack MixedComplex of Polar
fn t769() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U27>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU32<U27> must lack complex product
fn t770() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U27>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU32<U27> must lack complex quotient
fn t771() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U27>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU32<U27> must lack conjugate
fn t772() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U28> as A<_>>::f; } // @ FixedU32<U28> must lack MixedNumSigned
fn t773() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U28> as A<_>>::f; } // @ FixedU32<U28> must lack MixedWrapPhase
fn t774() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU32<U28> must lack MixedComplex of Cartesian
fn t775() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU32<U28> must lack MixedComplex of Polar
fn t776() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U28>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU32<U28> must lack complex product
fn t777() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U28>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU32<U28> must lack complex quotient
fn t778() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U28>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU32<U28> must lack conjugate
fn t779() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U29> as A<_>>::f; } // @ FixedU32<U29> must lack MixedNumSigned
fn t780() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU32<fixed::types::extra::U29> as A<_>>::f; } // @ FixedU32<U29> must lack MixedWrapPhase
fn t781() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU32<U29> must lack MixedComplex of Cartesian
fn t782() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU32<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU32<U29> must lack MixedComplex of Polar
fn t783() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U29>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU32<U29> must lack complex product
fn t784() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U29>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU32<U29> must lack complex quotient
fn t785() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U29>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU32<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU32<U29> must lack conjugate
fn t786() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U0> as A<_>>::f; } // @ FixedU64<U0> must lack MixedNumSigned
fn t787() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U0> as A<_>>::f; } // @ FixedU64<U0> must lack MixedWrapPhase
fn t788() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU64<U0> must lack MixedComplex of Cartesian
fn t789() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU64<U0> must lack MixedComplex of Polar
fn t790() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU64<U0> must lack complex product
fn t791() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU64<U0> must lack complex quotient
fn t792() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U0>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U0>> as A<_>>::f; } // @ FixedU64<U0> must lack conjugate
fn t793() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U1> as A<_>>::f; } // @ FixedU64<U1> must lack MixedNumSigned
fn t794() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U1> as A<_>>::f; } // @ FixedU64<U1> must lack MixedWrapPhase
fn t795() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU64<U1> must lack MixedComplex of Cartesian
fn t796() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU64<U1> must lack MixedComplex of Polar
fn t797() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU64<U1> must lack complex product
fn t798() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU64<U1> must lack complex quotient
fn t799() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U1>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U1>> as A<_>>::f; } // @ FixedU64<U1> must lack conjugate
fn t800() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U2> as A<_>>::f; } // @ FixedU64<U2> must lack MixedNumSigned
fn t801() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U2> as A<_>>::f; } // @ FixedU64<U2> must lack MixedWrapPhase
fn t802() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU64<U2> must lack MixedComplex of Cartesian
fn t803() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU64<U2> must lack MixedComplex of Polar
fn t804() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU64<U2> must lack complex product
fn t805() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU64<U2> must lack complex quotient
fn t806() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U2>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U2>> as A<_>>::f; } // @ FixedU64<U2> must lack conjugate
fn t807() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U3> as A<_>>::f; } // @ FixedU64<U3> must lack MixedNumSigned
fn t808() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U3> as A<_>>::f; } // @ FixedU64<U3> must lack MixedWrapPhase
fn t809() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU64<U3> must lack MixedComplex of Cartesian
fn t810() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU64<U3> must lack MixedComplex of Polar
fn t811() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU64<U3> must lack complex product
fn t812() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU64<U3> must lack complex quotient
fn t813() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U3>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U3>> as A<_>>::f; } // @ FixedU64<U3> must lack conjugate
fn t814() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U4> as A<_>>::f; } // @ FixedU64<U4> must lack MixedNumSigned
fn t815() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U4> as A<_>>::f; } // @ FixedU64<U4> must lack MixedWrapPhase
fn t816() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU64<U4> must lack MixedComplex of Cartesian
fn t817() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU64<U4> must lack MixedComplex of Polar
fn t818() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU64<U4> must lack complex product
fn t819() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU64<U4> must lack complex quotient
fn t820() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U4>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U4>> as A<_>>::f; } // @ FixedU64<U4> must lack conjugate
fn t821() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U5> as A<_>>::f; } // @ FixedU64<U5> must lack MixedNumSigned
fn t822() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U5> as A<_>>::f; } // @ FixedU64<U5> must lack MixedWrapPhase
fn t823() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU64<U5> must lack MixedComplex of Cartesian
fn t824() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU64<U5> must lack MixedComplex of Polar
fn t825() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU64<U5> must lack complex product
fn t826() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU64<U5> must lack complex quotient
fn t827() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U5>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U5>> as A<_>>::f; } // @ FixedU64<U5> must lack conjugate
fn t828() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U6> as A<_>>::f; } // @ FixedU64<U6> must lack MixedNumSigned
fn t829() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U6> as A<_>>::f; } // @ FixedU64<U6> must lack MixedWrapPhase
fn t830() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU64<U6> must lack MixedComplex of Cartesian
fn t831() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU64<U6> must lack MixedComplex of Polar
fn t832() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U6>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU64<U6> must lack complex product
fn t833() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U6>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU64<U6> must lack complex quotient
fn t834() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U6>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U6>> as A<_>>::f; } // @ FixedU64<U6> must lack conjugate
fn t835() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U7> as A<_>>::f; } // @ FixedU64<U7> must lack MixedNumSigned
fn t836() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U7> as A<_>>::f; } // @ FixedU64<U7> must lack MixedWrapPhase
fn t837() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU64<U7> must lack MixedComplex of Cartesian
fn t838() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU64<U7> must lack MixedComplex of Polar
fn t839() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U7>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU64<U7> must lack complex product
fn t840() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U7>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU64<U7> must lack complex quotient
fn t841() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U7>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U7>> as A<_>>::f; } // @ FixedU64<U7> must lack conjugate
fn t842() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U8> as A<_>>::f; } // @ FixedU64<U8> must lack MixedNumSigned
fn t843() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U8> as A<_>>::f; } // @ FixedU64<U8> must lack MixedWrapPhase
fn t844() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU64<U8> must lack MixedComplex of Cartesian
fn t845() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU64<U8> must lack MixedComplex of Polar
fn t846() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U8>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU64<U8> must lack complex product
fn t847() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U8>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU64<U8> must lack complex quotient
fn t848() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U8>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U8>> as A<_>>::f; } // @ FixedU64<U8> must lack conjugate
fn t849() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U9> as A<_>>::f; } // @ FixedU64<U9> must lack MixedNumSigned
fn t850() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U9> as A<_>>::f; } // @ FixedU64<U9> must lack MixedWrapPhase
fn t851() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU64<U9> must lack MixedComplex of Cartesian
fn t852() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU64<U9> must lack MixedComplex of Polar
fn t853() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U9>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU64<U9> must lack complex product
fn t854() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U9>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU64<U9> must lack complex quotient
fn t855() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U9>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U9>> as A<_>>::f; } // @ FixedU64<U9> must lack conjugate
fn t856() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U10> as A<_>>::f; } // @ FixedU64<U10> must lack MixedNumSigned
fn t857() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U10> as A<_>>::f; } // @ FixedU64<U10> must lack MixedWrapPhase
fn t858() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU64<U10> must lack MixedComplex of Cartesian
fn t859() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU64<U10> must lack MixedComplex of Polar
fn t860() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U10>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU64<U10> must lack complex product
fn t861() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U10>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU64<U10> must lack complex quotient
fn t862() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U10>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U10>> as A<_>>::f; } // @ FixedU64<U10> must lack conjugate
fn t863() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U11> as A<_>>::f; } // @ FixedU64<U11> must lack MixedNumSigned
fn t864() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U11> as A<_>>::f; } // @ FixedU64<U11> must lack MixedWrapPhase
fn t865() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU64<U11> must lack MixedComplex of Cartesian
fn t866() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU64<U11> must lack MixedComplex of Polar
fn t867() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U11>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU64<U11> must lack complex product
fn t868() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U11>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU64<U11> must lack complex quotient
fn t869() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U11>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U11>> as A<_>>::f; } // @ FixedU64<U11> must lack conjugate
fn t870() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U12> as A<_>>::f; } // @ FixedU64<U12> must lack MixedNumSigned
fn t871() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U12> as A<_>>::f; } // @ FixedU64<U12> must lack MixedWrapPhase
fn t872() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU64<U12> must lack MixedComplex of Cartesian
fn t873() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU64<U12> must lack MixedComplex of Polar
fn t874() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U12>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU64<U12> must lack complex product
fn t875() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U12>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU64<U12> must lack complex quotient
fn t876() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U12>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U12>> as A<_>>::f; } // @ FixedU64<U12> must lack conjugate
fn t877() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U13> as A<_>>::f; } // @ FixedU64<U13> must lack MixedNumSigned
fn t878() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U13> as A<_>>::f; } // @ FixedU64<U13> must lack MixedWrapPhase
fn t879() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU64<U13> must lack MixedComplex of Cartesian
fn t880() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU64<U13> must lack MixedComplex of Polar
fn t881() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U13>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU64<U13> must lack complex product
fn t882() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U13>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU64<U13> must lack complex quotient
fn t883() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U13>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U13>> as A<_>>::f; } // @ FixedU64<U13> must lack conjugate
fn t884() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U14> as A<_>>::f; } // @ FixedU64<U14> must lack MixedNumSigned
fn t885() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U14> as A<_>>::f; } // @ FixedU64<U14> must lack MixedWrapPhase
fn t886() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU64<U14> must lack MixedComplex of Cartesian
fn t887() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU64<U14> must lack MixedComplex of Polar
fn t888() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U14>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU64<U14> must lack complex product
fn t889() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U14>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU64<U14> must lack complex quotient
fn t890() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U14>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U14>> as A<_>>::f; } // @ FixedU64<U14> must lack conjugate
fn t891() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U15> as A<_>>::f; } // @ FixedU64<U15> must lack MixedNumSigned
fn t892() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U15> as A<_>>::f; } // @ FixedU64<U15> must lack MixedWrapPhase
fn t893() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU64<U15> must lack MixedComplex of Cartesian
fn t894() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU64<U15> must lack MixedComplex of Polar
fn t895() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U15>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU64<U15> must lack complex product
fn t896() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U15>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU64<U15> must lack complex quotient
fn t897() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U15>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U15>> as A<_>>::f; } // @ FixedU64<U15> must lack conjugate
fn t898() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U16> as A<_>>::f; } // @ FixedU64<U16> must lack MixedNumSigned
fn t899() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U16> as A<_>>::f; } // @ FixedU64<U16> must lack MixedWrapPhase
fn t900() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU64<U16> must lack MixedComplex of Cartesian
fn t901() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU64<U16> must lack MixedComplex of Polar
fn t902() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U16>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU64<U16> must lack complex product
fn t903() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U16>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU64<U16> must lack complex quotient
fn t904() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U16>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U16>> as A<_>>::f; } // @ FixedU64<U16> must lack conjugate
fn t905() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U17> as A<_>>::f; } // @ FixedU64<U17> must lack MixedNumSigned
fn t906() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U17> as A<_>>::f; } // @ FixedU64<U17> must lack MixedWrapPhase
fn t907() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU64<U17> must lack MixedComplex of Cartesian
fn t908() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU64<U17> must lack MixedComplex of Polar
fn t909() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U17>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU64<U17> must lack complex product
fn t910() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U17>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU64<U17> must lack complex quotient
fn t911() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U17>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U17>> as A<_>>::f; } // @ FixedU64<U17> must lack conjugate
fn t912() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U18> as A<_>>::f; } // @ FixedU64<U18> must lack MixedNumSigned
fn t913() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U18> as A<_>>::f; } // @ FixedU64<U18> must lack MixedWrapPhase
fn t914() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU64<U18> must lack MixedComplex of Cartesian
fn t915() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU64<U18> must lack MixedComplex of Polar
fn t916() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U18>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU64<U18> must lack complex product
fn t917() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U18>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU64<U18> must lack complex quotient
fn t918() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U18>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U18>> as A<_>>::f; } // @ FixedU64<U18> must lack conjugate
fn t919() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U19> as A<_>>::f; } // @ FixedU64<U19> must lack MixedNumSigned
fn t920() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U19> as A<_>>::f; } // @ FixedU64<U19> must lack MixedWrapPhase
fn t921() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU64<U19> must lack MixedComplex of Cartesian
fn t922() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU64<U19> must lack MixedComplex of Polar
fn t923() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U19>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU64<U19> must lack complex product
fn t924() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U19>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU64<U19> must lack complex quotient
fn t925() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U19>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U19>> as A<_>>::f; } // @ FixedU64<U19> must lack conjugate
fn t926() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U20> as A<_>>::f; } // @ FixedU64<U20> must lack MixedNumSigned
fn t927() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U20> as A<_>>::f; } // @ FixedU64<U20> must lack MixedWrapPhase
fn t928() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU64<U20> must lack MixedComplex of Cartesian
fn t929() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU64<U20> must lack MixedComplex of Polar
fn t930() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U20>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU64<U20> must lack complex product
fn t931() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U20>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU64<U20> must lack complex quotient
fn t932() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U20>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U20>> as A<_>>::f; } // @ FixedU64<U20> must lack conjugate
fn t933() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U21> as A<_>>::f; } // @ FixedU64<U21> must lack MixedNumSigned
fn t934() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U21> as A<_>>::f; } // @ FixedU64<U21> must lack MixedWrapPhase
fn t935() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU64<U21> must lack MixedComplex of Cartesian
fn t936() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU64<U21> must lack MixedComplex of Polar
fn t937() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U21>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU64<U21> must lack complex product
fn t938() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U21>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU64<U21> must lack complex quotient
fn t939() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U21>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U21>> as A<_>>::f; } // @ FixedU64<U21> must lack conjugate
fn t940() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U22> as A<_>>::f; } // @ FixedU64<U22> must lack MixedNumSigned
fn t941() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U22> as A<_>>::f; } // @ FixedU64<U22> must lack MixedWrapPhase
fn t942() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU64<U22> must lack MixedComplex of Cartesian
fn t943() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU64<U22> must lack MixedComplex of Polar
fn t944() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U22>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU64<U22> must lack complex product
fn t945() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U22>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU64<U22> must lack complex quotient
fn t946() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U22>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U22>> as A<_>>::f; } // @ FixedU64<U22> must lack conjugate
fn t947() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U23> as A<_>>::f; } // @ FixedU64<U23> must lack MixedNumSigned
fn t948() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U23> as A<_>>::f; } // @ FixedU64<U23> must lack MixedWrapPhase
fn t949() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU64<U23> must lack MixedComplex of Cartesian
fn t950() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU64<U23> must lack MixedComplex of Polar
fn t951() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U23>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU64<U23> must lack complex product
fn t952() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U23>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU64<U23> must lack complex quotient
fn t953() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U23>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U23>> as A<_>>::f; } // @ FixedU64<U23> must lack conjugate
fn t954() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U24> as A<_>>::f; } // @ FixedU64<U24> must lack MixedNumSigned
fn t955() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U24> as A<_>>::f; } // @ FixedU64<U24> must lack MixedWrapPhase
fn t956() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU64<U24> must lack MixedComplex of Cartesian
fn t957() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU64<U24> must lack MixedComplex of Polar
fn t958() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U24>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU64<U24> must lack complex product
fn t959() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U24>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU64<U24> must lack complex quotient
fn t960() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U24>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U24>> as A<_>>::f; } // @ FixedU64<U24> must lack conjugate
fn t961() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U25> as A<_>>::f; } // @ FixedU64<U25> must lack MixedNumSigned
fn t962() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U25> as A<_>>::f; } // @ FixedU64<U25> must lack MixedWrapPhase
fn t963() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU64<U25> must lack MixedComplex of Cartesian
fn t964() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU64<U25> must lack MixedComplex of Polar
fn t965() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U25>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU64<U25> must lack complex product
fn t966() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U25>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU64<U25> must lack complex quotient
fn t967() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U25>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U25>> as A<_>>::f; } // @ FixedU64<U25> must lack conjugate
fn t968() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U26> as A<_>>::f; } // @ FixedU64<U26> must lack MixedNumSigned
fn t969() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U26> as A<_>>::f; } // @ FixedU64<U26> must lack MixedWrapPhase
fn t970() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU64<U26> must lack MixedComplex of Cartesian
fn t971() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU64<U26> must lack MixedComplex of Polar
fn t972() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U26>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU64<U26> must lack complex product
fn t973() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U26>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU64<U26> must lack complex quotient
fn t974() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U26>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U26>> as A<_>>::f; } // @ FixedU64<U26> must lack conjugate
fn t975() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U27> as A<_>>::f; } // @ FixedU64<U27> must lack MixedNumSigned
fn t976() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U27> as A<_>>::f; } // @ FixedU64<U27> must lack MixedWrapPhase
fn t977() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU64<U27> must lack MixedComplex of Cartesian
fn t978() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU64<U27> must lack MixedComplex of Polar
fn t979() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U27>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU64<U27> must lack complex product
fn t980() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U27>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU64<U27> must lack complex quotient
fn t981() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U27>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U27>> as A<_>>::f; } // @ FixedU64<U27> must lack conjugate
fn t982() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U28> as A<_>>::f; } // @ FixedU64<U28> must lack MixedNumSigned
fn t983() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U28> as A<_>>::f; } // @ FixedU64<U28> must lack MixedWrapPhase
fn t984() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU64<U28> must lack MixedComplex of Cartesian
fn t985() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU64<U28> must lack MixedComplex of Polar
fn t986() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U28>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU64<U28> must lack complex product
fn t987() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U28>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU64<U28> must lack complex quotient
fn t988() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U28>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U28>> as A<_>>::f; } // @ FixedU64<U28> must lack conjugate
fn t989() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U29> as A<_>>::f; } // @ FixedU64<U29> must lack MixedNumSigned
fn t990() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U29> as A<_>>::f; } // @ FixedU64<U29> must lack MixedWrapPhase
fn t991() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU64<U29> must lack MixedComplex of Cartesian
fn t992() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU64<U29> must lack MixedComplex of Polar
fn t993() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U29>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU64<U29> must lack complex product
fn t994() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U29>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU64<U29> must lack complex quotient
fn t995() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U29>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U29>> as A<_>>::f; } // @ FixedU64<U29> must lack conjugate
fn t996() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U30> as A<_>>::f; } // @ FixedU64<U30> must lack MixedNumSigned
fn t997() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U30> as A<_>>::f; } // @ FixedU64<U30> must lack MixedWrapPhase
fn t998() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U30>> as A<_>>::f; } // @ FixedU64<U30> must lack MixedComplex of Cartesian
fn t999() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U30>> as A<_>>::f; } // @ FixedU64<U30> must lack MixedComplex of Polar
fn t1000() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U30>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U30>> as A<_>>::f; } // @ FixedU64<U30> must lack complex product
fn t1001() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U30>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U30>> as A<_>>::f; } // @ FixedU64<U30> must lack complex quotient
fn t1002() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U30>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U30>> as A<_>>::f; } // @ FixedU64<U30> must lack conjugate
fn t1003() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U31> as A<_>>::f; } // @ FixedU64<U31> must lack MixedNumSigned
fn t1004() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U31> as A<_>>::f; } // @ FixedU64<U31> must lack MixedWrapPhase
fn t1005() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U31>> as A<_>>::f; } // @ FixedU64<U31> must lack MixedComplex of Cartesian
fn t1006() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U31>> as A<_>>::f; } // @ FixedU64<U31> must lack MixedComplex of Polar
fn t1007() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U31>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U31>> as A<_>>::f; } // @ FixedU64<U31> must lack complex product
fn t1008() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U31>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U31>> as A<_>>::f; } // @ FixedU64<U31> must lack complex quotient
fn t1009() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U31>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U31>> as A<_>>::f; } // @ FixedU64<U31> must lack conjugate
fn t1010() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U32> as A<_>>::f; } // @ FixedU64<U32> must lack MixedNumSigned
fn t1011() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U32> as A<_>>::f; } // @ FixedU64<U32> must lack MixedWrapPhase
fn t1012() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U32>> as A<_>>::f; } // @ FixedU64<U32> must lack MixedComplex of Cartesian
fn t1013() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U32>> as A<_>>::f; } // @ FixedU64<U32> must lack MixedComplex of Polar
fn t1014() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U32>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U32>> as A<_>>::f; } // @ FixedU64<U32> must lack complex product
fn t1015() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U32>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U32>> as A<_>>::f; } // @ FixedU64<U32> must lack complex quotient
fn t1016() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U32>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U32>> as A<_>>::f; } // @ FixedU64<U32> must lack conjugate
fn t1017() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U33> as A<_>>::f; } // @ FixedU64<U33> must lack MixedNumSigned
fn t1018() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U33> as A<_>>::f; } // @ FixedU64<U33> must lack MixedWrapPhase
fn t1019() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U33>> as A<_>>::f; } // @ FixedU64<U33> must lack MixedComplex of Cartesian
fn t1020() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U33>> as A<_>>::f; } // @ FixedU64<U33> must lack MixedComplex of Polar
fn t1021() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U33>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U33>> as A<_>>::f; } // @ FixedU64<U33> must lack complex product
fn t1022() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U33>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U33>> as A<_>>::f; } // @ FixedU64<U33> must lack complex quotient
fn t1023() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U33>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U33>> as A<_>>::f; } // @ FixedU64<U33> must lack conjugate
fn t1024() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U34> as A<_>>::f; } // @ FixedU64<U34> must lack MixedNumSigned
fn t1025() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U34> as A<_>>::f; } // @ FixedU64<U34> must lack MixedWrapPhase
fn t1026() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U34>> as A<_>>::f; } // @ FixedU64<U34> must lack MixedComplex of Cartesian
fn t1027() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U34>> as A<_>>::f; } // @ FixedU64<U34> must lack MixedComplex of Polar
fn t1028() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U34>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U34>> as A<_>>::f; } // @ FixedU64<U34> must lack complex product
fn t1029() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U34>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U34>> as A<_>>::f; } // @ FixedU64<U34> must lack complex quotient
fn t1030() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U34>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U34>> as A<_>>::f; } // @ FixedU64<U34> must lack conjugate
fn t1031() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U35> as A<_>>::f; } // @ FixedU64<U35> must lack MixedNumSigned
fn t1032() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U35> as A<_>>::f; } // @ FixedU64<U35> must lack MixedWrapPhase
fn t1033() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U35>> as A<_>>::f; } // @ FixedU64<U35> must lack MixedComplex of Cartesian
fn t1034() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U35>> as A<_>>::f; } // @ FixedU64<U35> must lack MixedComplex of Polar
fn t1035() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U35>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U35>> as A<_>>::f; } // @ FixedU64<U35> must lack complex product
fn t1036() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U35>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U35>> as A<_>>::f; } // @ FixedU64<U35> must lack complex quotient
fn t1037() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U35>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U35>> as A<_>>::f; } // @ FixedU64<U35> must lack conjugate
fn t1038() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U36> as A<_>>::f; } // @ FixedU64<U36> must lack MixedNumSigned
fn t1039() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U36> as A<_>>::f; } // @ FixedU64<U36> must lack MixedWrapPhase
fn t1040() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U36>> as A<_>>::f; } // @ FixedU64<U36> must lack MixedComplex of Cartesian
fn t1041() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U36>> as A<_>>::f; } // @ FixedU64<U36> must lack MixedComplex of Polar
fn t1042() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U36>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U36>> as A<_>>::f; } // @ FixedU64<U36> must lack complex product
fn t1043() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U36>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U36>> as A<_>>::f; } // @ FixedU64<U36> must lack complex quotient
fn t1044() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U36>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U36>> as A<_>>::f; } // @ FixedU64<U36> must lack conjugate
fn t1045() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U37> as A<_>>::f; } // @ FixedU64<U37> must lack MixedNumSigned
fn t1046() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U37> as A<_>>::f; } // @ FixedU64<U37> must lack MixedWrapPhase
fn t1047() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U37>> as A<_>>::f; } // @ FixedU64<U37> must lack MixedComplex of Cartesian
fn t1048() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U37>> as A<_>>::f; } // @ FixedU64<U37> must lack MixedComplex of Polar
fn t1049() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U37>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U37>> as A<_>>::f; } // @ FixedU64<U37> must lack complex product
fn t1050() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U37>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U37>> as A<_>>::f; } // @ FixedU64<U37> must lack complex quotient
fn t1051() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U37>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U37>> as A<_>>::f; } // @ FixedU64<U37> must lack conjugate
fn t1052() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U38> as A<_>>::f; } // @ FixedU64<U38> must lack MixedNumSigned
fn t1053() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U38> as A<_>>::f; } // @ FixedU64<U38> must lack MixedWrapPhase
fn t1054() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U38>> as A<_>>::f; } // @ FixedU64<U38> must lack MixedComplex of Cartesian
fn t1055() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U38>> as A<_>>::f; } // @ FixedU64<U38> must lack MixedComplex of Polar
fn t1056() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U38>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U38>> as A<_>>::f; } // @ FixedU64<U38> must lack complex product
fn t1057() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U38>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U38>> as A<_>>::f; } // @ FixedU64<U38> must lack complex quotient
fn t1058() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U38>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U38>> as A<_>>::f; } // @ FixedU64<U38> must lack conjugate
fn t1059() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U39> as A<_>>::f; } // @ FixedU64<U39> must lack MixedNumSigned
fn t1060() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U39> as A<_>>::f; } // @ FixedU64<U39> must lack MixedWrapPhase
fn t1061() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U39>> as A<_>>::f; } // @ FixedU64<U39> must lack MixedComplex of Cartesian
fn t1062() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U39>> as A<_>>::f; } // @ FixedU64<U39> must lack MixedComplex of Polar
fn t1063() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U39>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U39>> as A<_>>::f; } // @ FixedU64<U39> must lack complex product
fn t1064() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U39>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U39>> as A<_>>::f; } // @ FixedU64<U39> must lack complex quotient
fn t1065() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U39>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U39>> as A<_>>::f; } // @ FixedU64<U39> must lack conjugate
fn t1066() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U40> as A<_>>::f; } // @ FixedU64<U40> must lack MixedNumSigned
fn t1067() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U40> as A<_>>::f; } // @ FixedU64<U40> must lack MixedWrapPhase
fn t1068() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U40>> as A<_>>::f; } // @ FixedU64<U40> must lack MixedComplex of Cartesian
fn t1069() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U40>> as A<_>>::f; } // @ FixedU64<U40> must lack MixedComplex of Polar
fn t1070() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U40>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U40>> as A<_>>::f; } // @ FixedU64<U40> must lack complex product
fn t1071() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U40>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U40>> as A<_>>::f; } // @ FixedU64<U40> must lack complex quotient
fn t1072() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U40>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U40>> as A<_>>::f; } // @ FixedU64<U40> must lack conjugate
fn t1073() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U41> as A<_>>::f; } // @ FixedU64<U41> must lack MixedNumSigned
fn t1074() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U41> as A<_>>::f; } // @ FixedU64<U41> must lack MixedWrapPhase
fn t1075() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U41>> as A<_>>::f; } // @ FixedU64<U41> must lack MixedComplex of Cartesian
fn t1076() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U41>> as A<_>>::f; } // @ FixedU64<U41> must lack MixedComplex of Polar
fn t1077() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U41>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U41>> as A<_>>::f; } // @ FixedU64<U41> must lack complex product
fn t1078() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U41>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U41>> as A<_>>::f; } // @ FixedU64<U41> must lack complex quotient
fn t1079() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U41>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U41>> as A<_>>::f; } // @ FixedU64<U41> must lack conjugate
fn t1080() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U42> as A<_>>::f; } // @ FixedU64<U42> must lack MixedNumSigned
fn t1081() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U42> as A<_>>::f; } // @ FixedU64<U42> must lack MixedWrapPhase
fn t1082() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U42>> as A<_>>::f; } // @ FixedU64<U42> must lack MixedComplex of Cartesian
fn t1083() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U42>> as A<_>>::f; } // @ FixedU64<U42> must lack MixedComplex of Polar
fn t1084() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U42>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U42>> as A<_>>::f; } // @ FixedU64<U42> must lack complex product
fn t1085() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U42>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U42>> as A<_>>::f; } // @ FixedU64<U42> must lack complex quotient
fn t1086() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U42>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U42>> as A<_>>::f; } // @ FixedU64<U42> must lack conjugate
fn t1087() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U43> as A<_>>::f; } // @ FixedU64<U43> must lack MixedNumSigned
fn t1088() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U43> as A<_>>::f; } // @ FixedU64<U43> must lack MixedWrapPhase
fn t1089() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U43>> as A<_>>::f; } // @ FixedU64<U43> must lack MixedComplex of Cartesian
fn t1090() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U43>> as A<_>>::f; } // @ FixedU64<U43> must lack MixedComplex of Polar
fn t1091() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U43>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U43>> as A<_>>::f; } // @ FixedU64<U43> must lack complex product
fn t1092() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U43>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U43>> as A<_>>::f; } // @ FixedU64<U43> must lack complex quotient
fn t1093() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U43>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U43>> as A<_>>::f; } // @ FixedU64<U43> must lack conjugate
fn t1094() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U44> as A<_>>::f; } // @ FixedU64<U44> must lack MixedNumSigned
fn t1095() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U44> as A<_>>::f; } // @ FixedU64<U44> must lack MixedWrapPhase
fn t1096() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U44>> as A<_>>::f; } // @ FixedU64<U44> must lack MixedComplex of Cartesian
fn t1097() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U44>> as A<_>>::f; } // @ FixedU64<U44> must lack MixedComplex of Polar
fn t1098() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U44>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U44>> as A<_>>::f; } // @ FixedU64<U44> must lack complex product
fn t1099() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U44>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U44>> as A<_>>::f; } // @ FixedU64<U44> must lack complex quotient
fn t1100() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U44>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U44>> as A<_>>::f; } // @ FixedU64<U44> must lack conjugate
fn t1101() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U45> as A<_>>::f; } // @ FixedU64<U45> must lack MixedNumSigned
fn t1102() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U45> as A<_>>::f; } // @ FixedU64<U45> must lack MixedWrapPhase
fn t1103() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U45>> as A<_>>::f; } // @ FixedU64<U45> must lack MixedComplex of Cartesian
fn t1104() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U45>> as A<_>>::f; } // @ FixedU64<U45> must lack MixedComplex of Polar
fn t1105() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U45>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U45>> as A<_>>::f; } // @ FixedU64<U45> must lack complex product
fn t1106() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U45>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U45>> as A<_>>::f; } // @ FixedU64<U45> must lack complex quotient
fn t1107() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U45>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U45>> as A<_>>::f; } // @ FixedU64<U45> must lack conjugate
fn t1108() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U46> as A<_>>::f; } // @ FixedU64<U46> must lack MixedNumSigned
fn t1109() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U46> as A<_>>::f; } // @ FixedU64<U46> must lack MixedWrapPhase
fn t1110() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U46>> as A<_>>::f; } // @ FixedU64<U46> must lack MixedComplex of Cartesian
fn t1111() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U46>> as A<_>>::f; } // @ FixedU64<U46> must lack MixedComplex of Polar
fn t1112() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U46>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U46>> as A<_>>::f; } // @ FixedU64<U46> must lack complex product
fn t1113() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U46>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U46>> as A<_>>::f; } // @ FixedU64<U46> must lack complex quotient
fn t1114() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U46>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U46>> as A<_>>::f; } // @ FixedU64<U46> must lack conjugate
fn t1115() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U47> as A<_>>::f; } // @ FixedU64<U47> must lack MixedNumSigned
fn t1116() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U47> as A<_>>::f; } // @ FixedU64<U47> must lack MixedWrapPhase
fn t1117() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U47>> as A<_>>::f; } // @ FixedU64<U47> must lack MixedComplex of Cartesian
fn t1118() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U47>> as A<_>>::f; } // @ FixedU64<U47> must lack MixedComplex of Polar
fn t1119() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U47>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U47>> as A<_>>::f; } // @ FixedU64<U47> must lack complex product
fn t1120() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U47>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U47>> as A<_>>::f; } // @ FixedU64<U47> must lack complex quotient
fn t1121() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U47>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U47>> as A<_>>::f; } // @ FixedU64<U47> must lack conjugate
fn t1122() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U48> as A<_>>::f; } // @ FixedU64<U48> must lack MixedNumSigned
fn t1123() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U48> as A<_>>::f; } // @ FixedU64<U48> must lack MixedWrapPhase
fn t1124() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U48>> as A<_>>::f; } // @ FixedU64<U48> must lack MixedComplex of Cartesian
fn t1125() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U48>> as A<_>>::f; } // @ FixedU64<U48> must lack MixedComplex of Polar
fn t1126() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U48>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U48>> as A<_>>::f; } // @ FixedU64<U48> must lack complex product
fn t1127() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U48>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U48>> as A<_>>::f; } // @ FixedU64<U48> must lack complex quotient
fn t1128() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U48>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U48>> as A<_>>::f; } // @ FixedU64<U48> must lack conjugate
fn t1129() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U49> as A<_>>::f; } // @ FixedU64<U49> must lack MixedNumSigned
fn t1130() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U49> as A<_>>::f; } // @ FixedU64<U49> must lack MixedWrapPhase
fn t1131() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U49>> as A<_>>::f; } // @ FixedU64<U49> must lack MixedComplex of Cartesian
fn t1132() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U49>> as A<_>>::f; } // @ FixedU64<U49> must lack MixedComplex of Polar
fn t1133() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U49>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U49>> as A<_>>::f; } // @ FixedU64<U49> must lack complex product
fn t1134() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U49>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U49>> as A<_>>::f; } // @ FixedU64<U49> must lack complex quotient
fn t1135() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U49>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U49>> as A<_>>::f; } // @ FixedU64<U49> must lack conjugate
fn t1136() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U50> as A<_>>::f; } // @ FixedU64<U50> must lack MixedNumSigned
fn t1137() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U50> as A<_>>::f; } // @ FixedU64<U50> must lack MixedWrapPhase
fn t1138() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U50>> as A<_>>::f; } // @ FixedU64<U50> must lack MixedComplex of Cartesian
fn t1139() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U50>> as A<_>>::f; } // @ FixedU64<U50> must lack MixedComplex of Polar
fn t1140() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U50>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U50>> as A<_>>::f; } // @ FixedU64<U50> must lack complex product
fn t1141() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U50>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U50>> as A<_>>::f; } // @ FixedU64<U50> must lack complex quotient
fn t1142() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U50>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U50>> as A<_>>::f; } // @ FixedU64<U50> must lack conjugate
fn t1143() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U51> as A<_>>::f; } // @ FixedU64<U51> must lack MixedNumSigned
fn t1144() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U51> as A<_>>::f; } // @ FixedU64<U51> must lack MixedWrapPhase
fn t1145() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U51>> as A<_>>::f; } // @ FixedU64<U51> must lack MixedComplex of Cartesian
fn t1146() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U51>> as A<_>>::f; } // @ FixedU64<U51> must lack MixedComplex of Polar
fn t1147() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U51>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U51>> as A<_>>::f; } // @ FixedU64<U51> must lack complex product
fn t1148() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U51>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U51>> as A<_>>::f; } // @ FixedU64<U51> must lack complex quotient
fn t1149() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U51>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U51>> as A<_>>::f; } // @ FixedU64<U51> must lack conjugate
fn t1150() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U52> as A<_>>::f; } // @ FixedU64<U52> must lack MixedNumSigned
fn t1151() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U52> as A<_>>::f; } // @ FixedU64<U52> must lack MixedWrapPhase
fn t1152() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U52>> as A<_>>::f; } // @ FixedU64<U52> must lack MixedComplex of Cartesian
fn t1153() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U52>> as A<_>>::f; } // @ FixedU64<U52> must lack MixedComplex of Polar
fn t1154() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U52>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U52>> as A<_>>::f; } // @ FixedU64<U52> must lack complex product
fn t1155() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U52>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U52>> as A<_>>::f; } // @ FixedU64<U52> must lack complex quotient
fn t1156() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U52>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U52>> as A<_>>::f; } // @ FixedU64<U52> must lack conjugate
fn t1157() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U53> as A<_>>::f; } // @ FixedU64<U53> must lack MixedNumSigned
fn t1158() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U53> as A<_>>::f; } // @ FixedU64<U53> must lack MixedWrapPhase
fn t1159() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U53>> as A<_>>::f; } // @ FixedU64<U53> must lack MixedComplex of Cartesian
fn t1160() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U53>> as A<_>>::f; } // @ FixedU64<U53> must lack MixedComplex of Polar
fn t1161() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U53>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U53>> as A<_>>::f; } // @ FixedU64<U53> must lack complex product
fn t1162() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U53>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U53>> as A<_>>::f; } // @ FixedU64<U53> must lack complex quotient
fn t1163() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U53>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U53>> as A<_>>::f; } // @ FixedU64<U53> must lack conjugate
fn t1164() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U54> as A<_>>::f; } // @ FixedU64<U54> must lack MixedNumSigned
fn t1165() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U54> as A<_>>::f; } // @ FixedU64<U54> must lack MixedWrapPhase
fn t1166() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U54>> as A<_>>::f; } // @ FixedU64<U54> must lack MixedComplex of Cartesian
fn t1167() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U54>> as A<_>>::f; } // @ FixedU64<U54> must lack MixedComplex of Polar
fn t1168() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U54>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U54>> as A<_>>::f; } // @ FixedU64<U54> must lack complex product
fn t1169() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U54>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U54>> as A<_>>::f; } // @ FixedU64<U54> must lack complex quotient
fn t1170() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U54>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U54>> as A<_>>::f; } // @ FixedU64<U54> must lack conjugate
fn t1171() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U55> as A<_>>::f; } // @ FixedU64<U55> must lack MixedNumSigned
fn t1172() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U55> as A<_>>::f; } // @ FixedU64<U55> must lack MixedWrapPhase
fn t1173() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U55>> as A<_>>::f; } // @ FixedU64<U55> must lack MixedComplex of Cartesian
fn t1174() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U55>> as A<_>>::f; } // @ FixedU64<U55> must lack MixedComplex of Polar
fn t1175() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U55>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U55>> as A<_>>::f; } // @ FixedU64<U55> must lack complex product
fn t1176() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U55>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U55>> as A<_>>::f; } // @ FixedU64<U55> must lack complex quotient
fn t1177() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U55>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U55>> as A<_>>::f; } // @ FixedU64<U55> must lack conjugate
fn t1178() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U56> as A<_>>::f; } // @ FixedU64<U56> must lack MixedNumSigned
fn t1179() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U56> as A<_>>::f; } // @ FixedU64<U56> must lack MixedWrapPhase
fn t1180() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U56>> as A<_>>::f; } // @ FixedU64<U56> must lack MixedComplex of Cartesian
fn t1181() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U56>> as A<_>>::f; } // @ FixedU64<U56> must lack MixedComplex of Polar
fn t1182() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U56>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U56>> as A<_>>::f; } // @ FixedU64<U56> must lack complex product
fn t1183() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U56>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U56>> as A<_>>::f; } // @ FixedU64<U56> must lack complex quotient
fn t1184() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U56>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U56>> as A<_>>::f; } // @ FixedU64<U56> must lack conjugate
fn t1185() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U57> as A<_>>::f; } // @ FixedU64<U57> must lack MixedNumSigned
fn t1186() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U57> as A<_>>::f; } // @ FixedU64<U57> must lack MixedWrapPhase
fn t1187() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U57>> as A<_>>::f; } // @ FixedU64<U57> must lack MixedComplex of Cartesian
fn t1188() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U57>> as A<_>>::f; } // @ FixedU64<U57> must lack MixedComplex of Polar
fn t1189() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U57>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U57>> as A<_>>::f; } // @ FixedU64<U57> must lack complex product
fn t1190() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U57>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U57>> as A<_>>::f; } // @ FixedU64<U57> must lack complex quotient
fn t1191() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U57>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U57>> as A<_>>::f; } // @ FixedU64<U57> must lack conjugate
fn t1192() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U58> as A<_>>::f; } // @ FixedU64<U58> must lack MixedNumSigned
fn t1193() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U58> as A<_>>::f; } // @ FixedU64<U58> must lack MixedWrapPhase
fn t1194() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U58>> as A<_>>::f; } // @ FixedU64<U58> must lack MixedComplex of Cartesian
fn t1195() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U58>> as A<_>>::f; } // @ FixedU64<U58> must lack MixedComplex of Polar
fn t1196() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U58>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U58>> as A<_>>::f; } // @ FixedU64<U58> must lack complex product
fn t1197() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U58>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U58>> as A<_>>::f; } // @ FixedU64<U58> must lack complex quotient
fn t1198() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U58>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U58>> as A<_>>::f; } // @ FixedU64<U58> must lack conjugate
fn t1199() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U59> as A<_>>::f; } // @ FixedU64<U59> must lack MixedNumSigned
fn t1200() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U59> as A<_>>::f; } // @ FixedU64<U59> must lack MixedWrapPhase
fn t1201() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U59>> as A<_>>::f; } // @ FixedU64<U59> must lack MixedComplex of Cartesian
fn t1202() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U59>> as A<_>>::f; } // @ FixedU64<U59> must lack MixedComplex of Polar
fn t1203() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U59>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U59>> as A<_>>::f; } // @ FixedU64<U59> must lack complex product
fn t1204() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U59>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U59>> as A<_>>::f; } // @ FixedU64<U59> must lack complex quotient
fn t1205() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U59>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U59>> as A<_>>::f; } // @ FixedU64<U59> must lack conjugate
fn t1206() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U60> as A<_>>::f; } // @ FixedU64<U60> must lack MixedNumSigned
fn t1207() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U60> as A<_>>::f; } // @ FixedU64<U60> must lack MixedWrapPhase
fn t1208() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U60>> as A<_>>::f; } // @ FixedU64<U60> must lack MixedComplex of Cartesian
fn t1209() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U60>> as A<_>>::f; } // @ FixedU64<U60> must lack MixedComplex of Polar
fn t1210() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U60>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U60>> as A<_>>::f; } // @ FixedU64<U60> must lack complex product
fn t1211() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U60>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U60>> as A<_>>::f; } // @ FixedU64<U60> must lack complex quotient
fn t1212() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U60>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U60>> as A<_>>::f; } // @ FixedU64<U60> must lack conjugate
fn t1213() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U61> as A<_>>::f; } // @ FixedU64<U61> must lack MixedNumSigned
fn t1214() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <fixed::FixedU64<fixed::types::extra::U61> as A<_>>::f; } // @ FixedU64<U61> must lack MixedWrapPhase
fn t1215() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U61>> as A<_>>::f; } // @ FixedU64<U61> must lack MixedComplex of Cartesian
fn t1216() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<fixed::FixedU64<fixed::types::extra::U61>> as A<_>>::f; } // @ FixedU64<U61> must lack MixedComplex of Polar
fn t1217() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U61>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U61>> as A<_>>::f; } // @ FixedU64<U61> must lack complex product
fn t1218() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U61>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U61>> as A<_>>::f; } // @ FixedU64<U61> must lack complex quotient
fn t1219() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U61>>>> A<I> for T {} let _ = <mixed_num::Cartesian<fixed::FixedU64<fixed::types::extra::U61>> as A<_>>::f; } // @ FixedU64<U61> must lack conjugate
fn t1220() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <u8 as A<_>>::f; } // @ u8 must lack MixedNumSigned
fn t1221() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <u8 as A<_>>::f; } // @ u8 must lack MixedWrapPhase
fn t1222() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<u8> as A<_>>::f; } // @ u8 must lack MixedComplex of Cartesian
fn t1223() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<u8> as A<_>>::f; } // @ u8 must lack MixedComplex of Polar
fn t1224() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<u8>>> A<I> for T {} let _ = <mixed_num::Cartesian<u8> as A<_>>::f; } // @ u8 must lack complex product
fn t1225() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<u8>>> A<I> for T {} let _ = <mixed_num::Cartesian<u8> as A<_>>::f; } // @ u8 must lack complex quotient
fn t1226() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<u8>>> A<I> for T {} let _ = <mixed_num::Cartesian<u8> as A<_>>::f; } // @ u8 must lack conjugate
fn t1227() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <u16 as A<_>>::f; } // @ u16 must lack MixedNumSigned
fn t1228() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <u16 as A<_>>::f; } // @ u16 must lack MixedWrapPhase
fn t1229() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<u16> as A<_>>::f; } // @ u16 must lack MixedComplex of Cartesian
fn t1230() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<u16> as A<_>>::f; } // @ u16 must lack MixedComplex of Polar
fn t1231() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<u16>>> A<I> for T {} let _ = <mixed_num::Cartesian<u16> as A<_>>::f; } // @ u16 must lack complex product
fn t1232() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<u16>>> A<I> for T {} let _ = <mixed_num::Cartesian<u16> as A<_>>::f; } // @ u16 must lack complex quotient
fn t1233() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<u16>>> A<I> for T {} let _ = <mixed_num::Cartesian<u16> as A<_>>::f; } // @ u16 must lack conjugate
fn t1234() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <u32 as A<_>>::f; } // @ u32 must lack MixedNumSigned
fn t1235() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <u32 as A<_>>::f; } // @ u32 must lack MixedWrapPhase
fn t1236() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<u32> as A<_>>::f; } // @ u32 must lack MixedComplex of Cartesian
fn t1237() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<u32> as A<_>>::f; } // @ u32 must lack MixedComplex of Polar
fn t1238() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<u32>>> A<I> for T {} let _ = <mixed_num::Cartesian<u32> as A<_>>::f; } // @ u32 must lack complex product
fn t1239() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<u32>>> A<I> for T {} let _ = <mixed_num::Cartesian<u32> as A<_>>::f; } // @ u32 must lack complex quotient
fn t1240() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<u32>>> A<I> for T {} let _ = <mixed_num::Cartesian<u32> as A<_>>::f; } // @ u32 must lack conjugate
fn t1241() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <u64 as A<_>>::f; } // @ u64 must lack MixedNumSigned
fn t1242() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <u64 as A<_>>::f; } // @ u64 must lack MixedWrapPhase
fn t1243() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<u64> as A<_>>::f; } // @ u64 must lack MixedComplex of Cartesian
fn t1244() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<u64> as A<_>>::f; } // @ u64 must lack MixedComplex of Polar
fn t1245() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<u64>>> A<I> for T {} let _ = <mixed_num::Cartesian<u64> as A<_>>::f; } // @ u64 must lack complex product
fn t1246() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<u64>>> A<I> for T {} let _ = <mixed_num::Cartesian<u64> as A<_>>::f; } // @ u64 must lack complex quotient
fn t1247() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<u64>>> A<I> for T {} let _ = <mixed_num::Cartesian<u64> as A<_>>::f; } // @ u64 must lack conjugate
fn t1248() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <u128 as A<_>>::f; } // @ u128 must lack MixedNumSigned
fn t1249() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <u128 as A<_>>::f; } // @ u128 must lack MixedWrapPhase
fn t1250() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<u128> as A<_>>::f; } // @ u128 must lack MixedComplex of Cartesian
fn t1251() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<u128> as A<_>>::f; } // @ u128 must lack MixedComplex of Polar
fn t1252() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<u128>>> A<I> for T {} let _ = <mixed_num::Cartesian<u128> as A<_>>::f; } // @ u128 must lack complex product
fn t1253() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<u128>>> A<I> for T {} let _ = <mixed_num::Cartesian<u128> as A<_>>::f; } // @ u128 must lack complex quotient
fn t1254() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<u128>>> A<I> for T {} let _ = <mixed_num::Cartesian<u128> as A<_>>::f; } // @ u128 must lack conjugate
fn t1255() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedNumSigned> A<I> for T {} let _ = <usize as A<_>>::f; } // @ usize must lack MixedNumSigned
fn t1256() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedWrapPhase> A<I> for T {} let _ = <usize as A<_>>::f; } // @ usize must lack MixedWrapPhase
fn t1257() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Cartesian<usize> as A<_>>::f; } // @ usize must lack MixedComplex of Cartesian
fn t1258() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::MixedComplex> A<I> for T {} let _ = <mixed_num::Polar<usize> as A<_>>::f; } // @ usize must lack MixedComplex of Polar
fn t1259() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Mul<mixed_num::Cartesian<usize>>> A<I> for T {} let _ = <mixed_num::Cartesian<usize> as A<_>>::f; } // @ usize must lack complex product
fn t1260() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + core::ops::Div<mixed_num::Cartesian<usize>>> A<I> for T {} let _ = <mixed_num::Cartesian<usize> as A<_>>::f; } // @ usize must lack complex quotient
fn t1261() { trait A<X> { fn f() {} } impl<T: ?Sized> A<()> for T {} struct I; impl<T: ?Sized + mixed_num::Conj<mixed_num::Cartesian<usize>>> A<I> for T {} let _ = <mixed_num::Cartesian<usize> as A<_>>::f; } // @ usize must lack conjugate
