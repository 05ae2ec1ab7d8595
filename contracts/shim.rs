// ---------------------------------------------------------------- ghost library and stand-ins for
// the external crates.  Everything marked `external_body`, `axiom`, `assume_specification` or
// `uninterp` here is an assumption and is counted as such in the evidence files.
pub mod spec {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    use vstd::std_specs::ops::*;
    use core::ops::*;
    pub use vstd::std_specs::cmp::*;
    pub use vstd::std_specs::ops::*;
    pub use vstd::seq_lib::*;
    pub use crate::realmodel::*;
    pub use crate::num::{abs_s, cast, decode_s, to64, pcle, pclt, pcgt, finite_s, nan_s, zero_s, one_s};
    pub use crate::rand::{hist, supps};
    /// the draws since the first `a` could each have had every value of lo..hi
    pub open spec fn cover_usize(s: Seq<spec_fn(usize) -> bool>, a: int, lo: int, hi: int) -> bool { a <= s.len() && forall|i: int, x: usize| a <= i < s.len() && lo <= x < hi ==> #[trigger] (s[i])(x) }
    /// the draws since the first `a` could each have had every value of [lo, hi)
    pub open spec fn cover_f64(s: Seq<spec_fn(f64) -> bool>, a: int, lo: f64, hi: f64) -> bool { a <= s.len() && forall|i: int, x: f64| a <= i < s.len() && lo.ieee_le(x) && x.ieee_lt(hi) ==> #[trigger] (s[i])(x) }
    pub open spec fn cover_f32(s: Seq<spec_fn(f32) -> bool>, a: int, lo: f32, hi: f32) -> bool { a <= s.len() && forall|i: int, x: f32| a <= i < s.len() && lo.ieee_le(x) && x.ieee_lt(hi) ==> #[trigger] (s[i])(x) }

    /// the children of the crossings `cross[a..b]` in order
    pub open spec fn flat<T>(cross: Seq<(Seq<T>, Seq<T>)>, a: int, b: int) -> Seq<T> decreases b - a {
        if b <= a { Seq::empty() } else { flat(cross, a, b - 1) + cross[b - 1].1 }
    }
    pub proof fn lem_flat_ext<T>(c1: Seq<(Seq<T>, Seq<T>)>, c2: Seq<(Seq<T>, Seq<T>)>, a: int, b: int)
        requires 0 <= a, b <= c1.len(), b <= c2.len(), forall|i: int| a <= i < b ==> c1[i] == c2[i]
        ensures flat(c1, a, b) == flat(c2, a, b)
        decreases b - a
    {
        if b > a { lem_flat_ext(c1, c2, a, b - 1); }
    }
    // ---- IEEE order of f64
    pub open spec fn nan(a: f64) -> bool { a.ieee_is_nan() }
    pub open spec fn flt(a: f64, b: f64) -> bool { a.ieee_lt(b) }
    pub open spec fn ffin(a: f64) -> bool { !a.ieee_is_nan() && !a.ieee_is_infinite() }
    /// `a` is strictly worse (larger, NaN worst of all) than `b`
    pub open spec fn worse(a: f64, b: f64) -> bool { b.ieee_lt(a) || (nan(a) && !nan(b)) }

    pub broadcast axiom fn ax_f64_lt(a: f64, b: f64, o: bool) ensures #[trigger] lt_ensures::<f64>(a, b, o) ==> o == a.ieee_lt(b);
    pub broadcast axiom fn ax_f64_gt(a: f64, b: f64, o: bool) ensures #[trigger] gt_ensures::<f64>(a, b, o) ==> o == b.ieee_lt(a);
    pub broadcast axiom fn ax_f64_le(a: f64, b: f64, o: bool) ensures #[trigger] le_ensures::<f64>(a, b, o) ==> o == a.ieee_le(b);
    pub broadcast axiom fn ax_f64_ge(a: f64, b: f64, o: bool) ensures #[trigger] ge_ensures::<f64>(a, b, o) ==> o == b.ieee_le(a);
    pub broadcast axiom fn ax_f64_pc(a: f64, b: f64) ensures
        (#[trigger] a.partial_cmp_spec(&b)) == (if a.ieee_lt(b) { Some(core::cmp::Ordering::Less) }
            else if b.ieee_lt(a) { Some(core::cmp::Ordering::Greater) }
            else if nan(a) || nan(b) { None::<core::cmp::Ordering> } else { Some(core::cmp::Ordering::Equal) });
    pub broadcast axiom fn ax_f64_pcobeys() ensures #[trigger] f64::obeys_partial_cmp_spec();
    pub broadcast axiom fn ax_ord_obeys() ensures #[trigger] <core::cmp::Ordering as PartialEqSpec>::obeys_eq_spec();
    pub broadcast axiom fn ax_ord_eq(a: core::cmp::Ordering, b: core::cmp::Ordering) ensures (#[trigger] a.eq_spec(&b)) == (a == b);
    /// == on f64 and Option<f64> is a function of the operands
    pub broadcast axiom fn ax_f64_eq_obeys() ensures #[trigger] <f64 as PartialEqSpec>::obeys_eq_spec();
    pub broadcast axiom fn ax_clone<T: Clone>(x: T, r: T) ensures #[trigger] call_ensures(T::clone, (&x,), r) ==> r == x;

    pub broadcast proof fn lem_lt(a: f64, b: f64)
        ensures #![trigger a.ieee_lt(b)] a.ieee_lt(b) ==> !a.ieee_is_nan() && !b.ieee_is_nan() && !b.ieee_lt(a)
    {
        assert(a.ieee_lt(b) ==> !a.ieee_is_nan() && !b.ieee_is_nan() && !b.ieee_lt(a)) by (bit_vector);
    }
    pub broadcast proof fn lem_le(a: f64, b: f64)
        ensures #![trigger a.ieee_le(b)] a.ieee_le(b) <==> (!a.ieee_is_nan() && !b.ieee_is_nan() && !b.ieee_lt(a))
    {
        assert(a.ieee_le(b) <==> (!a.ieee_is_nan() && !b.ieee_is_nan() && !b.ieee_lt(a))) by (bit_vector);
    }
    pub broadcast axiom fn ax_f32_lt(a: f32, b: f32, o: bool) ensures #[trigger] lt_ensures::<f32>(a, b, o) ==> o == a.ieee_lt(b);
    pub broadcast axiom fn ax_f32_gt(a: f32, b: f32, o: bool) ensures #[trigger] gt_ensures::<f32>(a, b, o) ==> o == b.ieee_lt(a);
    pub broadcast axiom fn ax_f32_le(a: f32, b: f32, o: bool) ensures #[trigger] le_ensures::<f32>(a, b, o) ==> o == a.ieee_le(b);
    pub broadcast axiom fn ax_f32_ge(a: f32, b: f32, o: bool) ensures #[trigger] ge_ensures::<f32>(a, b, o) ==> o == b.ieee_le(a);
    pub broadcast axiom fn ax_f32_pc(a: f32, b: f32) ensures
        (#[trigger] a.partial_cmp_spec(&b)) == (if a.ieee_lt(b) { Some(core::cmp::Ordering::Less) }
            else if b.ieee_lt(a) { Some(core::cmp::Ordering::Greater) }
            else if a.ieee_is_nan() || b.ieee_is_nan() { None::<core::cmp::Ordering> } else { Some(core::cmp::Ordering::Equal) });
    pub broadcast axiom fn ax_f32_pcobeys() ensures #[trigger] f32::obeys_partial_cmp_spec();
    pub broadcast proof fn lem_f32_le(a: f32, b: f32)
        ensures #![trigger a.ieee_le(b)] a.ieee_le(b) <==> (!a.ieee_is_nan() && !b.ieee_is_nan() && !b.ieee_lt(a))
    {
        assert(a.ieee_le(b) <==> (!a.ieee_is_nan() && !b.ieee_is_nan() && !b.ieee_lt(a))) by (bit_vector);
    }
    pub broadcast axiom fn ax_vec_len<T>(v: Vec<T>) ensures #[trigger] v@.len() <= usize::MAX / 2;
    pub broadcast group ax { ax_vec_len, ax_f64_eq_obeys, ax_f32_lt, ax_f32_gt, ax_f32_le, ax_f32_ge, ax_f32_pc, ax_f32_pcobeys, lem_f32_le,  lem_lt, lem_le, ax_f64_lt, ax_f64_gt, ax_f64_le, ax_f64_ge, ax_f64_pc, ax_f64_pcobeys, ax_clone, ax_ord_obeys, ax_ord_eq }

    pub assume_specification[ f64::is_nan ](a: f64) -> (r: bool) ensures r == a.ieee_is_nan();
    pub assume_specification[ f64::is_finite ](a: f64) -> (r: bool) ensures r == ffin(a);
    pub assume_specification[ f64::is_infinite ](a: f64) -> (r: bool) ensures r == a.ieee_is_infinite();

    pub assume_specification[ f32::is_nan ](a: f32) -> (r: bool) ensures r == a.ieee_is_nan();
    pub assume_specification[ f32::is_finite ](a: f32) -> (r: bool) ensures r == (!a.ieee_is_nan() && !a.ieee_is_infinite());
    pub assume_specification[ f32::is_infinite ](a: f32) -> (r: bool) ensures r == a.ieee_is_infinite();
    pub assume_specification[ f64::abs ](a: f64) -> (r: f64) ensures r == fabs_s(a), nan(r) == nan(a), rm() ==> rv(r) == rabs(rv(a)), rm() && fin(a) ==> fin(r);
    pub assume_specification[ f64::sqrt ](a: f64) -> (r: f64) ensures r == fsqrt_s(a), rm() ==> rv(r) == rsqrt(rv(a)), rm() && fin(a) && rv(a) >= 0real ==> fin(r);
    pub assume_specification[ f64::powi ](a: f64, n: i32) -> (r: f64) ensures rm() && n >= 0 ==> rv(r) == rpowi(rv(a), n as int), rm() && fin(a) && n >= 0 ==> fin(r);
    pub assume_specification[ f64::powf ](a: f64, b: f64) -> (r: f64) ensures rm() ==> rv(r) == rpow(rv(a), rv(b));

    pub open spec fn is_max(a: f64, b: f64, r: f64) -> bool { if nan(a) { r == b } else if nan(b) { r == a } else { (r == a || r == b) && !r.ieee_lt(a) && !r.ieee_lt(b) } }
    pub open spec fn is_min(a: f64, b: f64, r: f64) -> bool { if nan(a) { r == b } else if nan(b) { r == a } else { (r == a || r == b) && !a.ieee_lt(r) && !b.ieee_lt(r) } }
    pub assume_specification[ f64::max ](a: f64, b: f64) -> (r: f64) ensures is_max(a, b, r);
    pub assume_specification[ f64::min ](a: f64, b: f64) -> (r: f64) ensures is_min(a, b, r);

    // ---- further std functions (exact contracts of total functions of core/alloc)
    pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(v);
    pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
    pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
    pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
        ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
    pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
        ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
    pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](a: Option<&'a T>) -> (r: Option<T>) ensures r == (if a is Some { Some(*(a->0)) } else { None });
    pub assume_specification<T>[ core::mem::replace ](a: &mut T, v: T) -> (r: T) ensures r == *old(a), *final(a) == v;
    pub assume_specification<T>[ bool::then_some ](a: bool, v: T) -> (r: Option<T>) ensures r == (if a { Some(v) } else { None });
    pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
    pub assume_specification[ usize::rem_euclid ](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == a % b;
    pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == (a as int + b as int - 1) / (b as int);
    pub assume_specification[ core::cmp::Ordering::is_lt ](a: core::cmp::Ordering) -> (r: bool) ensures r == (a is Less);
    pub assume_specification[ core::cmp::Ordering::is_gt ](a: core::cmp::Ordering) -> (r: bool) ensures r == (a is Greater);
    pub assume_specification[ core::cmp::Ordering::is_eq ](a: core::cmp::Ordering) -> (r: bool) ensures r == (a is Equal);
    pub assume_specification[ core::cmp::Ordering::is_ne ](a: core::cmp::Ordering) -> (r: bool) ensures r == !(a is Equal);
    pub assume_specification[ core::cmp::Ordering::is_le ](a: core::cmp::Ordering) -> (r: bool) ensures r == !(a is Greater);
    pub assume_specification[ core::cmp::Ordering::is_ge ](a: core::cmp::Ordering) -> (r: bool) ensures r == !(a is Less);
    pub assume_specification[ core::cmp::Ordering::reverse ](a: core::cmp::Ordering) -> (r: core::cmp::Ordering)
        ensures r == (match a { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less });
    pub assume_specification[ core::cmp::Ordering::then ](a: core::cmp::Ordering, b: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == (if a is Equal { b } else { a });
    pub assume_specification<T>[ <[T]>::swap ](a: &mut [T], i: usize, j: usize)
        requires i < old(a)@.len(), j < old(a)@.len()
        ensures final(a)@ == old(a)@.update(i as int, old(a)@[j as int]).update(j as int, old(a)@[i as int]);
    pub assume_specification<T>[ <[T]>::reverse ](a: &mut [T])
        ensures final(a)@.len() == old(a)@.len(), forall|i: int| 0 <= i < old(a)@.len() ==> #[trigger] final(a)@[i] == old(a)@[old(a)@.len() - 1 - i];
    pub assume_specification<T: Clone>[ <[T]>::to_vec ](a: &[T]) -> (r: Vec<T>) ensures r@ == a@;
    pub assume_specification[ f64::recip ](a: f64) -> (r: f64) ensures rm() && rv(a) != 0real ==> rv(r) == 1real / rv(a);
    pub assume_specification[ f64::mul_add ](a: f64, b: f64, c: f64) -> (r: f64) ensures rm() ==> rv(r) == rv(a) * rv(b) + rv(c);
    pub assume_specification[ f64::clamp ](a: f64, lo: f64, hi: f64) -> (r: f64) requires lo.ieee_le(hi) ensures r == (if a.ieee_lt(lo) { lo } else if hi.ieee_lt(a) { hi } else { a });

    // ---- the bit pattern of a float; from_bits undoes to_bits (both are transmutations)
    pub uninterp spec fn bits_f64(a: f64) -> u64;
    pub uninterp spec fn of_bits_f64(a: u64) -> f64;
    pub uninterp spec fn bits_f32(a: f32) -> u32;
    pub uninterp spec fn of_bits_f32(a: u32) -> f32;
    pub assume_specification[ f64::to_bits ](a: f64) -> (r: u64) ensures r == bits_f64(a);
    pub assume_specification[ f32::to_bits ](a: f32) -> (r: u32) ensures r == bits_f32(a);
    pub assume_specification[ f64::from_bits ](a: u64) -> (r: f64) ensures r == of_bits_f64(a), bits_f64(r) == a;
    pub assume_specification[ f32::from_bits ](a: u32) -> (r: f32) ensures r == of_bits_f32(a), bits_f32(r) == a;
    pub broadcast axiom fn ax_size_f64() ensures #[trigger] vstd::layout::size_of::<f64>() == 8;
    pub broadcast axiom fn ax_size_f32() ensures #[trigger] vstd::layout::size_of::<f32>() == 4;
    pub broadcast group ax_layout { ax_size_f64, ax_size_f32 }

    pub broadcast proof fn lem_nan_sub(a: f64, b: f64) ensures nan(a) || nan(b) ==> nan(#[trigger] a.ieee_sub(b))
    { assert((a.ieee_is_nan() || b.ieee_is_nan()) ==> a.ieee_sub(b).ieee_is_nan()) by (bit_vector); }
    pub proof fn worse_trans(a: f64, b: f64, c: f64) requires worse(a, b), worse(b, c) ensures worse(a, c)
    {
        assert(((b.ieee_lt(a) || (a.ieee_is_nan() && !b.ieee_is_nan())) && (c.ieee_lt(b) || (b.ieee_is_nan() && !c.ieee_is_nan())))
            ==> (c.ieee_lt(a) || (a.ieee_is_nan() && !c.ieee_is_nan()))) by (bit_vector);
    }
    /// not(worse) is transitive as well (strict weak order)
    pub proof fn worse_negtrans(a: f64, b: f64, c: f64) requires !worse(a, b), !worse(b, c) ensures !worse(a, c)
    {
        assert((!(b.ieee_lt(a) || (a.ieee_is_nan() && !b.ieee_is_nan())) && !(c.ieee_lt(b) || (b.ieee_is_nan() && !c.ieee_is_nan())))
            ==> !(c.ieee_lt(a) || (a.ieee_is_nan() && !c.ieee_is_nan()))) by (bit_vector);
    }
    pub open spec fn nworst(a: f64, b: f64) -> bool { a.ieee_lt(b) || (nan(a) && !nan(b)) }
    pub proof fn nworst_negtrans(a: f64, b: f64, c: f64) requires !nworst(a, b), !nworst(b, c) ensures !nworst(a, c)
    {
        assert((!(a.ieee_lt(b) || (a.ieee_is_nan() && !b.ieee_is_nan())) && !(b.ieee_lt(c) || (b.ieee_is_nan() && !c.ieee_is_nan())))
            ==> !(a.ieee_lt(c) || (a.ieee_is_nan() && !c.ieee_is_nan()))) by (bit_vector);
    }
    pub proof fn worse_asym(a: f64, b: f64) ensures !(worse(a, b) && worse(b, a)), !worse(a, a)
    {
        assert(!((b.ieee_lt(a) || (a.ieee_is_nan() && !b.ieee_is_nan())) && (a.ieee_lt(b) || (b.ieee_is_nan() && !a.ieee_is_nan())))) by (bit_vector);
        assert(!(a.ieee_lt(a) || (a.ieee_is_nan() && !a.ieee_is_nan()))) by (bit_vector);
    }
}
/// Real-number reading of machine arithmetic.  `rm()` is never assumed true or false: clauses about
/// values of formulas are stated under it ("machine arithmetic treated as mathematical").
pub mod realmodel {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    use core::ops::*;
    use crate::num::*;
    pub uninterp spec fn rm() -> bool;
    /// the real number a numeric value stands for
    pub uninterp spec fn rv<T>(t: T) -> real;
    /// the values that stand for a real number (not NaN, not infinite)
    pub uninterp spec fn fin<T>(t: T) -> bool;
    pub uninterp spec fn rsqrt(x: real) -> real;
    pub uninterp spec fn rsin(x: real) -> real;
    pub uninterp spec fn rcos(x: real) -> real;
    pub uninterp spec fn rexp2(x: real) -> real;
    pub uninterp spec fn rpow(x: real, y: real) -> real;
    pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
    pub open spec fn rsign(x: real) -> real { if x < 0real { -1real } else { 1real } }
    pub open spec fn rpowi(x: real, n: int) -> real decreases n { if n <= 0 { 1real } else { rpowi(x, n - 1) * x } }

    pub broadcast axiom fn ax_req_add<T: Num>(a: T, b: T) ensures #[trigger] a.add_req(b);
    pub broadcast axiom fn ax_req_sub<T: Num>(a: T, b: T) ensures #[trigger] a.sub_req(b);
    pub broadcast axiom fn ax_req_mul<T: Num>(a: T, b: T) ensures #[trigger] a.mul_req(b);
    pub broadcast axiom fn ax_req_div<T: Num>(a: T, b: T) ensures #[trigger] a.div_req(b);
    pub broadcast axiom fn ax_req_neg<T: Float>(a: T) ensures #[trigger] a.neg_req();
    pub broadcast axiom fn ax_ob_add<T: Num>() ensures #[trigger] <T as AddSpec<T>>::obeys_add_spec();
    pub broadcast axiom fn ax_ob_sub<T: Num>() ensures #[trigger] <T as SubSpec<T>>::obeys_sub_spec();
    pub broadcast axiom fn ax_ob_mul<T: Num>() ensures #[trigger] <T as MulSpec<T>>::obeys_mul_spec();
    pub broadcast axiom fn ax_ob_div<T: Num>() ensures #[trigger] <T as DivSpec<T>>::obeys_div_spec();
    pub broadcast axiom fn ax_ob_neg<T: Float>() ensures #[trigger] <T as NegSpec>::obeys_neg_spec();
    pub broadcast axiom fn ax_ob_cmp<T: NumCast + PartialOrd>() ensures #[trigger] T::obeys_partial_cmp_spec();
    /// a < b exactly when b > a (the contract of PartialOrd)
    pub broadcast axiom fn ax_pc_sym<T: NumCast + PartialOrd>(a: T, b: T) ensures
        (#[trigger] a.partial_cmp_spec(&b)) == (match b.partial_cmp_spec(&a) {
            Some(core::cmp::Ordering::Less) => Some(core::cmp::Ordering::Greater), Some(core::cmp::Ordering::Greater) => Some(core::cmp::Ordering::Less), x => x });
    pub broadcast axiom fn ax_rv_add<T: Num>(a: T, b: T) ensures rm() ==> #[trigger] rv(a.add_spec(b)) == rv(a) + rv(b);
    pub broadcast axiom fn ax_rv_sub<T: Num>(a: T, b: T) ensures rm() ==> #[trigger] rv(a.sub_spec(b)) == rv(a) - rv(b);
    pub broadcast axiom fn ax_rv_mul<T: Num>(a: T, b: T) ensures rm() ==> #[trigger] rv(a.mul_spec(b)) == rv(a) * rv(b);
    pub broadcast axiom fn ax_rv_div<T: Num>(a: T, b: T) ensures rm() && rv(b) != 0real ==> #[trigger] rv(a.div_spec(b)) == rv(a) / rv(b);
    pub broadcast axiom fn ax_rv_neg<T: Float>(a: T) ensures rm() ==> #[trigger] rv(a.neg_spec()) == -rv(a);
    /// under the real reading the order is the order of the reals
    pub broadcast axiom fn ax_rv_cmp<T: NumCast + PartialOrd>(a: T, b: T) ensures rm() && fin(a) && fin(b) ==>
        (#[trigger] a.partial_cmp_spec(&b)) == (if rv(a) < rv(b) { Some(core::cmp::Ordering::Less) } else if rv(a) > rv(b) { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) });

    /// machine addition and multiplication commute (NaN payloads aside)
    pub broadcast axiom fn ax_add_comm<T: Num>(a: T, b: T) ensures (#[trigger] a.add_spec(b)) == b.add_spec(a);
    pub broadcast axiom fn ax_mul_comm<T: Num>(a: T, b: T) ensures (#[trigger] a.mul_spec(b)) == b.mul_spec(a);

    // f64 / f32 themselves
    pub broadcast axiom fn ax_freq_add(a: f64, b: f64) ensures #[trigger] a.add_req(b);
    pub broadcast axiom fn ax_freq_sub(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
    pub broadcast axiom fn ax_freq_mul(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
    pub broadcast axiom fn ax_freq_div(a: f64, b: f64) ensures #[trigger] a.div_req(b);
    pub broadcast axiom fn ax_fadd(a: f64, b: f64, o: f64) ensures #[trigger] add_ensures::<f64>(a, b, o) ==> o == a.ieee_add(b) && (rm() ==> rv(o) == rv(a) + rv(b));
    pub broadcast axiom fn ax_fsub(a: f64, b: f64, o: f64) ensures #[trigger] sub_ensures::<f64>(a, b, o) ==> o == a.ieee_sub(b) && (rm() ==> rv(o) == rv(a) - rv(b));
    pub broadcast axiom fn ax_fmul(a: f64, b: f64, o: f64) ensures #[trigger] mul_ensures::<f64>(a, b, o) ==> o == a.ieee_mul(b) && (rm() ==> rv(o) == rv(a) * rv(b));
    pub broadcast axiom fn ax_fdiv(a: f64, b: f64, o: f64) ensures #[trigger] div_ensures::<f64>(a, b, o) ==> o == a.ieee_div(b) && (rm() && rv(b) != 0real ==> rv(o) == rv(a) / rv(b));

    pub uninterp spec fn fabs_s(a: f64) -> f64;
    pub uninterp spec fn fsqrt_s(a: f64) -> f64;
    pub broadcast axiom fn ax_ffin_add(a: f64, b: f64, o: f64) ensures #[trigger] add_ensures::<f64>(a, b, o) && rm() && fin(a) && fin(b) ==> fin(o);
    pub broadcast axiom fn ax_ffin_sub(a: f64, b: f64, o: f64) ensures #[trigger] sub_ensures::<f64>(a, b, o) && rm() && fin(a) && fin(b) ==> fin(o);
    pub broadcast axiom fn ax_ffin_mul(a: f64, b: f64, o: f64) ensures #[trigger] mul_ensures::<f64>(a, b, o) && rm() && fin(a) && fin(b) ==> fin(o);
    pub broadcast axiom fn ax_ffin_div(a: f64, b: f64, o: f64) ensures #[trigger] div_ensures::<f64>(a, b, o) && rm() && fin(a) && fin(b) && rv(b) != 0real ==> fin(o);
    /// under the real reading the order of f64 is the order of the reals
    pub broadcast axiom fn ax_fcmp(a: f64, b: f64) ensures rm() && fin(a) && fin(b) ==> (#[trigger] a.ieee_lt(b)) == (rv(a) < rv(b));
    pub broadcast axiom fn ax_ffin(a: f64) ensures #[trigger] fin(a) == (!a.ieee_is_nan() && !a.ieee_is_infinite());
    pub broadcast group fax { ax_ffin_add, ax_ffin_sub, ax_ffin_mul, ax_ffin_div, ax_fcmp, ax_ffin }

    /// ... and no operation leaves the reals
    pub broadcast axiom fn ax_fin_add<T: Num>(a: T, b: T) ensures rm() && fin(a) && fin(b) ==> fin(#[trigger] a.add_spec(b));
    pub broadcast axiom fn ax_fin_sub<T: Num>(a: T, b: T) ensures rm() && fin(a) && fin(b) ==> fin(#[trigger] a.sub_spec(b));
    pub broadcast axiom fn ax_fin_mul<T: Num>(a: T, b: T) ensures rm() && fin(a) && fin(b) ==> fin(#[trigger] a.mul_spec(b));
    pub broadcast axiom fn ax_fin_div<T: Num>(a: T, b: T) ensures rm() && fin(a) && fin(b) && rv(b) != 0real ==> fin(#[trigger] a.div_spec(b));
    pub broadcast axiom fn ax_fin_sqrt<T: Float>(a: T) ensures rm() && fin(a) && rv(a) >= 0real ==> fin(#[trigger] sqrt_s(a));
    pub broadcast axiom fn ax_fin_zero<T: Zero>() ensures fin(#[trigger] zero_s::<T>());
    pub broadcast axiom fn ax_rv_usize(n: usize) ensures rm() ==> #[trigger] rv::<usize>(n) == (n as real);
    pub broadcast axiom fn ax_fin_one<T: One>() ensures fin(#[trigger] one_s::<T>());
    pub broadcast axiom fn ax_fin_cast<N: ToPrimitive, T: NumCast>(n: N) ensures rm() && fin(n) ==> fin(#[trigger] cast::<N, T>(n));
    /// the literals of the code stand for the numbers they spell
    pub broadcast axiom fn ax_lits() ensures #![trigger rm()] rm() ==>
        rv(0.0f64) == 0real && rv(0.5f64) == 0.5real && rv(1.0f64) == 1real && rv(2.0f64) == 2real && rv(4.0f64) == 4real && rv(10.0f64) == 10real && rv(100.0f64) == 100real
        && fin(0.0f64) && fin(0.5f64) && fin(1.0f64) && fin(2.0f64) && fin(4.0f64) && fin(10.0f64) && fin(100.0f64)
        /*LITS*/;
    pub broadcast axiom fn ax_rv_i32(n: i32) ensures rm() ==> #[trigger] rv::<i32>(n) == (n as real);
    pub broadcast axiom fn ax_rv_i16(n: i16) ensures rm() ==> #[trigger] rv::<i16>(n) == (n as real);
    pub broadcast axiom fn ax_rv_i8(n: i8) ensures rm() ==> #[trigger] rv::<i8>(n) == (n as real);
    pub broadcast axiom fn ax_rv_u8(n: u8) ensures rm() ==> #[trigger] rv::<u8>(n) == (n as real);
    pub broadcast axiom fn ax_rv_u16(n: u16) ensures rm() ==> #[trigger] rv::<u16>(n) == (n as real);
    pub broadcast axiom fn ax_rv_u32(n: u32) ensures rm() ==> #[trigger] rv::<u32>(n) == (n as real);
    pub broadcast axiom fn ax_rv_i64(n: i64) ensures rm() ==> #[trigger] rv::<i64>(n) == (n as real);
    pub broadcast axiom fn ax_rv_isize(n: isize) ensures rm() ==> #[trigger] rv::<isize>(n) == (n as real);
    pub broadcast axiom fn ax_rv_u64(n: u64) ensures rm() ==> #[trigger] rv::<u64>(n) == (n as real);
    pub broadcast proof fn lem_powi2(x: real, n: int) ensures #![trigger rpowi(x, n)] n == 2 ==> rpowi(x, n) == x * x
    { reveal_with_fuel(rpowi, 4); }
    /// powers with the exponents for which they are elementary
    pub broadcast axiom fn ax_rpow(x: real, y: real) ensures #![trigger rpow(x, y)]
        (y == 0real ==> rpow(x, y) == 1real) && (y == 1real ==> rpow(x, y) == x) && (y == 2real ==> rpow(x, y) == x * x) && (y == 0.5real && x >= 0real ==> rpow(x, y) == rsqrt(x)) && (x == 2real ==> rpow(x, y) == rexp2(y));
    pub axiom fn ax_rsqrt(x: real) ensures x >= 0real ==> rsqrt(x) >= 0real && rsqrt(x) * rsqrt(x) == x;

    pub broadcast group rax {
        lem_powi2, ax_rpow, ax_pc_sym, ax_fin_add, ax_fin_sub, ax_fin_mul, ax_fin_div, ax_fin_sqrt, ax_fin_zero, ax_fin_one, ax_fin_cast, ax_lits, ax_rv_usize, ax_rv_i32, ax_rv_i16, ax_rv_i8, ax_rv_u64, ax_rv_u8, ax_rv_u16, ax_rv_u32, ax_rv_i64, ax_rv_isize,
        ax_req_add, ax_req_sub, ax_req_mul, ax_req_div, ax_req_neg, ax_ob_add, ax_ob_sub, ax_ob_mul, ax_ob_div, ax_ob_neg, ax_ob_cmp,
        ax_add_comm, ax_mul_comm, ax_rv_add, ax_rv_sub, ax_rv_mul, ax_rv_div, ax_rv_neg, ax_rv_cmp,
        ax_freq_add, ax_freq_sub, ax_freq_mul, ax_freq_div, ax_fadd, ax_fsub, ax_fmul, ax_fdiv,
    }
}
pub mod num {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    use core::ops::*;
    use crate::realmodel::*;
    /// result of the numeric cast N -> T
    pub uninterp spec fn cast<N, T>(n: N) -> T;
    pub uninterp spec fn to64<T>(t: T) -> f64;
    /// the float nearest to an integer
    pub uninterp spec fn int64(n: int) -> f64;
    pub uninterp spec fn zero_s<T>() -> T;
    pub uninterp spec fn one_s<T>() -> T;
    pub uninterp spec fn max_s<T>() -> T;
    pub uninterp spec fn decode_s<T>(t: T) -> (u64, i16, i8);
    pub trait ToPrimitive: Sized {
        fn to_f64(&self) -> (r: Option<f64>) ensures r == Some(to64(*self)), rm() ==> rv(to64(*self)) == rv(*self);
    }
    impl ToPrimitive for f64 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for f32 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for usize { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for u64 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for i64 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for u32 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for i32 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for i16 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for i8 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for u8 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for u16 { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    impl ToPrimitive for isize { #[verifier::external_body] fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() } }
    pub trait NumCast: Sized + ToPrimitive {
        fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) ensures r == Some(cast::<N, Self>(n)), rm() ==> rv(cast::<N, Self>(n)) == rv(n);
    }
    /// a cast to the float type is monotone and undoes to_f64
    pub broadcast axiom fn ax_cast_between<T: NumCast + PartialOrd>(lo: T, x: f64, hi: T)
        requires to64(lo).ieee_le(x), x.ieee_le(to64(hi))
        ensures #![trigger cast::<f64, T>(x), to64(lo), to64(hi)]
            pcle(lo, cast::<f64, T>(x)), pcle(cast::<f64, T>(x), hi);
    /// to_f64 is strictly monotone
    pub broadcast axiom fn ax_to64_lt<T: NumCast + PartialOrd>(lo: T, hi: T)
        requires #[trigger] lo.partial_cmp_spec(&hi) == Some(core::cmp::Ordering::Less)
        ensures to64(lo).ieee_lt(to64(hi));
    /// numerically equal numbers compare alike
    pub axiom fn ax_pc_eq<T: NumCast + PartialOrd>(a: T, b: T, c: T)
        ensures a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal) ==> a.partial_cmp_spec(&c) == b.partial_cmp_spec(&c) && c.partial_cmp_spec(&a) == c.partial_cmp_spec(&b);
    pub open spec fn pcle<T: PartialOrd>(a: T, b: T) -> bool {
        a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) || a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal)
    }
    pub open spec fn pclt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
    pub open spec fn pcgt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Greater) }
    pub trait Zero: Sized { fn zero() -> (r: Self) ensures r == zero_s::<Self>(), rm() ==> rv(r) == 0real; }
    pub trait One: Sized { fn one() -> (r: Self) ensures r == one_s::<Self>(), rm() ==> rv(r) == 1real; }
    pub trait Num: Sized + PartialEq + Zero + One + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self> { }
    #[verifier::external_body]
    pub fn clamp<T: PartialOrd>(x: T, lo: T, hi: T) -> (r: T) requires pcle(lo, hi) ensures r == (if pclt(x, lo) { lo } else if pcgt(x, hi) { hi } else { x }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp_min<T: PartialOrd>(x: T, lo: T) -> (r: T) requires pcle(lo, lo) ensures r == (if pclt(x, lo) { lo } else { x }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp_max<T: PartialOrd>(x: T, hi: T) -> (r: T) requires pcle(hi, hi) ensures r == (if pcgt(x, hi) { hi } else { x }) { unimplemented!() }
    pub uninterp spec fn finite_s<T>(t: T) -> bool;
    pub uninterp spec fn nan_s<T>(t: T) -> bool;
    pub uninterp spec fn abs_s<T>(t: T) -> T;
    pub uninterp spec fn signum_s<T>(t: T) -> T;
    pub uninterp spec fn sqrt_s<T>(t: T) -> T;
    pub trait Float: Num + Copy + NumCast + PartialOrd + Neg<Output = Self> {
        fn is_finite(self) -> (r: bool) ensures r == finite_s(self);
        fn is_nan(self) -> (r: bool) ensures r == nan_s(self), r ==> !finite_s(self);
        fn is_infinite(self) -> (r: bool) ensures r == (!finite_s(self) && !nan_s(self));
        fn abs(self) -> (r: Self) ensures r == abs_s(self), rm() ==> rv(r) == rabs(rv(self));
        fn signum(self) -> (r: Self) ensures r == signum_s(self), rm() && rv(self) != 0real ==> rv(r) == rsign(rv(self));
        fn sqrt(self) -> (r: Self) ensures r == sqrt_s(self), rm() ==> rv(r) == rsqrt(rv(self));
        fn powi(self, n: i32) -> (r: Self) ensures rm() && n >= 0 ==> rv(r) == rpowi(rv(self), n as int);
        fn powf(self, n: Self) -> (r: Self) ensures rm() ==> rv(r) == rpow(rv(self), rv(n));
        fn exp2(self) -> (r: Self) ensures rm() ==> rv(r) == rexp2(rv(self));
        fn sin(self) -> (r: Self) ensures rm() ==> rv(r) == rsin(rv(self));
        fn cos(self) -> (r: Self) ensures rm() ==> rv(r) == rcos(rv(self));
        fn recip(self) -> (r: Self) ensures rm() && rv(self) != 0real ==> rv(r) == 1real / rv(self);
        fn mul_add(self, a: Self, b: Self) -> (r: Self) ensures rm() ==> rv(r) == rv(self) * rv(a) + rv(b);
        fn max(self, o: Self) -> (r: Self) ensures nan_s(self) ==> r == o, nan_s(o) ==> r == self, !nan_s(self) && !nan_s(o) ==> (r == self || r == o) && pcle(self, r) && pcle(o, r);
        fn min(self, o: Self) -> (r: Self) ensures nan_s(self) ==> r == o, nan_s(o) ==> r == self, !nan_s(self) && !nan_s(o) ==> (r == self || r == o) && pcle(r, self) && pcle(r, o);
        fn is_normal(self) -> (r: bool) ensures r ==> finite_s(self);
        fn infinity() -> (r: Self) ensures !finite_s(r), !nan_s(r);
        fn neg_infinity() -> (r: Self) ensures !finite_s(r), !nan_s(r);
        fn nan() -> (r: Self) ensures nan_s(r), !finite_s(r);
        fn max_value() -> (r: Self) ensures r == max_s::<Self>();
        fn integer_decode(self) -> (r: (u64, i16, i8)) ensures r == decode_s(self);
        fn hypot(self, o: Self) -> (r: Self) ensures rm() ==> rv(r) == rsqrt(rv(self) * rv(self) + rv(o) * rv(o));
        fn epsilon() -> (r: Self) ensures finite_s(r), !nan_s(r), rm() ==> rv(r) > 0real;
        fn min_positive_value() -> (r: Self) ensures finite_s(r), !nan_s(r), rm() ==> rv(r) > 0real;
    }
    pub broadcast axiom fn ax_fin<T: Float>(a: T) ensures #[trigger] finite_s(a) == fin(a);
    /// NaN goes through a difference and an absolute value (IEEE 754)
    pub broadcast axiom fn ax_nan_sub<T: Float>(a: T, b: T) ensures nan_s(a) || nan_s(b) ==> nan_s(#[trigger] a.sub_spec(b));
    pub broadcast axiom fn ax_nan_abs<T: Float>(a: T) ensures #[trigger] nan_s(abs_s(a)) == nan_s(a);
    pub broadcast axiom fn ax_fin_abs<T: Float>(a: T) ensures #[trigger] fin(abs_s(a)) == fin(a);
    pub broadcast axiom fn ax_fin_nan<T: Float>(a: T) ensures #[trigger] nan_s(a) ==> !fin(a);
    pub broadcast group numax { ax_nan_sub, ax_nan_abs, ax_fin_abs, ax_fin_nan, ax_cast_between, ax_to64_lt, ax_fin }
}
pub mod rand {
    use vstd::prelude::*;
    pub mod rngs {
        use vstd::prelude::*;
        /// The generator is a stand-in: any outcome in the range of a distribution is possible.
        #[verifier::external_body]
        pub struct ThreadRng { x: u8 }
    }
    use rngs::ThreadRng;
    /// every value of type X drawn from the generator so far
    pub uninterp spec fn hist<X>(r: ThreadRng) -> Seq<X>;
    /// for each of those draws the values it could have had
    pub uninterp spec fn supps<X>(r: ThreadRng) -> Seq<spec_fn(X) -> bool>;
    /// no draw forgets the f32 drawn before
    pub open spec fn kept_f32(a: ThreadRng, b: ThreadRng) -> bool {
        hist::<f32>(a).len() <= hist::<f32>(b).len() && (forall|i: int| 0 <= i < hist::<f32>(a).len() ==> #[trigger] hist::<f32>(b)[i] == hist::<f32>(a)[i])
            && supps::<f32>(a).len() <= supps::<f32>(b).len() && forall|i: int| 0 <= i < supps::<f32>(a).len() ==> #[trigger] supps::<f32>(b)[i] == supps::<f32>(a)[i]
    }
    pub open spec fn kept_usize(a: ThreadRng, b: ThreadRng) -> bool {
        hist::<usize>(a).len() <= hist::<usize>(b).len() && (forall|i: int| 0 <= i < hist::<usize>(a).len() ==> #[trigger] hist::<usize>(b)[i] == hist::<usize>(a)[i])
            && supps::<usize>(a).len() <= supps::<usize>(b).len() && forall|i: int| 0 <= i < supps::<usize>(a).len() ==> #[trigger] supps::<usize>(b)[i] == supps::<usize>(a)[i]
    }
    #[verifier::external_body]
    pub fn thread_rng() -> (r: ThreadRng) { unimplemented!() }
    pub mod distributions {
        use vstd::prelude::*;
        use super::rngs::ThreadRng;
        use super::hist;
        pub use uniform::Uniform;
        pub mod uniform {
            use vstd::prelude::*;
            use vstd::std_specs::cmp::*;
            use crate::realmodel::*;
            pub trait SampleUniform: Sized + PartialOrd { }
            impl SampleUniform for f64 { } impl SampleUniform for f32 { } impl SampleUniform for usize { }
            impl SampleUniform for i8 { } impl SampleUniform for u8 { } impl SampleUniform for i16 { } impl SampleUniform for u16 { }
            impl SampleUniform for i32 { } impl SampleUniform for u32 { } impl SampleUniform for i64 { } impl SampleUniform for u64 { }
            pub trait SampleBorrow<X>: Sized { spec fn bval(self) -> X; }
            impl<X: SampleUniform> SampleBorrow<X> for X { open spec fn bval(self) -> X { self } }
            impl<'a, X: SampleUniform> SampleBorrow<X> for &'a X { open spec fn bval(self) -> X { *self } }
            #[verifier::reject_recursive_types(X)]
            pub struct Uniform<X> { pub lo: X, pub hi: X, pub incl: bool }
            pub open spec fn below<X: SampleUniform>(a: X, b: X) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
            pub open spec fn upto<X: SampleUniform>(a: X, b: X) -> bool { below(a, b) || a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal) }
            pub open spec fn in_range<X: SampleUniform>(u: Uniform<X>, x: X) -> bool {
                upto(u.lo, x) && (if u.incl { upto(x, u.hi) } else { below(x, u.hi) })
            }
            impl<X: SampleUniform> Uniform<X> {
                /// rand panics unless low < high
                #[verifier::external_body]
                pub fn new<B1: SampleBorrow<X>, B2: SampleBorrow<X>>(low: B1, high: B2) -> (r: Uniform<X>)
                    requires below(low.bval(), high.bval())
                    ensures r.lo == low.bval(), r.hi == high.bval(), !r.incl
                { unimplemented!() }
                /// rand panics unless low <= high
                #[verifier::external_body]
                pub fn new_inclusive<B1: SampleBorrow<X>, B2: SampleBorrow<X>>(low: B1, high: B2) -> (r: Uniform<X>)
                    requires upto(low.bval(), high.bval())
                    ensures r.lo == low.bval(), r.hi == high.bval(), r.incl
                { unimplemented!() }
            }
        }
        pub trait Distribution<X>: Sized {
            spec fn supports(self, x: X) -> bool;
            fn sample(&self, rng: &mut ThreadRng) -> (r: X)
                ensures self.supports(r), hist::<X>(*final(rng)) == hist::<X>(*old(rng)).push(r), super::supps::<X>(*final(rng)) == super::supps::<X>(*old(rng)).push(|x: X| self.supports(x)), super::kept_f32(*old(rng), *final(rng)), super::kept_usize(*old(rng), *final(rng));
        }
        impl<X: uniform::SampleUniform> Distribution<X> for Uniform<X> {
            open spec fn supports(self, x: X) -> bool { uniform::in_range(self, x) }
            #[verifier::external_body]
            fn sample(&self, rng: &mut ThreadRng) -> (r: X) { unimplemented!() }
        }
    }
}
pub mod shim {
    use vstd::prelude::*;
    // ---- text output.  A printed text is the sequence of its pieces: a value printed with a given
    // precision, a fixed text without line breaks, or a line break.  Field widths, alignment and the
    // characters of fixed texts are dropped by the extraction; of a fixed text it keeps whether its
    // first / last character can stand next to a number without being read as part of it, and
    // whether it contains a letter.
    pub enum Tok { Val(Seq<char>), Lit { left: bool, right: bool, wordy: bool }, Nl }
    /// what `{:.p}` / `{}` prints for x
    pub uninterp spec fn shown<T>(x: T, p: Option<usize>) -> Seq<char>;
    pub broadcast axiom fn ax_shown_ref<T>(x: &T, p: Option<usize>) ensures #[trigger] shown::<&T>(x, p) == shown::<T>(*x, p);
    /// integers print as their value, whatever their type
    pub uninterp spec fn int_shown(n: int) -> Seq<char>;
    pub broadcast axiom fn ax_shown_usize(x: usize, p: Option<usize>) ensures #[trigger] shown::<usize>(x, p) == int_shown(x as int);
    pub broadcast axiom fn ax_shown_u32(x: u32, p: Option<usize>) ensures #[trigger] shown::<u32>(x, p) == int_shown(x as int);
    pub broadcast axiom fn ax_shown_u64(x: u64, p: Option<usize>) ensures #[trigger] shown::<u64>(x, p) == int_shown(x as int);
    pub broadcast axiom fn ax_shown_u128(x: u128, p: Option<usize>) ensures #[trigger] shown::<u128>(x, p) == int_shown(x as int);
    /// A function pointer `fn(&A) -> R` held by a struct, with the history of its calls.
    #[verifier::external_body]
    #[verifier::reject_recursive_types(A)]
    #[verifier::reject_recursive_types(R)]
    pub struct FnRef<A, R> { f: fn(&A) -> R }
    impl<A, R> FnRef<A, R> {
        pub uninterp spec fn calls(&self) -> Seq<(A, R)>;
        #[verifier::external_body]
        pub fn call(&mut self, x: &A) -> (r: R) ensures final(self).calls() == old(self).calls().push((*x, r)) { unimplemented!() }
    }
    pub trait Display {}
    impl Display for f64 {}
    impl Display for f32 {}
    impl Display for usize {}
    impl Display for u64 {}
    impl Display for u32 {}
    impl Display for u128 {}
    impl Display for i32 {}
    impl Display for i64 {}
    impl<T: Display> Display for &T {}
    #[verifier::external_body]
    pub struct Text { s: u64 }
    impl Text {
        pub uninterp spec fn toks(&self) -> Seq<Tok>;
        #[verifier::external_body]
        pub fn new() -> (r: Text) ensures r.toks() == Seq::<Tok>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn val<T: Display>(&mut self, x: &T, p: Option<usize>) ensures final(self).toks() == old(self).toks().push(Tok::Val(shown(*x, p))) { unimplemented!() }
        #[verifier::external_body]
        pub fn lit(&mut self, left: bool, right: bool, wordy: bool) ensures final(self).toks() == old(self).toks().push(Tok::Lit { left, right, wordy }) { unimplemented!() }
        #[verifier::external_body]
        pub fn nl(&mut self) ensures final(self).toks() == old(self).toks().push(Tok::Nl) { unimplemented!() }
        #[verifier::external_body]
        pub fn append(&mut self, t: &Text) ensures final(self).toks() == old(self).toks() + t.toks() { unimplemented!() }
        #[verifier::external_body]
        pub fn put(&mut self, t: &Text) -> (r: Result<(), io::Error>) ensures r is Ok, final(self).toks() == old(self).toks() + t.toks() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn text_cat(a: Text, b: &Text) -> (r: Text) ensures r.toks() == a.toks() + b.toks() { unimplemented!() }
    /// the values and line breaks of a text, in order
    pub open spec fn vals(s: Seq<Tok>) -> Seq<Tok>
        decreases s.len()
    {
        if s.len() == 0 { s } else if s.last() is Lit { vals(s.drop_last()) } else { vals(s.drop_last()).push(s.last()) }
    }
    pub open spec fn words(s: Seq<Tok>) -> Seq<Tok>
        decreases s.len()
    {
        if s.len() == 0 { s } else if s.last() is Val { words(s.drop_last()).push(s.last()) } else { words(s.drop_last()) }
    }
    pub open spec fn ends(t: Tok) -> bool { match t { Tok::Val(_) => false, Tok::Lit { left, right, wordy } => left, Tok::Nl => true } }
    pub open spec fn starts(t: Tok) -> bool { match t { Tok::Val(_) => false, Tok::Lit { left, right, wordy } => right, Tok::Nl => true } }
    /// no printed value touches another one or a text that could be read as part of it
    pub open spec fn apart(s: Seq<Tok>) -> bool {
        &&& forall|i: int| 0 <= i < s.len() - 1 && #[trigger] s[i] is Val ==> ends(s[i + 1])
        &&& forall|i: int| 1 <= i < s.len() && #[trigger] s[i] is Val ==> starts(s[i - 1])
    }
    pub proof fn lem_cat(a: Seq<Tok>, b: Seq<Tok>)
        ensures vals(a + b) == vals(a) + vals(b), words(a + b) == words(a) + words(b)
        decreases b.len()
    {
        if b.len() == 0 {
            assert(a + b =~= a);
            assert(vals(a) + vals(b) =~= vals(a));
            assert(words(a) + words(b) =~= words(a));
        } else {
            lem_cat(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
            assert(vals(a + b) =~= vals(a) + vals(b));
            assert(words(a + b) =~= words(a) + words(b));
        }
    }
    pub broadcast proof fn lem_vals_cat(a: Seq<Tok>, b: Seq<Tok>)
        ensures #[trigger] vals(a + b) == vals(a) + vals(b)
    { lem_cat(a, b); }
    pub broadcast proof fn lem_words_cat(a: Seq<Tok>, b: Seq<Tok>)
        ensures #[trigger] words(a + b) == words(a) + words(b)
    { lem_cat(a, b); }
    pub broadcast proof fn lem_vals_push(a: Seq<Tok>, t: Tok)
        ensures #[trigger] vals(a.push(t)) == (if t is Lit { vals(a) } else { vals(a).push(t) })
    { assert(a.push(t).drop_last() =~= a); }
    pub broadcast proof fn lem_words_push(a: Seq<Tok>, t: Tok)
        ensures #[trigger] words(a.push(t)) == (if t is Val { words(a).push(t) } else { words(a) })
    { assert(a.push(t).drop_last() =~= a); }
    pub broadcast proof fn lem_vals_none()
        ensures #[trigger] vals(Seq::<Tok>::empty()) == Seq::<Tok>::empty()
    {}
    pub broadcast proof fn lem_words_none()
        ensures #[trigger] words(Seq::<Tok>::empty()) == Seq::<Tok>::empty()
    {}
    /// `b` is `a` with something written after it, and what that is
    pub open spec fn grew(a: Seq<Tok>, b: Seq<Tok>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
    pub open spec fn tail(a: Seq<Tok>, b: Seq<Tok>) -> Seq<Tok> { b.subrange(a.len() as int, b.len() as int) }
    pub broadcast proof fn lem_tail_same(a: Seq<Tok>)
        ensures #![trigger grew(a, a)] #![trigger tail(a, a)] grew(a, a), tail(a, a) == Seq::<Tok>::empty()
    { assert(a.subrange(0, a.len() as int) =~= a); assert(tail(a, a) =~= Seq::<Tok>::empty()); }
    pub broadcast proof fn lem_tail_put(a: Seq<Tok>, b: Seq<Tok>, t: Seq<Tok>)
        requires grew(a, b)
        ensures #![trigger grew(a, b + t)] #![trigger tail(a, b + t)] grew(a, b + t), tail(a, b + t) == tail(a, b) + t
    {
        assert((b + t).subrange(0, a.len() as int) =~= b.subrange(0, a.len() as int));
        assert(tail(a, b + t) =~= tail(a, b) + t);
    }
    pub broadcast group text_lemmas { lem_tail_same, lem_tail_put, ax_shown_ref, ax_shown_usize, ax_shown_u32, ax_shown_u64, ax_shown_u128, lem_vals_cat, lem_words_cat, lem_vals_push, lem_words_push, lem_vals_none, lem_words_none }
    pub mod io {
        use vstd::prelude::*;
        use super::*;
        #[derive(Debug)]
        pub struct Error {}
        /// a writer that accepts everything (the code panics on one that does not)
        pub trait Write {
            spec fn out(&self) -> Seq<Tok>;
            fn put(&mut self, t: &Text) -> (r: Result<(), Error>)
                ensures r is Ok, final(self).out() == old(self).out() + t.toks();
            fn flush(&mut self) -> (r: Result<(), Error>)
                ensures r is Ok, final(self).out() == old(self).out();
        }
    }
    pub mod time {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Instant { i: u64 }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Duration { d: u64 }
        impl Duration {
            pub uninterp spec fn nanos(&self) -> nat;
            #[verifier::external_body]
            pub fn as_secs(&self) -> (r: u64) ensures r as nat == self.nanos() / 1_000_000_000, r < 0x10_0000_0000_0000 { unimplemented!() }
            #[verifier::external_body]
            pub fn subsec_millis(&self) -> (r: u32) ensures r as nat == (self.nanos() % 1_000_000_000) / 1_000_000, r < 1000 { unimplemented!() }
            #[verifier::external_body]
            pub fn as_micros(&self) -> (r: u128) ensures r as nat == self.nanos() / 1_000, r < 0x10_0000_0000_0000 * 1_000_000 { unimplemented!() }
            #[verifier::external_body]
            pub fn as_nanos(&self) -> (r: u128) ensures r as nat == self.nanos(), r < 0x10_0000_0000_0000 * 1_000_000_000 { unimplemented!() }
            #[verifier::external_body]
            pub fn subsec_micros(&self) -> (r: u32) ensures r as nat == (self.nanos() % 1_000_000_000) / 1_000, r < 1_000_000 { unimplemented!() }
            #[verifier::external_body]
            pub fn subsec_nanos(&self) -> (r: u32) ensures r as nat == self.nanos() % 1_000_000_000, r < 1_000_000_000 { unimplemented!() }
            #[verifier::external_body]
            pub fn as_millis(&self) -> (r: u128) ensures r as nat == self.nanos() / 1_000_000, r < 0x10_0000_0000_0000 * 1000 { unimplemented!() }
        }
        impl Instant {
            /// read from the clock during the call of the function whose contract speaks of it (no
            /// contract says this of what was stored before)
            pub uninterp spec fn read(&self) -> bool;
            /// `d` is the time that passed from this instant to a reading of the clock, as above
            pub uninterp spec fn since(&self, d: Duration) -> bool;
            #[verifier::external_body]
            pub fn now() -> (r: Instant) ensures r.read() { unimplemented!() }
            #[verifier::external_body]
            pub fn elapsed(&self) -> (r: Duration) ensures self.since(r) { unimplemented!() }
            #[verifier::external_body]
            pub fn duration_since(&self, earlier: Instant) -> (r: Duration) ensures self.read() ==> earlier.since(r) { unimplemented!() }
        }
    }
    #[verifier::external_body]
    pub fn vec_take<T>(v: &mut Vec<T>, i: usize) -> (r: T)
        requires i < old(v)@.len()
        ensures r == old(v)@[i as int], final(v)@.len() == old(v)@.len(),
            forall|k: int| 0 <= k < old(v)@.len() && k != i ==> final(v)@[k] == old(v)@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vec_take_all<T>(v: &mut Vec<T>) -> (r: Vec<T>)
        ensures r@ == old(v)@, final(v)@.len() == 0,
    { core::mem::take(v) }
    pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b })
    { if a < b { a } else { b } }
    // ---- assertions of the code: it panics unless the condition holds
    #[verifier::external_body]
    pub fn rt_assert(b: bool) ensures b { if !b { panic!() } }
    /// as above, and the condition has to hold whenever the input is valid (no panic on valid input)
    #[verifier::external_body]
    pub fn rt_assert_if(b: bool, valid: Ghost<bool>) requires valid@ ==> b ensures b { if !b { panic!() } }
    #[verifier::external_body]
    pub fn rt_panic() -> ! ensures false { panic!() }
    #[verifier::external_body]
    pub fn rt_panic_if(valid: Ghost<bool>) -> ! requires !valid@ ensures false { panic!() }
    pub uninterp spec fn f64_max_s() -> f64;
    pub uninterp spec fn f64_min_s() -> f64;
    #[verifier::external_body]
    pub fn f64_NAN() -> (r: f64) ensures r.ieee_is_nan() { f64::NAN }
    #[verifier::external_body]
    pub fn f64_MAX() -> (r: f64) ensures r == f64_max_s(), !r.ieee_is_nan(), !r.ieee_is_infinite() { f64::MAX }
    #[verifier::external_body]
    pub fn f64_MIN() -> (r: f64) ensures r == f64_min_s(), !r.ieee_is_nan(), !r.ieee_is_infinite() { f64::MIN }
    #[verifier::external_body]
    pub fn f64_INFINITY() -> (r: f64) ensures r.ieee_is_infinite(), !r.ieee_is_nan() { f64::INFINITY }
    #[verifier::external_body]
    pub fn f64_NEG_INFINITY() -> (r: f64) ensures r.ieee_is_infinite(), !r.ieee_is_nan() { f64::NEG_INFINITY }
    #[verifier::external_body]
    pub fn f64_EPSILON() -> (r: f64) ensures !r.ieee_is_nan(), !r.ieee_is_infinite(), (0.0f64).ieee_lt(r) { f64::EPSILON }
    #[verifier::external_body]
    pub fn f64_MIN_POSITIVE() -> (r: f64) ensures !r.ieee_is_nan(), !r.ieee_is_infinite(), (0.0f64).ieee_lt(r) { f64::MIN_POSITIVE }
    #[verifier::external_body]
    pub fn f32_NAN() -> (r: f32) ensures r.ieee_is_nan() { f32::NAN }
    #[verifier::external_body]
    pub fn f32_MAX() -> (r: f32) ensures !r.ieee_is_nan(), !r.ieee_is_infinite() { f32::MAX }
    #[verifier::external_body]
    pub fn f32_EPSILON() -> (r: f32) ensures !r.ieee_is_nan(), !r.ieee_is_infinite(), (0.0f32).ieee_lt(r) { f32::EPSILON }
    #[verifier::external_body]
    pub fn vec_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { vec![x; n] }
    #[verifier::external_body]
    pub fn size_of<T>() -> (r: usize) ensures r == vstd::layout::size_of::<T>() { core::mem::size_of::<T>() }
    #[verifier::external_body]
    pub fn size_of_val<T>(x: &T) -> (r: usize) ensures r == vstd::layout::size_of::<T>() { core::mem::size_of::<T>() }
    /// start of a sum
    pub trait Zero_: Sized { spec fn zero_spec() -> Self; fn zero_() -> (r: Self) ensures r == Self::zero_spec(); }
    impl Zero_ for usize { open spec fn zero_spec() -> usize { 0 } fn zero_() -> (r: usize) { 0 } }
    impl Zero_ for u64 { open spec fn zero_spec() -> u64 { 0 } fn zero_() -> (r: u64) { 0 } }
    impl Zero_ for f64 { open spec fn zero_spec() -> f64 { 0.0 } fn zero_() -> (r: f64) { 0.0 } }
    /// `as f64` on an integer (the mathematical value, as far as arithmetic is exact) or a narrower float (opaque)
    pub uninterp spec fn widened(x: f32) -> f64;
    pub uninterp spec fn narrowed(x: f64) -> f32;
    pub uninterp spec fn narrowed_int(x: int) -> f32;
    pub trait AsFloat: Sized { spec fn as_post(self, r: f64) -> bool; fn as_f64_(self) -> (r: f64) ensures self.as_post(r); spec fn as32_spec(self) -> f32; fn as_f32_(self) -> (r: f32) ensures r == self.as32_spec(); }
    impl AsFloat for usize { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for u32 { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for u64 { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for i32 { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for u8 { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for u16 { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for i8 { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for i16 { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for isize { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for i64 { open spec fn as_post(self, r: f64) -> bool { (crate::realmodel::rm() ==> crate::realmodel::rv(r) == ((self as int) as real)) && r == crate::num::int64(self as int) } open spec fn as32_spec(self) -> f32 { narrowed_int(self as int) } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for f64 { open spec fn as_post(self, r: f64) -> bool { r == self } open spec fn as32_spec(self) -> f32 { narrowed(self) } fn as_f64_(self) -> (r: f64) { self } #[verifier::external_body] fn as_f32_(self) -> (r: f32) { self as f32 } }
    impl AsFloat for f32 { open spec fn as_post(self, r: f64) -> bool { r == widened(self) } open spec fn as32_spec(self) -> f32 { self } #[verifier::external_body] fn as_f64_(self) -> (r: f64) { self as f64 } fn as_f32_(self) -> (r: f32) { self } }
    pub fn as_f64<X: AsFloat>(x: X) -> (r: f64) ensures x.as_post(r) { x.as_f64_() }
    pub fn as_f32<X: AsFloat>(x: X) -> (r: f32) ensures r == x.as32_spec() { x.as_f32_() }
}
