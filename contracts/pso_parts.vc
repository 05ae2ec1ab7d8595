@@# ------------------------------------------------------------------ initialisers (C07)
@@module particleswarm::initializing
use crate::genetic::creation::vec_float::{good_iv, vec_in, free_row, free_rows, free_item, lem_free_rows};
use crate::tools::more_draws;
broadcast use {crate::spec::ax, crate::realmodel::rax, crate::num::numax};
pub open spec fn all_in<T: NumCast + PartialOrd>(r: Seq<Vec<T>>, iv: Seq<(T, T)>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> vec_in((#[trigger] r[i])@, iv) }
pub open spec fn all_zero<T: Zero>(r: Seq<Vec<T>>, d: int, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> is_zero_vec((#[trigger] r[i])@, d) }
pub open spec fn is_zero_vec<T: Zero>(v: Seq<T>, d: int) -> bool { v.len() == d && forall|j: int| 0 <= j < d ==> #[trigger] v[j] == zero_s::<T>() }
/// one more vector of own draws
pub proof fn lem_next_row<T: NumCast + PartialOrd>(r0: crate::rand::rngs::ThreadRng, r1: crate::rand::rngs::ThreadRng, r2: crate::rand::rngs::ThreadRng, a: Seq<Vec<T>>, b: Seq<Vec<T>>, iv: Seq<(T, T)>, j: int)
    requires j >= 0, a.len() == j, b.len() == j + 1, b.drop_last() =~= a, more_draws(r1, r2, iv.len() as int),
        hist::<f64>(r1).len() == hist::<f64>(r0).len() + j * iv.len(), supps::<f64>(r1).len() == supps::<f64>(r0).len() + j * iv.len(),
        free_rows(hist::<f64>(r1).skip(hist::<f64>(r0).len() as int), supps::<f64>(r1).skip(supps::<f64>(r0).len() as int), a, iv),
        free_row(hist::<f64>(r2), hist::<f64>(r1).len() as int, supps::<f64>(r2), supps::<f64>(r1).len() as int, b.last()@, iv),
        all_in(b, iv, j + 1),
    ensures free_rows(hist::<f64>(r2).skip(hist::<f64>(r0).len() as int), supps::<f64>(r2).skip(supps::<f64>(r0).len() as int), b, iv),
        hist::<f64>(r2).len() == hist::<f64>(r0).len() + (j + 1) * iv.len(), supps::<f64>(r2).len() == supps::<f64>(r0).len() + (j + 1) * iv.len(),
{
    let d = iv.len() as int; let h0 = hist::<f64>(r0).len() as int; let q0 = supps::<f64>(r0).len() as int;
    assert((j + 1) * d == j * d + d) by (nonlinear_arith);
    assert(0 <= j * d) by (nonlinear_arith) requires 0 <= j, 0 <= d;
    let h = hist::<f64>(r2).skip(h0); let q = supps::<f64>(r2).skip(q0);
    assert(free_row(h, j * d, q, j * d, b.last()@, iv)) by {
        assert forall|k: int| 0 <= k < b.last()@.len() implies free_item(h[j * d + k], q[j * d + k], #[trigger] b.last()@[k], iv[k]) by {
            assert(free_item(hist::<f64>(r2)[hist::<f64>(r1).len() + k], supps::<f64>(r2)[supps::<f64>(r1).len() + k], b.last()@[k], iv[k]));
        }
    }
    assert(b.drop_last() =~= a);
    assert(b.last() == b[j] && vec_in(b[j]@, iv));
    lem_free_rows(hist::<f64>(r1).skip(h0), supps::<f64>(r1).skip(q0), h, q, b, iv);
}
@@fn particleswarm::initializing::RandomCoordinatesInitializer::new
@@props C07 C28
@@spec
    ensures r.intervals == intervals, r.particles_count == particles_count
@@fn particleswarm::initializing::RandomVelocityInitializer::new
@@props C07 C28
@@spec
    ensures r.intervals == intervals, r.particles_count == particles_count
@@fn particleswarm::initializing::ZeroVelocityInitializer::new
@@props C07 C28
@@spec
    ensures r.dimension == dimension, r.particles_count == particles_count
@@fn particleswarm::initializing::<RandomCoordinatesInitializer as CoordinatesInitializer>::get_coordinates
@@props C07
@@mode lift
@@spec
    requires good_iv(old(self).intervals@)
    ensures all_in(r@, old(self).intervals@, old(self).particles_count as int),
        *final(self) == (RandomCoordinatesInitializer { vector_creator: final(self).vector_creator, ..*old(self) }),
        free_rows(hist::<f64>(final(self).vector_creator.random).skip(hist::<f64>(old(self).vector_creator.random).len() as int), supps::<f64>(final(self).vector_creator.random).skip(supps::<f64>(old(self).vector_creator.random).len() as int), r@, old(self).intervals@), //# C00
@@at entry
let ghost r0 = self_.vector_creator.random;
let ghost iv = self_.intervals@;
proof { assert(0 * iv.len() == 0) by (nonlinear_arith); } //# C00
@@loop 0
        *self_ == (RandomCoordinatesInitializer { vector_creator: self_.vector_creator, ..*old(self_) }),
        all_in(__c0@, self_.intervals@, __i0 as int), iv == self_.intervals@,
        hist::<f64>(self_.vector_creator.random).len() == hist::<f64>(r0).len() + __i0 * iv.len() && supps::<f64>(self_.vector_creator.random).len() == supps::<f64>(r0).len() + __i0 * iv.len(), //# C00
        free_rows(hist::<f64>(self_.vector_creator.random).skip(hist::<f64>(r0).len() as int), supps::<f64>(self_.vector_creator.random).skip(supps::<f64>(r0).len() as int), __c0@, iv), //# C00
@@at loop 0 begin
let ghost r1 = self_.vector_creator.random;
let ghost p1 = __c0@;
@@at loop 0 end
proof { lem_next_row(r0, r1, self_.vector_creator.random, p1, __c0@, iv, __j0 as int); } //# C00
@@fn particleswarm::initializing::<RandomVelocityInitializer as VelocityInitializer>::get_velocity
@@props C07
@@mode lift
@@spec
    requires good_iv(old(self).intervals@)
    ensures all_in(r@, old(self).intervals@, old(self).particles_count as int),
        *final(self) == (RandomVelocityInitializer { vector_creator: final(self).vector_creator, ..*old(self) }),
        free_rows(hist::<f64>(final(self).vector_creator.random).skip(hist::<f64>(old(self).vector_creator.random).len() as int), supps::<f64>(final(self).vector_creator.random).skip(supps::<f64>(old(self).vector_creator.random).len() as int), r@, old(self).intervals@), //# C00
@@at entry
let ghost r0 = self_.vector_creator.random;
let ghost iv = self_.intervals@;
proof { assert(0 * iv.len() == 0) by (nonlinear_arith); } //# C00
@@loop 0
        *self_ == (RandomVelocityInitializer { vector_creator: self_.vector_creator, ..*old(self_) }),
        all_in(__c0@, self_.intervals@, __i0 as int), iv == self_.intervals@,
        hist::<f64>(self_.vector_creator.random).len() == hist::<f64>(r0).len() + __i0 * iv.len() && supps::<f64>(self_.vector_creator.random).len() == supps::<f64>(r0).len() + __i0 * iv.len(), //# C00
        free_rows(hist::<f64>(self_.vector_creator.random).skip(hist::<f64>(r0).len() as int), supps::<f64>(self_.vector_creator.random).skip(supps::<f64>(r0).len() as int), __c0@, iv), //# C00
@@at loop 0 begin
let ghost r1 = self_.vector_creator.random;
let ghost p1 = __c0@;
@@at loop 0 end
proof { lem_next_row(r0, r1, self_.vector_creator.random, p1, __c0@, iv, __j0 as int); } //# C00
@@fn particleswarm::initializing::<ZeroVelocityInitializer as VelocityInitializer>::get_velocity
@@props C07
@@mode lift
@@spec
    ensures all_zero(r@, old(self).dimension as int, old(self).particles_count as int), *final(self) == *old(self)
@@loop 0
        *self_ == *old(self_),
        all_zero(__c0@, self_.dimension as int, __i0 as int),
@@# ------------------------------------------------------------------ post-move steps (C17)
@@module particleswarm::postmove
use crate::rand::distributions::uniform::{in_range, upto};
broadcast use {crate::spec::ax, crate::realmodel::rax, crate::num::numax};
/// where the move-to-boundary step puts a coordinate
pub open spec fn bounded<T: Float>(x: T, iv: (T, T)) -> T {
    if !finite_s(x) { iv.0 } else if pclt(x, iv.0) { iv.0 } else if pcgt(x, iv.1) { iv.1 } else { x }
}
/// numerically equal
pub open spec fn same_num<T: Float>(x: T, y: T) -> bool { x == y || x.partial_cmp_spec(&y) == Some(core::cmp::Ordering::Equal) || y.partial_cmp_spec(&x) == Some(core::cmp::Ordering::Equal) }
pub open spec fn is_bounded<T: Float>(x: T, iv: (T, T), r: T) -> bool { r == bounded(x, iv) || same_num(r, bounded(x, iv)) }
pub open spec fn closed_iv<T: Float>(iv: Seq<(T, T)>) -> bool { forall|i: int| 0 <= i < iv.len() ==> pcle((#[trigger] iv[i]).0, iv[i].1) }
pub open spec fn bounded_upto<T: Float>(a: Seq<T>, b: Seq<T>, iv: Seq<(T, T)>, n: int) -> bool {
    b.len() == a.len() && (forall|i: int| 0 <= i < n ==> is_bounded(a[i], iv[i], #[trigger] b[i])) && (forall|i: int| n <= i < a.len() ==> #[trigger] b[i] == a[i])
}
/// the result is inside the interval (finite numbers are totally ordered)
pub proof fn lem_bounded_inside<T: Float>(x: T, iv: (T, T))
    requires pcle(iv.0, iv.1), iv.0.partial_cmp_spec(&iv.0) == Some(core::cmp::Ordering::Equal), iv.1.partial_cmp_spec(&iv.1) == Some(core::cmp::Ordering::Equal),
        finite_s(x) ==> pclt(x, iv.0) || pcle(iv.0, x), finite_s(x) ==> pcgt(x, iv.1) || pcle(x, iv.1)
    ensures pcle(iv.0, bounded(x, iv)), pcle(bounded(x, iv), iv.1)
{ }
@@fn particleswarm::postmove::MoveToBoundary::new
@@props C17 C28
@@spec
    ensures r.intervals == intervals
@@fn particleswarm::postmove::<MoveToBoundary as PostMove>::post_move
@@props C17
@@mode lift
@@valid
old(coordinates)@.len() == old(self).intervals@.len()
@@spec
    requires closed_iv(old(self).intervals@)
    ensures bounded_upto(old(coordinates)@, final(coordinates)@, old(self).intervals@, old(coordinates)@.len() as int), *final(self) == *old(self),
        old(coordinates)@.len() == old(self).intervals@.len()
@@loop 0
        *self_ == *old(self_),
        bounded_upto(old(coordinates)@, coordinates@, self_.intervals@, __i0 as int),
@@at loop 0 begin
proof {
    let a = coordinates@[__j0 as int]; let iv = self_.intervals@[__j0 as int];
    crate::num::ax_pc_eq(a, iv.0, iv.1); crate::num::ax_pc_eq(iv.0, iv.1, a); crate::num::ax_pc_eq(a, iv.1, iv.0);
}
assert(closed_iv(self_.intervals@) && pcle(self_.intervals@[__j0 as int].0, self_.intervals@[__j0 as int].1));
@@fn particleswarm::postmove::RandomTeleport::new
@@props C17
@@valid
0.0f32.ieee_le(probability) && probability.ieee_le(1.0f32)
@@spec
    requires forall|i: int| 0 <= i < intervals@.len() ==> upto((#[trigger] intervals@[i]).0, intervals@[i].1)
    ensures r.intervals == intervals, r.probability == probability, 0.0f32.ieee_le(probability), probability.ieee_le(1.0f32), matching(r.random_intervals@, intervals@, intervals@.len() as int)
@@loop 0
        matching(__c0@, intervals@, __i0 as int),
@@module particleswarm::postmove
pub open spec fn matching<T: Float + SampleUniform>(u: Seq<Uniform<T>>, iv: Seq<(T, T)>, n: int) -> bool {
    u.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] u[i]).incl && u[i].lo == iv[i].0 && u[i].hi == iv[i].1
}
/// every coordinate came from its own interval
pub open spec fn teleported<T: Float + SampleUniform>(b: Seq<T>, iv: Seq<(T, T)>, n: int) -> bool {
    n <= b.len() && forall|i: int| 0 <= i < n ==> upto(iv[i].0, #[trigger] b[i]) && upto(b[i], iv[i].1)
}
/// the deciding draw could have had every value of [0, 1)
pub open spec fn cover_first(q: Seq<spec_fn(f32) -> bool>, q0: int) -> bool { q0 < q.len() && forall|x: f32| 0.0f32.ieee_le(x) && x.ieee_lt(1.0f32) ==> #[trigger] (q[q0])(x) }
/// the k-th draw was x and could have had every value of the interval
pub open spec fn anywhere_at<T: Float + SampleUniform>(h: Seq<T>, q: Seq<spec_fn(T) -> bool>, k: int, m: int, x: T, iv: (T, T)) -> bool {
    0 <= k < h.len() && 0 <= m < q.len() && h[k] == x && forall|y: T| upto(iv.0, y) && upto(y, iv.1) ==> #[trigger] (q[m])(y)
}
pub open spec fn anywhere_1<T: Float + SampleUniform>(h: Seq<T>, q: Seq<spec_fn(T) -> bool>, x: T, iv: (T, T)) -> bool { exists|k: int, m: int| #[trigger] anywhere_at(h, q, k, m, x, iv) }
/// each of the first n coordinates is such a draw
pub open spec fn anywhere<T: Float + SampleUniform>(h: Seq<T>, q: Seq<spec_fn(T) -> bool>, b: Seq<T>, iv: Seq<(T, T)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> anywhere_1(h, q, #[trigger] b[i], iv[i])
}
pub proof fn lem_anywhere<T: Float + SampleUniform>(h: Seq<T>, q: Seq<spec_fn(T) -> bool>, b: Seq<T>, h2: Seq<T>, q2: Seq<spec_fn(T) -> bool>, b2: Seq<T>, iv: Seq<(T, T)>, n: int)
    requires 0 <= n < b.len(), anywhere(h, q, b, iv, n), h2.len() == h.len() + 1, h2.drop_last() =~= h, q2.len() == q.len() + 1, q2.drop_last() =~= q,
        b2 =~= b.update(n, h2.last()), forall|y: T| upto(iv[n].0, y) && upto(y, iv[n].1) ==> #[trigger] (q2.last())(y)
    ensures anywhere(h2, q2, b2, iv, n + 1)
{
    assert forall|i: int| 0 <= i < n + 1 implies anywhere_1(h2, q2, #[trigger] b2[i], iv[i]) by {
        if i < n {
            assert(b2[i] == b[i]);
            let (k, m) = choose|k: int, m: int| #[trigger] anywhere_at(h, q, k, m, b[i], iv[i]);
            assert(h2.drop_last()[k] == h[k] && q2.drop_last()[m] == q[m]);
            assert(anywhere_at(h2, q2, k, m, b2[i], iv[i]));
        } else { assert(q2.last() == q2[q2.len() - 1]); assert(b2[n] == h2.last()); assert(anywhere_at(h2, q2, h2.len() - 1, q2.len() - 1, b2[i], iv[i])); }
    }
}
/// C17: probability 0 never teleports, probability 1 always does
pub proof fn lem_teleport_ends(x: f32) requires 0.0f32.ieee_le(x), x.ieee_lt(1.0f32) ensures !x.ieee_lt(0.0f32), x.ieee_lt(1.0f32)
{ assert(0.0f32.ieee_le(x) ==> !x.ieee_lt(0.0f32)) by (bit_vector); }
@@fn particleswarm::postmove::<RandomTeleport as PostMove>::post_move
@@props C17
@@mode lift
@@valid
old(coordinates)@.len() == old(self).intervals@.len()
@@spec
    requires matching(old(self).random_intervals@, old(self).intervals@, old(self).intervals@.len() as int), 
    ensures
        *final(self) == (RandomTeleport { random: final(self).random, ..*old(self) }),
        old(coordinates)@.len() == old(self).intervals@.len(),
        final(coordinates)@.len() == old(coordinates)@.len(),
        ({
            let d = hist::<f32>(final(self).random)[hist::<f32>(old(self).random).len() as int];
            &&& hist::<f32>(final(self).random).len() > hist::<f32>(old(self).random).len()
            &&& 0.0f32.ieee_le(d) && d.ieee_lt(1.0f32)
            &&& d.ieee_lt(old(self).probability) ==> teleported(final(coordinates)@, old(self).intervals@, old(coordinates)@.len() as int)
            &&& !d.ieee_lt(old(self).probability) ==> final(coordinates)@ == old(coordinates)@
        }),
        cover_first(supps::<f32>(final(self).random), supps::<f32>(old(self).random).len() as int), //# C00
        hist::<f32>(final(self).random)[hist::<f32>(old(self).random).len() as int].ieee_lt(old(self).probability) ==> anywhere(hist::<T>(final(self).random), supps::<T>(final(self).random), final(coordinates)@, old(self).intervals@, old(coordinates)@.len() as int), //# C00
@@at entry
let ghost q0 = supps::<f32>(self_.random).len() as int;
let ghost h0 = hist::<f32>(self_.random).len() as int;
proof { assert(0.0f32.ieee_lt(1.0f32)) by (bit_vector); }
@@at loop 0 before
let ghost d = hist::<f32>(self_.random)[h0];
@@loop 0
        *self_ == (RandomTeleport { random: self_.random, ..*old(self_) }),
        coordinates@.len() == old(coordinates)@.len(),
        coordinates@.len() == self_.intervals@.len(),
        hist::<f32>(self_.random).len() > h0,
        hist::<f32>(self_.random)[h0] == d,
        teleported(coordinates@, self_.intervals@, __i0 as int),
        cover_first(supps::<f32>(self_.random), q0), //# C00
        anywhere(hist::<T>(self_.random), supps::<T>(self_.random), coordinates@, self_.intervals@, __i0 as int), //# C00
@@at loop 0 begin
let ghost r_old = self_.random;
let ghost b_old = coordinates@;
@@at loop 0 end
proof { lem_anywhere(hist::<T>(r_old), supps::<T>(r_old), b_old, hist::<T>(self_.random), supps::<T>(self_.random), coordinates@, self_.intervals@, __j0 as int); } //# C00
@@# ------------------------------------------------------------------ velocity limiters (C18)
@@module particleswarm::postvelocitycalc
use crate::particleswarm::postmove::same_num;
broadcast use {crate::spec::ax, crate::realmodel::rax, crate::num::numax};
/// one component under the per-dimension limit
pub open spec fn limited<T: Float>(v: T, m: T, r: T) -> bool {
    &&& pcle(abs_s(v), m) ==> r == v || (same_num(abs_s(v), m) && (rm() && rv(m) >= 0real ==> (if rv(v) == 0real { rv(m) == 0real ==> rv(r) == 0real } else { rv(r) == rv(m) * rsign(rv(v)) })))
    &&& pcgt(abs_s(v), m) && rm() && rv(m) >= 0real && rv(v) != 0real ==> rv(r) == rv(m) * rsign(rv(v))
}
pub open spec fn limited_upto<T: Float>(v: Seq<T>, m: Seq<T>, r: Seq<T>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> limited(v[i], m[i], #[trigger] r[i]) }
pub open spec fn sumsq<T>(v: Seq<T>, n: int) -> real decreases n { if n <= 0 { 0real } else { sumsq(v, n - 1) + rv(v[n - 1]) * rv(v[n - 1]) } }
pub open spec fn all_fin<T>(v: Seq<T>) -> bool { forall|i: int| 0 <= i < v.len() ==> fin(#[trigger] v[i]) }
pub proof fn lem_sumsq<T>(v: Seq<T>, n: int) ensures sumsq(v, n) >= 0real decreases n
{ if n > 0 { lem_sumsq(v, n - 1); let x = rv(v[n - 1]); assert(x * x >= 0real) by (nonlinear_arith); } }
/// a is the real number x
pub open spec fn reads<T>(a: T, x: real) -> bool { rm() ==> rv(a) == x }
pub open spec fn stays_fin<T>(a: T, c: bool) -> bool { rm() && c ==> fin(a) }
pub open spec fn scaled<T: Float>(v: Seq<T>, r: Seq<T>, m: T, norm: real, n: int) -> bool {
    r.len() == n && forall|i: int| 0 <= i < n ==> (rm() && norm != 0real ==> rv(#[trigger] r[i]) == rv(v[i]) * rv(m) / norm)
}
@@fn particleswarm::postvelocitycalc::MaxVelocityDimensions::new
@@props C18 C28
@@spec
    ensures r.max_velocity == max_velocity
@@fn particleswarm::postvelocitycalc::MaxVelocityAbs::new
@@props C18 C28
@@spec
    ensures r.max_velocity == max_velocity
@@fn particleswarm::postvelocitycalc::<MaxVelocityDimensions as PostVelocityCalc>::correct_velocity
@@props C18
@@mode lift
@@valid
velocity@.len() == old(self).max_velocity@.len()
@@spec
    ensures limited_upto(velocity@, old(self).max_velocity@, r@, velocity@.len() as int), *final(self) == *old(self),
        velocity@.len() == old(self).max_velocity@.len()
@@loop 0
        *self_ == *old(self_),
        limited_upto(velocity@, self_.max_velocity@, __c0@, __i0 as int),
@@fn particleswarm::postvelocitycalc::<MaxVelocityAbs as PostVelocityCalc>::correct_velocity
@@props C18
@@mode lift
@@spec
    ensures *final(self) == *old(self), r@.len() == velocity@.len(),
        rm() && all_fin(velocity@) && fin(old(self).max_velocity) && rv(old(self).max_velocity) >= 0real ==> ({
            let norm = rsqrt(sumsq(velocity@, velocity@.len() as int));
            &&& norm <= rv(old(self).max_velocity) ==> r@ == velocity@ || (norm == rv(old(self).max_velocity) && scaled(velocity@, r@, old(self).max_velocity, norm, velocity@.len() as int))
            &&& norm > rv(old(self).max_velocity) ==> scaled(velocity@, r@, old(self).max_velocity, norm, velocity@.len() as int)
        })
@@at entry
proof { lem_sumsq(velocity@, velocity@.len() as int); ax_rsqrt(sumsq(velocity@, velocity@.len() as int)); }
@@loop 0
        *self_ == *old(self_),
        reads(__f0, sumsq(velocity@, __i0 as int)),
        stays_fin(__f0, all_fin(velocity@)),
@@loop 1
        *self_ == *old(self_),
        scaled(velocity@, __c1@, self_.max_velocity, rsqrt(sumsq(velocity@, velocity@.len() as int)), __i1 as int),
