@@# ------------------------------------------------------------------ velocity formulas (C19) and inertia (C20)
@@module particleswarm::velocitycalc
use crate::particleswarm::{is_pbest, is_pworst, VcEv};
broadcast use {crate::spec::ax, crate::realmodel::rax, crate::num::numax};
/// the calculators are asked about a particle of a swarm whose records exist and have its dimension
pub open spec fn askable<T>(s: Swarm<T>, p: Particle<T>) -> bool {
    &&& s.best_particle.is_some()
    &&& s.best_particle.unwrap().coordinates@.len() == p.coordinates@.len()
    &&& sized(p, p.coordinates@.len() as int)
}
pub open spec fn sized<T>(p: Particle<T>, d: int) -> bool {
    &&& p.coordinates@.len() == d && p.velocity@.len() == d && p.best_personal_coordinates@.len() == d && p.worst_personal_coordinates@.len() == d
}
/// the real number a vector component stands for
pub open spec fn at<T>(v: Vec<T>, i: int) -> real { rv(v@[i]) }
pub open spec fn unit32(x: f32) -> bool { 0.0f32.ieee_le(x) && x.ieee_le(1.0f32) }
pub open spec fn unit64(x: f64) -> bool { 0.0f64.ieee_le(x) && x.ieee_le(1.0f64) }
/// two different draws of the n made for this component
pub open spec fn two(h: Seq<f32>, b: int, x: int, y: int) -> bool {
    b <= x < b + 2 && b <= y < b + 2 && x != y && b + 2 <= h.len() && unit32(h[x]) && unit32(h[y])
}
pub open spec fn attraction<T>(p: Particle<T>, s: Swarm<T>, i: int, pp: T, pg: T, rp: real, rg: real) -> real {
    rv(pp) * rp * (at(p.best_personal_coordinates, i) - at(p.coordinates, i)) + rv(pg) * rg * (at(s.best_particle.unwrap().coordinates, i) - at(p.coordinates, i))
}
pub open spec fn classic_item<T>(h: Seq<f32>, b: int, x: int, y: int, p: Particle<T>, s: Swarm<T>, i: int, w: real, xi: real, pp: T, pg: T, r: T) -> bool {
    two(h, b, x, y) && (rm() ==> rv(r) == xi * (w * at(p.velocity, i) + attraction(p, s, i, pp, pg, rv(h[x]), rv(h[y]))))
}
/// component i of the result, with its own two random factors
pub open spec fn classic_at<T>(h: Seq<f32>, b: int, p: Particle<T>, s: Swarm<T>, i: int, w: real, xi: real, pp: T, pg: T, r: T) -> bool {
    exists|x: int, y: int| #[trigger] classic_item(h, b, x, y, p, s, i, w, xi, pp, pg, r)
}
pub open spec fn classic_upto<T>(h: Seq<f32>, h0: int, p: Particle<T>, s: Swarm<T>, w: real, xi: real, pp: T, pg: T, r: Seq<T>, n: int) -> bool {
    r.len() == n && h.len() == h0 + 2 * n && forall|i: int| 0 <= i < n ==> classic_at(h, h0 + 2 * i, p, s, i, w, xi, pp, pg, #[trigger] r[i])
}
pub proof fn lem_classic_step<T>(h: Seq<f32>, h2: Seq<f32>, h0: int, p: Particle<T>, s: Swarm<T>, w: real, xi: real, pp: T, pg: T, r: Seq<T>, r2: Seq<T>, n: int, x: int, y: int)
    requires classic_upto(h, h0, p, s, w, xi, pp, pg, r, n), 0 <= n, h0 >= 0, h2.len() == h.len() + 2, forall|i: int| 0 <= i < h.len() ==> h2[i] == h[i],
        r2.len() == n + 1, r2.drop_last() == r, classic_item(h2, h0 + 2 * n, x, y, p, s, n, w, xi, pp, pg, r2[n])
    ensures classic_upto(h2, h0, p, s, w, xi, pp, pg, r2, n + 1)
{
    assert forall|i: int| 0 <= i < n + 1 implies classic_at(h2, h0 + 2 * i, p, s, i, w, xi, pp, pg, #[trigger] r2[i]) by {
        if i < n {
            assert(r2[i] == r[i]);
            let (a, b) = choose|a: int, b: int| #[trigger] classic_item(h, h0 + 2 * i, a, b, p, s, i, w, xi, pp, pg, r[i]);
            assert(classic_item(h2, h0 + 2 * i, a, b, p, s, i, w, xi, pp, pg, r2[i]));
        } else { assert(classic_item(h2, h0 + 2 * n, x, y, p, s, n, w, xi, pp, pg, r2[n])); }
    }
}
@@fn particleswarm::velocitycalc::ClassicVelocityCalculator::new
@@props C19 C28
@@spec
    ensures r.phi_personal == phi_personal, r.phi_global == phi_global
@@fn particleswarm::velocitycalc::<ClassicVelocityCalculator as VelocityCalculator>::calc_new_velocity
@@props C19
@@mode lift
@@spec
    requires askable(*swarm, *particle)
    ensures *final(self) == (ClassicVelocityCalculator { random: final(self).random, ..*old(self) }),
        classic_upto(hist::<f32>(final(self).random), hist::<f32>(old(self).random).len() as int, *particle, *swarm, 1real, 1real, old(self).phi_personal, old(self).phi_global, r@, particle.coordinates@.len() as int),
        cover_f32(supps::<f32>(final(self).random), supps::<f32>(old(self).random).len() as int, 0.0f32, 1.0f32), //# C00
@@at entry
let ghost q0 = supps::<f32>(self_.random).len() as int;
let ghost h0 = hist::<f32>(self_.random).len() as int;
proof { lem_unit_f32(); }
@@loop 0
        *self_ == (ClassicVelocityCalculator { random: self_.random, ..*old(self_) }),
        classic_upto(hist::<f32>(self_.random), h0, *particle, *swarm, 1real, 1real, self_.phi_personal, self_.phi_global, new_velocity@, __i0 as int),
        cover_f32(supps::<f32>(self_.random), q0, 0.0f32, 1.0f32), //# C00
@@at loop 0 begin
let ghost h_old = hist::<f32>(self_.random);
let ghost v_old = new_velocity@;
@@at letafter r_personal
let ghost ip = hist::<f32>(self_.random).len() - 1;
@@at letafter r_global
let ghost ig = hist::<f32>(self_.random).len() - 1;
@@at loop 0 end
proof {
    assert(new_velocity@.drop_last() =~= v_old);
    lem_classic_step(h_old, hist::<f32>(self_.random), h0, *particle, *swarm, 1real, 1real, self_.phi_personal, self_.phi_global, v_old, new_velocity@, __j0 as int, ip, ig);
}
@@module particleswarm::velocitycalc
pub proof fn lem_unit_f32() ensures 0.0f32.ieee_lt(1.0f32), !1.0f32.ieee_lt(0.0f32), !0.0f32.ieee_is_nan(), !1.0f32.ieee_is_nan()
{ assert(0.0f32.ieee_lt(1.0f32) && !1.0f32.ieee_lt(0.0f32) && !0.0f32.ieee_is_nan() && !1.0f32.ieee_is_nan()) by (bit_vector); }
pub proof fn lem_unit_f64() ensures 0.0f64.ieee_lt(1.0f64), !1.0f64.ieee_lt(0.0f64), !0.0f64.ieee_is_nan(), !1.0f64.ieee_is_nan()
{ assert(0.0f64.ieee_lt(1.0f64) && !1.0f64.ieee_lt(0.0f64) && !0.0f64.ieee_is_nan() && !1.0f64.ieee_is_nan()) by (bit_vector); }
@@fn particleswarm::velocitycalc::CanonicalVelocityCalculator::new
@@props C19
@@valid
rm() && fin(phi_personal) && fin(phi_global) && fin(alpha) && rv(phi_personal) + rv(phi_global) > 4real && 0real < rv(alpha) && rv(alpha) < 1real
@@spec
    ensures r.phi_personal == phi_personal, r.phi_global == phi_global,
        rm() && fin(phi_personal) && fin(phi_global) && fin(alpha) ==>
            rv(phi_personal) + rv(phi_global) > 4real && 0real < rv(alpha) && rv(alpha) < 1real
            && rv(r.xi) == 2real * rv(alpha) / (rv(phi_personal) + rv(phi_global) - 2real)
@@fn particleswarm::velocitycalc::<CanonicalVelocityCalculator as VelocityCalculator>::calc_new_velocity
@@props C19
@@mode lift
@@spec
    requires askable(*swarm, *particle)
    ensures *final(self) == (CanonicalVelocityCalculator { random: final(self).random, ..*old(self) }),
        classic_upto(hist::<f32>(final(self).random), hist::<f32>(old(self).random).len() as int, *particle, *swarm, 1real, rv(old(self).xi), old(self).phi_personal, old(self).phi_global, r@, particle.coordinates@.len() as int),
        cover_f32(supps::<f32>(final(self).random), supps::<f32>(old(self).random).len() as int, 0.0f32, 1.0f32), //# C00
@@at entry
let ghost q0 = supps::<f32>(self_.random).len() as int;
let ghost h0 = hist::<f32>(self_.random).len() as int;
proof { lem_unit_f32(); }
@@loop 0
        *self_ == (CanonicalVelocityCalculator { random: self_.random, ..*old(self_) }),
        classic_upto(hist::<f32>(self_.random), h0, *particle, *swarm, 1real, rv(self_.xi), self_.phi_personal, self_.phi_global, new_velocity@, __i0 as int),
        cover_f32(supps::<f32>(self_.random), q0, 0.0f32, 1.0f32), //# C00
@@at loop 0 begin
let ghost h_old = hist::<f32>(self_.random);
let ghost v_old = new_velocity@;
@@at letafter r_personal
let ghost ip = hist::<f32>(self_.random).len() - 1;
@@at letafter r_global
let ghost ig = hist::<f32>(self_.random).len() - 1;
@@at loop 0 end
proof {
    assert(new_velocity@.drop_last() =~= v_old);
    lem_classic_step(h_old, hist::<f32>(self_.random), h0, *particle, *swarm, 1real, rv(self_.xi), self_.phi_personal, self_.phi_global, v_old, new_velocity@, __j0 as int, ip, ig);
}
@@trait particleswarm::velocitycalc::Inertia
    spec fn log(&self) -> Seq<(usize, T)>;
@@fn particleswarm::velocitycalc::Inertia::get
@@spec
    ensures final(self).log() == old(self).log().push((iteration, r))
@@impl particleswarm::velocitycalc::<ConstInertia as Inertia>
    uninterp spec fn log(&self) -> Seq<(usize, T)>;
@@impl particleswarm::velocitycalc::<LinearInertia as Inertia>
    uninterp spec fn log(&self) -> Seq<(usize, T)>;
@@fn particleswarm::velocitycalc::ConstInertia::new
@@props C20 C28
@@spec
    ensures r.w == w
@@fn particleswarm::velocitycalc::<ConstInertia as Inertia>::get
@@props C20
@@mode lift
@@spec
    ensures r == old(self).w, *final(self) == *old(self)
@@fn particleswarm::velocitycalc::LinearInertia::new
@@props C20 C28
@@spec
    ensures r.w_min == w_min, r.w_max == w_max, r.t_max == t_max
@@fn particleswarm::velocitycalc::<LinearInertia as Inertia>::get
@@props C20
@@mode lift
@@spec
    ensures *final(self) == *old(self),
        rm() && fin(old(self).w_min) && fin(old(self).w_max) && iteration <= old(self).t_max && old(self).t_max > 0 ==> rv(r) == linear(rv(old(self).w_min), rv(old(self).w_max), iteration as int, old(self).t_max as int)
@@module particleswarm::velocitycalc
/// the straight line from w_max at 0 to w_min at t_max
pub open spec fn linear(w_min: real, w_max: real, t: int, t_max: int) -> real { w_max - (w_max - w_min) * (t as real) / (t_max as real) }
pub proof fn lem_linear_ends(w_min: real, w_max: real, t_max: int) requires t_max > 0 ensures linear(w_min, w_max, 0, t_max) == w_max, linear(w_min, w_max, t_max, t_max) == w_min
{
    let m = t_max as real; let d = w_max - w_min;
    assert(d * 0real / m == 0real) by (nonlinear_arith) requires m > 0real;
    assert(d * m / m == d) by (nonlinear_arith) requires m > 0real;
}
/// never increases, and stays between the two weights
pub proof fn lem_linear_mono(w_min: real, w_max: real, s: int, t: int, t_max: int) requires 0 <= s <= t <= t_max, t_max > 0, w_min <= w_max
    ensures linear(w_min, w_max, t, t_max) <= linear(w_min, w_max, s, t_max), w_min <= linear(w_min, w_max, t, t_max) <= w_max
{
    let m = t_max as real; let d = w_max - w_min; let a = s as real; let b = t as real;
    assert(d * a <= d * b) by (nonlinear_arith) requires d >= 0real, a <= b;
    assert(d * b <= d * m) by (nonlinear_arith) requires d >= 0real, b <= m;
    assert(d * b >= 0real) by (nonlinear_arith) requires d >= 0real, b >= 0real;
    assert(d * a / m <= d * b / m) by (nonlinear_arith) requires d * a <= d * b, m > 0real;
    assert(d * b / m <= d * m / m) by (nonlinear_arith) requires d * b <= d * m, m > 0real;
    assert(d * m / m == d) by (nonlinear_arith) requires m > 0real;
    assert(d * b / m >= 0real) by (nonlinear_arith) requires d * b >= 0real, m > 0real;
}
@@fn particleswarm::velocitycalc::InertiaVelocityCalculator::new
@@props C19 C28
@@spec
    ensures r.phi_personal == phi_personal, r.phi_global == phi_global, r.inertia == inertia
@@fn particleswarm::velocitycalc::<InertiaVelocityCalculator as VelocityCalculator>::calc_new_velocity
@@props C19
@@mode lift
@@spec
    requires askable(*swarm, *particle)
    ensures *final(self) == (InertiaVelocityCalculator { random: final(self).random, inertia: final(self).inertia, ..*old(self) }),
        final(self).inertia.log() == old(self).inertia.log().push((swarm.iteration, final(self).inertia.log().last().1)),
        classic_upto(hist::<f32>(final(self).random), hist::<f32>(old(self).random).len() as int, *particle, *swarm, rv(final(self).inertia.log().last().1), 1real, old(self).phi_personal, old(self).phi_global, r@, particle.coordinates@.len() as int),
        cover_f32(supps::<f32>(final(self).random), supps::<f32>(old(self).random).len() as int, 0.0f32, 1.0f32), //# C00
@@at entry
let ghost q0 = supps::<f32>(self_.random).len() as int;
let ghost h0 = hist::<f32>(self_.random).len() as int;
proof { lem_unit_f32(); }
@@loop 0
        *self_ == (InertiaVelocityCalculator { random: self_.random, inertia: self_.inertia, ..*old(self_) }),
        self_.inertia.log() == old(self_).inertia.log().push((swarm.iteration, self_.inertia.log().last().1)),
        self_.inertia.log().last().1 == inertia_ratio,
        classic_upto(hist::<f32>(self_.random), h0, *particle, *swarm, rv(self_.inertia.log().last().1), 1real, self_.phi_personal, self_.phi_global, new_velocity@, __i0 as int),
        cover_f32(supps::<f32>(self_.random), q0, 0.0f32, 1.0f32), //# C00
@@at loop 0 begin
let ghost h_old = hist::<f32>(self_.random);
let ghost v_old = new_velocity@;
@@at letafter r_personal
let ghost ip = hist::<f32>(self_.random).len() - 1;
@@at letafter r_global
let ghost ig = hist::<f32>(self_.random).len() - 1;
@@at loop 0 end
proof {
    assert(new_velocity@.drop_last() =~= v_old);
    lem_classic_step(h_old, hist::<f32>(self_.random), h0, *particle, *swarm, rv(self_.inertia.log().last().1), 1real, self_.phi_personal, self_.phi_global, v_old, new_velocity@, __j0 as int, ip, ig);
}
@@module particleswarm::velocitycalc
#[verifier::reject_recursive_types(T)]
pub struct NegPhi<T> { pub bp: T, pub bc: T, pub bg: T, pub wp: T, pub wc: T, pub wg: T, pub xi: T }
/// which of the draws a component used for which term
pub struct Six { pub bp: int, pub bc: int, pub bg: int, pub wp: int, pub wc: int, pub wg: int }
pub open spec fn six_ok(k: Six, h: Seq<f64>, b: int) -> bool {
    &&& b + 6 <= h.len()
    &&& b <= k.bp < b + 6 && b <= k.bc < b + 6 && b <= k.bg < b + 6 && b <= k.wp < b + 6 && b <= k.wc < b + 6 && b <= k.wg < b + 6
    &&& k.bp != k.bc && k.bp != k.bg && k.bp != k.wp && k.bp != k.wc && k.bp != k.wg && k.bc != k.bg && k.bc != k.wp && k.bc != k.wc && k.bc != k.wg
    &&& k.bg != k.wp && k.bg != k.wc && k.bg != k.wg && k.wp != k.wc && k.wp != k.wg && k.wc != k.wg
    &&& unit64(h[k.bp]) && unit64(h[k.bc]) && unit64(h[k.bg]) && unit64(h[k.wp]) && unit64(h[k.wc]) && unit64(h[k.wg])
}
/// one term: factor, random factor, way towards a target
pub open spec fn term<T>(phi: T, r: f64, target: Vec<T>, p: Particle<T>, i: int) -> real { rv(phi) * rv(r) * (at(target, i) - at(p.coordinates, i)) }
pub open spec fn neg_item<T>(h: Seq<f64>, b: int, k: Six, p: Particle<T>, s: Swarm<T>, cb: Particle<T>, cw: Particle<T>, i: int, f: NegPhi<T>, r: T) -> bool {
    six_ok(k, h, b) && (rm() ==> rv(r) == rv(f.xi) * (at(p.velocity, i)
        + term(f.bp, h[k.bp], p.best_personal_coordinates, p, i) + term(f.bc, h[k.bc], cb.coordinates, p, i) + term(f.bg, h[k.bg], s.best_particle.unwrap().coordinates, p, i)
        - term(f.wp, h[k.wp], p.worst_personal_coordinates, p, i) - term(f.wc, h[k.wc], cw.coordinates, p, i) - term(f.wg, h[k.wg], s.worst_particle.unwrap().coordinates, p, i)))
}
pub open spec fn neg_at<T>(h: Seq<f64>, b: int, p: Particle<T>, s: Swarm<T>, cb: Particle<T>, cw: Particle<T>, i: int, f: NegPhi<T>, r: T) -> bool {
    exists|k: Six| #[trigger] neg_item(h, b, k, p, s, cb, cw, i, f, r)
}
pub open spec fn neg_upto<T>(h: Seq<f64>, h0: int, p: Particle<T>, s: Swarm<T>, cb: Particle<T>, cw: Particle<T>, f: NegPhi<T>, r: Seq<T>, n: int) -> bool {
    r.len() == n && h.len() == h0 + 6 * n && forall|i: int| 0 <= i < n ==> neg_at(h, h0 + 6 * i, p, s, cb, cw, i, f, #[trigger] r[i])
}
/// the currently best and worst particles (any of the equally good ones)
pub open spec fn neg_ok<T>(h: Seq<f64>, h0: int, p: Particle<T>, s: Swarm<T>, f: NegPhi<T>, r: Seq<T>) -> bool {
    exists|cb: Particle<T>, cw: Particle<T>| is_pbest(s.particles@, cb) && is_pworst(s.particles@, cw) && #[trigger] neg_upto(h, h0, p, s, cb, cw, f, r, p.coordinates@.len() as int)
}
pub open spec fn neg_phi<T>(c: NegativeReinforcement<T>) -> NegPhi<T> {
    NegPhi { bp: c.phi_best_personal, bc: c.phi_best_current, bg: c.phi_best_global, wp: c.phi_worst_personal, wc: c.phi_worst_current, wg: c.phi_worst_global, xi: c.xi }
}
pub open spec fn neg_askable<T>(s: Swarm<T>, p: Particle<T>) -> bool {
    &&& askable(s, p)
    &&& s.worst_particle.is_some() && s.worst_particle.unwrap().coordinates@.len() == p.coordinates@.len()
    &&& s.particles@.len() > 0 && forall|i: int| 0 <= i < s.particles@.len() ==> (#[trigger] s.particles@[i]).coordinates@.len() == p.coordinates@.len()
}
pub proof fn lem_neg_step<T>(h: Seq<f64>, h2: Seq<f64>, h0: int, p: Particle<T>, s: Swarm<T>, cb: Particle<T>, cw: Particle<T>, f: NegPhi<T>, r: Seq<T>, r2: Seq<T>, n: int, k: Six)
    requires neg_upto(h, h0, p, s, cb, cw, f, r, n), 0 <= n, h0 >= 0, h2.len() == h.len() + 6, forall|i: int| 0 <= i < h.len() ==> h2[i] == h[i],
        r2.len() == n + 1, r2.drop_last() == r, neg_item(h2, h0 + 6 * n, k, p, s, cb, cw, n, f, r2[n])
    ensures neg_upto(h2, h0, p, s, cb, cw, f, r2, n + 1)
{
    assert forall|i: int| 0 <= i < n + 1 implies neg_at(h2, h0 + 6 * i, p, s, cb, cw, i, f, #[trigger] r2[i]) by {
        if i < n {
            assert(r2[i] == r[i]);
            let a = choose|a: Six| #[trigger] neg_item(h, h0 + 6 * i, a, p, s, cb, cw, i, f, r[i]);
            assert(neg_item(h2, h0 + 6 * i, a, p, s, cb, cw, i, f, r2[i]));
        } else { assert(neg_item(h2, h0 + 6 * n, k, p, s, cb, cw, n, f, r2[n])); }
    }
}
@@fn particleswarm::velocitycalc::NegativeReinforcement::new
@@props C19 C28
@@spec
    ensures neg_phi(r) == (NegPhi { bp: phi_best_personal, bc: phi_best_current, bg: phi_best_global, wp: phi_worst_personal, wc: phi_worst_current, wg: phi_worst_global, xi })
@@fn particleswarm::velocitycalc::<NegativeReinforcement as VelocityCalculator>::calc_new_velocity
@@props C19
@@mode lift
@@attrs
#[verifier::rlimit(40)]
@@spec
    requires neg_askable(*swarm, *particle)
    ensures *final(self) == (NegativeReinforcement { random: final(self).random, ..*old(self) }),
        neg_ok(hist::<f64>(final(self).random), hist::<f64>(old(self).random).len() as int, *particle, *swarm, neg_phi(*old(self)), r@), r@.len() == particle.coordinates@.len(),
        cover_f64(supps::<f64>(final(self).random), supps::<f64>(old(self).random).len() as int, 0.0f64, 1.0f64), //# C00
@@at entry
let ghost q0 = supps::<f64>(self_.random).len() as int;
let ghost h0 = hist::<f64>(self_.random).len() as int;
proof { lem_unit_f64(); }
let ghost mut cb = *particle;
let ghost mut cw = *particle;
@@at letafter current_best_particle
proof { cb = current_best_particle; }
@@at letafter current_worst_particle
proof { cw = current_worst_particle; }
@@loop 0
        *self_ == (NegativeReinforcement { random: self_.random, ..*old(self_) }),
        neg_upto(hist::<f64>(self_.random), h0, *particle, *swarm, cb, cw, neg_phi(*self_), new_velocity@, __i0 as int),
        cover_f64(supps::<f64>(self_.random), q0, 0.0f64, 1.0f64), //# C00
@@at loop 0 begin
let ghost h_old = hist::<f64>(self_.random);
let ghost v_old = new_velocity@;
@@at letafter r_best_personal
let ghost i_best_personal = hist::<f64>(self_.random).len() - 1;
@@at letafter r_best_current
let ghost i_best_current = hist::<f64>(self_.random).len() - 1;
@@at letafter r_best_global
let ghost i_best_global = hist::<f64>(self_.random).len() - 1;
@@at letafter r_worst_personal
let ghost i_worst_personal = hist::<f64>(self_.random).len() - 1;
@@at letafter r_worst_current
let ghost i_worst_current = hist::<f64>(self_.random).len() - 1;
@@at letafter r_worst_global
let ghost i_worst_global = hist::<f64>(self_.random).len() - 1;
@@at loop 0 end
proof {
    let h = hist::<f64>(self_.random);
    let k = Six { bp: i_best_personal, bc: i_best_current, bg: i_best_global, wp: i_worst_personal, wc: i_worst_current, wg: i_worst_global };
    assert(new_velocity@.drop_last() =~= v_old);
    assert(six_ok(k, h, h0 + 6 * __j0));
    assert(neg_item(h, h0 + 6 * __j0, k, *particle, *swarm, cb, cw, __j0 as int, neg_phi(*self_), new_velocity@[__j0 as int]));
    lem_neg_step(h_old, h, h0, *particle, *swarm, cb, cw, neg_phi(*self_), v_old, new_velocity@, __j0 as int, k);
}
@@at loop 0 after
proof { assert(neg_upto(hist::<f64>(self_.random), h0, *particle, *swarm, cb, cw, neg_phi(*self_), new_velocity@, particle.coordinates@.len() as int)); }
