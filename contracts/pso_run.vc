@@# ------------------------------------------------------------------ particle swarm: state
@@module particleswarm
use crate::tools::logging::{Ev, EvKind};
use crate::tools::stopchecker::Ask;
use crate::genetic::appended;
broadcast use {crate::spec::ax, crate::realmodel::rax};
/// x ranks strictly after y: non-finite values are equal and rank last (C14)
pub open spec fn fafter(x: f64, y: f64) -> bool { ffin(y) && (!ffin(x) || flt(y, x)) }
pub proof fn fafter_asym(a: f64, b: f64) ensures !(fafter(a, b) && fafter(b, a)), !fafter(a, a)
{
    assert(!(b.ieee_lt(a) && a.ieee_lt(b))) by (bit_vector);
    assert(!a.ieee_lt(a)) by (bit_vector);
}
pub proof fn fafter_negtrans(a: f64, b: f64, c: f64) requires !fafter(a, b), !fafter(b, c) ensures !fafter(a, c)
{
    assert(!a.ieee_is_nan() && !b.ieee_is_nan() && !c.ieee_is_nan() && !b.ieee_lt(a) && !c.ieee_lt(b) ==> !c.ieee_lt(a)) by (bit_vector);
}
pub proof fn fafter_trans(a: f64, b: f64, c: f64) requires fafter(a, b), fafter(b, c) ensures fafter(a, c)
{
    assert(b.ieee_lt(a) && c.ieee_lt(b) ==> c.ieee_lt(a)) by (bit_vector);
}
/// m is a member nobody is better (worse) than
pub open spec fn is_pbest<T>(s: Seq<Particle<T>>, m: Particle<T>) -> bool {
    s.contains(m) && forall|i: int| 0 <= i < s.len() ==> !fafter(m.value, (#[trigger] s[i]).value)
}
pub open spec fn is_pworst<T>(s: Seq<Particle<T>>, m: Particle<T>) -> bool {
    s.contains(m) && forall|i: int| 0 <= i < s.len() ==> !fafter((#[trigger] s[i]).value, m.value)
}
/// the record after looking at the particles: kept unless somebody is strictly better (worse)
pub open spec fn pbest_upd<T>(s: Seq<Particle<T>>, o: Option<Particle<T>>, b: Option<Particle<T>>) -> bool {
    if s.len() == 0 || (o.is_some() && no_better(s, o.unwrap())) { b == o } else { b.is_some() && is_pbest(s, b.unwrap()) }
}
pub open spec fn pworst_upd<T>(s: Seq<Particle<T>>, o: Option<Particle<T>>, b: Option<Particle<T>>) -> bool {
    if s.len() == 0 || (o.is_some() && no_worse(s, o.unwrap())) { b == o } else { b.is_some() && is_pworst(s, b.unwrap()) }
}
pub open spec fn no_better<T>(s: Seq<Particle<T>>, m: Particle<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> !fafter(m.value, (#[trigger] s[i]).value) }
pub open spec fn no_worse<T>(s: Seq<Particle<T>>, m: Particle<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> !fafter((#[trigger] s[i]).value, m.value) }
pub open spec fn pmin_so_far<T>(s: Seq<Particle<T>>, n: int, f: Option<&Particle<T>>) -> bool {
    f.is_some() == (n > 0) && (f.is_some() ==> is_pbest(s.subrange(0, n), *f.unwrap()))
}
pub open spec fn pmax_so_far<T>(s: Seq<Particle<T>>, n: int, f: Option<&Particle<T>>) -> bool {
    f.is_some() == (n > 0) && (f.is_some() ==> is_pworst(s.subrange(0, n), *f.unwrap()))
}
pub proof fn lem_pmin_step<T>(s: Seq<Particle<T>>, n: int, f: Option<&Particle<T>>, g: Option<&Particle<T>>)
    requires 0 <= n < s.len(), pmin_so_far(s, n, f),
        g == Some(&s[n]) || g == f, f.is_none() ==> g == Some(&s[n]),
        g != f && f.is_some() ==> !fafter(s[n].value, f.unwrap().value),
        g != Some(&s[n]) ==> !fafter(f.unwrap().value, s[n].value),
    ensures pmin_so_far(s, n + 1, g)
{
    let a = s.subrange(0, n); let b = s.subrange(0, n + 1);
    assert(b =~= a.push(s[n]));
    assert(b[n] == s[n]);
    fafter_asym(s[n].value, s[n].value);
    if f.is_some() {
        let w = choose|w: int| 0 <= w < n && a[w] == *f.unwrap();
        assert(b[w] == *f.unwrap());
        assert forall|q: int| 0 <= q < b.len() implies !fafter(g.unwrap().value, (#[trigger] b[q]).value) by {
            if q < n { assert(a[q] == b[q]); if g != f { fafter_negtrans(s[n].value, f.unwrap().value, s[q].value); } }
        }
    }
}
pub proof fn lem_pmax_step<T>(s: Seq<Particle<T>>, n: int, f: Option<&Particle<T>>, g: Option<&Particle<T>>)
    requires 0 <= n < s.len(), pmax_so_far(s, n, f),
        g == Some(&s[n]) || g == f, f.is_none() ==> g == Some(&s[n]),
        g != f && f.is_some() ==> !fafter(f.unwrap().value, s[n].value),
        g != Some(&s[n]) ==> !fafter(s[n].value, f.unwrap().value),
    ensures pmax_so_far(s, n + 1, g)
{
    let a = s.subrange(0, n); let b = s.subrange(0, n + 1);
    assert(b =~= a.push(s[n]));
    assert(b[n] == s[n]);
    fafter_asym(s[n].value, s[n].value);
    if f.is_some() {
        let w = choose|w: int| 0 <= w < n && a[w] == *f.unwrap();
        assert(b[w] == *f.unwrap());
        assert forall|q: int| 0 <= q < b.len() implies !fafter((#[trigger] b[q]).value, g.unwrap().value) by {
            if q < n { assert(a[q] == b[q]); if g != f { fafter_negtrans(s[q].value, f.unwrap().value, s[n].value); } }
        }
    }
}
/// the particle after it moved to x, where the goal is v (C15)
pub open spec fn moved<T>(p: Particle<T>, x: Vec<T>, v: f64) -> Particle<T> {
    let better = fafter(p.best_personal_value, v);
    let worse = fafter(v, p.worst_personal_value);
    Particle {
        coordinates: x, value: v, velocity: p.velocity,
        best_personal_coordinates: if better { x } else { p.best_personal_coordinates },
        best_personal_value: if better { v } else { p.best_personal_value },
        worst_personal_coordinates: if worse { x } else { p.worst_personal_coordinates },
        worst_personal_value: if worse { v } else { p.worst_personal_value },
    }
}
/// a particle that has just been placed
pub open spec fn placed<T>(x: Vec<T>, w: Vec<T>, v: f64) -> Particle<T> {
    Particle { coordinates: x, velocity: w, value: v, best_personal_coordinates: x, best_personal_value: v, worst_personal_coordinates: x, worst_personal_value: v }
}
pub proof fn lem_best_kept<T>(s: Seq<Particle<T>>, o: Option<Particle<T>>)
    ensures o.is_some() ==> forall|m: Particle<T>| #[trigger] is_pbest(s, m) && !fafter(o.unwrap().value, m.value) ==> no_better(s, o.unwrap())
{
    if o.is_some() {
        assert forall|m: Particle<T>| #[trigger] is_pbest(s, m) && !fafter(o.unwrap().value, m.value) implies no_better(s, o.unwrap()) by {
            assert forall|i: int| 0 <= i < s.len() implies !fafter(o.unwrap().value, (#[trigger] s[i]).value) by { fafter_negtrans(o.unwrap().value, m.value, s[i].value); }
        }
    }
}
pub proof fn lem_worst_kept<T>(s: Seq<Particle<T>>, o: Option<Particle<T>>)
    ensures o.is_some() ==> forall|m: Particle<T>| #[trigger] is_pworst(s, m) && !fafter(m.value, o.unwrap().value) ==> no_worse(s, o.unwrap())
{
    if o.is_some() {
        assert forall|m: Particle<T>| #[trigger] is_pworst(s, m) && !fafter(m.value, o.unwrap().value) implies no_worse(s, o.unwrap()) by {
            assert forall|i: int| 0 <= i < s.len() implies !fafter((#[trigger] s[i]).value, o.unwrap().value) by { fafter_negtrans(s[i].value, m.value, o.unwrap().value); }
        }
    }
}
@@fn particleswarm::compare_floats
@@props C14 C15
@@spec
    ensures (r == core::cmp::Ordering::Less) == fafter(y, x), (r == core::cmp::Ordering::Greater) == fafter(x, y)
@@fn particleswarm::<Particle as Clone>::clone
@@props C28 C14
@@spec
    ensures r == *self
@@fn particleswarm::<Particle as Agent>::get_goal
@@props C28
@@fn particleswarm::<Particle as Agent>::get_parameter
@@props C28
@@fn particleswarm::Particle::new
@@props C15 C16
@@spec
    ensures r == placed(coordinates, velocity, value)
@@fn particleswarm::Particle::set_velocity
@@props C16
@@spec
    ensures *final(self) == (Particle { velocity, ..*old(self) })
@@fn particleswarm::Particle::move_to
@@props C15 C16
@@spec
    ensures *final(self) == moved(*old(self), new_coordinates, value)
@@fn particleswarm::Swarm::new
@@props C21 C28
@@spec
    ensures r.particles@.len() == 0, r.best_particle.is_none(), r.worst_particle.is_none(), r.iteration == 0
@@fn particleswarm::Swarm::len
@@props C28
@@spec
    ensures r == self.particles@.len()
@@fn particleswarm::Swarm::reset
@@props C21
@@spec
    ensures final(self).iteration == 0,
        final(self).particles@.len() == 0, //# C00
        final(self).best_particle.is_none(), //# C00
        final(self).worst_particle.is_none(), //# C00
@@fn particleswarm::Swarm::next_iteration
@@props C21
@@spec
    requires old(self).iteration < usize::MAX
    ensures *final(self) == (Swarm { iteration: (old(self).iteration + 1) as usize, ..*old(self) })
@@fn particleswarm::Swarm::replace_particles
@@props C14 C21
@@spec
    ensures final(self).particles == particles, final(self).iteration == old(self).iteration,
        pbest_upd(particles@, None, final(self).best_particle),
        pworst_upd(particles@, None, final(self).worst_particle),
@@fn particleswarm::Swarm::update_best_particle
@@props C14
@@spec
    ensures *final(self) == (Swarm { best_particle: final(self).best_particle, ..*old(self) }),
        pbest_upd(old(self).particles@, old(self).best_particle, final(self).best_particle),
@@at entry
proof { lem_best_kept(self.particles@, self.best_particle); }
@@fn particleswarm::Swarm::update_worst_particle
@@props C14
@@spec
    ensures *final(self) == (Swarm { worst_particle: final(self).worst_particle, ..*old(self) }),
        pworst_upd(old(self).particles@, old(self).worst_particle, final(self).worst_particle),
@@at entry
proof { lem_worst_kept(self.particles@, self.worst_particle); }
@@fn particleswarm::Swarm::find_best_particle
@@props C14 C19
@@spec
    ensures r.is_some() == (particles@.len() > 0), r.is_some() ==> is_pbest(particles@, r.unwrap())
@@loop 0
        pmin_so_far(particles@, __i0 as int, __f0),
@@at loop 0 begin
let ghost f_old = __f0;
@@at loop 0 end
proof { lem_pmin_step(particles@, __j0 as int, f_old, __f0); }
@@at loop 0 after
proof { assert(particles@.subrange(0, __n0 as int) =~= particles@); }
@@fn particleswarm::Swarm::find_worst_particle
@@props C14 C19
@@spec
    ensures r.is_some() == (particles@.len() > 0), r.is_some() ==> is_pworst(particles@, r.unwrap())
@@loop 0
        pmax_so_far(particles@, __i0 as int, __f0),
@@at loop 0 begin
let ghost f_old = __f0;
@@at loop 0 end
proof { lem_pmax_step(particles@, __j0 as int, f_old, __f0); }
@@at loop 0 after
proof { assert(particles@.subrange(0, __n0 as int) =~= particles@); }
@@fn particleswarm::Swarm::get_current_best_particle
@@props C19
@@spec
    ensures r.is_some() == (self.particles@.len() > 0), r.is_some() ==> is_pbest(self.particles@, r.unwrap())
@@fn particleswarm::Swarm::get_current_worst_particle
@@props C19
@@spec
    ensures r.is_some() == (self.particles@.len() > 0), r.is_some() ==> is_pworst(self.particles@, r.unwrap())
@@fn particleswarm::<Swarm as AlgorithmState>::get_best_solution
@@props C28 C14
@@fn particleswarm::<Swarm as AlgorithmState>::get_iteration
@@props C28 C21
@@fn particleswarm::<Swarm as AgentsState>::get_agents
@@props C28
@@loop 0
        agents@.len() == __i0,
        forall|q: int| 0 <= q < __i0 ==> *#[trigger] agents@[q] == self.particles@[q],
