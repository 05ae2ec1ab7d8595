@@# ------------------------------------------------------------------ particle swarm: operators
@@module particleswarm
/// one question put to a velocity calculator
#[verifier::reject_recursive_types(T)]
pub struct VcEv<T> { pub parts: Seq<Particle<T>>, pub best: Option<Particle<T>>, pub worst: Option<Particle<T>>, pub iter: usize, pub particle: Particle<T>, pub out: Vec<T> }
@@trait particleswarm::CoordinatesInitializer
    spec fn log(&self) -> Seq<Seq<Vec<T>>>;
@@fn particleswarm::CoordinatesInitializer::get_coordinates
@@spec
    ensures final(self).log() == old(self).log().push(r@)
@@trait particleswarm::VelocityInitializer
    spec fn log(&self) -> Seq<Seq<Vec<T>>>;
@@fn particleswarm::VelocityInitializer::get_velocity
@@spec
    ensures final(self).log() == old(self).log().push(r@)
@@trait particleswarm::PostMove
    spec fn log(&self) -> Seq<(Vec<T>, Vec<T>)>;
@@fn particleswarm::PostMove::post_move
@@spec
    ensures final(self).log() == old(self).log().push((*old(coordinates), *final(coordinates))),
        final(coordinates)@.len() == old(coordinates)@.len()
@@trait particleswarm::PostVelocityCalc
    spec fn log(&self) -> Seq<(Vec<T>, Vec<T>)>;
@@fn particleswarm::PostVelocityCalc::correct_velocity
@@spec
    ensures final(self).log() == old(self).log().push((velocity, r)), r@.len() == velocity@.len()
@@trait particleswarm::VelocityCalculator
    spec fn log(&self) -> Seq<VcEv<T>>;
@@fn particleswarm::VelocityCalculator::calc_new_velocity
@@spec
    ensures final(self).log() == old(self).log().push(VcEv { parts: swarm.particles@, best: swarm.best_particle, worst: swarm.worst_particle, iter: swarm.iteration, particle: *particle, out: r }),
        r@.len() == particle.coordinates@.len()
@@impl particleswarm::initializing::<RandomCoordinatesInitializer as CoordinatesInitializer>
    uninterp spec fn log(&self) -> Seq<Seq<Vec<T>>>;
@@impl particleswarm::initializing::<RandomVelocityInitializer as VelocityInitializer>
    uninterp spec fn log(&self) -> Seq<Seq<Vec<T>>>;
@@impl particleswarm::initializing::<ZeroVelocityInitializer as VelocityInitializer>
    uninterp spec fn log(&self) -> Seq<Seq<Vec<T>>>;
@@impl particleswarm::postmove::<MoveToBoundary as PostMove>
    uninterp spec fn log(&self) -> Seq<(Vec<T>, Vec<T>)>;
@@impl particleswarm::postmove::<RandomTeleport as PostMove>
    uninterp spec fn log(&self) -> Seq<(Vec<T>, Vec<T>)>;
@@impl particleswarm::postvelocitycalc::<MaxVelocityDimensions as PostVelocityCalc>
    uninterp spec fn log(&self) -> Seq<(Vec<T>, Vec<T>)>;
@@impl particleswarm::postvelocitycalc::<MaxVelocityAbs as PostVelocityCalc>
    uninterp spec fn log(&self) -> Seq<(Vec<T>, Vec<T>)>;
@@impl particleswarm::velocitycalc::<ClassicVelocityCalculator as VelocityCalculator>
    uninterp spec fn log(&self) -> Seq<crate::particleswarm::VcEv<T>>;
@@impl particleswarm::velocitycalc::<CanonicalVelocityCalculator as VelocityCalculator>
    uninterp spec fn log(&self) -> Seq<crate::particleswarm::VcEv<T>>;
@@impl particleswarm::velocitycalc::<NegativeReinforcement as VelocityCalculator>
    uninterp spec fn log(&self) -> Seq<crate::particleswarm::VcEv<T>>;
@@impl particleswarm::velocitycalc::<InertiaVelocityCalculator as VelocityCalculator>
    uninterp spec fn log(&self) -> Seq<crate::particleswarm::VcEv<T>>;
@@# ------------------------------------------------------------------ particle swarm: one run
@@module particleswarm

#[verifier::reject_recursive_types(T)]
pub struct PsoView<T> {
    pub parts: Seq<Particle<T>>,
    pub best: Option<Particle<T>>,
    pub worst: Option<Particle<T>>,
    pub iter: usize,
    pub calls: Seq<(Vec<T>, f64)>,
    pub asks: Seq<Ask<Vec<T>>>,
    pub ci: Seq<Seq<Vec<T>>>,
    pub vi: Seq<Seq<Vec<T>>>,
    pub vc: Seq<VcEv<T>>,
    pub pvc: Seq<Seq<(Vec<T>, Vec<T>)>>,
    pub pm: Seq<Seq<(Vec<T>, Vec<T>)>>,
    pub logs: Seq<Seq<Ev<Vec<T>>>>,
}
pub open spec fn pvcs_of<'a, T>(s: Seq<Box<dyn PostVelocityCalc<T> + 'a>>) -> Seq<Seq<(Vec<T>, Vec<T>)>> { Seq::new(s.len(), |i: int| s[i].log()) }
pub open spec fn pms_of<'a, T>(s: Seq<Box<dyn PostMove<T> + 'a>>) -> Seq<Seq<(Vec<T>, Vec<T>)>> { Seq::new(s.len(), |i: int| s[i].log()) }
pub open spec fn plogs_of<'a, T>(s: Seq<Box<dyn Logger<Vec<T>> + 'a>>) -> Seq<Seq<Ev<Vec<T>>>> { Seq::new(s.len(), |i: int| s[i].log()) }
pub open spec fn pso_view<'a, T>(o: ParticleSwarmOptimizer<'a, T>) -> PsoView<T> {
    PsoView {
        parts: o.swarm.particles@, best: o.swarm.best_particle, worst: o.swarm.worst_particle, iter: o.swarm.iteration,
        calls: o.goal.calls(), asks: o.stop_checker.asks(), ci: o.coordinates_initializer.log(), vi: o.velocity_initializer.log(),
        vc: o.velocity_calculator.log(), pvc: pvcs_of(o.post_velocity_calc@), pm: pms_of(o.post_move@), logs: plogs_of(o.loggers@),
    }
}
pub open spec fn pair_of<T>(p: Option<Particle<T>>) -> Option<(Vec<T>, f64)> { match p { Some(p) => Some((p.coordinates, p.value)), None => None } }
/// every logger received one more event
pub open spec fn ptold<T>(a: Seq<Seq<Ev<Vec<T>>>>, b: Seq<Seq<Ev<Vec<T>>>>, kind: EvKind, iter: usize, best: Option<Particle<T>>) -> bool {
    b == Seq::new(a.len(), |i: int| a[i].push(Ev { kind, iter, best: pair_of(best) }))
}
pub open spec fn ptold_upto<T>(a: Seq<Seq<Ev<Vec<T>>>>, b: Seq<Seq<Ev<Vec<T>>>>, kind: EvKind, iter: usize, best: Option<Particle<T>>, n: int) -> bool {
    a.len() == b.len() && n <= a.len()
    && (forall|i: int| 0 <= i < n ==> #[trigger] b[i] == a[i].push(Ev { kind, iter, best: pair_of(best) }))
    && (forall|i: int| n <= i < a.len() ==> #[trigger] b[i] == a[i])
}
pub proof fn lem_ptold_step<T>(a: Seq<Seq<Ev<Vec<T>>>>, o: Seq<Seq<Ev<Vec<T>>>>, b: Seq<Seq<Ev<Vec<T>>>>, kind: EvKind, iter: usize, best: Option<Particle<T>>, n: int)
    requires ptold_upto(a, o, kind, iter, best, n), 0 <= n < a.len(), b == o.update(n, o[n].push(Ev { kind, iter, best: pair_of(best) }))
    ensures ptold_upto(a, b, kind, iter, best, n + 1)
{ }
pub proof fn lem_ptold<T>(a: Seq<Seq<Ev<Vec<T>>>>, b: Seq<Seq<Ev<Vec<T>>>>, kind: EvKind, iter: usize, best: Option<Particle<T>>)
    requires ptold_upto(a, b, kind, iter, best, a.len() as int)
    ensures ptold(a, b, kind, iter, best)
{ assert(b =~= Seq::new(a.len(), |i: int| a[i].push(Ev { kind, iter, best: pair_of(best) }))); }
/// the components 0..n were each asked once, each about what its predecessor returned, and kept the dimension
pub open spec fn chain<T>(l0: Seq<Seq<(Vec<T>, Vec<T>)>>, l1: Seq<Seq<(Vec<T>, Vec<T>)>>, first: Vec<T>, n: int) -> bool {
    l1.len() == l0.len() && n <= l0.len()
    && (forall|b: int| 0 <= b < n ==> #[trigger] l1[b] == l0[b].push((out_of(l1, first, b), l1[b].last().1)) && l1[b].last().1@.len() == first@.len())
    && (forall|b: int| n <= b < l0.len() ==> #[trigger] l1[b] == l0[b])
}
pub open spec fn out_of<T>(l1: Seq<Seq<(Vec<T>, Vec<T>)>>, first: Vec<T>, n: int) -> Vec<T> { if n <= 0 { first } else { l1[n - 1].last().1 } }
pub proof fn lem_chain_step<T>(l0: Seq<Seq<(Vec<T>, Vec<T>)>>, o: Seq<Seq<(Vec<T>, Vec<T>)>>, b: Seq<Seq<(Vec<T>, Vec<T>)>>, first: Vec<T>, out: Vec<T>, n: int)
    requires chain(l0, o, first, n), 0 <= n < l0.len(), b == o.update(n, o[n].push((out_of(o, first, n), out))), out@.len() == out_of(o, first, n)@.len()
    ensures chain(l0, b, first, n + 1), out_of(b, first, n + 1) == out
{
    assert(o[n] == l0[n]);
    if n > 0 { assert(o[n - 1].last().1@.len() == first@.len()); }
    assert forall|i: int| 0 <= i <= n implies out_of(b, first, i) == out_of(o, first, i) by { if i > 0 { assert(b[i - 1] == o[i - 1]); } }
}
pub proof fn lem_chain_len<T>(l0: Seq<Seq<(Vec<T>, Vec<T>)>>, o: Seq<Seq<(Vec<T>, Vec<T>)>>, first: Vec<T>, n: int)
    requires chain(l0, o, first, n), 0 <= n
    ensures out_of(o, first, n)@.len() == first@.len()
{ if n > 0 { assert(o[n - 1].last().1@.len() == first@.len()); } }
/// x is c moved by v, coordinate by coordinate
pub open spec fn advanced<T: Float>(c: Seq<T>, v: Seq<T>, x: Seq<T>, n: int) -> bool {
    x.len() == n && n <= c.len() && n <= v.len() && forall|j: int| 0 <= j < n ==> #[trigger] x[j] == c[j].add_spec(v[j])
}
/// where the particle would go if nothing corrected it
pub open spec fn target<T>(b: PsoView<T>) -> Vec<T> { if b.pm.len() == 0 { b.calls.last().0 } else { b.pm[0].last().0 } }
pub open spec fn final_velocity<T>(b: PsoView<T>) -> Vec<T> { out_of(b.pvc, b.vc.last().out, b.pvc.len() as int) }
/// C16: particle n makes its move
pub open spec fn part_step<T: Float>(a: PsoView<T>, b: PsoView<T>, n: int) -> bool {
    let p = a.parts[n]; let v0 = b.vc.last().out; let v = final_velocity(b); let x0 = target(b); let x = out_of(b.pm, x0, b.pm.len() as int); let g = b.calls.last().1;
    &&& b.vc == a.vc.push(VcEv { parts: a.parts, best: a.best, worst: a.worst, iter: a.iter, particle: p, out: v0 })
    &&& v0@.len() == p.coordinates@.len()
    &&& chain(a.pvc, b.pvc, v0, a.pvc.len() as int)
    &&& advanced(p.coordinates@, v@, x0@, p.coordinates@.len() as int)
    &&& chain(a.pm, b.pm, x0, a.pm.len() as int)
    &&& b.calls == a.calls.push((x, g))
    &&& b.parts == a.parts.update(n, moved(Particle { velocity: v, ..p }, x, g))
    &&& b == PsoView { parts: b.parts, calls: b.calls, vc: b.vc, pvc: b.pvc, pm: b.pm, ..a }
}
/// every particle moves exactly once, in order
pub open spec fn sweep<T: Float>(s: Seq<PsoView<T>>, n: int) -> bool {
    s.len() == n + 1 && forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() ==> part_step(#[trigger] s[i], #[trigger] s[j], i)
}
/// q is what one iteration makes of p (C14 C16 C21)
pub open spec fn iter_by<T: Float>(p: PsoView<T>, q: PsoView<T>, s: Seq<PsoView<T>>) -> bool {
    &&& sweep(s, p.parts.len() as int)
    &&& s[0] == PsoView { asks: s[0].asks, ..p }
    &&& s[0].asks == p.asks.push(Ask { iter: p.iter, best: pair_of(p.best), ans: false })
    &&& q == PsoView { best: q.best, worst: q.worst, iter: q.iter, logs: q.logs, ..s.last() }
    &&& pbest_upd(q.parts, p.best, q.best)
    &&& pworst_upd(q.parts, p.worst, q.worst)
    &&& q.iter == p.iter + 1
    &&& ptold(p.logs, q.logs, EvKind::Next, q.iter, q.best)
}
pub open spec fn iter_ok<T: Float>(p: PsoView<T>, q: PsoView<T>) -> bool { exists|s: Seq<PsoView<T>>| iter_by(p, q, s) }
pub open spec fn iters_ok<T: Float>(t: Seq<PsoView<T>>) -> bool {
    forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() ==> iter_ok(#[trigger] t[i], #[trigger] t[j])
}
pub open spec fn prun_ok<T: Float>(p: PsoView<T>, q: PsoView<T>, t: Seq<PsoView<T>>, r: Option<(Vec<T>, f64)>) -> bool {
    &&& t.len() >= 1
    &&& t[0] == PsoView { logs: t[0].logs, ..p }
    &&& ptold(p.logs, t[0].logs, EvKind::Resume, p.iter, p.best)
    &&& iters_ok(t)
    &&& q == PsoView { logs: q.logs, asks: q.asks, ..t.last() }
    &&& q.asks == t.last().asks.push(Ask { iter: q.iter, best: pair_of(q.best), ans: true })
    &&& ptold(t.last().logs, q.logs, EvKind::Finish, q.iter, q.best)
    &&& r == pair_of(q.best)
}
/// every initial position went once through the post-move steps
pub open spec fn init_moves<T>(m: Seq<Seq<Seq<(Vec<T>, Vec<T>)>>>, made: Seq<Vec<T>>, now: Seq<Vec<T>>, n: int) -> bool {
    m.len() == n + 1 && 0 <= n <= made.len() && now.len() == made.len()
    && (forall|i: int, j: int| 0 <= i && j == i + 1 && j < m.len() ==> chain(#[trigger] m[i], #[trigger] m[j], made[i], m[i].len() as int) && now[i] == out_of(m[j], made[i], m[j].len() as int))
    && (forall|i: int| n <= i < made.len() ==> #[trigger] now[i] == made[i])
}
pub open spec fn renewed_by<T>(p: PsoView<T>, s: PsoView<T>, m: Seq<Seq<Seq<(Vec<T>, Vec<T>)>>>, now: Seq<Vec<T>>) -> bool {
    &&& s.ci.len() == p.ci.len() + 1 && s.ci.drop_last() == p.ci
    &&& s.vi.len() == p.vi.len() + 1 && s.vi.drop_last() == p.vi
    &&& s.ci.last().len() == s.vi.last().len()
    &&& init_moves(m, s.ci.last(), now, now.len() as int) && m[0] == p.pm && m.last() == s.pm
    &&& appended(p.calls, s.calls, now)
    &&& s.parts == Seq::new(now.len(), |i: int| placed(now[i], s.vi.last()[i], s.calls[p.calls.len() + i].1))
    &&& pbest_upd(s.parts, None, s.best)
    &&& pworst_upd(s.parts, None, s.worst)
    &&& s.iter == 0
    &&& s == PsoView { parts: s.parts, best: s.best, worst: s.worst, iter: s.iter, calls: s.calls, ci: s.ci, vi: s.vi, pm: s.pm, logs: s.logs, ..p }
}
pub open spec fn renewed<T>(p: PsoView<T>, s: PsoView<T>) -> bool { exists|m: Seq<Seq<Seq<(Vec<T>, Vec<T>)>>>, now: Seq<Vec<T>>| renewed_by(p, s, m, now) }
pub open spec fn pstarted<T>(p: PsoView<T>, s: PsoView<T>) -> bool { renewed(p, s) && ptold(p.logs, s.logs, EvKind::Start, 0, s.best) }
@@fn particleswarm::ParticleSwarmOptimizer::new
@@props C28 C21
@@spec
    ensures r.goal == goal, r.stop_checker == stop_checker, r.coordinates_initializer == coordinates_initializer, r.velocity_initializer == velocity_initializer,
        r.velocity_calculator == velocity_calculator, r.post_velocity_calc@.len() == 0, r.post_move@.len() == 0, r.loggers@.len() == 0,
        r.swarm.particles@.len() == 0, r.swarm.best_particle.is_none(), r.swarm.worst_particle.is_none(), r.swarm.iteration == 0
@@fn particleswarm::ParticleSwarmOptimizer::set_stop_checker
@@props C28
@@spec
    ensures *final(self) == (ParticleSwarmOptimizer { stop_checker, ..*old(self) })
@@fn particleswarm::ParticleSwarmOptimizer::set_loggers
@@props C28
@@spec
    ensures *final(self) == (ParticleSwarmOptimizer { loggers, ..*old(self) })
@@fn particleswarm::ParticleSwarmOptimizer::set_post_moves
@@props C28
@@spec
    ensures *final(self) == (ParticleSwarmOptimizer { post_move, ..*old(self) })
@@fn particleswarm::ParticleSwarmOptimizer::set_post_velocity_calc
@@props C28
@@spec
    ensures *final(self) == (ParticleSwarmOptimizer { post_velocity_calc, ..*old(self) })
@@fn particleswarm::ParticleSwarmOptimizer::renew_swarm
@@props C16 C21 C15 C14
@@spec
    ensures renewed(pso_view(*old(self)), pso_view(*final(self))),
        final(self).loggers@ == old(self).loggers@,
@@at entry
let ghost mut m: Seq<Seq<Seq<(Vec<T>, Vec<T>)>>> = seq![pms_of(self.post_move@)];
let ghost mut s2 = *self;
@@at loop 0 before
let ghost made = coordinates@;
let ghost s1 = *self;
@@loop 0
        *self == (ParticleSwarmOptimizer { post_move: self.post_move, ..s1 }), //# C16 C21
        coordinates@.len() == made.len(), //# C16 C21
        init_moves(m, made, coordinates@, __i0 as int), //# C16 C21
        m[0] == pms_of(old(self).post_move@), //# C16 C21
        m.last() == pms_of(self.post_move@), //# C16 C21
@@at loop 0 begin
let ghost c_old = coordinates@;
@@loop 1
        *self == (ParticleSwarmOptimizer { post_move: self.post_move, ..s1 }), //# C16
        coordinates@ == c_old.update(__j0 as int, coordinates@[__j0 as int]), //# C16
        chain(m.last(), pms_of(self.post_move@), made[__j0 as int], __i1 as int), //# C16
        coordinates@[__j0 as int] == out_of(pms_of(self.post_move@), made[__j0 as int], __i1 as int), //# C16
@@at loop 1 begin
let ghost l_old = pms_of(self.post_move@);
let ghost x_old = coordinates@[__j0 as int];
let ghost cc_old = coordinates@;
@@at loop 1 end
proof {
    let b = pms_of(self.post_move@);
    assert(b =~= l_old.update(__j1 as int, l_old[__j1 as int].push((x_old, coordinates@[__j0 as int]))));
    lem_chain_step(m.last(), l_old, b, made[__j0 as int], coordinates@[__j0 as int], __j1 as int);
    assert(coordinates@ =~= c_old.update(__j0 as int, coordinates@[__j0 as int]));
}
@@at loop 0 end
proof { m = m.push(pms_of(self.post_move@)); }
@@at loop 2 before
proof { s2 = *self; }
@@loop 2
        *self == (ParticleSwarmOptimizer { goal: self.goal, ..s2 }),
        self.goal.calls().len() == s2.goal.calls().len() + __i2,
        self.goal.calls().subrange(0, s2.goal.calls().len() as int) == s2.goal.calls(),
        forall|q: int| 0 <= q < __i2 ==> (#[trigger] self.goal.calls()[s2.goal.calls().len() + q]).0 == coordinates@[q],
        __c2@ == Seq::new(__i2 as nat, |i: int| placed(coordinates@[i], velocity@[i], self.goal.calls()[s2.goal.calls().len() + i].1)),
@@at loop 2 begin
let ghost k_old = self.goal.calls();
@@at loop 2 end
proof {
    let c = self.goal.calls(); let n0 = s2.goal.calls().len() as int;
    assert(c == k_old.push(c.last()));
    assert(c.subrange(0, n0) =~= k_old.subrange(0, n0));
    assert(__c2@ =~= Seq::new(__i2 as nat, |i: int| placed(coordinates@[i], velocity@[i], c[n0 + i].1)));
}
@@at exit
proof {
    let p = pso_view(*old(self)); let s = pso_view(*self);
    assert(s.ci.drop_last() =~= p.ci); //# C21
    assert(s.vi.drop_last() =~= p.vi); //# C21
    assert(s.parts =~= Seq::new(coordinates@.len(), |i: int| placed(coordinates@[i], s.vi.last()[i], s.calls[p.calls.len() + i].1)));
    assert(s.ci.last().len() == s.vi.last().len()); //# C21
    assert(init_moves(m, s.ci.last(), coordinates@, coordinates@.len() as int) && m[0] == p.pm && m.last() == s.pm); //# C16
    assert(appended(p.calls, s.calls, coordinates@)); //# C16 C14 C15
    assert(s.parts == Seq::new(coordinates@.len(), |i: int| placed(coordinates@[i], s.vi.last()[i], s.calls[p.calls.len() + i].1))); //# C15 C16 C14
    assert(pbest_upd(s.parts, None, s.best)); //# C14
    assert(pworst_upd(s.parts, None, s.worst)); //# C14
    assert(s.iter == 0); //# C21
    assert(renewed_by(p, s, m, coordinates@));
}
@@fn particleswarm::<ParticleSwarmOptimizer as IterativeOptimizer>::next_iterations
@@props C16 C21 C14 C15
@@attrs
#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(40)]
@@spec
    ensures exists|t: Seq<PsoView<T>>| prun_ok(pso_view(*old(self)), pso_view(*final(self)), t, r),
        // C14: the records stay right, and what is returned is the best of them
        forall|from: int| #[trigger] records_ok(pso_view(*old(self)), from) ==> records_ok(pso_view(*final(self)), from) && reported(final(self).goal.calls(), from, r),
@@at entry
let ghost mut t: Seq<PsoView<T>> = Seq::empty();
let ghost mut s: Seq<PsoView<T>> = Seq::empty();
let ghost mut s5 = *self;
let ghost mut s6 = *self;
let ghost mut s7 = *self;
@@loop 0
        *self == (ParticleSwarmOptimizer { loggers: self.loggers, ..*old(self) }), //# C21
        ptold_upto(plogs_of(old(self).loggers@), plogs_of(self.loggers@), EvKind::Resume, self.swarm.iteration, self.swarm.best_particle, __i0 as int), //# C21
@@at loop 0 begin
let ghost l_old = plogs_of(self.loggers@);
@@at loop 0 end
proof {
    let b = plogs_of(self.loggers@);
    assert(b =~= l_old.update(__j0 as int, l_old[__j0 as int].push(Ev { kind: EvKind::Resume, iter: self.swarm.iteration, best: pair_of(self.swarm.best_particle) }))); //# C21
    lem_ptold_step(plogs_of(old(self).loggers@), l_old, b, EvKind::Resume, self.swarm.iteration, self.swarm.best_particle, __j0 as int); //# C21
}
@@at loop 0 after
proof { lem_ptold(plogs_of(old(self).loggers@), plogs_of(self.loggers@), EvKind::Resume, self.swarm.iteration, self.swarm.best_particle); } //# C21
@@at loop 1 before
proof { t = seq![pso_view(*self)]; }
@@loop 1
        t.len() >= 1,
        t[0] == (PsoView { logs: t[0].logs, ..pso_view(*old(self)) }), //# C21
        ptold(pso_view(*old(self)).logs, t[0].logs, EvKind::Resume, old(self).swarm.iteration, old(self).swarm.best_particle), //# C21
        iters_ok(t),
        invariant_except_break
        t.last() == pso_view(*self),
        ensures
        pso_view(*self) == (PsoView { asks: pso_view(*self).asks, ..t.last() }), //# C21
        pso_view(*self).asks == t.last().asks.push(Ask { iter: t.last().iter, best: pair_of(t.last().best), ans: true }), //# C21
@@at loop 1 begin
assume(self.swarm.iteration < usize::MAX);
let ghost p = t.last();
proof { s = seq![pso_view(*self)]; }
@@loop 2
        s.len() == __i2 + 1,
        sweep(s, __i2 as int),
        s[0] == (PsoView { asks: s[0].asks, ..p }),
        s[0].asks == p.asks.push(Ask { iter: p.iter, best: pair_of(p.best), ans: false }), //# C21
        s.last() == pso_view(*self),
        self.swarm.particles@.len() == __n2,
        self.swarm.particles@.len() == p.parts.len(),
        self.swarm.iteration == p.iter, //# C21
        self.loggers@ == s7.loggers@, //# C21
        self.swarm.best_particle == p.best,
        self.swarm.worst_particle == p.worst,
@@at loop 2 before
proof { s7 = *self; }
@@at loop 2 begin
let ghost a = pso_view(*self);
let ghost s1 = *self;
let ghost part = self.swarm.particles@[__j2 as int];
let ghost mut v = part.velocity;
let ghost mut x0 = part.velocity;
let ghost mut s2 = *self;
let ghost mut v0 = part.velocity;
@@at loop 3 before
proof { s2 = *self; v0 = new_velocity; }
@@loop 3
        *self == (ParticleSwarmOptimizer { post_velocity_calc: self.post_velocity_calc, ..s2 }), //# C16
        chain(pvcs_of(s2.post_velocity_calc@), pvcs_of(self.post_velocity_calc@), v0, __i3 as int), //# C16
        new_velocity == out_of(pvcs_of(self.post_velocity_calc@), v0, __i3 as int), //# C16
@@at loop 3 begin
let ghost l_old = pvcs_of(self.post_velocity_calc@);
let ghost v_old = new_velocity;
@@at loop 3 end
proof {
    let b = pvcs_of(self.post_velocity_calc@);
    assert(b =~= l_old.update(__j3 as int, l_old[__j3 as int].push((v_old, new_velocity)))); //# C16
    lem_chain_step(pvcs_of(s2.post_velocity_calc@), l_old, b, v0, new_velocity, __j3 as int); //# C16
}
@@at loop 3 after
proof { v = new_velocity; lem_chain_len(pvcs_of(s2.post_velocity_calc@), pvcs_of(self.post_velocity_calc@), v0, __n3 as int); }
@@at loop 4 before
#[verifier::loop_isolation(false)]
@@loop 4
        __n4 == part.coordinates@.len(), //# C16
        advanced(part.coordinates@, v@, __c4@, __i4 as int), //# C16
@@at loop 5 before
proof { x0 = new_coordinates; s5 = *self; }
@@loop 5
        *self == (ParticleSwarmOptimizer { post_move: self.post_move, ..s5 }), //# C16
        chain(pms_of(s5.post_move@), pms_of(self.post_move@), x0, __i5 as int), //# C16
        new_coordinates == out_of(pms_of(self.post_move@), x0, __i5 as int), //# C16
@@at loop 5 begin
let ghost l_old = pms_of(self.post_move@);
let ghost x_old = new_coordinates;
@@at loop 5 end
proof {
    let b = pms_of(self.post_move@);
    assert(b =~= l_old.update(__j5 as int, l_old[__j5 as int].push((x_old, new_coordinates)))); //# C16
    lem_chain_step(pms_of(s5.post_move@), l_old, b, x0, new_coordinates, __j5 as int); //# C16
}
@@at loop 2 end
proof {
    let b = pso_view(*self);
    assert(a.pvc =~= pvcs_of(s2.post_velocity_calc@)); //# C16
    assert(b.pvc =~= pvcs_of(s5.post_velocity_calc@)); //# C16
    assert(a.pm =~= pms_of(s5.post_move@)); //# C16
    assert(a.logs =~= b.logs); //# C21
    if b.pm.len() > 0 { assert(b.pm[0] == a.pm[0].push((x0, b.pm[0].last().1))); } //# C16
    assert(target(b) == x0); //# C16
    assert(b.vc == a.vc.push(VcEv { parts: a.parts, best: a.best, worst: a.worst, iter: a.iter, particle: part, out: v0 })); //# C16
    assert(b.vc.last().out == v0); //# C16
    assert(final_velocity(b) == v); //# C16
    assert(chain(a.pm, b.pm, x0, a.pm.len() as int)); //# C16
    assert(advanced(part.coordinates@, v@, x0@, part.coordinates@.len() as int)); //# C16
    assert(b.calls == a.calls.push((out_of(b.pm, x0, b.pm.len() as int), b.calls.last().1))); //# C16
    assert(b.parts == a.parts.update(n as int, Particle { velocity: v, coordinates: b.calls.last().0, value: b.calls.last().1, ..b.parts[n as int] })); //# C16
    assert(b.parts == a.parts.update(n as int, moved(Particle { velocity: v, ..part }, b.calls.last().0, b.calls.last().1)));
    assert(b == PsoView { parts: b.parts, calls: b.calls, vc: b.vc, pvc: b.pvc, pm: b.pm, ..a });
    assert(part_step(a, b, __j2 as int));
    s = s.push(b);
}
@@at loop 6 before
proof { s6 = *self; }
@@loop 6
        *self == (ParticleSwarmOptimizer { loggers: self.loggers, ..s6 }), //# C21
        ptold_upto(plogs_of(s6.loggers@), plogs_of(self.loggers@), EvKind::Next, self.swarm.iteration, self.swarm.best_particle, __i6 as int), //# C21
@@at loop 6 begin
let ghost l_old = plogs_of(self.loggers@);
@@at loop 6 end
proof {
    let b = plogs_of(self.loggers@);
    assert(b =~= l_old.update(__j6 as int, l_old[__j6 as int].push(Ev { kind: EvKind::Next, iter: self.swarm.iteration, best: pair_of(self.swarm.best_particle) }))); //# C21
    lem_ptold_step(plogs_of(s6.loggers@), l_old, b, EvKind::Next, self.swarm.iteration, self.swarm.best_particle, __j6 as int); //# C21
}
@@at loop 6 after
proof { lem_ptold(plogs_of(s6.loggers@), plogs_of(self.loggers@), EvKind::Next, self.swarm.iteration, self.swarm.best_particle); } //# C21
@@at loop 1 end
proof {
    let q = pso_view(*self);
    assert(q.pvc == s.last().pvc);
    assert(sweep(s, p.parts.len() as int)); //# C16
    assert(q == PsoView { best: q.best, worst: q.worst, iter: q.iter, logs: q.logs, ..s.last() });
    assert(pbest_upd(q.parts, p.best, q.best)); //# C14
    assert(pworst_upd(q.parts, p.worst, q.worst)); //# C14
    assert(q.iter == p.iter + 1); //# C21
    assert(ptold(p.logs, q.logs, EvKind::Next, q.iter, q.best)); //# C21
    assert(iter_by(p, q, s));
    t = t.push(q);
}
@@at loop 7 before
proof { s7 = *self; }
@@loop 7
        *self == (ParticleSwarmOptimizer { loggers: self.loggers, ..s7 }), //# C21
        ptold_upto(plogs_of(s7.loggers@), plogs_of(self.loggers@), EvKind::Finish, self.swarm.iteration, self.swarm.best_particle, __i7 as int), //# C21
@@at loop 7 begin
let ghost l_old = plogs_of(self.loggers@);
@@at loop 7 end
proof {
    let b = plogs_of(self.loggers@);
    assert(b =~= l_old.update(__j7 as int, l_old[__j7 as int].push(Ev { kind: EvKind::Finish, iter: self.swarm.iteration, best: pair_of(self.swarm.best_particle) }))); //# C21
    lem_ptold_step(plogs_of(s7.loggers@), l_old, b, EvKind::Finish, self.swarm.iteration, self.swarm.best_particle, __j7 as int); //# C21
}
@@at loop 7 after
proof { lem_ptold(plogs_of(s7.loggers@), plogs_of(self.loggers@), EvKind::Finish, self.swarm.iteration, self.swarm.best_particle); } //# C21
@@at exit
proof {
    let q = pso_view(*self);
    assert(q == PsoView { logs: q.logs, asks: q.asks, ..t.last() }); //# C14 C15 C21
    assert(q.asks == t.last().asks.push(Ask { iter: q.iter, best: pair_of(q.best), ans: true })); //# C21
    assert(ptold(t.last().logs, q.logs, EvKind::Finish, q.iter, q.best)); //# C21
    assert(__result == pair_of(q.best)); //# C14 C21
    assert(prun_ok(pso_view(*old(self)), pso_view(*self), t, __result));
    assert forall|from: int| #[trigger] records_ok(pso_view(*old(self)), from) implies records_ok(pso_view(*self), from) && reported(self.goal.calls(), from, __result) by {
        lem_records_result(pso_view(*old(self)), pso_view(*self), t, __result, from);
    }
}
@@fn particleswarm::<ParticleSwarmOptimizer as Optimizer>::find_min
@@props C21 C16 C14
@@spec
    ensures exists|s: PsoView<T>, t: Seq<PsoView<T>>| pstarted(pso_view(*old(self)), s) && prun_ok(s, pso_view(*final(self)), t, r), //# C21 C16
        // C14: the records and the result cover exactly the goal calls of this run
        records_ok(pso_view(*final(self)), old(self).goal.calls().len() as int),
        reported(final(self).goal.calls(), old(self).goal.calls().len() as int, r),
@@at entry
let ghost mut s1 = *self;
@@at loop 0 before
proof { s1 = *self; }
@@loop 0
        *self == (ParticleSwarmOptimizer { loggers: self.loggers, ..s1 }), //# C21
        ptold_upto(plogs_of(s1.loggers@), plogs_of(self.loggers@), EvKind::Start, self.swarm.iteration, self.swarm.best_particle, __i0 as int), //# C21
@@at loop 0 begin
let ghost l_old = plogs_of(self.loggers@);
@@at loop 0 end
proof {
    let b = plogs_of(self.loggers@);
    assert(b =~= l_old.update(__j0 as int, l_old[__j0 as int].push(Ev { kind: EvKind::Start, iter: self.swarm.iteration, best: pair_of(self.swarm.best_particle) }))); //# C21
    lem_ptold_step(plogs_of(s1.loggers@), l_old, b, EvKind::Start, self.swarm.iteration, self.swarm.best_particle, __j0 as int); //# C21
}
@@at loop 0 after
proof { lem_ptold(plogs_of(s1.loggers@), plogs_of(self.loggers@), EvKind::Start, self.swarm.iteration, self.swarm.best_particle); } //# C21
@@at loop 0 after
proof {
    let p = pso_view(*old(self)); let s = pso_view(*self);
    let m0 = pso_view(s1);
    assert(s == PsoView { logs: s.logs, ..m0 });
    let (m, now) = choose|m: Seq<Seq<Seq<(Vec<T>, Vec<T>)>>>, now: Seq<Vec<T>>| renewed_by(p, m0, m, now);
    assert(renewed_by(p, s, m, now));
    assert(ptold(p.logs, s.logs, EvKind::Start, 0, s.best)); //# C21
    assert(pstarted(p, s));
    lem_records_start(p, s);
}
