@@# ------------------------------------------------------------------ one run of the genetic algorithm
@@module genetic
use crate::tools::logging::{Ev, EvKind};
use crate::tools::stopchecker::Ask;
/// everything observable about an optimizer: the population, and for every component it was given
/// the history of the calls that component received
#[verifier::reject_recursive_types(T)]
pub struct GaView<T> {
    pub inds: Seq<Individual<T>>,
    pub best: Option<Individual<T>>,
    pub worst: Option<Individual<T>>,
    pub iter: usize,
    pub calls: Seq<(T, f64)>,
    pub asks: Seq<Ask<T>>,
    pub creator: Seq<Seq<T>>,
    pub pairing: Seq<(Seq<Individual<T>>, Seq<Seq<usize>>)>,
    pub cross: Seq<(Seq<T>, Seq<T>)>,
    pub mutation: Seq<(T, T)>,
    pub births: Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>>,
    pub sels: Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>>,
    pub logs: Seq<Seq<Ev<T>>>,
}
pub open spec fn births_of<'a, T>(s: Seq<Box<dyn PreBirth<T> + 'a>>) -> Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>> { Seq::new(s.len(), |i: int| s[i].log()) }
pub open spec fn sels_of<'a, T>(s: Seq<Box<dyn Selection<T> + 'a>>) -> Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>> { Seq::new(s.len(), |i: int| s[i].log()) }
pub open spec fn logs_of<'a, T>(s: Seq<Box<dyn Logger<T> + 'a>>) -> Seq<Seq<Ev<T>>> { Seq::new(s.len(), |i: int| s[i].log()) }
pub open spec fn ga_view<'a, T>(o: GeneticOptimizer<'a, T>) -> GaView<T> {
    GaView {
        inds: o.population.individuals@, best: o.population.best_individual, worst: o.population.worst_individual,
        iter: o.population.iteration, calls: o.population.goal.calls(), asks: o.stop_checker.asks(), creator: o.creator.log(),
        pairing: o.pairing.log(), cross: o.cross.log(), mutation: o.mutation.log(), births: births_of(o.pre_births@),
        sels: sels_of(o.selections@), logs: logs_of(o.loggers@),
    }
}
/// every logger received one more event
pub open spec fn told<T>(a: Seq<Seq<Ev<T>>>, b: Seq<Seq<Ev<T>>>, kind: EvKind, iter: usize, best: Option<Individual<T>>) -> bool {
    b == Seq::new(a.len(), |i: int| a[i].push(Ev { kind, iter, best: best_pair(best) }))
}
/// the chromosomes of the chosen parents
pub open spec fn parents<T>(inds: Seq<Individual<T>>, pair: Seq<usize>) -> Seq<T> {
    Seq::new(pair.len(), |j: int| inds[pair[j] as int].chromosomes)
}
pub open spec fn gathered<T>(v: Seq<&T>, inds: Seq<Individual<T>>, pair: Seq<usize>, n: int) -> bool {
    v.len() == n && forall|q: int| 0 <= q < n ==> *#[trigger] v[q] == inds[pair[q] as int].chromosomes
}
/// pairing was asked once, about the current population, and every chosen family was crossed once, in order
pub open spec fn paired<T>(p: GaView<T>, q: GaView<T>) -> bool {
    q.pairing.len() == p.pairing.len() + 1 && q.pairing.drop_last() == p.pairing && q.pairing.last().0 == p.inds
    && crossed(p.inds, q.pairing.last().1, p.cross, q.cross, q.pairing.last().1.len() as int)
}
pub open spec fn crossed<T>(inds: Seq<Individual<T>>, pairs: Seq<Seq<usize>>, c0: Seq<(Seq<T>, Seq<T>)>, c1: Seq<(Seq<T>, Seq<T>)>, n: int) -> bool {
    c1.len() == c0.len() + n && c1.subrange(0, c0.len() as int) == c0
    && forall|k: int| 0 <= k < n ==> (#[trigger] c1[c0.len() + k]).0 == parents(inds, pairs[k])
}
pub open spec fn children<T>(p: GaView<T>, q: GaView<T>) -> Seq<T> { flat(q.cross, p.cross.len() as int, q.cross.len() as int) }
/// every child was mutated once, in order
pub open spec fn mutated<T>(m0: Seq<(T, T)>, m1: Seq<(T, T)>, kids: Seq<T>, n: int) -> bool {
    m1.len() == m0.len() + n && m1.subrange(0, m0.len() as int) == m0 && forall|k: int| 0 <= k < n ==> (#[trigger] m1[m0.len() + k]).0 == kids[k]
}
pub open spec fn mutants<T>(m: Seq<(T, T)>, from: int) -> Seq<T> { Seq::new((m.len() - from) as nat, |k: int| m[from + k].1) }
/// the pre-birth filters 0..n each saw the population and the list their predecessor left
pub open spec fn filtered<T>(b0: Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>>, b1: Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>>, inds: Seq<Individual<T>>, first: Seq<T>, n: int) -> bool {
    b1.len() == b0.len() && n <= b0.len()
    && (forall|b: int| 0 <= b < n ==> (#[trigger] b1[b]).len() == b0[b].len() + 1 && b1[b].drop_last() == b0[b] && b1[b].last().0 == inds
        && b1[b].last().1 == after_filters(b1, first, b))
    && (forall|b: int| n <= b < b0.len() ==> #[trigger] b1[b] == b0[b])
}
pub open spec fn after_filters<T>(b1: Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>>, first: Seq<T>, n: int) -> Seq<T> {
    if n <= 0 { first } else { b1[n - 1].last().2 }
}
/// the selections 0..n each worked on the population their predecessor left
pub open spec fn selected<T>(s0: Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>>, s1: Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>>, first: Seq<Individual<T>>, n: int) -> bool {
    s1.len() == s0.len() && n <= s0.len()
    && (forall|b: int| 0 <= b < n ==> (#[trigger] s1[b]).len() == s0[b].len() + 1 && s1[b].drop_last() == s0[b]
        && s1[b].last().0 == after_sels(s1, first, b) && drawn(s1[b].last().0, s1[b].last().1))
    && (forall|b: int| n <= b < s0.len() ==> #[trigger] s1[b] == s0[b])
}
pub open spec fn after_sels<T>(s1: Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>>, first: Seq<Individual<T>>, n: int) -> Seq<Individual<T>> {
    if n <= 0 { first } else { s1[n - 1].last().1 }
}
pub open spec fn grown<T>(p: GaView<T>, q: GaView<T>) -> Seq<Individual<T>> { p.inds + born(q.calls, p.calls.len() as int) }
pub open spec fn newborn<T>(p: GaView<T>, q: GaView<T>) -> Seq<T> { after_filters(q.births, mutants(q.mutation, p.mutation.len() as int), q.births.len() as int) }
pub open spec fn survivors<T>(p: GaView<T>, q: GaView<T>) -> Seq<Individual<T>> { after_sels(q.sels, grown(p, q), q.sels.len() as int) }
/// q is what one generation makes of p (C01 C02 C12 C13): ask, pair, cross, mutate, filter, evaluate,
/// select, remove the dead, recompute best and worst, count, tell the loggers
pub open spec fn gen_ok<T>(p: GaView<T>, q: GaView<T>) -> bool {
    &&& q.asks == p.asks.push(Ask { iter: p.iter, best: best_pair(p.best), ans: false })
    &&& q.creator == p.creator
    &&& paired(p, q)
    &&& mutated(p.mutation, q.mutation, children(p, q), children(p, q).len() as int)
    &&& filtered(p.births, q.births, p.inds, mutants(q.mutation, p.mutation.len() as int), p.births.len() as int)
    &&& appended(p.calls, q.calls, newborn(p, q))
    &&& selected(p.sels, q.sels, grown(p, q), p.sels.len() as int)
    &&& q.inds == alive_of(survivors(p, q))
    &&& best_of(q.inds, p.best, q.best)
    &&& worst_of(q.inds, p.worst, q.worst)
    &&& q.iter == p.iter + 1
    &&& told(p.logs, q.logs, EvKind::Next, q.iter, q.best)
}
/// the whole of `next_iterations`: resume, generations, finish
pub open spec fn run_ok<T>(p: GaView<T>, q: GaView<T>, t: Seq<GaView<T>>, r: Option<(T, f64)>) -> bool {
    &&& t.len() >= 1
    &&& t[0] == GaView { logs: t[0].logs, ..p }
    &&& told(p.logs, t[0].logs, EvKind::Resume, p.iter, p.best)
    &&& gens_ok(t)
    &&& q == GaView { logs: q.logs, asks: q.asks, ..t.last() }
    &&& q.asks == t.last().asks.push(Ask { iter: q.iter, best: best_pair(q.best), ans: true })
    &&& told(t.last().logs, q.logs, EvKind::Finish, q.iter, q.best)
    &&& r == best_pair(q.best)
}
pub open spec fn gens_ok<T>(t: Seq<GaView<T>>) -> bool {
    forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() ==> gen_ok(#[trigger] t[i], #[trigger] t[j])
}
/// the start of `find_min`: a fresh population of exactly the created chromosomes, each evaluated once
pub open spec fn started<T>(p: GaView<T>, s: GaView<T>) -> bool {
    &&& s.creator.len() == p.creator.len() + 1 && s.creator.drop_last() == p.creator
    &&& appended(p.calls, s.calls, s.creator.last())
    &&& s.inds == born(s.calls, p.calls.len() as int)
    &&& s.best.is_none() && s.worst.is_none() && s.iter == 0
    &&& told(p.logs, s.logs, EvKind::Start, 0, None)
    &&& s == GaView { creator: s.creator, calls: s.calls, inds: s.inds, best: s.best, worst: s.worst, iter: s.iter, logs: s.logs, ..p }
}
/// loggers 0..n have been told
pub open spec fn told_upto<T>(a: Seq<Seq<Ev<T>>>, b: Seq<Seq<Ev<T>>>, kind: EvKind, iter: usize, best: Option<Individual<T>>, n: int) -> bool {
    a.len() == b.len() && n <= a.len()
    && (forall|i: int| 0 <= i < n ==> #[trigger] b[i] == a[i].push(Ev { kind, iter, best: best_pair(best) }))
    && (forall|i: int| n <= i < a.len() ==> #[trigger] b[i] == a[i])
}
pub proof fn lem_told_step<T>(a: Seq<Seq<Ev<T>>>, o: Seq<Seq<Ev<T>>>, b: Seq<Seq<Ev<T>>>, kind: EvKind, iter: usize, best: Option<Individual<T>>, n: int)
    requires told_upto(a, o, kind, iter, best, n), 0 <= n < a.len(), b == o.update(n, o[n].push(Ev { kind, iter, best: best_pair(best) }))
    ensures told_upto(a, b, kind, iter, best, n + 1)
{ }
pub proof fn lem_filter_step<T>(b0: Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>>, o: Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>>, b: Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>>, inds: Seq<Individual<T>>, first: Seq<T>, out: Seq<T>, n: int)
    requires filtered(b0, o, inds, first, n), 0 <= n < b0.len(), b == o.update(n, o[n].push((inds, after_filters(o, first, n), out)))
    ensures filtered(b0, b, inds, first, n + 1), after_filters(b, first, n + 1) == out
{
    assert(o[n] == b0[n]);
    assert(b[n].drop_last() =~= b0[n]);
    assert forall|i: int| 0 <= i <= n implies after_filters(b, first, i) == after_filters(o, first, i) by { if i > 0 { assert(b[i - 1] == o[i - 1]); } }
}
pub proof fn lem_sel_step<T>(b0: Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>>, o: Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>>, b: Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>>, first: Seq<Individual<T>>, out: Seq<Individual<T>>, n: int)
    requires selected(b0, o, first, n), 0 <= n < b0.len(), b == o.update(n, o[n].push((after_sels(o, first, n), out))), drawn(after_sels(o, first, n), out)
    ensures selected(b0, b, first, n + 1), after_sels(b, first, n + 1) == out
{
    assert(o[n] == b0[n]);
    assert(b[n].drop_last() =~= b0[n]);
    assert forall|i: int| 0 <= i <= n implies after_sels(b, first, i) == after_sels(o, first, i) by { if i > 0 { assert(b[i - 1] == o[i - 1]); } }
}
pub proof fn lem_told<T>(a: Seq<Seq<Ev<T>>>, b: Seq<Seq<Ev<T>>>, kind: EvKind, iter: usize, best: Option<Individual<T>>)
    requires told_upto(a, b, kind, iter, best, a.len() as int)
    ensures told(a, b, kind, iter, best)
{
    assert(b =~= Seq::new(a.len(), |i: int| a[i].push(Ev { kind, iter, best: best_pair(best) })));
}
pub open spec fn same_but_loggers<'a, T>(a: GeneticOptimizer<'a, T>, b: GeneticOptimizer<'a, T>) -> bool {
    a.population == b.population && a.stop_checker == b.stop_checker && a.creator == b.creator && a.pairing == b.pairing
    && a.cross == b.cross && a.mutation == b.mutation && a.selections@ == b.selections@ && a.pre_births@ == b.pre_births@
}

@@fn genetic::GeneticOptimizer::new
@@props C28 C12
@@spec
    ensures r.goal_box() == goal, r.stop_checker == stop_checker, r.creator == creator, r.pairing == pairing, r.cross == cross,
        r.mutation == mutation, r.selections == selections, r.pre_births == pre_births, r.loggers@.len() == 0,
        r.population.individuals@.len() == 0, r.population.best_individual.is_none(), r.population.worst_individual.is_none(), r.population.iteration == 0
@@module genetic
impl<'a, T> GeneticOptimizer<'a, T> { pub open spec fn goal_box(&self) -> Box<dyn Goal<T> + 'a> { self.population.goal } }
@@fn genetic::GeneticOptimizer::set_loggers
@@props C28
@@spec
    ensures *final(self) == (GeneticOptimizer { loggers, ..*old(self) })
@@fn genetic::GeneticOptimizer::set_pairing
@@props C28
@@spec
    ensures *final(self) == (GeneticOptimizer { pairing, ..*old(self) })
@@fn genetic::GeneticOptimizer::set_cross
@@props C28
@@spec
    ensures *final(self) == (GeneticOptimizer { cross, ..*old(self) })
@@fn genetic::GeneticOptimizer::set_mutation
@@props C28
@@spec
    ensures *final(self) == (GeneticOptimizer { mutation, ..*old(self) })
@@fn genetic::GeneticOptimizer::set_selection
@@props C28
@@spec
    ensures *final(self) == (GeneticOptimizer { selections, ..*old(self) })
@@fn genetic::GeneticOptimizer::set_pre_birth
@@props C28
@@spec
    ensures *final(self) == (GeneticOptimizer { pre_births, ..*old(self) })
@@fn genetic::GeneticOptimizer::set_stop_checker
@@props C28
@@spec
    ensures *final(self) == (GeneticOptimizer { stop_checker, ..*old(self) })
@@fn genetic::GeneticOptimizer::run_pairing
@@props C13 C01
@@spec
    ensures paired(ga_view(*old(self)), ga_view(*final(self))), //# C13
        r@ == children(ga_view(*old(self)), ga_view(*final(self))), //# C13
        *final(self) == (GeneticOptimizer { pairing: final(self).pairing, cross: final(self).cross, ..*old(self) })
@@loop 0
        views(__g0_0) == self.pairing.log().last().1, //# C13
        valid_pairs(__g0_0, self.population.individuals@.len() as int), //# C13
        *self == (GeneticOptimizer { pairing: self.pairing, cross: self.cross, ..*old(self) }),
        crossed(self.population.individuals@, views(__g0_0), old(self).cross.log(), self.cross.log(), __i0 as int), //# C13
        new_chromosomes@ == flat(self.cross.log(), old(self).cross.log().len() as int, self.cross.log().len() as int), //# C13
        self.pairing.log() == old(self).pairing.log().push((old(self).population.individuals@, views(__g0_0))), //# C13
@@at loop 0 begin
let ghost c_old = self.cross.log();
@@loop 1
        gathered(cross_chromosomes@, self.population.individuals@, __g1_0, __i1 as int), //# C13
@@at loop 1 begin
assert(__g0_0[__j0 as int]@[__j1 as int] < self.population.individuals@.len());
@@at loop 0 end
proof {
    let c = self.cross.log();
    let n0 = old(self).cross.log().len() as int;
    assert(c == c_old.push(c.last())); //# C13
    assert(c.subrange(0, n0) =~= c_old.subrange(0, n0));
    assert(c.last().0 =~= parents(self.population.individuals@, views(__g0_0)[__j0 as int])); //# C13
    lem_flat_ext(c_old, c, n0, c_old.len() as int);
}
@@at loop 0 after
proof {
    let p = ga_view(*old(self)); let q = ga_view(*self);
    assert(q.pairing.drop_last() =~= p.pairing);
}
@@fn genetic::<GeneticOptimizer as IterativeOptimizer>::next_iterations
@@props C12 C13 C01 C02 C04 C06
@@attrs
#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(20)]
@@spec
    ensures exists|t: Seq<GaView<T>>| run_ok(ga_view(*old(self)), ga_view(*final(self)), t, r),
        // C01: what was born from goal calls stays so, and the solution reported is one of those calls
        forall|from: int| #[trigger] honest(ga_view(*old(self)), from) ==> honest(ga_view(*final(self)), from) && honest_pair(final(self).population.goal.calls(), from, r),
@@at entry
let ghost mut t: Seq<GaView<T>> = Seq::empty();
let ghost mut s2 = *self;
let ghost mut s3 = *self;
let ghost mut s4 = *self;
let ghost mut s5 = *self;
let ghost mut s6 = *self;
@@loop 0
        *self == (GeneticOptimizer { loggers: self.loggers, ..*old(self) }), //# C12
        told_upto(logs_of(old(self).loggers@), logs_of(self.loggers@), EvKind::Resume, self.population.iteration, self.population.best_individual, __i0 as int), //# C12
@@at loop 0 begin
let ghost l_old = logs_of(self.loggers@);
@@at loop 0 end
proof {
    let b = logs_of(self.loggers@);
    assert(b =~= l_old.update(__j0 as int, l_old[__j0 as int].push(Ev { kind: EvKind::Resume, iter: self.population.iteration, best: best_pair(self.population.best_individual) }))); //# C12
    lem_told_step(logs_of(old(self).loggers@), l_old, b, EvKind::Resume, self.population.iteration, self.population.best_individual, __j0 as int); //# C12
}
@@at loop 0 after
proof { lem_told(logs_of(old(self).loggers@), logs_of(self.loggers@), EvKind::Resume, self.population.iteration, self.population.best_individual); } //# C12
@@at loop 1 before
proof { t = seq![ga_view(*self)]; }
@@loop 1
        t.len() >= 1,
        t[0] == (GaView { logs: t[0].logs, ..ga_view(*old(self)) }), //# C12
        told(ga_view(*old(self)).logs, t[0].logs, EvKind::Resume, old(self).population.iteration, old(self).population.best_individual), //# C12
        gens_ok(t),
        invariant_except_break
        t.last() == ga_view(*self),
        ensures
        ga_view(*self) == (GaView { asks: ga_view(*self).asks, ..t.last() }), //# C12
        ga_view(*self).asks == t.last().asks.push(Ask { iter: t.last().iter, best: best_pair(t.last().best), ans: true }), //# C12
@@at loop 1 begin
assume(self.population.iteration < usize::MAX);
let ghost p = t.last();
let ghost s1 = *self;
@@at loop 2 before
proof { s2 = *self; }
let ghost kids = children_chromo_list@;
@@loop 2
        *self == (GeneticOptimizer { mutation: self.mutation, ..s2 }), //# C13
        children_chromo_list@ == kids, //# C13
        mutated(s2.mutation.log(), self.mutation.log(), kids, __i2 as int), //# C13
        __c2@ == mutants(self.mutation.log(), s2.mutation.log().len() as int), //# C13
@@at loop 2 begin
let ghost m_old = self.mutation.log();
@@at loop 2 end
proof {
    let m = self.mutation.log(); let n0 = s2.mutation.log().len() as int;
    assert(m == m_old.push(m.last())); //# C13
    assert(m.subrange(0, n0) =~= m_old.subrange(0, n0)); //# C13
    assert(mutants(m, n0) =~= mutants(m_old, n0).push(m.last().1)); //# C13
}
@@at loop 3 before
proof { s3 = *self; }
let ghost mut0 = children_mutants@;
@@loop 3
        *self == (GeneticOptimizer { pre_births: self.pre_births, ..s3 }), //# C13 C06
        filtered(births_of(s3.pre_births@), births_of(self.pre_births@), s3.population.individuals@, mut0, __i3 as int), //# C13 C06
        children_mutants@ == after_filters(births_of(self.pre_births@), mut0, __i3 as int), //# C13 C06
@@at loop 3 begin
let ghost b_old = births_of(self.pre_births@);
let ghost c_old = children_mutants@;
@@at loop 3 end
proof {
    let b = births_of(self.pre_births@);
    assert(b =~= b_old.update(__j3 as int, b_old[__j3 as int].push((s3.population.individuals@, c_old, children_mutants@)))); //# C13 C06
    lem_filter_step(births_of(s3.pre_births@), b_old, b, s3.population.individuals@, mut0, children_mutants@, __j3 as int); //# C13 C06
}
@@at loop 4 before
proof { s4 = *self; }
@@loop 4
        *self == (GeneticOptimizer { selections: self.selections, population: Population { individuals: self.population.individuals, ..s4.population }, ..s4 }), //# C13 C04 C01
        selected(sels_of(s4.selections@), sels_of(self.selections@), s4.population.individuals@, __i4 as int), //# C13 C04 C01
        self.population.individuals@ == after_sels(sels_of(self.selections@), s4.population.individuals@, __i4 as int), //# C13 C04 C01
@@at loop 4 begin
let ghost l_old = sels_of(self.selections@);
let ghost p_old = self.population.individuals@;
@@at loop 4 end
proof {
    let b = sels_of(self.selections@);
    assert(b =~= l_old.update(__j4 as int, l_old[__j4 as int].push((p_old, self.population.individuals@)))); //# C13 C04 C01
    lem_sel_step(sels_of(s4.selections@), l_old, b, s4.population.individuals@, self.population.individuals@, __j4 as int); //# C13 C04 C01
}
@@at loop 5 before
proof { s5 = *self; }
@@loop 5
        *self == (GeneticOptimizer { loggers: self.loggers, ..s5 }), //# C12
        told_upto(logs_of(s5.loggers@), logs_of(self.loggers@), EvKind::Next, self.population.iteration, self.population.best_individual, __i5 as int), //# C12
@@at loop 5 begin
let ghost l_old = logs_of(self.loggers@);
@@at loop 5 end
proof {
    let b = logs_of(self.loggers@);
    assert(b =~= l_old.update(__j5 as int, l_old[__j5 as int].push(Ev { kind: EvKind::Next, iter: self.population.iteration, best: best_pair(self.population.best_individual) }))); //# C12
    lem_told_step(logs_of(s5.loggers@), l_old, b, EvKind::Next, self.population.iteration, self.population.best_individual, __j5 as int); //# C12
}
@@at loop 5 after
proof { lem_told(logs_of(s5.loggers@), logs_of(self.loggers@), EvKind::Next, self.population.iteration, self.population.best_individual); } //# C12
@@at loop 1 end
proof {
    let q = ga_view(*self);
    assert(q.births == births_of(s4.pre_births@)); //# C13 C06
    assert(q.asks == p.asks.push(Ask { iter: p.iter, best: best_pair(p.best), ans: false })); //# C12
    assert(q.creator == p.creator); //# C12
    assert(paired(p, q)); //# C13
    assert(mutated(p.mutation, q.mutation, children(p, q), children(p, q).len() as int)); //# C13
    assert(filtered(p.births, q.births, p.inds, mutants(q.mutation, p.mutation.len() as int), p.births.len() as int)); //# C13 C06
    assert(appended(p.calls, q.calls, newborn(p, q))); //# C01 C13 C06
    assert(selected(p.sels, q.sels, grown(p, q), p.sels.len() as int)); //# C13 C04 C01
    assert(q.inds == alive_of(survivors(p, q))); //# C13 C04 C01
    assert(best_of(q.inds, p.best, q.best)); //# C02 C04 C01
    assert(worst_of(q.inds, p.worst, q.worst)); //# C02 C01
    assert(q.iter == p.iter + 1); //# C12
    assert(told(p.logs, q.logs, EvKind::Next, q.iter, q.best)); //# C12
    assert(gen_ok(p, q));
    t = t.push(q);
}
@@at loop 6 before
proof { s6 = *self; }
@@loop 6
        *self == (GeneticOptimizer { loggers: self.loggers, ..s6 }), //# C12
        told_upto(logs_of(s6.loggers@), logs_of(self.loggers@), EvKind::Finish, self.population.iteration, self.population.best_individual, __i6 as int), //# C12
@@at loop 6 begin
let ghost l_old = logs_of(self.loggers@);
@@at loop 6 end
proof {
    let b = logs_of(self.loggers@);
    assert(b =~= l_old.update(__j6 as int, l_old[__j6 as int].push(Ev { kind: EvKind::Finish, iter: self.population.iteration, best: best_pair(self.population.best_individual) }))); //# C12
    lem_told_step(logs_of(s6.loggers@), l_old, b, EvKind::Finish, self.population.iteration, self.population.best_individual, __j6 as int); //# C12
}
@@at loop 6 after
proof { lem_told(logs_of(s6.loggers@), logs_of(self.loggers@), EvKind::Finish, self.population.iteration, self.population.best_individual); } //# C12
@@at exit
proof {
    let q = ga_view(*self);
    assert(q == GaView { logs: q.logs, asks: q.asks, ..t.last() }); //# C01 C02 C12
    assert(q.asks == t.last().asks.push(Ask { iter: q.iter, best: best_pair(q.best), ans: true })); //# C12
    assert(told(t.last().logs, q.logs, EvKind::Finish, q.iter, q.best)); //# C12
    assert(__result == best_pair(q.best)); //# C01 C12
    assert(run_ok(ga_view(*old(self)), ga_view(*self), t, __result));
    assert forall|from: int| #[trigger] honest(ga_view(*old(self)), from) implies honest(ga_view(*self), from) && honest_pair(self.population.goal.calls(), from, __result) by {
        lem_honest_result(ga_view(*old(self)), ga_view(*self), t, __result, from);
    }
}
@@fn genetic::<GeneticOptimizer as Optimizer>::find_min
@@props C12 C01
@@spec
    ensures exists|s: GaView<T>, t: Seq<GaView<T>>| started(ga_view(*old(self)), s) && run_ok(s, ga_view(*final(self)), t, r), //# C12 C01
        // C01: everything held and the solution reported come from goal calls of this very run
        honest(ga_view(*final(self)), old(self).population.goal.calls().len() as int),
        honest_pair(final(self).population.goal.calls(), old(self).population.goal.calls().len() as int, r),
@@at entry
let ghost mut s1 = *self;
@@at loop 0 before
proof { s1 = *self; }
@@loop 0
        *self == (GeneticOptimizer { loggers: self.loggers, ..s1 }), //# C12
        told_upto(logs_of(s1.loggers@), logs_of(self.loggers@), EvKind::Start, self.population.iteration, self.population.best_individual, __i0 as int), //# C12
@@at loop 0 begin
let ghost l_old = logs_of(self.loggers@);
@@at loop 0 end
proof {
    let b = logs_of(self.loggers@);
    assert(b =~= l_old.update(__j0 as int, l_old[__j0 as int].push(Ev { kind: EvKind::Start, iter: self.population.iteration, best: best_pair(self.population.best_individual) }))); //# C12
    lem_told_step(logs_of(s1.loggers@), l_old, b, EvKind::Start, self.population.iteration, self.population.best_individual, __j0 as int); //# C12
}
@@at loop 0 after
proof { 
    lem_told(logs_of(s1.loggers@), logs_of(self.loggers@), EvKind::Start, self.population.iteration, self.population.best_individual); //# C12
    let p = ga_view(*old(self)); let s = ga_view(*self);
    assert(s.creator.drop_last() =~= p.creator);
    assert(s.inds =~= born(s.calls, p.calls.len() as int));
    assert(appended(p.calls, s.calls, s.creator.last())); //# C01 C12
    assert(s.inds == born(s.calls, p.calls.len() as int)); //# C01 C12
    assert(s.best.is_none() && s.worst.is_none()); //# C01 C12
    assert(s.iter == 0); //# C12
    assert(told(p.logs, s.logs, EvKind::Start, 0, None)); //# C12
    assert(s == GaView { creator: s.creator, calls: s.calls, inds: s.inds, best: s.best, worst: s.worst, iter: s.iter, logs: s.logs, ..p }); //# C12
    assert(started(p, s));
    lem_honest_start(p, s);
}
