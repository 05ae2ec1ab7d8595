@@# ------------------------------------------------------------------ selection
@@module genetic::selection
use crate::genetic::{Individual, alive_of, same_but_alive, drawn, taken_from};
broadcast use crate::spec::ax;
pub open spec fn nalive<T>(s: Seq<Individual<T>>) -> int { alive_of(s).len() as int }
/// C03: exactly `left` individuals stay alive, nobody is killed while somebody strictly worse survives,
/// the dead stay dead and nothing but aliveness changes
pub open spec fn trunc_ok<T>(a: Seq<Individual<T>>, b: Seq<Individual<T>>, left: int) -> bool {
    &&& same_but_alive(a, b)
    &&& nalive(b) == left
    &&& spares_worse(a, b)
}
pub open spec fn spares_worse<T>(a: Seq<Individual<T>>, b: Seq<Individual<T>>) -> bool {
    forall|k: int, j: int| 0 <= k < a.len() && 0 <= j < a.len() && (#[trigger] a[k]).alive && !b[k].alive && (#[trigger] b[j]).alive ==> !worse(a[j].fitness, a[k].fitness)
}
/// C05: exactly the individuals that do not pass are killed
pub open spec fn killed_unless<T>(a: Seq<Individual<T>>, b: Seq<Individual<T>>, pass: spec_fn(Individual<T>) -> bool) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (Individual { alive: a[i].alive && pass(a[i]), ..a[i] })
}
pub proof fn lem_alive_step<T>(s: Seq<Individual<T>>, n: int)
    requires 0 <= n < s.len()
    ensures nalive(s.subrange(0, n + 1)) == nalive(s.subrange(0, n)) + (if s[n].alive { 1int } else { 0int })
{
    assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n));
    reveal(Seq::filter);
}
pub proof fn lem_alive_kill<T>(s: Seq<Individual<T>>, n: int)
    requires 0 <= n < s.len(), s[n].alive
    ensures nalive(s.update(n, Individual { alive: false, ..s[n] })) == nalive(s) - 1
    decreases s.len()
{
    let t = s.update(n, Individual { alive: false, ..s[n] });
    reveal(Seq::filter);
    if n == s.len() - 1 { assert(t.drop_last() =~= s.drop_last()); }
    else { assert(t.drop_last() =~= s.drop_last().update(n, Individual { alive: false, ..s[n] })); lem_alive_kill(s.drop_last(), n); }
}
/// the kill list after the first `n` individuals: `count` of the worst living ones
#[verifier::opaque]
pub open spec fn kill_inv<T>(s: Seq<Individual<T>>, kl: Seq<usize>, n: int, count: int, bi: int, bf: f64) -> bool {
    &&& 0 <= n <= s.len()
    &&& kl.len() == (if nalive(s.subrange(0, n)) < count { nalive(s.subrange(0, n)) } else { count })
    &&& listed(s, kl, n)
    &&& mildest(s, kl, kl.len() as int, bi, bf)
    &&& forall|j: int| 0 <= j < n && (#[trigger] s[j]).alive && !kl.contains(j as usize) ==> kl.len() == count && no_worse(s, kl, s[j].fitness)
}
pub open spec fn listed<T>(s: Seq<Individual<T>>, kl: Seq<usize>, n: int) -> bool {
    (forall|k: int| 0 <= k < kl.len() ==> (#[trigger] kl[k]) < n && s[kl[k] as int].alive)
    && (forall|k: int, l: int| 0 <= k < kl.len() && 0 <= l < kl.len() && k != l ==> #[trigger] kl[k] != #[trigger] kl[l])
}
pub open spec fn no_worse<T>(s: Seq<Individual<T>>, kl: Seq<usize>, f: f64) -> bool {
    forall|k: int| 0 <= k < kl.len() ==> !worse(f, s[#[trigger] kl[k] as int].fitness)
}
/// `bf` is the mildest goal value among the first m entries, found at bi
#[verifier::opaque]
pub open spec fn mildest<T>(s: Seq<Individual<T>>, kl: Seq<usize>, m: int, bi: int, bf: f64) -> bool {
    &&& forall|k: int| 0 <= k < m ==> !worse(bf, s[#[trigger] kl[k] as int].fitness)
    &&& m > 0 ==> 0 <= bi < m && !worse(s[kl[bi] as int].fitness, bf)
    &&& m == 0 ==> nan(bf)
}
/// what the code needs to know of the kill list
pub proof fn lem_kw_facts<T>(s: Seq<Individual<T>>, kl: Seq<usize>, n: int, count: int, bi: int, bf: f64)
    requires kill_inv(s, kl, n, count, bi, bf)
    ensures kl.len() <= count, kl.len() > 0 ==> 0 <= bi < kl.len(), listed(s, kl, n), n <= s.len()
{ reveal(kill_inv); reveal(mildest); }
pub proof fn lem_mild_first<T>(s: Seq<Individual<T>>, kl: Seq<usize>, bf: f64)
    requires kl.len() > 0, bf == s[kl[0] as int].fitness
    ensures mildest(s, kl, 1, 0, bf)
{ reveal(mildest); worse_asym(bf, bf); }
pub proof fn lem_mild_step<T>(s: Seq<Individual<T>>, kl: Seq<usize>, m: int, bi: int, bf: f64, bi2: int, bf2: f64)
    requires mildest(s, kl, m, bi, bf), 0 < m < kl.len(),
        worse(bf, s[kl[m] as int].fitness) ==> bi2 == m && bf2 == s[kl[m] as int].fitness,
        !worse(bf, s[kl[m] as int].fitness) ==> bi2 == bi && bf2 == bf,
    ensures mildest(s, kl, m + 1, bi2, bf2)
{
    reveal(mildest);
    let x = s[kl[m] as int].fitness;
    worse_asym(x, x); worse_asym(bf, x);
    assert forall|k: int| 0 <= k < m + 1 implies !worse(bf2, s[#[trigger] kl[k] as int].fitness) by {
        if k < m && worse(bf, x) { worse_negtrans(x, bf, s[kl[k] as int].fitness); }
    }
}
pub proof fn lem_kw_push<T>(s: Seq<Individual<T>>, kl: Seq<usize>, n: int, count: int, bi: int, bf: f64, kl2: Seq<usize>, bi2: int, bf2: f64)
    requires kill_inv(s, kl, n, count, bi, bf), n < s.len() <= usize::MAX, s[n].alive, kl.len() < count, kl2 == kl.push(n as usize),
        worse(bf, s[n].fitness) ==> bi2 == kl.len() && bf2 == s[n].fitness,
        !worse(bf, s[n].fitness) ==> bi2 == bi && bf2 == bf && (kl.len() == 0 ==> bi == 0),
    ensures kill_inv(s, kl2, n + 1, count, bi2, bf2)
{
    reveal(kill_inv); reveal(mildest);
    lem_alive_step(s, n);
    worse_asym(s[n].fitness, s[n].fitness);
    assert(kl2[kl.len() as int] == n);
    if worse(bf, s[n].fitness) {
        assert forall|k: int| 0 <= k < kl2.len() implies !worse(bf2, s[#[trigger] kl2[k] as int].fitness) by {
            if k < kl.len() { assert(kl2[k] == kl[k]); worse_asym(bf, s[n].fitness); worse_negtrans(s[n].fitness, bf, s[kl[k] as int].fitness); }
        }
    } else {
        assert forall|k: int| 0 <= k < kl2.len() implies !worse(bf2, s[#[trigger] kl2[k] as int].fitness) by {
            if k < kl.len() { assert(kl2[k] == kl[k]); }
        }
        if kl.len() == 0 { assert(!worse(s[n].fitness, bf)); }
    }
    assert forall|j: int| 0 <= j < n + 1 && (#[trigger] s[j]).alive && !kl2.contains(j as usize) implies kl2.len() == count && no_worse(s, kl2, s[j].fitness) by {
        assert(kl2.contains(n as usize));
        if j < n {
            if kl.contains(j as usize) { let w = choose|w: int| 0 <= w < kl.len() && kl[w] == j as usize; assert(kl2[w] == j as usize); assert(false); }
        }
    }
    assert(listed(s, kl2, n + 1));
}
pub proof fn lem_kw_skip<T>(s: Seq<Individual<T>>, kl: Seq<usize>, n: int, count: int, bi: int, bf: f64)
    requires kill_inv(s, kl, n, count, bi, bf), n < s.len(), s[n].alive ==> kl.len() >= count && !worse(s[n].fitness, bf)
    ensures kill_inv(s, kl, n + 1, count, bi, bf)
{
    reveal(kill_inv); reveal(mildest);
    lem_alive_step(s, n);
    assert forall|j: int| 0 <= j < n + 1 && (#[trigger] s[j]).alive && !kl.contains(j as usize) implies kl.len() == count && no_worse(s, kl, s[j].fitness) by {
        if j == n {
            assert forall|k: int| 0 <= k < kl.len() implies !worse(s[n].fitness, s[#[trigger] kl[k] as int].fitness) by {
                worse_negtrans(s[n].fitness, bf, s[kl[k] as int].fitness);
            }
        }
    }
}
pub proof fn lem_kw_replace<T>(s: Seq<Individual<T>>, kl: Seq<usize>, n: int, count: int, bi: int, bf: f64, kl2: Seq<usize>, bi2: int, bf2: f64)
    requires kill_inv(s, kl, n, count, bi, bf), n < s.len() <= usize::MAX, s[n].alive, count > 0, kl.len() >= count, worse(s[n].fitness, bf),
        kl2 == kl.update(bi, n as usize), mildest(s, kl2, kl2.len() as int, bi2, bf2)
    ensures kill_inv(s, kl2, n + 1, count, bi2, bf2)
{
    reveal(kill_inv); reveal(mildest);
    lem_alive_step(s, n);
    worse_asym(s[n].fitness, bf);
    let ob = kl[bi] as int;
    assert(kl2[bi] == n);
    assert forall|j: int| 0 <= j < n + 1 && (#[trigger] s[j]).alive && !kl2.contains(j as usize) implies kl2.len() == count && no_worse(s, kl2, s[j].fitness) by {
        assert(kl2.contains(n as usize));
        assert(j != n);
        assert(!worse(s[j].fitness, bf)) by {
            if j != ob {
                if kl.contains(j as usize) { let w = choose|w: int| 0 <= w < kl.len() && kl[w] == j as usize; assert(kl2[w] == j as usize); }
                worse_negtrans(s[j].fitness, s[ob].fitness, bf);
            }
        }
        assert forall|k: int| 0 <= k < kl2.len() implies !worse(s[j].fitness, s[#[trigger] kl2[k] as int].fitness) by {
            if k == bi { worse_negtrans(s[j].fitness, bf, s[n].fitness); } else { assert(kl2[k] == kl[k]); worse_negtrans(s[j].fitness, bf, s[kl[k] as int].fitness); }
        }
    }
    assert(listed(s, kl2, n + 1));
}
/// the population once the first m entries of the kill list are dead
#[verifier::opaque]
pub open spec fn executed<T>(s: Seq<Individual<T>>, b: Seq<Individual<T>>, kl: Seq<usize>, m: int) -> bool {
    &&& b.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> same_ind(s[i], #[trigger] b[i]) && b[i].alive == (s[i].alive && !kl.subrange(0, m).contains(i as usize))
    &&& nalive(b) == nalive(s) - m
}
pub open spec fn same_ind<T>(a: Individual<T>, b: Individual<T>) -> bool { a.chromosomes == b.chromosomes && a.fitness == b.fitness }
pub proof fn lem_exec_step<T>(s: Seq<Individual<T>>, b: Seq<Individual<T>>, c: Seq<Individual<T>>, kl: Seq<usize>, m: int)
    requires executed(s, b, kl, m), listed(s, kl, s.len() as int), s.len() <= usize::MAX, 0 <= m < kl.len(), c == b.update(kl[m] as int, Individual { alive: false, ..b[kl[m] as int] })
    ensures executed(s, c, kl, m + 1)
{
    reveal(executed);
    let x = kl[m] as int;
    let k0 = kl.subrange(0, m); let k1 = kl.subrange(0, m + 1);
    assert(k1 =~= k0.push(kl[m]));
    if k0.contains(kl[m]) { let w = choose|w: int| 0 <= w < k0.len() && k0[w] == kl[m]; assert(kl[w] == kl[m]); assert(false); }
    assert(b[x].alive);
    lem_alive_kill(b, x);
    assert(k1[m] == kl[m]);
    assert forall|i: int| 0 <= i < s.len() implies same_ind(s[i], #[trigger] c[i]) && c[i].alive == (s[i].alive && !k1.contains(i as usize)) by {
        if k0.contains(i as usize) { let w = choose|w: int| 0 <= w < k0.len() && k0[w] == i as usize; assert(k1[w] == i as usize); }
        if k1.contains(i as usize) && i != x { let w = choose|w: int| 0 <= w < k1.len() && k1[w] == i as usize; assert(k0[w] == i as usize); }
    }
}
pub proof fn lem_exec_done<T>(s: Seq<Individual<T>>, b: Seq<Individual<T>>, kl: Seq<usize>, count: int, bi: int, bf: f64)
    requires kill_inv(s, kl, s.len() as int, count, bi, bf), executed(s, b, kl, kl.len() as int), s.len() <= usize::MAX, count > 0
    ensures trunc_ok(s, b, if nalive(s) < count { 0int } else { nalive(s) - count })
{
    reveal(executed); reveal(kill_inv);
    assert(s.subrange(0, s.len() as int) =~= s);
    assert(kl.subrange(0, kl.len() as int) =~= kl);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).chromosomes == b[i].chromosomes && s[i].fitness == b[i].fitness && (b[i].alive ==> s[i].alive) by { assert(same_ind(s[i], b[i])); }
    assert forall|k: int, j: int| 0 <= k < s.len() && 0 <= j < s.len() && (#[trigger] s[k]).alive && !b[k].alive && (#[trigger] b[j]).alive implies !worse(s[j].fitness, s[k].fitness) by {
        assert(same_ind(s[k], b[k]));
        assert(kl.contains(k as usize));
        let w = choose|w: int| 0 <= w < kl.len() && kl[w] == k as usize;
        assert(s[j].alive && !kl.contains(j as usize));
        assert(no_worse(s, kl, s[j].fitness));
        assert(!worse(s[j].fitness, s[kl[w] as int].fitness));
    }
}
pub proof fn lem_same_drawn<T>(a: Seq<Individual<T>>, b: Seq<Individual<T>>)
    requires same_but_alive(a, b) ensures drawn(a, b)
{
    assert forall|i: int| 0 <= i < b.len() implies taken_from(a, #[trigger] b[i]) by {
        assert(a[i].chromosomes == b[i].chromosomes && a[i].fitness == b[i].fitness);
    }
}
pub proof fn lem_same_refl<T>(a: Seq<Individual<T>>) ensures trunc_ok(a, a, nalive(a)) { }

@@fn genetic::selection::is_worse
@@props C03 C04
@@spec
    ensures r == worse(fitness_1, fitness_2)
@@fn genetic::selection::kill_worst
@@props C03 C04
@@attrs
#[verifier::rlimit(40)]
@@spec
    ensures
        trunc_ok(old(population).individuals@, final(population).individuals@,
            if nalive(old(population).individuals@) < count { 0int } else { nalive(old(population).individuals@) - count }),
        drawn(old(population).individuals@, final(population).individuals@),
        final(population).goal == old(population).goal,
        final(population).best_individual == old(population).best_individual,
        final(population).worst_individual == old(population).worst_individual,
        final(population).iteration == old(population).iteration,
@@at entry
let ghost s = population.individuals@;
let ghost p0 = *population;
proof { lem_same_refl(s); lem_same_drawn(s, s); }
@@at loop 0 before
proof { assert(s.subrange(0, 0) =~= Seq::empty()); reveal(Seq::filter); reveal(kill_inv); reveal(mildest); assert(kill_inv(s, kill_list@, 0, count as int, 0, best_fitness)); }
@@loop 0
        count > 0,
        *population == p0,
        kill_list@.len() == 0 ==> best_index == 0,
        kill_inv(s, kill_list@, __i0 as int, count as int, best_index as int, best_fitness),
@@at loop 0 begin
let ghost k_old = kill_list@;
let ghost bi_old = best_index as int;
let ghost bf_old = best_fitness;
proof {
    lem_kw_facts(s, k_old, __j0 as int, count as int, bi_old, bf_old);
    if !s[__j0 as int].alive { lem_kw_skip(s, k_old, __j0 as int, count as int, bi_old, bf_old); }
}
@@at loop 0 end
proof {
    let j = __j0 as int;
    if k_old.len() < count { lem_kw_push(s, k_old, j, count as int, bi_old, bf_old, kill_list@, best_index as int, best_fitness); }
    else if worse(s[j].fitness, bf_old) { lem_kw_replace(s, k_old, j, count as int, bi_old, bf_old, kill_list@, best_index as int, best_fitness); }
    else { lem_kw_skip(s, k_old, j, count as int, bi_old, bf_old); }
}
@@at loop 1 before
proof { lem_mild_first(s, kill_list@, best_fitness); }
@@loop 1
        *population == p0,
        count > 0,
        best_index < __i1,
        kill_list@ == k_old.update(bi_old, __j0),
        kill_list@.len() > 0,
        mildest(s, kill_list@, __i1 as int, best_index as int, best_fitness),
@@at loop 1 begin
let ghost bf1 = best_fitness;
let ghost bi1 = best_index as int;
assert(kill_list@[__j1 as int] < s.len());
@@at loop 1 end
proof { lem_mild_step(s, kill_list@, __j1 as int, bi1, bf1, best_index as int, best_fitness); }
@@at loop 2 before
proof { lem_kw_facts(s, __g2_0, s.len() as int, count as int, best_index as int, best_fitness); assert(executed(s, population.individuals@, __g2_0, 0)) by { reveal(executed); assert(__g2_0.subrange(0, 0) =~= Seq::empty()); } }
@@loop 2
        *population == (Population { individuals: population.individuals, ..p0 }),
        kill_inv(s, __g2_0, s.len() as int, count as int, best_index as int, best_fitness),
        population.individuals@.len() == s.len(),
        executed(s, population.individuals@, __g2_0, __i2 as int),
@@at loop 2 begin
let ghost b_old = population.individuals@;
assert(__g2_0[__j2 as int] < s.len());
@@at loop 2 end
proof {
    assert(population.individuals@ =~= b_old.update(__g2_0[__j2 as int] as int, Individual { alive: false, ..b_old[__g2_0[__j2 as int] as int] }));
    lem_exec_step(s, b_old, population.individuals@, __g2_0, __j2 as int);
}
@@at loop 2 after
proof { lem_exec_done(s, population.individuals@, __g2_0, count as int, best_index as int, best_fitness); lem_same_drawn(s, population.individuals@); }
@@fn genetic::selection::LimitPopulation::new
@@props C03 C28
@@spec
    ensures r.max_count == max_count
@@fn genetic::selection::LimitPopulation::set_limit
@@props C03 C28
@@spec
    ensures final(self).max_count == max_count
@@fn genetic::selection::<LimitPopulation as Selection>::kill
@@props C03 C04
@@mode lift
@@spec
    ensures
        limit_ok(old(population).individuals@, final(population).individuals@, old(self).max_count as int),
        final(self).max_count == old(self).max_count,
        drawn(old(population).individuals@, final(population).individuals@),
        final(population).goal == old(population).goal,
        final(population).best_individual == old(population).best_individual,
        final(population).worst_individual == old(population).worst_individual,
        final(population).iteration == old(population).iteration,
@@at entry
proof { lem_same_refl(population.individuals@); lem_same_drawn(population.individuals@, population.individuals@); }
@@module genetic::selection
pub open spec fn limit_ok<T>(a: Seq<Individual<T>>, b: Seq<Individual<T>>, limit: int) -> bool {
    trunc_ok(a, b, if nalive(a) < limit { nalive(a) } else { limit })
}
pub open spec fn finite_fitness<T>() -> spec_fn(Individual<T>) -> bool { |i: Individual<T>| ffin(i.fitness) }
pub proof fn lem_killed_drawn<T>(a: Seq<Individual<T>>, b: Seq<Individual<T>>, pass: spec_fn(Individual<T>) -> bool)
    requires killed_unless(a, b, pass) ensures drawn(a, b)
{
    assert(same_but_alive(a, b)) by { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).chromosomes == b[i].chromosomes && a[i].fitness == b[i].fitness && (b[i].alive ==> a[i].alive) by { assert(b[i] == (Individual { alive: a[i].alive && pass(a[i]), ..a[i] })); } }
    lem_same_drawn(a, b);
}
/// the first n individuals are done
pub open spec fn killed_upto<T>(a: Seq<Individual<T>>, b: Seq<Individual<T>>, pass: spec_fn(Individual<T>) -> bool, n: int) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (if i < n { Individual { alive: a[i].alive && pass(a[i]), ..a[i] } } else { a[i] })
}
@@fn genetic::selection::KillFitnessNaN::new
@@props C05
@@fn genetic::selection::<KillFitnessNaN as Selection>::kill
@@props C05 C04
@@mode lift
@@spec
    ensures
        killed_unless(old(population).individuals@, final(population).individuals@, finite_fitness::<T>()),
        drawn(old(population).individuals@, final(population).individuals@),
        final(population).goal == old(population).goal,
        final(population).best_individual == old(population).best_individual,
        final(population).worst_individual == old(population).worst_individual,
        final(population).iteration == old(population).iteration,
@@at entry
let ghost p0 = *population;
@@loop 0
        *population == (Population { individuals: population.individuals, ..p0 }),
        killed_upto(p0.individuals@, population.individuals@, finite_fitness::<T>(), __i0 as int),
@@at loop 0 begin
let ghost b_old = population.individuals@;
proof { assert(b_old[__j0 as int] == p0.individuals@[__j0 as int]); }
@@at loop 0 end
proof { assert(forall|i: int| 0 <= i < b_old.len() && i != __j0 ==> population.individuals@[i] == b_old[i]); }
@@at loop 0 after
proof { lem_killed_drawn(p0.individuals@, population.individuals@, finite_fitness::<T>()); }

@@module genetic::selection::vec_float
use crate::genetic::{Individual, alive_of, same_but_alive, drawn, taken_from};
use crate::genetic::selection::*;
broadcast use {crate::spec::ax, crate::realmodel::rax, vstd::seq_lib::group_seq_properties};
/// C05/C06: all coordinates finite and in the closed interval of their dimension
pub open spec fn in_box<G: Float>(x: Seq<G>, iv: Seq<(G, G)>) -> bool {
    forall|d: int| 0 <= d < x.len() && d < iv.len() ==> in_iv(#[trigger] x[d], iv[d])
}
pub open spec fn in_iv<G: Float>(x: G, iv: (G, G)) -> bool { finite_s(x) && !pclt(x, iv.0) && !pcgt(x, iv.1) }
pub open spec fn box_pass<G: Float>(iv: Seq<(G, G)>) -> spec_fn(Individual<Vec<G>>) -> bool { |i: Individual<Vec<G>>| in_box(i.chromosomes@, iv) }
@@fn genetic::selection::vec_float::CheckChromoInterval::new
@@props C05
@@spec
    ensures r.intervals == intervals
@@fn genetic::selection::vec_float::<CheckChromoInterval as Selection>::kill
@@props C05
@@mode lift
@@valid
forall|i: int| 0 <= i < p0.individuals@.len() ==> (#[trigger] p0.individuals@[i]).chromosomes@.len() == self_.intervals@.len()
@@spec
    ensures
        killed_unless(old(population).individuals@, final(population).individuals@, box_pass(old(self).intervals@)),
        final(self).intervals == old(self).intervals,
        forall|i: int| 0 <= i < old(population).individuals@.len() ==> (#[trigger] old(population).individuals@[i]).chromosomes@.len() == old(self).intervals@.len(),
        drawn(old(population).individuals@, final(population).individuals@),
        final(population).goal == old(population).goal,
        final(population).best_individual == old(population).best_individual,
        final(population).worst_individual == old(population).worst_individual,
        final(population).iteration == old(population).iteration,
@@at entry
let ghost p0 = *population;
@@loop 0
        self_.intervals == old(self_).intervals,
        *population == (Population { individuals: population.individuals, ..p0 }),
        killed_upto(p0.individuals@, population.individuals@, box_pass(self_.intervals@), __i0 as int),
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] p0.individuals@[i]).chromosomes@.len() == self_.intervals@.len(),
@@at loop 0 begin
let ghost b_old = population.individuals@;
proof { assert(b_old[__j0 as int] == p0.individuals@[__j0 as int]); }
@@loop 1
        invariant_except_break
        population.individuals@ == b_old,
        forall|d: int| 0 <= d < __i1 ==> in_iv(#[trigger] b_old[__j0 as int].chromosomes@[d], self_.intervals@[d]),
        ensures
        population.individuals@ == b_old.update(__j0 as int, Individual { alive: b_old[__j0 as int].alive && in_box(b_old[__j0 as int].chromosomes@, self_.intervals@), ..b_old[__j0 as int] }),
@@at loop 0 after
proof { lem_killed_drawn(p0.individuals@, population.individuals@, box_pass(self_.intervals@)); }
