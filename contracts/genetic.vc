@@# ------------------------------------------------------------------ the population
@@module genetic
broadcast use {crate::spec::ax, vstd::seq_lib::group_seq_properties};

pub open spec fn best_pair<T>(o: Option<Individual<T>>) -> Option<(T, f64)> {
    match o { Some(i) => Some((i.chromosomes, i.fitness)), None => None }
}
/// C02: `b` is a member nobody beats; NaN only if all are NaN
pub open spec fn is_best<T>(s: Seq<Individual<T>>, b: Individual<T>) -> bool {
    s.contains(b) && forall|i: int| 0 <= i < s.len() ==> !worse(b.fitness, (#[trigger] s[i]).fitness)
}
pub open spec fn is_worst<T>(s: Seq<Individual<T>>, b: Individual<T>) -> bool {
    s.contains(b) && forall|i: int| 0 <= i < s.len() ==> !nworst(b.fitness, (#[trigger] s[i]).fitness)
}
/// best/worst of a finished generation: computed from the members, kept if there is none
pub open spec fn best_of<T>(s: Seq<Individual<T>>, old_b: Option<Individual<T>>, b: Option<Individual<T>>) -> bool {
    if s.len() == 0 { b == old_b } else { b.is_some() && is_best(s, b.unwrap()) }
}
pub open spec fn worst_of<T>(s: Seq<Individual<T>>, old_b: Option<Individual<T>>, b: Option<Individual<T>>) -> bool {
    if s.len() == 0 { b == old_b } else { b.is_some() && is_worst(s, b.unwrap()) }
}
/// the individuals born from the goal calls `calls[from ..]`
pub open spec fn born<T>(calls: Seq<(T, f64)>, from: int) -> Seq<Individual<T>> {
    Seq::new((calls.len() - from) as nat, |i: int| Individual { chromosomes: calls[from + i].0, fitness: calls[from + i].1, alive: true })
}
pub open spec fn alive_of<T>(s: Seq<Individual<T>>) -> Seq<Individual<T>> { s.filter(|i: Individual<T>| i.alive) }
/// same individuals up to aliveness
pub open spec fn same_but_alive<T>(a: Seq<Individual<T>>, b: Seq<Individual<T>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).chromosomes == b[i].chromosomes && a[i].fitness == b[i].fitness && (b[i].alive ==> a[i].alive)
}
/// what any selection can do: individuals (chromosomes with their fitness) are only taken from the population
pub open spec fn drawn<T>(a: Seq<Individual<T>>, b: Seq<Individual<T>>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < b.len() ==> taken_from(a, #[trigger] b[i])
}
pub open spec fn taken_from<T>(a: Seq<Individual<T>>, x: Individual<T>) -> bool {
    exists|j: int| 0 <= j < a.len() && (#[trigger] a[j]).chromosomes == x.chromosomes && a[j].fitness == x.fitness
}
pub open spec fn min_so_far<T>(s: Seq<Individual<T>>, n: int, f: Option<&Individual<T>>) -> bool {
    f.is_some() == (n > 0) && (f.is_some() ==> is_best(s.subrange(0, n), *f.unwrap()))
}
pub open spec fn max_so_far<T>(s: Seq<Individual<T>>, n: int, f: Option<&Individual<T>>) -> bool {
    f.is_some() == (n > 0) && (f.is_some() ==> is_worst(s.subrange(0, n), *f.unwrap()))
}
pub proof fn lem_min_step<T>(s: Seq<Individual<T>>, n: int, f: Option<&Individual<T>>, g: Option<&Individual<T>>)
    requires 0 <= n < s.len(), min_so_far(s, n, f),
        g == Some(&s[n]) || g == f, f.is_none() ==> g == Some(&s[n]),
        g != f && f.is_some() ==> !worse(s[n].fitness, f.unwrap().fitness),
        g != Some(&s[n]) ==> !worse(f.unwrap().fitness, s[n].fitness),
    ensures min_so_far(s, n + 1, g)
{
    let a = s.subrange(0, n); let b = s.subrange(0, n + 1);
    assert(b =~= a.push(s[n]));
    assert(b[n] == s[n]);
    worse_asym(s[n].fitness, s[n].fitness);
    if f.is_some() {
        let w = choose|w: int| 0 <= w < n && a[w] == *f.unwrap();
        assert(b[w] == *f.unwrap());
        assert forall|q: int| 0 <= q < b.len() implies !worse(g.unwrap().fitness, (#[trigger] b[q]).fitness) by {
            if q < n { assert(a[q] == b[q]); if g != f { worse_negtrans(s[n].fitness, f.unwrap().fitness, s[q].fitness); } }
        }
    }
}
pub proof fn lem_max_step<T>(s: Seq<Individual<T>>, n: int, f: Option<&Individual<T>>, g: Option<&Individual<T>>)
    requires 0 <= n < s.len(), max_so_far(s, n, f),
        g == Some(&s[n]) || g == f, f.is_none() ==> g == Some(&s[n]),
        g != f && f.is_some() ==> !nworst(s[n].fitness, f.unwrap().fitness),
        g != Some(&s[n]) ==> !nworst(f.unwrap().fitness, s[n].fitness),
    ensures max_so_far(s, n + 1, g)
{
    let a = s.subrange(0, n); let b = s.subrange(0, n + 1);
    assert(b =~= a.push(s[n]));
    assert(b[n] == s[n]);
    if f.is_some() {
        let w = choose|w: int| 0 <= w < n && a[w] == *f.unwrap();
        assert(b[w] == *f.unwrap());
        assert forall|q: int| 0 <= q < b.len() implies !nworst(g.unwrap().fitness, (#[trigger] b[q]).fitness) by {
            if q < n { assert(a[q] == b[q]); if g != f { nworst_negtrans(s[n].fitness, f.unwrap().fitness, s[q].fitness); } }
        }
    }
}
pub open spec fn deref_all<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn views(s: Seq<Vec<usize>>) -> Seq<Seq<usize>> { Seq::new(s.len(), |i: int| s[i]@) }

@@fn genetic::<Individual as Clone>::clone
@@props C28
@@spec
    ensures r == *self
@@impl genetic::<Individual as Agent>
    open spec fn s_param(&self) -> T { self.chromosomes }
    open spec fn s_goal(&self) -> f64 { self.fitness }
@@fn genetic::<Individual as Agent>::get_goal
@@props C28 C02 C08
@@fn genetic::<Individual as Agent>::get_parameter
@@props C28
@@fn genetic::Individual::get_chromosomes
@@props C28 C13
@@spec
    ensures *r == self.chromosomes
@@fn genetic::Individual::get_fitness
@@props C28
@@spec
    ensures r == self.fitness
@@fn genetic::Individual::is_alive
@@props C28 C13
@@spec
    ensures r == self.alive
@@fn genetic::Individual::kill
@@props C03 C05
@@spec
    ensures *final(self) == (Individual { alive: false, ..*old(self) })
@@fn genetic::Population::update_best_worst_individuals
@@props C02 C04
@@spec
    ensures
        final(self).individuals == old(self).individuals,
        final(self).goal == old(self).goal,
        final(self).iteration == old(self).iteration,
        best_of(old(self).individuals@, old(self).best_individual, final(self).best_individual),
        worst_of(old(self).individuals@, old(self).worst_individual, final(self).worst_individual),
@@loop 0
        min_so_far(self.individuals@, __i0 as int, __f0),
@@at loop 0 begin
let ghost f_old = __f0;
@@at loop 0 end
proof { lem_min_step(self.individuals@, __j0 as int, f_old, __f0); }
@@at loop 0 after
proof {
    assert(self.individuals@.subrange(0, __n0 as int) =~= self.individuals@);
}
@@loop 1
        max_so_far(self.individuals@, __i1 as int, __f1),
@@at loop 1 begin
let ghost f_old = __f1;
@@at loop 1 end
proof { lem_max_step(self.individuals@, __j1 as int, f_old, __f1); }
@@at loop 1 after
proof {
    assert(self.individuals@.subrange(0, __n1 as int) =~= self.individuals@);
}
@@impl genetic::<Population as AgentsState>
    open spec fn s_agents(&self) -> Seq<Individual<T>> { self.individuals@ }
@@fn genetic::<Population as AgentsState>::get_agents
@@props C28
@@loop 0
        agents@.len() == __i0,
        forall|q: int| 0 <= q < __i0 ==> *#[trigger] agents@[q] == self.individuals@[q],
@@fn genetic::Population::new
@@props C12 C28
@@spec
    ensures r.individuals@.len() == 0, r.best_individual.is_none(), r.worst_individual.is_none(), r.iteration == 0, r.goal == goal
@@fn genetic::Population::reset
@@props C12
@@spec
    ensures final(self).individuals@.len() == 0, final(self).best_individual.is_none(), final(self).worst_individual.is_none(),
        final(self).iteration == 0, final(self).goal == old(self).goal
@@fn genetic::Population::push
@@props C01 C13
@@spec
    ensures
        final(self).goal.calls().len() == old(self).goal.calls().len() + 1,
        final(self).goal.calls().last().0 == chromosomes,
        final(self).goal.calls().drop_last() == old(self).goal.calls(),
        final(self).individuals@ == old(self).individuals@.push(Individual { chromosomes, fitness: final(self).goal.calls().last().1, alive: true }),
        final(self).best_individual == old(self).best_individual,
        final(self).worst_individual == old(self).worst_individual,
        final(self).iteration == old(self).iteration,
@@fn genetic::Population::append
@@props C01 C13
@@spec
    ensures
        appended(old(self).goal.calls(), final(self).goal.calls(), chromosomes_list@),
        final(self).individuals@ == old(self).individuals@ + born(final(self).goal.calls(), old(self).goal.calls().len() as int),
        final(self).best_individual == old(self).best_individual,
        final(self).worst_individual == old(self).worst_individual,
        final(self).iteration == old(self).iteration,
@@loop 0
        self.goal.calls().len() == old(self).goal.calls().len() + __i0,
        self.goal.calls().subrange(0, old(self).goal.calls().len() as int) == old(self).goal.calls(),
        forall|q: int| 0 <= q < __i0 ==> (#[trigger] self.goal.calls()[old(self).goal.calls().len() + q]).0 == __g0_0[q],
        self.individuals@ == old(self).individuals@ + born(self.goal.calls(), old(self).goal.calls().len() as int),
        self.best_individual == old(self).best_individual,
        self.worst_individual == old(self).worst_individual,
        self.iteration == old(self).iteration,
@@at loop 0 before
proof {
    assert(self.individuals@ =~= old(self).individuals@ + born(self.goal.calls(), old(self).goal.calls().len() as int));
}
@@at loop 0 begin
let ghost c_old = self.goal.calls();
@@at loop 0 end
proof {
    let c = self.goal.calls();
    let n0 = old(self).goal.calls().len() as int;
    assert(c == c_old.push(c.last()));
    assert(c.subrange(0, n0) =~= c_old.subrange(0, n0));
    assert(born(c, n0) =~= born(c_old, n0).push(Individual { chromosomes: c.last().0, fitness: c.last().1, alive: true }));
    assert(self.individuals@ =~= old(self).individuals@ + born(c, n0));
}
@@fn genetic::Population::iter
@@props C28
@@spec
    ensures ({ let rest = vstd::std_specs::iter::IteratorSpec::remaining(&r);
        rest.len() == self.individuals@.len() && forall|i: int| 0 <= i < rest.len() ==> *(#[trigger] rest[i]) == self.individuals@[i] })
@@fn genetic::Population::iter_mut
@@props C28
@@spec
    ensures ({ let rest = vstd::std_specs::iter::IteratorSpec::remaining(&r);
            rest.len() == old(self).individuals@.len()
                && (forall|i: int| 0 <= i < rest.len() ==> *(#[trigger] rest[i]) == old(self).individuals@[i])
                && final(self).individuals@.len() == rest.len()
                && (forall|i: int| 0 <= i < rest.len() ==> *final(#[trigger] rest[i]) == final(self).individuals@[i]) }),
        *final(self) == (Population { individuals: final(self).individuals, ..*old(self) })
@@fn genetic::Population::get_iteration
@@props C28
@@spec
    ensures r == self.iteration
@@fn genetic::Population::len_alive
@@props C28 C03
@@spec
    ensures r == alive_of(self.individuals@).len()
@@loop 0
        __f0 == alive_of(self.individuals@.subrange(0, __i0 as int)).len(),
        __f0 <= __i0,
@@at loop 0 before
proof { assert(self.individuals@.subrange(0, 0) =~= Seq::empty()); reveal(Seq::filter); }
@@at loop 0 end
proof {
    let s = self.individuals@;
    assert(s.subrange(0, __i0 as int).drop_last() =~= s.subrange(0, __j0 as int));
    reveal(Seq::filter);
}
@@at loop 0 after
proof { assert(self.individuals@.subrange(0, __n0 as int) =~= self.individuals@); }
@@fn genetic::Population::get_best
@@props C28
@@spec
    ensures *r == self.best_individual
@@fn genetic::Population::get_worst
@@props C28
@@spec
    ensures *r == self.worst_individual
@@fn genetic::Population::len
@@props C28
@@spec
    ensures r == self.individuals@.len()
@@fn genetic::Population::individuals_min_cmp
@@props C02
@@spec
    ensures (r == core::cmp::Ordering::Greater) ==> !worse(individual_2.fitness, individual_1.fitness),
        (r != core::cmp::Ordering::Greater) ==> !worse(individual_1.fitness, individual_2.fitness),
@@fn genetic::Population::individuals_max_cmp
@@props C02
@@spec
    ensures (r == core::cmp::Ordering::Greater) ==> !nworst(individual_1.fitness, individual_2.fitness),
        (r != core::cmp::Ordering::Greater) ==> !nworst(individual_2.fitness, individual_1.fitness),
@@fn genetic::Population::next_iteration
@@props C12
@@spec
    requires old(self).iteration < usize::MAX
    ensures *final(self) == (Population { iteration: (old(self).iteration + 1) as usize, ..*old(self) })
@@fn genetic::Population::remove_dead
@@props C13
@@spec
    ensures
        final(self).individuals@ == alive_of(old(self).individuals@),
        final(self).goal == old(self).goal,
        final(self).best_individual == old(self).best_individual,
        final(self).worst_individual == old(self).worst_individual,
        final(self).iteration == old(self).iteration,
@@loop 0
        __c0@ == alive_of(old(self).individuals@.subrange(0, __i0 as int)),
        self.goal == old(self).goal,
        self.best_individual == old(self).best_individual,
        self.worst_individual == old(self).worst_individual,
        self.iteration == old(self).iteration,
@@at loop 0 before
proof { assert(__g0_0.subrange(0, 0) =~= Seq::empty()); reveal(Seq::filter); }
@@at loop 0 end
proof {
    assert(__g0_0.subrange(0, __i0 as int).drop_last() =~= __g0_0.subrange(0, __j0 as int));
    reveal(Seq::filter);
}
@@at loop 0 after
proof { assert(__g0_0.subrange(0, __n0 as int) =~= __g0_0); }
@@fn genetic::<Population as Index>::index
@@props C28
@@spec
    requires index < self.individuals@.len()
    ensures *r == self.individuals@[index as int]
@@fn genetic::<Population as IndexMut>::index_mut
@@props C28
@@mode lift
@@spec
    requires index < old(self).individuals@.len()
    ensures *r == old(self).individuals@[index as int],
        *final(self) == (Population { individuals: final(self).individuals, ..*old(self) }),
        final(self).individuals@ == old(self).individuals@.update(index as int, *final(r))
@@impl genetic::<Population as AlgorithmState>
    open spec fn s_best(&self) -> Option<(T, f64)> { best_pair(self.best_individual) }
    open spec fn s_iter(&self) -> usize { self.iteration }
@@fn genetic::<Population as AlgorithmState>::get_best_solution
@@props C28 C12
@@fn genetic::<Population as AlgorithmState>::get_iteration
@@props C28 C12

@@module genetic
/// the goal was called exactly with `list`, in order, once each
pub open spec fn appended<T>(c0: Seq<(T, f64)>, c1: Seq<(T, f64)>, list: Seq<T>) -> bool {
    c1.len() == c0.len() + list.len() && c1.subrange(0, c0.len() as int) == c0
        && forall|i: int| 0 <= i < list.len() ==> (#[trigger] c1[c0.len() + i]).0 == list[i]
}

@@# ------------------------------------------------------------------ operators
@@trait genetic::Creator
    spec fn log(&self) -> Seq<Seq<T>>;
@@fn genetic::Creator::create
@@spec
    ensures final(self).log() == old(self).log().push(r@)
@@trait genetic::Cross
    /// every call: (parents, children)
    spec fn log(&self) -> Seq<(Seq<T>, Seq<T>)>;
@@fn genetic::Cross::cross
@@spec
    ensures final(self).log() == old(self).log().push((deref_all(parents@), r@))
@@trait genetic::Mutation
    spec fn log(&self) -> Seq<(T, T)>;
@@fn genetic::Mutation::mutation
@@spec
    ensures final(self).log() == old(self).log().push((*chromosomes, r))
@@trait genetic::PreBirth
    spec fn log(&self) -> Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>;
@@fn genetic::PreBirth::pre_birth
@@spec
    ensures final(self).log() == old(self).log().push((population.individuals@, old(new_chromosomes)@, final(new_chromosomes)@))
@@trait genetic::Selection
    spec fn log(&self) -> Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>;
@@fn genetic::Selection::kill
@@spec
    ensures final(self).log() == old(self).log().push((old(population).individuals@, final(population).individuals@)),
        drawn(old(population).individuals@, final(population).individuals@),
        final(population).goal == old(population).goal,
        final(population).best_individual == old(population).best_individual,
        final(population).worst_individual == old(population).worst_individual,
        final(population).iteration == old(population).iteration,
@@trait genetic::Pairing
    spec fn log(&self) -> Seq<(Seq<Individual<T>>, Seq<Seq<usize>>)>;
@@fn genetic::Pairing::get_pairs
@@spec
    ensures final(self).log() == old(self).log().push((population.individuals@, views(r@))),
        valid_pairs(r@, population.individuals@.len() as int)
@@module genetic
/// every index refers to a member
pub open spec fn valid_pairs(p: Seq<Vec<usize>>, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i]@.len() ==> 0 <= #[trigger] p[i]@[j] < n
}
