@@# ------------------------------------------------------------------ whole runs of the genetic algorithm
@@# Lemmas over the contracts of next_iterations / find_min: what holds for every run of any length.
@@module genetic
/// x was born from one of the goal calls `c[from ..]`: those chromosomes, that value
pub open spec fn born_in<T>(c: Seq<(T, f64)>, from: int, x: Individual<T>) -> bool {
    exists|k: int| from <= k < c.len() && (#[trigger] c[k]).0 == x.chromosomes && c[k].1 == x.fitness
}
pub open spec fn opt_born_in<T>(c: Seq<(T, f64)>, from: int, x: Option<Individual<T>>) -> bool { x.is_some() ==> born_in(c, from, x.unwrap()) }
/// C01: everything held was born from one of this run's goal calls and is alive
pub open spec fn honest<T>(v: GaView<T>, from: int) -> bool {
    &&& 0 <= from <= v.calls.len()
    &&& forall|i: int| 0 <= i < v.inds.len() ==> born_in(v.calls, from, #[trigger] v.inds[i]) && v.inds[i].alive
    &&& opt_born_in(v.calls, from, v.best)
    &&& opt_born_in(v.calls, from, v.worst)
}
/// C01: a reported solution is the argument and the value of one of this run's goal calls
pub open spec fn honest_pair<T>(c: Seq<(T, f64)>, from: int, r: Option<(T, f64)>) -> bool {
    r.is_some() ==> exists|k: int| from <= k < c.len() && #[trigger] c[k] == r.unwrap()
}
pub proof fn lem_born_in_ext<T>(c0: Seq<(T, f64)>, c1: Seq<(T, f64)>, from: int, x: Individual<T>)
    requires c0.len() <= c1.len(), c1.subrange(0, c0.len() as int) == c0, 0 <= from, born_in(c0, from, x)
    ensures born_in(c1, from, x)
{
    let k = choose|k: int| from <= k < c0.len() && (#[trigger] c0[k]).0 == x.chromosomes && c0[k].1 == x.fitness;
    assert(c1.subrange(0, c0.len() as int)[k] == c1[k]);
    assert(c1[k].0 == x.chromosomes);
}
pub proof fn lem_alive_of<T>(s: Seq<Individual<T>>)
    ensures forall|i: int| 0 <= i < alive_of(s).len() ==> (#[trigger] alive_of(s)[i]).alive && s.contains(alive_of(s)[i])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        lem_alive_of(t);
        assert forall|i: int| 0 <= i < alive_of(s).len() implies (#[trigger] alive_of(s)[i]).alive && s.contains(alive_of(s)[i]) by {
            if i < alive_of(t).len() {
                assert(alive_of(s)[i] == alive_of(t)[i]);
                let k = choose|k: int| 0 <= k < t.len() && t[k] == alive_of(t)[i];
                assert(s[k] == alive_of(s)[i]);
            } else { assert(s[s.len() - 1] == alive_of(s)[i]); }
        }
    }
}
/// the converse: a living individual is among the living
pub proof fn lem_alive_has<T>(s: Seq<Individual<T>>, k: int)
    requires 0 <= k < s.len(), s[k].alive
    ensures alive_of(s).contains(s[k])
    decreases s.len()
{
    reveal(Seq::filter);
    let t = s.drop_last(); let a = alive_of(s); let b = alive_of(t);
    if k == s.len() - 1 { assert(a[a.len() - 1] == s[k]); }
    else {
        lem_alive_has(t, k);
        let w = choose|w: int| 0 <= w < b.len() && b[w] == t[k];
        assert(a[w] == s[k]);
    }
}
pub proof fn lem_alive_some<T>(s: Seq<Individual<T>>)
    requires alive_of(s).len() > 0
    ensures exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).alive
{
    lem_alive_of(s);
    let x = alive_of(s)[0];
    let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
    assert(s[k].alive);
}
/// selections only pass on what was born
pub proof fn lem_sels_born<T>(s0: Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>>, s1: Seq<Seq<(Seq<Individual<T>>, Seq<Individual<T>>)>>, first: Seq<Individual<T>>, n: int, c: Seq<(T, f64)>, from: int)
    requires selected(s0, s1, first, s0.len() as int), 0 <= n <= s0.len(), forall|i: int| 0 <= i < first.len() ==> born_in(c, from, #[trigger] first[i])
    ensures forall|i: int| 0 <= i < after_sels(s1, first, n).len() ==> born_in(c, from, #[trigger] after_sels(s1, first, n)[i])
    decreases n
{
    if n > 0 {
        lem_sels_born(s0, s1, first, n - 1, c, from);
        let a = after_sels(s1, first, n - 1); let b = after_sels(s1, first, n);
        assert(s1[n - 1].last().0 == a);
        assert(drawn(a, b));
        assert forall|i: int| 0 <= i < b.len() implies born_in(c, from, #[trigger] b[i]) by {
            assert(taken_from(a, b[i]));
            let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).chromosomes == b[i].chromosomes && a[j].fitness == b[i].fitness;
            assert(born_in(c, from, a[j]));
            let k = choose|k: int| from <= k < c.len() && (#[trigger] c[k]).0 == a[j].chromosomes && c[k].1 == a[j].fitness;
            assert(c[k].0 == b[i].chromosomes);
        }
    }
}
pub proof fn lem_grown<T>(p: GaView<T>, q: GaView<T>, from: int)
    requires gen_ok(p, q), honest(p, from)
    ensures forall|i: int| 0 <= i < grown(p, q).len() ==> born_in(q.calls, from, #[trigger] grown(p, q)[i]) && grown(p, q)[i].alive
{
    let g = grown(p, q); let n = p.inds.len();
    assert forall|i: int| 0 <= i < g.len() implies born_in(q.calls, from, #[trigger] g[i]) && g[i].alive by {
        if i < n { assert(g[i] == p.inds[i]); lem_born_in_ext(p.calls, q.calls, from, p.inds[i]); }
        else {
            let k = p.calls.len() + (i - n);
            assert(g[i] == born(q.calls, p.calls.len() as int)[i - n]);
            assert(q.calls[k].0 == g[i].chromosomes && q.calls[k].1 == g[i].fitness);
        }
    }
}
/// C01: one generation
pub proof fn lem_honest_gen<T>(p: GaView<T>, q: GaView<T>, from: int)
    requires gen_ok(p, q), honest(p, from)
    ensures honest(q, from)
{
    let g = grown(p, q); let s = survivors(p, q);
    lem_grown(p, q, from);
    lem_sels_born(p.sels, q.sels, g, p.sels.len() as int, q.calls, from);
    lem_alive_of(s);
    assert forall|i: int| 0 <= i < q.inds.len() implies born_in(q.calls, from, #[trigger] q.inds[i]) && q.inds[i].alive by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == q.inds[i];
        assert(born_in(q.calls, from, s[k]));
    }
    if q.inds.len() == 0 {
        if p.best.is_some() { lem_born_in_ext(p.calls, q.calls, from, p.best.unwrap()); }
        if p.worst.is_some() { lem_born_in_ext(p.calls, q.calls, from, p.worst.unwrap()); }
    }
}
/// C01: every state of a run, from its start or from an earlier honest state
pub proof fn lem_honest_run<T>(t: Seq<GaView<T>>, from: int, n: int)
    requires gens_ok(t), 0 <= n < t.len(), honest(t[0], from)
    ensures honest(t[n], from)
    decreases n
{
    if n > 0 { lem_honest_run(t, from, n - 1); assert(gen_ok(t[n - 1], t[n])); lem_honest_gen(t[n - 1], t[n], from); }
}
pub proof fn lem_honest_start<T>(p: GaView<T>, s: GaView<T>)
    requires started(p, s)
    ensures honest(s, p.calls.len() as int)
{
    let from = p.calls.len() as int;
    assert forall|i: int| 0 <= i < s.inds.len() implies born_in(s.calls, from, #[trigger] s.inds[i]) && s.inds[i].alive by {
        assert(s.calls[from + i].0 == s.inds[i].chromosomes && s.calls[from + i].1 == s.inds[i].fitness);
    }
}
pub proof fn lem_honest_result<T>(p: GaView<T>, q: GaView<T>, t: Seq<GaView<T>>, r: Option<(T, f64)>, from: int)
    requires run_ok(p, q, t, r), honest(p, from)
    ensures honest(q, from), honest_pair(q.calls, from, r)
{
    assert(honest(t[0], from));
    lem_honest_run(t, from, t.len() - 1);
    if r.is_some() {
        let b = q.best.unwrap();
        let k = choose|k: int| from <= k < q.calls.len() && (#[trigger] q.calls[k]).0 == b.chromosomes && q.calls[k].1 == b.fitness;
        assert(q.calls[k] == r.unwrap());
    }
}
/// C01: goal calls are only ever added, so each individual is evaluated once: the calls of generation n are its newborn
pub proof fn lem_calls_grow<T>(t: Seq<GaView<T>>, i: int, n: int)
    requires gens_ok(t), 0 <= i <= n < t.len()
    ensures t[i].calls.len() <= t[n].calls.len(), t[n].calls.subrange(0, t[i].calls.len() as int) == t[i].calls
    decreases n
{
    if i < n {
        lem_calls_grow(t, i, n - 1);
        assert(gen_ok(t[n - 1], t[n]));
        let a = t[i].calls; let b = t[n - 1].calls; let c = t[n].calls;
        assert(c.subrange(0, a.len() as int) =~= a) by {
            assert forall|k: int| 0 <= k < a.len() implies c[k] == a[k] by { assert(c.subrange(0, b.len() as int)[k] == c[k]); assert(b.subrange(0, a.len() as int)[k] == b[k]); }
        }
    } else { assert(t[n].calls.subrange(0, t[i].calls.len() as int) =~= t[i].calls); }
}

@@# ---- C12: shape of a run
@@module genetic
pub open spec fn gens<T>(t: Seq<GaView<T>>) -> int { t.len() - 1 }
/// C12: the iteration number counts the generations; the stop checker is asked once per generation and once more,
/// is shown the state before the generation, says no each time but the last
pub proof fn lem_run_asks<T>(t: Seq<GaView<T>>, n: int)
    requires gens_ok(t), 0 <= n < t.len()
    ensures
        t[n].iter == t[0].iter + n,
        t[n].asks.len() == t[0].asks.len() + n,
        t[n].asks.subrange(0, t[0].asks.len() as int) == t[0].asks,
        forall|k: int| 0 <= k < n ==> #[trigger] t[n].asks[t[0].asks.len() + k] == (Ask { iter: t[k].iter, best: best_pair(t[k].best), ans: false }),
    decreases n
{
    if n > 0 {
        lem_run_asks(t, n - 1);
        assert(gen_ok(t[n - 1], t[n]));
        assert(t[n].asks.subrange(0, t[0].asks.len() as int) =~= t[n - 1].asks.subrange(0, t[0].asks.len() as int));
        assert forall|k: int| 0 <= k < n implies #[trigger] t[n].asks[t[0].asks.len() + k] == (Ask { iter: t[k].iter, best: best_pair(t[k].best), ans: false }) by {
            if k < n - 1 { assert(t[n - 1].asks[t[0].asks.len() + k] == t[n].asks[t[0].asks.len() + k]); }
        }
    } else { assert(t[n].asks.subrange(0, t[0].asks.len() as int) =~= t[0].asks); }
}
/// C12: what a logger has been told: one `Next` per generation, with that generation's number and best
pub proof fn lem_run_logs<T>(t: Seq<GaView<T>>, l: int, n: int)
    requires gens_ok(t), 0 <= n < t.len(), 0 <= l < t[0].logs.len()
    ensures
        t[n].logs.len() == t[0].logs.len(),
        t[n].logs[l].len() == t[0].logs[l].len() + n,
        t[n].logs[l].subrange(0, t[0].logs[l].len() as int) == t[0].logs[l],
        forall|k: int| 0 <= k < n ==> #[trigger] t[n].logs[l][t[0].logs[l].len() + k] == (Ev { kind: EvKind::Next, iter: t[k + 1].iter, best: best_pair(t[k + 1].best) }),
    decreases n
{
    if n > 0 {
        lem_run_logs(t, l, n - 1);
        assert(gen_ok(t[n - 1], t[n]));
        assert(t[n].logs[l] == t[n - 1].logs[l].push(Ev { kind: EvKind::Next, iter: t[n].iter, best: best_pair(t[n].best) }));
        assert(t[n].logs[l].subrange(0, t[0].logs[l].len() as int) =~= t[n - 1].logs[l].subrange(0, t[0].logs[l].len() as int));
        assert forall|k: int| 0 <= k < n implies #[trigger] t[n].logs[l][t[0].logs[l].len() + k] == (Ev { kind: EvKind::Next, iter: t[k + 1].iter, best: best_pair(t[k + 1].best) }) by {
            if k < n - 1 { assert(t[n - 1].logs[l][t[0].logs[l].len() + k] == t[n].logs[l][t[0].logs[l].len() + k]); }
        }
    } else { assert(t[n].logs[l].subrange(0, t[0].logs[l].len() as int) =~= t[0].logs[l]); }
}
/// C12: the whole of next_iterations: n generations, n + 1 questions, Resume, n times Next, Finish
pub proof fn lem_run_shape<T>(p: GaView<T>, q: GaView<T>, t: Seq<GaView<T>>, r: Option<(T, f64)>)
    requires run_ok(p, q, t, r)
    ensures
        q.iter == p.iter + gens(t),
        q.asks.len() == p.asks.len() + gens(t) + 1,
        q.asks.last().ans,
        forall|k: int| 0 <= k < gens(t) ==> !(#[trigger] q.asks[p.asks.len() + k]).ans && q.asks[p.asks.len() + k].iter == p.iter + k,
        forall|l: int| 0 <= l < p.logs.len() ==> {
            &&& (#[trigger] q.logs[l]).len() == p.logs[l].len() + gens(t) + 2
            &&& q.logs[l][p.logs[l].len() as int].kind == EvKind::Resume
            &&& q.logs[l].last().kind == EvKind::Finish && q.logs[l].last().iter == q.iter && q.logs[l].last().best == r
        },
        forall|l: int, k: int| 0 <= l < p.logs.len() && 0 <= k < gens(t) ==> (#[trigger] q.logs[l][p.logs[l].len() + 1 + k]).kind == EvKind::Next && q.logs[l][p.logs[l].len() + 1 + k].iter == p.iter + k + 1,
{
    let n = gens(t);
    lem_run_asks(t, n);
    assert forall|k: int| 0 <= k < n implies !(#[trigger] q.asks[p.asks.len() + k]).ans && q.asks[p.asks.len() + k].iter == p.iter + k by {
        assert(q.asks[p.asks.len() + k] == t[n].asks[t[0].asks.len() + k]);
        lem_run_asks(t, k);
    }
    assert forall|l: int| 0 <= l < p.logs.len() implies {
            &&& (#[trigger] q.logs[l]).len() == p.logs[l].len() + n + 2
            &&& q.logs[l][p.logs[l].len() as int].kind == EvKind::Resume
            &&& q.logs[l].last().kind == EvKind::Finish && q.logs[l].last().iter == q.iter && q.logs[l].last().best == r
        } by {
        lem_run_logs(t, l, n);
        assert(t[0].logs[l] == p.logs[l].push(Ev { kind: EvKind::Resume, iter: p.iter, best: best_pair(p.best) }));
        assert(q.logs[l] == t[n].logs[l].push(Ev { kind: EvKind::Finish, iter: q.iter, best: best_pair(q.best) }));
        assert(t[n].logs[l].subrange(0, t[0].logs[l].len() as int)[p.logs[l].len() as int] == t[0].logs[l][p.logs[l].len() as int]);
    }
    assert forall|l: int, k: int| 0 <= l < p.logs.len() && 0 <= k < n implies (#[trigger] q.logs[l][p.logs[l].len() + 1 + k]).kind == EvKind::Next && q.logs[l][p.logs[l].len() + 1 + k].iter == p.iter + k + 1 by {
        lem_run_logs(t, l, n);
        lem_run_asks(t, k + 1);
        assert(t[0].logs[l] == p.logs[l].push(Ev { kind: EvKind::Resume, iter: p.iter, best: best_pair(p.best) }));
        assert(q.logs[l] == t[n].logs[l].push(Ev { kind: EvKind::Finish, iter: q.iter, best: best_pair(q.best) }));
        assert(q.logs[l][p.logs[l].len() + 1 + k] == t[n].logs[l][t[0].logs[l].len() + k]);
    }
}

@@# ---- C04: elitism under truncation selection
@@module genetic
use crate::genetic::selection::{limit_ok, killed_unless, finite_fitness, nalive, trunc_ok, spares_worse};
pub open spec fn some_finite<T>(c: Seq<(T, f64)>, from: int) -> bool { exists|k: int| from <= k < c.len() && ffin((#[trigger] c[k]).1) }
pub open spec fn no_minus_inf<T>(c: Seq<(T, f64)>, from: int) -> bool { forall|k: int| from <= k < c.len() ==> !minus_inf((#[trigger] c[k]).1) }
pub open spec fn minus_inf(x: f64) -> bool { x.ieee_is_infinite() && x.ieee_lt(0.0) }
/// nothing evaluated is better than x
pub open spec fn lowest<T>(c: Seq<(T, f64)>, from: int, x: f64) -> bool { forall|k: int| from <= k < c.len() ==> !worse(x, (#[trigger] c[k]).1) }
/// x is the smallest non-NaN value evaluated
pub open spec fn smallest<T>(c: Seq<(T, f64)>, from: int, x: f64) -> bool {
    !nan(x) && (exists|k: int| from <= k < c.len() && (#[trigger] c[k]).1 == x) && forall|k: int| from <= k < c.len() ==> !(#[trigger] c[k]).1.ieee_lt(x)
}
/// this generation selected by a limit of at least one, maybe after killing the non-finite ones
/// (the contracts of LimitPopulation::kill and KillFitnessNaN::kill)
pub open spec fn elite_sels<T>(p: GaView<T>, q: GaView<T>) -> bool {
    ||| q.sels.len() == 1 && by_limit(q.sels[0].last())
    ||| q.sels.len() == 2 && by_nan(q.sels[0].last()) && by_limit(q.sels[1].last())
}
pub open spec fn by_limit<T>(s: (Seq<Individual<T>>, Seq<Individual<T>>)) -> bool { exists|limit: int| limit >= 1 && #[trigger] limit_ok(s.0, s.1, limit) }
pub open spec fn by_nan<T>(s: (Seq<Individual<T>>, Seq<Individual<T>>)) -> bool { killed_unless(s.0, s.1, finite_fitness::<T>()) }
pub open spec fn all_elite<T>(t: Seq<GaView<T>>) -> bool { forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() ==> elite_sels(#[trigger] t[i], #[trigger] t[j]) }
/// invariant: once something finite is known, a finite member is at least as good as everything evaluated
pub open spec fn elite_inv<T>(v: GaView<T>, from: int) -> bool {
    honest(v, from) && (some_finite(v.calls, from) && no_minus_inf(v.calls, from) ==> exists|i: int| 0 <= i < v.inds.len() && elite_at(v, from, i))
}
pub open spec fn elite_at<T>(v: GaView<T>, from: int, i: int) -> bool { ffin(v.inds[i].fitness) && lowest(v.calls, from, v.inds[i].fitness) }
pub proof fn lem_fin_not_inf(x: f64) ensures !nan(x) && !ffin(x) && !minus_inf(x) ==> forall|y: f64| ffin(y) ==> #[trigger] worse(x, y), !nan(x) && !minus_inf(x) ==> forall|y: f64| ffin(y) && !#[trigger] worse(x, y) ==> ffin(x)
{
    assert forall|y: f64| !nan(x) && !ffin(x) && !minus_inf(x) && ffin(y) implies #[trigger] worse(x, y) by {
        assert(x.ieee_is_infinite() && !x.ieee_lt(0.0f64) && !y.ieee_is_infinite() && !y.ieee_is_nan() ==> y.ieee_lt(x)) by (bit_vector);
    }
}
pub proof fn lem_best_finite<T>(c: Seq<(T, f64)>, from: int, k: int, x: f64)
    requires from <= k < c.len(), ffin(c[k].1), lowest(c, from, x), !minus_inf(x)
    ensures ffin(x)
{
    lem_fin_not_inf(x);
    assert(!worse(x, c[k].1));
}
/// the limit keeps somebody at least as good as member g
pub proof fn lem_limit_keeps<T>(s: (Seq<Individual<T>>, Seq<Individual<T>>), g: int) -> (j: int)
    requires by_limit(s), 0 <= g < s.0.len(), s.0[g].alive
    ensures 0 <= j < s.1.len(), s.1[j].alive, s.0[j].chromosomes == s.1[j].chromosomes, s.0[j].fitness == s.1[j].fitness, !worse(s.1[j].fitness, s.0[g].fitness), s.0.len() == s.1.len()
{
    let limit = choose|limit: int| limit >= 1 && #[trigger] limit_ok(s.0, s.1, limit);
    let a = s.0; let b = s.1;
    lem_alive_has(a, g);
    assert(nalive(a) >= 1);
    assert(nalive(b) >= 1);
    worse_asym(a[g].fitness, a[g].fitness);
    assert(a[g].chromosomes == b[g].chromosomes);
    if b[g].alive { g }
    else {
        lem_alive_some(b);
        let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).alive;
        assert(a[j].chromosomes == b[j].chromosomes);
        assert(!worse(a[j].fitness, a[g].fitness));
        j
    }
}
/// a finite member of the grown population at least as good as everything evaluated so far
pub proof fn lem_elite_grown<T>(p: GaView<T>, q: GaView<T>, from: int) -> (g: int)
    requires gen_ok(p, q), elite_inv(p, from), some_finite(q.calls, from), no_minus_inf(q.calls, from)
    ensures 0 <= g < grown(p, q).len(), ffin(grown(p, q)[g].fitness), lowest(q.calls, from, grown(p, q)[g].fitness)
{
    let n = p.calls.len() as int; let gr = grown(p, q);
    assert forall|k: int| from <= k < n implies #[trigger] p.calls[k] == q.calls[k] by { assert(q.calls.subrange(0, n)[k] == q.calls[k]); }
    assert(no_minus_inf(p.calls, from)) by { assert forall|k: int| from <= k < p.calls.len() implies !minus_inf((#[trigger] p.calls[k]).1) by { assert(p.calls[k] == q.calls[k]); } }
    let kf = choose|k: int| from <= k < q.calls.len() && ffin((#[trigger] q.calls[k]).1);
    // the best of the new ones, compared with the member at hand
    if some_finite(p.calls, from) {
        let i = choose|i: int| 0 <= i < p.inds.len() && elite_at(p, from, i);
        assert(gr[i] == p.inds[i]);
        assert forall|k: int| from <= k < n implies !worse(gr[i].fitness, (#[trigger] q.calls[k]).1) by { assert(p.calls[k] == q.calls[k]); }
        let g = lem_elite_scan(p, q, from, i, q.calls.len() as int);
        g
    } else {
        // all earlier values are NaN or +inf, hence worse than the finite new one
        assert(kf >= n) by { if kf < n { assert(ffin(p.calls[kf].1)); } }
        let i = p.inds.len() + (kf - n);
        assert(gr[i] == born(q.calls, n)[kf - n]);
        assert forall|k: int| from <= k < n implies !worse(gr[i].fitness, (#[trigger] q.calls[k]).1) by {
            let x = q.calls[k].1; let y = gr[i].fitness;
            assert(p.calls[k] == q.calls[k]);
            assert(!ffin(p.calls[k].1));
            assert(!minus_inf(x));
            lem_fin_not_inf(x);
            if !nan(x) { assert(worse(x, y)); }
            worse_asym(x, y);
        }
        let g = lem_elite_scan(p, q, from, i, q.calls.len() as int);
        g
    }
}
/// best of member i and of the newborn among the calls below m
pub proof fn lem_elite_scan<T>(p: GaView<T>, q: GaView<T>, from: int, i: int, m: int) -> (g: int)
    requires gen_ok(p, q), 0 <= from <= p.calls.len(), 0 <= i < grown(p, q).len(), ffin(grown(p, q)[i].fitness), no_minus_inf(q.calls, from),
        forall|k: int| from <= k < p.calls.len() ==> !worse(grown(p, q)[i].fitness, (#[trigger] q.calls[k]).1),
        p.calls.len() <= m <= q.calls.len(),
    ensures 0 <= g < grown(p, q).len(), ffin(grown(p, q)[g].fitness), forall|k: int| from <= k < m ==> !worse(grown(p, q)[g].fitness, (#[trigger] q.calls[k]).1)
    decreases m
{
    let gr = grown(p, q); let n = p.calls.len() as int;
    if m == n { i } else {
        let g = lem_elite_scan(p, q, from, i, m - 1);
        let h = p.inds.len() + (m - 1 - n);
        assert(gr[h] == born(q.calls, n)[m - 1 - n]);
        let x = gr[g].fitness; let y = gr[h].fitness;
        assert(y == q.calls[m - 1].1);
        worse_asym(x, y); worse_asym(y, y);
        if worse(x, y) {
            assert forall|k: int| from <= k < m implies !worse(y, (#[trigger] q.calls[k]).1) by {
                if k < m - 1 { worse_negtrans(y, x, q.calls[k].1); }
            }
            lem_fin_not_inf(y);
            assert(!minus_inf(q.calls[m - 1].1));
            assert(!nan(y));
            assert(ffin(x) && !worse(y, x));
            h
        } else { g }
    }
}
pub proof fn lem_elite_gen<T>(p: GaView<T>, q: GaView<T>, from: int)
    requires gen_ok(p, q), elite_sels(p, q), elite_inv(p, from)
    ensures elite_inv(q, from)
{
    lem_honest_gen(p, q, from);
    if some_finite(q.calls, from) && no_minus_inf(q.calls, from) {
        let gr = grown(p, q);
        let g = lem_elite_grown(p, q, from);
        lem_grown(p, q, from);
        let last = q.sels[q.sels.len() - 1].last();
        assert(after_sels(q.sels, gr, q.sels.len() as int) == last.1);
        if q.sels.len() == 2 {
            let s0 = q.sels[0].last();
            assert(s0.0 == after_sels(q.sels, gr, 0));
            assert(q.sels[1].last().0 == after_sels(q.sels, gr, 1));
            assert(s0.1[g] == (Individual { alive: s0.0[g].alive && finite_fitness::<T>()(s0.0[g]), ..s0.0[g] }));
        } else {
            assert(last.0 == after_sels(q.sels, gr, 0));
        }
        assert(last.0[g].alive && last.0[g].fitness == gr[g].fitness);
        let j = lem_limit_keeps(last, g);
        lem_sels_born(p.sels, q.sels, gr, p.sels.len() as int, q.calls, from);
        let x = last.1[j].fitness;
        assert(lowest(q.calls, from, x)) by {
            assert forall|k: int| from <= k < q.calls.len() implies !worse(x, (#[trigger] q.calls[k]).1) by { worse_negtrans(x, gr[g].fitness, q.calls[k].1); }
        }
        assert(born_in(q.calls, from, last.1[j]));
        let kf = choose|k: int| from <= k < q.calls.len() && ffin((#[trigger] q.calls[k]).1);
        lem_best_finite(q.calls, from, kf, x);
        lem_alive_has(last.1, j);
        let w = choose|w: int| 0 <= w < q.inds.len() && q.inds[w] == last.1[j];
        assert(elite_at(q, from, w));
    }
}
/// C04: the best reported after a generation is the smallest non-NaN value evaluated in the run so far
pub proof fn lem_elite_best<T>(p: GaView<T>, q: GaView<T>, from: int)
    requires gen_ok(p, q), elite_sels(p, q), elite_inv(p, from), some_finite(q.calls, from), no_minus_inf(q.calls, from)
    ensures q.best.is_some(), smallest(q.calls, from, q.best.unwrap().fitness)
{
    lem_elite_gen(p, q, from);
    let i = choose|i: int| 0 <= i < q.inds.len() && elite_at(q, from, i);
    assert(best_of(q.inds, p.best, q.best));
    let b = q.best.unwrap();
    assert(is_best(q.inds, b));
    assert(!worse(b.fitness, q.inds[i].fitness));
    assert(born_in(q.calls, from, b));
    let x = b.fitness;
    assert forall|k: int| from <= k < q.calls.len() implies !(#[trigger] q.calls[k]).1.ieee_lt(x) by { worse_negtrans(x, q.inds[i].fitness, q.calls[k].1); }
}
pub proof fn lem_elite_run<T>(t: Seq<GaView<T>>, from: int, n: int)
    requires gens_ok(t), all_elite(t), 0 <= n < t.len(), elite_inv(t[0], from)
    ensures elite_inv(t[n], from),
        n > 0 && some_finite(t[n].calls, from) && no_minus_inf(t[n].calls, from) ==> t[n].best.is_some() && smallest(t[n].calls, from, t[n].best.unwrap().fitness)
    decreases n
{
    if n > 0 {
        lem_elite_run(t, from, n - 1);
        assert(gen_ok(t[n - 1], t[n]) && elite_sels(t[n - 1], t[n]));
        lem_elite_gen(t[n - 1], t[n], from);
        if some_finite(t[n].calls, from) && no_minus_inf(t[n].calls, from) { lem_elite_best(t[n - 1], t[n], from); }
    }
}
/// the population a run starts with contains everything evaluated
pub proof fn lem_elite_start<T>(p: GaView<T>, s: GaView<T>)
    requires started(p, s)
    ensures elite_inv(s, p.calls.len() as int)
{
    let from = p.calls.len() as int;
    lem_honest_start(p, s);
    if some_finite(s.calls, from) && no_minus_inf(s.calls, from) {
        let kf = choose|k: int| from <= k < s.calls.len() && ffin((#[trigger] s.calls[k]).1);
        let i = lem_start_scan(p, s, kf, s.calls.len() as int);
        assert(elite_at(s, from, i));
    }
}
pub proof fn lem_start_scan<T>(p: GaView<T>, s: GaView<T>, kf: int, m: int) -> (i: int)
    requires started(p, s), p.calls.len() <= kf < s.calls.len(), ffin(s.calls[kf].1), no_minus_inf(s.calls, p.calls.len() as int), p.calls.len() <= m <= s.calls.len()
    ensures 0 <= i < s.inds.len(), ffin(s.inds[i].fitness), forall|k: int| p.calls.len() <= k < m ==> !worse(s.inds[i].fitness, (#[trigger] s.calls[k]).1)
    decreases m
{
    let from = p.calls.len() as int;
    if m == from { assert(s.inds[kf - from].fitness == s.calls[kf].1); kf - from } else {
        let i = lem_start_scan(p, s, kf, m - 1);
        let h = m - 1 - from;
        let x = s.inds[i].fitness; let y = s.inds[h].fitness;
        assert(y == s.calls[m - 1].1);
        worse_asym(x, y); worse_asym(y, y);
        if worse(x, y) {
            assert forall|k: int| from <= k < m implies !worse(y, (#[trigger] s.calls[k]).1) by {
                if k < m - 1 { worse_negtrans(y, x, s.calls[k].1); }
            }
            lem_fin_not_inf(y);
            assert(!minus_inf(s.calls[m - 1].1));
            assert(ffin(x) && !worse(y, x));
            h
        } else { i }
    }
}
/// C04: a fresh run, every generation of it, and what it returns
pub proof fn lem_elitism<T>(p: GaView<T>, s: GaView<T>, q: GaView<T>, t: Seq<GaView<T>>, r: Option<(T, f64)>)
    requires started(p, s), run_ok(s, q, t, r), all_elite(t)
    ensures
        forall|n: int| 0 < n < t.len() && some_finite(t[n].calls, p.calls.len() as int) && no_minus_inf(t[n].calls, p.calls.len() as int)
            ==> (#[trigger] t[n]).best.is_some() && smallest(t[n].calls, p.calls.len() as int, t[n].best.unwrap().fitness),
        elite_inv(q, p.calls.len() as int),
{
    let from = p.calls.len() as int;
    lem_elite_start(p, s);
    assert(elite_inv(t[0], from)) by { if some_finite(s.calls, from) && no_minus_inf(s.calls, from) { let i = choose|i: int| 0 <= i < s.inds.len() && elite_at(s, from, i); assert(elite_at(t[0], from, i)); } }
    assert forall|n: int| 0 < n < t.len() && some_finite(t[n].calls, from) && no_minus_inf(t[n].calls, from) implies (#[trigger] t[n]).best.is_some() && smallest(t[n].calls, from, t[n].best.unwrap().fitness) by { lem_elite_run(t, from, n); }
    lem_elite_run(t, from, t.len() - 1);
    lem_elite_same(t.last(), q, from);
}
pub proof fn lem_elite_same<T>(a: GaView<T>, b: GaView<T>, from: int)
    requires elite_inv(a, from), b.inds == a.inds, b.best == a.best, b.worst == a.worst, b.calls == a.calls
    ensures elite_inv(b, from)
{
    if some_finite(a.calls, from) && no_minus_inf(a.calls, from) { let i = choose|i: int| 0 <= i < a.inds.len() && elite_at(a, from, i); assert(elite_at(b, from, i)); }
}
/// C04: a continuation of such a run
pub proof fn lem_elitism_continued<T>(p: GaView<T>, q: GaView<T>, t: Seq<GaView<T>>, r: Option<(T, f64)>, from: int)
    requires elite_inv(p, from), run_ok(p, q, t, r), all_elite(t)
    ensures
        forall|n: int| 0 < n < t.len() && some_finite(t[n].calls, from) && no_minus_inf(t[n].calls, from)
            ==> (#[trigger] t[n]).best.is_some() && smallest(t[n].calls, from, t[n].best.unwrap().fitness),
        elite_inv(q, from),
{
    lem_elite_same(p, t[0], from);
    assert forall|n: int| 0 < n < t.len() && some_finite(t[n].calls, from) && no_minus_inf(t[n].calls, from) implies (#[trigger] t[n]).best.is_some() && smallest(t[n].calls, from, t[n].best.unwrap().fitness) by { lem_elite_run(t, from, n); }
    lem_elite_run(t, from, t.len() - 1);
    lem_elite_same(t.last(), q, from);
}
/// C04: the reported best never gets worse (more values can only lower the smallest)
pub proof fn lem_smallest_monotone<T>(c0: Seq<(T, f64)>, c1: Seq<(T, f64)>, from: int, x: f64, y: f64)
    requires 0 <= from <= c0.len() <= c1.len(), c1.subrange(0, c0.len() as int) == c0, smallest(c0, from, x), smallest(c1, from, y)
    ensures !x.ieee_lt(y)
{
    let k = choose|k: int| from <= k < c0.len() && (#[trigger] c0[k]).1 == x;
    assert(c1.subrange(0, c0.len() as int)[k] == c1[k]);
}

@@# ---- C06: what gets evaluated under an interval filter
@@module genetic
/// the list the filter left is what ends up evaluated: filter b lets only `ok` through, later filters add nothing
pub open spec fn only_removes<T>(s: (Seq<Individual<T>>, Seq<T>, Seq<T>)) -> bool { forall|i: int| 0 <= i < s.2.len() ==> s.1.contains(#[trigger] s.2[i]) }
pub open spec fn all_ok<T>(s: Seq<T>, ok: spec_fn(T) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> ok(#[trigger] s[i]) }
pub proof fn lem_filters_ok<T>(b0: Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>>, b1: Seq<Seq<(Seq<Individual<T>>, Seq<T>, Seq<T>)>>, inds: Seq<Individual<T>>, first: Seq<T>, b: int, n: int, ok: spec_fn(T) -> bool)
    requires filtered(b0, b1, inds, first, b0.len() as int), 0 <= b < n <= b0.len(), all_ok(b1[b].last().2, ok),
        forall|j: int| b < j < b0.len() ==> only_removes((#[trigger] b1[j]).last()),
    ensures all_ok(after_filters(b1, first, n), ok)
    decreases n
{
    if n > b + 1 {
        lem_filters_ok(b0, b1, inds, first, b, n - 1, ok);
        assert(b1[n - 1].last().1 == after_filters(b1, first, n - 1));
        assert(only_removes(b1[n - 1].last()));
    }
}
/// C06: with such a filter every offspring evaluated in a generation passed it
pub proof fn lem_evaluated_ok<T>(p: GaView<T>, q: GaView<T>, b: int, ok: spec_fn(T) -> bool)
    requires gen_ok(p, q), 0 <= b < p.births.len(), all_ok(q.births[b].last().2, ok), forall|j: int| b < j < p.births.len() ==> only_removes((#[trigger] q.births[j]).last())
    ensures forall|k: int| p.calls.len() <= k < q.calls.len() ==> ok((#[trigger] q.calls[k]).0)
{
    lem_filters_ok(p.births, q.births, p.inds, mutants(q.mutation, p.mutation.len() as int), b, p.births.len() as int, ok);
    assert forall|k: int| p.calls.len() <= k < q.calls.len() implies ok((#[trigger] q.calls[k]).0) by {
        assert(q.calls[p.calls.len() + (k - p.calls.len())].0 == newborn(p, q)[k - p.calls.len()]);
    }
}

@@# ------------------------------------------------------------------ whole runs of the particle swarm
@@module particleswarm
/// one of the goal calls `c[from ..]` was made at x and returned v
pub open spec fn visited<T>(c: Seq<(Vec<T>, f64)>, from: int, x: Vec<T>, v: f64) -> bool { exists|k: int| from <= k < c.len() && #[trigger] c[k] == (x, v) }
pub proof fn lem_visited_ext<T>(c0: Seq<(Vec<T>, f64)>, c1: Seq<(Vec<T>, f64)>, from: int, x: Vec<T>, v: f64)
    requires visited(c0, from, x, v), 0 <= from, c0.len() <= c1.len(), c1.subrange(0, c0.len() as int) == c0
    ensures visited(c1, from, x, v)
{
    let k = choose|k: int| from <= k < c0.len() && #[trigger] c0[k] == (x, v);
    assert(c1.subrange(0, c0.len() as int)[k] == c1[k]);
}
pub open spec fn none_better<T>(c: Seq<(Vec<T>, f64)>, from: int, v: f64) -> bool { forall|k: int| from <= k < c.len() ==> !fafter(v, (#[trigger] c[k]).1) }
pub open spec fn none_worse<T>(c: Seq<(Vec<T>, f64)>, from: int, v: f64) -> bool { forall|k: int| from <= k < c.len() ==> !fafter((#[trigger] c[k]).1, v) }
/// C14: the records are visited positions with the values found there, and nothing evaluated in this run is better (worse)
pub open spec fn records_ok<T>(v: PsoView<T>, from: int) -> bool {
    &&& 0 <= from <= v.calls.len()
    &&& v.best.is_some() == (v.parts.len() > 0)
    &&& v.worst.is_some() == (v.parts.len() > 0)
    &&& v.parts.len() == 0 ==> v.calls.len() == from
    &&& v.best.is_some() ==> visited(v.calls, from, v.best.unwrap().coordinates, v.best.unwrap().value) && none_better(v.calls, from, v.best.unwrap().value)
    &&& v.worst.is_some() ==> visited(v.calls, from, v.worst.unwrap().coordinates, v.worst.unwrap().value) && none_worse(v.calls, from, v.worst.unwrap().value)
}
/// C16: the state after the first m particles moved: those took the position and the value of their goal call, the others are untouched
pub proof fn lem_sweep<T: Float>(s: Seq<PsoView<T>>, n: int, m: int)
    requires sweep(s, n), 0 <= m <= n, n == s[0].parts.len()
    ensures
        s[m].parts.len() == n,
        s[m].calls.len() == s[0].calls.len() + m,
        s[m].calls.subrange(0, s[0].calls.len() as int) == s[0].calls,
        s[m].vc.len() == s[0].vc.len() + m,
        forall|i: int| 0 <= i < m ==> stepped(s[0], s[m], i),
        forall|i: int| m <= i < n ==> #[trigger] s[m].parts[i] == s[0].parts[i],
        s[m].best == s[0].best, s[m].worst == s[0].worst, s[m].iter == s[0].iter, s[m].logs == s[0].logs, s[m].asks == s[0].asks,
    decreases m
{
    let c0 = s[0].calls;
    if m == 0 { assert(c0.subrange(0, c0.len() as int) =~= c0); }
    else {
        lem_sweep(s, n, m - 1);
        let a = s[m - 1]; let b = s[m];
        assert(part_step(a, b, m - 1));
        assert(b.calls.subrange(0, c0.len() as int) =~= a.calls.subrange(0, c0.len() as int));
        let x0 = target(b);
        lem_chain_len(a.pm, b.pm, x0, a.pm.len() as int);
        lem_chain_len(a.pvc, b.pvc, b.vc.last().out, a.pvc.len() as int);
        assert forall|i: int| 0 <= i < m implies stepped(s[0], b, i) by {
            if i < m - 1 {
                assert(stepped(s[0], a, i));
                assert(b.calls[c0.len() + i] == a.calls[c0.len() + i]);
                assert(b.parts[i] == a.parts[i]);
            } else {
                assert(a.parts[i] == s[0].parts[i]);
                assert(b.calls[c0.len() + i] == b.calls.last());
            }
        }
    }
}
/// C15 C16: particle i moved to the position of its own goal call, took its value, kept its dimension
pub open spec fn stepped<T>(a: PsoView<T>, b: PsoView<T>, i: int) -> bool {
    let c = b.calls[a.calls.len() + i]; let p = a.parts[i]; let v = b.parts[i].velocity;
    &&& b.parts[i] == moved(Particle { velocity: v, ..p }, c.0, c.1)
    &&& c.0@.len() == p.coordinates@.len()
    &&& v@.len() == p.coordinates@.len()
}
/// C16: an iteration keeps the swarm size, evaluates once per particle and moves every particle once
pub proof fn lem_iter<T: Float>(p: PsoView<T>, q: PsoView<T>)
    requires iter_ok(p, q)
    ensures
        q.parts.len() == p.parts.len(),
        q.calls.len() == p.calls.len() + p.parts.len(),
        q.calls.subrange(0, p.calls.len() as int) == p.calls,
        forall|i: int| 0 <= i < p.parts.len() ==> #[trigger] stepped(p, q, i),
        pbest_upd(q.parts, p.best, q.best), pworst_upd(q.parts, p.worst, q.worst),
        q.iter == p.iter + 1,
        ptold(p.logs, q.logs, EvKind::Next, q.iter, q.best),
        q.asks == p.asks.push(Ask { iter: p.iter, best: pair_of(p.best), ans: false }),
{
    let s = choose|s: Seq<PsoView<T>>| iter_by(p, q, s);
    let n = p.parts.len() as int;
    lem_sweep(s, n, n);
    assert(s.last() == s[n]);
    assert forall|i: int| 0 <= i < n implies #[trigger] stepped(p, q, i) by { assert(stepped(s[0], s[n], i)); }
}
pub proof fn lem_records_gen<T: Float>(p: PsoView<T>, q: PsoView<T>, from: int)
    requires iter_ok(p, q), records_ok(p, from)
    ensures records_ok(q, from)
{
    lem_iter(p, q);
    let n = p.parts.len() as int; let l = p.calls.len() as int;
    assert forall|k: int| from <= k < l implies #[trigger] q.calls[k] == p.calls[k] by { assert(q.calls.subrange(0, l)[k] == q.calls[k]); }
    assert forall|k: int| l <= k < q.calls.len() implies (#[trigger] q.calls[k]).1 == q.parts[k - l].value by { assert(stepped(p, q, k - l)); }
    if n > 0 {
        let o = p.best.unwrap(); let b = q.best.unwrap();
        lem_visited_ext(p.calls, q.calls, from, o.coordinates, o.value);
        if q.best != p.best { lem_member_visited(p, q, from, b); }
        if !no_better(q.parts, o) {
            let w = choose|w: int| 0 <= w < n && fafter(o.value, (#[trigger] q.parts[w]).value);
            assert(!fafter(b.value, q.parts[w].value));
            if fafter(b.value, o.value) { fafter_trans(b.value, o.value, q.parts[w].value); }
        } else { fafter_asym(o.value, o.value); }
        assert forall|k: int| from <= k < q.calls.len() implies !fafter(b.value, (#[trigger] q.calls[k]).1) by {
            if k < l { assert(q.calls[k] == p.calls[k]); fafter_negtrans(b.value, o.value, q.calls[k].1); } else { assert(q.calls[k].1 == q.parts[k - l].value); }
        }
        let ow = p.worst.unwrap(); let bw = q.worst.unwrap();
        lem_visited_ext(p.calls, q.calls, from, ow.coordinates, ow.value);
        if q.worst != p.worst { lem_member_visited(p, q, from, bw); }
        if !no_worse(q.parts, ow) {
            let w = choose|w: int| 0 <= w < n && fafter((#[trigger] q.parts[w]).value, ow.value);
            assert(!fafter(q.parts[w].value, bw.value));
            if fafter(ow.value, bw.value) { fafter_trans(q.parts[w].value, ow.value, bw.value); }
        } else { fafter_asym(ow.value, ow.value); }
        assert forall|k: int| from <= k < q.calls.len() implies !fafter((#[trigger] q.calls[k]).1, bw.value) by {
            if k < l { assert(q.calls[k] == p.calls[k]); fafter_negtrans(q.calls[k].1, ow.value, bw.value); } else { assert(q.calls[k].1 == q.parts[k - l].value); }
        }
    }
}
pub proof fn lem_member_visited<T: Float>(p: PsoView<T>, q: PsoView<T>, from: int, m: Particle<T>)
    requires iter_ok(p, q), 0 <= from <= p.calls.len(), q.parts.contains(m)
    ensures visited(q.calls, from, m.coordinates, m.value)
{
    lem_iter(p, q);
    let i = choose|i: int| 0 <= i < q.parts.len() && q.parts[i] == m;
    assert(stepped(p, q, i));
    assert(q.calls[p.calls.len() + i] == (m.coordinates, m.value));
}
pub proof fn lem_records_start<T>(p: PsoView<T>, s: PsoView<T>)
    requires renewed(p, s)
    ensures records_ok(s, p.calls.len() as int)
{
    let (m, now) = choose|m: Seq<Seq<Seq<(Vec<T>, Vec<T>)>>>, now: Seq<Vec<T>>| renewed_by(p, s, m, now);
    let from = p.calls.len() as int;
    assert forall|i: int| 0 <= i < now.len() implies #[trigger] s.calls[from + i] == (s.parts[i].coordinates, s.parts[i].value) by { assert(s.calls[from + i].0 == now[i]); }
    assert forall|k: int| from <= k < s.calls.len() implies #[trigger] s.calls[k] == (s.parts[k - from].coordinates, s.parts[k - from].value) by { assert(s.calls[from + (k - from)] == s.calls[k]); }
    if s.parts.len() > 0 {
        let b = s.best.unwrap();
        let i = choose|i: int| 0 <= i < s.parts.len() && s.parts[i] == b;
        assert(s.calls[from + i] == (b.coordinates, b.value));
        let w = s.worst.unwrap();
        let j = choose|j: int| 0 <= j < s.parts.len() && s.parts[j] == w;
        assert(s.calls[from + j] == (w.coordinates, w.value));
    }
}
pub proof fn lem_records_run<T: Float>(t: Seq<PsoView<T>>, from: int, n: int)
    requires iters_ok(t), 0 <= n < t.len(), records_ok(t[0], from)
    ensures records_ok(t[n], from)
    decreases n
{
    if n > 0 { lem_records_run(t, from, n - 1); assert(iter_ok(t[n - 1], t[n])); lem_records_gen(t[n - 1], t[n], from); }
}
/// C14: a run or continuation keeps the records right and returns the best of them
pub open spec fn reported<T>(c: Seq<(Vec<T>, f64)>, from: int, r: Option<(Vec<T>, f64)>) -> bool {
    if r.is_some() { visited(c, from, r.unwrap().0, r.unwrap().1) && none_better(c, from, r.unwrap().1) } else { c.len() == from }
}
pub proof fn lem_records_result<T: Float>(p: PsoView<T>, q: PsoView<T>, t: Seq<PsoView<T>>, r: Option<(Vec<T>, f64)>, from: int)
    requires prun_ok(p, q, t, r), records_ok(p, from)
    ensures records_ok(q, from), reported(q.calls, from, r)
{
    assert(records_ok(t[0], from));
    lem_records_run(t, from, t.len() - 1);
}
/// C14: the smallest finite value, and a non-finite one only if nothing finite was seen; never gets worse
pub proof fn lem_none_better<T>(c: Seq<(Vec<T>, f64)>, from: int, v: f64)
    requires none_better(c, from, v)
    ensures
        forall|k: int| from <= k < c.len() && ffin((#[trigger] c[k]).1) ==> ffin(v) && !flt(c[k].1, v),
{
    assert forall|k: int| from <= k < c.len() && ffin((#[trigger] c[k]).1) implies ffin(v) && !flt(c[k].1, v) by { assert(!fafter(v, c[k].1)); }
}
pub proof fn lem_never_worse<T>(p: PsoView<T>, q: PsoView<T>, from: int)
    requires records_ok(p, from), records_ok(q, from), p.parts.len() > 0, q.parts.len() > 0, p.calls.len() <= q.calls.len(), q.calls.subrange(0, p.calls.len() as int) == p.calls
    ensures !fafter(q.best.unwrap().value, p.best.unwrap().value)
{
    let o = p.best.unwrap();
    lem_visited_ext(p.calls, q.calls, from, o.coordinates, o.value);
    let k = choose|k: int| from <= k < q.calls.len() && #[trigger] q.calls[k] == (o.coordinates, o.value);
    assert(!fafter(q.best.unwrap().value, q.calls[k].1));
}

@@# ---- C15 C16: the life of one particle
@@module particleswarm
/// h is what the particle has visited: its records are in h and nothing in h is better (worse)
pub open spec fn personal_ok<T>(p: Particle<T>, h: Seq<(Vec<T>, f64)>) -> bool {
    &&& h.len() > 0 && h.last() == (p.coordinates, p.value)
    &&& visited(h, 0, p.best_personal_coordinates, p.best_personal_value) && none_better(h, 0, p.best_personal_value)
    &&& visited(h, 0, p.worst_personal_coordinates, p.worst_personal_value) && none_worse(h, 0, p.worst_personal_value)
}
pub proof fn lem_personal_placed<T>(x: Vec<T>, w: Vec<T>, v: f64)
    ensures personal_ok(placed(x, w, v), seq![(x, v)])
{
    fafter_asym(v, v);
    let h = seq![(x, v)];
    assert(h[0] == (x, v));
}
pub proof fn lem_personal_moved<T>(p: Particle<T>, h: Seq<(Vec<T>, f64)>, w: Vec<T>, x: Vec<T>, v: f64)
    requires personal_ok(p, h)
    ensures personal_ok(moved(Particle { velocity: w, ..p }, x, v), h.push((x, v)))
{
    let g = h.push((x, v)); let m = moved(Particle { velocity: w, ..p }, x, v);
    assert(g.subrange(0, h.len() as int) =~= h);
    assert(g[h.len() as int] == (x, v));
    lem_visited_ext(h, g, 0, p.best_personal_coordinates, p.best_personal_value);
    lem_visited_ext(h, g, 0, p.worst_personal_coordinates, p.worst_personal_value);
    fafter_asym(v, v); fafter_asym(p.best_personal_value, v); fafter_asym(v, p.worst_personal_value);
    assert forall|k: int| 0 <= k < g.len() implies !fafter(m.best_personal_value, (#[trigger] g[k]).1) by {
        if k < h.len() { assert(g[k] == h[k]); if fafter(p.best_personal_value, v) { fafter_negtrans(v, p.best_personal_value, g[k].1); } }
    }
    assert forall|k: int| 0 <= k < g.len() implies !fafter((#[trigger] g[k]).1, m.worst_personal_value) by {
        if k < h.len() { assert(g[k] == h[k]); if fafter(v, p.worst_personal_value) { fafter_negtrans(g[k].1, p.worst_personal_value, v); } }
    }
}
/// where particle i was after each of the first n iterations of t, added to its earlier history
pub open spec fn life<T>(h: Seq<(Vec<T>, f64)>, t: Seq<PsoView<T>>, i: int, n: int) -> Seq<(Vec<T>, f64)> {
    h + Seq::new(n as nat, |j: int| (t[j + 1].parts[i].coordinates, t[j + 1].parts[i].value))
}
/// C15: over a run of any length each particle's records cover exactly its own life; C16: sizes never change
pub proof fn lem_personal_run<T: Float>(t: Seq<PsoView<T>>, h: Seq<(Vec<T>, f64)>, i: int, n: int)
    requires iters_ok(t), 0 <= n < t.len(), 0 <= i < t[0].parts.len(), personal_ok(t[0].parts[i], h)
    ensures
        t[n].parts.len() == t[0].parts.len(),
        t[n].calls.len() == t[0].calls.len() + n * t[0].parts.len(),
        t[n].parts[i].coordinates@.len() == t[0].parts[i].coordinates@.len(),
        n > 0 ==> t[n].parts[i].velocity@.len() == t[0].parts[i].coordinates@.len(),
        personal_ok(t[n].parts[i], life(h, t, i, n)),
    decreases n
{
    if n > 0 {
        lem_personal_run(t, h, i, n - 1);
        let a = t[n - 1]; let b = t[n];
        assert(iter_ok(a, b));
        lem_iter(a, b);
        assert(stepped(a, b, i));
        let z = t[0].parts.len() as int;
        assert(n * z == (n - 1) * z + z) by (nonlinear_arith);
        lem_personal_moved(a.parts[i], life(h, t, i, n - 1), b.parts[i].velocity, b.parts[i].coordinates, b.parts[i].value);
        assert(life(h, t, i, n) =~= life(h, t, i, n - 1).push((b.parts[i].coordinates, b.parts[i].value)));
        assert(moved(Particle { velocity: b.parts[i].velocity, ..a.parts[i] }, b.parts[i].coordinates, b.parts[i].value) == b.parts[i]);
    } else { assert(life(h, t, i, 0) =~= h); }
}
pub proof fn lem_personal_start<T>(p: PsoView<T>, s: PsoView<T>, i: int)
    requires renewed(p, s), 0 <= i < s.parts.len()
    ensures personal_ok(s.parts[i], seq![(s.parts[i].coordinates, s.parts[i].value)]), visited(s.calls, p.calls.len() as int, s.parts[i].coordinates, s.parts[i].value)
{
    let (m, now) = choose|m: Seq<Seq<Seq<(Vec<T>, Vec<T>)>>>, now: Seq<Vec<T>>| renewed_by(p, s, m, now);
    lem_personal_placed(now[i], s.vi.last()[i], s.calls[p.calls.len() + i].1);
    assert(s.calls[p.calls.len() + i] == (s.parts[i].coordinates, s.parts[i].value));
}

@@# ---- C21: shape of a run
@@module particleswarm
pub proof fn lem_prun_asks<T: Float>(t: Seq<PsoView<T>>, n: int)
    requires iters_ok(t), 0 <= n < t.len()
    ensures
        t[n].iter == t[0].iter + n,
        t[n].asks.len() == t[0].asks.len() + n,
        t[n].asks.subrange(0, t[0].asks.len() as int) == t[0].asks,
        forall|k: int| 0 <= k < n ==> #[trigger] t[n].asks[t[0].asks.len() + k] == (Ask { iter: t[k].iter, best: pair_of(t[k].best), ans: false }),
    decreases n
{
    if n > 0 {
        lem_prun_asks(t, n - 1);
        assert(iter_ok(t[n - 1], t[n]));
        lem_iter(t[n - 1], t[n]);
        assert(t[n].asks.subrange(0, t[0].asks.len() as int) =~= t[n - 1].asks.subrange(0, t[0].asks.len() as int));
        assert forall|k: int| 0 <= k < n implies #[trigger] t[n].asks[t[0].asks.len() + k] == (Ask { iter: t[k].iter, best: pair_of(t[k].best), ans: false }) by {
            if k < n - 1 { assert(t[n - 1].asks[t[0].asks.len() + k] == t[n].asks[t[0].asks.len() + k]); }
        }
    } else { assert(t[n].asks.subrange(0, t[0].asks.len() as int) =~= t[0].asks); }
}
pub proof fn lem_prun_logs<T: Float>(t: Seq<PsoView<T>>, l: int, n: int)
    requires iters_ok(t), 0 <= n < t.len(), 0 <= l < t[0].logs.len()
    ensures
        t[n].logs.len() == t[0].logs.len(),
        t[n].logs[l].len() == t[0].logs[l].len() + n,
        t[n].logs[l].subrange(0, t[0].logs[l].len() as int) == t[0].logs[l],
        forall|k: int| 0 <= k < n ==> #[trigger] t[n].logs[l][t[0].logs[l].len() + k] == (Ev { kind: EvKind::Next, iter: t[k + 1].iter, best: pair_of(t[k + 1].best) }),
    decreases n
{
    if n > 0 {
        lem_prun_logs(t, l, n - 1);
        assert(iter_ok(t[n - 1], t[n]));
        lem_iter(t[n - 1], t[n]);
        assert(t[n].logs[l] == t[n - 1].logs[l].push(Ev { kind: EvKind::Next, iter: t[n].iter, best: pair_of(t[n].best) }));
        assert(t[n].logs[l].subrange(0, t[0].logs[l].len() as int) =~= t[n - 1].logs[l].subrange(0, t[0].logs[l].len() as int));
        assert forall|k: int| 0 <= k < n implies #[trigger] t[n].logs[l][t[0].logs[l].len() + k] == (Ev { kind: EvKind::Next, iter: t[k + 1].iter, best: pair_of(t[k + 1].best) }) by {
            if k < n - 1 { assert(t[n - 1].logs[l][t[0].logs[l].len() + k] == t[n].logs[l][t[0].logs[l].len() + k]); }
        }
    } else { assert(t[n].logs[l].subrange(0, t[0].logs[l].len() as int) =~= t[0].logs[l]); }
}
/// C21: the whole of next_iterations: n iterations, n + 1 questions, Resume, n times Next, Finish
pub proof fn lem_prun_shape<T: Float>(p: PsoView<T>, q: PsoView<T>, t: Seq<PsoView<T>>, r: Option<(Vec<T>, f64)>)
    requires prun_ok(p, q, t, r)
    ensures
        q.iter == p.iter + (t.len() - 1),
        q.asks.len() == p.asks.len() + t.len(),
        q.asks.last().ans,
        forall|k: int| 0 <= k < t.len() - 1 ==> !(#[trigger] q.asks[p.asks.len() + k]).ans && q.asks[p.asks.len() + k].iter == p.iter + k,
        forall|l: int| 0 <= l < p.logs.len() ==> {
            &&& (#[trigger] q.logs[l]).len() == p.logs[l].len() + (t.len() - 1) + 2
            &&& q.logs[l][p.logs[l].len() as int].kind == EvKind::Resume
            &&& q.logs[l].last().kind == EvKind::Finish && q.logs[l].last().iter == q.iter && q.logs[l].last().best == r
        },
        forall|l: int, k: int| 0 <= l < p.logs.len() && 0 <= k < t.len() - 1 ==> (#[trigger] q.logs[l][p.logs[l].len() + 1 + k]).kind == EvKind::Next && q.logs[l][p.logs[l].len() + 1 + k].iter == p.iter + k + 1,
{
    let n = t.len() - 1;
    lem_prun_asks(t, n);
    assert forall|k: int| 0 <= k < n implies !(#[trigger] q.asks[p.asks.len() + k]).ans && q.asks[p.asks.len() + k].iter == p.iter + k by {
        assert(q.asks[p.asks.len() + k] == t[n].asks[t[0].asks.len() + k]);
        lem_prun_asks(t, k);
    }
    assert forall|l: int| 0 <= l < p.logs.len() implies {
            &&& (#[trigger] q.logs[l]).len() == p.logs[l].len() + n + 2
            &&& q.logs[l][p.logs[l].len() as int].kind == EvKind::Resume
            &&& q.logs[l].last().kind == EvKind::Finish && q.logs[l].last().iter == q.iter && q.logs[l].last().best == r
        } by {
        lem_prun_logs(t, l, n);
        assert(t[0].logs[l] == p.logs[l].push(Ev { kind: EvKind::Resume, iter: p.iter, best: pair_of(p.best) }));
        assert(q.logs[l] == t[n].logs[l].push(Ev { kind: EvKind::Finish, iter: q.iter, best: pair_of(q.best) }));
        assert(t[n].logs[l].subrange(0, t[0].logs[l].len() as int)[p.logs[l].len() as int] == t[0].logs[l][p.logs[l].len() as int]);
    }
    assert forall|l: int, k: int| 0 <= l < p.logs.len() && 0 <= k < n implies (#[trigger] q.logs[l][p.logs[l].len() + 1 + k]).kind == EvKind::Next && q.logs[l][p.logs[l].len() + 1 + k].iter == p.iter + k + 1 by {
        lem_prun_logs(t, l, n);
        lem_prun_asks(t, k + 1);
        assert(t[0].logs[l] == p.logs[l].push(Ev { kind: EvKind::Resume, iter: p.iter, best: pair_of(p.best) }));
        assert(q.logs[l] == t[n].logs[l].push(Ev { kind: EvKind::Finish, iter: q.iter, best: pair_of(q.best) }));
        assert(q.logs[l][p.logs[l].len() + 1 + k] == t[n].logs[l][t[0].logs[l].len() + k]);
    }
}
