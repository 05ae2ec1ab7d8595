@@# ------------------------------------------------------------------ pairing
@@module genetic::pairing
use crate::genetic::{Individual, views, valid_pairs};
broadcast use crate::spec::ax;
/// C08: winner of the draw at h[b] against the n challengers drawn after it
pub open spec fn winner<T>(s: Seq<Individual<T>>, h: Seq<usize>, b: int, n: int) -> usize decreases n {
    if n <= 0 { h[b] } else { let w = winner(s, h, b, n - 1); if flt(s[h[b + n] as int].fitness, s[w as int].fitness) { h[b + n] } else { w } }
}
pub proof fn lem_winner_ext<T>(s: Seq<Individual<T>>, h: Seq<usize>, h2: Seq<usize>, b: int, n: int)
    requires 0 <= b, b + n < h.len(), n >= 0, h.len() <= h2.len(), forall|i: int| 0 <= i < h.len() ==> h[i] == h2[i]
    ensures winner(s, h, b, n) == winner(s, h2, b, n)
    decreases n
{ if n > 0 { lem_winner_ext(s, h, h2, b, n - 1); } }
/// without NaN goals nobody drawn beats the winner
pub proof fn lem_winner_best<T>(s: Seq<Individual<T>>, h: Seq<usize>, b: int, n: int)
    requires n >= 0, forall|i: int| 0 <= i < s.len() ==> !nan((#[trigger] s[i]).fitness), forall|k: int| b <= k <= b + n ==> 0 <= #[trigger] h[k] < s.len()
    ensures 0 <= winner(s, h, b, n) < s.len(), forall|k: int| b <= k <= b + n ==> !flt(s[#[trigger] h[k] as int].fitness, s[winner(s, h, b, n) as int].fitness)
    decreases n
{
    let w = winner(s, h, b, n);
    assert(h[b] < s.len());
    if n > 0 {
        lem_winner_best(s, h, b, n - 1);
        let v = winner(s, h, b, n - 1);
        assert(h[b + n] < s.len());
        assert(!nan(s[h[b + n] as int].fitness) && !nan(s[v as int].fitness));
        assert forall|k: int| b <= k <= b + n implies !flt(s[#[trigger] h[k] as int].fitness, s[w as int].fitness) by {
            if k < b + n {
                assert(!flt(s[h[k] as int].fitness, s[v as int].fitness));
                assert(!nan(s[h[k] as int].fitness));
                if w != v { worse_asym(s[w as int].fitness, s[v as int].fitness); worse_negtrans(s[w as int].fitness, s[v as int].fitness, s[h[k] as int].fitness); }
            } else { worse_asym(s[w as int].fitness, s[w as int].fitness); }
        }
    } else {
        assert forall|k: int| b <= k <= b + n implies !flt(s[#[trigger] h[k] as int].fitness, s[w as int].fitness) by { worse_asym(s[w as int].fitness, s[w as int].fitness); }
    }
}
/// the first n families, with winners of consecutive groups of draws
pub open spec fn families<T>(s: Seq<Individual<T>>, h: Seq<usize>, h0: int, r: Seq<Vec<usize>>, np: int, nr: int) -> bool {
    forall|f: int| 0 <= f < r.len() ==> partners(s, h, h0, (#[trigger] r[f])@, f * np, nr) && r[f]@.len() == np
}
pub open spec fn partners<T>(s: Seq<Individual<T>>, h: Seq<usize>, h0: int, v: Seq<usize>, c: int, nr: int) -> bool {
    forall|p: int| 0 <= p < v.len() ==> #[trigger] v[p] == winner(s, h, h0 + (c + p) * (nr + 1), nr)
}
pub proof fn lem_mul(a: int, b: int) ensures (a + 1) * b == a * b + b { assert((a + 1) * b == a * b + b) by (nonlinear_arith); }
pub proof fn lem_mul_mono(a: int, b: int, c: int) requires a <= b, c >= 0 ensures a * c <= b * c { assert(a * c <= b * c) by (nonlinear_arith) requires a <= b, c >= 0; }
pub proof fn lem_partners_ext<T>(s: Seq<Individual<T>>, h: Seq<usize>, h2: Seq<usize>, h0: int, v: Seq<usize>, c: int, nr: int)
    requires partners(s, h, h0, v, c, nr), h0 >= 0, c >= 0, nr >= 0, h.len() <= h2.len(), forall|i: int| 0 <= i < h.len() ==> h[i] == h2[i],
        h0 + (c + v.len()) * (nr + 1) <= h.len()
    ensures partners(s, h2, h0, v, c, nr)
{
    assert forall|p: int| 0 <= p < v.len() implies #[trigger] v[p] == winner(s, h2, h0 + (c + p) * (nr + 1), nr) by {
        lem_mul_mono(c + p + 1, c + v.len(), nr + 1); lem_mul(c + p, nr + 1); lem_mul_mono(0, c + p, nr + 1);
        lem_winner_ext(s, h, h2, h0 + (c + p) * (nr + 1), nr);
    }
}
pub proof fn lem_families_ext<T>(s: Seq<Individual<T>>, h: Seq<usize>, h2: Seq<usize>, h0: int, r: Seq<Vec<usize>>, np: int, nr: int)
    requires families(s, h, h0, r, np, nr), h0 >= 0, np >= 0, nr >= 0, h.len() <= h2.len(), forall|i: int| 0 <= i < h.len() ==> h[i] == h2[i],
        h0 + (r.len() * np) * (nr + 1) <= h.len()
    ensures families(s, h2, h0, r, np, nr)
{
    assert forall|f: int| 0 <= f < r.len() implies partners(s, h2, h0, (#[trigger] r[f])@, f * np, nr) && r[f]@.len() == np by {
        lem_mul(f, np); lem_mul_mono(f + 1, r.len() as int, np); lem_mul_mono(f * np + np, r.len() * np, nr + 1); lem_mul_mono(0, f, np);
        lem_partners_ext(s, h, h2, h0, r[f]@, f * np, nr);
    }
}
/// the partners of pair i are the draws 2i and 2i+1
pub open spec fn two_each(h: Seq<usize>, h0: int, r: Seq<Vec<usize>>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@.len() == 2 && r[i]@[0] == h[h0 + 2 * i] && r[i]@[1] == h[h0 + 2 * i + 1]
}
@@fn genetic::pairing::RandomPairing::new
@@props C08
@@fn genetic::pairing::<RandomPairing as Pairing>::get_pairs
@@props C08
@@mode lift
@@spec
    ensures r@.len() == population.individuals@.len() / 2, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() == 2,
        valid_pairs(r@, population.individuals@.len() as int),
        two_each(hist::<usize>(final(self).random), hist::<usize>(old(self).random).len() as int, r@), //# C00
        cover_usize(supps::<usize>(final(self).random), supps::<usize>(old(self).random).len() as int, 0, population.individuals@.len() as int), //# C00
@@at entry
let ghost h0 = hist::<usize>(self_.random).len() as int;
let ghost q0 = supps::<usize>(self_.random).len() as int;
@@loop 0
        pairs@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] pairs@[i])@.len() == 2,
        valid_pairs(pairs@, population.individuals@.len() as int),
        hist::<usize>(self_.random).len() == h0 + 2 * __i0, //# C00
        two_each(hist::<usize>(self_.random), h0, pairs@), //# C00
        cover_usize(supps::<usize>(self_.random), q0, 0, population.individuals@.len() as int), //# C00
@@fn genetic::pairing::Tournament::new
@@props C08 C28
@@spec
    ensures r.families_count == families_count, r.partners_count == 2, r.rounds_count == 1
@@fn genetic::pairing::Tournament::partners_count
@@props C08 C28
@@spec
    ensures r == (Tournament { partners_count: count, ..self })
@@fn genetic::pairing::Tournament::rounds_count
@@props C08 C28
@@spec
    ensures r == (Tournament { rounds_count: count, ..self })
@@fn genetic::pairing::<Tournament as Pairing>::get_pairs
@@props C08
@@mode lift
@@spec
    ensures
        population.individuals@.len() == 0 ==> r@.len() == 0,
        population.individuals@.len() > 0 ==> r@.len() == old(self).families_count,
        families(population.individuals@, hist::<usize>(final(self).random), hist::<usize>(old(self).random).len() as int, r@, old(self).partners_count as int, old(self).rounds_count as int),
        valid_pairs(r@, population.individuals@.len() as int),
        *final(self) == (Tournament { random: final(self).random, ..*old(self) }),
        cover_usize(supps::<usize>(final(self).random), supps::<usize>(old(self).random).len() as int, 0, population.individuals@.len() as int), //# C00
@@at entry
let ghost q0 = supps::<usize>(self_.random).len() as int;
let ghost s = population.individuals@;
let ghost h0 = hist::<usize>(self_.random).len() as int;
let ghost np = self_.partners_count as int;
let ghost nr = self_.rounds_count as int;
@@loop 0
        *self_ == (Tournament { random: self_.random, ..*old(self_) }),
        pairs@.len() == __i0,
        cover_usize(supps::<usize>(self_.random), q0, 0, s.len() as int), //# C00
        hist::<usize>(self_.random).len() == h0 + (__i0 * np) * (nr + 1),
        families(s, hist::<usize>(self_.random), h0, pairs@, np, nr),
        valid_pairs(pairs@, s.len() as int),
@@at loop 0 begin
let ghost hf = hist::<usize>(self_.random);
let ghost c0 = __j0 * np;
proof { lem_mul_mono(0, __j0 as int, np); }
@@loop 1
        *self_ == (Tournament { random: self_.random, ..*old(self_) }),
        family@.len() == __i1,
        cover_usize(supps::<usize>(self_.random), q0, 0, s.len() as int), //# C00
        hf.len() <= hist::<usize>(self_.random).len(),
        forall|i: int| 0 <= i < hf.len() ==> hf[i] == hist::<usize>(self_.random)[i],
        hist::<usize>(self_.random).len() == h0 + (c0 + __i1) * (nr + 1),
        partners(s, hist::<usize>(self_.random), h0, family@, c0, nr),
        forall|i: int| 0 <= i < family@.len() ==> #[trigger] family@[i] < s.len(),
@@at loop 1 begin
let ghost hp = hist::<usize>(self_.random);
@@loop 2
        *self_ == (Tournament { random: self_.random, ..*old(self_) }),
        best_ind_index < s.len(),
        cover_usize(supps::<usize>(self_.random), q0, 0, s.len() as int), //# C00
        hist::<usize>(self_.random).len() == hp.len() + __i2 + 1,
        forall|i: int| 0 <= i < hp.len() ==> hp[i] == hist::<usize>(self_.random)[i],
        best_ind_index == winner(s, hist::<usize>(self_.random), hp.len() as int, __i2 as int),
@@at loop 2 begin
let ghost h2 = hist::<usize>(self_.random);
@@at loop 2 end
proof { lem_winner_ext(s, h2, hist::<usize>(self_.random), hp.len() as int, __j2 as int); }
@@at loop 1 end
proof {
    lem_mul(c0 + __j1, nr + 1);
    lem_partners_ext(s, hp, hist::<usize>(self_.random), h0, family@.drop_last(), c0, nr);
    let f = family@;
    let h = hist::<usize>(self_.random);
    assert forall|p: int| 0 <= p < f.len() implies #[trigger] f[p] == winner(s, h, h0 + (c0 + p) * (nr + 1), nr) by {
        if p < __j1 { assert(f.drop_last()[p] == f[p]); }
    }
}
@@at loop 0 end
proof {
    lem_mul(__j0 as int, np);
    let h = hist::<usize>(self_.random);
    lem_families_ext(s, hf, h, h0, pairs@.drop_last(), np, nr);
    let r = pairs@;
    assert forall|f: int| 0 <= f < r.len() implies partners(s, h, h0, (#[trigger] r[f])@, f * np, nr) && r[f]@.len() == np by {
        if f < __j0 { assert(r.drop_last()[f] == r[f]); }
    }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r[i]@.len() implies 0 <= #[trigger] r[i]@[j] < s.len() by {
        if i < __j0 { assert(r.drop_last()[i] == r[i]); }
    }
}
@@at loop 0 before
proof { assert((0 * np) * (nr + 1) == 0) by (nonlinear_arith); }
@@# ------------------------------------------------------------------ pre-birth filter
@@module genetic::pre_birth::vec_float
use crate::genetic::Individual;
use crate::genetic::selection::vec_float::{in_box, in_iv};
broadcast use {crate::spec::ax, crate::realmodel::rax};
/// C06: the vectors inside the box, in order
pub open spec fn kept<G: Float>(v: Seq<Vec<G>>, iv: Seq<(G, G)>) -> Seq<Vec<G>> { v.filter(|c: Vec<G>| in_box(c@, iv)) }
@@fn genetic::pre_birth::vec_float::CheckChromoInterval::new
@@props C06
@@spec
    ensures r.intervals == intervals
@@fn genetic::pre_birth::vec_float::CheckChromoInterval::check_chromo
@@props C06
@@valid
chromosomes@.len() == old(self).intervals@.len()
@@spec
    ensures r == in_box(chromosomes@, old(self).intervals@), *final(self) == *old(self), chromosomes@.len() == old(self).intervals@.len()
@@loop 0
        *self == *old(self),
        chromosomes@.len() == self.intervals@.len(),
        forall|d: int| 0 <= d < __i0 ==> in_iv(#[trigger] chromosomes@[d], self.intervals@[d]),
@@fn genetic::pre_birth::vec_float::<CheckChromoInterval as PreBirth>::pre_birth
@@props C06
@@mode lift
@@spec
    ensures final(new_chromosomes)@ == kept(old(new_chromosomes)@, old(self).intervals@), *final(self) == *old(self),
        forall|i: int| 0 <= i < old(new_chromosomes)@.len() ==> (#[trigger] old(new_chromosomes)@[i])@.len() == old(self).intervals@.len()
@@loop 0
        *self_ == *old(self_),
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] __g0_0[i])@.len() == self_.intervals@.len(),
        __c0@ == kept(__g0_0.subrange(0, __i0 as int), self_.intervals@),
@@at loop 0 before
proof { assert(__g0_0.subrange(0, 0) =~= Seq::empty()); reveal(Seq::filter); }
@@at loop 0 end
proof {
    assert(__g0_0.subrange(0, __i0 as int).drop_last() =~= __g0_0.subrange(0, __j0 as int));
    reveal(Seq::filter);
}
@@at loop 0 after
proof { assert(__g0_0.subrange(0, __n0 as int) =~= __g0_0); }
@@# ------------------------------------------------------------------ random creation
@@module genetic::creation::vec_float
broadcast use {crate::spec::ax, crate::realmodel::rax, crate::num::numax};
/// C07: interval list accepted by the constructors
pub open spec fn good_iv<G: NumCast + PartialOrd>(iv: Seq<(G, G)>) -> bool { forall|i: int| 0 <= i < iv.len() ==> pclt((#[trigger] iv[i]).0, iv[i].1) }
/// each value is a draw of its own that could have had every value of its interval
pub open spec fn free_row<G: NumCast + PartialOrd>(h: Seq<f64>, h0: int, q: Seq<spec_fn(f64) -> bool>, q0: int, x: Seq<G>, iv: Seq<(G, G)>) -> bool {
    forall|d: int| 0 <= d < x.len() ==> free_item(h[h0 + d], q[q0 + d], #[trigger] x[d], iv[d])
}
pub open spec fn free_item<G: NumCast + PartialOrd>(v: f64, q: spec_fn(f64) -> bool, x: G, iv: (G, G)) -> bool {
    x == cast::<f64, G>(v) && forall|y: f64| to64(iv.0).ieee_le(y) && y.ieee_le(to64(iv.1)) ==> #[trigger] q(y)
}
/// the same for a list of vectors, one after the other
pub open spec fn free_rows<G: NumCast + PartialOrd>(h: Seq<f64>, q: Seq<spec_fn(f64) -> bool>, r: Seq<Vec<G>>, iv: Seq<(G, G)>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> free_row(h, i * iv.len(), q, i * iv.len(), (#[trigger] r[i])@, iv)
}
pub proof fn lem_free_rows<G: NumCast + PartialOrd>(h: Seq<f64>, q: Seq<spec_fn(f64) -> bool>, h2: Seq<f64>, q2: Seq<spec_fn(f64) -> bool>, r: Seq<Vec<G>>, iv: Seq<(G, G)>)
    requires r.len() > 0, free_rows(h, q, r.drop_last(), iv), h.len() == (r.len() - 1) * iv.len(), q.len() == h.len(),
        forall|k: int| 0 <= k < h.len() ==> #[trigger] h2[k] == h[k], forall|k: int| 0 <= k < q.len() ==> #[trigger] q2[k] == q[k],
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@.len() == iv.len(),
        free_row(h2, h.len() as int, q2, q.len() as int, r.last()@, iv),
    ensures free_rows(h2, q2, r, iv)
{
    assert forall|i: int| 0 <= i < r.len() implies free_row(h2, i * iv.len(), q2, i * iv.len(), (#[trigger] r[i])@, iv) by {
        if i < r.len() - 1 {
            let n = iv.len() as int; let m = r.len() - 1;
            assert(0 <= i * n && i * n + n <= m * n) by (nonlinear_arith) requires 0 <= i, i + 1 <= m, 0 <= n;
            assert(r.drop_last()[i] == r[i]);
            assert(free_row(h, i * iv.len(), q, i * iv.len(), r[i]@, iv));
            assert forall|d: int| 0 <= d < r[i]@.len() implies free_item(h2[i * n + d], q2[i * n + d], #[trigger] r[i]@[d], iv[d]) by { assert(free_item(h[i * n + d], q[i * n + d], r[i]@[d], iv[d])); }
        }
    }
}
/// one value per interval, each in its own closed interval
pub open spec fn vec_in<G: NumCast + PartialOrd>(x: Seq<G>, iv: Seq<(G, G)>) -> bool {
    x.len() == iv.len() && forall|d: int| 0 <= d < x.len() ==> pcle(iv[d].0, #[trigger] x[d]) && pcle(x[d], iv[d].1)
}
@@fn genetic::creation::vec_float::RandomCreator::new
@@props C07
@@valid
population_size > 0 && intervals@.len() > 0 && good_iv(intervals@)
@@spec
    ensures population_size > 0, intervals@.len() > 0, good_iv(intervals@), r.population_size == population_size, r.intervals == intervals
@@loop 0
        population_size > 0, intervals@.len() > 0,
        forall|i: int| 0 <= i < __i0 ==> pclt((#[trigger] intervals@[i]).0, intervals@[i].1),
@@fn genetic::creation::vec_float::<RandomCreator as Creator>::create
@@props C07
@@mode lift
@@spec
    requires good_iv(old(self).intervals@), old(self).population_size <= usize::MAX / 64
    ensures r@.len() == old(self).population_size, forall|i: int| 0 <= i < r@.len() ==> vec_in((#[trigger] r@[i])@, old(self).intervals@),
        *final(self) == (RandomCreator { random: final(self).random, ..*old(self) }),
        free_rows(hist::<f64>(final(self).random).skip(hist::<f64>(old(self).random).len() as int), supps::<f64>(final(self).random).skip(supps::<f64>(old(self).random).len() as int), r@, old(self).intervals@), //# C00
@@at entry
let ghost h0 = hist::<f64>(self_.random).len() as int;
let ghost q0 = supps::<f64>(self_.random).len() as int;
let ghost iv = self_.intervals@;
proof { assert(0 * iv.len() == 0) by (nonlinear_arith); } //# C00
@@loop 0
        good_iv(old(self_).intervals@), iv == self_.intervals@,
        hist::<f64>(self_.random).len() == h0 + __i0 * iv.len() && supps::<f64>(self_.random).len() == q0 + __i0 * iv.len(), //# C00
        free_rows(hist::<f64>(self_.random).skip(h0), supps::<f64>(self_.random).skip(q0), population@, iv), //# C00
        *self_ == (RandomCreator { random: self_.random, ..*old(self_) }),
        population@.len() == __i0,
        creator_done(population@, self_.intervals@),
@@at loop 0 begin
let ghost h1 = hist::<f64>(self_.random);
let ghost q1 = supps::<f64>(self_.random);
let ghost p1 = population@;
@@at loop 0 end
proof { //# C00
    let d = iv.len() as int; let j = __j0 as int; //# C00
    assert((j + 1) * d == j * d + d) by (nonlinear_arith); //# C00
    assert(0 <= j * d) by (nonlinear_arith) requires 0 <= j, 0 <= d; //# C00
    let h = hist::<f64>(self_.random).skip(h0); let q = supps::<f64>(self_.random).skip(q0); //# C00
    assert(free_row(hist::<f64>(self_.random), h1.len() as int, supps::<f64>(self_.random), q1.len() as int, population@.last()@, iv)); //# C00
    assert(free_row(h, j * d, q, j * d, population@.last()@, iv)) by { //# C00
        assert forall|k: int| 0 <= k < population@.last()@.len() implies free_item(h[j * d + k], q[j * d + k], #[trigger] population@.last()@[k], iv[k]) by { //# C00
            assert(free_item(hist::<f64>(self_.random)[h1.len() + k], supps::<f64>(self_.random)[q1.len() + k], population@.last()@[k], iv[k])); //# C00
        } //# C00
    } //# C00
    assert(population@.drop_last() =~= p1); //# C00
    lem_free_rows(h1.skip(h0), q1.skip(q0), h, q, population@, iv); //# C00
} //# C00
@@loop 1
        hist::<f64>(self_.random).len() == h1.len() + __i1 && supps::<f64>(self_.random).len() == q1.len() + __i1, //# C00
        forall|k: int| 0 <= k < h1.len() ==> #[trigger] hist::<f64>(self_.random)[k] == h1[k], //# C00
        forall|k: int| 0 <= k < q1.len() ==> #[trigger] supps::<f64>(self_.random)[k] == q1[k], //# C00
        free_row(hist::<f64>(self_.random), h1.len() as int, supps::<f64>(self_.random), q1.len() as int, chromo@, iv), //# C00
        *self_ == (RandomCreator { random: self_.random, ..*old(self_) }),
        vec_upto(chromo@, self_.intervals@, __i1 as int),
@@module genetic::creation::vec_float
pub open spec fn creator_done<G: NumCast + PartialOrd>(r: Seq<Vec<G>>, iv: Seq<(G, G)>) -> bool { forall|i: int| 0 <= i < r.len() ==> vec_in((#[trigger] r[i])@, iv) }
pub open spec fn vec_upto<G: NumCast + PartialOrd>(x: Seq<G>, iv: Seq<(G, G)>, n: int) -> bool {
    x.len() == n && forall|d: int| 0 <= d < n ==> pcle(iv[d].0, #[trigger] x[d]) && pcle(x[d], iv[d].1)
}
@@module tools
use crate::genetic::creation::vec_float::{good_iv, vec_in, vec_upto, free_row};
broadcast use {crate::spec::ax, crate::realmodel::rax, crate::num::numax};
/// n more values were drawn, the earlier ones stay
pub open spec fn more_draws(a: crate::rand::rngs::ThreadRng, b: crate::rand::rngs::ThreadRng, n: int) -> bool {
    &&& hist::<f64>(b).len() == hist::<f64>(a).len() + n && supps::<f64>(b).len() == supps::<f64>(a).len() + n
    &&& forall|k: int| 0 <= k < hist::<f64>(a).len() ==> #[trigger] hist::<f64>(b)[k] == hist::<f64>(a)[k]
    &&& forall|k: int| 0 <= k < supps::<f64>(a).len() ==> #[trigger] supps::<f64>(b)[k] == supps::<f64>(a)[k]
}
@@fn tools::RandomVectorCreator::new
@@props C07
@@fn tools::RandomVectorCreator::create_vec
@@props C07
@@valid
good_iv(intervals@)
@@spec
    ensures good_iv(intervals@), vec_in(r@, intervals@),
        free_row(hist::<f64>(final(self).random), hist::<f64>(old(self).random).len() as int, supps::<f64>(final(self).random), supps::<f64>(old(self).random).len() as int, r@, intervals@), //# C00
        more_draws(old(self).random, final(self).random, intervals@.len() as int), //# C00
@@at entry
let ghost r0 = self.random;
let ghost h0 = hist::<f64>(self.random).len() as int;
let ghost q0 = supps::<f64>(self.random).len() as int;
@@loop 0
        forall|i: int| 0 <= i < __i0 ==> pclt((#[trigger] intervals@[i]).0, intervals@[i].1),
        hist::<f64>(self.random).len() == h0 && supps::<f64>(self.random).len() == q0 && more_draws(r0, self.random, 0), //# C00
@@loop 1
        good_iv(intervals@),
        vec_upto(__c1@, intervals@, __i1 as int),
        hist::<f64>(self.random).len() == h0 + __i1 && supps::<f64>(self.random).len() == q0 + __i1 && more_draws(r0, self.random, __i1 as int), //# C00
        free_row(hist::<f64>(self.random), h0, supps::<f64>(self.random), q0, __c1@, intervals@), //# C00
