@@# ------------------------------------------------------------------ statistics: records (C24) and call counts (C27)
@@module tools::statistics
broadcast use {crate::spec::ax, crate::spec::lem_nan_sub, crate::realmodel::rax, crate::realmodel::fax, crate::num::numax};
@@fn tools::statistics::Statistics::new
@@props C24
@@spec
    ensures r.results@.len() == 0, r.convergence@.len() == 0
@@fn tools::statistics::Statistics::get_run_count
@@props C24
@@spec
    ensures r == self.results@.len()
@@fn tools::statistics::Statistics::get_results
@@props C24
@@spec
    ensures *r == self.results
@@fn tools::statistics::Statistics::get_convergence
@@props C24
@@spec
    ensures *r == self.convergence
@@module tools::statistics
pub type Rows<T> = Seq<Vec<Option<(T, f64)>>>;
/// the same rows, with `x` appended to the last one (a first row is made if there is none)
pub open spec fn appended<T>(a: Rows<T>, b: Rows<T>, x: Option<(T, f64)>) -> bool {
    if a.len() == 0 { b.len() == 1 && b[0]@ == seq![x] } else {
        b.len() == a.len() && b.last()@ == a.last()@.push(x) && forall|i: int| 0 <= i < a.len() - 1 ==> #[trigger] b[i] == a[i]
    }
}
@@fn tools::statistics::Statistics::add_result
@@props C24
@@spec
    ensures final(self).results@ == old(self).results@.push(state.s_best()), final(self).convergence == old(self).convergence
@@fn tools::statistics::Statistics::add_convergence
@@props C24
@@spec
    ensures final(self).results == old(self).results, appended(old(self).convergence@, final(self).convergence@, state.s_best())
@@fn tools::statistics::Statistics::unite
@@props C24
@@spec
    ensures final(self).results@ == old(self).results@ + other.results@, final(self).convergence@ == old(self).convergence@ + other.convergence@
@@fn tools::statistics::StatisticsLogger::new
@@props C24
@@spec
    ensures *r.statistics == *old(statistics)
@@fn tools::statistics::<StatisticsLogger as Logger<T>>::start
@@props C24
@@mode lift
@@spec
    ensures final(self).statistics.results == old(self).statistics.results,
        final(self).statistics.convergence@.len() == old(self).statistics.convergence@.len() + 1,
        final(self).statistics.convergence@.last()@.len() == 0,
        final(self).statistics.convergence@.drop_last() == old(self).statistics.convergence@
@@fn tools::statistics::<StatisticsLogger as Logger<T>>::resume
@@props C24
@@mode lift
@@spec
    ensures *final(self).statistics == *old(self).statistics
@@fn tools::statistics::<StatisticsLogger as Logger<T>>::next_iteration
@@props C24
@@mode lift
@@spec
    ensures final(self).statistics.results == old(self).statistics.results,
        appended(old(self).statistics.convergence@, final(self).statistics.convergence@, state.s_best())
@@fn tools::statistics::<StatisticsLogger as Logger<T>>::finish
@@props C24
@@mode lift
@@spec
    ensures final(self).statistics.results@ == old(self).statistics.results@.push(state.s_best()),
        final(self).statistics.convergence == old(self).statistics.convergence
@@fn tools::statistics::CallCountData::new
@@props C27
@@spec
    ensures r.0@.len() == 0
@@fn tools::statistics::CallCountData::next_run
@@props C27
@@spec
    ensures final(self).0@ == old(self).0@.push(0)
@@module tools::statistics
/// `n` added to the count of the current run (the first run is created if there is none)
pub open spec fn counted(a: Seq<usize>, b: Seq<usize>, n: int) -> bool {
    if a.len() == 0 { b.len() == 1 && b[0] == n } else { b.len() == a.len() && b.last() == a.last() + n && forall|i: int| 0 <= i < a.len() - 1 ==> #[trigger] b[i] == a[i] }
}
/// machine counters do not overflow (assumption: fewer than 2^64 calls)
pub open spec fn room(a: Seq<usize>, n: int) -> bool { a.len() > 0 ==> a.last() + n <= usize::MAX }
@@fn tools::statistics::CallCountData::increment
@@props C27
@@spec
    requires room(old(self).0@, 1)
    ensures counted(old(self).0@, final(self).0@, 1)
@@fn tools::statistics::CallCountData::add
@@props C27
@@spec
    requires room(old(self).0@, n as int)
    ensures counted(old(self).0@, final(self).0@, n as int)
@@fn tools::statistics::CallCountData::get_call_count
@@props C27
@@spec
    ensures r@ == self.0@
@@fn tools::statistics::CallCountData::unite
@@props C27
@@spec
    ensures final(self).0@ == old(self).0@ + other.0@
@@fn tools::statistics::GoalCalcStatistics::new
@@props C27
@@spec
    ensures r.goal.calls() == old(goal).calls(), *r.call_count == *old(call_count)
@@fn tools::statistics::<GoalCalcStatistics as Goal<T>>::get
@@props C27
@@mode lift
@@spec
    requires room(old(self).call_count.0@, 1)
    ensures final(self).goal.calls() == old(self).goal.calls().push((*x, r)),
        counted(old(self).call_count.0@, final(self).call_count.0@, 1)
@@module tools::statistics
use crate::tools::logging::{Ev, EvKind};
/// what a statistics object has recorded, as plain sequences
#[verifier::reject_recursive_types(T)]
pub struct Rec<T> { pub results: Seq<Option<(T, f64)>>, pub rows: Seq<Seq<Option<(T, f64)>>> }
pub open spec fn rec<T>(s: Statistics<T>) -> Rec<T> { Rec { results: s.results@, rows: Seq::new(s.convergence@.len(), |i: int| s.convergence@[i]@) } }
pub open spec fn add_row<T>(rows: Seq<Seq<Option<(T, f64)>>>, x: Option<(T, f64)>) -> Seq<Seq<Option<(T, f64)>>> {
    if rows.len() == 0 { seq![seq![x]] } else { rows.update(rows.len() - 1, rows.last().push(x)) }
}
/// what one event adds to the records
pub open spec fn rec_step<T>(r: Rec<T>, e: Ev<T>) -> Rec<T> {
    match e.kind {
        EvKind::Start => Rec { rows: r.rows.push(Seq::empty()), ..r },
        EvKind::Resume => r,
        EvKind::Next => Rec { rows: add_row(r.rows, e.best), ..r },
        EvKind::Finish => Rec { results: r.results.push(e.best), ..r },
    }
}
pub open spec fn rec_all<T>(r: Rec<T>, e: Seq<Ev<T>>) -> Rec<T> decreases e.len() {
    if e.len() == 0 { r } else { rec_step(rec_all(r, e.drop_last()), e.last()) }
}
pub open spec fn bests<T>(e: Seq<Ev<T>>) -> Seq<Option<(T, f64)>> { Seq::new(e.len(), |i: int| e[i].best) }
pub proof fn lem_next_is_step<T>(a: Statistics<T>, b: Statistics<T>, e: Ev<T>)
    requires e.kind == EvKind::Next, b.results == a.results, appended(a.convergence@, b.convergence@, e.best)
    ensures rec(b) == rec_step(rec(a), e)
{ assert(rec(b).rows =~= rec_step(rec(a), e).rows); }
pub proof fn lem_start_is_step<T>(a: Statistics<T>, b: Statistics<T>, e: Ev<T>)
    requires e.kind == EvKind::Start, b.results == a.results, b.convergence@.len() == a.convergence@.len() + 1, b.convergence@.last()@.len() == 0, b.convergence@.drop_last() == a.convergence@
    ensures rec(b) == rec_step(rec(a), e)
{
    assert forall|i: int| 0 <= i < a.convergence@.len() implies b.convergence@[i] == a.convergence@[i] by { assert(b.convergence@.drop_last()[i] == a.convergence@[i]); }
    assert(rec(b).rows =~= rec_step(rec(a), e).rows) by { assert(b.convergence@.last()@ =~= Seq::empty()); }
}
/// a run of n completed iterations adds their best solutions, in order, to the current row ...
pub proof fn lem_nexts<T>(r: Rec<T>, e: Seq<Ev<T>>)
    requires forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).kind == EvKind::Next
    ensures rec_all(r, e).results == r.results,
        e.len() == 0 ==> rec_all(r, e) == r,
        e.len() > 0 && r.rows.len() == 0 ==> rec_all(r, e).rows == seq![bests(e)],
        r.rows.len() > 0 ==> rec_all(r, e).rows == r.rows.update(r.rows.len() - 1, r.rows.last() + bests(e)),
    decreases e.len()
{
    if e.len() == 0 {
        if r.rows.len() > 0 { assert(rec_all(r, e).rows =~= r.rows.update(r.rows.len() - 1, r.rows.last() + bests(e))) by { assert(r.rows.last() + bests(e) =~= r.rows.last()); } }
    } else {
        let d = e.drop_last();
        lem_nexts(r, d);
        assert(e.last().kind == EvKind::Next);
        assert(bests(e) =~= bests(d).push(e.last().best));
        if r.rows.len() == 0 {
            if d.len() > 0 { assert(rec_all(r, e).rows =~= seq![bests(e)]); } else { assert(bests(e) =~= seq![e.last().best]); }
        } else {
            assert(r.rows.last() + bests(e) =~= (r.rows.last() + bests(d)).push(e.last().best));
            assert(rec_all(r, e).rows =~= r.rows.update(r.rows.len() - 1, r.rows.last() + bests(e)));
        }
    }
}
/// ... and records exactly one result; a fresh run gets its own row, a continuation goes on with the current one
pub proof fn lem_fresh_run<T>(r: Rec<T>, start: Ev<T>, resume: Ev<T>, e: Seq<Ev<T>>, finish: Ev<T>)
    requires start.kind == EvKind::Start, resume.kind == EvKind::Resume, finish.kind == EvKind::Finish, forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).kind == EvKind::Next
    ensures rec_step(rec_all(rec_step(rec_step(r, start), resume), e), finish) == (Rec { results: r.results.push(finish.best), rows: r.rows.push(bests(e)) })
{
    let s = rec_step(rec_step(r, start), resume);
    lem_nexts(s, e);
    assert(s.rows.last() + bests(e) =~= bests(e));
    assert(rec_all(s, e).rows =~= r.rows.push(bests(e)));
}
pub proof fn lem_continued_run<T>(r: Rec<T>, resume: Ev<T>, e: Seq<Ev<T>>, finish: Ev<T>)
    requires resume.kind == EvKind::Resume, finish.kind == EvKind::Finish, r.rows.len() > 0, forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).kind == EvKind::Next
    ensures rec_step(rec_all(rec_step(r, resume), e), finish) == (Rec { results: r.results.push(finish.best), rows: r.rows.update(r.rows.len() - 1, r.rows.last() + bests(e)) })
{ lem_nexts(r, e); }
@@# ------------------------------------------------------------------ aggregates (C25) and success (C26)
@@module tools::statistics
/// how many of the first n runs have a solution
pub open spec fn cnt<S>(s: Seq<Option<S>>, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(s, n - 1) + (if s[n - 1].is_some() { 1int } else { 0 }) } }
pub proof fn lem_cnt<S>(s: Seq<Option<S>>, n: int) requires 0 <= n ensures 0 <= cnt(s, n) <= n decreases n { if n > 0 { lem_cnt(s, n - 1); } }
pub open spec fn goal_of<T>(x: Option<(T, f64)>) -> f64 { x.unwrap().1 }
/// sum of the goals of the runs that have a solution
pub open spec fn goal_sum<T>(s: Seq<Option<(T, f64)>>, n: int) -> real decreases n { if n <= 0 { 0real } else if s[n - 1].is_some() { goal_sum(s, n - 1) + rv(goal_of(s[n - 1])) } else { goal_sum(s, n - 1) } }
/// sum of the squared deviations from m
pub open spec fn sq_sum<T>(s: Seq<Option<(T, f64)>>, m: real, n: int) -> real decreases n {
    if n <= 0 { 0real } else if s[n - 1].is_some() { sq_sum(s, m, n - 1) + (rv(goal_of(s[n - 1])) - m) * (rv(goal_of(s[n - 1])) - m) } else { sq_sum(s, m, n - 1) }
}
pub open spec fn mean_goal<T>(s: Seq<Option<(T, f64)>>) -> real { goal_sum(s, s.len() as int) / (cnt(s, s.len() as int) as real) }
/// the mean over the runs that have a solution; none if there is no such run
pub open spec fn is_avg_goal<T>(s: Seq<Option<(T, f64)>>, r: Option<f64>) -> bool {
    &&& r.is_some() == (cnt(s, s.len() as int) > 0)
    &&& rm() && r.is_some() ==> rv(r.unwrap()) == mean_goal(s)
}
/// the sample deviation over the runs that have a solution; none if there are fewer than two such runs
pub open spec fn is_dev_goal<T>(s: Seq<Option<(T, f64)>>, r: Option<f64>) -> bool {
    &&& r.is_some() == (cnt(s, s.len() as int) >= 2)
    &&& rm() && r.is_some() ==> rv(r.unwrap()) == rsqrt(sq_sum(s, mean_goal(s), s.len() as int) / ((cnt(s, s.len() as int) - 1) as real))
}
@@trait tools::statistics::StatFunctionsGoal
    spec fn avg_goal(&self, r: Option<f64>) -> bool;
    spec fn dev_goal(&self, r: Option<f64>) -> bool;
@@impl tools::statistics::<Vec<Option<Solution<T>>> as StatFunctionsGoal>
    open spec fn avg_goal(&self, r: Option<f64>) -> bool { is_avg_goal(self@, r) }
    open spec fn dev_goal(&self, r: Option<f64>) -> bool { is_dev_goal(self@, r) }
@@fn tools::statistics::StatFunctionsGoal::get_average_goal
@@spec
    ensures self.avg_goal(r)
@@fn tools::statistics::StatFunctionsGoal::get_standard_deviation_goal
@@spec
    ensures self.dev_goal(r)
@@fn tools::statistics::<Vec<Option<Solution<T>>> as StatFunctionsGoal>::get_average_goal
@@props C25
@@at entry
proof { lem_cnt(self@, self@.len() as int); }
@@loop 0
        __f0 == cnt(self@, __i0 as int), __f0 <= __i0,
@@loop 1
        rm() ==> rv::<f64>(__f1) == goal_sum(self@, __i1 as int),
@@at loop 1 begin
proof { let g = goal_of(self@[__j1 as int]); }
@@fn tools::statistics::<Vec<Option<Solution<T>>> as StatFunctionsGoal>::get_standard_deviation_goal
@@props C25
@@at entry
proof { lem_cnt(self@, self@.len() as int); }
@@loop 0
        __f0 == cnt(self@, __i0 as int), __f0 <= __i0,
@@loop 1
        rm() ==> rv::<f64>(__f1) == sq_sum(self@, rv(average_value), __i1 as int),
@@at loop 1 begin
proof { let g = goal_of(self@[__j1 as int]); }
@@module tools::statistics
pub open spec fn total(s: Seq<usize>, n: int) -> int decreases n { if n <= 0 { 0 } else { total(s, n - 1) + s[n - 1] } }
pub proof fn lem_total(s: Seq<usize>, m: int, n: int) requires 0 <= m <= n <= s.len() ensures 0 <= total(s, m) <= total(s, n) decreases n { if m < n { lem_total(s, m, n - 1); } else if n > 0 { lem_total(s, n - 1, n - 1); } }
@@fn tools::statistics::CallCountData::get_average_call_count
@@props C25
@@spec
    requires total(self.0@, self.0@.len() as int) <= usize::MAX
    ensures r.is_some() == (self.0@.len() > 0),
        rm() && r.is_some() ==> rv(r.unwrap()) == (total(self.0@, self.0@.len() as int) as real) / (self.0@.len() as real)
@@loop 0
        __f0 == total(self.0@, __i0 as int), total(self.0@, self.0@.len() as int) <= usize::MAX,
@@at loop 0 begin
proof { lem_total(self.0@, __j0 + 1, self.0@.len() as int); }
@@module tools::statistics
/// the length of the shortest row (0 without rows)
pub open spec fn is_shortest<T>(s: Rows<T>, n: int, m: usize) -> bool {
    &&& n == 0 ==> m == 0
    &&& forall|k: int| 0 <= k < n ==> m <= (#[trigger] s[k])@.len()
    &&& n > 0 ==> exists|k: int| 0 <= k < n && m == (#[trigger] s[k])@.len()
}
pub open spec fn column<T>(s: Rows<T>, i: int) -> Seq<Option<(T, f64)>> { Seq::new(s.len(), |k: int| s[k]@[i]) }
pub open spec fn is_avg_conv<T>(s: Rows<T>, r: Seq<Option<f64>>) -> bool {
    &&& is_shortest(s, s.len() as int, r.len() as usize) && r.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < r.len() ==> is_avg_goal(column(s, i), #[trigger] r[i])
}
@@trait tools::statistics::StatFunctionsConvergence
    spec fn few_runs(&self) -> bool;
    spec fn avg_conv(&self, r: Seq<Option<f64>>) -> bool;
    spec fn shortest(&self, r: usize) -> bool;
@@impl tools::statistics::<Convergence as StatFunctionsConvergence>
    open spec fn few_runs(&self) -> bool { self@.len() <= i32::MAX }
    open spec fn avg_conv(&self, r: Seq<Option<f64>>) -> bool { is_avg_conv(self@, r) }
    open spec fn shortest(&self, r: usize) -> bool { is_shortest(self@, self@.len() as int, r) }
@@fn tools::statistics::StatFunctionsConvergence::get_average_convergence
@@spec
    requires self.few_runs()
    ensures self.avg_conv(r@)
@@fn tools::statistics::StatFunctionsConvergence::get_min_iterations
@@spec
    ensures self.shortest(r)
@@fn tools::statistics::<Convergence as StatFunctionsConvergence>::get_min_iterations
@@props C25
@@loop 0
        __i0 > 0 ==> is_shortest(self@, __i0 as int, __f0), __i0 == 0 ==> __f0 >= self@[0]@.len(),
@@at loop 0 begin
proof { let q = self@[__j0 as int]; }
@@fn tools::statistics::<Convergence as StatFunctionsConvergence>::get_average_convergence
@@props C25
@@loop 0
        result@.len() == __i0, min_iterations <= usize::MAX,
        forall|i: int| 0 <= i < __i0 ==> is_avg_goal(column(self@, i), #[trigger] result@[i]),
@@loop 1
        sum_count == cnt(column(self@, __j0 as int), __i1 as int), 0 <= sum_count <= __i1,
        rm() ==> rv::<f64>(sum) == goal_sum(column(self@, __j0 as int), __i1 as int),
@@at loop 1 begin
proof { let g = goal_of(column(self@, __j0 as int)[__j1 as int]); assert(self@[__j1 as int]@.len() > __j0); assert(column(self@, __j0 as int)[__j1 as int] == self@[__j1 as int]@[__j0 as int]); }
@@module tools::statistics
pub type Sols<T> = Seq<Option<(Vec<T>, f64)>>;
pub open spec fn sol_of<T>(x: Option<(Vec<T>, f64)>) -> Vec<T> { x.unwrap().0 }
/// sum of the i-th coordinates of the solutions
pub open spec fn comp_sum<T>(s: Sols<T>, i: int, n: int) -> real decreases n { if n <= 0 { 0real } else if s[n - 1].is_some() { comp_sum(s, i, n - 1) + rv(sol_of(s[n - 1])@[i]) } else { comp_sum(s, i, n - 1) } }
pub open spec fn comp_sq<T>(s: Sols<T>, i: int, m: real, n: int) -> real decreases n {
    if n <= 0 { 0real } else if s[n - 1].is_some() { comp_sq(s, i, m, n - 1) + (rv(sol_of(s[n - 1])@[i]) - m) * (rv(sol_of(s[n - 1])@[i]) - m) } else { comp_sq(s, i, m, n - 1) }
}
/// all solutions among the first n runs have this dimension
pub open spec fn dims<T>(s: Sols<T>, d: int, n: int) -> bool { forall|k: int| 0 <= k < n && (#[trigger] s[k]).is_some() ==> sol_of(s[k])@.len() == d }
pub open spec fn same_dims<T>(s: Sols<T>) -> bool { exists|d: int| #[trigger] dims(s, d, s.len() as int) }
pub open spec fn comp_mean<T>(s: Sols<T>, i: int) -> real { comp_sum(s, i, s.len() as int) / (cnt(s, s.len() as int) as real) }
pub open spec fn is_avg_sol<T>(s: Sols<T>, r: Option<(Vec<T>, f64)>) -> bool {
    &&& r.is_some() == (cnt(s, s.len() as int) > 0)
    &&& r.is_some() ==> is_avg_goal(s, Some(r.unwrap().1)) && dims(s, sol_of(r)@.len() as int, s.len() as int)
        && (rm() ==> forall|i: int| 0 <= i < sol_of(r)@.len() ==> rv(#[trigger] sol_of(r)@[i]) == comp_mean(s, i))
}
pub open spec fn is_dev_sol<T>(s: Sols<T>, r: Option<(Vec<T>, f64)>) -> bool {
    &&& r.is_some() == (cnt(s, s.len() as int) >= 2)
    &&& r.is_some() ==> is_dev_goal(s, Some(r.unwrap().1)) && dims(s, sol_of(r)@.len() as int, s.len() as int)
        && (rm() ==> forall|i: int| 0 <= i < sol_of(r)@.len() ==> rv(#[trigger] sol_of(r)@[i]) == rsqrt(comp_sq(s, i, comp_mean(s, i), s.len() as int) / ((cnt(s, s.len() as int) - 1) as real)))
}
/// accumulated so far
pub open spec fn sums<T>(s: Sols<T>, v: Option<Vec<T>>, n: int) -> bool {
    &&& v.is_some() == (cnt(s, n) > 0)
    &&& v.is_some() ==> dims(s, v.unwrap()@.len() as int, n) && (rm() ==> forall|i: int| 0 <= i < v.unwrap()@.len() ==> rv(#[trigger] v.unwrap()@[i]) == comp_sum(s, i, n))
}
pub open spec fn sq_sums<T>(s: Sols<T>, a: Vec<T>, v: Option<Vec<T>>, n: int) -> bool {
    &&& v.is_some() == (cnt(s, n) > 0)
    &&& v.is_some() ==> v.unwrap()@.len() == a@.len() && dims(s, a@.len() as int, n) && (rm() ==> forall|i: int| 0 <= i < v.unwrap()@.len() ==> rv(#[trigger] v.unwrap()@[i]) == comp_sq(s, i, rv(a@[i]), n))
}
/// before the first solution the sums are zero
pub proof fn lem_zero_sums<T>(s: Sols<T>, i: int, m: real, n: int) requires 0 <= n, cnt(s, n) == 0 ensures comp_sum(s, i, n) == 0real, comp_sq(s, i, m, n) == 0real, forall|k: int| 0 <= k < n ==> (#[trigger] s[k]).is_none() decreases n
{ if n > 0 { lem_cnt(s, n - 1); lem_zero_sums(s, i, m, n - 1); } }
pub proof fn lem_dims<T>(s: Sols<T>, d: int, e: int, n: int) requires dims(s, d, n), dims(s, e, n), cnt(s, n) > 0, 0 <= n <= s.len() ensures d == e decreases n
{
    if n > 0 { if s[n - 1].is_some() { assert(sol_of(s[n - 1])@.len() == d); assert(sol_of(s[n - 1])@.len() == e); } else { lem_dims(s, d, e, n - 1); } }
}
/// one more run
pub proof fn lem_sums_step<T>(s: Sols<T>, a: Option<Vec<T>>, b: Option<Vec<T>>, n: int)
    requires sums(s, a, n), 0 <= n < s.len(), s[n].is_none() ==> b == a,
        s[n].is_some() && a.is_none() ==> b.is_some() && b.unwrap()@ =~= sol_of(s[n])@,
        s[n].is_some() && a.is_some() ==> b.is_some() && b.unwrap()@.len() == a.unwrap()@.len() && a.unwrap()@.len() == sol_of(s[n])@.len()
            && (rm() ==> forall|i: int| 0 <= i < b.unwrap()@.len() ==> rv(#[trigger] b.unwrap()@[i]) == rv(a.unwrap()@[i]) + rv(sol_of(s[n])@[i]))
    ensures sums(s, b, n + 1)
{
    lem_cnt(s, n);
    if b.is_some() {
        let v = b.unwrap();
        assert forall|k: int| 0 <= k < n + 1 && (#[trigger] s[k]).is_some() implies sol_of(s[k])@.len() == v@.len() by { if a.is_none() { lem_zero_sums(s, 0, 0real, n); } }
        if rm() {
            assert forall|i: int| 0 <= i < v@.len() implies rv(#[trigger] v@[i]) == comp_sum(s, i, n + 1) by {
                if a.is_none() { lem_zero_sums(s, i, 0real, n); } else { let q = rv(a.unwrap()@[i]); }
            }
        }
    }
}
pub proof fn lem_sq_sums_step<T>(s: Sols<T>, m: Vec<T>, a: Option<Vec<T>>, b: Option<Vec<T>>, n: int)
    requires sq_sums(s, m, a, n), 0 <= n < s.len(), s[n].is_none() ==> b == a,
        s[n].is_some() ==> b.is_some() && b.unwrap()@.len() == m@.len() && sol_of(s[n])@.len() == m@.len(),
        s[n].is_some() && rm() ==> forall|i: int| 0 <= i < m@.len() ==>
            rv(#[trigger] b.unwrap()@[i]) == (if a.is_some() { rv(a.unwrap()@[i]) } else { 0real }) + (rv(sol_of(s[n])@[i]) - rv(m@[i])) * (rv(sol_of(s[n])@[i]) - rv(m@[i]))
    ensures sq_sums(s, m, b, n + 1)
{
    lem_cnt(s, n);
    if b.is_some() {
        let v = b.unwrap();
        assert forall|k: int| 0 <= k < n + 1 && (#[trigger] s[k]).is_some() implies sol_of(s[k])@.len() == m@.len() by { if a.is_none() { lem_zero_sums(s, 0, 0real, n); } }
        if rm() {
            assert forall|i: int| 0 <= i < v@.len() implies rv(#[trigger] v@[i]) == comp_sq(s, i, rv(m@[i]), n + 1) by {
                if a.is_none() { lem_zero_sums(s, i, rv(m@[i]), n); } else { let q = rv(a.unwrap()@[i]); }
            }
        }
    }
}
@@trait tools::statistics::StatFunctionsSolution
    spec fn good_dims(&self) -> bool;
    spec fn avg_sol(&self, r: Option<Solution<T>>) -> bool;
    spec fn dev_sol(&self, r: Option<Solution<T>>) -> bool;
    spec fn rate<P: Fn(&Solution<T>) -> bool>(&self, p: P, r: Option<f64>) -> bool;
@@impl tools::statistics::<Vec<Option<Solution<Vec<T>>>> as StatFunctionsSolution<Vec<T>>>
    open spec fn good_dims(&self) -> bool { same_dims(self@) }
    open spec fn avg_sol(&self, r: Option<Solution<Vec<T>>>) -> bool { is_avg_sol(self@, r) }
    open spec fn dev_sol(&self, r: Option<Solution<Vec<T>>>) -> bool { is_dev_sol(self@, r) }
    open spec fn rate<P: Fn(&Solution<Vec<T>>) -> bool>(&self, p: P, r: Option<f64>) -> bool { is_rate(self@, p, r) }
@@fn tools::statistics::StatFunctionsSolution::get_average
@@spec
    ensures self.avg_sol(r)
@@fn tools::statistics::StatFunctionsSolution::get_standard_deviation
@@spec
    ensures self.dev_sol(r)
@@fn tools::statistics::StatFunctionsSolution::get_success_rate
@@spec
    requires forall|x: &Solution<T>| call_requires(predicate, (x,))
    ensures self.rate(predicate, r)
@@module tools::statistics
/// how many of the first n runs have a solution the predicate accepted
pub open spec fn wins<S>(s: Seq<Option<S>>, a: Seq<bool>, n: int) -> int decreases n { if n <= 0 { 0 } else { wins(s, a, n - 1) + (if s[n - 1].is_some() && a[n - 1] { 1int } else { 0 }) } }
pub proof fn lem_wins<S>(s: Seq<Option<S>>, a: Seq<bool>, n: int) requires 0 <= n ensures 0 <= wins(s, a, n) <= n decreases n { if n > 0 { lem_wins(s, a, n - 1); } }
pub proof fn lem_wins_same<S>(s: Seq<Option<S>>, a: Seq<bool>, b: Seq<bool>, n: int) requires 0 <= n, forall|k: int| 0 <= k < n ==> a[k] == b[k] ensures wins(s, a, n) == wins(s, b, n) decreases n { if n > 0 { lem_wins_same(s, a, b, n - 1); } }
/// the answers the predicate gave for the runs that have a solution
pub open spec fn answers<T, P: Fn(&Solution<Vec<T>>) -> bool>(s: Sols<T>, p: P, a: Seq<bool>, n: int) -> bool {
    a.len() == n && forall|k: int| 0 <= k < n && (#[trigger] s[k]).is_some() ==> call_ensures(p, (&s[k].unwrap(),), a[k])
}
pub open spec fn is_rate<T, P: Fn(&Solution<Vec<T>>) -> bool>(s: Sols<T>, p: P, r: Option<f64>) -> bool {
    &&& r.is_some() == (s.len() > 0)
    &&& r.is_some() ==> exists|a: Seq<bool>| #[trigger] answers(s, p, a, s.len() as int) && (rm() ==> rv(r.unwrap()) == (wins(s, a, s.len() as int) as real) / (s.len() as real) && 0real <= rv(r.unwrap()) <= 1real)
}
pub proof fn lem_ratio(w: int, n: int) requires 0 <= w <= n, n > 0 ensures 0real <= (w as real) / (n as real) <= 1real
{
    let x = w as real; let m = n as real;
    assert(x / m >= 0real) by (nonlinear_arith) requires x >= 0real, m > 0real;
    assert(x / m <= 1real) by (nonlinear_arith) requires x <= m, m > 0real;
}
@@fn tools::statistics::<Vec<Option<Solution<Vec<T>>>> as StatFunctionsSolution<Vec<T>>>::get_success_rate
@@props C26
@@at entry
let ghost mut a: Seq<bool> = Seq::empty();
let ghost mut f = 0int;
@@loop 0
        answers(self@, predicate, a, __i0 as int), __f0 == wins(self@, a, __i0 as int), 0 <= __f0 <= __i0,
@@at loop 0 begin
let ghost f_old = __f0;
let ghost a_old = a;
@@at loop 0 end
proof {
    a = a_old.push(__f0 > f_old);
    lem_wins_same(self@, a, a_old, __j0 as int);
}
@@at loop 0 after
proof { lem_ratio(__f0 as int, self@.len() as int); assert(answers(self@, predicate, a, self@.len() as int)); }
@@fn tools::statistics::get_predicate_success_goal
@@props C26
@@spec
    ensures forall|x: &Solution<T>| call_requires(r, (x,)),
        forall|x: &Solution<T>, b: bool| call_ensures(r, (x,), b) ==> hit_goal(*x, expected_goal, delta, b)
@@closure 0
|__a0: &(T, GoalValue)| -> (b: bool) ensures hit_goal(*__a0, expected_goal, delta, b)
@@module tools::statistics
pub open spec fn goal_in<T>(x: (T, f64)) -> f64 { x.1 }
/// accepted exactly if strictly closer than delta; NaN never
pub open spec fn hit_goal<T>(x: (T, f64), expected: f64, delta: f64, b: bool) -> bool {
    &&& rm() && fin(goal_in(x)) && fin(expected) && fin(delta) ==> b == (rabs(rv(goal_in(x)) - rv(expected)) < rv(delta))
    &&& nan(goal_in(x)) || nan(expected) || nan(delta) ==> !b
}
pub open spec fn hit_at<T: Float>(x: T, e: T, d: T) -> bool { rabs(rv(x) - rv(e)) <= rv(d) }
pub open spec fn all_fin<T>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> fin(#[trigger] s[i]) }
pub open spec fn shorter(a: int, b: int) -> int { if a < b { a } else { b } }
/// accepted exactly if every coordinate is within its delta; NaN never
pub open spec fn hit_vec<T: Float>(x: Seq<T>, e: Seq<T>, d: Seq<T>, b: bool) -> bool {
    let n = shorter(x.len() as int, e.len() as int);
    &&& rm() && all_fin(x) && all_fin(e) && all_fin(d) ==> b == (forall|i: int| 0 <= i < n ==> hit_at(#[trigger] x[i], e[i], d[i]))
    &&& b ==> forall|i: int| 0 <= i < n ==> !nan_s(#[trigger] x[i]) && !nan_s(e[i]) && !nan_s(d[i])
}
pub open spec fn numbers_upto<T: Float>(x: Seq<T>, e: Seq<T>, d: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !nan_s(#[trigger] x[i]) && !nan_s(e[i]) && !nan_s(d[i]) }
pub open spec fn near_upto<T: Float>(x: Seq<T>, e: Seq<T>, d: Seq<T>, n: int) -> bool { forall|i: int| 0 <= i < n ==> hit_at(#[trigger] x[i], e[i], d[i]) }
pub proof fn lem_numbers_step<T: Float>(x: Seq<T>, e: Seq<T>, d: Seq<T>, n: int)
    requires 0 <= n, numbers_upto(x, e, d, n), !nan_s(x[n]), !nan_s(e[n]), !nan_s(d[n])
    ensures numbers_upto(x, e, d, n + 1)
{ assert forall|i: int| 0 <= i < n + 1 implies !nan_s(#[trigger] x[i]) && !nan_s(e[i]) && !nan_s(d[i]) by { if i < n { } else { assert(i == n); } } }
@@fn tools::statistics::get_predicate_success_vec_solution
@@props C26
@@valid
expected@.len() == delta@.len()
@@spec
    ensures expected@.len() == delta@.len(), forall|x: &Solution<Vec<T>>| call_requires(r, (x,)),
        forall|x: &Solution<Vec<T>>, b: bool| call_ensures(r, (x,), b) ==> hit_vec(x.0@, expected@, delta@, b)
@@closure 0
|__a0: &(Vec<T>, GoalValue)| -> (b: bool) requires expected@.len() == delta@.len() ensures hit_vec(__a0.0@, expected@, delta@, b)
@@loop 0
        numbers_upto(answer@, expected@, delta@, __i0 as int),
        rm() && all_fin(answer@) && all_fin(expected@) && all_fin(delta@) ==> near_upto(answer@, expected@, delta@, __i0 as int),
@@at loop 0 end
proof {
    assert(!nan_s(expected@[__j0 as int])); assert(!nan_s(delta@[__j0 as int])); assert(!nan_s(answer@[__j0 as int]));
    lem_numbers_step(answer@, expected@, delta@, __j0 as int);
    if rm() && all_fin(answer@) && all_fin(expected@) && all_fin(delta@) {
        assert(fin(answer@[__j0 as int]) && fin(expected@[__j0 as int]) && fin(delta@[__j0 as int]));
        assert(hit_at(answer@[__j0 as int], expected@[__j0 as int], delta@[__j0 as int]));
    }
}
@@at loop 0 after
proof {
    assert(__n0 == shorter(answer@.len() as int, expected@.len() as int));
    assert(answer@ == __a0.0@);
    assert(hit_vec(answer@, expected@, delta@, true));
}
@@fn tools::statistics::vectorize
@@props C25
@@valid
v1@.len() == v2@.len()
@@spec
    requires forall|x: &T, y: &T| call_requires(func, (x, y))
    ensures v1@.len() == v2@.len(), r@.len() == v1@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(func, (&v1@[i], &v2@[i]), #[trigger] r@[i])
@@loop 0
        __c0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> call_ensures(func, (&v1@[i], &v2@[i]), #[trigger] __c0@[i]),
@@fn tools::statistics::<Vec<Option<Solution<Vec<T>>>> as StatFunctionsSolution<Vec<T>>>::get_average
@@props C25
@@valid
same_dims(self@)
@@at entry
proof { lem_cnt(self@, self@.len() as int); }
@@loop 0
        __f0 == cnt(self@, __i0 as int), __f0 <= __i0,
@@loop 1
        sums(self@, solution, __i1 as int),
@@at loop 1 begin
let ghost v_old = solution;
proof {
    let g = sol_of(self@[__j1 as int]);
    if same_dims(self@) && v_old.is_some() { let d = choose|d: int| dims(self@, d, self@.len() as int); lem_dims(self@, d, v_old.unwrap()@.len() as int, __j1 as int); assert(self@[__j1 as int].is_some() ==> g@.len() == d); }
}
@@at loop 1 end
proof { lem_sums_step(self@, v_old, solution, __j1 as int); }
@@closure 0
|__a0: &T, __a1: &T| -> (z: T) ensures rm() ==> rv(z) == rv(*__a0) + rv(*__a1)
@@loop 2
        __c2@.len() == __i2, rm() ==> forall|i: int| 0 <= i < __i2 ==> rv(#[trigger] __c2@[i]) == comp_mean(self@, i),
@@fn tools::statistics::<Vec<Option<Solution<Vec<T>>>> as StatFunctionsSolution<Vec<T>>>::get_standard_deviation
@@props C25
@@valid
same_dims(self@)
@@at entry
proof { lem_cnt(self@, self@.len() as int); }
@@loop 0
        __f0 == cnt(self@, __i0 as int), __f0 <= __i0,
@@loop 1
        sq_sums(self@, solution_average, sum, __i1 as int),
@@at loop 1 begin
let ghost v_old = sum;
proof { let g = sol_of(self@[__j1 as int]); }
@@at loop 1 end
proof { lem_sq_sums_step(self@, solution_average, v_old, sum, __j1 as int); }
@@closure 0
|__a0: &T, __a1: &T| -> (z: T) ensures rm() ==> rv(z) == (rv(*__a0) - rv(*__a1)) * (rv(*__a0) - rv(*__a1))
@@closure 1
|__a0: &T, __a1: &T| -> (z: T) ensures rm() ==> rv(z) == (rv(*__a0) - rv(*__a1)) * (rv(*__a0) - rv(*__a1))
@@closure 2
|__a0: &T, __a1: &T| -> (z: T) ensures rm() ==> rv(z) == rv(*__a0) + rv(*__a1)
@@loop 2
        __c2@.len() == __i2, rm() ==> forall|i: int| 0 <= i < __i2 ==> rv(#[trigger] __c2@[i]) == rsqrt(comp_sq(self@, i, comp_mean(self@, i), self@.len() as int) / ((cnt(self@, self@.len() as int) - 1) as real)),
