@@# ------------------------------------------------------------------ stop checkers (C22, C23)
@@module tools::stopchecker
broadcast use {crate::spec::ax, crate::realmodel::rax, crate::realmodel::fax, crate::num::numax};
pub open spec fn bgoal<T>(best: Option<(T, f64)>) -> f64 { best.unwrap().1 }
// typed access to float fields (the verifier does not know that the float fields of a struct are floats)
pub open spec fn thr(t: Threshold) -> f64 { t.threshold }
/// how one member was treated during a check: asked at most once, about this state
pub open spec fn member<T>(a: Seq<Ask<T>>, b: Seq<Ask<T>>, iter: usize, best: Option<(T, f64)>) -> bool {
    b == a || b == a.push(Ask { iter, best, ans: true }) || b == a.push(Ask { iter, best, ans: false })
}
pub open spec fn said<T>(a: Seq<Ask<T>>, b: Seq<Ask<T>>, iter: usize, best: Option<(T, f64)>, ans: bool) -> bool {
    b == a.push(Ask { iter, best, ans })
}
@@fn tools::stopchecker::CompositeAny::new
@@props C22
@@valid
stop_checkers@.len() > 0
@@spec
    ensures stop_checkers@.len() > 0, r.stop_checkers == stop_checkers
@@fn tools::stopchecker::CompositeAll::new
@@props C22
@@valid
stop_checkers@.len() > 0
@@spec
    ensures stop_checkers@.len() > 0, r.stop_checkers == stop_checkers
@@module tools::stopchecker
/// the members up to n were all asked about this state and gave this answer; the others were left alone
pub open spec fn asked_upto<T>(a: Seq<Box<dyn StopChecker<T>>>, b: Seq<Box<dyn StopChecker<T>>>, iter: usize, best: Option<(T, f64)>, ans: bool, n: int) -> bool {
    &&& a.len() == b.len() && 0 <= n <= a.len()
    &&& forall|k: int| 0 <= k < n ==> said((#[trigger] a[k]).asks(), b[k].asks(), iter, best, ans)
    &&& forall|k: int| n <= k < a.len() ==> b[k] == #[trigger] a[k]
}
/// the check as a whole: every member asked at most once, about this state
pub open spec fn members<T>(a: Seq<Box<dyn StopChecker<T>>>, b: Seq<Box<dyn StopChecker<T>>>, iter: usize, best: Option<(T, f64)>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> member((#[trigger] a[k]).asks(), b[k].asks(), iter, best)
}
/// some member was asked about this state and answered so
pub open spec fn one_said<T>(a: Seq<Box<dyn StopChecker<T>>>, b: Seq<Box<dyn StopChecker<T>>>, iter: usize, best: Option<(T, f64)>, ans: bool) -> bool {
    exists|k: int| 0 <= k < a.len() && said((#[trigger] a[k]).asks(), b[k].asks(), iter, best, ans)
}
@@fn tools::stopchecker::<CompositeAny as StopChecker>::can_stop
@@props C22
@@mode lift
@@spec
    ensures members(old(self).stop_checkers@, final(self).stop_checkers@, state.s_iter(), state.s_best()),
        r ==> one_said(old(self).stop_checkers@, final(self).stop_checkers@, state.s_iter(), state.s_best(), true),
        !r ==> asked_upto(old(self).stop_checkers@, final(self).stop_checkers@, state.s_iter(), state.s_best(), false, old(self).stop_checkers@.len() as int)
@@at entry
let ghost o = self_.stop_checkers@;
@@loop 0
        asked_upto(o, self_.stop_checkers@, state.s_iter(), state.s_best(), false, __i0 as int),
@@at loop 0 begin
proof { assert(o[__j0 as int] == self_.stop_checkers@[__j0 as int]); }
@@fn tools::stopchecker::<CompositeAll as StopChecker>::can_stop
@@props C22
@@mode lift
@@spec
    ensures members(old(self).stop_checkers@, final(self).stop_checkers@, state.s_iter(), state.s_best()),
        !r ==> one_said(old(self).stop_checkers@, final(self).stop_checkers@, state.s_iter(), state.s_best(), false),
        r ==> asked_upto(old(self).stop_checkers@, final(self).stop_checkers@, state.s_iter(), state.s_best(), true, old(self).stop_checkers@.len() as int)
@@at entry
let ghost o = self_.stop_checkers@;
@@loop 0
        asked_upto(o, self_.stop_checkers@, state.s_iter(), state.s_best(), true, __i0 as int),
@@at loop 0 begin
proof { assert(o[__j0 as int] == self_.stop_checkers@[__j0 as int]); }
@@fn tools::stopchecker::MaxIterations::new
@@props C22
@@spec
    ensures r.max_iter == max_iter
@@fn tools::stopchecker::<MaxIterations as StopChecker>::can_stop
@@props C22
@@mode lift
@@spec
    ensures r == (state.s_iter() >= old(self).max_iter), *final(self) == *old(self)
@@fn tools::stopchecker::Threshold::new
@@props C22
@@spec
    ensures r.threshold == threshold
@@fn tools::stopchecker::<Threshold as StopChecker>::can_stop
@@props C22
@@mode lift
@@spec
    ensures *final(self) == *old(self),
        r == (state.s_best().is_some() && bgoal(state.s_best()).ieee_le(thr(*old(self))))
@@fn tools::stopchecker::GoalNotChange::new
@@props C23
@@spec
    ensures r.max_iter == max_iter, r.delta == delta, r.old_goal == crate::shim::f64_max_s(), r.change_iter == 0
@@module tools::stopchecker
pub open spec fn kept_goal(s: GoalNotChange) -> f64 { s.old_goal }
pub open spec fn tolerance(s: GoalNotChange) -> f64 { s.delta }
/// one check made by a stagnation checker: the state it was shown and its answer
pub open spec fn stag_none(a: GoalNotChange, b: GoalNotChange, r: bool) -> bool { b == a && !r }
/// `moved`: the goal differs from the remembered one by more than delta
pub open spec fn stag_some(a: GoalNotChange, b: GoalNotChange, iter: usize, goal: f64, r: bool, moved: bool) -> bool {
    &&& rm() && fin(goal) && fin(kept_goal(a)) && fin(tolerance(a)) ==> moved == (rabs(rv(goal) - rv(kept_goal(a))) > rv(tolerance(a)))
    &&& b.max_iter == a.max_iter && b.delta == a.delta
    &&& moved || iter < a.change_iter ==> b.old_goal == goal && b.change_iter == iter
    &&& !moved && iter >= a.change_iter ==> b == a
    &&& b.change_iter <= iter
    &&& r == (iter - b.change_iter > b.max_iter)
}
pub open spec fn stag<T>(a: GoalNotChange, b: GoalNotChange, iter: usize, best: Option<(T, f64)>, r: bool) -> bool {
    match best {
        None => stag_none(a, b, r),
        Some(s) => stag_some(a, b, iter, s.1, r, true) || stag_some(a, b, iter, s.1, r, false),
    }
}
@@fn tools::stopchecker::<GoalNotChange as StopChecker>::can_stop
@@props C23
@@mode lift
@@spec
    ensures stag(*old(self), *final(self), state.s_iter(), state.s_best(), r)
@@at entry
proof { let g = bgoal(state.s_best()); let k = kept_goal(*self_); let t = tolerance(*self_); }
@@module tools::stopchecker
/// the reference after n checks of a history: the value remembered and the iteration of the last check that moved it
pub open spec fn reference<T>(h: Seq<(usize, Option<(T, f64)>)>, delta: f64, n: int) -> (f64, usize) decreases n {
    if n <= 0 { (crate::shim::f64_max_s(), 0) } else {
        let (g, i) = reference(h, delta, n - 1);
        match h[n - 1].1 {
            None => (g, i),
            Some(s) => if rabs(rv(s.1) - rv(g)) > rv(delta) || h[n - 1].0 < i { (s.1, h[n - 1].0) } else { (g, i) },
        }
    }
}
pub open spec fn refg<T>(h: Seq<(usize, Option<(T, f64)>)>, delta: f64, n: int) -> f64 { reference(h, delta, n).0 }
/// whole histories (over the reals): after every check the checker remembers exactly the reference, and the
/// answer says whether more than the configured number of iterations have passed since
pub proof fn lem_stagnation<T>(st: Seq<GoalNotChange>, h: Seq<(usize, Option<(T, f64)>)>, ans: Seq<bool>, n: int)
    requires rm(), 0 <= n, h.len() == n, ans.len() == n, st.len() == n + 1, st[0].old_goal == crate::shim::f64_max_s(), st[0].change_iter == 0, fin(tolerance(st[0])), fin(kept_goal(st[0])),
        forall|i: int| 0 <= i < n && h[i].1.is_some() ==> fin((#[trigger] h[i]).1.unwrap().1),
        forall|i: int| 0 <= i < n ==> stag(#[trigger] st[i], st[i + 1], h[i].0, h[i].1, ans[i])
    ensures st[n].max_iter == st[0].max_iter, tolerance(st[n]) == tolerance(st[0]), fin(kept_goal(st[n])),
        kept_goal(st[n]) == refg(h, st[0].delta, n), st[n].change_iter == reference(h, st[0].delta, n).1,
        n > 0 ==> ans[n - 1] == (h[n - 1].1.is_some() && h[n - 1].0 - reference(h, st[0].delta, n).1 > st[0].max_iter)
    decreases n
{
    if n > 0 {
        let h1 = h.drop_last();
        assert forall|i: int| 0 <= i < n - 1 implies stag(#[trigger] st.drop_last()[i], st.drop_last()[i + 1], h1[i].0, h1[i].1, ans.drop_last()[i]) by { assert(stag(st[i], st[i + 1], h[i].0, h[i].1, ans[i])); }
        lem_stagnation(st.drop_last(), h1, ans.drop_last(), n - 1);
        lem_reference_prefix(h1, h, st[0].delta, n - 1);
        assert(stag(st[n - 1], st[n], h[n - 1].0, h[n - 1].1, ans[n - 1]));
        assert(h[n - 1] == h.last());
        if h[n - 1].1.is_some() { assert(fin(h[n - 1].1.unwrap().1)); }
    }
}
pub proof fn lem_reference_prefix<T>(a: Seq<(usize, Option<(T, f64)>)>, b: Seq<(usize, Option<(T, f64)>)>, delta: f64, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures reference(a, delta, n) == reference(b, delta, n)
    decreases n
{
    if n > 0 { lem_reference_prefix(a, b, delta, n - 1); assert(a[n - 1] == b[n - 1]); }
}
