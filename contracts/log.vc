@@# C29: the text loggers
@@module tools::logging
broadcast use {crate::shim::text_lemmas, vstd::seq::group_seq_axioms};
pub use crate::shim::{Tok, vals, words, apart, shown, grew, tail};
/// the values printed for the first n coordinates
pub open spec fn coords<T>(s: Seq<T>, p: usize, n: int) -> Seq<Tok> { Seq::new(n as nat, |i: int| Tok::Val(shown(s[i], Some(p)))) }
pub open spec fn val<T>(x: T, p: Option<usize>) -> Tok { Tok::Val(shown(x, p)) }
/// the first line says something, without a value
pub open spec fn says(s: Seq<Tok>) -> bool {
    exists|k: int| 1 <= k < s.len() && #[trigger] s[k] is Nl && (forall|i: int| 0 <= i < k ==> s[i] is Lit) && exists|i: int| 0 <= i < k && #[trigger] s[i]->wordy
}
pub proof fn lem_coords<T>(s: Seq<T>, p: usize, n: int)
    requires 0 <= n < s.len()
    ensures coords(s, p, n + 1) == coords(s, p, n).push(val(s[n], Some(p)))
{ assert(coords(s, p, n + 1) =~= coords(s, p, n).push(val(s[n], Some(p)))); }
@@impl tools::logging::<VerboseLogger as Logger>
    uninterp spec fn log(&self) -> Seq<Ev<Vec<T>>>;
@@impl tools::logging::<ResultOnlyLogger as Logger>
    uninterp spec fn log(&self) -> Seq<Ev<Vec<T>>>;
@@impl tools::logging::<TimeLogger as Logger>
    uninterp spec fn log(&self) -> Seq<Ev<Vec<T>>>;

@@fn tools::logging::VerboseLogger::new
@@props C29
@@spec
    ensures r.precision == precision, r.writer.out() == old(writer).out()
@@fn tools::logging::ResultOnlyLogger::new
@@props C29
@@spec
    ensures r.precision == precision, r.writer.out() == old(writer).out()
@@fn tools::logging::TimeLogger::new
@@props C29
@@spec
    ensures r.start_time is None, r.writer.out() == old(writer).out()
@@fn tools::logging::<VerboseLogger as Logger>::next_iteration
@@props C29
@@mode lift
@@spec
    ensures final(self).precision == old(self).precision,
        state.s_best() is None ==> final(self).writer.out() == old(self).writer.out(),
        grew(old(self).writer.out(), final(self).writer.out()),
        apart(tail(old(self).writer.out(), final(self).writer.out())),
        state.s_best() is Some ==> vals(tail(old(self).writer.out(), final(self).writer.out()))
            == seq![val(state.s_iter(), None)] + coords((state.s_best()->0).0@, old(self).precision, (state.s_best()->0).0@.len() as int)
                + seq![val((state.s_best()->0).1, Some(old(self).precision)), Tok::Nl]
@@loop 0
        __n0 == solution@.len(), Some((solution, goal)) == state.s_best(), self_.precision == old(self_).precision, self_.writer == old(self_).writer,
        apart(result.toks()), result.toks().len() > 0,
        vals(result.toks()) == seq![val(state.s_iter(), None)] + coords(solution@, self_.precision, __i0 as int),
@@at loop 0 before
        assert(vals(result.toks()) =~= seq![val(state.s_iter(), None)] + coords(solution@, self_.precision, 0));
@@at loop 0 begin
        proof { lem_coords(solution@, self_.precision, __j0 as int); }
@@at loop 0 end
        assert(vals(result.toks()) =~= seq![val(state.s_iter(), None)] + coords(solution@, self_.precision, __i0 as int));
@@at exit
        proof { if state.s_best() is Some {
            assert(vals(tail(old(self_).writer.out(), self_.writer.out())) =~= seq![val(state.s_iter(), None)] + coords((state.s_best()->0).0@, old(self_).precision, (state.s_best()->0).0@.len() as int)
                + seq![val((state.s_best()->0).1, Some(old(self_).precision)), Tok::Nl]);
        } }
@@fn tools::logging::<ResultOnlyLogger as Logger>::start
@@props C29
@@mode lift
@@spec
    ensures *final(self) == *old(self)
@@fn tools::logging::<ResultOnlyLogger as Logger>::finish
@@props C29
@@mode lift
@@spec
    ensures final(self).precision == old(self).precision,
        grew(old(self).writer.out(), final(self).writer.out()),
        apart(tail(old(self).writer.out(), final(self).writer.out())),
        tail(old(self).writer.out(), final(self).writer.out()).last() is Nl,
        words(tail(old(self).writer.out(), final(self).writer.out())) == (match state.s_best() {
            None => seq![val(state.s_iter(), None)],
            Some(b) => coords(b.0@, old(self).precision, b.0@.len() as int) + seq![val(b.1, Some(old(self).precision)), val(state.s_iter(), None)],
        }),
        state.s_best() is None ==> says(tail(old(self).writer.out(), final(self).writer.out()))
@@loop 0
        __n0 == solution@.len(), Some((solution, goal)) == state.s_best(), self_.precision == old(self_).precision, self_.writer == old(self_).writer,
        apart(result.toks()), result.toks().len() > 0, result.toks().last() is Nl,
        words(result.toks()) == coords(solution@, self_.precision, __i0 as int),
@@at loop 0 before
        assert(words(result.toks()) =~= coords(solution@, self_.precision, 0));
@@at loop 0 begin
        proof { lem_coords(solution@, self_.precision, __j0 as int); }
@@at loop 0 end
        assert(words(result.toks()) =~= coords(solution@, self_.precision, __i0 as int));
@@at exit
        assert(words(tail(old(self_).writer.out(), self_.writer.out())) =~= (match state.s_best() {
            None => seq![val(state.s_iter(), None)],
            Some(b) => coords(b.0@, old(self_).precision, b.0@.len() as int) + seq![val(b.1, Some(old(self_).precision)), val(state.s_iter(), None)],
        }));
        proof { if state.s_best() is None {
            let t = tail(old(self_).writer.out(), self_.writer.out());
            assert(t[0]->wordy);
            assert(t[1] is Nl);
        } }
@@fn tools::logging::<TimeLogger as Logger>::resume
@@props C29
@@mode lift
@@spec
    ensures final(self).start_time is Some, final(self).start_time->0.read(), final(self).writer == old(self).writer
@@fn tools::logging::<TimeLogger as Logger>::finish
@@props C29
@@mode lift
@@spec
    requires old(self).start_time is Some
    ensures final(self).start_time == old(self).start_time,
        grew(old(self).writer.out(), final(self).writer.out()),
        apart(tail(old(self).writer.out(), final(self).writer.out())),
        exists|d: crate::shim::time::Duration| old(self).start_time->0.since(d)
            && #[trigger] vals(tail(old(self).writer.out(), final(self).writer.out())) == seq![Tok::Val(crate::shim::int_shown((d.nanos() / 1_000_000) as int)), Tok::Nl]
@@# not overridden today (the trait's default does nothing)
@@fn tools::logging::<VerboseLogger as Logger>::start
@@props C29
@@mode lift
@@spec
    ensures final(self).writer.out() == old(self).writer.out()
@@# not overridden today (the trait's default does nothing)
@@fn tools::logging::<VerboseLogger as Logger>::resume
@@props C29
@@mode lift
@@spec
    ensures final(self).writer.out() == old(self).writer.out()
@@# not overridden today (the trait's default does nothing)
@@fn tools::logging::<VerboseLogger as Logger>::finish
@@props C29
@@mode lift
@@spec
    ensures final(self).writer.out() == old(self).writer.out()
@@# not overridden today (the trait's default does nothing)
@@fn tools::logging::<ResultOnlyLogger as Logger>::resume
@@props C29
@@mode lift
@@spec
    ensures final(self).writer.out() == old(self).writer.out()
@@# not overridden today (the trait's default does nothing)
@@fn tools::logging::<ResultOnlyLogger as Logger>::next_iteration
@@props C29
@@mode lift
@@spec
    ensures final(self).writer.out() == old(self).writer.out()
@@# not overridden today (the trait's default does nothing)
@@fn tools::logging::<TimeLogger as Logger>::start
@@props C29
@@mode lift
@@spec
    ensures final(self).writer.out() == old(self).writer.out()
@@# not overridden today (the trait's default does nothing)
@@fn tools::logging::<TimeLogger as Logger>::next_iteration
@@props C29
@@mode lift
@@spec
    ensures final(self).writer.out() == old(self).writer.out()
