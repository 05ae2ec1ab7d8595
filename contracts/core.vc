@@trait AlgorithmState
    spec fn s_best(&self) -> Option<(T, f64)>;
    spec fn s_iter(&self) -> usize;
@@fn AlgorithmState::get_best_solution
@@spec
    ensures r == self.s_best()
@@fn AlgorithmState::get_iteration
@@spec
    ensures r == self.s_iter()
@@trait AgentsState
    spec fn s_agents(&self) -> Seq<Self::Agent>;
@@fn AgentsState::get_agents
@@spec
    ensures r@.len() == self.s_agents().len(),
        forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.s_agents()[i]
@@trait Agent
    spec fn s_param(&self) -> T;
    spec fn s_goal(&self) -> f64;
@@fn Agent::get_parameter
@@spec
    ensures *r == self.s_param()
@@fn Agent::get_goal
@@spec
    ensures r == self.s_goal()
@@trait Goal
    /// every call made: (argument, value returned)
    spec fn calls(&self) -> Seq<(T, f64)>;
@@fn Goal::get
@@spec
    ensures final(self).calls() == old(self).calls().push((*x, r))
@@fn GoalFromFunction::new
@@props C27
@@spec
    ensures r.function == function
@@impl <GoalFromFunction as Goal>
    open spec fn calls(&self) -> Seq<(T, f64)> { self.function.calls() }
@@fn <GoalFromFunction as Goal>::get
@@props C27
@@fn Optimizer::find_min
@@fn IterativeOptimizer::next_iterations

@@trait tools::logging::Logger
    spec fn log(&self) -> Seq<Ev<T>>;
@@module tools::logging
pub enum EvKind { Start, Resume, Next, Finish }
/// one call received by a logger, with the iteration and best solution of the state it was given
pub struct Ev<T> { pub kind: EvKind, pub iter: usize, pub best: Option<(T, f64)> }
@@fn tools::logging::Logger::start
@@mode external
@@spec
    ensures final(self).log() == old(self).log().push(Ev { kind: EvKind::Start, iter: _state.s_iter(), best: _state.s_best() })
@@fn tools::logging::Logger::resume
@@mode external
@@spec
    ensures final(self).log() == old(self).log().push(Ev { kind: EvKind::Resume, iter: _state.s_iter(), best: _state.s_best() })
@@fn tools::logging::Logger::next_iteration
@@mode external
@@spec
    ensures final(self).log() == old(self).log().push(Ev { kind: EvKind::Next, iter: _state.s_iter(), best: _state.s_best() })
@@fn tools::logging::Logger::finish
@@mode external
@@spec
    ensures final(self).log() == old(self).log().push(Ev { kind: EvKind::Finish, iter: _state.s_iter(), best: _state.s_best() })

@@trait tools::stopchecker::StopChecker
    spec fn asks(&self) -> Seq<Ask<T>>;
@@module tools::stopchecker
/// one question put to a stop checker: what it was shown and what it answered
pub struct Ask<T> { pub iter: usize, pub best: Option<(T, f64)>, pub ans: bool }
@@fn tools::stopchecker::StopChecker::can_stop
@@spec
    ensures final(self).asks() == old(self).asks().push(Ask { iter: state.s_iter(), best: state.s_best(), ans: r })
