@@impl tools::stopchecker::<CompositeAny as StopChecker>
    uninterp spec fn asks(&self) -> Seq<Ask<T>>;
@@impl tools::stopchecker::<CompositeAll as StopChecker>
    uninterp spec fn asks(&self) -> Seq<Ask<T>>;
@@impl tools::stopchecker::<MaxIterations as StopChecker>
    uninterp spec fn asks(&self) -> Seq<Ask<T>>;
@@impl tools::stopchecker::<GoalNotChange as StopChecker>
    uninterp spec fn asks(&self) -> Seq<Ask<T>>;
@@impl tools::stopchecker::<Threshold as StopChecker>
    uninterp spec fn asks(&self) -> Seq<Ask<T>>;
@@impl tools::statistics::<StatisticsLogger as Logger>
    uninterp spec fn log(&self) -> Seq<crate::tools::logging::Ev<T>>;
@@impl tools::statistics::<GoalCalcStatistics as Goal>
    uninterp spec fn calls(&self) -> Seq<(T, f64)>;
@@impl genetic::creation::vec_float::<RandomCreator as Creator>
    uninterp spec fn log(&self) -> Seq<Seq<Vec<G>>>;
@@impl genetic::cross::<CrossMean as Cross>
    uninterp spec fn log(&self) -> Seq<(Seq<G>, Seq<G>)>;
@@impl genetic::cross::<FloatCrossGeometricMean as Cross>
    uninterp spec fn log(&self) -> Seq<(Seq<G>, Seq<G>)>;
@@impl genetic::cross::<FloatCrossExp as Cross>
    uninterp spec fn log(&self) -> Seq<(Seq<T>, Seq<T>)>;
@@impl genetic::cross::<CrossBitwise as Cross<f64>>
    uninterp spec fn log(&self) -> Seq<(Seq<f64>, Seq<f64>)>;
@@impl genetic::cross::<CrossBitwise as Cross<f32>>
    uninterp spec fn log(&self) -> Seq<(Seq<f32>, Seq<f32>)>;
@@impl genetic::cross::<VecCrossAllGenes as Cross>
    uninterp spec fn log(&self) -> Seq<(Seq<Vec<G>>, Seq<Vec<G>>)>;
@@impl genetic::mutation::<BitwiseMutation as Mutation<f64>>
    uninterp spec fn log(&self) -> Seq<(f64, f64)>;
@@impl genetic::mutation::<BitwiseMutation as Mutation<f32>>
    uninterp spec fn log(&self) -> Seq<(f32, f32)>;
@@impl genetic::mutation::<VecMutation as Mutation>
    uninterp spec fn log(&self) -> Seq<(Vec<G>, Vec<G>)>;
@@impl genetic::pairing::<RandomPairing as Pairing>
    uninterp spec fn log(&self) -> Seq<(Seq<crate::genetic::Individual<T>>, Seq<Seq<usize>>)>;
@@impl genetic::pairing::<Tournament as Pairing>
    uninterp spec fn log(&self) -> Seq<(Seq<crate::genetic::Individual<T>>, Seq<Seq<usize>>)>;
@@impl genetic::pre_birth::vec_float::<CheckChromoInterval as PreBirth>
    uninterp spec fn log(&self) -> Seq<(Seq<crate::genetic::Individual<Vec<G>>>, Seq<Vec<G>>, Seq<Vec<G>>)>;
@@impl genetic::selection::vec_float::<CheckChromoInterval as Selection>
    uninterp spec fn log(&self) -> Seq<(Seq<crate::genetic::Individual<Vec<G>>>, Seq<crate::genetic::Individual<Vec<G>>>)>;
@@impl genetic::selection::<KillFitnessNaN as Selection>
    uninterp spec fn log(&self) -> Seq<(Seq<crate::genetic::Individual<T>>, Seq<crate::genetic::Individual<T>>)>;
@@impl genetic::selection::<LimitPopulation as Selection>
    uninterp spec fn log(&self) -> Seq<(Seq<crate::genetic::Individual<T>>, Seq<crate::genetic::Individual<T>>)>;
