#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
G='optlib/src/genetic/'; P='optlib/src/particleswarm/'; T='optlib/src/tools/'
props=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    props.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Genetic algorithm reports honest goal values",
  "Whenever a genetic optimisation (a fresh run or a continuation) reports a solution, its goal value is exactly the value the user's goal function returned when it was called with exactly those chromosomes. Every individual is evaluated exactly once, when it joins the population, and its chromosomes and fitness never change afterwards.",
  ["inputs","histories"],"all goal functions (also non-deterministic ones and ones returning NaN/inf), all user-supplied operators, all run/continue histories",
  "The integration tests only look at the final goal of a handful of runs with a pure goal function and never compare the evaluations made with the individuals held.",
  [G+"mod.rs"],[("Population::push evaluates once and stores",G+"mod.rs"),("GeneticOptimizer::next_iterations returns best_individual",G+"mod.rs")],
  [("individuals","the population with stored fitness",G+"mod.rs")],["find_min / next_iterations result","calls made to the goal object","population handed to selections, pairing and loggers"])
p("C02","Best and worst individual of each generation",
  "After every completed generation of the genetic algorithm the population's reported best (worst) individual is one of its members and no member has a smaller (larger) goal value. A member whose goal value is NaN is reported as best or worst only if all members are NaN. If no member is left, the previously reported best and worst are kept.",
  ["inputs","histories"],"all populations (any size, any order, duplicates, NaN and infinite goals) after any history of generations",
  "No unit test exercises best/worst bookkeeping; integration tests only check that the final best is near the optimum.",
  [G+"mod.rs"],[("update_best_worst_individuals, individuals_min_cmp, individuals_max_cmp",G+"mod.rs")],
  [("best_individual / worst_individual","extremes of the last generation",G+"mod.rs")],["Population::get_best / get_worst","get_best_solution seen by loggers and stop checkers"])
p("C03","Population limit is exact truncation selection",
  "Applying the population-limit selection leaves exactly min(limit, number alive before) individuals alive, and never kills an individual while one with a strictly worse goal value (NaN being worse than every number) survives. Killing the N worst kills exactly min(N, number alive) individuals by the same rule. Dead individuals stay dead and nothing except aliveness changes.",
  ["inputs"],"all population sizes, limits, counts, goal values (NaN, infinite, equal) and all patterns of already dead individuals",
  "There is no unit test of the selection module; integration runs never have dead individuals before the limit is applied.",
  [G+"selection/mod.rs"],[("LimitPopulation::kill, kill_worst",G+"selection/mod.rs"),("Population::len_alive",G+"mod.rs")],None,["aliveness of every individual before/after the selection"])
p("C04","Elitism under truncation selection",
  "If the selections of a genetic algorithm consist of a population limit of at least 1, optionally preceded by the selection that kills individuals with non-finite fitness, and some candidate evaluated in a run so far has a finite goal value while none is minus infinity, then after every generation the reported best goal value equals the smallest non-NaN goal value evaluated in that run so far. In particular it never gets worse from one generation to the next, also across continuations of the same run.",
  ["inputs","histories"],"all goal functions without -inf values, all pairing/cross/mutation/creation/pre-birth operators, all numbers of generations and continuations",
  "It is a whole-history property of arbitrary runs; tests look at final results of a few random runs only.",
  [G+"mod.rs",G+"selection/mod.rs"],[("kill_worst keeps the best",G+"selection/mod.rs"),("remove_dead, update_best_worst_individuals",G+"mod.rs")],None,["best solution seen by a logger after each generation","values returned by the goal"])
p("C05","Filtering selections kill exactly the invalid individuals",
  "The non-finite-fitness selection kills exactly the individuals whose fitness is NaN or infinite; the chromosome-interval selection kills exactly the individuals having a chromosome that is non-finite, below its interval's minimum or above its maximum (the end points are inside). All other individuals keep their aliveness, and no chromosomes or fitness are changed. The interval selection rejects an individual whose number of chromosomes differs from the number of intervals by a panic.",
  ["inputs"],"all populations, all interval lists of matching dimension, all float values",
  "No unit test covers these selections.",
  [G+"selection/mod.rs",G+"selection/vec_float.rs"],[("KillFitnessNaN::kill",G+"selection/mod.rs"),("CheckChromoInterval::kill",G+"selection/vec_float.rs")],None,["aliveness of every individual"])
p("C06","Pre-birth interval filter",
  "The pre-birth interval filter keeps exactly the new chromosome vectors all of whose coordinates are finite and within the closed interval of their dimension, in their original order and unmodified; a vector of another dimension than the interval list is rejected by a panic. A genetic algorithm configured with it never evaluates the goal function on an offspring that has a coordinate outside its interval or non-finite.",
  ["inputs","histories"],"all offspring lists, interval lists of matching dimension and float values; all runs",
  "No unit test covers the filter and no test watches which points get evaluated.",
  [G+"pre_birth/vec_float.rs",G+"mod.rs"],[("CheckChromoInterval::pre_birth, check_chromo",G+"pre_birth/vec_float.rs"),("GeneticOptimizer::next_iterations runs pre-births before append",G+"mod.rs")],None,["the list after filtering","arguments of goal calls"])
p("C07","Random creation respects counts and intervals",
  "Random creation of a genetic population and random or zero initialisation of swarm coordinates and velocities return exactly the configured number of vectors, each with one value per configured interval (or the configured dimension), every random value lying in the closed interval of its own dimension and every zero initialisation being all zeros; random values are drawn from the whole of that interval. Creating random values with an interval whose minimum is not less than its maximum is rejected by a panic, as are an empty population or an empty interval list for the genetic creator.",
  ["inputs"],"all counts, dimensions, intervals (float intervals with finite width) and all random outcomes",
  "Tests sample three fixed intervals with a random generator; the bound must hold for every random outcome, count and interval.",
  [G+"creation/vec_float.rs",T+"mod.rs",P+"initializing/mod.rs"],[("RandomCreator::new/create",G+"creation/vec_float.rs"),("RandomVectorCreator::create_vec",T+"mod.rs"),("RandomCoordinatesInitializer, RandomVelocityInitializer, ZeroVelocityInitializer",P+"initializing/mod.rs")])
p("C08","Pairing yields valid families and tournament winners",
  "Random pairing returns floor(population/2) pairs, and tournament pairing returns the configured number of families each with the configured number of partners; every index refers to a member of the population, every member can be drawn, and an empty population yields no families instead of a failure. Every partner is the winner of one initial draw followed by the configured number of challengers, a challenger replacing the current winner exactly when its goal is strictly smaller, so without NaN goals no individual drawn for it has a smaller goal value.",
  ["inputs"],"all population sizes (including empty and one), goals (including NaN), configurations and random outcomes",
  "There are no unit tests of pairing; a wrong index or a reversed comparison shows only statistically in integration runs.",
  [G+"pairing/mod.rs"],[("RandomPairing::get_pairs, Tournament::get_pairs",G+"pairing/mod.rs")],None,["returned index lists","the stream of random draws"])
p("C09","Single-point bit crossing",
  "For every pair of parents and every crossing position from 1 to (width - 1), the bit-crossing functions (8, 16, 32 and 64 bit unsigned, 8 and 16 bit signed, and the two float widths through their bit patterns) return the value whose bits at and above the position come from the first parent and whose bits below it come from the second parent. They never overflow or panic on such positions.",
  ["inputs"],"all parents (including NaN payloads) and all positions 1..width-1",
  "The unit tests check fixed examples; the claim is about all bit patterns and positions.",
  [G+"cross/mod.rs"],[("cross_u8/u16/u32/u64/i8/i16/f32/f64",G+"cross/mod.rs")])
p("C10","Cross operators produce the documented child",
  "The arithmetic-mean and geometric-mean crossings return exactly one child equal to the mean (the n-th root of the product) of the n >= 2 parents; bitwise crossing returns exactly one child that is a single-point bit crossing of its two parents at a position inside the number, each such position being possible; exponent/mantissa crossing returns exactly one child built from crossed mantissas and exponents and the sign of one of its parents, either sign and each position being possible. Crossing vectors returns one child whose genes are, in order, what the single-gene crossing returns for the corresponding genes of the two parents. A wrong number of parents (fewer than two for the means, not exactly two for the others) is rejected by a panic.",
  ["inputs"],"all parent values and counts, all random positions",
  "Unit tests check a few parent pairs; the claim covers all parent lists and every random position.",
  [G+"cross/mod.rs"],[("CrossMean, FloatCrossGeometricMean, CrossBitwise, FloatCrossExp, VecCrossAllGenes",G+"cross/mod.rs")])
p("C11","Mutation changes only what it may",
  "Bitwise mutation returns its argument with exactly the configured number of single-bit flips applied at positions inside the number, any of which can be drawn, so zero flips return the identical bits and at most that many bits differ. Vector mutation keeps length and order: each gene is either an exact copy or the result of the single-gene mutation of that very gene, mutated exactly when its own uniform draw from [0, 100) is below the configured percentage, so 0 never mutates and 100 always does.",
  ["inputs"],"all genes (including NaN), flip counts, vectors, percentages and random outcomes",
  "There is no unit test of mutation.",
  [G+"mutation/mod.rs"],[("BitwiseMutation, VecMutation",G+"mutation/mod.rs")])
p("C12","Genetic run protocol: stop checks, iterations, loggers, restart",
  "Every fresh genetic run first discards everything from earlier runs (population, best, worst, iteration counter), creates and evaluates a new initial population once, then announces start and resume to every logger in order; a continuation announces only resume and carries on from the current population and counter. The stop checker is asked before every generation, exactly one generation is executed per 'continue' answer and the iteration counter grows by one per generation. Each logger hears once per generation after the new best is known and hears finish exactly once at the end, and the returned solution is the reported best (nothing if there is none).",
  ["histories","configurations"],"all sequences of fresh runs and continuations, all stop checkers (stateful, immediately stopping), all logger lists",
  "Tests run a single find_min with a fixed iteration limit; ordering and restart protocol over histories is not observed.",
  [G+"mod.rs"],[("GeneticOptimizer::find_min, next_iterations",G+"mod.rs"),("Population::reset, next_iteration",G+"mod.rs")],
  [("iteration","generation counter",G+"mod.rs")],["calls received by loggers, stop checker, creator"])
p("C13","Genetic generation: offspring pipeline and survivors",
  "In each generation the offspring evaluated and appended are, in order, exactly the mutations of the children that crossing returned for the families chosen by pairing (each family crossed once, with the chromosomes of exactly the listed members in order), after every configured pre-birth step was applied once in order. Then each configured selection is applied once in order, the next population consists of exactly the individuals still alive in unchanged order, and pre-existing survivors keep their chromosomes and fitness.",
  ["inputs","histories","configurations"],"all operators, populations and generations",
  "No test observes the pipeline; a lost, duplicated or un-mutated child still converges on the benchmark functions.",
  [G+"mod.rs"],[("run_pairing, next_iterations, Population::append/remove_dead",G+"mod.rs")],None,["calls received by pairing, cross, mutation, pre-births, selections and goal"])
p("C14","Particle swarm reports the best position ever visited",
  "After initialisation and after every iteration the swarm's reported best solution is a position visited in this run together with the goal value evaluated there, and its value is the smallest finite goal value evaluated in the run so far (non-finite values rank equal and last, so one is reported only if no finite value was seen). The reported best therefore never gets worse, and a position merely as good as the current best does not replace it; the worst record is kept symmetrically, non-finite values ranking worst.",
  ["inputs","histories"],"all goal functions (NaN, infinite), swarms, velocity/move operators and numbers of iterations and continuations",
  "Whole-history property; tests look at one final value.",
  [P+"mod.rs"],[("update_best_particle, update_worst_particle, replace_particles, find_best_particle, compare_floats",P+"mod.rs")],
  [("best_particle / worst_particle","best/worst so far",P+"mod.rs")],["best solution seen by loggers, values returned by the goal"])
p("C15","Personal best and worst of every particle",
  "Each particle's personal best (worst) is a position that this very particle visited since its initialisation, paired with the goal value evaluated there, and no goal value it has been given since is better (worse), non-finite values ranking after all finite ones. Moving one particle leaves the personal records of all others unchanged.",
  ["inputs","histories"],"all sequences of positions and goal values (NaN, infinite, ties)",
  "No unit test drives sequences of moves.",
  [P+"mod.rs"],[("Particle::new, Particle::move_to, compare_floats",P+"mod.rs")],
  [("best_personal_*, worst_personal_*","personal records",P+"mod.rs")],["effect on velocities computed by the calculators"])
p("C16","Particle swarm step kinematics",
  "In every iteration each particle, in order and exactly once, gets as new velocity the velocity calculator's result passed once through every velocity corrector in order; it moves to its old position plus that new velocity, coordinate by coordinate, passed once through every post-move step in order; and the goal is evaluated exactly once, at the resulting position, whose value becomes the particle's value. The number of particles and the dimension never change, and initial positions also pass through the post-move steps before being evaluated once.",
  ["inputs","histories","configurations"],"all swarms, velocity calculators, correctors, post-move steps and iterations",
  "No test observes intermediate positions and velocities.",
  [P+"mod.rs"],[("ParticleSwarmOptimizer::next_iterations, renew_swarm",P+"mod.rs")],None,["calls received by calculator, correctors, post-moves and goal"])
p("C17","Post-move steps keep particles inside their bounds",
  "After the move-to-boundary step every coordinate lies within the closed interval of its dimension: coordinates already inside are unchanged, those below (above) become the minimum (maximum) and non-finite ones the minimum. The random-teleport step either leaves all coordinates exactly as they were or replaces every coordinate by a value drawn from the whole of its own interval, never teleporting at probability 0 always at probability 1 and otherwise with the configured probability, and its construction rejects probabilities outside [0, 1]; both steps reject a dimension mismatch by a panic.",
  ["inputs"],"all coordinates (NaN, infinite), all valid intervals, probabilities and random outcomes",
  "Unit tests check a few two-dimensional points.",
  [P+"postmove/mod.rs"],[("MoveToBoundary::post_move, RandomTeleport::new/post_move",P+"postmove/mod.rs")])
p("C18","Velocity limiters",
  "The per-dimension limiter leaves a component whose magnitude is at most its dimension's limit unchanged and otherwise replaces it by the limit with the component's sign, for every non-NaN component and non-negative limit; it rejects a dimension mismatch by a panic. The magnitude limiter leaves a velocity whose Euclidean norm is at most the limit unchanged and otherwise scales all components by limit/norm, preserving the direction and giving it the limit as its norm up to rounding, as long as the squared norm neither overflows nor underflows.",
  ["inputs"],"all velocity vectors, limits and dimensions",
  "Unit tests check a few vectors of dimension one to three.",
  [P+"postvelocitycalc/mod.rs"],[("MaxVelocityDimensions::correct_velocity, MaxVelocityAbs::correct_velocity",P+"postvelocitycalc/mod.rs")])
p("C19","Velocity update formulas",
  "Every velocity calculator returns one component per dimension, each equal to its published update formula over the particle's current velocity and position, its personal records, the swarm's best (and, for negative reinforcement, the swarm's worst and the currently best and worst particles) and independent random factors from [0, 1] per term and dimension: classic; canonical with constriction 2*alpha/(phi-2); inertia-weighted with the weight requested for the current iteration; and negative reinforcement with attraction added and repulsion subtracted. The canonical calculator's construction rejects phi_personal + phi_global <= 4 and alpha outside (0, 1).",
  ["inputs"],"all swarms, particles, coefficients, dimensions and random outcomes",
  "The calculators have no unit tests; a wrong sign or a reused random factor still lets the benchmark runs converge.",
  [P+"velocitycalc/mod.rs"],[("ClassicVelocityCalculator, CanonicalVelocityCalculator, InertiaVelocityCalculator, NegativeReinforcement",P+"velocitycalc/mod.rs")])
p("C20","Inertia schedules",
  "Constant inertia returns its weight at every iteration. Linear inertia returns the maximal weight at iteration 0, the minimal weight at its final iteration and, in between, the linear interpolation between both, so with w_min <= w_max it never increases with the iteration and stays between the two weights.",
  ["inputs"],"all weights, final iterations >= 1 and iterations up to the final one",
  "No unit test covers the inertia schedules.",
  [P+"velocitycalc/mod.rs"],[("ConstInertia::get, LinearInertia::get",P+"velocitycalc/mod.rs")])
p("C21","Particle swarm run protocol: stop checks, iterations, loggers, restart",
  "Every fresh swarm run discards everything from earlier runs (particles, best, worst, personal records, iteration counter), requests initial coordinates and velocities once (rejecting differing counts by a panic) and announces start and resume to every logger in order; a continuation announces only resume and carries on from the current swarm and counter. The stop checker is asked before every iteration, exactly one iteration is executed per 'continue' answer and the counter grows by one per iteration. Each logger hears once per iteration after the records are updated and hears finish exactly once at the end, and the returned solution is the reported best (nothing for an empty swarm).",
  ["histories","configurations"],"all sequences of fresh runs and continuations, all stop checkers and logger lists",
  "Tests run a single find_min with a fixed iteration limit.",
  [P+"mod.rs"],[("ParticleSwarmOptimizer::find_min, next_iterations, renew_swarm",P+"mod.rs"),("Swarm::reset",P+"mod.rs")],None,["calls received by loggers, stop checker, initialisers"])
p("C22","Stop checkers decide as documented",
  "The iteration-limit checker asks to stop exactly when the iteration number has reached the limit; the threshold checker exactly when there is a best solution whose goal is at most the threshold (never for NaN). The 'any' ('all') composite answers with the disjunction (conjunction) of its members' answers, and both composites reject an empty member list by a panic.",
  ["inputs","configurations"],"all iteration numbers, limits, goals, thresholds and nested member lists",
  "There are no unit tests of the stop checkers.",
  [T+"stopchecker/mod.rs"],[("MaxIterations, Threshold, CompositeAny, CompositeAll",T+"stopchecker/mod.rs")])
p("C23","Stagnation stop checker over whole histories",
  "The goal-not-change checker asks to stop at a check exactly when a best solution exists and more than the configured number of iterations have passed since the reference iteration: the last check of the current run at which the best goal differed by more than delta from the value remembered then (initially the largest finite number, iteration 0). It never stops while no solution exists, and an observed iteration number below the reference (a new run has begun) makes that observation the new reference instead of failing.",
  ["histories"],"all sequences of (iteration, best goal) observations, including several runs in a row",
  "It is a property of unbounded histories; no unit test exists and the integration tests only see one run.",
  [T+"stopchecker/mod.rs"],[("GoalNotChange::can_stop",T+"stopchecker/mod.rs")],[("old_goal, change_iter","reference value and iteration",T+"stopchecker/mod.rs")])
p("C24","Statistics record every run and every iteration once",
  "A statistics logger attached to an optimiser records exactly one result per finished run or continuation (the best solution then, or none) and appends to the current run's convergence row exactly the best solution of each completed iteration, in order; a new row begins with each fresh run and one is created if the logger joins without a start. Earlier records are never altered; uniting two statistics appends the other's results and rows in order to its own; and the number of runs is the number of results.",
  ["histories"],"all histories of runs, continuations and unite operations",
  "Unit tests drive one or two hand-made states.",
  [T+"statistics/mod.rs"],[("Statistics, StatisticsLogger",T+"statistics/mod.rs")],[("results, convergence","recorded data",T+"statistics/mod.rs")])
p("C25","Statistics aggregates are the textbook formulas over successes",
  "Averages (goal, solution vector, convergence per iteration) are arithmetic means over the runs that have a solution, standard deviations are sample deviations with divisor n-1 over those runs; both treat missing solutions as absent, give nothing when there are too few (none for means, fewer than two for deviations). The convergence average has as many entries as the shortest run (zero without runs), and the average call count is total calls divided by number of runs (nothing without runs). Averaging solutions of unequal dimension is rejected by a panic.",
  ["inputs"],"all result lists and convergence tables (any pattern of missing solutions), up to floating-point rounding",
  "Unit tests check a few lists; patterns of missing solutions and ragged rows are barely sampled.",
  [T+"statistics/mod.rs"],[("StatFunctionsGoal, StatFunctionsSolution, StatFunctionsConvergence, CallCountData::get_average_call_count",T+"statistics/mod.rs")])
p("C26","Success rate and success predicates",
  "The success rate is the number of runs having a solution that satisfies the predicate divided by the number of all runs, including those without a solution, and is absent only without runs; it always lies in [0, 1]. The goal predicate accepts exactly the goals strictly closer than delta to the expected one, and the vector predicate accepts exactly the solutions each of whose coordinates is within its delta (inclusive) of the expected value; NaN is never a success, and a length mismatch between expected values and deltas is rejected by a panic.",
  ["inputs"],"all result lists, predicates, expected values, deltas and solutions (including NaN and infinities)",
  "Unit tests check a few solutions and never NaN.",
  [T+"statistics/mod.rs"],[("get_success_rate, get_predicate_success_goal, get_predicate_success_vec_solution",T+"statistics/mod.rs")])
p("C27","Goal wrappers are transparent and call counting is exact",
  "Wrapping a plain function as a goal answers for every argument exactly what that function returns, calling it exactly once with that argument. The call-counting goal wrapper returns for every argument exactly what the wrapped goal returns, calling it exactly once with that argument, and adds exactly one to the count of the current run. Beginning a new run appends a zero count, adding n adds n to the current run's count (both creating the first run if there is none), earlier runs' counts never change, and uniting appends the other's counts in order.",
  ["histories"],"all call sequences and interleavings of next_run/increment/add/unite",
  "Unit tests check short fixed sequences.",
  [T+"statistics/mod.rs"],[("CallCountData, GoalCalcStatistics",T+"statistics/mod.rs"),("GoalFromFunction","optlib/src/lib.rs")])
p("C28","Optimiser set-up: setters, accessors and observers are faithful",
  "Each setter of an optimiser or configuration object replaces exactly the named component and nothing else, and the replacement is what the next run uses. Read access to a population or swarm (length, alive count, indexing, iteration, the agents list, an individual's chromosomes and fitness, the best solution) reports the current state faithfully, in order and completely, and changes nothing; mutable access by index or iterator reaches exactly the addressed individuals; cloning an individual or particle copies every part of it.",
  ["inputs","histories"],"all states and setter sequences",
  "Accessors and setters are exercised only incidentally by tests.",
  [G+"mod.rs",P+"mod.rs",G+"pairing/mod.rs",G+"selection/mod.rs"],[("setters of GeneticOptimizer / ParticleSwarmOptimizer / Tournament / LimitPopulation",G+"mod.rs"),("Population/Individual/Swarm/Particle accessors and Clone",P+"mod.rs")])
p("C29","Text loggers print the reported state",
  "The verbose logger prints after each iteration that has a solution one line with the iteration number, all coordinates and the goal at the configured precision; the result logger prints at the end the solution, the goal and the iteration count (or that none was found); the time logger prints one elapsed-time line per finished run or continuation. Nothing else is written.",
  ["histories"],"all states, precisions and runs",
  "No test reads the output.",
  [T+"logging/mod.rs"],[("VerboseLogger, ResultOnlyLogger, TimeLogger",T+"logging/mod.rs")])
p("C30","Benchmark functions compute their published formulas",
  "For every point of dimension at least one, the paraboloid, Schwefel, Rastrigin and Rosenbrock benchmark functions return the value of their published formula (up to floating-point rounding): sum (x_i - i)^2 with i counted from 1; 418.9829 n - sum x_i sin(sqrt|x_i|); 10 n + sum (x_i^2 - 10 cos(2 pi x_i)); sum over i < n of 100 (x_{i+1} - x_i^2)^2 + (1 - x_i)^2. They do not depend on anything but the point.",
  ["inputs"],"all points of dimension >= 1",
  "The crate has no tests of its own.",
  ["optlib-testfunc/src/lib.rs"],[("paraboloid, schwefel, rastrigin, rosenbrock","optlib-testfunc/src/lib.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for q in props: f.write(json.dumps(q)+"\n")
print(len(props))
