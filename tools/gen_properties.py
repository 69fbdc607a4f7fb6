"""Writes /verif/properties.jsonl from the table below (kept here so it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["leap_ec/" + f for f in files],
                          mechanism=[dict(name=n, where="leap_ec/" + w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where="leap_ec/" + w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Asynchronous steady-state runs spend exactly the requested birth budget",
 "Whatever order the workers finish in and whichever evaluations fail, an asynchronous steady-state run (single- or multi-objective) terminates after having evaluated the whole initial population plus exactly the requested number of births, counting failed evaluations towards the budget only when asked to (a batch of several offspring submitted at once may overshoot by less than one batch). Every individual that was submitted is evaluated exactly once and handed back exactly once (to the insertion step and to the evaluated-individual probe), and none is left in flight when the run returns. The population probe is called once per completion with the current survivors.",
 ["schedules", "fault_sequences", "configurations"],
 "every completion order of in-flight evaluations x every pattern of evaluation failures x initial population size, population size, budget, offspring batch size and non-viable counting policy, up to small bounds",
 "The existing tests run two fixed configurations on a real local cluster: one completion order and one random failure pattern per run, so orders where a failure lands last, first or between batches are never forced.",
 ["distrib/asynchronous.py", "multiobjective/asynchronous.py"],
 [("steady_state", "distrib/asynchronous.py"), ("steady_state_nsga_2", "multiobjective/asynchronous.py"), ("inc_births", "util.py")],
 observe=["problem.evaluate calls", "inserter calls", "evaluated_probe calls", "returned population"])
prop("C02", "Asynchronous survival keeps population bounded and never loses the best",
 "Throughout an asynchronous steady-state run the surviving population never exceeds its configured size and is filled before anybody is displaced; a newcomer takes a place only by beating the individual it displaces, a failed evaluation loses to anyone, so it never displaces a successful one. With the greedy insertion rule the survivors are exactly the best of all individuals evaluated so far; with the tournament rule the newcomer faces one uniformly chosen survivor. With either rule the best successfully evaluated individual is never lost.",
 ["schedules", "fault_sequences", "inputs"],
 "every completion order, failure pattern and fitness assignment (ties and failures included) for small populations, and every random contestant choice of the tournament insertion rule",
 "Tests check that one insertion happened on one population; loss of the best individual needs particular orders of better, worse, tied and failed arrivals.",
 ["distrib/asynchronous.py"],
 [("greedy_insert_into_pop", "distrib/asynchronous.py"), ("tournament_insert_into_pop", "distrib/asynchronous.py")])
prop("C03", "Incremental non-dominated ranking equals sorting from scratch",
 "In the asynchronous multi-objective algorithm, after any sequence of insertions every surviving individual's stored rank is its true non-domination depth within the surviving population, and nobody survives twice or in no layer. The population never exceeds the configured size; when full, the individual dropped comes from the last layer, and it is one with the smallest current crowding distance there.",
 ["histories", "inputs", "configurations"],
 "every insertion sequence over a small grid of objective vectors in 2 and 3 objectives, mixed maximise/minimise directions, duplicates included, for several capacities",
 "Existing tests insert a handful of hand-picked points; the update has three cascading cases and repeated displacement, which only show for specific longer sequences.",
 ["multiobjective/asynchronous.py"],
 [("enlu_inds_rank / enlu_inserter", "multiobjective/asynchronous.py")],
 state=[("layer_pops", "the list of current non-domination layers", "multiobjective/asynchronous.py")])
prop("C04", "Non-dominated sorting yields exact dominance depth",
 "For every multiset of objective vectors with any mix of maximised and minimised objectives, both non-dominated sorting operators give every individual (offspring and supplied parents alike) a rank equal to its dominance depth: rank 1 exactly for the non-dominated, rank r+1 for those dominated only through someone of rank r. The two operators agree, nobody is lost or duplicated, and fitness values and the parents' list are unchanged.",
 ["inputs", "configurations"],
 "every list of objective vectors over a small value grid (duplicates, ties in one objective, chains), every direction mix, with and without parents, one to three objectives, in every order",
 "Tests sort a few fixed populations; wrong comparisons on ties, duplicates or mixed directions only appear for particular vectors and input orders.",
 ["multiobjective/ops.py"],
 [("fast_nondominated_sort", "multiobjective/ops.py"), ("rank_ordinal_sort", "multiobjective/ops.py")])
prop("C05", "NSGA-II survival: crowding is exact, nobody vanishes, fronts are preferred",
 "Crowding-distance assignment returns the same individuals it was given, with the distance of each equal to the textbook definition within its rank (extremes of each objective that varies get infinity, the rest the sum of normalised neighbour gaps). A full NSGA-II run keeps the population at its requested size every generation, never discards an individual while keeping one of worse rank, breaks rank ties by crowding, and never loses a non-dominated solution to a dominated one.",
 ["inputs", "configurations", "histories"],
 "every small population over an objective grid incl. duplicates, single-member and constant fronts, every direction mix, and every generation of bounded runs with all variation choices",
 "Degenerate fronts (one member, all equal, one constant objective) and truncation through the middle of a front are corner inputs that the few sampled populations in the tests miss.",
 ["multiobjective/ops.py", "multiobjective/nsga2.py"],
 [("crowding_distance_calc", "multiobjective/ops.py"), ("per_rank_crowding_calc", "multiobjective/ops.py"), ("generalized_nsga_2", "multiobjective/nsga2.py"), ("sort_by_dominance", "multiobjective/ops.py")])
prop("C06", "Comparing individuals follows the problem's notion of better",
 "For every pair of fitness values, one individual compares greater than another exactly when the problem says it is better: larger when maximising, smaller when minimising, Pareto-dominating for multiple objectives, and on scalar problems a failed (NaN) evaluation always loses to a real one. The six comparison operators agree with each other, exactly one of better/equal/worse holds for any two real scalar fitnesses that do not merely differ by rounding, the ordering is transitive, and everything beats 'no individual'.",
 ["inputs", "configurations"],
 "every pair and triple over a fitness alphabet (ints, floats, numpy scalars, infinities, NaN, near-equal values; objective vectors of 1-3 dimensions) x every direction mix x every problem family",
 "Tests compare a few values; total-order and NaN laws quantify over all pairs and triples, types and directions, and every selection operator silently relies on them.",
 ["individual.py", "problem.py", "multiobjective/problems.py"],
 [("Individual.__lt__/__eq__", "individual.py"), ("ScalarProblem.worse_than/equivalent", "problem.py"), ("MultiObjectiveProblem.worse_than/equivalent", "multiobjective/problems.py")])
prop("C07", "Generational evolution: right number of generations, right size, no regress",
 "A generational run evaluates the initial population, then executes its pipeline once per generation until the generation limit or the stop condition, publishing the current generation number to the context it was given and handing each generation the previous survivors. Population size is what the pipeline produces; with k elites the k best individuals known before a generation are matched or beaten rank-for-rank after it, so the best fitness never gets worse, while with no elites only offspring survive.",
 ["histories", "configurations", "inputs"],
 "every sequence of offspring fitness values over small populations and generations, every elite count, start generation, stop time and direction, with every random choice of the pipeline's operators",
 "Tests run a few seeds; best-never-lost must hold for every offspring history, and off-by-one generation errors depend on start/limit/stop combinations.",
 ["algorithm.py", "ops.py", "util.py"],
 [("generational_ea", "algorithm.py"), ("elitist_survival", "ops.py"), ("inc_generation", "util.py")])
prop("C08", "Parent selection returns who it promises, with the promised probabilities",
 "Tournament selection returns the best (or worst, if asked) of k uniformly drawn members, random selection is uniform, proportional and stochastic-universal selection give each member a share exactly proportional to its scaled value (the latter to within one copy per pass), and cyclic selection visits everyone once per tour. The reported index is that of the individual returned, the population is never altered, and unusable (negative) values are refused.",
 ["inputs", "configurations"],
 "every small population (all fitness orders, ties, both directions, custom keys), every operator parameter, and every outcome of the random draws, with exact outcome probabilities",
 "Tests use statistical sampling on one or two populations, which cannot see a slightly wrong distribution, an unreachable member or a wrong index on ties.",
 ["ops.py"],
 [("tournament_selection", "ops.py"), ("proportional_selection", "ops.py"), ("sus_selection", "ops.py"), ("random_selection", "ops.py"), ("cyclic_selection", "ops.py"), ("naive_cyclic_selection", "ops.py")])
prop("C09", "Crossover only exchanges genes, and every child is delivered exactly once",
 "For every pair of parents and every random outcome, the two children of a discrete crossover together carry exactly the parents' genes, position by position, in a pattern the operator allows: whole segments between uniformly drawn cut points, or genes swapped independently with the given probability; parents of unequal length lose no gene either. Recombined children lose their old fitness and know both parents; pairs not recombined pass through untouched. With child persistence on, consuming any number of children over any number of calls yields each child exactly once, in order.",
 ["inputs", "histories", "configurations"],
 "every genome length and parent pair up to small bounds, equal or unequal lengths, list and array genomes, every choice of cut points and swap masks, crossover probability, and every consume/restart history",
 "Tests check one or two masks or single seeds; lost tail genes, reused second children and off-by-one cut points need particular lengths, cut points or consumption histories.",
 ["ops.py"],
 [("UniformCrossover.recombine", "ops.py"), ("NAryCrossover.recombine", "ops.py"), ("Crossover.__call__", "ops.py")])
prop("C10", "Mutation stays inside its bounds, changes only what it should, clears fitness",
 "For every genome and random outcome, each provided mutation operator returns a genome of the same length and type whose every gene is either the old gene or a legal mutated value (flipped bit, integer within its inclusive bounds, Gaussian step scaled by its own gene's standard deviation and clipped to that gene's bounds). Each gene mutates independently with exactly the requested probability, and the mutated individual's fitness is cleared; contradictory or impossible settings are refused.",
 ["inputs", "configurations"],
 "every small genome, per-gene or shared bounds, probability or expected number of mutations, list or array genome, and every outcome of the random draws, with exact probabilities",
 "Tests sample single draws or test means; per-gene bounds mix-ups, exclusive upper bounds and wrong probability scaling hide at particular positions and draws.",
 ["binary_rep/ops.py", "int_rep/ops.py", "real_rep/ops.py", "ops.py"],
 [("mutate_bitflip", "binary_rep/ops.py"), ("mutate_randint / mutate_binomial", "int_rep/ops.py"), ("mutate_gaussian / apply_hard_bounds", "real_rep/ops.py"), ("random_bernoulli_vector", "ops.py")])
prop("C11", "Making offspring never disturbs parents, and fitness belongs to the genome",
 "Running any selection-clone-vary-evaluate pipeline leaves every parent's genome, fitness, decoded form and lineage as they were, for every representation. Each resulting offspring's fitness is the problem's value for its own current genome as decoded by its own decoder, never for an ancestor's or sibling's genome, and offspring share no mutable genome storage with parents or each other; each clone starts unevaluated, with a new identity recording exactly its parents.",
 ["histories", "inputs", "configurations"],
 "every composition of provided operators (selection, clone, crossover, mutation, one-by-one or grouped evaluation) up to a small length over several generations, for each representation, with every random outcome within a deviation bound",
 "Aliasing and stale-cache faults need specific operator orders (e.g. evaluate, clone, mutate, grouped evaluation) that unit tests of single operators never compose.",
 ["individual.py", "ops.py", "binary_rep/ops.py", "int_rep/ops.py", "real_rep/ops.py", "segmented_rep/ops.py"],
 [("Individual.clone / decode / evaluate", "individual.py"), ("clone, evaluate, grouped_evaluate", "ops.py")])
prop("C12", "Survival selection keeps exactly the best of everyone eligible",
 "Truncation keeps exactly the requested number of best individuals among offspring and (if given) parents; elitist survival returns as many individuals as there were offspring, being the best of offspring plus the k best parents; insertion selection lets every offspring challenge one random parent in turn and keeps the better. Members are original individuals, each used at most once, an optional key replaces fitness as criterion, and no parent list is modified.",
 ["inputs", "configurations"],
 "every fitness assignment to small offspring and parent populations (ties, both directions, failed evaluations), every size, elite count and key, and every random parent choice",
 "Tests use one offspring or clear-cut fitness values; early exits, tie handling and size errors depend on the number of offspring and the order of fitness values.",
 ["ops.py"],
 [("truncation_selection", "ops.py"), ("elitist_survival", "ops.py"), ("insertion_selection", "ops.py")])
prop("C13", "Island migration delivers each emigrant once, to a neighbour, if not worse",
 "In an island model, each island sends exactly one copy of a selected member, fitness included, in every migration generation and none otherwise, to a uniformly random neighbour in the topology. The copy arrives exactly once, at that neighbour's next turn, and takes the place of the chosen contestant exactly when it is at least as good; island sizes never change and the source keeps its member. Every attempt is reported once to the metric, and any arrival hook is applied before the competition.",
 ["histories", "configurations", "inputs"],
 "every sequence of island turns over several generations on small topologies (directed, ring, star, complete), every emigrant, destination and contestant choice, migration gap and fitness assignment",
 "Tests run one migration between two islands; lost, duplicated or misrouted emigrants need several islands, several generations and particular destination choices.",
 ["ops.py", "algorithm.py"],
 [("migrate", "ops.py"), ("migration_metric", "ops.py"), ("multi_population_ea", "algorithm.py")],
 state=[("immigrants", "per-island queue of arrivals kept inside the operator", "ops.py")])
prop("C14", "Cooperative fitness is the mean value of assembled whole solutions",
 "When a part-solution is evaluated cooperatively, each trial evaluates one whole solution formed from the individual itself at its own subpopulation's position and one selected member of each other subpopulation at theirs, and the individual's fitness is the mean over exactly the requested number of trials. The individual, its collaborators and the subpopulations are otherwise unchanged, and the optional log gets one row per collaborator plus one for the whole, per trial.",
 ["inputs", "configurations", "histories"],
 "every number of subpopulations, current position, trial count, collaborator choice and log setting up to small bounds, for both the evaluation operator and the wrapped problem, through whole multi-population generations",
 "Tests check that fitness changed or one log file; position and averaging mistakes need specific island indices, trial counts and collaborator choices.",
 ["ops.py", "problem.py"],
 [("CooperativeEvaluate", "ops.py"), ("CooperativeProblem", "problem.py"), ("multi_population_ea", "algorithm.py")])
prop("C15", "A failing evaluation is contained to its own individual",
 "If evaluating an individual raises, a fault-tolerant individual ends up non-viable with NaN fitness and the exception recorded, while everyone else's result is unaffected; if it succeeds, it is viable with the problem's fitness and no exception left over from an ancestor or earlier attempt. Parallel population evaluation returns the same individuals, in order, each with its own result and where and when it was evaluated, and counts exactly the failed ones; ordinary individuals let the error through.",
 ["fault_sequences", "schedules", "histories"],
 "every subset and repeat pattern of failing evaluations over small populations, over clone and re-evaluate histories, completed in any order by the pool, with several exception types",
 "Tests inject one failure type once; stale viability flags, order mix-ups and counts depend on which evaluations fail and on what happened to ancestors.",
 ["individual.py", "distrib/evaluate.py", "distrib/synchronous.py", "distrib/individual.py"],
 [("RobustIndividual.evaluate", "individual.py"), ("evaluate", "distrib/evaluate.py"), ("eval_pool / eval_population", "distrib/synchronous.py")])
prop("C16", "Binary decoders map every bit string to the right number",
 "Integer decoding splits the genome into the given fields and reads each as plain binary (or Gray code, under which adjacent integers differ in one bit), so it is a bijection onto all values; real decoding maps those integers linearly onto the given range, from lower bound for the smallest to upper bound for the largest. The result does not depend on the array's element type or on what was decoded before, by this or another decoder, and the genome is not modified. Genomes that are not arrays are refused.",
 ["inputs", "configurations", "histories"],
 "every bit string for every field layout up to a bound, arrays of several element types, every pair of decoders used in turn",
 "Tests decode a few strings; bijectivity and history-independence quantify over all strings, layouts and interleavings of decoders.",
 ["binary_rep/decoders.py"],
 [("BinaryToIntDecoder / BinaryToRealDecoder", "binary_rep/decoders.py"), ("BinaryToIntGreyDecoder / BinaryToRealGreyDecoder", "binary_rep/decoders.py")])
prop("C17", "A Cartesian GP genome computes what its graph says, and stays legal",
 "For every legal genome the decoded program returns, on every input, the outputs obtained by evaluating its node graph directly (with node parameters where used), and leaving out unused nodes never changes them. Genomes produced by the initialiser and by mutation always satisfy the decoder's own bounds and levels-back constraints, the constraint check accepts exactly the legal genomes, and mutation changes only integer genes to legal values (or parameters within theirs).",
 ["inputs", "configurations", "histories"],
 "every genome and every input of small architectures (inputs, outputs, layers, nodes per layer, levels back, mixed arities, repeated and pruned nodes), and every mutation and initialiser outcome",
 "Tests decode two or three hand-written genomes; argument order, shared nodes, pass-through outputs and layer bounds differ between genomes and architectures.",
 ["executable_rep/cgp.py"],
 [("CGPDecoder.decode / bounds / check_constraints", "executable_rep/cgp.py"), ("CGPExecutable", "executable_rep/cgp.py"), ("create_cgp_vector, cgp_mutate, CGPWithParametersDecoder", "executable_rep/cgp.py")])
prop("C18", "Rule-system programs fire the rule their match and priority policy names",
 "A decoded rule set, given an observation, matches exactly the rules whose every input range contains it (a range with low above high matches anything) and returns the rounded action of the first of them; when none match it picks uniformly among the rules with the smallest summed squared distance to the observation. Initialised rule sets are uniform within the declared bounds, and mutation applies the condition mutator to condition genes and the action mutator to action genes only, keeping the rule layout. Policies that are not available (generality, perimeter, memory registers) are refused rather than ignored.",
 ["inputs", "histories", "configurations"],
 "every small rule set and observation sequence over a value grid, every input and action space shape, and every outcome of the random draws of mutation, initialisation and tie-breaking",
 "Tests use a few rules and observations; ties, boundary values, partial matches and memory histories multiply beyond them.",
 ["executable_rep/rules.py"],
 [("PittRulesExecutable", "executable_rep/rules.py"), ("PittRulesDecoder (bounds, initializer, mutator, decode)", "executable_rep/rules.py")])
prop("C19", "Probes observe without interfering, and report what actually happened",
 "Inserting a reporting operator anywhere in a pipeline leaves the individuals, their order, identity and fitness unchanged. It records exactly one entry per due call or individual (honouring its reporting interval), with the true generation, fitness statistics and requested attributes at that moment, the same in stream, file and table form, and plots show what they were given. Best-so-far values are the best of everything seen and never get worse, and earlier entries never change later as long as the recorded individuals are not themselves modified.",
 ["histories", "inputs", "configurations"],
 "every sequence of small populations over several generations, fitness orders and directions, interval settings, and reporting options for each provided reporting operator",
 "Tests look at one or two fixed populations; history dependence (best-so-far, intervals, statistics of later generations) needs all short histories.",
 ["probe.py", "distrib/probe.py"],
 [("BestSoFarProbe, FitnessStatsCSVProbe, AttributesCSVProbe, PopulationMetricsProbe, HistPhenotypePlotProbe...", "probe.py")])
prop("C20", "Counters, identifiers and shared context tell the truth",
 "Generation and birth counters, each on its own context, advance by one per step from their start value, publish their value in the context they were given, notify every listener once per step, and never touch another context. Every individual carries an identity that no other individual ever has, birth numbers are strictly increasing and never reused or skipped across calls and populations, and lineage names exactly the direct parents.",
 ["histories", "configurations"],
 "every interleaving of up to several operations on two or more counters, contexts and branding operators (population, stream and generator forms), and every clone/create history",
 "Tests advance one counter a couple of times; cross-talk and reuse need interleaved histories across several counters, contexts and populations.",
 ["util.py", "individual.py", "distrib/individual.py", "global_vars.py"],
 [("inc_generation / inc_births / birth_brander", "util.py"), ("DistributedIndividual", "distrib/individual.py")])
prop("C21", "Segmented genomes keep their segments intact and independent",
 "Operators on segmented genomes change only what they name: per-segment mutation applies the given mutator to every segment and keeps their number, adding inserts one valid new segment, removing deletes one existing segment but never the last, copying inserts an independent copy of an existing segment, and segmented decoding decodes each segment alone and in order. No operation makes two segments share storage, and fitness is cleared.",
 ["inputs", "histories", "configurations"],
 "every sequence of segment operations up to a bounded depth, every segment count and size, append or insert mode, probability and random outcome",
 "Tests apply each operator once; shared storage and off-by-one positions only appear over sequences of operations and particular random positions.",
 ["segmented_rep/ops.py", "segmented_rep/decoders.py", "segmented_rep/initializers.py"],
 [("apply_mutation / add_segment / remove_segment / copy_segment", "segmented_rep/ops.py"), ("SegmentedDecoder", "segmented_rep/decoders.py")])
prop("C22", "Wrapped and batched evaluation give the same answers as direct evaluation",
 "Evaluating a population in groups of any size assigns each individual the fitness that evaluating it alone would, in order, with each phenome evaluated the same number of times. Averaging, offset, external-program and alternating problem wrappers return exactly the mean, shifted, program-reported or currently-scheduled problem's value and keep the wrapped problem's sense of better; an external program that fails or answers with the wrong number of values is reported as an error, never as fitness.",
 ["inputs", "configurations", "fault_sequences"],
 "every small population, chunk size, wrapper nesting to depth 2, single- and multi-objective problems, repeat count, generation schedule, and every fault of the external program (exit status, missing, extra or garbled output)",
 "Tests try one chunk size and happy-path programs; chunk boundaries, nested wrappers and faulty outputs are outside them.",
 ["problem.py", "ops.py"],
 [("grouped_evaluate", "ops.py"), ("evaluate_multiple, AverageFitnessProblem, FitnessOffsetProblem, ExternalProcessProblem, AlternatingProblem", "problem.py")])
prop("C23", "Parsimony pressure prefers smaller genomes exactly as specified",
 "With lexicographic parsimony, of two successfully evaluated individuals the fitter one ranks higher and, at equal fitness, the one with the shorter genome does, whether maximising or minimising; with Koza parsimony, individuals rank by fitness penalised by the given factor per gene in the direction that makes longer genomes worse. Used as key in any selection or survival operator they order individuals in just this way, and leave individuals unchanged.",
 ["inputs", "configurations"],
 "every pair and small population over fitness values and genome lengths, both directions, penalty values, and every operator that accepts a key",
 "Tests check a couple of pairs; direction and tie handling quantify over all pairs.",
 ["parsimony.py"],
 [("lexical_parsimony / koza_parsimony", "parsimony.py")])
prop("C24", "Pipelines pull exactly what is asked for and reject mis-plumbed operators",
 "A pool of size n holds exactly n individuals and causes exactly n evaluations and clones upstream (a crossover draws its parents in pairs) - nothing is evaluated ahead of demand, skipped or evaluated twice - and operators placed between keep the order. Every provided operator accepts only the stream or list form it is declared for and reports a wrong form, or an incompletely configured upstream operator, as an error rather than producing a wrong population.",
 ["configurations", "inputs"],
 "every composition of provided streaming operators up to a bounded length, every pool size and population size, and every provided operator against every input form",
 "Tests check a few operators for type errors; demand-driven exactness is a property of all compositions.",
 ["ops.py", "util.py", "binary_rep/ops.py", "int_rep/ops.py", "real_rep/ops.py", "segmented_rep/ops.py"],
 [("iteriter_op, listlist_op, listiter_op, iterlist_op", "ops.py"), ("pool, evaluate, clone", "ops.py"), ("wrap_curry", "util.py")])
prop("C25", "Ready-made algorithms honour their budgets and return the best they found",
 "The one-call optimiser and random search (of at least one evaluation) evaluate exactly the number of individuals implied by their settings, within the given bounds, and report what they found: the optimiser returns the best genome it ever evaluated, random search returns its whole walk in order. The multi-population algorithm runs every subpopulation's own and shared operators once per generation, in order, exposing the current island, all islands and the generation in the given context, and stops as told.",
 ["histories", "configurations", "inputs"],
 "every objective function over a small search space, every budget, bound and direction setting, and every outcome of the random draws within a deviation bound",
 "Tests run them once on easy functions; a lost optimum needs the best point to appear at particular moments such as the initial population.",
 ["simple.py", "algorithm.py"],
 [("ea_solve", "simple.py"), ("random_search / multi_population_ea / stop_at_generation", "algorithm.py")])
prop("C26", "Transformed landscapes are the original landscape at the transformed point",
 "Translating, rescaling, rotating or offsetting an objective function gives exactly the original function's value at the correspondingly transformed point, for every point and any nesting of wrappers, leaving the input vector and the wrapped function alone; direction and bounds are inherited unless overridden. Benchmark functions return the documented formula's value with the parameters they were constructed with.",
 ["inputs", "configurations"],
 "every point of a grid in 1-3 dimensions for every wrapper nesting up to depth 3 over every benchmark function, with every constructor parameter varied",
 "Tests evaluate known optima; parameter mix-ups vanish at the optimum or at default parameters and show only at other points.",
 ["real_rep/problems.py", "multiobjective/problems.py", "binary_rep/problems.py"],
 [("TranslatedProblem, ScaledProblem, MatrixTransformedProblem, benchmark evaluate methods", "real_rep/problems.py"), ("ZDT problems", "multiobjective/problems.py"), ("MaxOnes, LeadingOnes, DeceptiveTrap, TwoMax", "binary_rep/problems.py")])
prop("C27", "Initialisers produce legal genomes that can reach the whole space",
 "Every provided initialiser returns a fresh genome of the requested length and kind whose genes lie within their own bounds (integer bounds inclusive), every legal discrete genome can be produced and equally likely, and creating a population yields exactly the requested number of unevaluated individuals attached to the given problem and decoder that share no genome storage.",
 ["inputs", "configurations"],
 "every length and bounds setting up to small limits and every outcome of the random draws, with exact probabilities, over repeated calls",
 "Tests draw samples with one bounds setting; exclusive upper bounds, per-gene bound mix-ups and shared storage need all draws and repeated calls.",
 ["binary_rep/initializers.py", "int_rep/initializers.py", "real_rep/initializers.py", "segmented_rep/initializers.py", "representation.py", "individual.py"],
 [("create_binary_sequence / create_int_vector / create_real_vector / create_segmented_sequence", "*/initializers.py"), ("Representation.create_population", "representation.py")])
prop("C28", "A decoded neural network computes its weights' forward pass",
 "For every weight vector of the advertised length and every input, the decoded network's output is that of the described layered network: each layer's weights and biases are taken from their own consecutive part of the genome, activations applied in between and at the end as configured, independent of previous inputs or of other networks from the same decoder. Genomes of the wrong length are refused. Wrappers around a program (index of the largest output, graph drawing, keyboard control) act on exactly the wrapped program's outputs.",
 ["inputs", "configurations", "histories"],
 "every layer shape up to small bounds, one-hot and grid weight vectors, input grids, activation settings and interleaved use of several decoded networks",
 "Tests use one or two shapes with fixed weights; slicing errors depend on layer shape and show for particular weights only.",
 ["executable_rep/neural_network.py", "executable_rep/executable.py"],
 [("SimpleNeuralNetworkDecoder / SimpleNeuralNetworkExecutable", "executable_rep/neural_network.py"), ("executable decorators", "executable_rep/executable.py")])
prop("C29", "An executable phenotype is scored by exactly what it did",
 "In an environment problem the program is given every observation in order, its answer is what the environment receives, each of the requested runs ends exactly when the environment says so or the step limit is reached, and fitness is the mean over runs of the summed reward (or of the number of observations, for survival). A truth-table problem's fitness is the fraction of rows on which all outputs are right, inputs padded as configured, and an image problem's is the Euclidean distance between the drawn and the target image; the sense of better is the declared one. Program and target are left unchanged, and a random program answers uniformly over the whole action space.",
 ["inputs", "histories", "configurations"],
 "every scripted environment (rewards, observations, termination step) and step or run limit up to small bounds, every truth table and program of few inputs and outputs, every small image and function, and every random answer with exact probabilities",
 "Tests evaluate one environment and a couple of fixed functions; off-by-one steps, mixing of runs and partially right rows need particular episode lengths, run counts and tables.",
 ["executable_rep/problems.py", "executable_rep/executable.py"],
 [("EnvironmentProblem", "executable_rep/problems.py"), ("TruthTableProblem", "executable_rep/problems.py"), ("ImageXYProblem", "executable_rep/problems.py"), ("RandomExecutable", "executable_rep/executable.py")])
prop("C30", "Landscape features, curve summaries and statistics say what the samples say",
 "The convexity features of a landscape are exactly the fractions and means of the sampled deviations between the function's value on a segment and the linear interpolation of its end points, evaluating each sample as often as announced. Curve analysis reports the area, maximum, means and groupings of exactly the rows given, with nothing lost, duplicated or assigned to the wrong run. The distribution tests count every outcome once, accept a sample that matches the expected distribution exactly and reject one that is far from it.",
 ["inputs", "configurations"],
 "every landscape from a small family x every outcome of the sampling draws, every small table of curves (runs, steps, values in any row order), and every outcome multiset of small size",
 "Tests check a convex and a linear function with one seed each; wrong pairing, tolerance and grouping errors show for particular draws and row orders only.",
 ["landscape_features/exploratory.py", "contrib/analysis.py", "statistical_helpers.py"],
 [("ELAConvexity", "landscape_features/exploratory.py"), ("CurveAnalyzer, auc, max_value, cat_csv_files", "contrib/analysis.py"), ("collect_distribution, stochastic_equals, equals_uniform, equals_gaussian", "statistical_helpers.py")])
prop("C31", "A repertoire transfers exactly the solutions it learned",
 "After training on any sequence of source problems, a seeding repertoire holds exactly one solution per source problem, in order, the one its learning algorithm reported last, added to what it held before; training itself always starts from fresh random genomes. The initial population for a new problem consists of the learned genomes, in order, each once, followed by freshly initialised ones up to the requested size. Writing a repertoire to a file and reading it back gives a repertoire that behaves identically.",
 ["histories", "inputs", "configurations"],
 "every number of source problems, genome length, population size and learning trajectory up to small bounds, and every export/reload history",
 "Tests train on one or two problems; order, truncation and lost precision only show for particular numbers of sources, population sizes and genomes.",
 ["contrib/transfer/sequential.py"],
 [("PopulationSeedingRepertoire", "contrib/transfer/sequential.py"), ("initialize_seeded", "contrib/transfer/sequential.py")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
