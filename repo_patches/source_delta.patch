From 7d174a1bf160d3c6a9ec7b4e38e69b0680e307fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:13 +0000
Subject: [PATCH 01/35] fix: ENLU ranks a layer as dominated only if the moving
 points truly dominate all of it

---
 leap_ec/multiobjective/asynchronous.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/leap_ec/multiobjective/asynchronous.py b/leap_ec/multiobjective/asynchronous.py
index b208aff..0a017ab 100644
--- a/leap_ec/multiobjective/asynchronous.py
+++ b/leap_ec/multiobjective/asynchronous.py
@@ -90,8 +90,10 @@ def enlu_inds_rank(start_point, layer_pops):
         # Further check if those individuals are properly dominated
         true_dominated = _set_domination(moving_points, dominated)
 
-        # CASE III: If nondominated is empty, insert moving points as a layer and re-update all ranks
-        if not nondominated:
+        # CASE III: If the moving points dominate the entire layer, insert them as a layer of
+        # their own and re-update all ranks. Note that it isn't enough that the zenith of the
+        # moving points dominates everything, as the zenith itself isn't one of the points.
+        if not nondominated and all(true_dominated):
             layer_pops.insert(depth, moving_points)
             for i, lp in enumerate(layer_pops[depth:]):
                 for ind in lp:
-- 
2.43.0


From 3916ffc4bbd453f38ea855828717fc4abed367b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:13 +0000
Subject: [PATCH 02/35] fix: asynchronous NSGA-II no longer crashes on failed
 evaluations

---
 leap_ec/multiobjective/asynchronous.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/leap_ec/multiobjective/asynchronous.py b/leap_ec/multiobjective/asynchronous.py
index 0a017ab..630dc18 100644
--- a/leap_ec/multiobjective/asynchronous.py
+++ b/leap_ec/multiobjective/asynchronous.py
@@ -6,6 +6,7 @@ from leap_ec.multiobjective.problems import MultiObjectiveProblem
 from leap_ec.multiobjective.ops import fast_nondominated_sort, per_rank_crowding_calc
 from leap_ec.global_vars import context
 from leap_ec.distrib.asynchronous import steady_state
+from leap_ec.distrib.evaluate import is_viable
 
 
 def _find_start_layer(ind, layer_pops):
@@ -135,6 +136,13 @@ class ENLUInserter:
         self._layer_pops = []
 
     def __call__(self, ind, flat_pop, pop_size):
+        # Failed evaluations have a NaN in place of a fitness vector and so cannot be
+        # ranked.  They only fill in until there is someone viable to select from.
+        if not is_viable(ind) and np.any(np.isnan(ind.fitness)):
+            if not self._layer_pops and len(flat_pop) < pop_size:
+                flat_pop.append(ind)
+            return
+
         start_depth, end_depth = enlu_inds_rank(ind, self._layer_pops)
         
         # Calculate crowding distance for updated layers
-- 
2.43.0


From ac53c56a3c6a55a56aa4357474f9075fa5906801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:53 +0000
Subject: [PATCH 03/35] fix: crowding distance keeps fronts whose members all
 have equal fitness

---
 leap_ec/multiobjective/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 3f9749c..f953b87 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -209,7 +209,8 @@ def per_rank_crowding_calc(ranked_population: list, is_maximizing) -> list:
 
     objective_ranges = f_max - f_min
 
-    sorted_pop = []
+    # If no objective varies then nobody moves, but everyone is still in the population
+    sorted_pop = list(ranked_population)
 
     for objective in range(num_objectives):
         if objective_ranges[objective] == 0:
-- 
2.43.0


From ea927bd474a0ea705f07d4bd14dac36be8679767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:03 +0000
Subject: [PATCH 04/35] fix: UniformCrossover crashed on genomes of different
 lengths

---
 leap_ec/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 4a098de..18dd3dc 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -487,9 +487,10 @@ class UniformCrossover(Crossover):
         assert(isinstance(parent_a.genome, np.ndarray))
         assert(isinstance(parent_b.genome, np.ndarray))
 
-        # generate which indices we should swap
+        # generate which indices we should swap; these are positions rather than a mask so
+        # that they apply to genomes of different lengths
         min_length = min(parent_a.genome.shape[0], parent_b.genome.shape[0])
-        indices_to_swap = random_bernoulli_vector(min_length, self.p_swap)
+        indices_to_swap = np.flatnonzero(random_bernoulli_vector(min_length, self.p_swap))
 
         # perform swap
         tmp = parent_a.genome[indices_to_swap]
-- 
2.43.0


From 96867d5979dcb9704eb0fb251476031d181a891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:03 +0000
Subject: [PATCH 05/35] fix: NAryCrossover lost the tail of a second parent
 longer than the first

---
 leap_ec/ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 18dd3dc..d809bd3 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -591,6 +591,8 @@ class NAryCrossover(Crossover):
 
         # Pick crossover points
         xpts = self._pick_crossover_points(len(parent_a.genome))
+        # The last section runs to the end of the longer genome, so that no genes get lost
+        xpts[-1] = max(len(parent_a.genome), len(parent_b.genome))
 
         for start, stop in toolz.itertoolz.sliding_window(2, xpts):
             genome1_sections.append(children[src1].genome[start:stop])
-- 
2.43.0


From 7478790f19e967814fff4bd09fc0866e56d767b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:41 +0000
Subject: [PATCH 06/35] fix: insertion_selection ignored every offspring but
 the first

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index d809bd3..1708db5 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -993,7 +993,7 @@ def insertion_selection(offspring: List, parents: List, key = None) -> List:
                                                         copied_parents[
                                                             selected_parent_index])
 
-        return copied_parents
+    return copied_parents
 
 
 ##############################
-- 
2.43.0


From cf267c3d76d668c3a2fe86a8daa4d5b35c4e99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:41 +0000
Subject: [PATCH 07/35] fix: clones no longer inherit the parent's decoded
 phenome

---
 leap_ec/individual.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leap_ec/individual.py b/leap_ec/individual.py
index b734ada..5a54e56 100644
--- a/leap_ec/individual.py
+++ b/leap_ec/individual.py
@@ -144,6 +144,7 @@ class Individual:
         cloned = copy(self)
         cloned.genome = deepcopy(self.genome)
         cloned.fitness = None
+        cloned._phenome = None  # the genome is likely about to change
 
         cloned.uuid = uuid.uuid4()
         cloned.parents = {self.uuid}
-- 
2.43.0


From 2e58b067a4fd03b49a5a41c9246dc1144ca8d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:41 +0000
Subject: [PATCH 08/35] fix: grouped_evaluate decodes the current genome
 instead of reusing a cached phenome

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 1708db5..cbd5f24 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -290,7 +290,7 @@ def grouped_evaluate(population: list, max_individuals_per_chunk: int = None) ->
     for chunk in chunks(population, max_individuals_per_chunk):
         # XXX Always passing individuals along to the problem.
         #     Does this create problems with dask, even when we aren't using individuals?
-        fit = problem.evaluate_multiple([c.phenome for c in chunk], individuals=chunk)
+        fit = problem.evaluate_multiple([c.decode() for c in chunk], individuals=chunk)
         fitnesses.extend(fit)
 
     for fit, ind in zip(fitnesses, population):
-- 
2.43.0


From 7b5c969be10a7f5e3e98e098a56986da90d3609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:41 +0000
Subject: [PATCH 09/35] fix: grouped_evaluate crashed on every problem with the
 default evaluate_multiple

---
 leap_ec/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 71adc50..9e3f1b6 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -55,7 +55,7 @@ class Problem(ABC):
         """
         raise NotImplementedError
 
-    def evaluate_multiple(self, phenomes):
+    def evaluate_multiple(self, phenomes, *args, **kwargs):
         """Evaluate multiple phenomes all at once, returning a list of fitness
         values.
 
@@ -344,7 +344,7 @@ class AverageFitnessProblem(Problem):
         fitnesses = [ self.wrapped_problem.evaluate(phenome) for _ in range(self.n) ]
         return np.mean(fitnesses)
 
-    def evaluate_multiple(self, phenomes: list):
+    def evaluate_multiple(self, phenomes: list, *args, **kwargs):
         """
         Evaluate a collections of phenomes by creating n jobs for each phenome,
         sending all the jobs to the wrapped evaluate_multiple() function, and then
-- 
2.43.0


From 5ba8414d81d16b766ac161259677ccf41321303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:41 +0000
Subject: [PATCH 10/35] fix: copy_segment inserted the same segment object
 twice instead of a copy

---
 leap_ec/segmented_rep/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leap_ec/segmented_rep/ops.py b/leap_ec/segmented_rep/ops.py
index daa8b6e..351b23c 100644
--- a/leap_ec/segmented_rep/ops.py
+++ b/leap_ec/segmented_rep/ops.py
@@ -2,6 +2,7 @@
 """
     Segmented representation specific pipeline operators.
 """
+from copy import deepcopy
 from typing import Iterator, Callable
 import random
 
@@ -203,8 +204,8 @@ def copy_segment(next_individual: Iterator,
         individual = next(next_individual)
 
         if random.random() < probability:
-            copied_segment = \
-                individual.genome[random.randrange(len(individual.genome))]
+            copied_segment = deepcopy(
+                individual.genome[random.randrange(len(individual.genome))])
 
             if append:
                 individual.genome.append(copied_segment)
-- 
2.43.0


From f31d27050785b201645990875653fda591ec9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 11/35] fix: birth_brander only worked for the first individual
 of the first population

---
 leap_ec/util.py | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/leap_ec/util.py b/leap_ec/util.py
index e45e889..f6f57c4 100644
--- a/leap_ec/util.py
+++ b/leap_ec/util.py
@@ -326,10 +326,6 @@ def birth_brander():
     # incremented with each birth
     num_births = itertools.count()
 
-    # sometimes next_thing is a population, so we need this to track that
-    # the next individual in the population
-    iterator = None
-
     def brand(individual):
         """ brand the given individual
         :param individual: to be branded
@@ -358,22 +354,9 @@ def birth_brander():
         :param next_thing: either the next individual in the pipeline or a population of individuals to be branded
         :return: branded individual
         """
-        nonlocal num_births
-        nonlocal iterator
-
-        while True:
-            if is_iterable(next_thing):
-                # We're being passed in a single individual in a pipeline
-                next_thing = next(next_thing)
-            else:
-                # We're being passed a test_sequence/population
-                if iterator is None:
-                    iterator = iter(next_thing)
-                next_thing = next(iterator)
-
-            next_thing = brand(next_thing)
-
-            yield next_thing
+        # Works for generators as well as for populations
+        for individual in next_thing:
+            yield brand(individual)
 
     do_birth_branding.brand_population = brand_population
 
-- 
2.43.0


From f9819910768f142e43cee6a5923828ef2f9bc29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 12/35] fix: clones carried their parent's birth ID, so
 birth_brander reused it

---
 leap_ec/individual.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leap_ec/individual.py b/leap_ec/individual.py
index 5a54e56..ec02b53 100644
--- a/leap_ec/individual.py
+++ b/leap_ec/individual.py
@@ -149,6 +149,9 @@ class Individual:
         cloned.uuid = uuid.uuid4()
         cloned.parents = {self.uuid}
 
+        # A birth ID assigned by util.birth_brander() belongs to the original
+        cloned.__dict__.pop('birth', None)
+
         return cloned
 
     def decode(self, *args, **kwargs):
-- 
2.43.0


From a60ffda2b602c2c5bdbca8bb0a76251e8a4890f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 13/35] fix: random_search ignored the context it was given

---
 leap_ec/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/algorithm.py b/leap_ec/algorithm.py
index 380207d..de59985 100644
--- a/leap_ec/algorithm.py
+++ b/leap_ec/algorithm.py
@@ -355,7 +355,7 @@ def random_search(evaluations, problem, representation, pipeline,
 
     # Set up an evaluation counter that records the current generation to
     # context; start at 1 to account for individual we already created.
-    evaluation_counter = util.inc_generation(start_generation=1)
+    evaluation_counter = util.inc_generation(start_generation=1, context=context)
 
     while evaluation_counter.generation() < evaluations:
         # Apply the provided reproductive operators to create a new individual.
-- 
2.43.0


From 721d4d8671d7bafc7de8b80b856ebd043aa856fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 14/35] fix: multi_population_ea evaluated its initial
 populations under a stale generation number

---
 leap_ec/algorithm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/leap_ec/algorithm.py b/leap_ec/algorithm.py
index de59985..34063c7 100644
--- a/leap_ec/algorithm.py
+++ b/leap_ec/algorithm.py
@@ -258,6 +258,10 @@ def multi_population_ea(max_generations, num_populations, pop_size, problem,
 
     assert (len(representation) == len(problem))
 
+    # Set up a generation counter that records the current generation to the
+    # context
+    generation_counter = util.inc_generation(context=context)
+
     # Initialize & evaluate the initial subpopulations
     pops = [r.create_population(pop_size, problem=p) for r, p in
             zip(representation, problem)]
@@ -267,10 +271,6 @@ def multi_population_ea(max_generations, num_populations, pop_size, problem,
     # This allows operators to see all the subpopulations.
     context['leap']['subpopulations'] = pops
 
-    # Set up a generation counter that records the current generation to the
-    # context
-    generation_counter = util.inc_generation(context=context)
-
     while (generation_counter.generation() < max_generations) and not stop(
             pops):
         # Execute each population serially
-- 
2.43.0


From 73c141f7017375b9cdee5576f6765ce1cfd26cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 15/35] fix: ea_solve lost the best solution if it was in the
 initial population

---
 leap_ec/simple.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/leap_ec/simple.py b/leap_ec/simple.py
index 350d4dd..d2225af 100644
--- a/leap_ec/simple.py
+++ b/leap_ec/simple.py
@@ -94,14 +94,13 @@ def ea_solve(function, bounds, generations=100, pop_size=cpu_count(),
         mutation_op = mutate_gaussian(std=mutation_std,
                                       expected_num_mutations='isotropic')
 
-    bsf_probe = BestSoFarProbe(stream=stream)  # Bind this probe to a varaible so we can access it after the run
     pipeline = [
         ops.tournament_selection,
         ops.clone,
         mutation_op,
         ops.UniformCrossover(p_swap=0.2),
         *eval_ops,
-        bsf_probe
+        BestSoFarProbe(stream=stream)
     ]
 
     ########## Visualization ##########
@@ -122,5 +121,6 @@ def ea_solve(function, bounds, generations=100, pop_size=cpu_count(),
 
                          pipeline=pipeline)
 
-    # Return the genome of the best-found individual
-    return bsf_probe.bsf.genome
+    # Return the genome of the best-found individual; elitism ensures that it is
+    # in the final population (which the probe may not have seen it enter)
+    return max(final_pop).genome
-- 
2.43.0


From aac807e382f9f11d803f4831dc326f27ed9c9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 16/35] fix: a successful evaluation left the exception of an
 earlier failure in place

---
 leap_ec/individual.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leap_ec/individual.py b/leap_ec/individual.py
index ec02b53..6ead92d 100644
--- a/leap_ec/individual.py
+++ b/leap_ec/individual.py
@@ -297,6 +297,7 @@ class RobustIndividual(Individual):
         try:
             self.fitness = self.evaluate_imp()
             self.is_viable = True  # we were able to evaluate
+            self.exception = None
         except Exception as e:
             self.fitness = nan
             self.exception = e
-- 
2.43.0


From 62e11987942e627a3d0d36e1a897572529adcd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 17/35] fix: PittRulesDecoder.initializer mixed up input bounds
 for non-flat input spaces

---
 leap_ec/executable_rep/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 5a915ec..d46b4f5 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -227,8 +227,8 @@ class PittRulesDecoder(Decoder):
             def create_rule():
                 "Initialize a rule by sampling all its conditions and actions."
                 # Sample values uniformly within each variable's range
-                low = self.input_space.sample()
-                high = self.input_space.sample()
+                low = self.input_space.sample().flatten()
+                high = self.input_space.sample().flatten()
                 condition_pairs = list(zip(low, high))
                 condition_genes = np.array(condition_pairs).flatten()
 
-- 
2.43.0


From 324c310c13b2961ce7d5de4a48666acbe8b73c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 18/35] fix: PlotPittRuleProbe crashed for modulo > 1

---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index d46b4f5..b2588bc 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -847,7 +847,7 @@ class PlotPittRuleProbe:
         if self.modulo > 1:
             assert ('generation' in self.context['leap'])
             step = self.context['leap']['generation']
-            if step % modulo == 0:
+            if step % self.modulo != 0:
                 return population
 
         # Otherwise, do our thang!
-- 
2.43.0


From b6a6981a29d97960a39aac9edb4fa6ce32b884ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 19/35] fix: CooperativeProblem crashed when given a log_stream

---
 leap_ec/problem.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 9e3f1b6..962dda0 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -464,8 +464,6 @@ class CooperativeProblem(Problem):
         assert('individual' in kwargs), "CooperativeProblem.evaluate() requires an 'individual' to be passed in via kwargs, but none was found.  Are you using an evaluation operator that supports passing individuals to problems (rather than just phenomes)?"
         individual = kwargs['individual']
 
-        current_genome = individual.genome
-
         # Pull references to all subpopulations from the context object
         subpopulations = self.context['leap']['subpopulations']
         current_subpop_index = self.context['leap']['current_subpopulation']
@@ -473,8 +471,8 @@ class CooperativeProblem(Problem):
         # Choose collaborators and evaulate
         fitnesses = []
         for i in range(self.num_trials):
-            all_collaborators = self._choose_collaborators(current_genome, current_subpop_index, subpopulations)
-            combined_genome = self.combine_genomes(all_collaborators)
+            all_collaborators = self._choose_collaborators(individual, current_subpop_index, subpopulations)
+            combined_genome = self.combine_genomes([ind.genome for ind in all_collaborators])
             combined_ind = Individual(combined_genome, decoder=self.combined_decoder, problem=self.wrapped_problem)
             fitness = combined_ind.evaluate()
 
@@ -499,10 +497,10 @@ class CooperativeProblem(Problem):
         if you need to, say, send a group of individuals off to parallel """
         return [ self.evaluate(p, individual=i) for p, i in zip(phenomes, individuals) ]
 
-    def _choose_collaborators(self, current_genome, current_subpop_index, subpopulations):
+    def _choose_collaborators(self, current_ind, current_subpop_index, subpopulations):
         """Choose collaborators from the subpopulations, returning a list that contains
-        the genome for the current individual and all of the genomes for collaborators,
-        in the order that they will be combined."""
+        the current individual and all of the collaborators, in the order that their
+        genomes will be combined."""
 
         # Create iterators that select individuals from each subpopulation
         selection_iterators = [self.collaborator_selector(subpop) for subpop in subpopulations]
@@ -514,10 +512,10 @@ class CooperativeProblem(Problem):
                 ind = next(selection_iterators[i])
                 # Make sure we actually got something with a genome back
                 assert (hasattr(ind, 'genome'))
-                all_collaborators.append(ind.genome)
+                all_collaborators.append(ind)
             else:
                 # Stick this subpop's individual in as-is
-                all_collaborators.append(current_genome)
+                all_collaborators.append(current_ind)
 
         assert (len(all_collaborators) == len(subpopulations))
 
-- 
2.43.0


From e05e5432bc9819d95834fdae89131d578a77d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 20/35] fix: EnvironmentProblem.num_inputs and num_outputs
 always returned None

---
 leap_ec/executable_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/executable_rep/problems.py b/leap_ec/executable_rep/problems.py
index 008312b..7bb67a7 100644
--- a/leap_ec/executable_rep/problems.py
+++ b/leap_ec/executable_rep/problems.py
@@ -41,12 +41,12 @@ class EnvironmentProblem(ScalarProblem):
     @property
     def num_inputs(self):
         """Return the number of dimensions in the environment's input space."""
-        self.space_dimensions(self.environment.observation_space)
+        return self.space_dimensions(self.environment.observation_space)
 
     @property
     def num_outputs(self):
         """Return the number of dimensions in the environment's action space."""
-        self.space_dimensions(self.environment.action_space)
+        return self.space_dimensions(self.environment.action_space)
 
     @classmethod
     def _reward_fitness(cls, observations, rewards):
-- 
2.43.0


From aa389c89f691ea41e7f164582942caa0e8986ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:03 +0000
Subject: [PATCH 21/35] fix: the count of non-viable individuals was lost in
 the dask workers

---
 leap_ec/distrib/asynchronous.py | 3 +++
 leap_ec/distrib/evaluate.py     | 9 +++------
 leap_ec/distrib/synchronous.py  | 7 ++++++-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/leap_ec/distrib/asynchronous.py b/leap_ec/distrib/asynchronous.py
index afb9853..48374bd 100644
--- a/leap_ec/distrib/asynchronous.py
+++ b/leap_ec/distrib/asynchronous.py
@@ -195,6 +195,9 @@ def steady_state(client, max_births, init_pop_size, pop_size,
         logger.debug('%d evaluated: %s %s', i, str(evaluated.genome),
                      str(evaluated.fitness))
 
+        if not is_viable(evaluated):
+            context['leap']['distrib']['non_viable'] += 1
+
         if not is_viable(evaluated) and not count_nonviable:
             # if we want the non-viables to not count towards the budget
             # then we need to decrement the birth counter to ensure that
diff --git a/leap_ec/distrib/evaluate.py b/leap_ec/distrib/evaluate.py
index 0d33a38..d000540 100644
--- a/leap_ec/distrib/evaluate.py
+++ b/leap_ec/distrib/evaluate.py
@@ -21,8 +21,9 @@ def evaluate(individual, context=context):
     We log the start and end times for evaluation.
 
     An individual is viable if an exception is NOT thrown, else it is NOT a
-    viable individual.  If not viable, we increment the context['leap'][
-    'distrib']['non_viable'] count to track such instances.
+    viable individual.  Non-viable individuals are tallied in context['leap'][
+    'distrib']['non_viable'] by whoever collects the evaluated individuals,
+    since a worker only has a copy of the context.
 
     This function sets:
 
@@ -51,10 +52,6 @@ def evaluate(individual, context=context):
 
     if hasattr(individual, 'is_viable') and not individual.is_viable:
         # is_viable will be False if an exception was thrown during evaluation.
-        # We track the number of such failures on the off chance that this
-        # might be useful.
-        context['leap']['distrib']['non_viable'] += 1
-
         if hasattr(worker, 'logger'):
             worker.logger.warning(
                 f'Worker {worker.id}: {individual.exception!s} raised for {individual!s}')
diff --git a/leap_ec/distrib/synchronous.py b/leap_ec/distrib/synchronous.py
index 0f5aee8..77a0ab8 100644
--- a/leap_ec/distrib/synchronous.py
+++ b/leap_ec/distrib/synchronous.py
@@ -8,7 +8,7 @@ from leap_ec import leap_logger_name
 from leap_ec.global_vars import context
 from leap_ec.util import wrap_curry
 
-from .evaluate import evaluate
+from .evaluate import evaluate, is_viable
 from leap_ec import ops
 
 logger = logging.getLogger(leap_logger_name)
@@ -45,6 +45,11 @@ def eval_population(population, client, context=context):
     # instead.
     evaluated_individuals = client.gather(worker_futures)
 
+    # We track the number of failed evaluations on the off chance that this
+    # might be useful.
+    context['leap']['distrib']['non_viable'] += \
+        sum(not is_viable(ind) for ind in evaluated_individuals)
+
     return evaluated_individuals
 
 
-- 
2.43.0


From 92c55ba8ca0017e6100a89aa832febccb83a76e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:31 +0000
Subject: [PATCH 22/35] fix: a parameter segment of the wrong length raised
 AttributeError instead of the intended error

---
 leap_ec/executable_rep/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/cgp.py b/leap_ec/executable_rep/cgp.py
index 6039c5f..c334b8a 100644
--- a/leap_ec/executable_rep/cgp.py
+++ b/leap_ec/executable_rep/cgp.py
@@ -569,7 +569,7 @@ class CGPWithParametersDecoder(CGPDecoder):
         executable = super().decode(circuit_genome)
 
         # Add the parameter attributes to each node of the phenotype
-        assert(len(parameters_genome) == self.num_parameters_per_node*self.nodes_per_layer*self.num_layers), f"Expected the parameter segment of the genome to contain {self.num_parameters_per_node*self.cgp_decoder.nodes_per_layer*self.cgp_decoder.num_layers} parameters ({self.num_parameters_per_node} for each computational node), but found {len(parameters_genome)}."
+        assert(len(parameters_genome) == self.num_parameters_per_node*self.nodes_per_layer*self.num_layers), f"Expected the parameter segment of the genome to contain {self.num_parameters_per_node*self.nodes_per_layer*self.num_layers} parameters ({self.num_parameters_per_node} for each computational node), but found {len(parameters_genome)}."
         for layer in range(self.num_layers):
             for node in range(self.nodes_per_layer):
                 computational_node_id = layer*self.nodes_per_layer + node
-- 
2.43.0


From 2ed5e9cc86a69df40146f2a575ffd3f615c957e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 23/35] fix: PlotPittRuleProbe ignored plot_dimensions

---
 leap_ec/executable_rep/rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index b2588bc..e223919 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -816,9 +816,9 @@ class PlotPittRuleProbe:
             if len(rule.conditions) < 2:
                 raise ValueError(f"Found a rule with less than two input dimensions when trying to run {PlotPittRuleProbe.__name__}.  We need at least two conditions to plot a rule box!")
                 
-            # Get bounds for the first two conditions
-            x_low, x_high = rule.conditions[0]
-            y_low, y_high = rule.conditions[1]
+            # Get bounds for the two conditions we've been asked to plot
+            x_low, x_high = rule.conditions[self.plot_dimensions[0]]
+            y_low, y_high = rule.conditions[self.plot_dimensions[1]]
 
             # Visualize wildcard rules as covering the whole range
             if x_low > x_high:
-- 
2.43.0


From 560eeb1f7084de91d65f265017e908688f36dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 24/35] fix: PittRulesDecoder.action_bounds ignored the start
 of the action space

---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index e223919..84feb91 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -178,7 +178,7 @@ class PittRulesDecoder(Decoder):
         """
         # XXX This only works with a one-dimensional Discrete input space;
         # doesn't generalize to, say, Tuple spaces, or continuous Box spaces
-        return [ (0, self.output_space.n - 1) ]
+        return [ (self.output_space.start, self.output_space.start + self.output_space.n - 1) ]
 
     def bounds(self, num_rules):
         """Return the (low, high) bounds that it makes sense for each gene to vary within.
-- 
2.43.0


From beac86dfaef4c728b4ca076e5440d5a171f839d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:13 +0000
Subject: [PATCH 25/35] fix: segmented_mutate raised NameError instead of
 reporting a wrong number of mutators

---
 leap_ec/segmented_rep/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/segmented_rep/ops.py b/leap_ec/segmented_rep/ops.py
index 351b23c..64b513f 100644
--- a/leap_ec/segmented_rep/ops.py
+++ b/leap_ec/segmented_rep/ops.py
@@ -75,7 +75,7 @@ def segmented_mutate(next_individual: Iterator, mutator_functions: list):
     """
     while True:
         individual = next(next_individual)
-        assert(len(individual.genome) == len(mutator_functions)), f"Found {len(individual.genome)} segments in this genome, but we've got {len(mutators)} mutators."
+        assert(len(individual.genome) == len(mutator_functions)), f"Found {len(individual.genome)} segments in this genome, but we've got {len(mutator_functions)} mutators."
 
         mutated_genome = []
         for segment, m in zip(individual.genome, mutator_functions):
-- 
2.43.0


From 47c5ae5f86bdd3703ed7d679c6ae2bf1b18bad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:30 +0000
Subject: [PATCH 26/35] fix: ExternalProcessProblem dropped the last value of
 output that does not end in a newline

---
 leap_ec/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 962dda0..313f949 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -247,7 +247,7 @@ class ExternalProcessProblem(ScalarProblem):
         if p.returncode != 0:
             raise RuntimeError(f"Error in the external simulation during fitness evaluation.")
 
-        out_strs = outs.split(b'\n')[:-1]  # Ignoring  trailing newline
+        out_strs = outs.splitlines()  # One value per line; the last newline is optional
         fitnesses = [ float(o) for o in out_strs]
 
         if len(fitnesses) != len(phenomes):
-- 
2.43.0


From ff56d615965714ac639a140cc0b50b4b64d5799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:30 +0000
Subject: [PATCH 27/35] fix: AverageFitnessProblem averaged different
 objectives of a multi-objective problem together

---
 leap_ec/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 313f949..8e023d0 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -342,7 +342,7 @@ class AverageFitnessProblem(Problem):
     def evaluate(self, phenome):
         """Evaluates the wrapped function n times sequentially and returns the mean."""
         fitnesses = [ self.wrapped_problem.evaluate(phenome) for _ in range(self.n) ]
-        return np.mean(fitnesses)
+        return np.mean(fitnesses, axis=0)
 
     def evaluate_multiple(self, phenomes: list, *args, **kwargs):
         """
@@ -355,7 +355,7 @@ class AverageFitnessProblem(Problem):
             means = []
             while l != []:
                 chunk, l = l[:self.n], l[self.n:]
-                means.append(np.mean(chunk))
+                means.append(np.mean(chunk, axis=0))
             return means
 
         # Copy each phenome n times, because we're going to evaluate each one n times
-- 
2.43.0


From 298b4f497fa9c800d91139d844cc9cc8d400a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:48 +0000
Subject: [PATCH 28/35] fix: GaussianProblem ignored its width and height

---
 leap_ec/real_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/real_rep/problems.py b/leap_ec/real_rep/problems.py
index 9bf44bd..da8db4d 100644
--- a/leap_ec/real_rep/problems.py
+++ b/leap_ec/real_rep/problems.py
@@ -934,8 +934,8 @@ class GaussianProblem(ScalarProblem):
     def __init__(self, width=1, height=1, maximize=True):
         assert(width > 0)
         super().__init__(maximize)
-        self.width = 1
-        self.height = 1
+        self.width = width
+        self.height = height
 
     def evaluate(self, phenome):
         assert(phenome is not None)
-- 
2.43.0


From ca172f3d52ca7c1341b16e96bb8a6786201f6afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:48 +0000
Subject: [PATCH 29/35] fix: MaxOnes and LeadingOnes raised NameError instead
 of reporting a phenome of the wrong length

---
 leap_ec/binary_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/binary_rep/problems.py b/leap_ec/binary_rep/problems.py
index c5e045e..33e85e3 100644
--- a/leap_ec/binary_rep/problems.py
+++ b/leap_ec/binary_rep/problems.py
@@ -55,7 +55,7 @@ class MaxOnes(ScalarProblem):
                               f"Got {type(phenome)}."))
         # If we've 
         if self.target_string is not None:
-            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(individual.phenome)} dimensions."
+            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(phenome)} dimensions."
             return np.sum(phenome == self.target_string)
         else:
             return np.count_nonzero(phenome == 1)
@@ -106,7 +106,7 @@ class LeadingOnes(ScalarProblem):
                               f"Got {type(phenome)}."))
         
         if self.target_string is not None:
-            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(individual.phenome)} dimensions."
+            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(phenome)} dimensions."
             match_str = (phenome == self.target_string)
         else:
             match_str = (phenome == 1)
-- 
2.43.0


From 7bbbeef65acd1135fb89a089213d3e670ace54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:48 +0000
Subject: [PATCH 30/35] fix: random_orthonormal_matrix crashed in one dimension

---
 leap_ec/real_rep/problems.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/leap_ec/real_rep/problems.py b/leap_ec/real_rep/problems.py
index da8db4d..9346b7f 100644
--- a/leap_ec/real_rep/problems.py
+++ b/leap_ec/real_rep/problems.py
@@ -1410,10 +1410,11 @@ def random_orthonormal_matrix(dimensions: int):
                             f"norm of {np.linalg.norm(matrix[0])}, " \
                             f"but it should always be approximately 1.0. "
     # Any pair of vectors will be linearly independent
-    assert (abs(round(np.dot(matrix[0], matrix[1]), 5)) ==
-            0.0), f"A pair of columns in the transformation matrix has " \
-                    f"dot product of {round(np.dot(matrix[0], matrix[1]),5)},"\
-                    f" but it should always be approximately 0.0. "
+    if dimensions > 1:
+        assert (abs(round(np.dot(matrix[0], matrix[1]), 5)) ==
+                0.0), f"A pair of columns in the transformation matrix has " \
+                        f"dot product of {round(np.dot(matrix[0], matrix[1]),5)},"\
+                        f" but it should always be approximately 0.0. "
     # The matrix's transpose will be its inverse
     assert(np.allclose(matrix.dot(matrix.T), np.identity(len(matrix)))), \
         f"Any orthornormal matrix should satisfy Q^(-1) = Q^T, but we got " \
-- 
2.43.0


From d201b890adf1d320a87aa2883482bc826689e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:32 +0000
Subject: [PATCH 31/35] fix: ELAConvexity.linear_p was always 0, even on a
 linear landscape

---
 leap_ec/landscape_features/exploratory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/landscape_features/exploratory.py b/leap_ec/landscape_features/exploratory.py
index 3bf2d0d..91149dc 100644
--- a/leap_ec/landscape_features/exploratory.py
+++ b/leap_ec/landscape_features/exploratory.py
@@ -246,7 +246,7 @@ class ELAConvexity():
 
         .. math::
 
-            | \\delta | < \\tau
+            | \\delta | < | \\tau |
 
         where :math:`\\tau` is a small negative threshold (typically :math:`-10^{-10}`).
 
@@ -255,7 +255,7 @@ class ELAConvexity():
         assert(threshold < 0)
         lessthan_count = 0
         for d in self.deltas:
-            if np.abs(d) < threshold:
+            if np.abs(d) < abs(threshold):
                 lessthan_count += 1
         
         ratio = lessthan_count/len(self.deltas)
-- 
2.43.0


From 901c4f30ab75c3cf577c68e4a0c3e610892cd48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:32 +0000
Subject: [PATCH 32/35] fix: the default keymap of KeyboardExecutable ignored
 the key 9

---
 leap_ec/executable_rep/executable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/executable.py b/leap_ec/executable_rep/executable.py
index 63e88a0..99b0e81 100644
--- a/leap_ec/executable_rep/executable.py
+++ b/leap_ec/executable_rep/executable.py
@@ -84,7 +84,7 @@ class KeyboardExecutable(Executable):
 
     def __init__(self, input_space, output_space,
                  keymap=lambda x: int(x - ord('0')) if x in range(ord('0'), ord(
-                     '9')) else 0):
+                     '9') + 1) else 0):
         assert (output_space is not None)
         if np.prod(output_space.shape) > 1:
             raise ValueError(
-- 
2.43.0


From cca408b0c63f4f1c007598bbb0f4914f507387c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:32 +0000
Subject: [PATCH 33/35] fix: genomes of a repertoire read from a file were
 lists, which most operators and problems reject

---
 leap_ec/contrib/transfer/sequential.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/leap_ec/contrib/transfer/sequential.py b/leap_ec/contrib/transfer/sequential.py
index fdf0315..556e693 100644
--- a/leap_ec/contrib/transfer/sequential.py
+++ b/leap_ec/contrib/transfer/sequential.py
@@ -9,6 +9,8 @@ on future problems.
 import abc
 import csv
 
+import numpy as np
+
 
 class Repertoire(abc.ABC):
     """Abstract definition of a 'repertoire' algorithm for evolutionary transfer.
@@ -59,8 +61,8 @@ class PopulationSeedingRepertoire:
         assert(algorithm is not None)
         if repfile:
             with open(repfile, 'r') as f:
-                self.repertoire = list(csv.reader(
-                    f, quoting=csv.QUOTE_NONNUMERIC))
+                self.repertoire = [np.array(row) for row in csv.reader(
+                    f, quoting=csv.QUOTE_NONNUMERIC)]
         else:
             self.repertoire = []
         self.initialize = initialize
-- 
2.43.0


From bb2768e21c876d417c349683be244c6f1dd67dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:05 +0000
Subject: [PATCH 34/35] fix: ParetoPlotProbe2D without axes opens its own
 figure

The documented default ax=None crashed: the scatter plot was made on the
argument rather than on the axes the base class had created.
---
 leap_ec/multiobjective/probe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/probe.py b/leap_ec/multiobjective/probe.py
index 23e1de5..04668b6 100644
--- a/leap_ec/multiobjective/probe.py
+++ b/leap_ec/multiobjective/probe.py
@@ -41,7 +41,7 @@ class ParetoPlotProbe2D(PopulationMetricsPlotProbe):
                          title=title, modulo=step,
                          context=context)
 
-        self.scatterplot = ax.scatter([], []) # scatterplot for fitnesses
+        self.scatterplot = self.ax.scatter([], []) # scatterplot for fitnesses
 
     def __call__(self, population):
         assert (population is not None)
-- 
2.43.0


From 8353ce20be6557c93c51b9df06f332ecee86fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:19 +0000
Subject: [PATCH 35/35] fix: equals_uniform failed when the expected counts are
 not exact in binary

With 11 outcomes and 100 samples, say, eleven times 100/11 adds up to
100.00000000000001, and the check that both distributions have the same
number of samples raised an AssertionError.
---
 leap_ec/statistical_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/statistical_helpers.py b/leap_ec/statistical_helpers.py
index c046daf..cdcfd79 100644
--- a/leap_ec/statistical_helpers.py
+++ b/leap_ec/statistical_helpers.py
@@ -74,7 +74,7 @@ def stochastic_chisquare(expected_distribution, distribution):
     >>> stochastic_chisquare(expected_distribution, distribution)
     1.0
     """
-    assert(sum(expected_distribution.values()) == sum(distribution.values())), f"The distributions have {sum(expected_distribution.values())} and {sum(distribution.values())} samples, respectively, but must be equal."
+    assert(np.isclose(sum(expected_distribution.values()), sum(distribution.values()))), f"The distributions have {sum(expected_distribution.values())} and {sum(distribution.values())} samples, respectively, but must be equal."
     
     values, expected_values = _normalize_dicts(distribution, expected_distribution)
 
-- 
2.43.0

