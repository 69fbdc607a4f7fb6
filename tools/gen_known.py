"""Writes known_findings.jsonl: the repaired defects ("fixed:" lines suppress nothing) and the open ones (JSON lines)."""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, start of the commit's subject, what failed
 ("C03", "ENLU ranks", "a layer was ranked as dominated although only the zenith of the moving points, not the points, dominated it: wrong ranks"),
 ("C01", "asynchronous NSGA-II", "asynchronous NSGA-II crashed on the first failed evaluation (NaN fitness is not a vector)"),
 ("C05", "crowding distance keeps", "crowding distance dropped a front whose members all have equal fitness"),
 ("C09", "UniformCrossover crashed", "uniform crossover crashed on parents of different lengths"),
 ("C09", "NAryCrossover lost", "n-ary crossover lost the tail of a second parent longer than the first"),
 ("C12", "insertion_selection", "insertion selection returned after the first offspring and ignored the others"),
 ("C11", "clones no longer", "clone kept the parent's decoded phenome"),
 ("C11", "grouped_evaluate decodes", "grouped evaluation used a stale cached phenome instead of decoding the current genome"),
 ("C22", "grouped_evaluate crashed", "grouped evaluation raised TypeError for every problem with the default evaluate_multiple"),
 ("C21", "copy_segment", "copy_segment inserted the same segment object twice, so mutating one copy changed both"),
 ("C20", "birth_brander only", "birth_brander numbered only the first individual and failed on lists / second populations"),
 ("C20", "clones carried", "a clone carried its parent's birth ID, so IDs were reused"),
 ("C25", "random_search ignored", "random_search wrote the generation to the global context instead of the one it was given"),
 ("C25", "multi_population_ea", "multi_population_ea evaluated its initial populations under the generation number of an earlier run"),
 ("C25", "ea_solve lost", "ea_solve did not return the best solution when it was in the initial population"),
 ("C15", "a successful evaluation", "a successful re-evaluation kept the exception of the earlier failure"),
 ("C18", "PittRulesDecoder.initializer", "PittRulesDecoder.initializer mixed up the bounds of multi-dimensional inputs"),
 ("C19", "PlotPittRuleProbe crashed", "PlotPittRuleProbe crashed for modulo > 1"),
 ("C14", "CooperativeProblem", "CooperativeProblem crashed when given a log_stream"),
 ("C29", "EnvironmentProblem", "EnvironmentProblem.num_inputs/num_outputs returned None"),
 ("C15", "the count of non-viable", "failures on dask workers were counted in the worker's copy of the context and lost"),
 ("C17", "a parameter segment", "a CGP parameter segment of the wrong length raised AttributeError instead of the intended ValueError"),
 ("C19", "PlotPittRuleProbe ignored", "PlotPittRuleProbe ignored plot_dimensions"),
 ("C18", "PittRulesDecoder.action_bounds", "PittRulesDecoder.action_bounds ignored the start of the action space"),
 ("C21", "segmented_mutate", "segmented mutation with a wrong number of mutators raised NameError"),
 ("C22", "ExternalProcessProblem", "the last value of external output without a final newline was dropped"),
 ("C30", "equals_uniform failed", "equals_uniform raised AssertionError when n/k added k times is not exactly n (11 outcomes, 100 samples)"),
 ("C19", "ParetoPlotProbe2D without axes", "ParetoPlotProbe2D crashed with its documented default ax=None"),
 ("C22", "AverageFitnessProblem", "AverageFitnessProblem averaged the objectives of a multi-objective problem together"),
 ("C26", "GaussianProblem", "GaussianProblem ignored its width and height"),
 ("C26", "MaxOnes and LeadingOnes", "MaxOnes/LeadingOnes raised NameError on a phenome of the wrong length"),
 ("C26", "random_orthonormal_matrix", "random_orthonormal_matrix crashed in one dimension"),
 ("C30", "ELAConvexity.linear_p", "ELAConvexity.linear_p was always 0"),
 ("C28", "the default keymap", "KeyboardExecutable's default keymap ignored the key 9"),
 ("C31", "genomes of a repertoire", "genomes of a reloaded repertoire were lists, which most operators reject"),
]
OPEN = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
lines = []
for p, s, w in FIXED:
    h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + s)]
    assert len(h) == 1, (s, h)
    lines.append("fixed: property=%s %s %s" % (p, h[0], w))
import json
lines += [json.dumps(o) for o in OPEN]
open(os.path.join(ROOT, "known_findings.jsonl"), "w").write("\n".join(lines) + "\n")
print(len(lines))
