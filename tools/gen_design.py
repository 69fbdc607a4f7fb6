"""Writes DESIGN.md: the prose below, each check's own statement of its bounds, the findings, and tools/catches.json."""
import importlib.util, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''# Model checking AureumChaos/LEAP

Generated by `tools/gen_design.py` (prose is kept there; bounds come from the checks, findings from `known_findings.jsonl`).

## 1. Approach

LEAP is a Python library whose guarantees are about *all* executions: every completion order of parallel evaluations,
every failing evaluation, every outcome of the random draws, every small population, every order of operator calls.
All checks are **stateless explicit-state model checking of the real code**. One explorer, `mc/engine.py`, runs a
scenario function against the modules imported from /repo and owns every source of nondeterminism as a *choice point*:

| kind | source | how it is controlled |
|---|---|---|
| `p` | harness inputs: fitness values, genomes, settings, operation sequences | `ctx.pick`, `ctx.subset`, `ctx.permutation` |
| `f` | faults: does this evaluation / program / decode fail? | `ctx.fault` |
| `s` | schedules: which in-flight evaluation completes next? | a simulated dask client, `as_completed`, `get_worker` (`FakeClient`, optionally pickling what crosses the worker boundary) |
| `r` | randomness: every draw of `random`, `numpy.random` and of Generators | the draw functions are replaced before leap_ec is imported; discrete draws branch over all values with their exact weights, unit draws over the midpoints of k equal bins, normal draws over a fixed (per scenario: chosen or computed) set of z values, large integer ranges over their ends and middle. `choice(p=)`-like draws made from one unit draw are given the exact interval weights, so refactoring one into the other changes no distribution |

The explorer enumerates all choice sequences by depth-first replay: an execution is determined by its choices, the next
prefix is the last choice point with an untried alternative. Replays are compared with the recorded branching degree, so
an uncontrolled source of nondeterminism shows up as a divergence and not as a silent gap. Where the whole tree is
too large the bound is a *deviation bound* (all executions with at most d non-default choices, the analogue of a
preemption bound), stated in the scenario and in the evidence. Because draws carry weights, the explorer also computes
**exact outcome probabilities** (`post=`): "uniform", "independent with probability p", "proportional to" are decided
by equality of distributions, not by statistics. Non-termination is a violation (choice limit and CPU horizon per run).

**Oracle.** Each scenario compares every execution (and every intermediate state it can observe through public
interfaces) with an independent reference model written from the documentation - a dominance-depth sort by definition, a
reference island model, a symbolic interpreter of CGP graphs, a plain re-implementation of benchmark formulas. No
check looks at source text or at private attributes; results are judged through public API, arguments of callbacks and
files written. There is no separate model whose drift would have to be controlled: model traces *are* implementation
traces, and `traces_validated_against_impl` in the evidence is the number of executions.

**Evidence.** `evidence/<id>.json` reports distinct states/outcomes, choice points (transitions), executions, maximal
depth, the bounds, whether any scenario was cut by the time budget (`time_capped_scenarios`; none on the unchanged
tree in the quick tier), and sampled traces.

**Replay.** A violation writes the choice sequence to `replays/`; `./check` prints how to replay it
(`mc/run.py <id> --replay <file>` runs it twice).

**Confinement.** Scratch files go to a temporary directory made and removed by the check. External-process scenarios
only run small scripts that the check writes there. No network is used: dask is simulated, never started.

**Trusted base.** The explorer, the draw replacements, the simulated dask client, and the reference models. Real-valued
draws are represented by bin midpoints: a fault that needs an exact real value between the midpoints is outside
the bounds. Real dask (pickling, worker death, network) is outside; the simulated client covers its interface as LEAP
uses it: order, failure, serialisation of arguments and results.

Commands: `./check <id> quick|thorough`; `--verbose` lists scenarios, `--only <name>` selects. Environment: `MC_JOBS`,
`MC_REPO` (another source tree; used for planted bugs only). Nothing is built: the code is imported from /repo's
working tree with byte-code writing off, so a check always sees the current sources. There are no hooks in /repo.

## 2. Properties and how each is decided
'''
M = {
 "C01": ("Whole runs of `steady_state` and `steady_state_nsga_2` on the simulated client; choice points are the completion order and which evaluations raise.",
         "A counting problem, recording inserter and probes: number of evaluations, each submitted individual evaluated/inserted/probed once, nothing in flight at return, budget arithmetic per counting policy.",
         "Order and failure position decide the bookkeeping; tests have one order per run."),
 "C02": ("Sequences of arrivals fed to the insertion rules, every fitness level including failed, every contestant draw; and whole asynchronous runs.",
         "Best-of-all-seen multiset for the greedy rule; contest semantics and exact contestant distribution for the tournament rule; monotone best.",
         "Loss of the best needs a particular arrival order."),
 "C03": ("Every insertion sequence into `enlu_inserter` over grids of objective vectors, with and without capacity, single and twin runs, and whole asynchronous NSGA-II runs.",
         "Dominance depth by definition over the survivors after each insertion; crowding distance by definition for the dropped individual.",
         "The update has three cascading cases that show after several displacements only. This found the ENLU defect repaired in /repo."),
 "C04": ("Every list of objective vectors over small grids, every split into offspring and parents, every direction mix.", "Dominance depth by definition; identity of members; unchanged fitness.", "Ties and duplicates in particular orders."),
 "C05": ("Crowding on every small population; whole NSGA-II runs with every assignment of offspring vectors.", "Crowding by definition; a reference NSGA-II survivor choice up to legitimate ties.", "Degenerate fronts and cut fronts."),
 "C06": ("All pairs and triples over a value alphabet and all problem families.", "The definition of better; algebraic laws of the order.", "Laws over all pairs/triples."),
 "C07": ("Whole `generational_ea` runs with every fitness history, elite count, start, limit and stop decision.", "A reference loop: generation numbers published, parents handed on, elitism by rank, sizes.", "Best-never-lost over all histories."),
 "C08": ("Each operator on every small population over every draw with exact weights.", "Exact selection distributions computed from the definition; expected copies and floor/ceil law for SUS; tour law for cyclic selection.", "Sampling cannot see small distribution errors."),
 "C09": ("Every parent pair, cut point set and swap mask; every consumption history.", "Gene conservation position by position, allowed patterns, exact distribution of masks and cut points; delivery log.", "Particular lengths, cuts and histories."),
 "C10": ("Every genome, bounds, probability and draw for each mutator.", "Exact outcome distribution of an independent per-gene model; legality, type and length.", "Position- and draw-specific faults."),
 "C11": ("Every composition of variation operators x evaluation route x individual class x representation, over generations; every operation history on a few individuals.", "Snapshots of all parents; fitness recomputed from the current genome; memory-sharing test; lineage model.", "Aliasing and stale caches need operator orders."),
 "C12": ("Every fitness assignment to offspring and parents, sizes, elites, keys; every contestant sequence.", "Multiset-of-best by definition (ties free), sequential contest model with exact probabilities.", "Ties, early exit, sizes."),
 "C13": ("Every turn sequence on small topologies with every emigrant, destination, contestant.", "A reference island model with queues; uniform destination distribution; metric and hook logs.", "Lost or repeated emigrants need several islands and generations."),
 "C14": ("Every subpopulation shape, position, collaborator choice and trial count; whole multi-population runs.", "The assembled solutions seen by the problem; mean; log rows.", "Position and averaging mistakes."),
 "C15": ("Every failure subset, completion order, exception type and re-evaluation history.", "Per-individual expected state; failure counter; order of results.", "Which evaluation fails and what its ancestors did."),
 "C16": ("Every bit string of every small layout; every ordered pair of strings/decoders.", "Positional value / reflected Gray code by definition; history independence.", "Bijectivity over all strings."),
 "C17": ("Every legal genome of small architectures, run on *symbolic* inputs (so one run decides all inputs); all mutation and initialiser outcomes.", "Direct recursive interpreter of the genome; legality by definition; exact distributions.", "Graph shapes beyond hand-written genomes."),
 "C18": ("Every small rule set x observation; every draw.", "First matching rule / uniform among closest, by definition; layout and bound model.", "Ties and boundary values."),
 "C19": ("Every history of populations given to each probe with all options.", "A reference recorder; snapshots of individuals before/after; parsed files, tables and artists.", "History dependence."),
 "C20": ("Every interleaving of operations on several counters, contexts, branders; every clone/create history.", "Reference counters and identity sets.", "Cross-talk."),
 "C21": ("Every operation history on segmented genomes, every random position.", "A list model of segments, exact position distributions, memory-sharing test.", "Shared storage after sequences."),
 "C22": ("Every population x chunk size; every noise sequence; every behaviour of the external program.", "Direct evaluation; mean/offset/schedule by definition; error expected for faulty output.", "Chunk boundaries and faulty outputs."),
 "C23": ("Every pair and population; every operator that takes a key.", "Lexicographic / penalised order by definition.", "Direction and ties."),
 "C24": ("Every composition of streaming operators with counting taps; every operator against every input form.", "Demand model: numbers drawn, evaluated, cloned at each stage; error expected for wrong forms.", "A property of all compositions."),
 "C25": ("`ea_solve`, `random_search`, `multi_population_ea` over every objective value sequence, stop decision and draw (deviation bound).", "Evaluation log: count, bounds, best; reference multi-population loop.", "The optimum must appear at particular moments."),
 "C26": ("Every grid point for every benchmark and constructor setting; every wrapper nesting.", "Formulas re-implemented from the documentation in plain Python; composition law.", "Parameter mix-ups vanish at the optimum."),
 "C27": ("Every draw of every initialiser, with exact probabilities, over repeated calls.", "Uniformity and bounds by definition; memory-sharing test.", "All draws, repeated calls."),
 "C28": ("Every small layer shape x family of weight vectors x inputs; interleaved networks; keyboard histories.", "Plain-Python forward pass.", "Slicing errors depend on shape."),
 "C29": ("Every scripted environment behaviour; every truth table; every small image.", "Replay of the script; fraction of rows; distance by definition.", "Episode lengths, partial rows."),
 "C30": ("Every sampling outcome of the convexity features; every small curve table; every small outcome multiset.", "Recomputation from the recorded samples / rows.", "Particular draws and row orders."),
 "C31": ("Every train/apply/export-reload history with a stand-in algorithm.", "A list model of learned genomes.", "Order, truncation, precision."),
}
NOTES = open(os.path.join(ROOT, "tools", "design_notes.md")).read()
out = [HEAD]
costs = json.load(open(os.path.join(ROOT, "tools", "costs.json"))) if os.path.exists(os.path.join(ROOT, "tools", "costs.json")) else {}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    p = d["id"]
    src = open(os.path.join(ROOT, "mc", "props", p.lower() + ".py")).read()
    m = re.search(r"^BOUNDS = (\{.*?\})\n", src, re.S | re.M)
    b = eval(m.group(1))
    how, oracle, why = M[p]
    out.append("### %s %s\n\n%s\n\n- **Enumerated:** %s\n- **Oracle:** %s\n- **Bounds (quick):** %s%s\n- **Why tests cannot:** %s\n- **Cost:** %s\n- **Check:** `mc/props/%s.py`\n" % (
        p, d["title"], d["statement"], how, oracle, b["quick"], ("\n- **Bounds (thorough):** " + b["thorough"]) if b.get("thorough") else
        "\n- **Bounds (thorough):** the same families one size larger or with a larger deviation bound", why, costs.get(p, "seconds"), p.lower()))
out.append(NOTES)
out.append("## 5. Genuine defects found and repaired\n\nEach was shown on the unchanged code by a check or its scenario, repaired by one `fix:` commit, and is reported again if it returns "
           "(listed in `known_findings.jsonl`; nothing is suppressed).\n")
for l in open(os.path.join(ROOT, "known_findings.jsonl")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("- %s `%s` %s" % m.groups())
op = [json.loads(l) for l in open(os.path.join(ROOT, "known_findings.jsonl")) if l.startswith("{")]
out.append("\nOpen findings: %s\n" % ("none." if not op else "; ".join(o["what"] for o in op)))
out.append("## 6. Planted bugs and which checks catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
c = json.load(open(os.path.join(ROOT, "tools", "catches.json"))) if os.path.exists(os.path.join(ROOT, "tools", "catches.json")) else {}
for sid in sorted(os.listdir(os.path.join(ROOT, "seeded")) if os.path.isdir(os.path.join(ROOT, "seeded")) else c):
    mf = os.path.join(ROOT, "seeded", sid, "meta.json")
    if os.path.exists(mf):
        m = json.load(open(mf))
        out.append("| %s | %s | %s | %s |" % (sid, m["property"], m["needs"], c.get(sid, "?")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print("DESIGN.md", sum(len(x) for x in out))
