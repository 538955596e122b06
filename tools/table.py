"""Source of properties.jsonl and MANIFEST.json (python3 tools/table.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "nevergrad/parametrization/"
O = "nevergrad/optimization/"
B = "nevergrad/benchmark/"
F = "nevergrad/functions/"
T = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    T.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                  state=state or [], observe=observe or []))


prop("C01", "Parameter values never leave the declared domain",
     "Whatever sequence of sampling, mutation, recombination, standardized-data updates, copies and value assignments is applied to a "
     "parameter or a nested parametrization, every value read from it has the declared structure and type (float, int, array shape, option of a choice, keys of a dict) "
     "and lies within the enforced bounds (bouncing, clipping, arctan, tanh, gaussian). With the \"constraint\" method the bounds are exactly what satisfies_constraints reports, "
     "and full range sampling covers the whole range.",
     ["inputs", "histories"], "all parametrization trees, bounds and bounding methods, all sequences of operations on them",
     "Unit tests apply one operation to a handful of bounds; the guarantee is over arbitrary nesting and sequences of operations.",
     [P + "data.py", P + "_datalayers.py", P + "_layering.py", P + "transforms.py", P + "choice.py", P + "container.py"],
     [("bound layers and transforms", P + "_datalayers.py Bound, BoundLayer"), ("integer casting at bounds", P + "_layering.py Int"), ("option selection", P + "choice.py")],
     "operation sequences on generated trees checked against an independent description of the domain")
prop("C02", "Standardized data is a faithful coordinate system",
     "For every parametrization, standardized data has exactly `dimension` coordinates, is zero for the reference itself, and setting the data read from a parameter "
     "into another child of the same reference gives the same value and the same data. Data of containers is the concatenation of the data of the sub-parameters in "
     "sorted key order, and reading data never changes the parameter.",
     ["inputs", "histories"], "all parametrization trees, all references, all finite data vectors",
     "Tests use a few fixed parameters and one vector; optimizers rely on the property for any vector.",
     [P + "core.py", P + "data.py", P + "container.py", P + "choice.py"],
     [("standardized space get/set", P + "core.py get_standardized_data, set_standardized_data"), ("concatenation", P + "container.py")],
     "round trips and structural relations between a tree and its sub-trees")
prop("C03", "Value assignment round-trips and bad values are rejected",
     "Any value that a parametrization can produce can be assigned to another copy of it, and reading it back gives the same value (also through args/kwargs of an Instrumentation and new_value of spawn_child). "
     "A value of the wrong structure, shape or outside enforced bounds is rejected with an error, and the values of unrelated parameters (parents, siblings) are unaffected in all cases.",
     ["inputs", "histories"], "all parametrization trees and all values of their domain (including exact bounds), all malformed values of listed kinds",
     "Tests assign one or two values per class; bounds, integer and log layers interact for particular values only.",
     [P + "core.py", P + "data.py", P + "container.py", P + "choice.py", P + "_layering.py"],
     [("value setter through layers", P + "_layering.py _layered_set_value"), ("structure checks", P + "container.py")],
     "round trip of generated values, including bounds and integers of large magnitude, and malformed values")
prop("C04", "Children are isolated, traced and frozen candidates immutable",
     "Operations on a child, copy or sample never change the value, standardized data, constraints or sub-parameters of the parameter it comes from (and conversely); children record parent, "
     "generation and lineage consistently with the operation history, and identifiers are unique. A frozen parameter raises on any modification and keeps its value, and its children are not frozen.",
     ["histories"], "all parametrization trees and all interleavings of operations over a growing family of related parameters",
     "Tests check one parent/child pair; aliasing shows only for specific sequences on specific nested types.",
     [P + "core.py", P + "container.py", P + "data.py", P + "_layering.py"],
     [("copy/spawn_child", P + "core.py"), ("freeze", P + "core.py freeze, _check_frozen"), ("sub-object copies", P + "utils.py Subobjects")],
     "model-based histories: a shadow copy of the observable state of every family member is compared after each step")
prop("C05", "Parameter arithmetic and data layers compute what numpy computes",
     "The value of a parameter built with arithmetic (+, -, *, /, **, %, bounds, integer casting, indexing of layers) equals the same numpy expression applied to the value of the initial parameter, "
     "for every standardized data, and leaves the initial parameter unchanged. Assigning a value to the result and reading it back gives that value whenever the expression is invertible.",
     ["inputs", "programs"], "all chains of supported operations and all data",
     "Tests fix two or three expressions; the layer stack is a small interpreter over arbitrary chains.",
     [P + "data.py", P + "_datalayers.py", P + "_layering.py"],
     [("operation layers", P + "_datalayers.py"), ("layer stack", P + "_layering.py Layered")],
     "generated expression chains evaluated both by nevergrad and by numpy")
prop("C06", "Data transforms are exact inverses and respect their range",
     "For every transform (affine, exponentiate, arctan, tanh, clipping, bouncing, cumulative density, Fourier, reverted) backward(forward(x)) gives x on the injective domain, forward(backward(y)) gives y "
     "on the range, forward never leaves the range, is monotonic, and out-of-range backward data is rejected.",
     ["inputs"], "all transform parameters (scalar and array bounds) and all arrays of broadcastable shape",
     "Tests use fixed bounds and three points.",
     [P + "transforms.py", P + "utils.py"], [("transforms", P + "transforms.py")],
     "round trip, range and monotonicity on generated bounds and arrays")
prop("C07", "Choices select, weight and transition over options as specified",
     "A deterministic Choice selects an option of maximal weight; a stochastic one draws option i with the softmax probability of its weight (an option set by the user having the probability 1.5/arity); TransitionChoice maps a standard normal coordinate uniformly to "
     "options in order, and keeps the option selected by the data. Discretization helpers map data to (inverse of) arities uniformly and bijectively on representatives.",
     ["inputs"], "all numbers of options, repetitions, weights, transitions and option types",
     "Tests use seeded single draws; distribution and order are properties of all data.",
     [P + "choice.py", P + "discretization.py", P + "_datalayers.py"],
     [("softmax sampling", P + "discretization.py Encoder"), ("index encoding", P + "choice.py TransitionChoice")],
     "independent softmax/quantile oracle; distribution tests with a failure probability below 1e-9")
prop("C08", "Cheap constraints decide satisfaction and are respected by ask",
     "satisfies_constraints is true exactly if every registered constraint of the parameter (and of its sub-parameters, the constraint functions returning booleans or floats) holds on the value it is given, "
     "whatever the nesting and however the parameter was derived; ask returns a satisfying candidate whenever repeated sampling can find one.",
     ["inputs", "histories"], "all parametrizations with constraints at any level, constraint functions of all supported return types",
     "Tests register one constraint on one type.",
     [P + "core.py", P + "container.py", P + "utils.py", O + "base.py"],
     [("constraint registration and evaluation", P + "core.py register_cheap_constraint, satisfies_constraints"), ("constraint handling in ask", O + "base.py ask")],
     "generated constraint functions whose truth value is computed independently")
prop("C09", "A parametrization's random state fully determines its samples",
     "After seeding the random state of a parametrization, every sequence of sampling, mutation, spawning and recombination gives identical values, whatever the global random state, "
     "and sub-parameters share the random state of their root (also when assigned after construction).",
     ["inputs", "histories"], "all parametrization trees, seeds and operation sequences",
     "Tests check a few types with a single seed and one operation.",
     [P + "core.py", P + "container.py", P + "data.py", P + "choice.py"],
     [("lazy random state propagation", P + "core.py random_state")],
     "differential: the same history is run twice with equal seed and different global state")
prop("C10", "Parametrization helpers describe parametrizations faithfully",
     "Flattening lists every sub-parameter of a parametrization once, under its path, with the values found by walking the structure; list_data lists every data parameter; Normalizer is the inverse of itself backward and maps bounded parameters onto [0, 1]; "
     "descriptors (deterministic, metrizable, continuous, ordered...) are the conjunction over the tree and analysis helpers agree with the declaration.",
     ["inputs"], "all parametrization trees", "Tests use one hand-written tree.",
     [P + "helpers.py", P + "core.py", P + "utils.py"], [("flatten, list_data, Normalizer", P + "helpers.py"), ("function descriptors", P + "utils.py Descriptors")],
     "independent recursive walk over the generated specification")
prop("C11", "Mutation and recombination operators only move what they declare",
     "Crossover, ravel crossover, translation, local Gaussian, jumping and rolling mutations produce arrays of the same shape whose entries come from the declared source (same position of a parent, a rolled copy, a changed local window), "
     "keep values in bounds, and recombination leaves the other parents unchanged.",
     ["inputs"], "all shapes, axes, sizes, parents and random draws", "Tests check fixed seeds on two shapes.",
     [P + "mutation.py", "nevergrad/ops/__init__.py"], [("mutation operators", P + "mutation.py")],
     "per-operator invariants on arrays with uniquely identifiable entries")
prop("C12", "Equal values have equal value hashes and different values differ",
     "get_value_hash depends on nothing but the value and structure: two parameters of a same structure, built or copied separately, have equal hashes if the selected options and the numbers (up to signed zeros) of their values are equal, and different hashes if any of them differs. It is hashable and unaffected by reading, freezing, options which are not selected, or the history.",
     ["inputs", "histories"], "all pairs of values of all parametrization trees", "Tests compare two hand-picked parameters.",
     [P + "core.py", P + "data.py", P + "container.py", P + "choice.py"], [("get_value_hash", P + "core.py, data.py, container.py, choice.py")],
     "pairs of generated values, with equality decided structurally")
prop("C13", "The ask/tell/suggest protocol keeps consistent books",
     "Through any interleaving of ask, tell, tell of never-asked points and suggest, num_ask, num_tell and num_tell_not_asked count the calls, pending candidates are those asked and not yet told, suggested points are asked next, once each (the last suggested first), "
     "asked candidates are frozen fresh objects, telling a candidate again counts as the tell of a point which was not asked, and telling unknown types or calling invalid arguments raise as documented without counting.",
     ["schedules", "histories"], "all interleavings of the protocol, orders of tell, and optimizers",
     "Tests run the sequential loop, or a single reordering.",
     [O + "base.py"], [("ask", O + "base.py Optimizer.ask"), ("tell", O + "base.py Optimizer.tell"), ("suggest", O + "base.py Optimizer.suggest")],
     "model-based: a reference model of the counters, queue and asked set is compared after every step")
prop("C14", "Archive, current bests and recommendations match a reference model",
     "After any history of tells the archive holds for each distinct point the number of evaluations, the mean and the second moment of its losses (up to the documented pruning, which keeps the best points of each of the optimistic, pessimistic and average criteria), the optimistic, pessimistic, average and minimum points are those "
     "minimizing the respective criteria, and the default recommendation is among told points with the best statistics.",
     ["histories"], "all sequences of points, repeated points and losses, including pruning", "Tests check two or three tells.",
     [O + "utils.py", O + "base.py"], [("MultiValue, Archive, Pruning", O + "utils.py"), ("current bests", O + "base.py _update_archive_and_bests")],
     "reference model of the statistics recomputed from the full history")
prop("C15", "Every registered optimizer yields valid candidates and recommendations",
     "Every registered optimizer, on any supported parametrization, budget and number of workers, runs its whole budget of ask/tell without failing or asking a candidate outside the domain, and recommends a point of the domain. "
     "Tells may come in any order and in batches up to the number of workers (optimizers which are sequential by nature declare it and refuse more workers).",
     ["configurations", "schedules", "inputs"], "registry x parametrizations x budgets x num_workers x tell orders x losses",
     "Tests run each optimizer on one or two fixed functions, mostly with one worker and sequentially.",
     [O + "optimizerlib.py", O + "differentialevolution.py", O + "es.py", O + "oneshot.py", O + "recastlib.py", O + "base.py"],
     [("optimizers", O + "optimizerlib.py and siblings"), ("registry", O + "base.py registry")],
     "round-robin over the registry with generated parametrizations, schedules and losses",
     observe=["ask()", "provide_recommendation()"])
prop("C16", "Seeded optimization runs are reproducible",
     "With the same seed for the parametrization's random state, the same optimizer, budget and sequence of losses, every optimizer asks the same candidates and gives the same recommendation, "
     "independently of what was run before in the process and of the global generators (except for third-party libraries which only use these).",
     ["configurations", "histories"], "registry x parametrizations x seeds x budgets x workers",
     "Tests compare a single recorded recommendation per optimizer for one seed.",
     [O + "optimizerlib.py", O + "base.py", O + "differentialevolution.py", O + "es.py", O + "oneshot.py", O + "recastlib.py"],
     [("random state from the parametrization", O + "base.py _rng")],
     "differential between two runs in the same process after different histories")
prop("C17", "minimize spends exactly the budget and respects executor semantics",
     "minimize evaluates the function exactly as many times as the remaining budget, each candidate once, never with more than num_workers pending, tells every result to the optimizer exactly once, and returns the recommendation of the optimizer, "
     "whatever the executor, the completion order, batch mode, and earlier asks/tells; function errors propagate, and it terminates.",
     ["schedules", "configurations", "fault_sequences"], "all completion orders and delays, num_workers, batch_mode, budgets, prior asks, failing functions",
     "Tests use thread pools with a fixed function and no control of the completion order.",
     [O + "base.py", O + "utils.py"], [("minimize loop", O + "base.py Optimizer.minimize"), ("SequentialExecutor, DelayedJob", O + "utils.py")],
     "a controllable executor completes jobs in generated orders; every interaction is recorded and compared with the specification")
prop("C18", "Dumped optimizers and pickled parameters resume identically",
     "Dumping an optimizer at any point of a run and loading it gives an optimizer which, from the same losses, asks the same candidates and recommends the same point as the uninterrupted one, with the same counters and archive (candidates pending at the dump are pickled along with the optimizer, and optimizers based on an external loop need enable_pickling); parameters survive pickling with the same value, data and hash.",
     ["crash_points", "histories", "configurations"], "registry x dump point x schedule", "Tests dump at one point, for one budget.",
     [O + "base.py", O + "optimizerlib.py", P + "core.py"], [("dump/load", O + "base.py dump, load"), ("getstate", P + "core.py")],
     "differential between the loaded and the original optimizer continued with equal losses")
prop("C19", "Losses of every documented kind are handled",
     "Told losses may be any real number type or singleton array, infinite, nan or huge (clipped at 5e20, also for each component of multiobjective losses): the optimizer never fails and never recommends a point with an invalid loss over a point with a finite one, "
     "non-scalar or non-numeric losses are rejected without counting, and candidates keep the loss they were told.",
     ["inputs", "histories"], "all loss types and sequences of finite and invalid losses, across optimizers", "Tests tell one nan and one inf.",
     [O + "base.py"], [("loss conversion and clipping", O + "base.py tell, _process_on_tell")],
     "generated loss sequences against the reference statistics")
prop("C20", "Constraint violations are penalized consistently",
     "A told loss with constraint violations is never better than the raw loss, equals it if no constraint is violated, never decreases when violations increase, follows the declared penalty style, factor and exponent, and candidates satisfying the constraints are preferred; "
     "minimize with constraint_violation functions reports each violation to the tell of its own candidate.",
     ["inputs", "histories"], "all violation vectors, penalty styles, tell histories", "Tests use one constraint with one style.",
     [O + "base.py", "nevergrad/ops/constraints.py"], [("penalty", O + "base.py _process_on_tell"), ("Constraint", "nevergrad/ops/constraints.py")],
     "metamorphic relations between told histories with and without violations")
prop("C21", "Recast (external loop) optimizers ask what the wrapped code evaluates",
     "For optimizers wrapping a blocking minimization function, each point the wrapped function evaluates is asked exactly once, in order, and receives exactly the loss told for that candidate; "
     "ask after the wrapped function finished still returns valid points, errors of the wrapped function are reported, and no thread is left behind.",
     ["schedules", "programs", "fault_sequences"], "all wrapped procedures (sequential and batched), tell orders, early stops and exceptions", "Tests wrap one function run to its end.",
     [O + "recaster.py", O + "recastlib.py"], [("messaging thread", O + "recaster.py")],
     "generated wrapped procedures whose trace is compared with the ask/tell trace")
prop("C22", "Callbacks and loggers observe every event faithfully",
     "Registered callbacks are called once per ask/tell, in registration order and with the candidate and loss of that event; logged parameters can be loaded back with the values, losses and generations told, the optimization dumper and early stopping act exactly at their condition, and progress displays never alter the run.",
     ["histories", "configurations"], "all interleavings of ask and tell and callback registrations", "Tests check one log file of a short run.",
     [O + "callbacks.py", O + "base.py"], [("callbacks", O + "callbacks.py"), ("registration", O + "base.py register_callback")],
     "log compared with the recorded history")
prop("C23", "Internal containers behave like their mathematical model",
     "Ordered sets, uid queues, the archive of arrays, repeated-evaluation statistics, delayed jobs, sleepers and temporary environments behave as the corresponding list/dict/arithmetic models under every sequence of operations, including operations on missing elements, pickling and exceptions.",
     ["histories"], "all operation sequences", "Tests check a scripted sequence.",
     [O + "utils.py", "nevergrad/common/tools.py", P + "utils.py"], [("UidQueue, Archive", O + "utils.py"), ("OrderedSet", "nevergrad/common/tools.py")],
     "stateful comparison with list and dict models")
prop("C24", "Meta-optimizers delegate every evaluation to their sub-optimizers",
     "Chaining, portfolios, split, rescaled, metamodel, multiple-single-runs and competence-map optimizers, nested in any way, forward each ask to the declared sub-optimizer (by budget, turn or competition), tell each loss exactly once to the optimizer whose candidate it is (and, unless no_crossing, to the others which accept it), with the coordinates it asked, and merge split coordinates without mixing groups.",
     ["histories", "configurations"], "all budgets, partitions, numbers of workers and tell orders", "Tests only check that they run or a recorded final point.",
     [O + "optimizerlib.py"], [("Chaining, Portfolio, SplitOptimizer, Rescaled, ParaPortfolio", O + "optimizerlib.py")],
     "recording sub-optimizers observe the delegation")
prop("C25", "The Pareto front is exactly the non-dominated set",
     "With multiobjective losses, after any history the Pareto front contains exactly the told candidates not dominated by another one (among those within the upper bounds, or those told before any within the bounds), each subset request returns distinct members of it of the requested size which minimize the documented score of the subset, and single-objective asks or recommendations are refused or answered as documented.",
     ["histories"], "all histories of vector losses, with ties and duplicates, with and without upper bounds", "Tests check one fixed history.",
     [O + "multiobjective/core.py", O + "base.py"], [("HypervolumePareto, pareto_front", O + "multiobjective/core.py, base.py")],
     "brute-force non-dominated set")
prop("C26", "Hypervolume is the measure of the dominated region",
     "The hypervolume indicator equals the volume of the union of boxes between the points and the reference point, is invariant to order, duplicates and dominated points, monotone in the set, and exact in every dimension; "
     "losses derived from it rank a new non-dominated point before dominated ones (up to rounding).",
     ["inputs", "histories"], "all point sets, dimensions and reference points", "Tests use fixed small examples.",
     [O + "multiobjective/hypervolume.py", O + "multiobjective/core.py"], [("Fonseca algorithm", O + "multiobjective/hypervolume.py")],
     "differential against inclusion-exclusion / grid computation")
prop("C27", "NSGA-II ranking sorts by dominance and crowding",
     "Non-dominated ranking partitions candidates in successive fronts by Pareto dominance, crowding distances match their definition, and ranked selection prefers lower fronts then larger crowding, returning exactly the number asked.",
     ["inputs"], "all sets of loss vectors of any number of objectives, with ties", "Tests use one 2-objective example.",
     [O + "multiobjective/nsga2.py"], [("FastNonDominatedRanking, CrowdingDistance", O + "multiobjective/nsga2.py")],
     "brute-force ranking and crowding definition")
prop("C28", "Quasi-random samplers have their defining properties",
     "Latin hypercube samples have one point per slice and coordinate, Halton and Hammersley sequences equal the (scrambled) radical inverse, samplers replay deterministically with their seed (Halton, Hammersley and LHS once reinitialized) and yield points of the unit cube, rescaled sampling spans the range, "
     "and one-shot optimizers derived from them ask exactly these points.",
     ["inputs", "configurations"], "all dimensions, budgets, scramblings and seeds", "Tests check the first points of a fixed case.",
     [O + "sequences.py", O + "oneshot.py"], [("samplers", O + "sequences.py"), ("one-shot", O + "oneshot.py")],
     "independent radical inverse, permutation and slice counting")
prop("C29", "Benchmark experiments are partitioned and reproduced exactly",
     "Splitting experiments in chunks is a partition of the undivided experiment sequence for any numbers of chunks and repetitions, whatever the seed; running an experiment twice from its seed gives the same result, records hold its description, and failures are recorded rather than lost.",
     ["configurations", "inputs", "fault_sequences"], "all experiment generators, chunk numbers, seeds, failing functions", "Tests use one plan.",
     [B + "core.py", B + "xpbase.py"], [("BenchmarkChunk, seedg", B + "core.py, xpbase.py")],
     "partition equality and differential runs")
prop("C30", "Simulated asynchronous execution follows simulated time",
     "The mocked timed executor releases jobs by simulated completion time (delay order), jobs are done only when all earlier-finishing ones were, never evaluates a function twice, gives the same result when read several times, and tells results as batch or steady mode prescribes.",
     ["schedules"], "all delays, priority orders and modes", "Tests use 3 jobs with fixed delays.",
     [B + "execution.py"], [("MockedTimedExecutor", B + "execution.py")],
     "discrete-event simulation reference")
prop("C31", "Benchmark dataframes are selected, exported and merged without loss",
     "Selecting, filtering, uniqueness and saving/loading of benchmark results are equal to the same operations on lists of records, independently of column or row order, removing errors, normalizing losses and merging names keep every valid record, appending to csv files loses nothing, and computed rankings (fight/winrate) equal their definition.",
     ["inputs"], "all tables of records", "Tests use a fixed dataframe.",
     [B + "utils.py", B + "plotting.py"], [("Selector", B + "utils.py"), ("FightPlotter.winrate", B + "plotting.py")],
     "list-of-dict reference")
prop("C32", "Experiment functions are pure copies of their definition",
     "Copies of an experiment function (also multi and special evaluation experiments) are independent, equal in descriptors and give the same noise-free values with the same seed, the reflections of the symmetry option are distinct and keep the bounds, noise follows its formula, artificial functions equal the base function on the translated/rotated/repeated coordinates with the declared useful and useless variables, noise-free evaluation is deterministic, and optimum-translation makes the translated optimum the best.",
     ["configurations", "inputs"], "all configurations of artificial functions and points", "Tests check some configurations by recorded values.",
     [F + "functionlib.py", F + "base.py", F + "utils.py"], [("ArtificialFunction, ExperimentFunction.copy", F + "functionlib.py, base.py")],
     "independent evaluation of the base function on independently transformed coordinates")
prop("C33", "Core benchmark functions compute their definitions",
     "The registered analytical test functions (sphere, ellipsoid, rastrigin, rosenbrock, griewank, discrete onemax/leadingones/jump and others) equal their mathematical definitions for all inputs, with their known optimum value attained at the known optimum and no lower value anywhere.",
     ["inputs"], "all real and integer vectors of all dimensions", "Tests check one value per function.",
     [F + "corefuncs.py"], [("core functions", F + "corefuncs.py")],
     "independent implementations of the textbook definitions")
prop("C34", "Code instantiation replaces exactly the declared placeholders",
     "Instantiating a file or folder replaces every placeholder with the provided value and nothing else, leaves the source folder untouched, rejects missing or unknown names, runs commands with the instrumented arguments only, and returns all that they print, whatever the sizes of their outputs.",
     ["inputs", "programs"], "all file contents, placeholders and values", "Tests instantiate one example file.",
     [P + "instantiate.py"], [("FileTextFunction, FolderInstantiator, FolderFunction", P + "instantiate.py")],
     "text oracle on generated files")
prop("C35", "Common tools and registries obey their contracts",
     "Pairwise, grouping, round-robin, flattening, sleeping, different-from-defaults, bound checking, sub-object, quasi-randomization, testing (set equality, parametrization, markdown links) and registry tools agree with their documented definition for all inputs; registering refuses duplicates, unregistering forgets everything about the name, and contexts changing the environment or the warnings always restore what they changed, also on errors.",
     ["inputs", "fault_sequences"], "all inputs and failures inside contexts", "Tests use one input each.",
     ["nevergrad/common/tools.py", "nevergrad/common/decorators.py", "nevergrad/common/testing.py", "nevergrad/common/sphere.py", P + "utils.py"], [("tools", "nevergrad/common/tools.py"), ("Registry", "nevergrad/common/decorators.py"), ("quasi_randomize", "nevergrad/common/sphere.py")],
     "reference implementations")
prop("C36", "Evolutionary operators build candidates from their declared parents",
     "Differential evolution crossovers take every coordinate from either parent as declared (with at least one from the donor where documented), populations keep one slot per lineage and replace an individual only by a loss at least as good, evolution strategies keep the best mu distinct individuals, particle swarms follow their speeds, one-plus-one mutations and step sizes follow their declared scheme, and discrete mutations change at least one and only declared coordinates.",
     ["histories", "inputs"], "all populations, losses, tell orders and random draws", "Tests check a recorded recommendation.",
     [O + "differentialevolution.py", O + "es.py", O + "mutations.py"], [("Crossover, _DE", O + "differentialevolution.py"), ("_EvolutionStrategy", O + "es.py"), ("Mutator", O + "mutations.py")],
     "invariants over the generated history of a population")


def main():
    checks, lines, na = [], [], []
    for t in T:
        cid = t["id"]
        lines.append(json.dumps({
            "id": cid, "title": t["title"], "statement": t["statement"],
            "quantifier": {"over": t["over"], "text": t["text"]},
            "why_tests_cant": t["why"],
            "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]],
                        "observe_at": t["observe"], "hook_needed": None}}))
        if os.path.exists(os.path.join(HERE, "checks", cid.lower() + ".py")):
            checks.append({
                "property": cid,
                "quick_cmd": f"./check.sh {cid}",
                "thorough_cmd": f"./check.sh {cid} --tier thorough",
                "evidence_file": f"evidence/{cid}.json",
                "technique": "property-based testing: " + t["note"],
                "level": "exploration",
                "level_note": "Generated-input search (Hypothesis, seeded) against an explicit oracle; absence of failures on the explored cases, no proof. "
                              "Trusts numpy and the oracle in checks/" + cid.lower() + ".py."})
        else:
            na.append({"property": cid, "reason": "check not built yet"})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Each check imports nevergrad from /repo's working tree (nothing is compiled). No hooks are needed in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for t in T:
        assert len(t["title"]) <= 80, t["title"]


if __name__ == "__main__":
    main()
