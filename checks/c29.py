"""C29: benchmark experiments are partitioned and reproduced exactly"""
import contextlib
import io
import itertools
import random
import typing as tp
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Enum, Prop, Recorder, ensure, ensure_eq, expect_raises
from pbt import params as P
from checks.c30 import simulate

PLAN = "verif_plan"
FAULTS: tp.Dict[int, tp.Dict[str, tp.Any]] = {}
OPTIMIZERS = ["OnePlusOne", "DE", "RandomSearch", "PSO", "TwoPointsDE", "MetaRecentering", "CMA", "NGOpt", "ScrHammersleySearch", "TBPSA", "FamilyDE", "Cobyla"]


class Injected(ValueError):
    pass


class Interruption(BaseException):  # same as KeyboardInterrupt, which is for Hypothesis
    pass


FUNCTION: tp.Any = None


def get_function() -> tp.Any:
    global FUNCTION
    if FUNCTION is None:
        import nevergrad as ng
        from nevergrad.functions import ExperimentFunction

        class Faulty(ExperimentFunction):
            """Random function (through the random state of the parametrization), which can fail"""

            def __init__(self, key: int, dim: int, kind: str = "float", noise: float = 0.0, bound: tp.Any = None) -> None:
                array: tp.Any = ng.p.Array(shape=(dim,))
                if kind == "choice":
                    param: tp.Any = ng.p.Instrumentation(array, c=ng.p.Choice(["a", "b", "c"]))
                else:
                    param = ng.p.Instrumentation(array, c="a")
                if bound is not None:
                    param.register_cheap_constraint(Bound(bound))
                super().__init__(self._func, param.set_name(f"{kind},{bound}"))
                self.key = key
                self.noise = noise
                self.center = self.parametrization.random_state.normal(0, 1, size=dim)

            def value(self, x: np.ndarray, c: str) -> float:
                return float(np.sum((x - self.center) ** 2)) + {"a": 0.3, "b": 0.0, "c": 1.0}[c]

            def _func(self, x: np.ndarray, c: str) -> float:
                fault = FAULTS.get(self.key)
                if fault is not None:
                    fault["count"] += 1
                    if fault["count"] == fault["at"]:
                        raise fault["exc"]("injected")
                    fault["points"].append(x.tolist())
                noise = self.noise * self.parametrization.random_state.normal() if self.noise else 0.0
                return self.value(x, c) + noise

            def evaluation_function(self, *recommendations: tp.Any) -> float:
                assert len(recommendations) == 1
                return self.value(*recommendations[0].args, **recommendations[0].kwargs)

            def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
                return abs(int(10 * input_parameter[0][0][0])) % 5

        FUNCTION = Faulty
    return FUNCTION


class Bound:
    def __init__(self, bound: float) -> None:
        self.bound = bound

    def __call__(self, value: tp.Any) -> bool:
        return bool(value[0][0][0] >= self.bound)


def build(specs: tp.Sequence[tp.Any], seed: tp.Optional[int] = None, tag: int = 0) -> tp.Iterator[tp.Any]:
    import nevergrad as ng
    from nevergrad.benchmark.xpbase import Experiment, create_seed_generator
    from nevergrad.functions import ArtificialFunction

    seedg = create_seed_generator(seed)
    for k, s in enumerate(specs):
        if s["function"] in ("sphere", "rastrigin", "DelayedSphere"):
            func: tp.Any = ArtificialFunction(s["function"], block_dimension=s["dim"], noise_level=s["noise"], rotation=s["kind"] == "choice", useless_variables=s["dim"] % 2)
        else:
            func = get_function()(k + 1000 * tag, s["dim"], s["kind"], s["noise"], s["bound"])
        name: tp.Any = s["optimizer"]
        if name == "FamilyDE":
            name = ng.families.DifferentialEvolution(crossover="twopoints", popsize=7)
        seed_k = next(seedg)
        seed_k = None if seed_k is None else int(seed_k)  # (see run_numpy_seed)
        yield Experiment(func, name, budget=s["budget"], num_workers=s["workers"] if name != "Cobyla" else 1, batch_mode=s["batch"], seed=seed_k, penalize_violation_at_test=s["penalize"])


spec = st.fixed_dictionaries({
    "function": st.sampled_from(["faulty", "faulty", "sphere", "rastrigin", "DelayedSphere"]), "dim": st.integers(1, 4), "kind": st.sampled_from(["float", "choice"]),
    "noise": st.sampled_from([0.0, 0.0, 0.3]), "optimizer": st.sampled_from(OPTIMIZERS), "budget": st.integers(1, 12), "workers": st.sampled_from([1, 1, 2, 3]),
    "batch": st.booleans(), "penalize": st.booleans(), "bound": st.sampled_from([None, None, None, None, -1.0, -0.2])})


@contextlib.contextmanager
def registered(maker: tp.Any) -> tp.Iterator[tp.Any]:
    from nevergrad.benchmark import experiments
    from nevergrad.benchmark import core

    core.registry[PLAN] = maker
    assert core.registry is experiments.registry
    try:
        yield core
    finally:
        core.registry.unregister(PLAN)


# ---------------------------------------------------------------------------
# partitions


@st.composite
def chunkings(draw: tp.Any) -> tp.Any:
    return {
        "length": draw(st.integers(1, 12)), "repetitions": draw(st.integers(1, 4)), "seed": draw(st.one_of(st.none(), st.integers(0, 1000))),
        "cap": draw(st.one_of(st.none(), st.integers(-1, 14))), "splits": draw(st.lists(st.tuples(st.integers(0, 5), st.integers(1, 7)), min_size=0, max_size=4)),
    }


def run_chunks(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.benchmark.xpbase import create_seed_generator

    length, reps, seed = case["length"], case["repetitions"], case["seed"]
    specs = [{"function": "sphere", "dim": 1 + k, "kind": "float", "noise": 0.0, "optimizer": "OnePlusOne", "budget": 10 + k, "workers": 1, "batch": True, "penalize": True, "bound": None}
             for k in range(length)]
    cap = length if case["cap"] is None else min(length, max(1, case["cap"]))
    state = np.random.get_state()[1].tolist()  # type: ignore
    with registered(lambda seed=None: build(specs, seed)) as core:
        whole = core.BenchmarkChunk(PLAN, repetitions=reps, seed=seed, cap_index=case["cap"])
        ensure_eq(len(whole), cap * reps, "length of the chunk")
        full = list(whole)
        ensure_eq([k for k, _ in full], list(range(cap * reps)), "indices")
        # expected sequence: each of the repetitions has its own seed
        for k, (_, xp) in enumerate(full):
            r, i = divmod(k, cap)
            if seed is None:
                ensure(xp.seed is None, "seed without seed")
            else:
                expected = next(itertools.islice(create_seed_generator(seed + r), i, None))
                ensure_eq(int(xp.seed), int(expected), f"seed of experiment {k}")
            ensure_eq((xp.optimsettings.budget, xp.function.dimension), (10 + i, 1 + i + (1 + i) % 2), f"experiment {k}")
        leaves = [whole]
        for which, number in case["splits"]:
            node = leaves.pop(which % len(leaves))
            parts = node.split(number)
            ensure_eq(len(parts), number, "number of sub-chunks")
            ensure_eq(sum(len(x) for x in parts), len(node), "lengths of the sub-chunks")
            ensure(max(len(x) for x in parts) - min(len(x) for x in parts) <= 1, "unbalanced split")
            leaves.extend(parts)
        seen: tp.List[int] = []
        for leaf in leaves:
            items = list(leaf)
            ensure_eq(len(items), len(leaf), "length of a chunk")
            for k, xp in items:
                seen.append(k)
                ensure(xp == full[k][1], f"experiment {k} differs in the chunk")
                ensure(xp.seed == full[k][1].seed, f"seed of experiment {k} differs in the chunk")
            ensure_eq([k for k, _ in items], [k for k, _ in leaf], "iterating twice")
        ensure_eq(sorted(seen), list(range(cap * reps)), "the chunks are not a partition")
        ensure_eq(len({leaf.id for leaf in leaves}), len(leaves), "ids of the chunks")
    del state
    rec.nontrivial(len(leaves) > 2 and cap * reps > len(leaves))


# ---------------------------------------------------------------------------
# computations


@st.composite
def plans(draw: tp.Any) -> tp.Any:
    return {
        "specs": draw(st.lists(spec, min_size=1, max_size=4)), "seed": draw(st.integers(0, 10000)), "workers": draw(st.integers(1, 4)), "order": draw(P.seeds),
        "fault": draw(st.one_of(st.none(), st.tuples(st.integers(0, 3), st.integers(1, 12), st.sampled_from(["error", "interrupt"])))),
    }


class LazyExecutor:
    """Runs the jobs in a random order at the first result"""

    class Job:
        def __init__(self, owner: tp.Any, func: tp.Any) -> None:
            self.owner, self.func, self.out = owner, func, None
            self.ran = False

        def done(self) -> bool:
            return self.ran

        def result(self) -> tp.Any:
            self.owner.run()
            return self.out

    def __init__(self, seed: int) -> None:
        self.rng = random.Random(seed)
        self.jobs: tp.List[tp.Any] = []

    def submit(self, func: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        self.jobs.append(self.Job(self, lambda: func(*args, **kwargs)))
        return self.jobs[-1]

    def run(self) -> None:
        jobs = [j for j in self.jobs if not j.ran]
        self.rng.shuffle(jobs)
        for j in jobs:
            np.random.seed(self.rng.randrange(1000))
            j.out = j.func()
            j.ran = True


TIMES = ("elapsed_time",)


def clean(row: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
    out = {}
    for k, v in row.items():
        if k in TIMES or k.startswith("info/"):
            continue
        if isinstance(v, (float, np.floating, int, np.integer)) and not isinstance(v, bool):
            v = "nan" if np.isnan(v) else float(v)
        out[k] = v
    return out


def by_hand(xp: tp.Any) -> tp.Tuple[float, float, tp.Any]:
    """Reference: plain ask and tell loop from the seed"""
    import nevergrad as ng
    import torch

    np.random.seed(xp.seed)
    random.seed(xp.seed)
    torch.manual_seed(xp.seed)
    func = xp.function.copy()
    s = xp.optimsettings
    cls = ng.optimizers.registry[s.optimizer] if isinstance(s.optimizer, str) else s.optimizer
    opt = cls(func.parametrization, budget=s.budget, num_workers=s.num_workers)
    _, time = simulate(opt, func, s.budget, s.num_workers, s.batch_mode)
    rec = opt.recommend()
    return func.evaluation_function(rec), time, rec


def run_compute(case: tp.Any, rec: Recorder) -> None:
    warnings.simplefilter("ignore")
    specs = case["specs"]
    fault = case["fault"]
    state = {"tag": 0}
    FAULTS.clear()
    target = None if fault is None else fault[0] % len(specs)
    if target is not None and specs[target]["function"] in ("sphere", "rastrigin", "DelayedSphere"):
        target = fault = None
    sink = io.StringIO()

    def maker(seed: tp.Any = None) -> tp.Any:
        return build(specs, seed, state["tag"])

    with registered(maker) as core, contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        first = core.compute(PLAN, seed=case["seed"]).to_dict("records")
        first = [clean({k: v for k, v in row.items()}) for row in first]
        ensure_eq(len(first), len(specs), "number of records")
        # distributed, in any order, gives the same records
        jobs = core._submit_jobs(PLAN, num_workers=case["workers"], seed=case["seed"], executor=LazyExecutor(case["order"]))
        parts = [[clean(row) for row in j.result().to_dict("records")] for j in jobs]
        for k, row in enumerate(first):
            other = parts[k % case["workers"]][k // case["workers"]]
            ensure_eq({x: y for x, y in other.items() if x in row and row[x] != "nan"}, {x: y for x, y in row.items() if y != "nan" and x in other},
                      f"record {k} once distributed")
        # the records are what the experiments give
        for k, xp in enumerate(maker(case["seed"])):
            row = first[k]
            s = specs[k]
            desc = dict(xp.function.descriptors, budget=s["budget"], num_workers=s["workers"] if s["optimizer"] != "Cobyla" else 1, batch_mode=s["batch"], seed=xp.seed, error="", elapsed_budget=s["budget"], num_objectives=1)
            for x, y in clean(desc).items():
                if isinstance(y, (tuple, list)) or y is None:
                    continue
                ensure_eq(row[x], y, f"{x} in record {k}")
            ensure_eq(row["optimizer_name"], s["optimizer"] if s["optimizer"] != "FamilyDE" else repr(xp.optimsettings.optimizer), "optimizer name")
            loss, time, rec_ = by_hand(xp)
            if s["function"] == "faulty" and s["bound"] is not None and not rec_.value[0][0][0] >= s["bound"] and s["penalize"]:
                loss += 1e9
                rec.event("penalized")
            ensure(abs(row["loss"] - loss) <= 1e-12 * max(1.0, abs(loss)), f"record {k}: loss {row['loss']} instead of {loss}")
            ensure_eq(row["pseudotime"], time, f"pseudotime of record {k}")
        # failures
        if fault is not None:
            state["tag"] = 1
            s = specs[target]
            key = 1000 + target
            exc = Injected if fault[2] == "error" else Interruption
            FAULTS[key] = {"count": 0, "at": fault[1], "exc": exc, "points": []}
            chunk = core.BenchmarkChunk(PLAN, seed=case["seed"])
            happens = s["budget"] >= fault[1]
            if fault[2] == "interrupt" and happens:
                with expect_raises(Interruption, msg="interrupted computation"):
                    chunk.compute()
                ensure_eq(len(chunk.summaries), target, "records before the interruption")
                rec.event("interrupted")
            rows = [clean(r) for r in chunk.compute().to_dict("records")]
            ensure_eq(len(rows), len(specs), "number of records with a failure")
            for k, row in enumerate(rows):
                if k != target or not happens:
                    common = {x for x in row if x in first[k] and row[x] != "nan" and x != "key"}
                    ensure_eq({x: row[x] for x in common}, {x: first[k][x] for x in common}, f"record {k} depends on the failure of {target}")
                    ensure(row["loss"] == first[k]["loss"] and row["error"] == "", f"loss of record {k} depends on the failure of {target}")
                elif fault[2] == "error":
                    ensure_eq(row["error"], "Injected", "error of the failed experiment")
                    ensure(row["elapsed_budget"] == "nan" or fault[1] <= row["elapsed_budget"] <= s["budget"], f"elapsed budget {row['elapsed_budget']} of the failed experiment")
                    rec.event("failed")
                else:
                    ensure_eq((row["error"], row["elapsed_budget"]), ("", s["budget"]), "error and budget of the resumed experiment")
                    ensure(row["loss"] != "nan", "no loss for the resumed experiment")
                    ensure_eq(len(FAULTS[key]["points"]), s["budget"], "number of evaluations of the resumed experiment")
                    rec.event("resumed")
    rec.nontrivial(any(s["budget"] > 2 for s in specs))


# ---------------------------------------------------------------------------


def run_seeds(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.benchmark.xpbase import create_seed_generator

    np.random.seed(case["other"])
    before = np.random.get_state()[1].tolist()  # type: ignore
    a = list(itertools.islice(create_seed_generator(case["seed"]), 0, case["n"]))
    ensure_eq(np.random.get_state()[1].tolist(), before, "the global state changed")  # type: ignore
    np.random.rand()
    b = list(itertools.islice(create_seed_generator(case["seed"]), 0, case["n"] + 1))
    ensure_eq([None if x is None else int(x) for x in a], [None if x is None else int(x) for x in b][:-1], "stream of seeds")
    if case["seed"] is None:
        ensure(all(x is None for x in a), "seeds without initial seed")
    else:
        ensure(all(0 <= x < 2**32 for x in a), "range of the seeds")
        ensure(len(set(int(x) for x in a)) == len(a), "repeated seeds")
        c = list(itertools.islice(create_seed_generator(case["seed"] + 1), 0, case["n"]))
        ensure([int(x) for x in c] != [int(x) for x in a], "same stream for another seed")
    rec.nontrivial(case["n"] > 2)


def numpy_seeds(tier: str, seed: int) -> tp.List[tp.Any]:
    return [{"seed": s, "optimizer": name} for s in [0, 12, 1000 + seed] for name in ["OnePlusOne", "DE", "RandomSearch"]]


def run_numpy_seed(case: tp.Any, rec: Recorder) -> None:
    """Seeds of the generator can be used as they are in an experiment"""
    from nevergrad.benchmark.xpbase import Experiment, create_seed_generator
    from nevergrad.functions import ArtificialFunction

    if "C29-numpy-seed" in rec.listed:
        rec.known_finding("C29-numpy-seed")
        return
    losses = []
    for _ in range(2):
        seed = next(create_seed_generator(case["seed"]))
        out = Experiment(ArtificialFunction("sphere", block_dimension=2), case["optimizer"], budget=10, seed=seed).run()
        ensure_eq(out["error"], "", "error of the seeded experiment")
        losses.append(out["loss"])
    ensure_eq(losses[0], losses[1], "loss of seeded experiments")
    rec.nontrivial(True)


PROPS = [
    Enum("numpyseed", numpy_seeds, run_numpy_seed, rule="all"),
    Prop("chunks", chunkings(), run_chunks, 300, rule="several chunks, more experiments than chunks"),
    Prop("compute", plans(), run_compute, 250, rule="an experiment with a budget of 3 or more", shards=5),
    Prop("seeds", st.fixed_dictionaries({"seed": st.one_of(st.none(), st.integers(0, 2**31)), "n": st.integers(1, 30), "other": st.integers(0, 1000)}), run_seeds, 200, rule="3 seeds or more"),
]
