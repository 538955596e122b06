"""Shared by the checks which run optimizers: the registry, generated runs, and the driving loop"""
import contextlib
import gc
import math
import random
import threading
import typing as tp

import numpy as np
from pbt import params as P
from pbt.core import Skip, derived_seed, ensure, ensure_eq

# not installed in this environment
UNAVAILABLE = {"AX", "AXP", "pysot"}
# several seconds for a few asks (model fits): only in the thorough tier, with small budgets
SLOW = {"SMAC3", "PCABO", "PCABO80", "PCABO95DoE20", "BayesOptimBO", "BO", "BOSplit", "PolyCMA", "SQOPSODCMA20bar", "HSDE", "NeuralMetaModelTwoPointsDE", "MetaModelDSproba"}


def is_slow(name: str) -> bool:
    return name in SLOW or name.startswith(("RF1MetaModel", "RFMetaModel", "NeuralMetaModel", "Neural1MetaModel"))


# tabu archives of small discrete spaces: asking a non-visited point takes exponentially long once (nearly) all were visited
def is_tabu(name: str) -> bool:
    return name.startswith("SADiscrete") or name in ("PortfolioDiscreteOnePlusOneT", "DiscreteLenglerOnePlusOneT", "DiscreteLenglerRecomOnePlusOneT")


# libraries which refuse (or break) in dimension 1
NO_DIM1 = {"NLOPT_LN_NEWUOA_BOUND", "PymooCMAES", "PymooBIPOP", "PymooNSGA2", "PymooBatchNSGA2"}
# nlopt raises on numerical precision
NLOPT = {"NLOPT_LN_BOBYQA", "NLOPT_LN_NEWUOA_BOUND", "NLOPT_LN_PRAXIS", "NLOPT_LN_COBYLA", "NLOPT_LN_NEWUOA"}
# scipy's COBYLA holds a process-wide lock during a minimization: see the finding on COBYLA; two sub-optimizers of the same run
# may use it at the same time
TWO_COBYLA = {"SplitCSEC11", "MultiCobyla"}


def bfloat(rng: random.Random, lo: float = -5, hi: float = 5) -> float:
    return round(rng.uniform(lo, hi), 3)


def rand_leaf(rng: random.Random) -> tp.Any:
    k = rng.choice(["scalar", "scalar", "bscalar", "intscalar", "log", "choice", "tchoice", "array"])
    if k == "scalar":
        return {"k": "scalar", "ms": False, "init": rng.choice([None, bfloat(rng)])}
    if k == "bscalar":
        lo = bfloat(rng)
        return {"k": "scalar", "ms": rng.random() < 0.2, "lower": lo, "upper": lo + rng.choice([0.1, 1.0, 7.5, 100.0])}
    if k == "intscalar":
        lo = rng.randint(-5, 5)
        return {"k": "scalar", "ms": False, "lower": float(lo), "upper": float(lo + rng.choice([1, 3, 20])), "int": True}
    if k == "log":
        return {"k": "log", "ms": False, "lower": 10.0 ** -rng.randint(1, 4), "upper": 10.0 ** rng.randint(0, 3)}
    if k == "choice":
        n = rng.randint(2, 4)
        return {"k": "choice", "items": [{"k": "const", "v": f"o{i}"} for i in range(n)], "rep": rng.choice([None, None, 2]), "det": rng.random() < 0.3}
    if k == "tchoice":
        n = rng.randint(2, 6)
        return {"k": "tchoice", "items": [{"k": "const", "v": i} for i in range(n)], "rep": rng.choice([None, None, 3]), "ordered": rng.random() < 0.7, "transitions": [1.0, 1.0]}
    return rand_array(rng)


def rand_array(rng: random.Random) -> tp.Any:
    shape = rng.choice([[1], [2], [3], [2, 2], [5], [1, 3]])
    spec: tp.Dict[str, tp.Any] = {"k": "array", "shape": shape, "ms": False}
    size = int(np.prod(shape))
    mode = rng.choice(["free", "free", "ctor", "set", "int"])
    if mode == "ctor":
        lo = bfloat(rng)
        spec.update(lower=lo, upper=lo + rng.choice([0.5, 3.0, 20.0]))
    elif mode in ("set", "int"):
        lo = float(rng.randint(-6, 3))
        hi = lo + rng.choice([1.0, 4.0, 13.0])
        spec["init"] = [rng.choice([lo, hi, lo + (hi - lo) / 2] if mode == "set" else [lo, hi]) if rng.random() < 0.3 else lo + (hi - lo) / 2 for _ in range(size)]
        method = rng.choice(["bouncing", "clipping", "arctan", "tanh", "gaussian"])
        if method in ("arctan", "tanh", "gaussian"):
            spec["init"] = [lo + (hi - lo) * rng.choice([0.25, 0.5, 0.6]) for _ in range(size)]
        spec["set"] = {"lower": lo, "upper": hi, "method": method}
        if mode == "int":
            spec["int"] = True
    if rng.random() < 0.25:
        spec["sigma"] = rng.choice([0.05, 0.5, 3.0])
    return spec


def rand_spec(rng: random.Random) -> tp.Any:
    k = rng.choice(["array", "array", "array", "leaf", "tuple", "inst", "dict"])
    if k == "array":
        return rand_array(rng)
    if k == "leaf":
        return rand_leaf(rng)
    n = rng.randint(1, 3)
    leaves = [rand_leaf(rng) for _ in range(n)]
    if k == "tuple":
        return {"k": "tuple", "items": leaves + ([{"k": "const", "v": 12}] if rng.random() < 0.2 else [])}
    if k == "dict":
        return {"k": "dict", "items": [[x, s] for x, s in zip("abz", leaves)]}
    return {"k": "inst", "args": leaves[1:], "kwargs": [["x", leaves[0]]]}


def discrete_size(spec: tp.Any) -> float:
    """number of values (inf if continuous)"""
    k = spec["k"]
    if k == "const":
        return 1
    if k in ("scalar", "array", "log"):
        if not spec.get("int"):
            return math.inf
        lo, hi, _ = P.bounds_of(spec)
        if lo is None or hi is None:
            return math.inf
        return (hi - lo + 1) ** P.dim_of(spec)
    if k in ("choice", "tchoice"):
        n = spec["items"] if isinstance(spec["items"], int) else len(spec["items"])
        return n ** (spec["rep"] or 1)
    if k == "tuple":
        return math.prod(discrete_size(s) for s in spec["items"])
    if k == "dict":
        return math.prod(discrete_size(s) for _, s in spec["items"])
    return math.prod(discrete_size(s) for s in spec["args"]) * math.prod(discrete_size(s) for _, s in spec["kwargs"])


LOSSES = ["sphere", "sphere", "sphere", "l1int", "constant", "decreasing", "increasing", "random", "neg"]


def loss_function(kind: str, seed: int) -> tp.Callable[[np.ndarray, int], float]:
    """loss of a point (standardized data) and rank of the evaluation"""
    def func(data: np.ndarray, k: int) -> float:
        data = np.clip(data, -1e6, 1e6)
        if kind == "sphere":
            return float(np.sum((data - 0.3) ** 2))
        if kind == "l1int":
            return float(np.sum(np.round(np.abs(data - 0.7))))
        if kind == "constant":
            return 1.0
        if kind == "decreasing":
            return -float(k)
        if kind == "increasing":
            return float(k)
        if kind == "neg":
            return -1000.0 + float(np.sum(np.abs(data)))
        rnd = random.Random(f"{seed}/{k}")
        if kind == "invalid":  # finite and non-sense values
            return rnd.choice([math.nan, math.inf, 1e30, 1e300, 5e20, 1.0, rnd.uniform(-10, 10), rnd.uniform(-10, 10)])
        if kind == "nan":
            return math.nan
        if kind == "huge":
            return rnd.choice([-1.0, 1.0]) * 10 ** rnd.uniform(5, 19)
        if kind == "neghuge":
            return -(10 ** rnd.uniform(5, 20))
        return rnd.uniform(-10, 10)
    return func


def available() -> tp.List[str]:
    import nevergrad as ng

    return sorted(n for n in ng.optimizers.registry if n not in UNAVAILABLE)


def excluded(case: tp.Any) -> bool:
    """known limits of third-party libraries"""
    name = case["opt"]
    dim = P.dim_of(case["spec"])
    if dim == 1 and (name in NO_DIM1 or name.startswith("Pymoo")):
        return True
    if name == "NLOPT_GN_AGS" and dim > 10:  # limit of the library
        return True
    if is_tabu(name) and discrete_size(case["spec"]) < 1000:
        return True
    return name in TWO_COBYLA


def rand_case(name: str, rng: random.Random, max_budget: int = 45) -> tp.Any:
    import nevergrad as ng

    cls = ng.optimizers.registry[name]
    while True:
        budget = rng.choice([b for b in [1, 2, 3, 5, 8, 13, 20, 30, 45, 80] if b <= max_budget])
        case = {"opt": name, "spec": rand_spec(rng), "seed": rng.randrange(2**32), "budget": budget,
                "workers": rng.choice([1, 1, 2, 5]), "loss": rng.choice(LOSSES), "order": rng.choice(["fifo", "lifo", "random"])}
        if cls.no_parallelization and rng.random() < 0.95:
            case["workers"] = 1
        if not excluded(case):
            return case


def registry_cases(seed: int, per: int, label: str, slow: bool = False, max_budget: int = 45, exclude: tp.Container[str] = ()) -> tp.List[tp.Any]:
    cases = []
    for name in available():
        if name in exclude or name in TWO_COBYLA or is_slow(name) != slow:
            continue
        rng = random.Random(derived_seed(seed, label, name))
        for _ in range(per):
            cases.append(rand_case(name, rng, max_budget if not slow else 8))
    random.Random(derived_seed(seed, label)).shuffle(cases)
    return cases


def shrink_case(case: tp.Any) -> tp.Iterator[tp.Any]:
    """simpler variants of a case"""
    for b in (1, 2, 3, case["budget"] // 2, case["budget"] - 1):
        if 0 < b < case["budget"]:
            yield dict(case, budget=b)
    if case["workers"] > 1:
        yield dict(case, workers=1)
        yield dict(case, workers=case["workers"] - 1)
    for key, simple in (("order", "fifo"), ("loss", "constant"), ("seed", 0)):
        if case[key] != simple:
            yield dict(case, **{key: simple})
    s = case["spec"]
    subs = {"tuple": lambda: s["items"], "dict": lambda: [x for _, x in s["items"]], "inst": lambda: s["args"] + [x for _, x in s["kwargs"]]}
    for sub in subs.get(s["k"], lambda: [])():
        if P.dim_of(sub) and not excluded(dict(case, spec=sub)):
            yield dict(case, spec=sub)
    simple_spec = {"k": "array", "shape": [2], "ms": False}
    if s != simple_spec:
        yield dict(case, spec=simple_spec)


class Cobyla:
    """scipy's COBYLA holds a process-wide lock during a whole minimization, so that two optimizers of a same run using it wait
    for each other forever (see the finding): the cases in which it would happen are detected here, and skipped"""

    def __init__(self) -> None:
        self.lock, self.generation, self.current = threading.Lock(), 0, {}
        self.minimize: tp.Any = None

    def install(self) -> None:
        from scipy import optimize

        self.generation += 1  # threads of previous cases are being stopped
        if self.minimize is not None:
            return
        self.minimize = optimize.minimize

        def minimize(*args: tp.Any, **kwargs: tp.Any) -> tp.Any:
            if str(kwargs.get("method")).upper() != "COBYLA":
                return self.minimize(*args, **kwargs)
            gen = self.generation
            with self.lock:
                if self.current.get(gen):
                    raise Skip("two simultaneous COBYLA")
                self.current[gen] = 1
            try:
                return self.minimize(*args, **kwargs)
            finally:
                with self.lock:
                    self.current.pop(gen, None)

        optimize.minimize = minimize


COBYLA = Cobyla()


@contextlib.contextmanager
def limits() -> tp.Iterator[None]:
    """skips the cases in which an optimizer turns to a library which is not usable in this environment, or to two COBYLAs"""
    COBYLA.install()
    try:
        yield
    except ModuleNotFoundError as e:
        if (e.name or "").startswith("nevergrad"):
            raise
        raise Skip(str(e)) from e
    except RuntimeError as e:
        if isinstance(e.__cause__, Skip):
            raise e.__cause__
        raise


def make(case: tp.Any) -> tp.Tuple[tp.Any, tp.Any]:
    import nevergrad as ng

    gc.collect()  # ends the threads of the optimizers of previous cases
    root = P.build(case["spec"])
    root.random_state.seed(case["seed"])
    opt = ng.optimizers.registry[case["opt"]](root, budget=case["budget"], num_workers=case["workers"])
    return root, opt


class Run:
    """asks and tells until the budget is spent, with at most `workers` pending candidates"""

    def __init__(self, case: tp.Any, root: tp.Any, opt: tp.Any) -> None:
        self.case, self.root, self.opt = case, root, opt
        self.rng = random.Random(case["seed"])
        self.loss = loss_function(case["loss"], case["seed"])
        self.pending: tp.List[tp.Any] = []
        self.asked = 0
        self.told = 0

    def ask(self) -> tp.Any:
        cand = self.opt.ask()
        self.asked += 1
        self.pending.append(cand)
        return cand

    def tell(self) -> tp.Tuple[tp.Any, float]:
        order = self.case["order"]
        i = {"fifo": 0, "lifo": len(self.pending) - 1}.get(order)
        if i is None:
            i = self.rng.randrange(len(self.pending))
        cand = self.pending.pop(i)
        value = self.loss(cand.get_standardized_data(reference=self.root), self.told)
        self.opt.tell(cand, value)
        self.told += 1
        return cand, value

    def steps(self) -> tp.Iterator[tp.Tuple[str, tp.Any, tp.Any]]:
        budget, workers = self.case["budget"], self.case["workers"]
        while self.asked < budget or self.pending:
            fill = workers if self.rng.random() < 0.7 else 1
            while self.asked < budget and len(self.pending) < max(1, fill):
                yield "ask", self.ask(), None
            cand, value = self.tell()
            yield "tell", cand, value


def check_candidate(case: tp.Any, root: tp.Any, cand: tp.Any, what: str) -> None:
    ensure(isinstance(cand, type(root)), f"{what}: {type(cand)} instead of {type(root)}")
    data = cand.get_standardized_data(reference=root)
    ensure_eq(data.shape, (root.dimension,), f"{what}: shape of the data")
    ensure(np.all(np.isfinite(data)), f"{what}: standardized data {data} is not finite")
    P.check_value(case["spec"], cand.value, what)
