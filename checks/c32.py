"""C32: experiment functions and their copies"""
import hashlib
import math
import typing as tp
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Enum, Prop, Recorder, ensure, ensure_eq, expect_raises
from pbt import params as P
from . import c25

NAMES = ["sphere", "sphere1", "cigar", "altcigar", "discus", "ellipsoid", "altellipsoid", "stepellipsoid", "rastrigin", "rosenbrock", "ackley", "hm", "griewank", "schwefel_1_2", "lunacek",
         "maxdeceptive", "sumdeceptive", "doublelinearslope", "stepdoublelinearslope", "genzgaussianpeakintegral", "slope", "linear", "st0", "multipeak", "DelayedSphere"]
AGG: tp.Dict[str, tp.Callable[[tp.Sequence[float]], float]] = {"max": max, "sum": math.fsum, "mean": lambda x: math.fsum(x) / len(x)}


@st.composite
def artificials(draw: tp.Any) -> tp.Any:
    split = draw(st.booleans())
    cfg = {
        "name": draw(st.sampled_from(NAMES)), "block_dimension": draw(st.integers(1, 6)), "num_blocks": draw(st.sampled_from([1, 1, 2, 3])),
        "useless_variables": 0 if split else draw(st.sampled_from([0, 0, 1, 5])), "noise_level": draw(st.sampled_from([0, 0, 1, 0.3, 10.0])), "noise_dissymmetry": draw(st.booleans()),
        "rotation": draw(st.booleans()), "translation_factor": draw(st.sampled_from([0.0, 0.1, 1.0, 1, 3.5])), "aggregator": draw(st.sampled_from(sorted(AGG))), "split": split,
        "bounded": draw(st.booleans()), "expo": draw(st.sampled_from([1.0, 1.0, 2.0, 3.0])), "zero_pen": draw(st.sampled_from([False, False, True])),
    }
    dim = cfg["block_dimension"] * cfg["num_blocks"] + cfg["useless_variables"]
    points = draw(st.lists(st.lists(st.one_of(P.floats(-4, 4), st.integers(-4, 4).map(float)), min_size=dim, max_size=dim), min_size=1, max_size=4))
    return {"cfg": cfg, "seed": draw(P.seeds), "seed2": draw(P.seeds), "points": points, "steps": draw(st.lists(st.sampled_from(["call", "eval", "copy", "time"]), min_size=1, max_size=6))}


class Definition:
    """The function described by a configuration and the seed of its parametrization"""

    def __init__(self, cfg: tp.Any, seed: int) -> None:
        from nevergrad.functions import corefuncs

        self.cfg, self.func = cfg, corefuncs.registry[cfg["name"]]
        self.rng = np.random.RandomState(seed)
        bd, nb = cfg["block_dimension"], cfg["num_blocks"]
        self.dim = bd * nb + cfg["useless_variables"]
        indices = sorted(self.rng.choice(self.dim, bd * nb, replace=False).tolist())
        self.blocks = []
        for k in range(nb):
            translation = (self.rng.normal(0, 1, bd) ** cfg["expo"]) * cfg["translation_factor"]
            rotation = np.linalg.qr(self.rng.normal(0, 1, (bd, bd)))[0] if cfg["rotation"] else np.eye(bd)
            self.blocks.append((indices[k * bd : (k + 1) * bd], translation, rotation))

    def transform(self, x: np.ndarray) -> tp.List[np.ndarray]:
        return [rot @ (x[inds] - trans) for inds, trans, rot in self.blocks]

    def value(self, x: np.ndarray) -> float:
        y = self.transform(x)
        out = AGG[self.cfg["aggregator"]]([float(self.func(b)) for b in y])
        if self.cfg["zero_pen"]:
            tf = self.cfg["translation_factor"]
            out += 1000 * max(0.0, tf / (1e-7 + tf + math.sqrt(math.fsum(float(v) ** 2 for b in y for v in b))) - 0.75)
        return out

    def noisy(self, x: np.ndarray) -> float:
        fx, level = self.value(x), self.cfg["noise_level"]
        first = self.transform(x)[0][0]
        if not level or (self.cfg["noise_dissymmetry"] and first > 0):
            return fx
        side = x + self.rng.normal(0, 1, size=len(x))
        if self.cfg["noise_dissymmetry"]:
            level *= 1 + 100 * first
        return fx + level * self.rng.normal(0, 1) * (self.value(side) - fx)


def near(a: float, b: float) -> bool:
    return a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b)) or (a != a and b != b)


def run_artificial(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions import ArtificialFunction

    warnings.simplefilter("ignore")
    cfg = case["cfg"]
    func: tp.Any = ArtificialFunction(**cfg)
    model = Definition(cfg, case["seed"])
    func.parametrization.random_state.seed(case["seed"])
    bd = cfg["block_dimension"]
    # description
    ensure_eq(func.dimension, model.dim, "dimension")
    ensure_eq(func.parametrization.dimension, model.dim, "dimension of the parametrization")
    desc = func.descriptors
    for name, value in dict(cfg, dimension=model.dim, useful_dimensions=bd * cfg["num_blocks"], discrete=False, function_class="ArtificialFunction").items():
        ensure_eq(desc.get(name), value, f"descriptor {name}")
    ensure_eq(func.parametrization.function.deterministic, cfg["noise_level"] == 0, "deterministic")
    state = func.parametrization.random_state.get_state()[1].tolist()
    child = func.parametrization.spawn_child()
    ensure(state == func.parametrization.random_state.get_state()[1].tolist(), "spawning changed the state")
    chaotic = "step" in cfg["name"] or cfg["name"] in ("multipeak", "lunacek")  # discontinuous: rounding matters

    def same(got: tp.Any, expected: float, what: str) -> None:
        ensure(isinstance(got, float), f"{what}: {got!r}")
        if chaotic:
            ensure(near(got, expected) or abs(got - expected) <= 2 * abs(expected) + 1e-6 if not cfg["noise_level"] else True, f"{what}: {got} instead of {expected}")
        else:
            ensure(near(got, expected), f"{what}: {got} instead of {expected}")

    def split(x: np.ndarray) -> tp.Tuple[np.ndarray, ...]:
        return tuple(x[i : i + bd] for i in range(0, len(x), bd)) if cfg["split"] else (x,)

    for k, step in enumerate(case["steps"]):
        x = np.array(case["points"][k % len(case["points"])], dtype=float)
        if step == "call":
            args = split(x.copy())
            got = func(*args)
            ensure(all(np.array_equal(a, b) for a, b in zip(args, split(x))), "the input changed")
            same(got, model.noisy(x), "call")
        elif step == "eval":
            cand = child.spawn_child(new_value=(split(x), {}) if cfg["split"] else x)
            func.evaluation_function(child)  # delayed initialization
            state = func.parametrization.random_state.get_state()[1].tolist()
            got = func.evaluation_function(cand)
            ensure(func.evaluation_function(cand) == got, "evaluation is not deterministic")
            same(got, model.value(x), "noise-free evaluation")
            ensure(state == func.parametrization.random_state.get_state()[1].tolist(), "evaluation changed the random state")
            # only the variables of the blocks have an impact
            used = {i for inds, _, _ in model.blocks for i in inds}
            y = x.copy()
            for i in range(len(y)):
                if i not in used:
                    y[i] += 1.5 if y[i] <= 0 else -1.5
            other = func.evaluation_function(child.spawn_child(new_value=(split(y), {}) if cfg["split"] else y))
            ensure(other == got, "useless variables have an impact")
            rec.nontrivial(len(used) >= 2)
        elif step == "time":
            time = func.compute_pseudotime((split(x), {}), 1.0)
            if cfg["name"] == "DelayedSphere":
                expected = math.fsum(abs(1 / float(b[0])) / 1000 if b[0] else 0.0 for b in model.transform(x))
                ensure(near(time, expected), f"pseudotime {time} instead of {expected}")
            else:
                ensure_eq(time, 1.0, "pseudotime")
        else:
            copy = func.copy()
            ensure(copy is not func and copy.equivalent_to(func) and func.equivalent_to(copy), "the copy is not equivalent")
            ensure_eq(copy.descriptors, func.descriptors, "descriptors of the copy")
            ensure(copy.parametrization is not func.parametrization and copy.parametrization.random_state is not func.parametrization.random_state, "shared parametrization")
            state = func.parametrization.random_state.get_state()[1].tolist()
            copy.parametrization.random_state.seed(case["seed2"])
            other_model = Definition(cfg, case["seed2"])
            same(copy(*split(x)), other_model.noisy(x), "call of the copy")
            ensure(state == func.parametrization.random_state.get_state()[1].tolist(), "the copy changed the original")
            rec.event("copy")
    if cfg["bounded"]:
        for _ in range(3):
            data = np.concatenate(func.parametrization.sample().args)
            ensure(np.all(np.abs(data) <= 5), f"sampled {data} in [-5, 5]")
    rec.event("noisy", cfg["noise_level"] > 0)
    rec.event("rotation", cfg["rotation"])


# ---------------------------------------------------------------------------
# optimum, aggregation of identical functions


@st.composite
def optimums(draw: tp.Any) -> tp.Any:
    return {"name": draw(st.sampled_from(["sphere", "cigar", "ellipsoid", "rastrigin", "griewank", "ackley", "schwefel_1_2", "hm", "sphere1", "rosenbrock"])), "bd": draw(st.integers(2, 5)), "nb": draw(st.integers(1, 3)),
            "useless": draw(st.sampled_from([0, 3])), "rotation": draw(st.booleans()), "seed": draw(P.seeds), "agg": draw(st.sampled_from(["max", "sum", "mean"])), "factor": draw(st.sampled_from([0.5, 1.0, 2.0]))}


def run_optimum(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions import ArtificialFunction

    cfg = dict(name=case["name"], block_dimension=case["bd"], num_blocks=case["nb"], useless_variables=case["useless"], rotation=case["rotation"], aggregator=case["agg"], translation_factor=case["factor"])
    func: tp.Any = ArtificialFunction(**cfg)
    func.parametrization.random_state.seed(case["seed"])
    model = Definition(dict(cfg, expo=1.0, zero_pen=False, noise_level=0), case["seed"])
    rng = np.random.RandomState(case["seed"])
    best = rng.normal(size=model.dim)
    shift = 1.0 if case["name"] in ("sphere1", "rosenbrock") else 0.0
    for inds, trans, rot in model.blocks:
        best[inds] = trans + rot.T @ (shift * np.ones(len(inds)))
    val = func(best)
    ensure(abs(val) <= 1e-6, f"value {val} at the translated optimum")
    for scale in (1.0, 0.01):
        y = best + scale * rng.normal(size=model.dim)
        ensure(func(y) > val - 1e-9, f"{y} is better than the translated optimum")
    # each of the useful variables matters, others do not
    if case["name"] in ("sphere", "cigar", "ellipsoid", "schwefel_1_2", "sphere1"):
        used = {i for inds, _, _ in model.blocks for i in inds}
        for i in range(model.dim):
            y = best.copy()
            y[i] += 0.5
            ensure((func(y) > 1e-3) == (i in used), f"variable {i}, useful: {i in used}, {func(y)}")
    rec.nontrivial(model.dim >= 3)


# ---------------------------------------------------------------------------
# invalid configurations and hashing


INVALID: tp.List[tp.Dict[str, tp.Any]] = [
    {"block_dimension": 0}, {"block_dimension": 2.0}, {"num_blocks": 0}, {"num_blocks": "1"}, {"useless_variables": -1}, {"useless_variables": 1.5}, {"rotation": 1}, {"hashing": "a"}, {"noise_dissymmetry": 0},
    {"translation_factor": "a"}, {"name": "spheres"}, {"name": "Sphere"}, {"noise_level": -0.1}, {"aggregator": "min"}, {"split": True, "useless_variables": 2}, {"split": True, "hashing": True},
]


def run_invalid(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions import ArtificialFunction

    cfg: tp.Dict[str, tp.Any] = {"name": "sphere", "block_dimension": 2, "num_blocks": 2}
    ArtificialFunction(**cfg)
    cfg.update(INVALID[case["index"]])
    with expect_raises(ValueError, TypeError, AssertionError, KeyError, msg=f"{cfg} is accepted"):
        ArtificialFunction(**cfg)
    rec.nontrivial(True)


def run_hashing(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions import ArtificialFunction, corefuncs

    func: tp.Any = ArtificialFunction(case["name"], 1, hashing=True, rotation=case["rotation"])
    func.parametrization.random_state.seed(case["seed"])
    model = Definition({"name": case["name"], "block_dimension": 1, "num_blocks": 1, "useless_variables": 0, "expo": 1.0, "translation_factor": 1.0, "rotation": case["rotation"]}, case["seed"])
    _, trans, rot = model.blocks[0]
    for v in case["values"]:
        x = np.array([v])
        h = np.random.RandomState(int(hashlib.md5(str(x[0]).encode()).hexdigest(), 16) % 500000).normal(0, 1)
        expected = float(corefuncs.registry[case["name"]](rot @ (np.array([h]) - trans)))
        ensure(near(func(x), expected), f"{func(x)} instead of {expected} for {v}")
        ensure(x[0] == v, "the input changed")
    rec.nontrivial(len(set(case["values"])) > 1)


# ---------------------------------------------------------------------------
# symmetries


@st.composite
def symmetries(draw: tp.Any) -> tp.Any:
    dim = draw(st.integers(1, 5))
    bounds: tp.Any = None
    kind = draw(st.sampled_from(["none", "scalar", "array"]))
    if kind == "scalar":
        a = draw(P.floats(-5, 5))
        bounds = [a, a + draw(P.floats(0.5, 10))]
    elif kind == "array":
        lows = draw(st.lists(P.floats(-5, 5), min_size=dim, max_size=dim))
        bounds = [lows, [v + draw(P.floats(0.5, 10)) for v in lows]]
    return {"dim": dim, "bounds": bounds, "pos": draw(st.lists(P.floats(0, 1), min_size=dim, max_size=dim)), "weights": draw(st.lists(st.integers(1, 9), min_size=dim, max_size=dim))}


def run_symmetry(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.functions import base

    dim = case["dim"]
    low = np.zeros(dim) - 3 if case["bounds"] is None else np.zeros(dim) + np.array(case["bounds"][0])
    up = np.zeros(dim) + 3 if case["bounds"] is None else np.zeros(dim) + np.array(case["bounds"][1])
    received: tp.List[np.ndarray] = []

    def func(x: np.ndarray) -> float:
        received.append(np.array(x))
        return float(np.dot(x, case["weights"]) + 0.1 * np.sum(x**2))

    x = low + np.array(case["pos"]) * (up - low)
    found = set()
    for sym in range(2**dim):
        param = ng.p.Array(init=(low + up) / 2)
        if case["bounds"] is not None:
            b = case["bounds"]
            param.set_bounds(b[0] if np.isscalar(b[0]) else np.array(b[0]), b[1] if np.isscalar(b[1]) else np.array(b[1]))
        xp = base.ArrayExperimentFunction(func, parametrization=param.set_name("a"), symmetry=sym)
        for f in (xp, xp.copy()):
            received.clear()
            arg = x.copy()
            out = f(arg)
            ensure(np.array_equal(arg, x), "the input changed")
            ensure_eq(len(received), 1, "number of calls")
            y = received[0]
            pattern = []
            for i in range(dim):
                identity, mirror = abs(y[i] - x[i]) <= 1e-9, abs(y[i] - (low[i] + up[i] - x[i])) <= 1e-9
                ensure(identity or mirror, f"symmetry {sym}: coordinate {i} is {y[i]} for {x[i]} in [{low[i]}, {up[i]}]")
                pattern.append("both" if identity and mirror else "same" if identity else "mirror")
            ensure(np.all(y >= low - 1e-9) and np.all(y <= up + 1e-9), f"{y} is out of the bounds [{low}, {up}]")
            ensure(out == func(y), "value")
            received.clear()
            ensure(np.max(np.abs(f.function(y) - func(x))) <= 1e-9 * max(1, abs(out)) + 1e-7, "symmetries are involutions")
            if sym == 0:
                ensure(np.array_equal(y, x), "symmetry 0 is the initial function")
        found.add(tuple(pattern))
        ensure_eq(xp.descriptors["symmetry"], sym, "descriptor")
        ensure_eq(xp.copy().descriptors, xp.descriptors, "descriptors of the copy")
    free = sum(abs(2 * v - a - b) > 1e-6 for v, a, b in zip(x, low, up))
    if free == dim:
        ensure_eq(len(found), 2**dim, "number of different symmetries")
    for bad in (-1, 2**dim):
        with expect_raises(AssertionError, ValueError, msg=f"symmetry {bad}"):
            base.ArrayExperimentFunction(func, parametrization=ng.p.Array(shape=(dim,)), symmetry=bad)
    rec.nontrivial(dim > 1 and free == dim)
    rec.event("per coordinate bounds", case["bounds"] is not None and not np.isscalar(case["bounds"][0]))


# ---------------------------------------------------------------------------
# copies of generic experiments


@st.composite
def copies(draw: tp.Any) -> tp.Any:
    return {"tree": draw(P.tree(max_depth=2)), "name": draw(st.sampled_from(["a", "", "param", "x" * 34, "x" * 35])), "flags": draw(st.lists(st.sampled_from(["has_constraints", "real_world", "hptuning", "neural", "enforce_determinism"]), max_size=3, unique=True)),
            "descs": draw(st.dictionaries(st.sampled_from(["u", "v", "w"]), st.one_of(st.integers(0, 3), st.sampled_from(["k", None, True])), max_size=3)), "constraint": draw(st.booleans()),
            "bounds": draw(st.booleans()), "renamed": draw(st.booleans()), "kind": draw(st.sampled_from(["base", "sub"])), "options": draw(st.tuples(st.integers(0, 3), st.sampled_from(["s", "t"]))),
            "default": draw(st.booleans()), "seed": draw(P.seeds), "times": draw(st.integers(1, 3))}


def run_copies(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.functions import base

    param = P.build(case["tree"]).set_name(case["name"])
    calls: tp.List[tp.Any] = []

    def target(*args: tp.Any, **kwargs: tp.Any) -> float:
        calls.append((args, kwargs))
        return 12.0

    class Sub(base.ExperimentFunction):
        def __init__(self, number: int, text: str = "s", parameter: tp.Any = param, data: tp.Any = (1, 2), unused: tp.Any = None) -> None:
            self.number, self.text = number, text
            super().__init__(self._compute, parameter if case["default"] else P.build(case["tree"]).set_name(case["name"]))

        def _compute(self, *args: tp.Any, **kwargs: tp.Any) -> float:
            calls.append((args, kwargs))
            return float(self.number)

    def make() -> tp.Any:
        if case["kind"] == "base":
            return base.ExperimentFunction(target, param)
        return Sub(case["options"][0], case["options"][1])

    if len(case["name"]) > 34:
        with expect_raises(RuntimeError, msg="long name"):
            make()
        return
    xp = make()
    ensure(xp.parametrization._frozen if case["kind"] == "base" else True, "the parametrization is not frozen")
    for flag in case["flags"]:
        setattr(xp.parametrization, flag, True)
    xp.add_descriptors(**case["descs"])
    if case["renamed"]:
        xp.parametrization = ng.p.Array(shape=(3,)).set_name("other")
        for flag in case["flags"]:
            setattr(xp.parametrization, flag, True)
    if case["constraint"]:
        xp.parametrization.register_cheap_constraint(_always) if not xp.parametrization._frozen else xp.parametrization._constraint_checkers.append(_always)
    if case["bounds"]:
        xp.multiobjective_upper_bounds = np.array([3.0, 4.0])
    desc = xp.descriptors
    for name, value in case["descs"].items():
        ensure_eq(desc[name], value, f"descriptor {name}")
    ensure_eq(desc["dimension"], xp.dimension, "dimension")
    ensure_eq(desc["parametrization"], "other" if case["renamed"] else case["name"], "name of the parametrization")
    if case["kind"] == "sub":
        ensure_eq((desc["number"], desc["text"], desc["data"], desc["function_class"]), (*case["options"], (1, 2), "Sub"), "automatic descriptors")
        ensure("unused" not in desc and "parameter" not in desc, f"{desc}")
    else:
        ensure_eq(desc["name"], "target", "name")
    desc["u"] = "modified"
    ensure_eq(xp.descriptors.get("u", 0), case["descs"].get("u", 0), "modification of the descriptors")
    current = xp
    for _ in range(case["times"]):
        copy = current.copy()
        ensure(type(copy) is type(xp) and copy is not current, "type of the copy")
        ensure_eq(copy.descriptors, xp.descriptors, "descriptors of the copy")
        ensure(copy.equivalent_to(xp) and xp.equivalent_to(copy), "the copy is not equivalent")
        ensure_eq(copy.dimension, xp.dimension, "dimension of the copy")
        for flag in ["has_constraints", "real_world", "hptuning", "neural", "enforce_determinism"]:
            ensure_eq(getattr(copy.parametrization, flag), flag in case["flags"], f"flag {flag} of the copy")
        ensure_eq(len(copy.parametrization._constraint_checkers), len(xp.parametrization._constraint_checkers), "constraints of the copy")
        if case["bounds"]:
            ensure_eq(list(copy.multiobjective_upper_bounds), [3.0, 4.0], "upper bounds of the copy")
        else:
            ensure(copy.multiobjective_upper_bounds is None, "upper bounds of the copy")
        if copy.parametrization is not current.parametrization:
            ensure(copy.parametrization.random_state is not current.parametrization.random_state, "the random state is shared")
            copy.parametrization.random_state.seed(case["seed"])
            xp.parametrization.random_state.seed(case["seed"])
            a, b = copy.parametrization.sample(), xp.parametrization.sample()
            ensure(P.same_value(a.value, b.value), f"samples with the same seed: {a.value} {b.value}")
        calls.clear()
        val = copy.parametrization.sample()
        out = copy(*val.args, **val.kwargs)
        ensure_eq(out, 12.0 if case["kind"] == "base" else float(case["options"][0]), "value")
        ensure_eq(len(calls), 1, "number of calls")
        ensure_eq(repr(calls[0]), repr((val.args, val.kwargs)), "arguments")
        current = copy
    # a different function is not equivalent
    other = xp.copy()
    other.add_descriptors(z=1)
    ensure(not other.equivalent_to(xp) and "z" not in xp.descriptors, "functions with different descriptors are equivalent")
    rec.nontrivial(bool(case["flags"] or case["descs"] or case["renamed"]))


def _always(value: tp.Any) -> bool:
    return True


# ---------------------------------------------------------------------------
# multiple objectives and special evaluation


@st.composite
def multis(draw: tp.Any) -> tp.Any:
    n = draw(st.integers(1, 3))
    dim = draw(st.integers(1, 3))
    vec = st.lists(st.integers(-4, 4).map(float), min_size=dim, max_size=dim)
    return {"centers": draw(st.lists(vec, min_size=n, max_size=n)), "bounds": draw(st.lists(st.integers(3, 30).map(float), min_size=n, max_size=n)), "points": draw(st.lists(vec, min_size=1, max_size=6)),
            "evaluation": draw(vec), "size": draw(st.sampled_from([None, 1, 2, 3])), "subset": draw(st.sampled_from(["random", "loss-covering", "EPS", "domain-covering", "hypervolume"])), "training": draw(st.integers(0, 2))}


def _objective(center: tp.Sequence[float]) -> tp.Any:
    from nevergrad.functions import base

    class Distance(base.ExperimentFunction):
        def __init__(self, center: tp.Tuple[float, ...]) -> None:
            import nevergrad as ng

            self.center, self.count = np.array(center), 0
            super().__init__(self._compute, ng.p.Array(shape=(len(center),)).set_name("d"))

        def _compute(self, x: np.ndarray) -> float:
            self.count += 1
            return float(np.sum(np.abs(x - self.center)))

        def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
            return 2.5

    return Distance(tuple(center))


def run_multi(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.functions import base, helpers

    xps = [_objective(c) for c in case["centers"]]
    multi = base.MultiExperiment(xps, case["bounds"])
    points = [np.array(x) for x in case["points"]]

    def loss(x: np.ndarray) -> tp.List[float]:
        return [float(np.sum(np.abs(x - np.array(c)))) for c in case["centers"]]

    copy = multi.copy()
    ensure_eq(copy.descriptors, multi.descriptors, "descriptors of the copy")
    ensure_eq(list(copy.multiobjective_upper_bounds), case["bounds"], "bounds of the copy")  # type: ignore
    for f in (multi, copy):
        for x in points:
            ensure_eq(list(np.atleast_1d(f(x))), loss(x), "losses")
    counts = [xp.count for xp in xps]
    copy(points[0])
    ensure_eq([xp.count for xp in xps], counts, "the copy calls the experiments of the original")
    # evaluation
    cands = []
    for x in points:
        cand = multi.parametrization.spawn_child(new_value=x)
        cand._losses = np.array(loss(x))
        cands.append(cand)
    got = multi.evaluation_function(*cands)
    expected = -c25.union_volume([loss(x) for x in points], case["bounds"])
    if any(all(a < b for a, b in zip(loss(x), case["bounds"])) for x in points):
        ensure(near(got, expected), f"evaluation {got} instead of {expected}")
    # rejected
    with expect_raises(AssertionError, ValueError, msg="repeated experiments"):
        base.MultiExperiment([xps[0], xps[0]], [1, 2])
    if len(xps) > 1:
        with expect_raises(AssertionError, ValueError, msg="multiobjective experiment in a multiobjective experiment"):
            base.MultiExperiment([multi, _objective(case["centers"][0])], [1, 2])
    # another evaluation
    evaluation = _objective(case["evaluation"])
    target: tp.Any = multi if len(xps) > 1 else xps[0]
    special = helpers.SpecialEvaluationExperiment(target, evaluation, pareto_size=case["size"], pareto_subset=case["subset"])
    if len(xps) > 1:
        special.multiobjective_upper_bounds = np.array(case["bounds"])
    scopy = special.copy()
    ensure_eq(scopy.descriptors, special.descriptors, "descriptors of the copy")
    dist = [float(np.sum(np.abs(x - np.array(case["evaluation"])))) for x in points]
    for s in (special, scopy):
        ensure_eq(np.atleast_1d(s(points[0])).tolist(), loss(points[0]), "the optimized function")
        ensure_eq(s.compute_pseudotime(((points[0],), {}), 1.0), target.compute_pseudotime(((points[0],), {}), 1.0), "pseudotime")
        if case["size"] is None or len(cands) <= case["size"]:
            ensure_eq(s.evaluation_function(*cands), min(dist), "evaluation")
        elif len(xps) > 1 and all(all(a < b for a, b in zip(loss(x), case["bounds"])) for x in points):
            val = s.evaluation_function(*cands)
            front = [d for d, x in zip(dist, points) if not any(c25.dominates(loss(y), loss(x)) for y in points)]
            ensure(val in front and val >= min(front), f"evaluation {val}, expected one of {front}")
            if case["size"] >= len({tuple(loss(x)) for x in points}):
                rec.event("whole front")
    counts = [xp.count for xp in xps + [evaluation]]
    scopy(points[0])
    scopy.evaluation_function(cands[0])
    ensure_eq([xp.count for xp in xps + [evaluation]], counts, "the copy calls the experiments of the original")
    ensure(scopy.parametrization is not special.parametrization, "the copy shares the parametrization")
    # cross validation: all but one
    if len(xps) > 1:
        training = [_objective([9.0] * len(case["evaluation"])) for _ in range(case["training"])]
        cross = helpers.SpecialEvaluationExperiment.create_crossvalidation_experiments(xps, training_only_experiments=training, pareto_size=4, pareto_subset_methods=("random", "EPS"))
        import os

        ensure_eq(len(cross), len(xps) * (1 if "PYTEST_NEVERGRAD" in os.environ else 2), "number of experiments")
        for k, c in enumerate(cross):
            k %= len(xps)
            x = points[0]
            expect = [v for i, v in enumerate(loss(x)) if i != k] + [float(np.sum(np.abs(x - 9)))] * case["training"]
            ensure_eq(np.atleast_1d(c(x)).tolist(), expect, "losses of a cross-validation")
            ensure_eq(c.evaluation_function(cands[0]), loss(points[0])[k], "evaluation of a cross-validation")
    rec.nontrivial(len(xps) > 1 and len(points) > 1)


# ---------------------------------------------------------------------------
# Transform


def run_transform(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions import utils

    dim = case["dim"]
    rng = np.random.RandomState(case["seed"])
    inds = rng.choice(case["total"] + dim, dim, replace=False).tolist()
    t = utils.Transform(inds, translation_factor=case["factor"], rotation=case["rotation"], random_state=np.random.RandomState(case["seed"]))
    x, y = rng.normal(size=(2, case["total"] + dim)) * case["scale"]
    before = x.copy()
    tx, ty = t(x), t(y)
    ensure(np.array_equal(x, before), "the input changed")
    ensure_eq(tx.shape, (dim,), "shape")
    # isometry on the selected coordinates
    a, b = np.linalg.norm(tx - ty), np.linalg.norm(x[inds] - y[inds])
    ensure(abs(a - b) <= 1e-9 * max(1, b), f"distance {a} instead of {b}")
    if not case["rotation"]:
        ensure(np.allclose(tx - ty, x[inds] - y[inds], atol=1e-9 * case["scale"]), "translation")
    ensure(np.linalg.norm(t(np.zeros(case["total"] + dim))) <= 1e-9 or case["factor"] != 0, "translation factor 0")
    ensure(np.array_equal(t(x), tx), "not deterministic")
    t2 = utils.Transform(inds, translation_factor=2 * case["factor"], rotation=case["rotation"], random_state=np.random.RandomState(case["seed"]))
    ensure(np.allclose(t2(np.zeros_like(x)), 2 * t(np.zeros_like(x)), atol=1e-9), "the translation is not proportional to the factor")
    # without random state: drawn from the global generator without changing it
    state = np.random.get_state()[1].tolist()  # type: ignore
    utils.Transform(inds, rotation=case["rotation"])
    ensure_eq(np.random.get_state()[1].tolist(), state, "the global generator changed")  # type: ignore
    rec.nontrivial(dim > 1)


# ---------------------------------------------------------------------------
# far optimum


def run_far(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions.functionlib import FarOptimumFunction

    opts = {k: v for k, v in case.items() if k != "points"}
    opts["optimum"] = tuple(opts["optimum"])
    func: tp.Any = FarOptimumFunction(**opts)
    copy = func.copy()
    ensure_eq(copy.descriptors, func.descriptors, "descriptors of the copy")
    pts = [np.array(x) for x in case["points"]]
    exp = [np.abs(x - np.array(case["optimum"])).tolist() for x in pts]
    for f in (func, copy):
        for x, e in zip(pts, exp):
            out = f(x)
            ensure(near(float(np.sum(out)), sum(e)) and np.ndim(out) == int(case["multiobjective"]), f"{out} instead of {e}")
        ensure_eq(f.multiobjective_upper_bounds is None, not case["multiobjective"], "upper bounds")
        cands = [f.parametrization.spawn_child(new_value=x) for x in pts]
        ensure(near(f.evaluation_function(*cands), min(sum(e) for e in exp)), "evaluation")
    rec.nontrivial(len(pts) > 1)


PROPS = [
    Prop("artificial", artificials(), run_artificial, 500, rule="several useful variables evaluated", shards=2),
    Prop("optimum", optimums(), run_optimum, 150, rule="at least 3 variables"),
    Enum("invalid", lambda tier, seed: ({"index": i} for i in range(len(INVALID))), run_invalid, rule="all"),
    Prop("hashing", st.fixed_dictionaries({"name": st.sampled_from(["sphere", "rastrigin", "slope"]), "rotation": st.booleans(), "seed": P.seeds, "values": st.lists(P.floats(-3, 3), min_size=1, max_size=5)}), run_hashing, 100, rule="several values"),
    Prop("symmetry", symmetries(), run_symmetry, 60, rule="several coordinates, none of them in the middle", shards=2),
    Prop("copies", copies(), run_copies, 300, rule="some flags, descriptors or a replaced parametrization"),
    Prop("multi", multis(), run_multi, 200, rule="several objectives and points", shards=2),
    Prop("transform", st.fixed_dictionaries({"dim": st.integers(1, 6), "total": st.integers(0, 4), "factor": st.sampled_from([0.0, 0.1, 1.0, 4.0]), "rotation": st.booleans(), "seed": P.seeds, "scale": st.sampled_from([1e-3, 1.0, 100.0])}),
         run_transform, 150, rule="several coordinates"),
    Prop("far", st.fixed_dictionaries({"independent_sigma": st.booleans(), "mutable_sigma": st.booleans(), "multiobjective": st.booleans(), "recombination": st.sampled_from(["crossover", "average"]),
                                       "optimum": st.tuples(P.floats(-9, 100), P.floats(-9, 100)), "points": st.lists(st.tuples(P.floats(-9, 9), P.floats(-9, 9)), min_size=1, max_size=4)}), run_far, 100, rule="several points"),
]
