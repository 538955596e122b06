"""C25: the Pareto front is exactly the set of the non-dominated told points"""
import itertools
import random
import typing as tp
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Enum, Prop, Recorder, Skip, ensure, ensure_eq, expect_raises
from pbt import params as P
from checks import optim


def dominates(a: np.ndarray, b: np.ndarray) -> bool:
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def nondominated(points: tp.Sequence[tp.Sequence[float]]) -> tp.Set[tp.Tuple[float, ...]]:
    pts = {tuple(float(x) for x in p) for p in points}
    return {p for p in pts if not any(dominates(q, p) for q in pts)}


class Model:
    """Points told so far, upper bounds"""

    def __init__(self, bounds: tp.Any, auto: int) -> None:
        self.told: tp.List[tp.Any] = []
        self.auto = auto if bounds is None else 0
        self.bounds = None if bounds is None else tuple(float(x) for x in bounds)
        self.inside: tp.List[tp.Tuple[float, ...]] = []
        self.over: tp.List[tp.Tuple[float, ...]] = []

    def tell(self, cand: tp.Any, losses: tp.Sequence[float]) -> None:
        loss = tuple(float(x) for x in losses)
        self.told.append((cand, loss))
        if self.auto > 0:
            self.auto -= 1
            if self.bounds is None:
                self.bounds = loss
            elif not all(x > b for x, b in zip(loss, self.bounds)):
                self.bounds = tuple(max(x, b) for x, b in zip(loss, self.bounds))
            self.inside.append(loss)
        elif all(x <= b for x, b in zip(loss, self.bounds)):  # type: ignore
            self.inside.append(loss)
        else:
            self.over.append(loss)

    def check(self, front: tp.List[tp.Any]) -> tp.Set[tp.Tuple[float, ...]]:
        by_id = {id(c): loss for c, loss in self.told}
        for c in front:
            ensure(id(c) in by_id, "the front holds a point which was never told")
            ensure_eq(tuple(float(x) for x in c.losses), by_id[id(c)], "losses of a member of the front")
        got = {by_id[id(c)] for c in front}
        must = nondominated(self.inside if self.inside else self.over)
        missing = must - got
        ensure(not missing, f"non-dominated points missing in the front: {sorted(missing)} (front: {sorted(got)})")
        for p in got - must:
            ensure(p in self.over, f"dominated point {p} in the front {sorted(got)} (non-dominated: {sorted(must)})")
        ensure_eq(got, nondominated(list(got)), "the front has dominated points")
        return must


@st.composite
def loss_vectors(draw: tp.Any, m: int, n: int) -> tp.Any:
    kind = draw(st.sampled_from(["grid", "grid", "float", "mixed", "line"]))
    if kind == "grid":
        elem: tp.Any = st.integers(-3, 3).map(float)
    elif kind == "float":
        elem = P.floats(-100, 100)
    else:
        elem = st.one_of(st.integers(-2, 2).map(float), P.floats(-3, 3))
    out = draw(st.lists(st.lists(elem, min_size=m, max_size=m), min_size=n, max_size=n))
    if kind == "line":  # many incomparable points
        out = [[v[0] + i * 0.0 if j == 0 else (-v[0] if j == 1 else v[j]) for j in range(m)] for i, v in enumerate(out)]
    return out


NAMES = ["RandomSearch", "OnePlusOne", "CMA", "DE", "LhsDE", "PSO", "TwoPointsDE", "ES", "MixES", "MutDE", "ScrHammersleySearch", "NGOpt", "DiscreteOnePlusOne",
         "PymooNSGA2", "ParametrizationDE", "Shiwa"]


@st.composite
def history(draw: tp.Any) -> tp.Any:
    m = draw(st.integers(2, 4))
    n = draw(st.integers(1, 36))
    ref = draw(st.one_of(st.none(), st.lists(st.one_of(st.integers(-3, 4).map(float), P.floats(-50, 120)), min_size=m, max_size=m)))
    return {
        "name": draw(st.sampled_from(NAMES)), "seed": draw(P.seeds), "m": m, "ref": ref, "losses": draw(loss_vectors(m, n)),
        "how": draw(st.lists(st.sampled_from(["ask", "ask", "ask", "ask", "foreign", "suggest"]), min_size=1, max_size=6)),
        "check": draw(st.sampled_from([1, 1, 3, 7, 100])), "workers": draw(st.sampled_from([1, 1, 3])),
        "dim": draw(st.integers(2, 3)), "form": draw(st.sampled_from(["list", "array", "tuple"])),
    }


def start(case: tp.Any) -> tp.Any:
    import nevergrad as ng

    param = ng.p.Array(shape=(case["dim"],))
    param.random_state.seed(case["seed"])
    budget = max(60, len(case["losses"]) + 5) if "losses" in case else case["budget"]
    return ng.optimizers.registry[case["name"]](param, budget=budget, num_workers=1 if case["name"].startswith("Pymoo") else case.get("workers", 1))


def form(case: tp.Any, loss: tp.List[float]) -> tp.Any:
    return {"list": list, "array": np.array, "tuple": tuple}[case.get("form", "list")](loss)


def run_history(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = start(case)
        if case["name"].startswith("Pymoo"):
            opt.num_objectives = case["m"]
        model = Model(case["ref"], getattr(opt, "_MULTIOBJECTIVE_AUTO_BOUND", 15))
        if case["ref"] is not None:
            opt.tell(ng.p.MultiobjectiveReference(), form(case, case["ref"]))
        rng = random.Random(case["seed"])
        must: tp.Set[tp.Any] = set()
        for k, loss in enumerate(case["losses"]):
            how = case["how"][k % len(case["how"])]
            if how == "foreign" and not case["name"].startswith("Pymoo"):
                cand = opt.parametrization.spawn_child(new_value=np.array([rng.gauss(0, 1) for _ in range(case["dim"])]))
            else:
                if how == "suggest" and not case["name"].startswith("Pymoo"):
                    opt.suggest(np.array([rng.gauss(0, 1) for _ in range(case["dim"])]))
                cand = opt.ask()
            try:
                opt.tell(cand, form(case, loss))
            except ng.errors.TellNotAskedNotSupportedError:
                raise Skip("no tell of foreign points")
            model.tell(cand, loss)
            ensure_eq(opt.num_objectives, case["m"], "num_objectives")
            if (k + 1) % case["check"] == 0 or k == len(case["losses"]) - 1:
                must = model.check(opt.pareto_front())
        front = opt.pareto_front()
        n = len(front)
        front.clear()  # the user may do anything with the list
        ensure_eq(len(opt.pareto_front()), n, "length of the front after the user changed the list which was returned")
        if case["name"] in ("OnePlusOne", "RandomSearch", "DiscreteOnePlusOne"):  # (others have their own recommendation)
            with expect_raises(RuntimeError, msg="recommendation in multiobjective"):
                opt.provide_recommendation()
        with expect_raises(ValueError, msg="tell with another number of losses"):
            opt.tell(opt.parametrization.spawn_child(), [1.0] * (case["m"] + 1))
        with expect_raises(RuntimeError, msg="late multiobjective reference"):
            opt.tell(ng.p.MultiobjectiveReference(), [1.0] * case["m"])
        model.check(opt.pareto_front())
    rec.event("front of 3 or more", len(must) >= 3)
    rec.event("points over the bounds", bool(model.over))
    rec.event("only over the bounds", not model.inside)
    rec.event("over the bounds in front", n > len(must))
    rec.nontrivial(len(must) >= 2 and len({loss for _, loss in model.told}) > len(must))


# ---------------------------------------------------------------------------
# subsets

SUBSETS = ["random", "loss-covering", "domain-covering", "EPS", "hypervolume"]


@st.composite
def subsets(draw: tp.Any) -> tp.Any:
    m = draw(st.integers(2, 3))
    n = draw(st.integers(2, 6))
    first = draw(st.lists(st.integers(-6, 6), min_size=n, max_size=n, unique=True))
    points = []
    for k, x in enumerate(sorted(first)):  # first increases, second decreases: all incomparable
        points.append([float(x), float(-k) - draw(P.floats(0, 0.9)), *(draw(P.floats(-2, 2)) for _ in range(m - 2))])
    return {
        "m": m, "points": draw(st.permutations(points)), "values": [[draw(P.floats(-3, 3)) for _ in range(2)] for _ in range(n)],
        "size": draw(st.integers(1, 7)), "subset": draw(st.sampled_from(SUBSETS)), "name": draw(st.sampled_from(["OnePlusOne", "CMA", "DE"])),
        "seed": draw(P.seeds), "dim": 2, "budget": 100, "dominated": draw(st.integers(0, 3)), "ref": draw(st.booleans()),
        "margin": draw(st.sampled_from([0.0, 1.0, 5.0])),
    }


def union_volume(points: tp.Sequence[tp.Sequence[float]], ref: tp.Sequence[float]) -> float:
    """Volume of the union of the boxes between the points and the reference, on the grid of the coordinates"""
    pts = [p for p in points if all(x < r for x, r in zip(p, ref))]
    axes = [sorted({p[i] for p in pts}) + [ref[i]] for i in range(len(ref))]
    if not pts:
        return 0.0
    covered = np.zeros([len(a) - 1 for a in axes], dtype=bool)
    for p in pts:
        covered[tuple(slice(a.index(x), None) for a, x in zip(axes, p))] = True
    vol = covered.astype(float)
    for i, a in enumerate(axes):
        shape = [1] * len(axes)
        shape[i] = len(a) - 1
        vol = vol * np.diff(a).reshape(shape)
    return float(vol.sum())


def score(kind: str, sub: tp.Sequence[int], points: np.ndarray, values: np.ndarray, ref: tp.Any) -> float:
    n = len(points)
    if kind == "loss-covering":
        return sum(min(float(np.sum((points[v] - points[s]) ** 2)) for s in sub) for v in range(n))
    if kind == "domain-covering":
        return sum(min(float(np.sum((values[v] - values[s]) ** 2)) for s in sub) for v in range(n))
    if kind == "EPS":
        return max(min(float(np.max(points[s] - points[v])) for s in sub) for v in range(n))
    return -union_volume([list(points[s]) for s in sub], ref)


def run_subset(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng

    n, size, kind = len(case["points"]), case["size"], case["subset"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = start(case)
        ref = [max(p[i] for p in case["points"]) + case["margin"] + (i + 1) * 0.1 for i in range(case["m"])]
        if case["ref"]:
            opt.tell(ng.p.MultiobjectiveReference(), ref)
        told = []
        for loss, value in zip(case["points"], case["values"]):
            cand = opt.parametrization.spawn_child(new_value=np.array(value))
            opt.tell(cand, loss)
            told.append(cand)
        for k in range(case["dominated"]):
            opt.tell(opt.parametrization.spawn_child(new_value=np.array([0.1, 0.2 * k])), [x + 0.05 for x in case["points"][k % n]])
        full = opt.pareto_front()
        ensure_eq(sorted(id(c) for c in full), sorted(id(c) for c in told), "front")
        if size >= n:
            out = opt.pareto_front(size, subset=kind)
            ensure_eq(sorted(id(c) for c in out), sorted(id(c) for c in full), "subset larger than the front")
            return
        in_use = case["ref"] and case["name"] != "DE"
        if kind == "hypervolume" and not in_use:
            with expect_raises(RuntimeError, msg="hypervolume subset without hypervolume"):
                opt.pareto_front(size, subset=kind)
            return
        for tentatives in (1, 12, 400):
            out = opt.pareto_front(size, subset=kind, subset_tentatives=tentatives)
            ensure(isinstance(out, list), "not a list")
            ensure_eq(len(out), size, f"size of the {kind} subset of a front of {n}")
            idx = [[c is t for t in told].index(True) for c in out if any(c is t for t in told)]
            ensure_eq(len(idx), size, "members of the subset which are on the front")
            ensure_eq(len(set(idx)), size, f"number of distinct members in the {kind} subset")
        ensure_eq(sorted(id(c) for c in opt.pareto_front()), sorted(id(c) for c in told), "front after the subset")
        with expect_raises(ValueError, msg="unknown subset"):
            opt.pareto_front(size, subset="blublu")
    rec.event(kind)
    rec.nontrivial(n >= 3)
    if kind == "random":
        return
    # 400 random subsets among at most 20: the best one is found
    points, values = np.array(case["points"]), np.array(case["values"])
    scores = {s: score(kind, s, points, values, ref) for s in itertools.combinations(range(n), size)}
    best = min(scores.values())
    got = scores[tuple(sorted(idx))]
    ensure(got <= best + 1e-9 * max(1.0, abs(best)), f"the {kind} subset {sorted(idx)} has score {got} while the best is {best}")
    rec.event("several scores", max(scores.values()) > best + 1e-6)


# ---------------------------------------------------------------------------
# minimize: the front is the one of all the evaluated points

MIN_NAMES = ["OnePlusOne", "CMA", "DE", "PSO", "RandomSearch", "NGOpt", "TwoPointsDE", "MixES", "ES", "Portfolio", "ChainCMAPowell", "LhsDE", "EDA"]

minimizes = st.fixed_dictionaries({
    "name": st.sampled_from(MIN_NAMES), "seed": P.seeds, "dim": st.integers(1, 3), "m": st.integers(2, 3), "budget": st.integers(4, 40),
    "workers": st.sampled_from([1, 1, 4]), "round": st.sampled_from([0, 0, 1]), "centers": st.lists(st.lists(P.floats(-2, 2), min_size=3, max_size=3), min_size=3, max_size=3),
})


def run_minimize(case: tp.Any, rec: Recorder) -> None:
    evaluated = []

    def func(x: np.ndarray) -> tp.List[float]:
        out = [float(np.sum((x - np.array(c[: len(x)])) ** 2)) for c in case["centers"][: case["m"]]]
        if case["round"]:
            out = [float(np.round(v)) for v in out]
        evaluated.append(tuple(out))
        return out

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = start(dict(case, workers=1) if case["name"].startswith("Chain") else case)
        model = Model(None, getattr(opt, "_MULTIOBJECTIVE_AUTO_BOUND", 15))
        told = []
        opt.register_callback("tell", lambda o, c, l: told.append((c, tuple(float(x) for x in c.losses))))
        opt.minimize(func)
        ensure_eq(len(evaluated), case["budget"], "number of evaluations")
        ensure_eq(len(told), case["budget"], "number of tells")
        for c, l in told:
            ensure(l in evaluated, "told loss was never evaluated")
            model.tell(c, l)
        ensure_eq(sorted(model.inside + model.over), sorted(evaluated), "told losses")
        must = model.check(opt.pareto_front())
    rec.nontrivial(len(must) >= 2)


# ---------------------------------------------------------------------------
# all optimizers


# single-objective algorithms of pymoo, and bayes_optim (fails on constant losses)
NOT_MULTIOBJECTIVE = ["PymooCMAES", "PymooBIPOP", "PCABO", "PCABO80", "PCABO95DoE20", "BayesOptimBO"]


def reg_cases(tier: str, seed: int) -> tp.List[tp.Any]:
    rng = random.Random(f"c25-{seed}")
    out = []
    for name in optim.available():
        if name in NOT_MULTIOBJECTIVE:
            continue
        for _ in range(1 if tier == "quick" else 4):
            slow = optim.is_slow(name)
            n = rng.randint(4, 8) if slow else rng.randint(6, 30)
            m = rng.choice([2, 2, 3, 5])
            out.append({
                "name": name, "seed": rng.randint(0, 10**6), "dim": rng.choice([2, 2, 3, 7]), "m": m, "budget": n + rng.randint(0, 20), "n": n,
                "ref": [rng.uniform(-3, 3) for _ in range(m)] if rng.random() < 0.4 else None,
                "foreign": rng.random() < 0.4, "kind": rng.choice(["func", "func", "random", "grid"]),
            })
    return out


def run_reg(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng

    rng = random.Random(case["seed"])
    with warnings.catch_warnings(), optim.limits():
        warnings.simplefilter("ignore")
        opt = start(case)
        model = Model(case["ref"], getattr(opt, "_MULTIOBJECTIVE_AUTO_BOUND", 15))
        if case["ref"] is not None:
            opt.tell(ng.p.MultiobjectiveReference(), case["ref"])
        else:
            opt.num_objectives = case["m"]  # advised for some optimizers
        pareto = None
        for k in range(case["n"]):
            foreign = case["foreign"] and rng.random() < 0.3
            cand = opt.parametrization.spawn_child(new_value=np.array([rng.gauss(0, 1) for _ in range(case["dim"])])) if foreign else opt.ask()
            x = cand.value
            if not np.isfinite(x).all():
                break  # (scipy's methods with infinite slopes)
            if case["kind"] == "func":
                loss = [float(np.sum(np.abs(x - c))) - 3 for c in range(case["m"])]
            elif case["kind"] == "grid":
                loss = [float(rng.randint(-2, 2)) for _ in range(case["m"])]
            else:
                loss = [rng.uniform(-4, 4) for _ in range(case["m"])]
            try:
                opt.tell(cand, loss)
            except ng.errors.TellNotAskedNotSupportedError:
                ensure(foreign, "refused a tell of its own point")  # (still recorded by the base class)
            model.tell(cand, loss)
            if k % 5 == 0:
                pareto = model.check(opt.pareto_front())
        if model.told:
            pareto = model.check(opt.pareto_front())
    rec.nontrivial(pareto is not None and len(pareto) >= 2)
    rec.event("over the bounds", bool(model.over))


PROPS = [
    Prop("history", history(), run_history, 1400, rule="front of 2 or more points, some points dominated or repeated", shards=3),
    Prop("subset", subsets(), run_subset, 700, rule="front of 3 or more incomparable points", shards=2),
    Prop("minimize", minimizes, run_minimize, 250, rule="front of 2 or more points", shards=1),
    Enum("registry", reg_cases, run_reg, rule="front of 2 or more points", shards=4),
]
