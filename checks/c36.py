"""C36: evolutionary operators build candidates from their declared parents"""
import itertools
import math
import typing as tp
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq, expect_raises
from pbt import params as P

Pattern = tp.Tuple[bool, ...]


def patterns(kind: tp.Any, dim: int) -> tp.List[Pattern]:
    """Possible origins of the coordinates (True for the donor)"""
    if kind == "onepoint" and dim >= 3:
        cuts = [tuple(i < r for i in range(dim)) for r in range(1, dim)]
    elif kind == "twopoints" and dim >= 4:
        cuts = [tuple(a <= i < b for i in range(dim)) for a, b in itertools.combinations(range(dim + 1), 2) if (a, b) != (0, dim)]
    else:  # at least one coordinate of the donor
        return [c for c in itertools.product([True, False], repeat=dim) if any(c)]
    return sorted(set(cuts) | {tuple(not v for v in c) for c in cuts})


def matches(value: np.ndarray, donor: np.ndarray, other: np.ndarray, kind: tp.Any, tol: float = 0.0) -> bool:
    dim = len(value)

    def eq(a: float, b: float) -> bool:
        return bool(a == b or abs(a - b) <= tol)

    if kind == "voronoi":  # two dimensional only
        return all(eq(value[i], donor[i]) or eq(value[i], other[i]) for i in range(dim))
    if kind == "rotated_twopoints" and dim >= 4:
        for a, b in itertools.combinations(range(dim + 1), 2):
            for c in range(dim + 1 - (b - a)):
                if (a, b) != (0, dim) and all(eq(value[i], other[c + i - a] if a <= i < b else donor[i]) for i in range(dim)):
                    return True
        return False
    is_donor = [eq(v, d) for v, d in zip(value, donor)]
    is_other = [eq(v, d) for v, d in zip(value, other)]
    return any(all(is_donor[i] if c else is_other[i] for i, c in enumerate(pat)) for pat in patterns(kind, dim))


KINDS: tp.List[tp.Any] = [0.0, 0.5, 0.9, 1.0, "random", "onepoint", "twopoints", "rotated_twopoints", "voronoi"]


@st.composite
def crossovers(draw: tp.Any) -> tp.Any:
    return {"kind": draw(st.sampled_from(KINDS)), "dim": draw(st.integers(1, 9)), "shape": draw(st.sampled_from([None, [2, 3], [3, 3], [4, 2], [2, 2, 2]])), "seed": draw(P.seeds), "times": draw(st.integers(1, 5))}


def run_crossover(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.optimization.differentialevolution import Crossover

    kind, dim = case["kind"], case["dim"]
    param = None
    if kind == "voronoi" and case["shape"] is not None:
        dim = int(np.prod(case["shape"]))
        param = ng.p.Array(shape=tuple(case["shape"]))
    rng = np.random.RandomState(case["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        op = Crossover(rng, kind, param)
        for _ in range(case["times"]):
            donor, other = np.arange(dim, dtype=float), 1000.0 + np.arange(dim)
            value, individual = donor.copy(), other.copy()
            op.apply(value, individual)
            ensure(np.array_equal(individual, other), "the individual changed")
            same_kind = kind if not (kind == "voronoi" and param is None) else ("twopoints" if dim > 1 else 0.5)
            if kind == "voronoi" and param is None and dim in (2, 3):
                same_kind = "voronoi"  # two points crossover of a small array
            ensure(matches(value, donor, other, same_kind), f"{value} is not a crossover {kind}")
            if kind == 1.0:
                ensure(np.array_equal(value, donor), "crossover rate 1")
            if kind == 0.0:
                ensure_eq(int(np.sum(value == donor)), 1, "number of coordinates of the donor with crossover rate 0")
    with expect_raises(ValueError, msg="unknown crossover"):
        Crossover(rng, "threepoints")
    rec.event(str(kind))
    rec.nontrivial(dim > 3)


def run_rates(case: tp.Any, rec: Recorder) -> None:
    """Frequencies on many draws (6 standard deviations)"""
    import nevergrad as ng
    from nevergrad.optimization.differentialevolution import Crossover

    kind, dim, n = case["kind"], case["dim"], 400
    rng = np.random.RandomState(case["seed"])
    op = Crossover(rng, kind, ng.p.Array(shape=(dim,)))
    counts = np.zeros(dim)
    for _ in range(n):
        donor = np.zeros(dim)
        op.apply(donor, np.ones(dim))
        counts += 1 - donor
    if isinstance(kind, float):
        proba = kind + (1 - kind) / dim
        sigma = math.sqrt(n * proba * (1 - proba)) + 1e-9
        ensure(np.all(np.abs(counts - n * proba) <= 6 * sigma), f"coordinates of the donor: {counts} times out of {n}, expected {proba * n}")
    else:  # each coordinate comes sometimes from the donor, sometimes from the individual
        ensure(np.all(counts > 0) and np.all(counts < n), f"coordinates of the donor: {counts} times out of {n}")
    rec.nontrivial(dim > 3)


# ---------------------------------------------------------------------------
# discrete mutations


def bins(x: tp.Any, arity: int) -> tp.List[int]:
    from scipy.stats import norm

    x = np.asarray(x, dtype=float)
    return [int(v > 0) if arity == 2 else min(int(arity * norm.cdf(v)), arity - 1) for v in x]


MUTATIONS = ["discrete", "rls", "portfolio", "portfolio1", "doerr", "doubledoerr", "coordinatewise"]


@st.composite
def mutations(draw: tp.Any) -> tp.Any:
    dim = draw(st.integers(1, 9))
    return {"kind": draw(st.sampled_from(MUTATIONS)), "arity": draw(st.sampled_from([2, 2, 3, 7])), "x": draw(st.lists(P.floats(-2.5, 2.5), min_size=dim, max_size=dim)), "seed": draw(P.seeds),
            "times": draw(st.integers(1, 4)), "velocity": draw(st.sampled_from([1.0, 2.0]))}


def mutate(mut: tp.Any, kind: str, x: np.ndarray, arity: int, velocity: float = 1.0) -> np.ndarray:
    if kind == "discrete":
        out = mut.discrete_mutation(x, arity=arity)
    elif kind == "rls":
        out = mut.rls_mutation(x, arity=arity)
    elif kind == "portfolio":
        out = mut.portfolio_discrete_mutation(x, arity=arity)
    elif kind == "portfolio1":
        out = mut.portfolio_discrete_mutation(x, intensity=1, arity=arity)
    elif kind == "doerr":
        out = mut.doerr_discrete_mutation(x, arity=arity)
    elif kind == "doubledoerr":
        out = mut.doubledoerr_discrete_mutation(x, arity=arity)
    else:
        out = mut.coordinatewise_mutation(x, velocity * np.ones(len(x)), np.zeros(len(x), dtype=bool), arity)
    return np.asarray(out, dtype=float)


def run_mutation(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.optimization.mutations import Mutator

    kind, arity = case["kind"], case["arity"]
    mut = Mutator(np.random.RandomState(case["seed"]))
    x = np.array(case["x"])
    dim = len(x)
    several = False
    for _ in range(case["times"]):
        y = mutate(mut, kind, x, arity, case["velocity"])
        ensure(np.array_equal(x, case["x"]), "the parent changed")
        ensure_eq(y.shape, x.shape, "shape")
        ensure(not np.any(np.isnan(y)), f"{y}")
        if kind == "coordinatewise":
            continue
        changed = np.nonzero(x != y)[0]
        several |= len(changed) > 1
        ensure(len(changed) >= 1, f"{kind}: no mutation")
        if kind == "rls":
            ensure_eq(len(changed), 1, "number of mutated variables")
        if dim > 1 and not (kind == "doerr" and dim < 5 and arity > 2):
            before, after = bins(x, arity), bins(y, arity)
            for i in changed:
                ensure(before[i] != after[i], f"{kind}: variable {i} mutated from {x[i]} to {y[i]}, the same value for arity {arity}")
    rec.event("several variables", several)
    rec.nontrivial(dim > 3)


def run_reach(case: tp.Any, rec: Recorder) -> None:
    """All variables, and all values, can be reached"""
    from nevergrad.optimization.mutations import Mutator

    kind, arity = case["kind"], case["arity"]
    mut = Mutator(np.random.RandomState(case["seed"]))
    x = np.array(case["x"])
    dim = len(x)
    n = 150 * max(1, dim)
    counts, reached = np.zeros(dim), [set() for _ in x]  # type: ignore
    for _ in range(n):
        y = mutate(mut, kind, x, arity)
        counts += x != y
        for i, b in enumerate(bins(y, arity)):
            if x[i] != y[i]:
                reached[i].add(b)
    ensure(np.all(counts > 0), f"{kind}: some variables are never mutated: {counts} in {n} mutations")
    if dim > 1 and arity == 3 and kind in ("rls", "portfolio", "doubledoerr", "discrete"):
        start = bins(x, arity)
        for i in range(dim):
            ensure_eq(sorted(reached[i]), [v for v in range(arity) if v != start[i]], f"{kind}: values of variable {i} starting from {start[i]}")
    if dim > 1 and kind == "discrete":  # one variable on average (conditionally to one at least)
        p = 1 / dim
        proba = p / (1 - (1 - p) ** dim)
        sigma = math.sqrt(n * proba * (1 - proba)) + 1e-9
        ensure(np.all(np.abs(counts - n * proba) <= 6 * sigma), f"{kind}: mutations of each variable {counts} instead of {proba * n}")
    if dim > 1 and kind == "rls":
        sigma = math.sqrt(n / dim * (1 - 1 / dim))
        ensure(np.all(np.abs(counts - n / dim) <= 6 * sigma), f"{kind}: mutations of each variable {counts} instead of {n / dim}")
    rec.nontrivial(dim > 2)


@st.composite
def mixes(draw: tp.Any) -> tp.Any:
    return {"dim": draw(st.integers(1, 12)), "rotation": draw(st.booleans()), "type": draw(st.sampled_from(["none", "rand", "max", "min", "onepoint", "twopoint"])), "seed": draw(P.seeds), "times": draw(st.integers(1, 3))}


def run_mix(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.optimization.mutations import Mutator

    dim = case["dim"]
    mut = Mutator(np.random.RandomState(case["seed"]))
    rng = np.random.RandomState(case["seed"])
    for _ in range(case["times"]):
        # distinct values: mutations (normal values in the other half) are recognized
        parent, donor = rng.permutation(2 * dim).reshape((2, dim)) * 1e-3 + 50.0
        y = np.asarray(mut.crossover(parent.copy(), donor.copy(), rotation=case["rotation"], crossover_type=case["type"]), dtype=float)
        ensure_eq(y.shape, (dim,), "shape")
        kept = [i for i in range(dim) if y[i] > 20]
        ensure(len(kept) < dim, "no mutation after the crossover")
        ensure(all(y[i] <= 0 for i in range(dim) if i not in kept), f"mutated values {y}")
        if case["rotation"]:
            ok = any(all(y[i] in (parent[i], donor[(i + k) % dim]) for i in kept) for k in (range(1, dim) if dim > 1 else [0]))
            ensure(ok, f"rotated crossover {y} of {parent} {donor}")
        else:
            ensure(all(y[i] in (parent[i], donor[i]) for i in kept), f"crossover {y} of {parent} {donor}")
            options: tp.List[tp.Any] = []
            extreme = {"max": [np.minimum(parent, donor)], "min": [np.maximum(parent, donor)]}
            for name in [case["type"]] if case["type"] != "rand" else ["max", "min", "onepoint", "twopoint"]:
                if name in extreme:
                    options += extreme[name]
                elif name in ("onepoint", "twopoint") and dim > (4 if name == "onepoint" else 6):
                    cuts = range(1, dim)
                    pats = [(0, r) for r in cuts] if name == "onepoint" else list(itertools.combinations(cuts, 2))
                    for a, b in pats:
                        inside = np.array([a <= i < b for i in range(dim)])
                        options += [np.where(inside, parent, donor), np.where(inside, donor, parent)]
                else:
                    options = []
                    break
            if options:
                ensure(any(all(y[i] == o[i] for i in kept) for o in options), f"crossover {case['type']}: {y} of {parent} {donor}")
    rec.nontrivial(dim > 4)


# ---------------------------------------------------------------------------
# differential evolution


@st.composite
def histories(draw: tp.Any) -> tp.Any:
    dim = draw(st.integers(1, 6))
    cfg = {"popsize": draw(st.integers(2, 7)), "crossover": draw(st.sampled_from([0.5, 0.9, 1.0, 0.0, "dimension", "random", "onepoint", "twopoints", "rotated_twopoints", "parametrization"])), "F1": draw(st.sampled_from([0.8, 0.3, 0.0])),
           "F2": draw(st.sampled_from([0.8, 1.5, 0.0])), "initialization": draw(st.sampled_from(["parametrization", "gaussian", "LHS", "QR", "QO", "SO"])), "recommendation": draw(st.sampled_from(["optimistic", "pessimistic", "mean"]))}
    step = st.one_of(st.tuples(st.just("ask"), st.just(0), st.just(0)), st.tuples(st.just("tell"), st.integers(0, 5), st.integers(-6, 6)), st.tuples(st.just("tell"), st.integers(0, 5), st.integers(-6, 6)),
                     st.tuples(st.just("foreign"), st.integers(0, 9), st.integers(-6, 6)))
    return {"dim": dim, "cfg": cfg, "seed": draw(P.seeds), "workers": draw(st.integers(1, 4)), "steps": draw(st.lists(step, min_size=10, max_size=60)), "frac": draw(st.booleans())}


def run_de(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng

    dim, cfg = case["dim"], case["cfg"]
    param: tp.Any = ng.p.Array(shape=(dim,))
    param.random_state.seed(case["seed"])
    rng = np.random.RandomState((case["seed"] + 1) % 2**32)
    replaced = kept = evolved = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt: tp.Any = ng.families.DifferentialEvolution(**cfg)(param, budget=1000, num_workers=case["workers"])
        slots: tp.Dict[str, tp.Any] = {}  # lineage -> [uid, position, loss]
        told: tp.List[str] = []
        asked: tp.List[str] = []
        everything: tp.List[tp.Tuple[float, np.ndarray]] = []
        pending: tp.List[tp.Any] = []

        def position(c: tp.Any) -> np.ndarray:
            return np.array(c.value, dtype=float)

        for action, index, value in case["steps"]:
            loss = float(value) + (rng.uniform() if case["frac"] else 0.0)
            if action == "ask" or (action == "tell" and not pending):
                if len(pending) >= case["workers"]:
                    continue
                initial = len(slots) < cfg["popsize"]
                cand = opt.ask()
                x = position(cand)
                if initial:
                    slots[cand.uid] = [cand.uid, x, math.inf]
                    asked.append(cand.uid)
                else:
                    if not everything:
                        return
                    lineage = told.pop(0) if told else asked[0]
                    if lineage in asked:
                        asked.remove(lineage)
                    asked.append(lineage)
                    ensure_eq(cand.heritage["lineage"], lineage, "lineage of the candidate (oldest told, or oldest asked)")
                    uid, base, _ = slots[lineage]
                    parents = list(cand.parents_uids)
                    ensure_eq(parents[0], uid, "first parent: the current individual of the lineage")
                    pos = {s[0]: s[1] for s in slots.values()}
                    ensure(len(parents) == 3 and all(u in pos for u in parents), "the parents are in the population")
                    a, b = pos[parents[1]], pos[parents[2]]
                    low = min(v for v, _ in everything)
                    tol = 1e-9 * (1 + max(float(np.max(np.abs(v))) for v in [a, b, base]))
                    ok = False
                    for v, best in everything:
                        if v == low or len({y.tobytes() for _, y in everything}) < len(everything):  # (repeated points are averaged)
                            donor = base + cfg["F1"] * (a - b) + cfg["F2"] * (best - base)
                            if cfg["crossover"] == "parametrization":
                                ok |= bool(np.all(np.abs(x - (donor + base) / 2) <= tol))
                            else:
                                kind = {"dimension": 1.0 / dim, "random": 0.5}.get(cfg["crossover"], cfg["crossover"])
                                ok |= matches(x, donor, base, kind, tol)
                    ensure(ok, f"{x} is not built from the parent {base}, the donors {a} {b} and the best")
                    evolved += 1
                pending.append(cand)
            elif action == "tell":
                cand = pending.pop(index % len(pending))
                lineage = cand.heritage["lineage"]
                opt.tell(cand, loss)
                everything.append((loss, position(cand)))
                if lineage in slots:
                    if lineage in asked:
                        asked.remove(lineage)
                    told.append(lineage)
                    slot = slots[lineage]
                    if loss <= slot[2]:
                        replaced += slot[2] < math.inf
                        slots[lineage] = [cand.uid, position(cand), loss]
                    else:
                        kept += 1
                else:
                    _foreign(opt, cand, loss, position(cand), slots, told, asked, cfg["popsize"])
            else:
                cand = opt.parametrization.spawn_child(new_value=rng.normal(size=dim))
                opt.tell(cand, loss)
                everything.append((loss, position(cand)))
                _foreign(opt, cand, loss, position(cand), slots, told, asked, cfg["popsize"])
            got = {k: v.uid for k, v in opt.population.items()}
            ensure_eq(got, {k: v[0] for k, v in slots.items()}, "population")
        if everything and len({x.tobytes() for _, x in everything}) == len(everything):  # no averaging
            low = min(v for v, _ in everything)
            ensure(any(v == low and np.array_equal(x, position(opt.recommend())) for v, x in everything), "the recommendation is not the best point")
    rec.event("kept", kept > 0)
    rec.event("replaced", replaced > 0)
    rec.event("evolved", evolved > 0)
    rec.nontrivial(evolved > 0 and kept > 0)


def _foreign(opt: tp.Any, cand: tp.Any, loss: float, x: np.ndarray, slots: tp.Any, told: tp.List[str], asked: tp.List[str], size: int) -> None:
    """A point which was not asked: replaces the worst individual if it is better"""
    if len(slots) >= size:
        worst = max(s[2] for s in slots.values())
        if loss >= worst:
            return
        gone = [k for k in slots if k not in opt.population]
        ensure_eq(len(gone), 1, "number of individuals replaced by a better point")
        ensure_eq(slots[gone[0]][2], worst, "loss of the replaced individual")
        del slots[gone[0]]
        asked[:] = [u for u in asked if u != gone[0]]
        told[:] = [u for u in told if u != gone[0]]
    slots[cand.uid] = [cand.uid, x, loss]
    told.append(cand.uid)


# ---------------------------------------------------------------------------
# evolution strategies


@st.composite
def strategies(draw: tp.Any) -> tp.Any:
    mu = draw(st.integers(1, 5))
    only = draw(st.booleans())
    lam = draw(st.sampled_from([None, mu + 1, mu + 3] if only is False else [mu + 1, mu + 3]))
    if lam is not None and not only and draw(st.booleans()):
        lam = draw(st.integers(1, 4))
    return {"mu": mu, "lam": lam, "only": only, "recomb": draw(st.sampled_from([0, 0, 0.5, 1])), "seed": draw(P.seeds), "workers": draw(st.integers(1, 3)),
            "losses": draw(st.lists(P.floats(-5, 5), min_size=10, max_size=50, unique=True)), "order": draw(st.lists(st.integers(0, 5), min_size=1, max_size=8))}


def run_es(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng

    mu, lam = case["mu"], case["lam"]
    param: tp.Any = ng.p.Array(shape=(2,))
    param.random_state.seed(case["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        algo = ng.families.EvolutionStrategy(popsize=mu, offsprings=lam, only_offsprings=case["only"], recombination_ratio=case["recomb"])
        opt: tp.Any = algo(param, budget=1000, num_workers=case["workers"])
        losses: tp.Dict[str, float] = {}
        population: tp.Dict[str, str] = {}  # lineage -> uid, or uid -> uid
        waiting: tp.List[str] = []
        pending: tp.List[tp.Any] = []
        generations = updates = 0
        for k, loss in enumerate(case["losses"]):
            while len(pending) < case["workers"]:
                cand = opt.ask()
                initial = opt.num_ask <= mu
                if initial:
                    ensure(not cand.parents_uids, "an initial point has parents")
                    population[cand.uid] = cand.uid
                else:
                    ensure(len(cand.parents_uids) >= 1, "no parent")
                    ensure(set(cand.parents_uids) <= set(population.values()), "the parents are not in the population")
                    if lam is None:
                        ensure_eq(population.get(cand.heritage["lineage"]), cand.parents_uids[0], "lineage")
                pending.append(cand)
            cand = pending.pop(case["order"][k % len(case["order"])] % len(pending))
            opt.tell(cand, loss)
            losses[cand.uid] = loss
            if lam is None:
                lineage = cand.heritage["lineage"]
                if loss < losses.get(population[lineage], math.inf) or population[lineage] == cand.uid:
                    updates += population[lineage] != cand.uid
                    population[lineage] = cand.uid
            else:
                # initial points told before the population is full are not part of the first generation
                if cand.parents_uids or len(population) >= mu:
                    waiting.append(cand.uid)
                if len(waiting) >= lam:
                    choices = set(waiting) | (set() if case["only"] else set(population.values()))
                    best = sorted(losses.get(u, math.inf) for u in choices)[:mu]
                    chosen = [c.uid for c in opt._population.values()]
                    # (several points which are not evaluated yet can be tied)
                    ensure(len(set(chosen)) == len(chosen) and set(chosen) <= choices, "points out of the generation")
                    ensure_eq(sorted(losses.get(u, math.inf) for u in chosen), best, "losses of the selected points")
                    population = {u: u for u in chosen}
                    waiting = []
                    generations += 1
            got = sorted(c.uid for c in opt._population.values())
            ensure_eq(got, sorted(population.values()), "population: the best points of the generation")
    rec.event("generations", generations > 1)
    rec.nontrivial(generations > 1 or updates > 1)


# ---------------------------------------------------------------------------
# particle swarm


@st.composite
def swarms(draw: tp.Any) -> tp.Any:
    return {"dim": draw(st.integers(1, 4)), "size": draw(st.integers(2, 6)), "seed": draw(P.seeds), "workers": draw(st.integers(1, 4)), "omega": draw(st.sampled_from([0.72, 0.0, 0.3])), "phip": draw(st.sampled_from([1.19, 0.0, 2.0])),
            "phig": draw(st.sampled_from([1.19, 0.0, 2.0])), "losses": draw(st.lists(st.integers(-20, 20).map(float), min_size=10, max_size=60)), "order": draw(st.lists(st.integers(0, 5), min_size=1, max_size=8)), "qo": draw(st.booleans())}


def run_pso(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng

    param: tp.Any = ng.p.Array(shape=(case["dim"],))
    param.random_state.seed(case["seed"])
    workers = min(case["workers"], case["size"])  # so that a particle is not evaluated several times in parallel
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        algo = ng.families.ConfPSO(popsize=case["size"], omega=case["omega"], phip=case["phip"], phig=case["phig"], qo=case["qo"])
        opt: tp.Any = algo(param, budget=1000, num_workers=workers)
        current: tp.Dict[str, tp.Any] = {}  # lineage -> (position, speed)
        bests: tp.Dict[str, tp.Any] = {}  # lineage -> (loss, positions)
        overall: tp.Tuple[float, tp.List[np.ndarray]] = (math.inf, [])
        pending: tp.List[tp.Any] = []
        moves = 0
        previous: tp.Optional[np.ndarray] = None
        for k, loss in enumerate(case["losses"]):
            while len(pending) < workers:
                cand = opt.ask()
                x, speed, lineage = np.array(cand.value), np.array(cand.heritage["speed"]), cand.heritage["lineage"]
                if opt.num_ask <= case["size"]:
                    current[lineage] = (x, speed)
                    if case["qo"]:
                        if previous is None:
                            previous = x
                        else:
                            ensure(np.allclose(x, -previous), "quasi-opposite initialization")
                            previous = None
                else:
                    x0, v0 = current[lineage]
                    ensure(np.allclose(x, x0 + speed, atol=1e-9 * (1 + np.max(np.abs(x)))), "the position is the previous one plus the speed")
                    tol = 1e-9 * (1 + float(np.max(np.abs(x0))) + float(np.max(np.abs(speed))))
                    pbest = bests[lineage][1] if lineage in bests else [x0]
                    gbest = overall[1] or [np.zeros(case["dim"])]
                    ok = False
                    for pb, gb in itertools.product(pbest, gbest):
                        lo = case["omega"] * v0 + case["phip"] * np.minimum(0, pb - x0) + case["phig"] * np.minimum(0, gb - x0)
                        hi = case["omega"] * v0 + case["phip"] * np.maximum(0, pb - x0) + case["phig"] * np.maximum(0, gb - x0)
                        ok |= bool(np.all(speed >= lo - tol) and np.all(speed <= hi + tol))
                    ensure(ok, f"speed {speed} from speed {v0}, position {x0}, best of the particle {pbest}, best {gbest}")
                    moves += 1
                pending.append(cand)
            cand = pending.pop(case["order"][k % len(case["order"])] % len(pending))
            opt.tell(cand, loss)
            x, speed, lineage = np.array(cand.value), np.array(cand.heritage["speed"]), cand.heritage["lineage"]
            current[lineage] = (x, speed)
            # in case of tie, all are possible
            old = bests.get(lineage, (math.inf, []))
            bests[lineage] = (loss, [x]) if loss < old[0] else (old[0], old[1] + ([x] if loss == old[0] else []))
            overall = (loss, [x]) if loss < overall[0] else (overall[0], overall[1] + ([x] if loss == overall[0] else []))
    rec.nontrivial(moves > 3)


# ---------------------------------------------------------------------------
# one plus one


@st.composite
def ones(draw: tp.Any) -> tp.Any:
    return {"mutation": draw(st.sampled_from(["discrete", "rls", "portfolio", "doublefastga", "fastga", "gaussian", "adaptive", "lengler", "lognormal"])), "dim": draw(st.integers(2, 7)), "seed": draw(P.seeds),
            "arity": draw(st.sampled_from([2, 2, 3])), "losses": draw(st.lists(st.integers(-30, 30).map(float), min_size=5, max_size=40)), "crossover": draw(st.sampled_from([False, False, True]))}


def run_one(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.optimization import optimizerlib

    mutation, dim = case["mutation"], case["dim"]
    param: tp.Any = ng.p.Array(shape=(dim,))
    param.random_state.seed(case["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt: tp.Any = optimizerlib.ParametrizedOnePlusOne(mutation=mutation, crossover=case["crossover"])(param, budget=100)
        arity = opt.arity_for_discrete_mutation
        points: tp.List[tp.Tuple[float, np.ndarray]] = []
        sigma, moved = None, 0
        for k, loss in enumerate(case["losses"]):
            cand = opt.ask()
            x = np.array(cand.value)
            low = min([v for v, _ in points], default=math.inf)
            parents = [y for v, y in points if v == low]
            if k == 0:
                ensure(np.array_equal(x, np.zeros(dim)), f"first point {x}")
            elif mutation == "gaussian":
                new = cand._meta.get("sigma")
                if sigma is not None and new is not None and not case["crossover"]:
                    last = points[-1][0]
                    best = min([v for v, _ in points[:-1]], default=math.inf)
                    factor = 2.0 if last < best else 0.84 if last > best else 1.0
                    ensure(abs(new - sigma * factor) <= 1e-9 * sigma, f"sigma {new} after {sigma}, loss {last} while the best was {best}")
                sigma = new
            elif not case["crossover"]:
                ok = False
                for y in parents:
                    changed = np.nonzero(x != y)[0]
                    different = all(bins(x, arity)[i] != bins(y, arity)[i] for i in changed) if arity < 500 and not (mutation == "fastga" and dim < 5) else True
                    ok |= len(changed) >= 1 and (mutation != "rls" or len(changed) == 1) and different
                ensure(ok, f"{mutation}: {x} is not a mutation of the best point {parents} for arity {arity}")
                moved += 1
            opt.tell(cand, loss)
            points.append((loss, x))
            low = min(v for v, _ in points)
            ensure(any(v == low and np.array_equal(y, opt.recommend().value) for v, y in points), "the recommendation is not the best point")
    rec.nontrivial(moved > 3 or mutation == "gaussian")


PROPS = [
    Prop("crossover", crossovers(), run_crossover, 800, rule="more than 3 coordinates"),
    Prop("rates", st.fixed_dictionaries({"kind": st.sampled_from([0.2, 0.5, 0.9, 0.0, 1.0, "random0", "onepoint", "twopoints", "rotated_twopoints"]).map(lambda k: 0.7 if k == "random0" else k), "dim": st.integers(4, 7), "seed": P.seeds}),
         run_rates, 60, rule="more than 3 coordinates"),
    Prop("mutation", mutations(), run_mutation, 600, rule="more than 3 coordinates"),
    Prop("reach", st.fixed_dictionaries({"kind": st.sampled_from(MUTATIONS), "arity": st.sampled_from([2, 3]), "x": st.lists(P.floats(-1, 1), min_size=1, max_size=4), "seed": P.seeds}), run_reach, 30, rule="more than 2 coordinates", shards=2),
    Prop("mix", mixes(), run_mix, 800, rule="more than 4 coordinates"),
    Prop("de", histories(), run_de, 500, rule="some individuals evolved, some were kept", shards=2),
    Prop("es", strategies(), run_es, 400, rule="several generations or updates", shards=2),
    Prop("pso", swarms(), run_pso, 300, rule="more than 3 moves", shards=2),
    Prop("one", ones(), run_one, 300, rule="more than 3 mutations"),
]
