"""C27: NSGA-II ranking sorts by dominance and crowding"""
import random
import typing as tp
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P
from checks.c25 import dominates


@st.composite
def populations(draw: tp.Any, min_size: int = 1) -> tp.Any:
    m = draw(st.integers(1, 5))
    n = draw(st.integers(min_size, 14))
    kind = draw(st.sampled_from(["grid", "float", "mixed", "distinct"]))
    if kind == "grid":
        elem: tp.Any = st.integers(-2, 2).map(float)
    elif kind == "float":
        elem = P.floats(-10, 10)
    else:
        elem = st.one_of(st.integers(-3, 3).map(float), P.floats(-4, 4))
    losses = draw(st.lists(st.lists(elem, min_size=m, max_size=m), min_size=n, max_size=n))
    if kind == "distinct":  # each objective is a permutation: no tie
        cols = [draw(st.permutations(list(range(n)))) for _ in range(m)]
        losses = [[float(c[i]) + 0.25 * losses[i][0] / 10 for c in cols] for i in range(n)]
    return {"losses": losses, "k": draw(st.integers(1, n + 3)), "single": draw(st.booleans()) if m == 1 else False, "again": draw(st.booleans())}


def candidates(case: tp.Any) -> tp.List[tp.Any]:
    import nevergrad as ng

    out = []
    param = ng.p.Scalar()
    for loss in case["losses"]:
        cand = param.spawn_child()
        if case.get("single"):
            cand.loss = loss[0]
        else:
            cand._losses = np.array(loss)
            cand.loss = float(loss[0])
        out.append(cand)
    return out


def peel(losses: tp.Sequence[tp.Sequence[float]]) -> tp.List[tp.Set[int]]:
    left, fronts = set(range(len(losses))), []
    while left:
        front = {i for i in left if not any(dominates(losses[j], losses[i]) for j in left)}
        fronts.append(front)
        left -= front
    return fronts


def crowding_bounds(losses: tp.Sequence[tp.Sequence[float]]) -> tp.List[tp.Tuple[float, float]]:
    """Interval of the crowding distance of each point (the order of tied points is free)"""
    n = len(losses)
    if n <= 2:
        return [(np.inf, np.inf)] * n
    low, high = np.zeros(n), np.zeros(n)
    for i in range(len(losses[0])):
        vals = [p[i] for p in losses]
        distinct = sorted(set(vals))
        width = distinct[-1] - distinct[0]
        for k, v in enumerate(vals):
            tied = vals.count(v)
            if v in (distinct[0], distinct[-1]):
                high[k] = np.inf
                if tied == 1:
                    low[k] = np.inf
                continue
            pos = distinct.index(v)
            full = (distinct[pos + 1] - distinct[pos - 1]) / width
            high[k] += full
            low[k] += full if tied == 1 else 0.0
    return list(zip(low, high))


def run_fronts(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.optimization.multiobjective import nsga2

    cands = candidates(case)
    uids = {c.uid: i for i, c in enumerate(cands)}
    expected = peel(case["losses"])
    fronts = nsga2.FastNonDominatedRanking().compute_ranking(list(cands))
    ensure_eq([sorted(uids[c.uid] for c in f) for f in fronts], [sorted(f) for f in expected], "fronts")
    for k, f in enumerate(fronts):
        for c in f:
            ensure_eq(c._meta["non_dominated_rank"], k, "rank in the metadata")
    trimmed = nsga2.FastNonDominatedRanking().compute_ranking(list(cands), case["k"])
    need, count = 0, 0
    while need < len(expected) and count < case["k"]:
        count += len(expected[need])
        need += 1
    ensure_eq([sorted(uids[c.uid] for c in f) for f in trimmed], [sorted(f) for f in expected[:need]], f"fronts for {case['k']} points")
    rec.event("3 objectives or more", len(case["losses"][0]) >= 3)
    rec.nontrivial(len(expected) >= 2 and max(len(f) for f in expected) >= 2)


def run_crowding(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.optimization.multiobjective import nsga2

    cands = candidates(case)
    front = list(cands)
    random.Random(case["k"]).shuffle(front)
    algo = nsga2.CrowdingDistance()
    if case["again"]:  # the points were part of a previous generation
        nsga2.rank(front[: case["k"]])
        algo.compute_distance(front[case["k"] // 2 :])
    algo.compute_distance(front)
    bounds = crowding_bounds(case["losses"])
    got = [c._meta["crowding_distance"] for c in cands]
    for k, (low, high) in enumerate(bounds):
        ensure(low - 1e-9 * max(1, abs(low) if np.isfinite(low) else 1) <= got[k] <= high + 1e-9, f"crowding distance {got[k]} of point {k} outside [{low}, {high}]")
    for i in range(len(case["losses"][0])):
        vals = [p[i] for p in case["losses"]]
        for ext in (min(vals), max(vals)):
            ensure(any(v == ext and np.isinf(g) for v, g in zip(vals, got)), f"no infinite distance on a boundary of objective {i}")
    out = algo.sort(front)
    vals = [c._meta["crowding_distance"] for c in out]
    ensure_eq(vals, sorted(vals, reverse=True), "order of the crowding distances")
    ensure_eq(sorted(c.uid for c in out), sorted(c.uid for c in cands), "sorted points")
    rec.event("exact", all(a == b for a, b in bounds))
    rec.nontrivial(sum(1 for a, b in bounds if a == b and np.isfinite(a)) >= 1)


def run_rank(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.optimization.multiobjective import nsga2

    cands = candidates(case)
    uids = {c.uid: i for i, c in enumerate(cands)}
    if case["again"]:
        nsga2.rank(list(cands)[case["k"] // 3 :])
    fronts = peel(case["losses"])
    front_of = {i: k for k, f in enumerate(fronts) for i in f}
    n = len(cands)
    ranks = {uids[u]: v for u, v in nsga2.rank(list(cands)).items()}
    ensure_eq(sorted(ranks), list(range(n)), "ranked points")
    ensure_eq(sorted(r[0] for r in ranks.values()), list(range(n)), "ranks")
    crowd: tp.Dict[int, tp.Tuple[float, float]] = {}
    for f in fronts:
        idx = sorted(f)
        crowd.update(zip(idx, crowding_bounds([case["losses"][i] for i in idx])))
    for i, (rank, front, dist) in ranks.items():
        ensure_eq(front, front_of[i], "front")
        ensure(crowd[i][0] - 1e-9 <= dist <= crowd[i][1] + 1e-9 or dist == crowd[i][0], f"crowding {dist} outside {crowd[i]}")
    order = sorted(ranks, key=lambda i: ranks[i][0])
    keys = [(ranks[i][1], -ranks[i][2]) for i in order]
    ensure_eq(keys, sorted(keys), "order by front then crowding")
    # selection
    k = case["k"]
    if not case["again"]:
        cands = candidates(case)
        uids = {c.uid: i for i, c in enumerate(cands)}
    sel = {uids[u]: v for u, v in nsga2.rank(list(cands), n_selected=k).items()}
    ensure_eq(len(sel), min(k, n), "number of selected points")
    for i, (_, front, _) in sel.items():
        ensure_eq(front, front_of[i], "front of a selected point")
    last = max(front_of[i] for i in sel)
    for i in range(n):
        if i not in sel:
            ensure(front_of[i] >= last, f"point {i} of front {front_of[i]} not selected but a point of front {last} is")
            if front_of[i] == last:
                worst = min(crowd[j][1] for j in sel if front_of[j] == last)
                ensure(crowd[i][0] <= worst + 1e-9, f"point {i} has crowding {crowd[i]} and is not selected, contrarily to one with {worst}")
    for i in sel:
        for j in sel:
            if front_of[i] < front_of[j]:
                ensure(sel[i][0] < sel[j][0], "a point of a better front has not a better rank")
    rec.event("front is cut", any(front_of[i] == last for i in range(n) if i not in sel))
    rec.nontrivial(len(fronts) >= 2 and k < n)


# ---------------------------------------------------------------------------
# evolution strategy: the parents are selected by NSGA-II


@st.composite
def strategies(draw: tp.Any) -> tp.Any:
    mu = draw(st.integers(1, 4))
    lam = mu + draw(st.integers(1, 5))
    m = draw(st.integers(2, 4))
    gens = draw(st.integers(1, 3))
    n = mu + lam * (gens + 1)
    elem = draw(st.sampled_from([st.integers(-3, 3).map(float), P.floats(-5, 5)]))
    return {"mu": mu, "lam": lam, "m": m, "seed": draw(P.seeds), "recomb": draw(st.sampled_from([0, 0, 1])),
            "losses": draw(st.lists(st.lists(elem, min_size=m, max_size=m), min_size=n, max_size=n))}


def run_es(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng

    mu, lam = case["mu"], case["lam"]
    param = ng.p.Array(shape=(2,))
    param.random_state.seed(case["seed"])
    algo = ng.families.EvolutionStrategy(popsize=mu, offsprings=lam, only_offsprings=True, recombination_ratio=case["recomb"])
    cut = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = algo(param, budget=1000)
        opt.tell(ng.p.MultiobjectiveReference(), [100.0] * case["m"])
        allowed: tp.Optional[tp.Set[str]] = None
        generation: tp.List[tp.Tuple[str, tp.List[float]]] = []
        pop: tp.Set[str] = set()
        for k, loss in enumerate(case["losses"]):
            cand = opt.ask()
            if k >= mu:
                parents = set(cand.parents_uids)
                ensure(parents, "a child without parent")
                ensure(parents <= (pop if allowed is None else allowed), "the parent was not selected (dominated by too many points)")
            opt.tell(cand, loss)
            if k < mu:
                pop.add(cand.uid)
            if k < mu - 1:
                continue
            # (the last initial point is told when the population is already full: it is part of the first generation)
            generation.append((cand.uid, loss))
            if len(generation) == lam:
                fronts = peel([x for _, x in generation])
                allowed, count = set(), 0
                for f in fronts:
                    if count >= mu:
                        cut += 1
                        break
                    allowed |= {generation[i][0] for i in f}
                    count += len(f)
                generation = []
    rec.nontrivial(cut > 0)


PROPS = [
    Prop("fronts", populations(), run_fronts, 1500, rule="2 or more fronts, one with several points", shards=2),
    Prop("crowding", populations(), run_crowding, 800, rule="a point with an exact finite distance", shards=1),
    Prop("rank", populations(2), run_rank, 1500, rule="2 or more fronts, less points selected than available", shards=2),
    Prop("es", strategies(), run_es, 500, rule="a generation had points in fronts which could not be selected", shards=1),
]
