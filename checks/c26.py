"""C26: the hypervolume is the measure of the dominated region"""
import itertools
import random
import typing as tp
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P
from checks.c25 import dominates, nondominated, union_volume


def inclusion_exclusion(points: tp.Sequence[tp.Sequence[float]], ref: tp.Sequence[float]) -> float:
    out = 0.0
    for k in range(1, len(points) + 1):
        for sub in itertools.combinations(points, k):
            out += (-1) ** (k + 1) * float(np.prod([r - max(p[i] for p in sub) for i, r in enumerate(ref)]))
    return out


@st.composite
def sets(draw: tp.Any, max_points: int = 9) -> tp.Any:
    m = draw(st.integers(1, 6))
    n = draw(st.integers(1, max_points if m < 6 else 6))
    kind = draw(st.sampled_from(["grid", "small grid", "float", "front", "mixed"]))
    ref = draw(st.lists(st.one_of(st.integers(-3, 4).map(float), P.floats(-20, 20)), min_size=m, max_size=m))
    if kind == "grid":
        gap: tp.Any = st.integers(0, 5).map(float)
    elif kind == "small grid":
        gap = st.integers(0, 2).map(float)
    elif kind == "float":
        gap = P.floats(0, 10)
    else:
        gap = st.one_of(st.integers(1, 3).map(float), P.floats(0, 4))
    gaps = draw(st.lists(st.lists(gap, min_size=m, max_size=m), min_size=n, max_size=n))
    if kind == "front":  # mostly incomparable
        gaps = [[g / (1e-3 + sum(gs)) * 3 for g in gs] for gs in gaps]
    return {"ref": ref, "points": [[r - g for r, g in zip(ref, gs)] for gs in gaps], "order": draw(P.seeds), "form": draw(st.sampled_from(["list", "array", "lists"]))}


def compute(ind: tp.Any, points: tp.Any, how: str) -> float:
    if how == "array":
        return float(ind.compute(np.array(points, dtype=float)))
    return float(ind.compute([np.array(p) for p in points] if how == "list" else [list(p) for p in points]))


def run_volume(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.optimization.multiobjective import HypervolumeIndicator

    ref, points, how = case["ref"], case["points"], case["form"]
    ind = HypervolumeIndicator(reference_point=np.array(ref))
    got = compute(ind, points, how)
    expected = union_volume(points, ref)
    scale = float(np.prod([max(1e-3, r - min(p[i] for p in points)) for i, r in enumerate(ref)]))
    tol = 1e-9 * scale + 1e-12
    ensure(abs(got - expected) <= tol, f"hypervolume {got} instead of {expected}")
    if len(points) <= 6:
        ie = inclusion_exclusion(points, ref)
        ensure(abs(got - ie) <= 100 * tol, f"hypervolume {got}, inclusion-exclusion {ie}")
    rng = random.Random(case["order"])
    shuffled = list(points)
    rng.shuffle(shuffled)
    ensure(abs(compute(ind, shuffled, how) - got) <= tol, "the order matters")
    dup = shuffled + [rng.choice(points) for _ in range(2)]
    rng.shuffle(dup)
    ensure(abs(compute(ind, dup, how) - got) <= tol, "duplicates matter")
    p = rng.choice(points)
    worse = [x + rng.random() * (r - x) if rng.random() < 0.7 else x for x, r in zip(p, ref)]
    ensure(abs(compute(ind, shuffled + [worse], how) - got) <= tol, f"the dominated point {worse} matters")
    less = compute(ind, points[1:], how) if len(points) > 1 else 0.0
    ensure(less <= got + tol, "not monotone: more volume with a point less")
    ensure(abs(less - union_volume(points[1:], ref)) <= tol if len(points) > 1 else True, "volume without the first point")
    alone = compute(ind, [p], how)
    ensure(abs(alone - float(np.prod([r - x for x, r in zip(p, ref)]))) <= tol, "volume of one point")
    ensure(alone <= got + tol, "less volume than one of its points")
    # translation and scaling of an axis
    axis = rng.randrange(len(ref))
    fac = rng.choice([2.0, 0.5, 4.0])
    ref2 = [r * fac if i == axis else r for i, r in enumerate(ref)]
    pts2 = [[x * fac if i == axis else x for i, x in enumerate(q)] for q in points]
    ensure(abs(compute(HypervolumeIndicator(np.array(ref2)), pts2, how) - fac * got) <= 1e-6 * max(1.0, fac) * max(scale, 1e-3), "scaling an axis")
    front = nondominated(points)
    rec.event(f"{len(ref)} objectives")
    rec.nontrivial(len(front) >= 2 and expected > 0)


# ---------------------------------------------------------------------------
# losses derived from the hypervolume


@st.composite
def histories(draw: tp.Any) -> tp.Any:
    m = draw(st.integers(2, 4))
    n = draw(st.integers(2, 25))
    elem = draw(st.sampled_from([st.integers(-3, 5).map(float), P.floats(-5, 8), st.one_of(st.integers(-2, 4).map(float), P.floats(-3, 5))]))
    return {
        "m": m, "ref": draw(st.lists(st.one_of(st.integers(1, 5).map(float), P.floats(0.5, 6)), min_size=m, max_size=m)),
        "losses": draw(st.lists(st.lists(elem, min_size=m, max_size=m), min_size=n, max_size=n)), "through": draw(st.sampled_from(["pareto", "optimizer"])),
        "seed": draw(P.seeds), "auto": draw(st.one_of(st.none(), st.integers(1, 8))),
    }


def run_losses(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.optimization.multiobjective import HypervolumePareto

    ref = case["ref"]
    param = ng.p.Array(shape=(2,))
    auto = 0
    opt = None
    if case["through"] == "optimizer":
        opt = ng.optimizers.OnePlusOne(param, budget=100)
        opt.tell(ng.p.MultiobjectiveReference(), ref)
    elif case["auto"] is not None:
        auto = case["auto"]
        pareto = HypervolumePareto(auto_bound=auto)
    else:
        pareto = HypervolumePareto(upper_bounds=ref)
    bounds = None if auto else list(ref)
    inside: tp.List[tp.List[float]] = []  # told points within the bounds
    beaten = dominated = over = 0
    after = bool(auto)
    for loss in case["losses"]:
        cand = param.spawn_child(new_value=np.array([0.1 * len(inside), 1.0]))
        if opt is not None:
            opt.tell(cand, loss)
            out = cand.loss
        else:
            cand._losses = np.array(loss)
            out = pareto.add(cand)
        if auto > 0:
            auto -= 1
            if bounds is not None and all(x > b for x, b in zip(loss, bounds)):
                ensure_eq(out, float("inf"), "loss of an uniformly worse point while estimating the bounds")
            else:
                bounds = list(loss) if bounds is None else [max(x, b) for x, b in zip(loss, bounds)]
                ensure_eq(out, 0.0, "loss while estimating the bounds")
                inside.append(loss)
            continue
        if any(x > b for x, b in zip(loss, bounds)):
            excess = sum(max(0.0, x - b) for x, b in zip(loss, bounds))
            ensure(abs(out - excess) <= 1e-9 * max(1.0, excess), f"loss {out} of a point over the bounds by {excess}")
            ensure(out > 0, "not positive over the bounds")
            over += 1
            continue
        first, after = after, False
        before = union_volume(inside, bounds)
        volume = union_volume(inside + [loss], bounds)
        tol = 1e-9 * max(1.0, volume)
        inside.append(loss)
        if volume > before + 10 * tol:
            ensure(abs(out + volume) <= tol, f"improving point: loss {out} instead of -{volume}")
            beaten += 1
        elif any(all(q <= x for q, x in zip(p, loss)) for p in inside[:-1]):
            distance = min(min(x - q for q, x in zip(p, loss)) for p in nondominated(inside[:-1]) if all(q <= x for q, x in zip(p, loss)))
            # the volume is not exactly additive with floats: a dominated point may be seen as improving
            # by a rounding error. The first one after the estimation of the bounds is also seen as improving
            exact = all(float(x).is_integer() for q in inside + [list(bounds)] for x in q)
            if not (abs(out + before) <= 10 * tol and (first or not exact)):
                ensure(abs(out - (distance - before)) <= 10 * tol, f"dominated point: loss {out} instead of {distance} - {before}")
            ensure(out >= -before - 10 * tol, "a dominated point is better than the points of the front")
            dominated += 1
        if opt is None and bounds is not None and (beaten or not case["auto"]):
            ensure(abs(max(pareto.best_volume, 0) - volume) <= 10 * tol, f"best volume {pareto.best_volume} instead of {volume}")
    rec.event("dominated", dominated > 0)
    rec.event("over the bounds", over > 0)
    rec.nontrivial(beaten >= 2)


PROPS = [
    Prop("volume", sets(), run_volume, 2500, rule="2 or more incomparable points, positive volume", shards=3),
    Prop("losses", histories(), run_losses, 1500, rule="2 or more points improved the volume", shards=2),
]
