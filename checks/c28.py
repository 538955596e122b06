"""C28: quasi-random samplers have their defining properties, one-shot optimizers ask exactly their points"""
import math
import typing as tp
import warnings
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from scipy import stats
from pbt.core import Prop, Recorder, Skip, ensure, ensure_eq, expect_raises
from pbt import params as P


def primes(num: int) -> tp.List[int]:
    out: tp.List[int] = []
    k = 2
    while len(out) < num:
        if all(k % q for q in out if q * q <= k):
            out.append(k)
        k += 1
    return out


def digits(n: int, base: int) -> tp.List[int]:
    out = []
    while n:
        n, r = divmod(n, base)
        out.append(r)
    return out


def radical_inverse(n: int, base: int, perm: tp.Optional[tp.Dict[int, int]] = None) -> float:
    return float(sum(Fraction(d if perm is None else perm[d], base ** (k + 1)) for k, d in enumerate(digits(n, base))))


def check_halton(points: np.ndarray, scrambling: bool, rec: Recorder, atol: float = 1e-9) -> tp.List[tp.Dict[int, int]]:
    """Checks that the points are the Halton sequence, up to one permutation of the digits per dimension if scrambled"""
    perms = []
    for dim, base in enumerate(primes(points.shape[1])):
        if not scrambling:
            expected = [radical_inverse(k + 1, base) for k in range(len(points))]
            ensure(np.allclose(points[:, dim], expected, rtol=0, atol=atol), f"dimension {dim}: {points[:, dim]} instead of {expected}")
            continue
        perm = {0: 0}
        for k in range(min(len(points), base - 1)):  # these points have one digit
            digit = points[k, dim] * base
            ensure(abs(digit - round(digit)) < atol * base * 10, f"dimension {dim}, point {k}: {points[k, dim]} is not a multiple of 1/{base}")
            perm[k + 1] = int(round(digit))
        ensure_eq(len(set(perm.values())), len(perm), f"number of distinct digits in dimension {dim}")
        ensure(all(0 <= d < base for d in perm.values()), f"digits {perm}")
        if len(perm) == base:
            expected = [radical_inverse(k + 1, base, perm) for k in range(len(points))]
            ensure(np.allclose(points[:, dim], expected, rtol=0, atol=atol), f"dimension {dim}: {points[:, dim]} instead of {expected} (digits: {perm})")
            rec.event("scrambled with several digits", len(points) > base and base > 2)
        perms.append(perm)
    if scrambling and points.shape[1] >= 8 and len(points) >= 18:
        ensure(any(d != e for p in perms for d, e in p.items()), "all the permutations are the identity")
    return perms


def check_lhs(points: np.ndarray, atol: float = 0.0) -> None:
    n = len(points)
    for dim in range(points.shape[1]):
        slices = np.floor(points[:, dim] * n + atol * n).astype(int) if atol else np.floor(points[:, dim] * n).astype(int)
        ensure_eq(sorted(slices.tolist()), list(range(n)), f"slices with a point in dimension {dim}")


@st.composite
def sampler_cases(draw: tp.Any) -> tp.Any:
    return {
        "name": draw(st.sampled_from(["LHSSampler", "HaltonSampler", "HaltonSampler", "HammersleySampler", "HammersleySampler", "RandomSampler"])),
        "dim": draw(st.one_of(st.integers(1, 6), st.integers(1, 25))), "n": draw(st.one_of(st.integers(1, 8), st.integers(1, 90))),
        "scrambling": draw(st.booleans()), "seed": draw(P.seeds), "stop": draw(st.floats(0, 1)),
    }


def run_sampler(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.optimization import sequences

    name, dim, n, scr = case["name"], case["dim"], case["n"], case["scrambling"]
    cls = sequences.samplers[name]
    if scr and name in ("LHSSampler", "RandomSampler"):
        with expect_raises(ValueError, msg="scrambling is not supported"):
            cls(dim, n, scrambling=True)
        return

    def new(seed: int) -> tp.Any:
        return cls(dim, n, scrambling=scr, random_state=np.random.RandomState(seed))

    sampler = new(case["seed"])
    points = np.array(list(sampler), dtype=float)
    ensure_eq(points.shape, (n, dim), "shape of the points")
    ensure((points >= 0).all() and (points < 1).all() and np.isfinite(points).all(), "points out of the unit cube")
    if name != "LHSSampler":
        ensure((points > 0).all(), "points on the boundary")
    ensure_eq(sampler.index, n, "number of points")
    with expect_raises(AssertionError, msg="over the budget"):
        sampler()
    if name == "LHSSampler":
        check_lhs(points)
    elif name == "HaltonSampler":
        check_halton(points, scr, rec)
    elif name == "HammersleySampler":
        expected = [(k + 0.5) / n for k in range(n)]
        ensure(np.allclose(points[:, 0], expected, rtol=0, atol=1e-12), f"first coordinate {points[:, 0]} instead of {expected}")
        check_halton(points[:, 1:], scr, rec)
    # same seed, same points, whatever happens to other samplers in between
    other = new(case["seed"])
    third = new(case["seed"] + 1)
    again = []
    for _ in range(n):
        again.append(other())
        third()
    ensure(np.array_equal(points, np.array(again, dtype=float)), "another sampler with the same seed has other points")
    if name != "RandomSampler":  # (the random sampler goes on with its generator)
        for stop in (int(case["stop"] * n), n):
            other.reinitialize()
            part = [other() for _ in range(stop)]
            ensure(np.array_equal(points[:stop], np.array(part, dtype=float).reshape(stop, dim)), "other points once reinitialized")
            rec.event("reinitialized")
    if name == "HaltonSampler":  # no budget is required
        free = cls(dim, scrambling=scr, random_state=np.random.RandomState(case["seed"]))
        ensure(np.array_equal(points, np.array([free() for _ in range(n)])), "other points without budget")
        free()
    rec.event(name)
    rec.nontrivial(n >= 3 and dim >= 2)


def run_rescaler(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.optimization import sequences

    name, dim, n = case["name"], case["dim"], case["n"]
    scr = case["scrambling"] and name.startswith("Ha")
    sampler = sequences.samplers[name](dim, n, scrambling=scr, random_state=np.random.RandomState(case["seed"]))
    points = np.array(list(sampler), dtype=float)
    if not (points > 0).all():
        raise Skip("on the boundary")
    rescaler = sequences.Rescaler(points)
    out = np.array([rescaler.apply(x) for x in points])
    ensure(np.isfinite(out).all() and (out > 0).all() and (out < 1).all() if n == 1 else (out >= 0).all() and (out <= 1).all(), "rescaled points out of the unit cube")
    width = points.max(axis=0) - points.min(axis=0)
    for k in range(dim):
        if width[k] > 0:
            ensure(out[:, k].min() <= 1e-12 and out[:, k].max() >= 1 - 1e-12, f"dimension {k} does not span the range")
            expected = (points[:, k] - points[:, k].min()) / width[k]
            ensure(np.allclose(out[:, k], expected, rtol=0, atol=1e-9), "the rescaling is not affine")
        else:
            ensure(np.array_equal(out[:, k], points[:, k]), "a coordinate without width moved")
    rec.nontrivial(n >= 3)


# ---------------------------------------------------------------------------
# one-shot optimizers


@st.composite
def searches(draw: tp.Any) -> tp.Any:
    sampler = draw(st.sampled_from(["Halton", "Halton", "Hammersley", "Hammersley", "LHS"]))
    bounded = draw(st.booleans())
    dim = draw(st.one_of(st.integers(1, 4), st.integers(1, 12)))
    return {
        "sampler": sampler, "scrambled": draw(st.booleans()) if sampler != "LHS" else False, "middle_point": draw(st.booleans()),
        "opposition_mode": draw(st.sampled_from([None, None, None, "opposite", "quasi", "special"])), "cauchy": draw(st.booleans()),
        "autorescale": draw(st.sampled_from([False, False, True, "auto", "autotune"])), "scale": draw(st.sampled_from([1.0, 1.0, 0.3, 4.0, 100.0])),
        "rescaled": draw(st.sampled_from([False, False, True])), "dim": dim, "budget": draw(st.one_of(st.integers(2, 8), st.integers(2, 70))),
        "bounds": [draw(P.floats(-50, 50)), draw(P.floats(0.5, 60))] if bounded else None, "seed": draw(P.seeds),
        "method": draw(st.sampled_from(["clipping", "bouncing", "constraint"])), "tell": draw(st.booleans()),
    }


def run_search(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng

    dim, budget = case["dim"], case["budget"]
    keys = ["sampler", "scrambled", "middle_point", "opposition_mode", "cauchy", "autorescale", "scale", "rescaled"]
    conf = {k: case[k] for k in keys}
    param = ng.p.Array(shape=(dim,))
    low = width = 0.0
    if case["bounds"] is not None:
        low, width = case["bounds"]
        param = ng.p.Array(init=np.full(dim, low + width / 2))
        param.set_bounds(low, low + width, method=case["method"])
    param.random_state.seed(case["seed"])
    ref = param.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = ng.families.SamplingSearch(**conf)(param, budget=budget, num_workers=budget)
        cands = []
        snaps = []
        for k in range(budget):
            cand = opt.ask()
            cands.append(cand)
            snaps.append(np.array(cand.value))
            if case["tell"]:
                opt.tell(cand, float(np.sum(cand.value**2)))
    for cand, snap in zip(cands, snaps):
        ensure(np.array_equal(cand.value, snap), "the value of an asked point was changed afterwards")
    values = np.array(snaps)
    ensure(np.isfinite(values).all(), "non finite point")
    data = np.array([c.get_standardized_data(reference=ref) for c in cands])
    if case["bounds"] is not None:
        ensure((values >= low).all() and (values <= low + width).all(), "out of bounds")
    num = budget
    if case["middle_point"]:
        ensure(np.allclose(data[0], 0, atol=1e-12), f"the first point is not the middle: {data[0]}")
        data, values, num = data[1:], values[1:], num - 1
    # opposites
    drawn = np.arange(num)
    mode = case["opposition_mode"]
    if mode is not None:
        for k in range(1, num, 2):
            a, b = data[k - 1], data[k]
            if case["bounds"] is None:
                i = int(np.argmax(np.abs(a)))
                if abs(a[i]) < 1e-6:
                    continue
                ratio = -b[i] / a[i]
                low_r, high_r = {"opposite": (1.0, 1.0), "quasi": (0.0, 1.0), "special": (math.exp(-5), 1.0)}[mode]
                ensure(low_r - 1e-9 <= ratio <= high_r + 1e-9, f"{mode} point with ratio {-ratio}")
                ensure(np.allclose(b, -ratio * a, rtol=1e-6, atol=1e-9), f"{b} is not along the opposite of {a}")
        drawn = np.arange(0, num, 2)
        rec.event("opposition")
    n = len(drawn)
    data, values = data[drawn], values[drawn]
    if not n:
        return
    # back to the unit cube
    if case["bounds"] is not None:
        unit = (values - low) / width
        tol = 1e-9
    else:
        scale = case["scale"]
        if case["autorescale"] in (True, "auto"):
            scale = (1 + math.log(budget)) / (4 * math.log(max(2, dim)))
        elif case["autorescale"] == "autotune":
            scale = math.sqrt(math.log(budget) / dim)
        dist = stats.cauchy if case["cauchy"] else stats.norm
        unit = dist.cdf(data / scale)
        tol = 1e-9
    if case["rescaled"]:
        if n >= 2:
            ensure(np.allclose(unit.min(axis=0), 0, atol=1e-7) and np.allclose(unit.max(axis=0), 1, atol=1e-7), f"rescaled points do not span the range: {unit.min(axis=0)} {unit.max(axis=0)}")
        if case["sampler"] == "LHS" or case["scrambled"]:
            rec.nontrivial(n >= 3)
            return  # affine change of unknown points
        raw = np.array([[radical_inverse(k + 1, b) for b in primes(dim)] for k in range(n)])
        if case["sampler"] == "Hammersley":
            raw = np.concatenate([(np.arange(n)[:, None] + 0.5) / n, raw[:, : dim - 1]], axis=1)
        if n >= 2:
            raw = (raw - raw.min(axis=0)) / (raw.max(axis=0) - raw.min(axis=0))
        ensure(np.allclose(unit, raw, rtol=0, atol=1e-7), "the asked points are not the rescaled points of the sampler")
        rec.event("rescaled")
    elif case["sampler"] == "LHS":
        check_lhs(unit, atol=1e-10)
    elif case["sampler"] == "Halton":
        check_halton(unit, case["scrambled"], rec, atol=tol)
    else:
        ensure(np.allclose(unit[:, 0], (np.arange(n) + 0.5) / n, rtol=0, atol=tol), f"first coordinate {unit[:, 0]} for {n} points")
        check_halton(unit[:, 1:], case["scrambled"], rec, atol=tol)
    rec.event(case["sampler"])
    rec.event("bounded", case["bounds"] is not None)
    rec.nontrivial(n >= 3)


# ---------------------------------------------------------------------------
# random searches


@st.composite
def randoms(draw: tp.Any) -> tp.Any:
    return {
        "middle_point": draw(st.booleans()), "opposition_mode": draw(st.sampled_from([None, "opposite", "quasi", "special"])),
        "sampler": draw(st.sampled_from(["parametrization", "gaussian", "cauchy"])), "scale": draw(st.sampled_from([1.0, 0.2, 7.0, "auto", "autotune", "random"])),
        "dim": draw(st.integers(1, 8)), "budget": draw(st.integers(2, 30)), "seed": draw(P.seeds), "stupid": draw(st.booleans()),
    }


def run_random(case: tp.Any, rec: Recorder) -> None:
    import nevergrad as ng

    dim, budget, mode = case["dim"], case["budget"], case["opposition_mode"]

    def points(scale: tp.Any) -> tp.Tuple[np.ndarray, tp.Any]:
        param = ng.p.Array(shape=(dim,))
        param.random_state.seed(case["seed"])
        algo = ng.families.RandomSearchMaker(
            middle_point=case["middle_point"], opposition_mode=mode, sampler=case["sampler"], scale=scale, stupid=case["stupid"]
        )
        opt = algo(param, budget=budget, num_workers=budget)
        cands = [opt.ask() for _ in range(budget)]
        return np.array([c.value for c in cands]), (opt, cands)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        values, (opt, cands) = points(case["scale"])
        unit, _ = points(1.0)
    ensure(np.isfinite(values).all(), "non finite point")
    if case["middle_point"]:
        ensure(not values[0].any(), "the first point is not the middle")
    if case["scale"] != "random":
        scale = case["scale"]
        if scale == "auto":
            scale = (1 + math.log(budget)) / (4 * math.log(max(2, dim)))
        elif scale == "autotune":
            scale = math.sqrt(math.log(budget) / dim)
        ensure(np.allclose(values, scale * unit, rtol=1e-9, atol=1e-12), f"the points are not the ones of a scale 1 times {scale}")
    start = 0
    if mode is not None:
        for k in range(start + 1, budget, 2):
            a, b = values[k - 1], values[k]
            i = int(np.argmax(np.abs(a)))
            if not a[i]:
                ensure(not b.any(), "opposite of the middle")
                continue
            ratio = -b[i] / a[i]
            low_r, high_r = {"opposite": (1.0, 1.0), "quasi": (0.0, 1.0), "special": (math.exp(-5), 1.0)}[mode]
            ensure(low_r - 1e-9 <= ratio <= high_r + 1e-9, f"{mode} point with ratio {-ratio}")
            ensure(np.allclose(b, -ratio * a, rtol=1e-6, atol=1e-9), f"{b} is not along the opposite of {a}")
    else:
        ensure_eq(len({tuple(v) for v in values.tolist()}), budget, "number of distinct points")
    for k, c in enumerate(cands):
        opt.tell(c, float(k + 1 if k != budget // 2 else 0))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        recom = opt.provide_recommendation()
    if not case["stupid"]:
        ensure(np.array_equal(recom.value, values[budget // 2]), "the recommendation is not the best point")
    rec.nontrivial(budget >= 4)
    rec.event(f"{mode}")


PROPS = [
    Prop("sampler", sampler_cases(), run_sampler, 900, rule="3 or more points in 2 or more dimensions", shards=2),
    Prop("rescaler", sampler_cases(), run_rescaler, 300, rule="3 or more points", shards=1),
    Prop("search", searches(), run_search, 900, rule="3 or more points of the sampler", shards=3),
    Prop("random", randoms(), run_random, 500, rule="4 or more points", shards=1),
]
