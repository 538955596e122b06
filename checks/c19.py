"""C19: losses of every documented kind are handled"""
import fractions
import math
import random

import numpy as np
from hypothesis import strategies as st
from pbt.core import Enum, Prop, Recorder, Skip, ensure, ensure_eq
from pbt import params as P
from . import optim as O


def run_registry(case, rec: Recorder) -> None:
    import nevergrad as ng

    if ng.optimizers.registry[case["opt"]].no_parallelization and case["workers"] > 1:
        raise Skip
    with O.limits():
        root, opt = O.make(case)
        run = O.Run(case, root, opt)
        for kind, cand, loss in run.steps():
            if kind == "ask":
                O.check_candidate(case, root, cand, "asked")
            else:
                expected = loss if loss < 5e20 else 5e20
                ensure_eq(cand.loss, expected, "loss kept by the candidate")
        ensure_eq((opt.num_ask, opt.num_tell), (case["budget"], case["budget"]), "number of asks and tells")
        O.check_candidate(case, root, opt.provide_recommendation(), "recommended")
    rec.nontrivial(case["budget"] >= 3)
    rec.event("losses: " + case["loss"])


def cases(tier, seed):
    quick = tier == "quick"
    out = O.registry_cases(seed, 2 if quick else 15, "C19", max_budget=30 if quick else 80)
    for c in out:
        rng = random.Random(c["seed"] + 1)
        c["loss"] = rng.choice(KINDS)
    return out


KINDS = ["invalid", "invalid", "nan", "huge", "neghuge"]


# ---------------------------------------------------------------------------
# kinds of losses: the run must be the one of the equal plain floats

OPTS = ["OnePlusOne", "DE", "PSO", "CMA", "RandomSearch", "DiscreteOnePlusOne", "TBPSA", "ES", "NGOpt", "cGA", "OptimisticNoisyOnePlusOne", "Portfolio", "ScrHammersleySearch", "LhsDE", "NGOptSingle9"]
SPECS = [
    {"k": "array", "shape": [2], "ms": False},
    {"k": "inst", "args": [{"k": "scalar", "ms": False, "lower": -1.0, "upper": 3.0}], "kwargs": [["x", {"k": "array", "shape": [2], "ms": False}]]},
]
GOOD = ["float", "np64", "np32", "np16", "int", "npint", "bool", "frac", "arr0", "arr1", "arr11", "list", "tuple", "inf", "nan", "big", "clip", "np_nan", "arr_nan", "list_inf"]
BAD = ["str", "none", "complex", "empty", "emptyarr", "dict", "vector", "strlist", "object", "matrix"]


def make_loss(kind, v):
    """the loss to tell, and the plain float it stands for (None if it must be rejected)"""
    i = int(v)
    table = {
        "float": (v, v), "np64": (np.float64(v), v), "np32": (np.float32(v), float(np.float32(v))), "np16": (np.float16(v), float(np.float16(v))), "int": (i, float(i)),
        "npint": (np.int32(i), float(i)), "bool": (i % 2 == 0, float(i % 2 == 0)), "frac": (fractions.Fraction(i, 7), i / 7), "arr0": (np.array(v), v), "arr1": (np.array([v]), v),
        "arr11": (np.array([[v]]), v), "list": ([v], v), "tuple": ((i,), float(i)), "inf": (math.inf, 5e20), "nan": (math.nan, 5e20), "big": (10.0 ** (21 + i % 280), 5e20), "clip": (5e20, 5e20),
        "np_nan": (np.float32("nan"), 5e20), "arr_nan": (np.array([np.nan]), 5e20), "list_inf": ([math.inf], 5e20),
        "str": ("12", None), "none": (None, None), "complex": (1 + 2j, None), "empty": ([], None), "emptyarr": (np.array([]), None), "dict": ({"loss": 1.0}, None), "vector": ([v, 1.0, 2.0], None),
        "strlist": (["a", "b"], None), "object": (object(), None), "matrix": (np.ones((2, 2)), None),
    }
    return table[kind]


@st.composite
def kinds_case(draw):
    kinds = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(GOOD + BAD))
    steps = draw(st.lists(st.tuples(kinds, st.integers(-6, 6).map(float) | P.floats(-100, 100), st.integers(0, 3)), min_size=1, max_size=15))
    return {"opt": draw(st.sampled_from(OPTS)), "spec": draw(st.sampled_from(SPECS)), "seed": draw(st.integers(0, 1000)), "workers": draw(st.integers(1, 3)), "steps": steps, "again": draw(st.booleans())}


def archive_state(opt):
    return {k: (v.count, v.mean, v.variance) for k, v in opt.archive.bytesdict.items()}


def run_kinds(case, rec: Recorder) -> None:
    import nevergrad as ng

    opts = []
    for _ in range(2):
        root = P.build(case["spec"])
        root.random_state.seed(case["seed"])
        opts.append(ng.optimizers.registry[case["opt"]](root, budget=len(case["steps"]) + 2, num_workers=case["workers"]))
    opt, ref = opts
    pend, rpend = [], []
    hist = []
    told = bad = 0
    for kind, v, which in case["steps"]:
        while len(pend) < case["workers"] and opt.num_ask < opt.budget:
            pend.append(opt.ask())
            rpend.append(ref.ask())
            a, b = pend[-1].get_standardized_data(reference=opt.parametrization), rpend[-1].get_standardized_data(reference=ref.parametrization)
            ensure(np.array_equal(a, b), lambda: f"after the losses {case['steps'][:told + bad]}, asked {a} and for the equal plain floats {b}")
        if not pend:
            break
        loss, plain = make_loss(kind, v)
        i = which % len(pend)
        if plain is None:
            before = (opt.num_ask, opt.num_tell, opt.num_tell_not_asked, archive_state(opt))
            if kind in ("vector", "matrix", "strlist") and not told:
                continue  # would be the first multiobjective loss
            try:
                opt.tell(pend[i], loss)
            except (TypeError, ValueError):
                pass
            else:
                ensure(False, f"loss {loss!r} was not rejected")
            ensure_eq((opt.num_ask, opt.num_tell, opt.num_tell_not_asked, archive_state(opt)), before, f"counters and archive after the rejected loss {loss!r}")
            ensure(pend[i].loss is None, f"a candidate got the loss {pend[i].loss} from the rejected {loss!r}")
            bad += 1
            continue
        cand, rcand = pend.pop(i), rpend.pop(i)
        opt.tell(cand, loss)
        ref.tell(rcand, plain)
        told += 1
        hist.append((cand, plain))
        ensure(isinstance(cand.loss, float), f"loss of the candidate: {cand.loss!r}")
        ensure_eq(cand.loss, plain, f"loss kept by the candidate told {loss!r}")
        ensure_eq((opt.num_tell, opt.num_tell_not_asked), (told, 0), "num_tell, num_tell_not_asked")
        ensure_eq(archive_state(opt), archive_state(ref), "archive, compared with the one of the equal plain floats")
    if not told:
        return
    ensure_eq(opt.num_objectives, 1, "num_objectives")
    a, b = opt.provide_recommendation(), ref.provide_recommendation()
    ensure(np.array_equal(a.get_standardized_data(reference=opt.parametrization), b.get_standardized_data(reference=ref.parametrization)), "recommendation compared with the one of plain floats")
    finite = [x for _, x in hist if x < 5e20]
    if finite:
        best = opt.current_bests["minimum"]
        ensure_eq(best.get_estimation("minimum"), min(finite), "best loss")
    rec.nontrivial(told >= 3 and len({k for k, _, _ in case["steps"]}) >= 2)
    rec.event("rejected losses", bad > 0)
    rec.event("non-sense losses", len(finite) < len(hist))


# ---------------------------------------------------------------------------
# a point with a finite loss is always preferred to one with a non-sense loss


@st.composite
def prefer_case(draw):
    n = draw(st.integers(2, 12))
    losses = draw(st.lists(st.sampled_from([math.nan, math.inf, 1e30, 5e20]), min_size=n, max_size=n))
    for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3)):
        losses[i] = draw(P.floats(-1e6, 1e6))
    return {"opt": draw(st.sampled_from(["OnePlusOne", "DiscreteOnePlusOne", "PSO", "RandomSearch", "DE", "NoisyDE", "cGA", "ES", "CMA", "OptimisticNoisyOnePlusOne", "SQP", "NelderMead", "ScrHaltonSearch", "Portfolio", "NGOpt"])),
            "shape": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 1000)), "losses": [("nan" if math.isnan(x) else "inf" if math.isinf(x) else x) for x in losses]}


RECOMMENDS_TOLD = {"OnePlusOne", "DiscreteOnePlusOne", "PSO", "RandomSearch", "ScrHaltonSearch", "ES"}


def run_prefer(case, rec: Recorder) -> None:
    import nevergrad as ng

    root = ng.p.Array(shape=(case["shape"],))
    root.random_state.seed(case["seed"])
    opt = ng.optimizers.registry[case["opt"]](root, budget=len(case["losses"]), num_workers=1)
    hist = {}
    for x in case["losses"]:
        cand = opt.ask()
        opt.tell(cand, float(x))
        key = cand.get_standardized_data(reference=root).tobytes()
        hist.setdefault(key, []).append(float(x))
    finite = [v for v in hist.values() if all(math.isfinite(x) and x < 5e20 for x in v)]
    if not finite:
        raise Skip
    for name in ("pessimistic", "average", "optimistic", "minimum"):
        best = hist[opt.current_bests[name].x.tobytes()]
        ensure(any(x < 5e20 for x in best), f"{name} best is the point of losses {best}, among {list(hist.values())}")
    reco = opt.provide_recommendation()
    ensure(np.all(np.isfinite(reco.value)), f"recommended {reco.value}")
    if case["opt"] in RECOMMENDS_TOLD:
        got = hist.get(reco.get_standardized_data(reference=root).tobytes())
        ensure(got is not None, "the recommendation was not told")
        ensure(any(x < 5e20 for x in got), f"recommended a point of losses {got}, among {list(hist.values())}")
    rec.nontrivial(len(hist) >= 2)


# ---------------------------------------------------------------------------
# multiobjective: invalid values are clipped as the ones of a single objective

INVALID = [float("inf"), float("nan"), 1e21, 5e20, 1e300]
MO_OPTS = ["OnePlusOne", "DE", "PSO", "CMA", "RandomSearch", "DiscreteOnePlusOne", "ES", "NGOpt", "LhsDE", "MixES", "TBPSA", "EDA", "Portfolio", "MetaModel", "SQP", "PymooNSGA2"]


@st.composite
def vector_case(draw):
    m = draw(st.integers(2, 3))
    n = draw(st.integers(3, 30))
    value = st.one_of(st.integers(-3, 3).map(float), st.integers(-3, 3).map(float), P.floats(-10, 10), st.sampled_from(["i0", "i1", "i2", "i3", "i4"]))
    return {
        "opt": draw(st.sampled_from(MO_OPTS)), "m": m, "seed": draw(P.seeds), "losses": draw(st.lists(st.lists(value, min_size=m, max_size=m), min_size=n, max_size=n)),
        "ref": draw(st.one_of(st.none(), st.lists(P.floats(-5, 8), min_size=m, max_size=m))),
    }


def run_vectors(case, rec: Recorder) -> None:
    import warnings

    import nevergrad as ng

    def run(clip):
        param = ng.p.Array(shape=(2,))
        param.random_state.seed(case["seed"])
        opt = ng.optimizers.registry[case["opt"]](param, budget=len(case["losses"]) + 1)
        opt.num_objectives = case["m"]
        if case["ref"] is not None:
            opt.tell(ng.p.MultiobjectiveReference(), case["ref"])
        out = []
        for loss in case["losses"]:
            cand = opt.ask()
            vals = [(5e20 if clip else INVALID[int(v[1])]) if isinstance(v, str) else v for v in loss]
            opt.tell(cand, vals)
            ensure_eq(cand.losses.tolist(), [5e20 if isinstance(v, str) else v for v in loss], "losses kept by the candidate")
            ensure(math.isfinite(cand.loss), f"loss derived from the losses: {cand.loss}")
            front = sorted(tuple(c.losses.tolist()) for c in opt.pareto_front())
            out.append((cand.value.tolist(), cand.loss, front))
        return out

    with O.limits(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first, second = run(False), run(True)
    for k, (a, b) in enumerate(zip(first, second)):
        ensure(a == b, lambda: f"step {k}: {a} instead of {b} with clipped losses")
    rec.nontrivial(sum(any(isinstance(v, str) for v in loss) for loss in case["losses"]) >= 2)


PROPS = [
    Prop("vectors", vector_case(), run_vectors, quick=500, rule="two tells with invalid losses", shards=4),
    Enum("registry", cases, run_registry, rule="budget of at least 3", shards=24, timeout=150, shrink=O.shrink_case),
    Prop("kinds", kinds_case(), run_kinds, quick=700, rule="three tells, and at least two kinds of losses", shards=8),
    Prop("prefer", prefer_case(), run_prefer, quick=500, rule="at least two distinct points", shards=4),
]
