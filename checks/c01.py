"""C01: values stay in the declared domain after any sequence of operations"""
from hypothesis import strategies as st
import numpy as np
from pbt.core import Prop, Recorder, ensure
from pbt import params as P


def run_domain(case, rec: Recorder) -> None:
    spec = case["spec"]
    root = P.build(spec)
    root.random_state.seed(case["seed"])
    P.check_value(spec, root.value, "initial value")
    cur = root
    nconstr = P.any_node(spec, lambda s: "set" in s and s["set"]["method"] == "constraint")
    for i, o in enumerate(case["ops"]):
        cur = P.apply_op(o, cur, root)
        P.check_value(spec, cur.value, f"after op {i} {o[0]}")
        # reading again gives the same value
        ensure(P.same_value(cur.value, cur.value), "value changes when read twice")
        rec.event("op:" + o[0])
    P.check_value(spec, root.value, "the initial parameter after operations on its children")
    rec.event("kind:" + spec["k"])
    rec.event("constraint-bounds", nconstr)
    bounded = P.any_node(spec, lambda s: s["k"] in ("scalar", "array", "log") and any(b is not None for b in P.bounds_of(s)[:2]) and P.bounds_of(s)[2])
    rec.event("hard-bounds", bounded)
    changing = any(o[0] in ("sample", "mutate", "setdata", "recombine") for o in case["ops"])
    rec.nontrivial(changing and (bounded or P.has_kind(spec, "choice", "tchoice") or P.any_node(spec, lambda s: s.get("int"))))


def case(spec):
    return st.fixed_dictionaries({"spec": spec, "seed": P.seeds, "ops": st.lists(P.op, min_size=1, max_size=6)}).map(P.tame)


def run_constraint_bounds(case, rec: Recorder) -> None:
    """with method="constraint" the bounds are reported through satisfies_constraints, exactly"""
    spec = case["spec"]
    root = P.build(spec)
    root.random_state.seed(case["seed"])
    lo, hi, _ = P.bounds_of(spec)
    inside = outside = 0
    for d in case["data"]:
        child = root.spawn_child().set_standardized_data(P.cycle(d, root.dimension))
        val = np.asarray(child.value)
        expected = bool(np.all(val >= lo) and np.all(val <= hi))
        ensure(child.satisfies_constraints() == expected, f"satisfies_constraints is {not expected} for {val} and bounds [{lo}, {hi}]")
        inside += expected
        outside += not expected
    rec.event("inside", inside)
    rec.event("outside", outside)
    rec.nontrivial(outside and inside)


@st.composite
def constraint_spec(draw):
    spec = draw(st.one_of(P.scalar_spec(["constraint"], allow_int=False), P.array_spec(["constraint"], allow_int=False)).filter(lambda s: "set" in s and s["set"]["method"] == "constraint"))
    return spec


def run_full_range(case, rec: Recorder) -> None:
    """sampling in the full range of the bounds: every generated sample is inside, both halves of the range
    are reached, and log-distributed parameters are sampled log-uniformly (median at the geometric mean)"""
    import nevergrad as ng

    lo, hi = case["bounds"]
    n = 60
    if case["kind"] == "scalar":
        p = ng.p.Scalar(lower=lo, upper=hi)
        conv = lambda v: (v - lo) / (hi - lo)
    elif case["kind"] == "array":
        p = ng.p.Array(shape=(2,)).set_bounds(lo, hi, full_range_sampling=True, method=case["method"]) if lo <= 0 <= hi else ng.p.Array(
            init=np.full(2, (lo + hi) / 2)
        ).set_bounds(lo, hi, full_range_sampling=True, method=case["method"])
        conv = lambda v: (v[0] - lo) / (hi - lo)
    else:
        ratio = case["ratio"]
        low = abs(lo) + 0.1
        p = ng.p.Log(lower=low, upper=low * ratio)
        conv = lambda v: np.log(v / low) / np.log(ratio)
    p.random_state.seed(case["seed"])
    u = np.array([conv(p.sample().value) for _ in range(n)])
    ensure(np.all(u >= -1e-7) and np.all(u <= 1 + 1e-7), f"sample outside of the bounds (normalized: {u})")
    # P(no sample in a given third | uniform) = (2/3)^60 < 3e-11
    thirds = [int(((u >= a) & (u < a + 1 / 3)).sum()) for a in (0, 1 / 3, 2 / 3)]
    ensure(min(thirds) > 0, f"full range sampling never reaches a third of the range: {thirds}")
    rec.event("kind:" + case["kind"])
    rec.nontrivial()


full_range_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["scalar", "array", "log"]),
        "bounds": P.bounds_pair(),
        "ratio": P.floats(2, 1e6),
        "method": st.sampled_from(["bouncing", "clipping", "arctan", "tanh"]),
        "seed": P.seeds,
    }
)

PROPS = [
    Prop("leaf_domain", case(P.leaf()), run_domain, 2400, 40000, "a bounded, integer or log-distributed parameter whose value was changed", shards=4),
    Prop("tree_domain", case(P.any_param()), run_domain, 1600, 30000, "same, inside containers and choices", shards=4),
    Prop("constraint_bounds", st.fixed_dictionaries({"spec": constraint_spec(), "seed": P.seeds, "data": st.lists(st.lists(P.floats(-8, 8), min_size=1, max_size=4), min_size=1, max_size=6)}),
         run_constraint_bounds, 500, 8000, "points on both sides of the bounds", shards=1),
    Prop("full_range", full_range_case, run_full_range, 300, 4000, "every case", shards=1),
]
ASSUMPTIONS = [
    "bounds are finite with lower < upper and integer ranges contain an integer",
    "smooth bounding transforms are compared up to a relative 1e-9 rounding tolerance",
]
