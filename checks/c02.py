"""C02: standardized data is a faithful coordinate system"""
import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P

data_list = st.lists(st.one_of(P.floats(-3, 3), P.nice), min_size=1, max_size=7)


def case_strategy(spec):
    return st.fixed_dictionaries(
        {"spec": spec, "seed": P.seeds, "refops": st.lists(P.op, max_size=2), "data": data_list, "self_ref": st.booleans(), "childops": st.lists(P.op, max_size=2)}
    ).map(lambda c: P.tame(dict(c, ops=c["refops"] + c["childops"])))


def _reference(case):
    root = P.build(case["spec"])
    root.random_state.seed(case["seed"])
    ref = root
    for o in case["refops"]:
        ref = P.apply_op(o, ref, root)
    return root, ref


def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= tol * np.maximum(1, np.abs(b)))))


def run_coordinates(case, rec: Recorder) -> None:
    spec = case["spec"]
    root, ref = _reference(case)
    dim = P.dim_of(spec)
    ensure_eq(root.dimension, dim, "dimension of the parametrization")
    ensure_eq(ref.dimension, dim, "dimension after operations")
    before = (ref.value, root.value)
    zero = ref.get_standardized_data(reference=ref)
    ensure(zero.shape == (dim,), f"shape {zero.shape} of the data, for dimension {dim}")
    # unordered transition choices are expressed with respect to a fixed reference
    unordered = P.any_node(spec, lambda s: s["k"] == "tchoice" and not s["ordered"])
    if not unordered:
        ensure(np.all(zero == 0), f"data with itself as reference should be zero, got {zero}")
    x = P.cycle(case["data"], dim)
    x0 = x.copy()
    child = ref.spawn_child()
    if not case["self_ref"]:  # another member of the family (with its own sigma, for instance)
        for o in case["childops"]:
            child = P.apply_op(o, child, root)
        rec.event("other member", bool(case["childops"]))
    child.set_standardized_data(x, reference=None if case["self_ref"] else ref)
    ensure(np.array_equal(x, x0), "the data provided by the user was modified")
    val = child.value
    d1 = child.get_standardized_data(reference=ref)
    ensure(d1.shape == (dim,), "shape")
    ensure(np.all(np.isfinite(d1)), f"non finite data {d1}")
    ensure(P.same_value(child.value, val), "the value changed when reading the data")
    ensure(np.array_equal(d1, child.get_standardized_data(reference=ref)), "the data is different when read twice")
    again = ref.spawn_child().set_standardized_data(d1, reference=ref)
    d2 = again.get_standardized_data(reference=ref)
    ensure(close(d2, d1), f"data {d1} becomes {d2}")
    if not P.is_stochastic(spec) and not P.any_node(spec, lambda s: s.get("int") or s["k"] == "choice"):
        # (with integer casting or a choice, a rounding error of the data can change the value)
        ensure(P.same_value(again.value, val, 1e-7, 1e-7), f"value {val} becomes {again.value}")
    elif not P.is_stochastic(spec):
        # same data, bit for bit, gives the same value
        b1 = ref.spawn_child().set_standardized_data(x, reference=ref)
        ensure(P.same_value(b1.value, val), f"value {val} becomes {b1.value} with the same data")
    if not P.any_node(spec, lambda s: s["k"] in ("tchoice", "angles") or any(b is not None for b in P.bounds_of(s)[:2])):
        ensure(close(d1, x, 1e-6), f"unbounded: data {x} becomes {d1}")
        rec.event("unbounded")
    # differences of data do not depend on the path: coordinates wrt. to the ref of another member
    ensure(P.same_value(ref.value, before[0]) and P.same_value(root.value, before[1]), "reference modified")
    # wrong dimension
    if dim > 1:
        for n in (dim + 1, dim - 1):
            if n > 1:
                try:
                    root.spawn_child().set_standardized_data(np.zeros(n), reference=root)
                except Exception:  # pylint: disable=broad-except
                    pass
                else:
                    ensure(False, f"data of size {n} accepted in dimension {dim}")
    rec.event("kind:" + spec["k"])
    rec.event("moved reference", bool(case["refops"]))
    rec.nontrivial(dim > 0 and np.any(x))


def run_concat(case, rec: Recorder) -> None:
    """data of a container is the concatenation of those of its content, in sorted order of the keys"""
    spec = case["spec"]
    root, ref = _reference(case)
    x = P.cycle(case["data"], P.dim_of(spec))
    child = ref.spawn_child().set_standardized_data(x, reference=ref)
    count = [0]

    def walk(s, c, r):
        full = c.get_standardized_data(reference=r)
        if s["k"] in ("tuple", "dict"):
            keyed = list(enumerate(s["items"])) if s["k"] == "tuple" else [tuple(t) for t in s["items"]]
            parts = []
            for key, sub in sorted(keyed, key=lambda t: t[0]):
                walk(sub, c[key], r[key])
                d = c[key].get_standardized_data(reference=r[key])
                ensure_eq(d.size, P.dim_of(sub), f"dimension of {key}")
                parts.append(d)
            if len(parts) > 1:
                count[0] += 1
            ensure(np.array_equal(np.concatenate(parts) if parts else np.array([]), full), f"data {full} is not the concatenation of {parts}")
            vals = c.value
            for key, _ in keyed:
                ensure(P.same_value(vals[key], c[key].value), f"value of {key}")
        elif s["k"] == "inst":
            a = {"k": "tuple", "items": s["args"]}
            k = {"k": "dict", "items": s["kwargs"]}
            walk(a, c[0], r[0])
            walk(k, c[1], r[1])
            da, dk = c[0].get_standardized_data(reference=r[0]), c[1].get_standardized_data(reference=r[1])
            ensure(np.array_equal(np.concatenate([da, dk]), full), "args then kwargs")
            ensure(P.same_value(c.args, c[0].value) and P.same_value(c.kwargs, c[1].value), "args/kwargs")
            ensure(P.same_value(c.value, (c.args, c.kwargs)), "value")
        elif s["k"] != "const":
            ensure_eq(full.size, P.dim_of(s), "dimension of a leaf")

    walk(spec, child, ref)
    rec.event("containers of several elements", count[0] > 0)
    rec.nontrivial(count[0] > 0)


@st.composite
def containers(draw):
    item = st.one_of(P.tree(1), P.const_values.map(lambda v: {"k": "const", "v": v}))
    kind = draw(st.sampled_from(["tuple", "dict", "inst"]))
    if kind == "tuple":
        return {"k": "tuple", "items": draw(st.lists(item, min_size=2, max_size=12))}
    items = draw(st.lists(st.tuples(st.sampled_from(P.KEYS), item), min_size=2, max_size=6, unique_by=lambda t: t[0]))
    if kind == "dict":
        return {"k": "dict", "items": [list(t) for t in items]}
    return {"k": "inst", "args": draw(st.lists(item, max_size=3)), "kwargs": [list(t) for t in items]}


PROPS = [
    Prop("coordinates", case_strategy(P.any_param()), run_coordinates, 2400, 40000, "dimension > 0 and a non-zero displacement", shards=5),
    Prop("concatenation", case_strategy(containers()), run_concat, 900, 15000, "a container with at least two elements", shards=3),
]
ASSUMPTIONS = ["data of moderate magnitude (|x| <= 10), round trips compared with relative tolerance 1e-7"]
