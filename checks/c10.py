"""C10: helpers describe parametrizations faithfully"""
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P

UNIT = st.one_of(st.integers(1, 19).map(lambda x: x / 20), P.floats(0.02, 0.98))


# ---------------------------------------------------------------- independent walk


def walk(spec, param, name=""):
    """(name, parameter, spec) of all the sub-parameters, in the order of the standardized data"""
    k = spec["k"]
    out = [(name, param, spec)]
    pre = name + "." if name else ""
    if k in ("choice", "tchoice"):
        items = spec["items"]
        if isinstance(items, int):
            items = [{"k": "const", "v": i} for i in range(items)]
        out.append((pre + "choices", param.choices, None))
        for i, s in enumerate(items):
            out += walk(s, param.choices[i], f"{pre}choices.{i}")
        out.append((pre + "indices", param.indices, {"k": "indices", "of": spec}))
    elif k == "tuple":
        for i, s in enumerate(spec["items"]):
            out += walk(s, param[i], f"{pre}{i}")
    elif k == "dict":
        for key, s in sorted((t[0], t[1]) for t in spec["items"]):
            out += walk(s, param[key], f"{pre}{key}")
    elif k == "inst":
        for i, s in enumerate(spec["args"]):
            out += walk(s, param[0][i], f"{pre}{i}")
        for key, s in sorted((t[0], t[1]) for t in spec["kwargs"]):
            out += walk(s, param[1][key], f"{pre}{key}")
    return out


def data_specs(spec, param):
    return [t for t in walk(spec, param) if t[2] is not None and t[2]["k"] in ("scalar", "log", "array", "indices")]


def run_flatten(c, rec: Recorder) -> None:
    import nevergrad as ng

    root = P.build(c["spec"])
    root.random_state.seed(c["seed"])
    cur = root
    for o in c["ops"]:
        cur = P.apply_op(o, cur, root)
    for q in (root, cur):
        flat = [(n, x) for n, x in ng.p.helpers.flatten(q) if not n.endswith("transitions")]
        names = [n for n, _ in flat]
        exp = walk(c["spec"], q)
        ensure_eq(sorted(names), sorted(t[0] for t in exp), "names of the flattened parameters")
        d = dict(flat)
        for n, x, _ in exp:
            ensure(d[n] is x, f"flattened {n!r} is not the parameter found by walking the structure")
        # without the containers
        leaves = [(n, x) for n, x in ng.p.helpers.flatten(q, with_containers=False) if not n.endswith("transitions")]
        want = {n for n, _, s in exp if s is not None and s["k"] in ("scalar", "log", "array", "angles", "indices", "choice", "tchoice")}
        got = [n for n, _ in leaves]
        ensure_eq(sorted(got), sorted(want), "names of the flattened parameters without containers")
        # standardized data is the concatenation of the ones of the data parameters
        expd = [t[1] for t in exp if isinstance(t[1], ng.p.Data)]
        lst = ng.p.helpers.list_data(q)
        ensure([id(x) for x in lst] == [id(x) for x in expd], "list_data does not list the data parameters in order")
    if not P.any_node(c["spec"], lambda s: s["k"] == "tchoice" and not s["ordered"]):
        parts = [
            x.get_standardized_data(reference=y)
            for x, y in zip(ng.p.helpers.list_data(cur), ng.p.helpers.list_data(root))
        ]
        data = cur.get_standardized_data(reference=root)
        ensure_eq(data.size, root.dimension, "dimension")
        ensure(P.same_value(np.concatenate(parts) if parts else np.array([]), data), "standardized data is not the concatenation over list_data")
    # orders
    subs = {n for n, _ in ng.p.helpers.flatten(root, order=1)} - {n for n, _ in ng.p.helpers.flatten(root)}
    ensure(all("#" in n for n in subs), f"sub-parameters without # in their names: {subs}")
    ensure(not any("#" in n for n, _ in ng.p.helpers.flatten(root)), "sub-parameters extracted with order 0")
    for n, x, s in walk(c["spec"], root):
        if s is not None and s["k"] in ("scalar", "array", "log"):
            has = n + "#sigma" in subs
            ensure_eq(has, s["ms"], f"sigma of {n!r} flattened at order 1")
    rec.nontrivial(len(walk(c["spec"], root)) >= 4)


def run_analyze(c, rec: Recorder) -> None:
    import nevergrad as ng

    spec = c["spec"]
    root = P.build(spec)
    root.random_state.seed(c["seed"])
    q = root if c["child"] == 0 else root.sample() if c["child"] == 1 else root.copy()
    info = ng.p.helpers.analyze(q)
    stoch = P.is_stochastic(spec)
    det_int = P.any_node(spec, lambda s: bool(s.get("int")) or s["k"] == "tchoice" or (s["k"] == "choice" and s["det"]))
    ensure_eq(info.deterministic, not stoch, "deterministic")
    ensure_eq(info.continuous, not det_int, "continuous")
    if not P.any_node(spec, lambda s: s["k"] == "tchoice" and not s["ordered"]):
        ensure_eq(info.ordered, not P.has_kind(spec, "choice"), "ordered")
    ar = []

    def visit(s):
        if isinstance(s, dict):
            if s.get("k") in ("choice", "tchoice"):
                ar.append(s["items"] if isinstance(s["items"], int) else len(s["items"]))
            for v in s.values():
                visit(v)
        elif isinstance(s, list):
            for v in s:
                visit(v)

    visit(spec)
    ensure_eq(info.arity, max(ar, default=-1), "arity")
    # deterministic sampling
    fail = c["fail"]
    try:
        with ng.p.helpers.deterministic_sampling(q):
            inner = ng.p.helpers.analyze(q)
            ensure_eq(inner.deterministic, True, "deterministic within deterministic_sampling")
            values = [q.spawn_child().value for _ in range(3)]
            kids = [q.spawn_child() for _ in range(3)]
            z = P.cycle(c["data"], root.dimension)
            moved = [k.set_standardized_data(z, reference=root).value for k in kids]
            if fail:
                raise KeyError("failure in the context")
    except KeyError:
        pass
    for v in values:
        P.check_value(spec, v)
    ensure(all(P.same_value(values[0], v) for v in values[1:]), f"sampling in a deterministic context gives {values}")
    ensure(all(P.same_value(moved[0], v) for v in moved[1:]), f"sampling in a deterministic context gives {moved}")
    ensure_eq(ng.p.helpers.analyze(q), info, "deterministic_sampling does not restore the parameter")
    rec.nontrivial(P.has_kind(spec, "choice"))
    rec.event("exception in the context", fail)


def run_normalizer(c, rec: Recorder) -> None:
    import nevergrad as ng

    spec = c["spec"]
    root = P.build(spec)
    root.random_state.seed(c["seed"])
    dim = root.dimension
    norm = ng.p.helpers.Normalizer(root, only_sampling=c["only"])
    ensure(norm.working, "the normalizer could not find the data of the parametrization")
    x = P.cycle(c["x"], dim)
    x2 = np.array(x)
    z = norm.backward(x)
    ensure(np.array_equal(x, x2), "backward modifies its input")
    ensure_eq(z.shape, x.shape, "shape")
    back = norm.forward(z)
    ensure(np.allclose(back, x, atol=1e-6, rtol=0), f"forward(backward(x)) is {back} instead of {x}")
    z1 = np.array(z)
    norm.forward(z1)
    ensure(np.array_equal(z, z1), "forward modifies its input")
    ys = norm.forward(P.cycle(c["z"], dim))
    soft = P.any_node(spec, lambda s: (s.get("set") or {}).get("method") == "constraint")  # bounds which are not enforced
    ensure(soft or np.all((ys >= -1e-9) & (ys <= 1 + 1e-9)), f"forward leaves [0, 1]: {ys}")
    # meaning of the normalized values
    child = root.spawn_child().set_standardized_data(z, reference=root)
    pos = 0
    bounded = True
    for n, q, s in data_specs(spec, child):
        u = x[pos: pos + q.dimension]
        zz = z[pos: pos + q.dimension]
        pos += q.dimension
        if s["k"] == "indices":
            bounded &= s["of"]["k"] == "tchoice"
            continue
        u = u.reshape(q.value.shape if isinstance(q.value, np.ndarray) else ())
        lo, hi, hard = P.bounds_of(s)
        exp = s["k"] == "log" or "exponent" in s
        if lo is None or hi is None:
            bounded = False
            if not exp:
                ensure(np.allclose(zz, np.tan(np.pi * (u.ravel() - 0.5)), rtol=1e-6), f"{n}: {zz} for the normalized {u} in an unbounded space")
            continue
        if exp and s["k"] != "log":
            continue
        # bounds provided together with a value are only used for sampling if requested
        if "set" in s:
            sampling = s["set"].get("full_range_sampling", True)
        elif s["k"] == "array":
            sampling = None  # not specified
        else:
            sampling = "init" not in s
        if c["only"] and not sampling:  # not specified for arrays
            continue
        if s["k"] == "log":
            want = np.exp(np.log(lo) + u * (np.log(hi) - np.log(lo)))
        else:
            want = lo + u * (np.asarray(hi) - np.asarray(lo))
        val = q.value
        if s.get("int"):
            ensure(np.all(np.abs(val - want) <= 0.5 + 1e-6 * np.abs(want) + 1e-6), f"{n}: {val} for {want}")
        elif hard:
            ensure(np.allclose(val, want, rtol=1e-6, atol=1e-6 * np.max(np.abs(np.asarray(hi) - np.asarray(lo)))), f"{n}: {val} instead of {want}")
        rec.nontrivial()
    if not P.any_node(spec, lambda s: s["k"] in ("angles",) or (s.get("set") or {}).get("method") == "constraint" or "exponent" in s):
        ensure_eq(norm.fully_bounded, bounded, "fully_bounded")


CHOICES = st.lists(st.one_of(P.choice_spec(P.tree(1)), P.leaf()), min_size=1, max_size=3).map(lambda x: {"k": "tuple", "items": x})
SPECS = st.booleans().flatmap(lambda b: CHOICES if b else P.any_param())
# angles are post-processed arrays: their own data is not described by the walk
NOANG = SPECS.filter(lambda s: not P.has_kind(s, "angles"))
PROPS = [
    Prop("flatten", st.fixed_dictionaries({"spec": NOANG, "seed": P.seeds, "ops": st.lists(P.op, max_size=3)}).map(P.tame), run_flatten, 1000,
         rule="at least 4 sub-parameters", shards=8),
    Prop("analyze", st.fixed_dictionaries({"spec": SPECS, "seed": P.seeds, "child": st.integers(0, 2), "fail": st.booleans(),
                                           "data": st.lists(P.floats(-3, 3), min_size=1, max_size=4)}), run_analyze, 800,
         rule="holds a Choice", shards=8),
    Prop("normalizer", st.fixed_dictionaries({"spec": NOANG.filter(lambda s: P.dim_of(s) > 0), "seed": P.seeds, "only": st.booleans(),
                                              "x": st.lists(UNIT, min_size=1, max_size=6), "z": st.lists(P.floats(-5, 5), min_size=1, max_size=5)}),
         run_normalizer, 800, rule="at least one bounded parameter is compared with its range", shards=8),
]
