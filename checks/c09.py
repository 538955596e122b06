"""C09: the random state of a parametrization fully determines its samples"""
import pickle
import random

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P

OPS = st.lists(P.op, min_size=1, max_size=10)


def noise(k):
    """perturbs every global random state"""
    np.random.seed(k % 2**32)
    random.seed(k)
    np.random.rand(k % 7)


def history(cur, root, ops, tag):
    out = []
    for i, o in enumerate(ops):
        if tag is not None:
            noise(tag + 17 * i)
        cur = P.apply_op(o, cur, root)
        out.append([o[0], cur.value, cur.get_standardized_data(reference=root), cur.generation])
    out.append(["end", root.sample().value, None, 0])
    return out


def compare(a, b, what):
    ensure_eq(len(a), len(b), what)
    for i, (x, y) in enumerate(zip(a, b)):
        for u, v in zip(x, y):
            ensure(P.same_value(u, v), f"{what}: step {i} ({x[0]}) gives {u!r} and {v!r}")


def seeded(c, how):
    root = P.build(c["spec"])
    if how == "inplace":
        root.random_state.seed(c["seed"])
    elif how == "assign":
        root.random_state = np.random.RandomState(c["seed"])
    elif how == "late":
        root.sample()  # the previous use of the parameter must not matter
        root.random_state = np.random.RandomState(c["seed"])
    return root


def run_replay(c, rec: Recorder) -> None:
    # indices of choices are drawn when they are first read, hence possibly before seeding: only start from a state
    # which does not depend on it
    noise(c["g1"])
    r1 = seeded(c, c["how1"])
    s1 = r1.sample()
    h1 = history(s1, r1, c["ops"], None)
    noise(c["g2"])
    r2 = seeded(c, c["how2"])
    s2 = r2.sample()
    h2 = history(s2, r2, c["ops"], c["g2"] + 1)
    ensure(P.same_value(s1.value, s2.value), f"first samples differ: {s1.value!r} != {s2.value!r}")
    compare(h1, h2, "same seed, other global state")
    rec.nontrivial(any(not P.same_value(h1[0][1], h[1]) for h in h1))
    rec.event("stochastic", P.is_stochastic(c["spec"]))
    rec.event("other way of seeding", c["how1"] != c["how2"])


def run_pickle(c, rec: Recorder) -> None:
    root = P.build(c["spec"])
    root.random_state.seed(c["seed"])
    cur = root
    for o in c["ops"][: c["cut"]]:
        cur = P.apply_op(o, cur, root)
    root2, cur2 = pickle.loads(pickle.dumps((root, cur)))
    h1 = history(cur, root, c["ops"][c["cut"]:], None)
    noise(c["g2"])
    h2 = history(cur2, root2, c["ops"][c["cut"]:], c["g2"])
    compare(h1, h2, "unpickled parameter")
    rec.nontrivial(len(c["ops"]) > c["cut"])


def run_shared(c, rec: Recorder) -> None:
    """all sub-parameters (also assigned ones) and children pull from the random state of the root"""
    import nevergrad as ng

    root = P.build(c["spec"])
    wrap = ng.p.Dict(u=root, v=ng.p.Scalar())
    if c["early"]:
        wrap.random_state.seed(3)
    new = P.build(c["spec2"])
    if c["own"]:
        new.random_state.seed(5)  # its own random state, before assignment
    wrap["w"] = new
    state = np.random.RandomState(c["seed"])
    if c["assign"]:
        wrap.random_state = state
    top = wrap.random_state
    ensure(not c["assign"] or top is state, "the random state which was set is not used")
    todo = [("root", wrap), ("child", wrap.spawn_child()), ("sample", wrap.sample())]
    count = 0
    for name, q in todo:
        for path, sub in ng.p.helpers.flatten(q, order=3):
            if isinstance(sub, ng.p.Constant):
                continue
            count += 1
            ensure(sub.random_state is top, f"{name}: sub-parameter {path!r} ({sub.name}) has another random state")
    # sampling a sub-parameter advances the random state of the root
    if P.dim_of(c["spec"]):
        before = str(top.get_state())
        wrap["u"].sample()
        ensure(before != str(top.get_state()), "sampling a sub-parameter does not use the random state of the root")
    rec.nontrivial(count > 9)


PROPS = [
    Prop("replay", st.fixed_dictionaries({
        "spec": P.any_param(), "seed": P.seeds, "g1": st.integers(0, 10**6), "g2": st.integers(0, 10**6), "ops": OPS,
        "how1": st.sampled_from(["inplace", "assign", "late"]), "how2": st.sampled_from(["inplace", "assign", "late"])}).map(P.tame),
        run_replay, 900, rule="the history changes the value", shards=8),
    Prop("pickle", st.fixed_dictionaries({
        "spec": P.any_param(), "seed": P.seeds, "g2": st.integers(0, 10**6), "ops": OPS, "cut": st.integers(0, 6)}).map(P.tame),
        run_pickle, 500, rule="operations after the pickling", shards=8),
    Prop("shared", st.fixed_dictionaries({
        "spec": P.any_param(), "spec2": P.any_param(), "seed": P.seeds, "early": st.booleans(), "own": st.booleans(), "assign": st.booleans()}),
        run_shared, 400, rule="at least three sub-parameters", shards=4),
]
