"""C12: equal values have equal value hashes and different values differ"""
import pickle

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, Skip, ensure, ensure_eq
from pbt import params as P


def canonical(spec, param):
    """exact description of the value: selected options and bits of the numbers"""
    k = spec["k"]
    if k == "const":
        return ["const"]
    if k in ("scalar", "log", "array", "angles"):
        v = np.asarray(param.value)
        return [str(x) if spec.get("int") else float(x).hex() for x in v.ravel()]
    if k in ("choice", "tchoice"):
        out = []
        items = spec["items"]
        for ind in param.indices.value:
            sub = None if isinstance(items, int) else canonical(items[ind], param.choices[int(ind)])
            out.append([int(ind), sub])
        return out
    if k == "tuple":
        return [canonical(s, param[i]) for i, s in enumerate(spec["items"])]
    if k == "dict":
        return {key: canonical(s, param[key]) for key, s in spec["items"]}
    return [[canonical(s, param[0][i]) for i, s in enumerate(spec["args"])], {key: canonical(s, param[1][key]) for key, s in spec["kwargs"]}]


def signed_zero(spec, *cans):
    return any("-0x0.0p+0" in str(c) for c in cans)


def leaves(spec, param):
    """numerical leaves which are part of the value"""
    k = spec["k"]
    if k in ("scalar", "log", "array"):
        return [(spec, param)]
    if k in ("choice", "tchoice"):
        if isinstance(spec["items"], int):
            return []
        return [x for ind in sorted({int(i) for i in param.indices.value}) for x in leaves(spec["items"][ind], param.choices[ind])]
    if k == "tuple":
        return [x for i, s in enumerate(spec["items"]) for x in leaves(s, param[i])]
    if k == "dict":
        return [x for key, s in spec["items"] for x in leaves(s, param[key])]
    if k == "inst":
        return [x for i, s in enumerate(spec["args"]) for x in leaves(s, param[0][i])] + [x for key, s in spec["kwargs"] for x in leaves(s, param[1][key])]
    return []


def hash_of(p):
    h = p.get_value_hash()
    hash(h)
    ensure(h == p.get_value_hash(), "two calls give different hashes")
    return h


def check_pair(spec, a, b, what):
    ca, cb = canonical(spec, a), canonical(spec, b)
    if signed_zero(spec, ca, cb):
        return None
    ha, hb = hash_of(a), hash_of(b)
    ensure((ca == cb) == (ha == hb), lambda: f"{what}: values {a.value!r} and {b.value!r} are {'equal' if ca == cb else 'different'} but their hashes {ha!r} and {hb!r} are not")
    if ca == cb:
        ensure_eq(hash(ha), hash(hb), "hash of the hashes")
        ensure(len({ha: 1, hb: 2}) == 1, "value hashes are not the same dictionary key")
    return ca == cb


def run_pairs(c, rec: Recorder) -> None:
    spec = c["spec"]
    root = P.build(spec)
    root.random_state.seed(c["seed"])
    pop = [root]
    for o in c["ops"]:
        pop.append(P.apply_op(o, pop[-1], root))
    cur = pop[-1]
    # the same history on an independent instance
    root2 = P.build(spec)
    root2.random_state.seed(c["seed"])
    cur2 = root2
    for o in c["ops"]:
        cur2 = P.apply_op(o, cur2, root2)
    pop.append(cur2)
    pop += [cur.copy(), cur.spawn_child(), pickle.loads(pickle.dumps(cur))]
    data = cur.get_standardized_data(reference=root)
    pop.append(root.spawn_child().set_standardized_data(data, reference=root))
    pop.append(root.copy().set_standardized_data(data, reference=root))
    pop[-1].value  # pylint: disable=pointless-statement
    res = [check_pair(spec, pop[i], pop[j], f"{i}, {j}") for i in range(len(pop)) for j in range(i)]
    # hash is not affected by anything but the value
    h = hash_of(cur)
    cur.value  # pylint: disable=pointless-statement
    cur.freeze()
    cur._meta["x"] = 3
    cur.heritage["y"] = 3
    cur.loss = 12.0
    cur.set_name("blublu")
    ensure_eq(hash_of(cur), h, "hash after freezing, naming...")
    rec.nontrivial(any(r is True for r in res) and any(r is False for r in res))


def run_leaf(c, rec: Recorder) -> None:
    """changing one leaf, even by one unit of the last place, changes the hash"""
    spec = c["spec"]
    root = P.build(spec)
    root.random_state.seed(c["seed"])
    cur = root.sample() if c["sample"] else root.spawn_child()
    other = cur.copy()
    lv = leaves(spec, other)
    if not lv:
        raise Skip
    s, leaf = lv[c["leaf"] % len(lv)]
    v = leaf.value
    lo, hi, _ = P.bounds_of(s)
    arr = np.array(v, dtype=float).reshape(-1)
    i = c["pos"] % arr.size
    if s.get("int"):
        arr[i] += 1 if c["up"] else -1
    else:
        arr[i] = arr[i] * (1 + c["eps"] * (1 if c["up"] else -1)) if arr[i] else c["eps"]
    for b, sign in ((lo, 1), (hi, -1)):
        if b is not None and np.any(sign * (arr - np.asarray(b).ravel()) < 0):
            raise Skip
    if s["k"] == "log" and arr[i] <= 0:
        raise Skip
    new = arr.reshape(np.shape(v))
    leaf.value = (new.astype(int) if s.get("int") else new) if s["k"] == "array" else (int(new) if s.get("int") else float(new))
    r = check_pair(spec, cur, other, "one leaf changed")
    leaf.value = v
    check_pair(spec, cur, other, "one leaf changed and restored")
    rec.nontrivial(r is False)


def run_option(c, rec: Recorder) -> None:
    """selecting another option changes the hash, non selected options do not matter"""
    import nevergrad as ng

    items = [P.build(s) for s in c["items"]]
    cls = {"choice": ng.p.Choice, "tchoice": ng.p.TransitionChoice}[c["kind"]]
    x = cls(items, repetitions=c["rep"])
    x.random_state.seed(c["seed"])
    spec = {"k": c["kind"], "items": c["items"]}
    n = len(items)
    sel = [k % n for k in c["sel"]][: c["rep"] or 1]
    sel += [0] * ((c["rep"] or 1) - len(sel))
    x.indices.value = np.array(sel)
    y = x.copy()
    y.indices.value = np.array(sel)  # the copy of a stochastic choice is drawn again
    hx = hash_of(x)
    others = [i for i in range(n) if i not in sel]
    for i in others:  # other options move
        s = y.choices[i]
        s.value = s.sample().value if c["items"][i]["k"] != "const" else s.value
    ensure_eq(hash_of(y), hx, "hash depends on options which are not selected")
    k = c["change"] % len(sel)
    sel2 = list(sel)
    sel2[k] = (sel[k] + 1) % n
    y.indices.value = np.array(sel2)
    ensure(hash_of(y) != hx, f"options {sel} and {sel2} have the same hash")
    check_pair(spec, x, y, "options")
    if len(sel) > 1 and sel != sel[::-1]:
        y.indices.value = np.array(sel[::-1])
        ensure(hash_of(y) != hx, f"options {sel} and {sel[::-1]} have the same hash")
    rec.nontrivial(len(others) > 0)


def run_const(c, rec: Recorder) -> None:
    import nevergrad as ng

    vals = [1, "a", b"x", 2.5, None, [1, 2], {"a": 1}, np.arange(3), True]
    v = vals[c["v"]]
    w = ng.p.Instrumentation(ng.p.Scalar(), v, z=v)
    h = hash_of(w)
    ensure_eq(h, hash_of(w.copy()), "hash of the copy")
    w[0][0].value = 3.5
    ensure(hash_of(w) != h, "hash did not change with the value")
    rec.nontrivial()


OPT = st.one_of(P.leaf(), P.const_values.map(lambda v: {"k": "const", "v": v}))
PROPS = [
    Prop("pairs", st.fixed_dictionaries({"spec": P.any_param(), "seed": P.seeds, "ops": st.lists(P.op, min_size=1, max_size=5)}).map(P.tame), run_pairs, 700,
         rule="pairs of equal and pairs of different values", shards=8),
    Prop("leaf", st.fixed_dictionaries({"spec": P.any_param(), "seed": P.seeds, "sample": st.booleans(), "leaf": st.integers(0, 9), "pos": st.integers(0, 9),
                                        "up": st.booleans(), "eps": st.sampled_from([1e-15, 1e-12, 1e-6, 1e-2])}), run_leaf, 900, rule="the value changed", shards=8),
    Prop("option", st.fixed_dictionaries({"items": st.lists(OPT, min_size=2, max_size=4), "kind": st.sampled_from(["choice", "tchoice"]), "rep": st.sampled_from([None, 1, 2, 3]),
                                          "seed": P.seeds, "sel": st.lists(st.integers(0, 9), min_size=1, max_size=3), "change": st.integers(0, 3)}), run_option, 400,
         rule="some options are not selected", shards=4),
    Prop("const", st.fixed_dictionaries({"v": st.integers(0, 8)}), run_const, 20),
]
