"""C03: value assignment round-trips, bad values are rejected"""
import math

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P


def _classes(spec):
    k = spec["k"]
    if k in ("scalar", "log"):
        return {"number"}
    if k in ("array", "angles"):
        return {"array"}
    if k == "const":
        v = spec["v"]
        return {"number"} if isinstance(v, (int, float)) else {type(v).__name__}
    if k in ("choice", "tchoice") and spec["rep"] is None:
        if isinstance(spec["items"], int):
            return {"number"}
        return set().union(*[_classes(s) for s in spec["items"]])
    return {"tuple"} if k != "dict" else {"dict"}


def _overlap(spec):
    if spec["k"] not in ("choice", "tchoice") or isinstance(spec["items"], int):
        return False
    params = [s for s in spec["items"] if s["k"] != "const"]
    if not params:
        consts = [s["v"] for s in spec["items"]]
        return any(a == b for i, a in enumerate(consts) for b in consts[:i])
    if spec["rep"] is not None and spec["rep"] > 1:
        return True
    seen = set()
    for s in spec["items"]:
        c = _classes(s)
        if c & seen:
            return True
        seen |= c
    return False


def ambiguous(spec):
    """a value is stored in the first option of a choice which accepts it (an integer-cast scalar accepts any float,
    False is equal to 0...), and with repetitions a choice holds only one value for each of its options"""
    return P.any_node(spec, _overlap)


TOL = 1e-7


def run_roundtrip(case, rec: Recorder) -> None:
    spec = case["spec"]
    root = P.build(spec)
    root.random_state.seed(case["seed"])
    source = root
    for o in case["ops"]:
        source = P.apply_op(o, source, root)
    target = root
    for o in case["tops"]:
        target = P.apply_op(o, target, root)
    value, root_val = source.value, root.value
    mode = case["mode"]
    if mode == "value":
        child = target.spawn_child()
        child.value = value
    elif mode == "new_value" and value is not None:  # None stands for no value there
        child = target.spawn_child(new_value=value)
    else:
        child = target.copy()
        child.value = value
    ensure(P.same_value(child.value, value, TOL, TOL), f"assigned {value} but got {child.value}")
    if not P.any_node(spec, lambda s: s["k"] in ("scalar", "array", "log", "angles") and not s.get("int")):
        ensure(P.same_value(child.value, value), f"assigned {value} but got {child.value}")
        rec.event("exact")
    ensure(P.same_value(child.value, child.value), "different value if read twice")
    args, kwargs = child.args, child.kwargs
    if spec["k"] == "inst":
        ensure(P.same_value((args, kwargs), child.value), "args and kwargs of an instrumentation")
    else:
        ensure(kwargs == {} and len(args) == 1 and P.same_value(args[0], child.value), "args and kwargs")
    # again, from the value which was read: exact fix point up to rounding
    again = root.spawn_child()
    again.value = child.value
    ensure(P.same_value(again.value, value, TOL, TOL), "assigning twice")
    # a child without modification keeps the value
    grand = child.spawn_child()
    if not P.is_stochastic(spec):
        ensure(P.same_value(grand.value, child.value), f"child of {child.value} is {grand.value}")
    else:
        # weights of an assigned option are set such that it is drawn most of the time, not always
        rec.event("stochastic")
    ensure(P.same_value(source.value, value), "assignment to another parameter changed the source")
    if root is not target:
        ensure(P.same_value(root.value, root_val), "assignment changed the root")
    rec.event("kind:" + spec["k"])
    rec.nontrivial(not P.same_value(value, root_val))


@st.composite
def edge_leaf(draw):
    """a bounded leaf and a value of its domain, preferably special: bounds, large integers, single element types"""
    kind = draw(st.sampled_from(["int", "float", "log", "angles"]))
    if kind == "int":
        mag = draw(st.sampled_from([10, 1000, 2**14, 2**16, 10**6, 2**31, 10**12]))
        lo = draw(st.integers(-mag, mag))
        hi = lo + draw(st.integers(1, mag))
        frac = draw(st.sampled_from([0.0, 0.0, 0.25, 0.5]))
        v = draw(st.one_of(st.sampled_from([lo, hi]), st.integers(lo, hi)))
        return {"kind": kind, "lower": lo - frac, "upper": hi + frac, "value": v, "array": draw(st.booleans()), "method": draw(st.sampled_from(["bouncing", "clipping"]))}
    if kind == "float":
        lo, hi = draw(P.bounds_pair())
        v = draw(st.one_of(st.sampled_from([lo, hi, (lo + hi) / 2]), P.floats(0, 1).map(lambda t: min(hi, max(lo, lo + t * (hi - lo))))))
        return {"kind": kind, "lower": lo, "upper": hi, "value": v, "array": draw(st.booleans()), "method": draw(st.sampled_from(P.HARD_METHODS))}
    if kind == "log":
        lo = draw(P.floats(1e-6, 1e3))
        hi = lo * draw(P.floats(1.1, 1e6))
        v = draw(st.one_of(st.sampled_from([lo, hi]), P.floats(0, 1).map(lambda t: min(hi, max(lo, lo * (hi / lo) ** t)))))
        return {"kind": kind, "lower": lo, "upper": hi, "value": v, "array": False, "method": ""}
    deg = draw(st.booleans())
    lim = 180 if deg else math.pi
    return {"kind": kind, "deg": deg, "value": draw(P.floats(-1, 1).map(lambda t: t * lim)), "array": True}


def run_edges(case, rec: Recorder) -> None:
    import nevergrad as ng

    c = case
    if c["kind"] == "angles":
        p = ng.p.Angles(shape=(2,), deg=c["deg"])
        p.value = np.array([c["value"], 0.0])
        ensure(P.same_value(p.value, np.array([c["value"], 0.0]), 1e-9, 1e-9), f"assigned {c['value']} got {p.value}")
        rec.nontrivial()
        return
    lo, hi, v = c["lower"], c["upper"], c["value"]
    span = hi - lo
    if c["kind"] == "log":
        p = ng.p.Log(lower=lo, upper=hi)
    elif c["array"]:
        p = ng.p.Array(init=np.full(2, lo + 0.5 * span)).set_bounds(lo, hi, method=c["method"])
    else:
        p = ng.p.Scalar(init=lo + 0.5 * span).set_bounds(lo, hi, method=c["method"])
    if c["kind"] == "int":
        p.set_integer_casting()
    x = np.array([v, v]) if c["array"] else v
    p.value = x
    got = np.asarray(p.value)
    if c["kind"] == "int":
        ensure(np.all(got == v), f"assigned {v} but got {got}")
        ensure(got.dtype.kind == "i", f"type {got.dtype}")
        # the standardized data keeps pointing to it
        q = p.spawn_child()
        ensure(np.all(np.asarray(q.value) == v), f"child of {v} is {q.value}")
    else:
        # gaussian: saturates 1e-9 away from the bounds
        tol = 1e-9 * abs(v) + 3e-9 * span if c["kind"] != "log" else 1e-9 * abs(v)
        ensure(np.all(np.abs(got - v) <= tol), f"assigned {v} but got {got}")
    ensure(np.all(np.isfinite(p.get_standardized_data(reference=p.copy()))), "non finite data")
    # values beyond the bounds are refused, and the value is unchanged
    for sign, b in ((1, hi), (-1, lo)):
        bad = b + sign * (0.01 * span + (1.0 if c["kind"] == "int" else 0.0))
        if c["kind"] == "log" and bad <= 0:
            continue
        try:
            p.value = np.array([v, bad]) if c["array"] else float(bad)
        except (ValueError, RuntimeError, TypeError):
            ensure(np.array_equal(np.asarray(p.value), got), f"value changed by a rejected assignment: {got} to {p.value}")
        else:
            ensure(False, f"{bad} was accepted with bounds [{lo}, {hi}]")
    rec.event("kind:" + c["kind"])
    rec.event("value at a bound", v in (lo, hi))
    rec.event("large", abs(v) > 2**14)
    rec.nontrivial()


BAD = ["str", "none", "shape", "list", "missing", "extra", "short", "long", "nooption", "const"]


def bad_value(spec, value, kind):
    """a malformed version of the value, or None if the kind of error does not apply"""
    k = spec["k"]
    if k in ("scalar", "log"):
        return {"str": ["ab"], "none": [None], "shape": [np.zeros(2)], "list": [[1.0]]}.get(kind)
    if k in ("array", "angles"):
        shape = np.shape(value)
        return {
            "str": ["ab"], "none": [None], "list": [1.0],
            "shape": [np.resize(np.asarray(value, dtype=float), (shape[0] + 1,) + shape[1:])],
            "long": [np.asarray(value, dtype=float)[None, None, ..., None]],
        }.get(kind)
    if k == "tuple":
        return {"none": [None], "str": [12], "short": [value[:-1]], "long": [value + (1,)], "missing": [dict(enumerate(value))] if False else None}.get(kind)
    if k == "dict":
        key = sorted(value)[0]
        return {
            "none": [None], "list": [list(value.items())], "str": ["ab"],
            "missing": [{x: y for x, y in value.items() if x != key}],
            "extra": [dict(value, unknown=1)],
        }.get(kind)
    if k == "inst":
        args, kwargs = value
        return {
            "none": [None], "short": [(args + (1,), kwargs)], "extra": [(args, dict(kwargs, unknown=1))],
            "missing": [(args, {x: kwargs[x] for x in sorted(kwargs)[1:]})] if kwargs else None,
        }.get(kind)
    if k in ("choice", "tchoice"):
        bad = "not an option"
        if spec["rep"] is None:
            return [bad] if kind == "nooption" else None
        return {"nooption": [value[:-1] + (bad,)], "none": [None]}.get(kind)
    if k == "const":
        return [("other", spec["v"])] if kind == "const" else None
    return None


def run_malformed(case, rec: Recorder) -> None:
    spec = case["spec"]
    root = P.build(spec)
    root.random_state.seed(case["seed"])
    cur = root.sample()
    value = cur.value
    # position of the error: the whole value or one of its elements
    path, s, v = [], spec, value
    for turn in case["path"]:
        if s["k"] == "tuple":
            i = turn % len(s["items"])
            path.append(i)
            s, v = s["items"][i], v[i]
        elif s["k"] == "dict":
            key, sub = s["items"][turn % len(s["items"])]
            path.append(key)
            s, v = sub, v[key]
        elif s["k"] == "inst":
            sub = [((0, i), x) for i, x in enumerate(s["args"])] + [((1, key), x) for key, x in s["kwargs"]]
            (a, key), x = sub[turn % len(sub)]
            path += [a, key]
            s, v = x, v[a][key]
    bad = bad_value(s, v, case["kind"])
    rec.event("applies", bad is not None)
    if bad is None:
        return

    def rebuild(val, keys):
        if not keys:
            return bad[0]
        if isinstance(val, tuple):
            return tuple(rebuild(x, keys[1:]) if i == keys[0] else x for i, x in enumerate(val))
        return {x: rebuild(y, keys[1:]) if x == keys[0] else y for x, y in val.items()}

    wrong = rebuild(value, path)
    child = cur.spawn_child()
    rootval = root.value
    try:
        child.value = wrong
    except Exception:  # pylint: disable=broad-except
        pass
    else:
        ensure(False, f"value {wrong} was accepted by {root.name}, giving {child.value}")
    # still usable, and nothing else moved
    P.check_value(spec, child.value, "after a rejected assignment")
    ensure(P.same_value(cur.value, value), "the parent changed")
    ensure(P.same_value(root.value, rootval), "the root changed")
    child.value = value
    ensure(P.same_value(child.value, value, TOL, TOL), "a valid value after a rejected one")
    rec.event("error:" + case["kind"] + " in " + s["k"])
    rec.nontrivial()


def run_exponential(case, rec: Recorder) -> None:
    """whatever number is assigned to an exponential parameter, it is either refused or read back"""
    spec = case["spec"]
    p = P.build(spec)
    v = case["value"]
    if spec["k"] == "array":
        x = np.array(P.cycle([abs(v) + 0.1, v], P.dim_of(spec))).reshape(spec["shape"]) if case["mixed"] else np.full(spec["shape"], v)
    else:
        x = v
    neg = bool(np.any(np.asarray(x) < 0))
    bounded = any(b is not None for b in P.bounds_of(spec)[:2])
    if neg and "C03-log-negative" in rec.listed:
        rec.known_finding("C03-log-negative")
        return
    try:
        p.value = x
    except (ValueError, TypeError, RuntimeError):
        rec.event("refused")
        ensure(neg or bounded or np.any(np.asarray(x) == 0), f"positive value {x} refused by an unbounded parameter")
    else:
        got = p.value
        if spec.get("int"):
            return
        ensure(np.all(np.abs(np.asarray(got) - x) <= 1e-9 * np.abs(x)), f"assigned {x} but got {got}")
        rec.event("accepted")
    rec.nontrivial()


PROPS = [
    Prop("exponential", st.fixed_dictionaries({"spec": st.one_of(P.log_spec(), P.array_spec().filter(lambda s: "exponent" in s)), "value": P.number, "mixed": st.booleans()}),
         run_exponential, 300, 5000, "an unlisted case", shards=1),
    Prop("roundtrip", st.fixed_dictionaries({"spec": P.any_param().filter(lambda s: not ambiguous(s)), "seed": P.seeds,
                                             "ops": st.lists(P.op, min_size=1, max_size=3), "tops": st.lists(P.op, max_size=2),
                                             "mode": st.sampled_from(["value", "new_value", "copy"])}).map(lambda c: dict(P.tame(c), tops=P.tame({"spec": c["spec"], "ops": c["tops"]})["ops"])),
         run_roundtrip, 1800, 30000, "the assigned value differs from the initial one", shards=4),
    Prop("edges", edge_leaf(), run_edges, 900, 15000, "every case", shards=1),
    Prop("malformed", st.fixed_dictionaries({"spec": P.any_param().filter(lambda s: not ambiguous(s)), "seed": P.seeds, "kind": st.sampled_from(BAD), "path": st.lists(st.integers(0, 5), max_size=3)}),
         run_malformed, 1800, 30000, "a malformed value was built", shards=3),
]
ASSUMPTIONS = [
    "choices whose options accept the same values (two numbers of which one at least is a parameter, equal constants, repetitions of parameters) are excluded: the value is stored in the first suitable option",
    "real values are compared up to a relative rounding error of 1e-7 (1e-9 of the range at the bounds of leaves)",
]
