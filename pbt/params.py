"""Generation of parametrizations as plain data ("specs"), their construction with the public API, and an
independent description of what their values must look like."""
import math
import typing as tp

import numpy as np
from hypothesis import strategies as st

from .core import Violation, ensure

# ---------------------------------------------------------------- numbers


def floats(lo: float = -1e3, hi: float = 1e3, **kw: tp.Any) -> tp.Any:
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, **kw)


# "nice" decimals: many ties and boundary hits
nice = st.integers(-40, 40).map(lambda x: x / 4)
number = st.one_of(nice, floats(-100, 100))
seeds = st.integers(0, 2**32 - 1)


@st.composite
def bounds_pair(draw: tp.Any, minwidth: float = 0.01) -> tp.Any:
    lo = draw(number)
    width = draw(st.one_of(st.integers(1, 20).map(float), floats(minwidth, 200)))
    hi = lo + width
    return [lo, hi]


METHODS = ["bouncing", "clipping", "constraint", "arctan", "tanh", "gaussian"]
HARD_METHODS = ["bouncing", "clipping", "arctan", "tanh", "gaussian"]


@st.composite
def inside(draw: tp.Any, lo: float, hi: float, margin: float = 0.1) -> float:
    """a point of [lo, hi] at a relative distance of at least margin/2 of the borders"""
    t = draw(st.one_of(st.just(0.5), floats(0, 1)))
    t = margin / 2 + (1 - margin) * t
    return lo + t * (hi - lo)


def pick(*options: tp.Any) -> tp.Any:
    """like one_of, but nested alternatives keep their probability (one_of flattens them)"""
    return st.integers(0, len(options) - 1).flatmap(lambda i: options[i])


# ---------------------------------------------------------------- specs


@st.composite
def scalar_spec(draw: tp.Any, methods: tp.Sequence[str] = tuple(METHODS), allow_int: bool = True) -> tp.Any:
    spec: tp.Dict[str, tp.Any] = {"k": "scalar", "ms": draw(st.booleans())}
    mode = draw(st.sampled_from(["free", "ctor", "ctor_init", "half_lo", "half_hi", "set"]))
    integer = allow_int and draw(st.integers(0, 3)) == 0
    if mode == "free":
        spec["init"] = draw(st.one_of(st.none(), number))
    elif mode in ("ctor", "ctor_init"):
        lo, hi = draw(bounds_pair())
        if integer:
            lo, hi = float(math.floor(lo)), float(math.floor(lo) + max(1, math.ceil(hi - lo)))
        spec.update(lower=lo, upper=hi)
        if mode == "ctor_init":
            spec["init"] = draw(inside(lo, hi))
    elif mode == "half_lo":
        lo = draw(number)
        if integer:
            lo = float(math.floor(lo))
        spec.update(lower=lo, init=lo + draw(floats(0.01, 50)))
    elif mode == "half_hi":
        hi = draw(number)
        if integer:
            hi = float(math.floor(hi))
        spec.update(upper=hi, init=hi - draw(floats(0.01, 50)))
    else:
        lo, hi = draw(bounds_pair())
        if integer:
            lo, hi = float(math.floor(lo)), float(math.floor(lo) + max(1, math.ceil(hi - lo)))
        spec["init"] = draw(inside(lo, hi))
        spec["set"] = {"lower": lo, "upper": hi, "method": draw(st.sampled_from(list(methods)))}
        if draw(st.booleans()):
            spec["set"]["full_range_sampling"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        spec["sigma"] = draw(floats(0.05, 20))
    if integer:
        spec["int"] = True
    return spec


@st.composite
def log_spec(draw: tp.Any) -> tp.Any:
    spec: tp.Dict[str, tp.Any] = {"k": "log", "ms": draw(st.booleans())}
    lo = draw(floats(1e-3, 100))
    hi = lo * draw(floats(1.1, 1e4))
    mode = draw(st.sampled_from(["init", "bounds", "both", "half_lo", "half_hi"]))
    t = draw(floats(0.02, 0.98))
    mid = math.exp(math.log(lo) * (1 - t) + math.log(hi) * t)
    if mode in ("bounds", "both"):
        spec.update(lower=lo, upper=hi)
    if mode == "half_lo":
        spec["lower"] = lo
    if mode == "half_hi":
        spec["upper"] = hi
    if mode != "bounds":
        spec["init"] = mid
    if draw(st.booleans()) or mode in ("init", "half_lo", "half_hi"):
        spec["exponent"] = draw(floats(1.1, 10))
    if draw(st.integers(0, 4)) == 0:
        spec["int"] = True
        spec.update(lower=1.0, upper=float(draw(st.integers(3, 1000))))
        spec.pop("init", None)
    return spec


SHAPES = [[1], [2], [3], [5], [2, 2], [3, 1], [1, 3], [2, 1, 2]]


@st.composite
def array_spec(draw: tp.Any, methods: tp.Sequence[str] = tuple(METHODS), allow_int: bool = True) -> tp.Any:
    shape = draw(st.sampled_from(SHAPES))
    size = int(np.prod(shape))
    spec: tp.Dict[str, tp.Any] = {"k": "array", "shape": shape, "ms": draw(st.booleans())}
    integer = allow_int and draw(st.integers(0, 3)) == 0
    mode = draw(st.sampled_from(["shape", "init", "ctor", "ctor_init", "set", "set_array", "exp"]))
    if mode == "init":
        spec["init"] = draw(st.lists(number, min_size=size, max_size=size))
    elif mode in ("ctor", "ctor_init", "set"):
        lo, hi = draw(bounds_pair())
        if integer:
            lo, hi = float(math.floor(lo)), float(math.floor(lo) + max(1, math.ceil(hi - lo)))
        if mode != "ctor":
            spec["init"] = [draw(inside(lo, hi)) for _ in range(size)]
        if mode == "set":
            spec["set"] = {"lower": lo, "upper": hi, "method": draw(st.sampled_from(list(methods)))}
            if draw(st.booleans()):
                spec["set"]["full_range_sampling"] = draw(st.booleans())
        else:
            spec.update(lower=lo, upper=hi)
    elif mode == "set_array":
        pairs = [draw(bounds_pair()) for _ in range(size)]
        if integer:
            pairs = [[float(math.floor(a)), float(math.floor(a) + max(1, math.ceil(b - a)))] for a, b in pairs]
        spec["init"] = [draw(inside(a, b)) for a, b in pairs]
        spec["set"] = {
            "lower": [a for a, _ in pairs],
            "upper": [b for _, b in pairs],
            "method": draw(st.sampled_from([m for m in methods if m != "gaussian"])),
        }
    elif mode == "exp":
        spec["init"] = draw(st.lists(floats(0.1, 50), min_size=size, max_size=size))
        spec["exponent"] = draw(floats(1.1, 5))
        if draw(st.booleans()):
            spec["set"] = {"lower": 0.05, "upper": 100.0, "method": draw(st.sampled_from(["bouncing", "clipping", "arctan"]))}
        integer = False
    if draw(st.integers(0, 3)) == 0:
        spec["sigma"] = draw(floats(0.05, 20))
    if integer:
        spec["int"] = True
    return spec


@st.composite
def angle_spec(draw: tp.Any) -> tp.Any:
    size = draw(st.integers(1, 3))
    spec = {"k": "angles", "deg": draw(st.booleans()), "bound_method": draw(st.sampled_from([None, "clipping", "arctan"]))}
    lim = 180.0 if spec["deg"] else math.pi
    if draw(st.booleans()):
        spec["init"] = draw(st.lists(floats(-0.99, 0.99).map(lambda x: x * lim), min_size=size, max_size=size))
    else:
        spec["shape"] = [size]
    return spec


const_values = st.one_of(st.integers(-5, 5), st.text("abc", max_size=3), st.booleans(), nice, st.none())


def leaf(methods: tp.Sequence[str] = tuple(METHODS), allow_int: bool = True) -> tp.Any:
    return pick(scalar_spec(methods, allow_int), array_spec(methods, allow_int), log_spec())


@st.composite
def choice_spec(draw: tp.Any, children: tp.Any, kinds: tp.Sequence[str] = ("choice", "tchoice"), min_size: int = 2) -> tp.Any:
    if children is not None:
        # exponential options silently accept negative values as nan (known finding of C03), which makes them
        # shadow the following options when a value is set
        children = children.filter(lambda s: not any_node(s, lambda x: x["k"] == "log" or "exponent" in x))
    kind = draw(st.sampled_from(list(kinds)))
    n = draw(st.integers(min_size, 5))
    with_params = children is not None and draw(st.integers(0, 2)) == 0
    spec: tp.Dict[str, tp.Any] = {"k": kind}
    if with_params:
        spec["items"] = draw(st.lists(st.one_of(children, const_values.map(lambda v: {"k": "const", "v": v})), min_size=n, max_size=n))
    else:
        mode = draw(st.sampled_from(["int", "str", "mixed"]))
        if mode == "int":
            spec["items"] = n
        else:
            spec["items"] = [{"k": "const", "v": (f"o{i}" if mode == "str" else [f"o{i}", i, i + 0.5][i % 3])} for i in range(n)]
    rep = draw(st.sampled_from([None, None, 1, 2, 3]))
    spec["rep"] = rep
    if kind == "choice":
        spec["det"] = draw(st.booleans())
    else:
        spec["ordered"] = draw(st.booleans())
        tr = draw(st.sampled_from([[1.0, 1.0], [1.0, 1.0, 1.0], [0.5, 2.0], [3.0, 1.0, 0.2]]))
        spec["transitions"] = tr
    return spec


KEYS = ["a", "b", "z", "x1", "x10", "x2", "Y"]


def tree(max_depth: int = 2, methods: tp.Sequence[str] = tuple(METHODS), allow_int: bool = True, choices: bool = True, consts: bool = True,
         kinds: tp.Sequence[str] = ("choice", "tchoice")) -> tp.Any:
    base = leaf(methods, allow_int)
    level: tp.Any = base
    for _ in range(max_depth):
        prev = level
        opts = [base]
        if choices:
            opts.append(choice_spec(prev, kinds))
        item = pick(prev, prev, prev, const_values.map(lambda v: {"k": "const", "v": v})) if consts else prev
        opts.append(st.lists(item, min_size=1, max_size=3).map(lambda x: {"k": "tuple", "items": x}))
        opts.append(
            st.lists(st.tuples(st.sampled_from(KEYS), item), min_size=1, max_size=3, unique_by=lambda t: t[0]).map(
                lambda x: {"k": "dict", "items": [list(t) for t in x]}
            )
        )
        level = pick(*opts)
    return level


@st.composite
def inst_spec(draw: tp.Any, sub: tp.Any) -> tp.Any:
    args = draw(st.lists(sub, min_size=0, max_size=2))
    kwargs = draw(st.lists(st.tuples(st.sampled_from(KEYS), sub), min_size=0 if args else 1, max_size=3, unique_by=lambda t: t[0]))
    return {"k": "inst", "args": args, "kwargs": [list(t) for t in kwargs]}


def any_param(**kw: tp.Any) -> tp.Any:
    t = tree(**kw)
    return pick(t, t, inst_spec(t))


def has_kind(spec: tp.Any, *kinds: str) -> bool:
    if isinstance(spec, dict):
        return spec.get("k") in kinds or any(has_kind(v, *kinds) for v in spec.values())
    if isinstance(spec, list):
        return any(has_kind(v, *kinds) for v in spec)
    return False


def any_node(spec: tp.Any, pred: tp.Callable[[tp.Dict[str, tp.Any]], bool]) -> bool:
    if isinstance(spec, dict):
        return ("k" in spec and pred(spec)) or any(any_node(v, pred) for v in spec.values())
    if isinstance(spec, list):
        return any(any_node(v, pred) for v in spec)
    return False


def is_stochastic(spec: tp.Any) -> bool:
    """the value is drawn at random given the standardized data"""
    return any_node(spec, lambda s: s["k"] == "choice" and not s.get("det"))


# ---------------------------------------------------------------- construction


def build(spec: tp.Any) -> tp.Any:
    import nevergrad as ng

    k = spec["k"]
    if k == "const":
        return spec["v"]
    if k == "scalar":
        kw = {x: spec[x] for x in ("init", "lower", "upper") if spec.get(x) is not None}
        out = ng.p.Scalar(mutable_sigma=spec["ms"], **kw)
        if "set" in spec:
            out.set_bounds(**spec["set"])
        if "sigma" in spec:
            out.set_mutation(sigma=spec["sigma"])
        if spec.get("int"):
            out.set_integer_casting()
        return out
    if k == "log":
        kw = {x: spec[x] for x in ("init", "lower", "upper", "exponent") if spec.get(x) is not None}
        out = ng.p.Log(mutable_sigma=spec["ms"], **kw)
        if spec.get("int"):
            out.set_integer_casting()
        return out
    if k == "array":
        kw = {x: spec[x] for x in ("lower", "upper") if spec.get(x) is not None}
        if "init" in spec:
            kw["init"] = np.array(spec["init"], dtype=float).reshape(spec["shape"])
        else:
            kw["shape"] = tuple(spec["shape"])
        out = ng.p.Array(mutable_sigma=spec["ms"], **kw)
        if "exponent" in spec:
            out.set_mutation(exponent=spec["exponent"])
        if "set" in spec:
            s = dict(spec["set"])
            for b in ("lower", "upper"):
                if isinstance(s[b], list):
                    s[b] = np.array(s[b]).reshape(spec["shape"])
            out.set_bounds(**s)
        if "sigma" in spec:
            out.set_mutation(sigma=spec["sigma"])
        if spec.get("int"):
            out.set_integer_casting()
        return out
    if k == "angles":
        return ng.p.Angles(init=spec.get("init"), shape=spec.get("shape"), deg=spec["deg"], bound_method=spec["bound_method"])
    if k in ("choice", "tchoice"):
        items = spec["items"] if isinstance(spec["items"], int) else [build(s) for s in spec["items"]]
        if k == "choice":
            return ng.p.Choice(items, repetitions=spec["rep"], deterministic=spec["det"])
        return ng.p.TransitionChoice(items, repetitions=spec["rep"], ordered=spec["ordered"], transitions=tuple(spec["transitions"]))
    if k == "tuple":
        return ng.p.Tuple(*[build(s) for s in spec["items"]])
    if k == "dict":
        return ng.p.Dict(**{key: build(s) for key, s in spec["items"]})
    if k == "inst":
        return ng.p.Instrumentation(*[build(s) for s in spec["args"]], **{key: build(s) for key, s in spec["kwargs"]})
    raise ValueError(k)


# ---------------------------------------------------------------- independent description of valid values


def bounds_of(spec: tp.Any) -> tp.Tuple[tp.Any, tp.Any, bool]:
    """(lower, upper, hard): hard if the bounds are enforced (and not only checked as a constraint)"""
    if "set" in spec:
        s = spec["set"]
        lo, hi = s["lower"], s["upper"]
        if isinstance(lo, list):
            lo = np.array(lo).reshape(spec["shape"])
        if isinstance(hi, list):
            hi = np.array(hi).reshape(spec["shape"])
        return lo, hi, s["method"] != "constraint"
    return spec.get("lower"), spec.get("upper"), True


def _num_in(spec: tp.Any, val: np.ndarray, ctx: str) -> None:
    lo, hi, hard = bounds_of(spec)
    exponential = spec["k"] == "log" or "exponent" in spec
    if not exponential or (lo is not None and hi is not None):  # an unbounded exponential may overflow or underflow
        ensure(np.all(np.isfinite(val)), f"{ctx}: non finite value {val}")
    if spec["k"] == "log" and not spec.get("int"):
        both = lo is not None and hi is not None
        ensure(np.all(val > 0) if both else np.all(val >= 0), f"{ctx}: log-distributed value {val} is not positive")
    if not hard:
        return
    # transforms are floating point computations: tolerate rounding errors, relative to the magnitude of the bounds
    for b, sign in ((lo, 1), (hi, -1)):
        if b is None:
            continue
        scale = np.abs(b) + (0 if lo is None or hi is None else np.abs(np.asarray(hi) - np.asarray(lo)))
        tol = 0 if spec.get("int") else 1e-9 * scale
        ensure(
            np.all(sign * (val - b) >= -tol),
            lambda: f"{ctx}: value {val} outside of [{lo}, {hi}] for {spec}",
        )


def check_value(spec: tp.Any, value: tp.Any, ctx: str = "") -> None:
    """raises Violation if the value is not in the domain described by the spec"""
    k = spec["k"]
    if k == "const":
        ensure(type(value) is type(spec["v"]) and value == spec["v"], f"{ctx}: constant {spec['v']!r} became {value!r}")
    elif k in ("scalar", "log"):
        if spec.get("int"):
            ensure(isinstance(value, int) and not isinstance(value, bool), f"{ctx}: {value!r} should be an int")
        else:
            ensure(isinstance(value, float), f"{ctx}: {value!r} should be a float")
        _num_in(spec, np.asarray(value), ctx)
    elif k == "array":
        ensure(isinstance(value, np.ndarray), f"{ctx}: {value!r} should be an array")
        ensure(value.shape == tuple(spec["shape"]), f"{ctx}: shape {value.shape} != {spec['shape']}")
        kind = np.integer if spec.get("int") else np.floating
        ensure(np.issubdtype(value.dtype, kind), f"{ctx}: dtype {value.dtype}")
        _num_in(spec, value, ctx)
    elif k == "angles":
        lim = 180.0 if spec["deg"] else math.pi
        shape = tuple(spec["shape"]) if "shape" in spec else (len(spec["init"]),)
        ensure(value.shape == shape, f"{ctx}: shape {value.shape}")
        ensure(np.all(np.abs(value) <= lim * (1 + 1e-12)), f"{ctx}: angle {value} outside of +-{lim}")
    elif k in ("choice", "tchoice"):
        vals = [value] if spec["rep"] is None else value
        if spec["rep"] is not None:
            ensure(isinstance(value, tuple) and len(value) == spec["rep"], f"{ctx}: {value!r} should be a tuple of {spec['rep']}")
        items = spec["items"]
        if isinstance(items, int):
            items = [{"k": "const", "v": i} for i in range(items)]
        for v in vals:
            for it in items:
                try:
                    check_value(it, v)
                    break
                except Violation:
                    continue
                except Exception:  # pylint: disable=broad-except
                    continue
            else:
                raise Violation(f"{ctx}: {v!r} is not one of the options {items}")
    elif k == "tuple":
        ensure(isinstance(value, tuple) and len(value) == len(spec["items"]), f"{ctx}: {value!r}")
        for i, (s, v) in enumerate(zip(spec["items"], value)):
            check_value(s, v, f"{ctx}[{i}]")
    elif k == "dict":
        ensure(isinstance(value, dict) and set(value) == {t[0] for t in spec["items"]}, f"{ctx}: keys of {value!r}")
        for key, s in spec["items"]:
            check_value(s, value[key], f"{ctx}.{key}")
    elif k == "inst":
        ensure(isinstance(value, tuple) and len(value) == 2, f"{ctx}: {value!r}")
        args, kwargs = value
        ensure(isinstance(args, tuple) and len(args) == len(spec["args"]), f"{ctx}: args {args!r}")
        ensure(isinstance(kwargs, dict) and set(kwargs) == {t[0] for t in spec["kwargs"]}, f"{ctx}: kwargs {kwargs!r}")
        for i, (s, v) in enumerate(zip(spec["args"], args)):
            check_value(s, v, f"{ctx}args[{i}]")
        for key, s in spec["kwargs"]:
            check_value(s, kwargs[key], f"{ctx}{key}")
    else:
        raise ValueError(k)


def dim_of(spec: tp.Any) -> int:
    """dimension of the standardized space"""
    k = spec["k"]
    if k == "const":
        return 0
    if k in ("scalar", "log"):
        return 1
    if k == "array":
        return int(np.prod(spec["shape"]))
    if k == "angles":
        return 2 * (spec["shape"][0] if "shape" in spec else len(spec["init"]))
    if k in ("choice", "tchoice"):
        rep = spec["rep"] or 1
        n = spec["items"] if isinstance(spec["items"], int) else len(spec["items"])
        sub = 0 if isinstance(spec["items"], int) else sum(dim_of(s) for s in spec["items"])
        return sub + (rep * n if k == "choice" else rep)
    if k == "tuple":
        return sum(dim_of(s) for s in spec["items"])
    if k == "dict":
        return sum(dim_of(s) for _, s in spec["items"])
    if k == "inst":
        return sum(dim_of(s) for s in spec["args"]) + sum(dim_of(s) for _, s in spec["kwargs"])
    raise ValueError(k)


def same_value(a: tp.Any, b: tp.Any, rtol: float = 0.0, atol: float = 0.0) -> bool:
    """structural equality of values; numbers up to the tolerance"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape or (a_.dtype.kind in "fc") != (b_.dtype.kind in "fc"):
            return False
        return bool(np.all((a_ == b_) | (np.abs(a_ - b_) <= atol + rtol * np.abs(b_)) | (np.isnan(a_) & np.isnan(b_))))
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same_value(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_value(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) != isinstance(b, float):
            return False
        return a == b or abs(a - b) <= atol + rtol * abs(b) or (a != a and b != b)
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- operations on parameters

op = st.one_of(
    st.just(["sample"]),
    st.just(["mutate"]),
    st.just(["spawn"]),
    st.just(["copy"]),
    st.tuples(st.just("setdata"), st.lists(st.one_of(floats(-4, 4), floats(-1e6, 1e6), nice), min_size=1, max_size=6), st.booleans()).map(list),
    st.tuples(st.just("recombine"), st.integers(1, 2)).map(list),
    st.just(["setvalue"]),
    st.just(["read"]),
)


def tame(case: tp.Any) -> tp.Any:
    """limits the standardized data fed to parametrizations holding unbounded exponentials, which
    otherwise overflow the floating point range"""
    def unbounded(s: tp.Any) -> bool:
        if s["k"] not in ("log", "array", "scalar") or (s["k"] != "log" and "exponent" not in s):
            return False
        lo, hi, hard = bounds_of(s)
        return lo is None or hi is None or not hard

    if any_node(case["spec"], unbounded):
        for o in case["ops"]:
            if o[0] == "setdata":
                o[1] = [min(20.0, max(-20.0, x)) for x in o[1]]
    return case


def cycle(data: tp.Sequence[float], n: int) -> np.ndarray:
    return np.array([data[i % len(data)] for i in range(n)], dtype=float)


def apply_op(o: tp.Any, cur: tp.Any, root: tp.Any) -> tp.Any:
    """applies an operation to (a child of) cur and returns the new current parameter"""
    name = o[0]
    if name == "sample":
        return cur.sample()
    if name == "mutate":
        out = cur.spawn_child()
        out.mutate()
        return out
    if name == "spawn":
        return cur.spawn_child()
    if name == "copy":
        return cur.copy()
    if name == "setdata":
        out = cur.spawn_child()
        return out.set_standardized_data(cycle(o[1], root.dimension), reference=root if o[2] else None)
    if name == "recombine":
        out = cur.spawn_child()
        out.recombine(*[root.sample() for _ in range(o[1])])
        return out
    if name == "setvalue":
        other = cur.sample()
        out = cur.spawn_child()
        out.value = other.value
        return out
    if name == "read":
        cur.value  # pylint: disable=pointless-statement
        return cur
    raise ValueError(name)
