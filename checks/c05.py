"""C05: parameter arithmetic and data layers compute what numpy computes"""
import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, Skip, ensure, ensure_eq
from pbt import params as P

pos = st.one_of(st.sampled_from([0.5, 1.0, 2.0, 3.0, 10.0]), P.floats(0.2, 8))
signed = st.tuples(pos, st.sampled_from([-1.0, 1.0])).map(lambda t: t[0] * t[1])
const = st.one_of(signed, st.lists(signed, min_size=6, max_size=6))  # scalar, or one value per element
OP = st.one_of(
    st.tuples(st.sampled_from(["add", "radd", "sub", "mul", "rmul", "div"]), const),
    st.tuples(st.just("neg"), st.none()),
    st.tuples(st.just("rpow"), st.one_of(P.floats(1.1, 3), P.floats(0.3, 0.9))),
    st.tuples(st.just("pow"), st.sampled_from([2, 3, 0.5, -1, -2, 1.5])),
    st.tuples(st.just("rdiv"), signed),
    st.tuples(st.just("mod"), pos),
    st.tuples(st.just("bounds"), st.tuples(st.sampled_from(P.HARD_METHODS + ["half_lo", "half_hi"]), P.floats(0.2, 5), P.floats(0.2, 5)).map(list)),
).map(list)
CASE = st.fixed_dictionaries(
    {
        "scalar": st.booleans(),
        "init": st.lists(P.floats(-3, 3), min_size=6, max_size=6),
        "sigma": st.sampled_from([1.0, 1.0, 0.3, 2.5]),
        "ops": st.lists(OP, min_size=1, max_size=5),
        "int": st.sampled_from([False, False, "method", "op"]),
        "data": st.lists(st.lists(P.floats(-3, 3), min_size=6, max_size=6), min_size=1, max_size=3),
    }
)
LIM = 1e6


def run_chain(case, rec: Recorder) -> None:
    import nevergrad as ng
    from scipy import stats

    n = 1 if case["scalar"] else 6
    init = np.array(case["init"][:n])
    base = ng.p.Scalar(init=float(init[0])) if case["scalar"] else ng.p.Array(init=init)
    base.random_state.seed(12)
    base.set_mutation(sigma=case["sigma"])
    p = base
    deep0 = init.copy()
    steps = []  # (forward, backward)
    positive = False
    bounded = modulo = False

    def fwd(x):
        for f, _ in steps:
            x = f(x)
            if not np.all(np.isfinite(x)) or np.any(np.abs(x) > LIM):
                raise Skip
        return x

    done = []
    for name, c in case["ops"]:
        nonlinear = any(o[0] in ("rpow", "pow", "rdiv") for o in done)
        done.append([name])
        if isinstance(c, list) and name != "bounds":
            c = np.array(c) if n > 1 else c[0]
        cc = c
        cur = fwd(deep0)
        if name in ("add", "radd"):
            p = p + c if name == "add" else (c + p if not isinstance(c, np.ndarray) else p + c)
            steps.append((lambda x, c=cc: x + c, lambda y, c=cc: y - c))
        elif name == "sub":
            p = p - c
            steps.append((lambda x, c=cc: x - c, lambda y, c=cc: y + c))
        elif name in ("mul", "rmul"):
            p = p * c if name == "mul" or isinstance(c, np.ndarray) else c * p
            steps.append((lambda x, c=cc: x * c, lambda y, c=cc: y / c))
        elif name == "div":
            p = p / c
            steps.append((lambda x, c=cc: x / c, lambda y, c=cc: y * c))
        elif name == "neg":
            p = -p
            steps.append((lambda x: -x, lambda y: -y))
        elif name == "rpow":
            p = c**p
            steps.append((lambda x, c=cc: c**x, lambda y, c=cc: np.log(y) / np.log(c)))
        elif name == "pow":
            if not positive:
                continue
            p = p**c
            steps.append((lambda x, c=cc: x**c, lambda y, c=cc: y ** (1 / c)))
        elif name == "rdiv":
            if not positive:
                continue
            p = c / p
            steps.append((lambda x, c=cc: c / x, lambda y, c=cc: c / y))
        elif name == "mod":
            if modulo:
                continue
            modulo = True
            p = p % c
            steps.append((lambda x, c=cc: x % c, None))
        elif name == "bounds":
            method, a, b = c
            if bounded or modulo or nonlinear:
                continue  # (bounds spanning values that the previous layers cannot reach are not supported)
            bounded = True
            lo, hi = cur.min() - a, cur.max() + b
            before = p
            p = p.copy()
            if method == "half_lo":
                p.set_bounds(lower=lo, method="clipping")
                hi = np.inf
            elif method == "half_hi":
                p.set_bounds(upper=hi, method="clipping")
                lo = -np.inf
            else:
                p.set_bounds(lo, hi, method=method)
            ensure(P.same_value(np.asarray(before.value), np.asarray(p.value), 1e-8, 1e-8), f"set_bounds changed the value {before.value} to {p.value}")
            m, h = (lo + hi) / 2, (hi - lo) / 2
            if method in ("clipping", "half_lo", "half_hi"):
                steps.append((lambda x, lo=lo, hi=hi: np.clip(x, lo, hi), lambda y: y))
            elif method == "bouncing":
                def bounce(x, lo=lo, hi=hi):
                    out = np.clip(x, lo, hi)
                    return np.clip(2 * out - x, lo, hi)
                steps.append((bounce, lambda y: y))
            elif method == "arctan":
                steps.append((lambda x, m=m, h=h: m + h * np.arctan(x) * 2 / np.pi, lambda y, m=m, h=h: np.tan((y - m) / h * np.pi / 2)))
            elif method == "tanh":
                steps.append((lambda x, m=m, h=h: m + h * np.tanh(x), lambda y, m=m, h=h: np.arctanh((y - m) / h)))
            else:
                steps.append((lambda x, lo=lo, hi=hi: lo + (hi - lo) * stats.norm.cdf(x), lambda y, lo=lo, hi=hi: stats.norm.ppf((y - lo) / (hi - lo))))
            # the current value is kept: position of the initial data
            x = cur
            for _, g in reversed(steps):
                x = g(x)
            deep0 = x
            if not np.all(np.isfinite(deep0)) or np.any(np.abs(deep0) > 1e4):
                raise Skip
            positive = lo > 0
            rec.event("bounds:" + method)
        # positivity (sufficient condition) for power operations
        cmin = np.min(c) if isinstance(c, (float, int, np.ndarray)) and name not in ("rpow", "pow", "mod") else None
        if name == "rpow":
            positive = True
        elif name in ("add", "radd", "mul", "rmul", "div"):
            positive = positive and cmin > 0
        elif name == "sub":
            positive = positive and np.max(c) < 0
        elif name in ("neg", "mod"):
            positive = False
        elif name == "rdiv":
            positive = positive and c > 0
        rec.event("op:" + name)
    integer = case["int"]
    if integer == "method":
        p = p.copy()
        p.set_integer_casting()
    elif integer == "op":
        p = ng.ops.Int()(p)
    base_val = base.value

    def check(param, deep, what):
        v = fwd(deep)
        got = np.asarray(param.value)
        scale = np.maximum(1, np.abs(v))
        if integer:
            # away from rounding ties and from the wrap of the modulo
            ok = np.abs(v - np.floor(v) - 0.5) > 1e-6
            ensure(got.dtype.kind == "i", f"type {got.dtype}")
            exp = np.round(v)
            # rounding does not reach beyond the bounds: at most one away, towards the inside
            if bounded or modulo:
                good = np.abs(got - v) < 1 + 1e-6
            else:
                good = got == exp
            ensure(np.all(good | ~ok), f"{what}: expected {exp} (from {v}) but got {got}")
            return
        if modulo:
            dist = np.inf
            x = deep
            for f, g in steps:
                if g is None:
                    mod = [c for nm, c in case["ops"] if nm == "mod"][0]
                    dist = np.min(np.minimum(f(x), mod - f(x)))
                x = f(x)
            if dist < 1e-6:
                return
        ensure(np.all(np.abs(got - v) <= 1e-7 * scale), f"{what}: expected {v} but got {got}")

    check(p, deep0, "initial value")
    vals = []
    for d in case["data"]:
        x = np.array(d[:n])
        child = p.spawn_child().set_standardized_data(x, reference=p)
        check(child, deep0 + case["sigma"] * x, f"value for data {x}")
        vals.append(child.value)
    # the initial parameter is independent
    ensure(np.array_equal(np.asarray(base.value), np.asarray(base_val)) and np.allclose(np.asarray(base.value), init), "the initial parameter was modified")
    ensure(all(b is None for b in base.bounds) and not base.integer, "bounds or casting leaked to the initial parameter")
    # assignment of a value that was produced
    if not modulo and not (integer and (bounded or any(o[0] in ("rpow", "pow", "rdiv") for o in done))):
        for v in vals:
            child = p.spawn_child()
            child.value = v
            got, exp = np.asarray(child.value), np.asarray(v)
            if integer:
                ensure(np.array_equal(got, exp), f"assigned {v} but got {got}")
            else:
                ensure(np.all(np.abs(got - exp) <= 1e-5 * np.maximum(1, np.abs(exp))), f"assigned {v} but got {got}")
    rec.event("integer", bool(integer))
    rec.event("scalar", case["scalar"])
    rec.nontrivial(len(steps) >= 2)


def run_stochastic_int(case, rec: Recorder) -> None:
    """stochastic integer casting gives one of the two surrounding integers, never moves the data, and keeps its value until modified"""
    import nevergrad as ng

    init = np.array(case["init"])
    p = ng.ops.Int(deterministic=False)(ng.p.Array(init=init))
    p.random_state.seed(case["seed"])
    x = np.array(case["data"])
    child = p.spawn_child().set_standardized_data(x, reference=p)
    d = child.get_standardized_data(reference=p)
    ensure(np.allclose(d, x, atol=1e-9), f"data {x} became {d}")
    real = init + x
    ups = np.zeros(init.size)
    for _ in range(40):
        v = child.value
        ensure(v.dtype.kind == "i", "type")
        ensure(np.array_equal(v, child.value), "the value changes when read twice")
        ensure(np.all((v - real < 1 + 1e-9) & (real - v < 1 + 1e-9)), f"{v} does not surround {real}")
        ups += v > real
        child = child.spawn_child()
    ensure(np.allclose(child.get_standardized_data(reference=p), x, atol=1e-9), "reading the value moved the data")
    frac = real - np.floor(real)
    # P(never up | frac in [.45, .55]) < .55^40 < 5e-11
    mid = (frac > 0.45) & (frac < 0.55)
    ensure(np.all((ups[mid] > 0) & (ups[mid] < 40)), f"never rounds both ways: {ups} for {real}")
    rec.nontrivial(np.any(x))


PROPS = [
    Prop("chain", CASE, run_chain, 5000, 60000, "at least two operations applied", shards=6),
    Prop("stochastic_int", st.fixed_dictionaries({"init": st.lists(P.floats(-5, 5), min_size=2, max_size=2), "data": st.lists(st.one_of(P.floats(-3, 3), P.nice), min_size=2, max_size=2), "seed": P.seeds}),
         run_stochastic_int, 200, 3000, "non-zero data", shards=1),
]
ASSUMPTIONS = ["values of magnitude below 1e6, powers of positive values only, one bounding and one modulo per chain, integer casting last (as the library applies it)"]
