"""C33: core benchmark functions compute their definitions"""
import cmath
import math
import random
import typing as tp
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P

V = tp.Sequence[float]
PI = math.pi
MIN_DIM = {"bucherastrigin": 2, "bentcigar": 2, "deceptiveillcond": 2, "deceptivepath": 2, "deceptivemultimodal": 2}


def sq(x: tp.Iterable[float]) -> float:
    return math.fsum(v * v for v in x)


def weights(n: int) -> tp.List[float]:
    return [10.0 ** (6.0 * i / (n - 1)) if n > 1 else 1.0 for i in range(n)]


def ellipsoid(x: V) -> float:
    return math.fsum(w * v * v for w, v in zip(weights(len(x)), x))


def rastrigin(x: V) -> float:
    return math.fsum(10 - 10 * math.cos(2 * PI * v) + v * v for v in x)


def step(s: float) -> float:
    """Powers of e, constant between them"""
    return math.exp(math.trunc(math.log(s if s > 0 else 5e-324)))


def deceptive(v: float) -> float:
    exponent = (v - 2) ** 2
    return 3 * v * v - (2 / (3.0**exponent + 0.1) if exponent < 600 else 0.0)


def tang(x: V) -> float:
    return math.fsum(0.5 * (v**4 - 16 * v**2 + 5 * v) + 39.16599 for v in x)


def lunacek(x: V) -> float:
    n = len(x)
    mu1 = 2.5
    s = 1 - 1 / (2 * math.sqrt(n + 20) - 8.2)
    mu2 = -math.sqrt(abs((mu1**2 - 1) / s))
    return min(sq(v - mu1 for v in x), n + sq(v - mu2 for v in x)) + 10 * math.fsum(1 - math.cos(2 * PI * (v - mu1)) for v in x)


def corner(x: V) -> float:
    base = 1 + math.fsum(math.tanh(v) for v in x) / len(x)
    return base ** -(len(x) + 1) if base else math.inf


def illcond(x: V) -> float:
    if x[0] == 0:
        return math.inf
    return max(abs(math.atan(x[1] / x[0])), math.hypot(x[0], x[1]), 1.0 if x[0] > 0 else 0.0)


def path(x: V, integer: bool) -> float:
    d = math.hypot(x[0], x[1])
    if d == 0:
        return 0.0
    angle = math.atan(x[0] / x[1]) if x[1] != 0 else PI / 2
    inv = 1 / d
    if integer:
        inv = math.trunc(inv)
    return 1.0 if abs(math.cos(inv) - angle) > 0.1 else d


def bent(x: V) -> float:
    n = len(x)
    y = [v ** (1 + 0.5 * math.sqrt(v) * (i - 1) / (n - 1)) if v > 0 else v for i, v in enumerate(x)]
    return y[0] ** 2 + 1e6 * sq(y[1:])


def buche(x: V) -> float:
    n = len(x)
    return rastrigin([v * (10 if v > 0 and i % 2 == 1 else 1) * 10 ** ((i - 1) / (2 * (n - 1))) for i, v in enumerate(x)])


def multipeak(x: V) -> float:
    best = 1e4
    for a in range(101):
        d = sq(v - math.cos(a + math.sqrt(i)) for i, v in enumerate(x))
        best = min(best, a / 101 + math.exp(min(100.0, d)))
    return best


def cumulated(x: V) -> tp.List[float]:
    return [math.fsum(x[: k + 1]) for k in range(len(x))]


DEFS: tp.Dict[str, tp.Callable[[V], float]] = {
    "sphere": sq, "sphere1": lambda x: sq(v - 1 for v in x), "sphere2": lambda x: sq(v - 2 for v in x), "sphere4": lambda x: sq(v - 4 for v in x), "DelayedSphere": sq,
    "maxdeceptive": lambda x: max(deceptive(v) for v in x), "sumdeceptive": lambda x: math.fsum(deceptive(v) for v in x),
    "cigar": lambda x: x[0] ** 2 + 1e6 * sq(x[1:]), "altcigar": lambda x: x[-1] ** 2 + 1e6 * sq(x[:-1]), "discus": lambda x: 1e6 * x[0] ** 2 + sq(x[1:]),
    "bentcigar": bent, "multipeak": multipeak, "ellipsoid": ellipsoid, "altellipsoid": lambda x: ellipsoid(list(x)[::-1]), "stepellipsoid": lambda x: step(ellipsoid(x)),
    "rastrigin": rastrigin, "bucherastrigin": buche, "doublelinearslope": lambda x: abs(math.fsum(x)), "stepdoublelinearslope": lambda x: step(abs(math.fsum(x))),
    "hm": lambda x: math.fsum(v * v * (1.1 + math.cos(1 / v)) for v in x if v != 0 and abs(v) > 1e-300),
    "rosenbrock": lambda x: math.fsum(100 * (b - a * a) ** 2 + (a - 1) ** 2 for a, b in zip(x[:-1], x[1:])),
    "ackley": lambda x: -20 * math.exp(-0.2 * math.sqrt(sq(x) / len(x))) - math.exp(math.fsum(math.cos(2 * PI * v) for v in x) / len(x)) + 20 + math.e,
    "schwefel_1_2": lambda x: sq(cumulated(x)),
    "griewank": lambda x: 1 + sq(x) / 4000 - math.prod(math.cos(v / math.sqrt(i + 1)) for i, v in enumerate(x)),
    "deceptiveillcond": illcond, "deceptivepath": lambda x: path(x, False), "deceptivemultimodal": lambda x: path(x, True), "lunacek": lunacek,
    "genzcornerpeak": corner, "minusgenzcornerpeak": lambda x: -corner(x), "genzgaussianpeakintegral": lambda x: math.exp(-sq(x) / 4), "minusgenzgaussianpeakintegral": lambda x: -math.exp(-sq(x) / 4),
    "slope": math.fsum, "linear": lambda x: math.tanh(x[0]), "st0": tang, "st1": tang, "st10": tang, "st100": tang,
}
NOISE = {"st1": 1.0, "st10": 10.0, "st100": 100.0}

# location (for a dimension) and value of the optimum
TANG = -2.903534027771177
OPTIMA: tp.Dict[str, tp.Tuple[tp.Callable[[int], V], float]] = {
    **{n: (lambda d: [0.0] * d, 0.0) for n in ["sphere", "DelayedSphere", "cigar", "altcigar", "discus", "bentcigar", "ellipsoid", "altellipsoid", "rastrigin", "bucherastrigin", "doublelinearslope",
                                               "hm", "ackley", "schwefel_1_2", "griewank", "deceptivepath", "deceptivemultimodal"]},
    "sphere1": (lambda d: [1.0] * d, 0.0), "sphere2": (lambda d: [2.0] * d, 0.0), "sphere4": (lambda d: [4.0] * d, 0.0), "rosenbrock": (lambda d: [1.0] * d, 0.0), "lunacek": (lambda d: [2.5] * d, 0.0),
    "minusgenzgaussianpeakintegral": (lambda d: [0.0] * d, -1.0),
}
PERMUTABLE = ["sphere", "sphere1", "sphere2", "sphere4", "maxdeceptive", "sumdeceptive", "rastrigin", "doublelinearslope", "hm", "ackley", "lunacek", "genzcornerpeak", "genzgaussianpeakintegral", "slope", "st0"]
EVEN = ["sphere", "cigar", "altcigar", "discus", "ellipsoid", "altellipsoid", "stepellipsoid", "rastrigin", "doublelinearslope", "hm", "ackley", "schwefel_1_2", "griewank"]


@st.composite
def points(draw: tp.Any) -> tp.Any:
    dim = draw(st.integers(1, 10))
    scale = draw(st.sampled_from([1e-6, 1e-2, 1.0, 1.0, 5.0, 100.0]))
    elem = draw(st.sampled_from([P.floats(-1, 1), st.integers(-5, 5).map(float), st.one_of(P.floats(-1, 1), st.sampled_from([0.0, 1.0, -1.0, 2.5, 0.5]))]))
    return {"name": draw(st.sampled_from(sorted(DEFS))), "x": [scale * v if abs(v) > 1e-100 else 0.0 for v in draw(st.lists(elem, min_size=dim, max_size=dim))], "seed": draw(P.seeds)}


def run_values(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions import corefuncs

    name, x = case["name"], case["x"]
    if len(x) < MIN_DIM.get(name, 1):
        x = x + [0.3]
    func = corefuncs.registry[name]
    array = np.array(x, dtype=float)
    np.random.seed(case["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = func(array)
    ensure(array.tolist() == x, "the input changed")
    ensure(np.ndim(got) == 0, f"output {got!r}")
    got = float(got)
    expected = float(DEFS[name](x))
    if name in NOISE:  # additive gaussian noise (from the global generator)
        np.random.seed(case["seed"])
        expected += 0.5 * 0 + NOISE[name] * np.random.normal()
    scale = max(1.0, abs(expected))
    tol = 1e-8 * scale
    if name in ("rastrigin", "bucherastrigin", "lunacek", "griewank", "hm"):  # cosines of large numbers
        tol += 1e-6 * (1 + max(abs(v) for v in x))
    # close to a discontinuity, both sides are possible
    options = [expected]
    if name in ("stepellipsoid", "stepdoublelinearslope"):
        s = ellipsoid(x) if name == "stepellipsoid" else abs(math.fsum(x))
        ref = max(s, 1e-12 * max(abs(v) for v in x)) if name == "stepdoublelinearslope" else s
        if name == "stepdoublelinearslope" and s <= 1e-12 * max(1e-300, max(abs(v) for v in x)):
            rec.event("cancellation")
            return
        options += [step(s * (1 + 1e-12)), step(s * (1 - 1e-12))] if ref > 0 else []
    if name in ("deceptivepath", "deceptivemultimodal"):
        eps = 1e-9
        options += [1.0, math.hypot(x[0], x[1])] if any(
            abs(DEFS[name]([x[0] * (1 + a), x[1] * (1 + b)]) - expected) > 0.5 * abs(1 - math.hypot(x[0], x[1])) for a in (-eps, 0, eps) for b in (-eps, 0, eps)) else []
    if name == "hm":
        small = [v for v in x if v and abs(v) < 1e-6]
        tol += 2.2 * sq(small)
    ensure(any(got == e or abs(got - e) <= tol for e in options), f"{name}({x}) = {got} instead of {expected}")
    rec.event(name)
    rec.nontrivial(len(x) >= 2 and any(v != 0 for v in x))


def run_relations(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions import corefuncs

    x = np.array(case["x"], dtype=float)
    rng = random.Random(case["seed"])
    dim = len(x)
    warnings.simplefilter("ignore")

    def f(name: str, y: tp.Any) -> float:
        return float(corefuncs.registry[name](np.array(y, dtype=float)))

    def close(a: float, b: float, what: str) -> None:
        ensure(abs(a - b) <= 1e-6 * max(1.0, abs(a), float(np.max(np.abs(x)))) or a == b, f"{what}: {a} {b}")

    perm = list(range(dim))
    rng.shuffle(perm)
    for name in PERMUTABLE:
        close(f(name, x), f(name, x[perm]), f"{name} depends on the order of the coordinates")
    for name in EVEN:
        close(f(name, x), f(name, -x), f"{name} is not symmetric")
    close(f("cigar", x), f("altcigar", x[::-1]), "altcigar is not the reversed cigar")
    close(f("ellipsoid", x), f("altellipsoid", x[::-1]), "altellipsoid is not the reversed ellipsoid")
    for k in (1, 2, 4):
        close(f(f"sphere{k}", x + k), f("sphere", x), f"sphere{k} is not a translated sphere")
    close(f("cigar", x) + f("discus", x), (1e6 + 1) * f("sphere", x), "cigar + discus")
    for name in ("genzcornerpeak", "genzgaussianpeakintegral"):
        ensure_eq(f("minus" + name, x), -f(name, x), f"minus{name}")
    for name in ("stepellipsoid", "stepdoublelinearslope"):  # plateaus
        base = f("ellipsoid" if name == "stepellipsoid" else "doublelinearslope", x)
        if base > 1e-9:
            value = f(name, x)
            ensure(math.exp(-1) * base * (1 - 1e-6) <= value <= math.e * base * (1 + 1e-6), f"{name}: {value} for {base}")
            ensure(abs(math.log(value) - round(math.log(value))) < 1e-6, f"{name}: {value} is not a power of e")
    # optimum
    for name, (location, best) in OPTIMA.items():
        d = max(dim, MIN_DIM.get(name, 1))
        opt = location(d)
        value = f(name, opt)
        ensure(abs(value - best) <= 1e-9, f"{name}: {value} at the optimum instead of {best}")
        y = x if len(x) == d else np.array(list(x) + [0.3])
        for fac in (1.0, 1e-3):
            other = f(name, np.array(opt) + fac * y)
            ensure(other >= best - 1e-9, f"{name}: {other} is better than the optimum at {np.array(opt) + fac * y}")
            if name in ("sphere", "ellipsoid", "cigar", "schwefel_1_2", "rosenbrock") and np.max(np.abs(y)) > 1e-3 and not (name == "rosenbrock" and d == 1):
                ensure(other > best, f"{name}: not a strict optimum")
    low = f("st0", [TANG] * dim)
    ensure(abs(low) <= 1e-3 * dim and f("st0", x) >= low - 1e-9, f"st0: {low} at the optimum, {f('st0', x)} at {x}")
    # pseudo time
    delay = corefuncs.registry["DelayedSphere"].compute_pseudotime(((x,), {}), 12.0)  # type: ignore
    ensure(delay >= 0 and (delay == 0 if x[0] == 0 else abs(delay * abs(x[0]) * 1000 - 1) < 1e-9), f"delay {delay} for {x[0]}")
    rec.nontrivial(dim >= 2 and bool(np.any(x)))


# ---------------------------------------------------------------------------
# discrete functions


@st.composite
def discretes(draw: tp.Any) -> tp.Any:
    n = draw(st.integers(1, 16))
    arity = draw(st.integers(2, 5))
    kind = draw(st.sampled_from(["any", "near", "prefix"]))
    best = [i % arity for i in range(n)]
    if kind == "any":
        x = draw(st.lists(st.integers(0, arity - 1), min_size=n, max_size=n))
    else:
        x = list(best)
        for i in draw(st.lists(st.integers(0, n - 1), max_size=4)):
            x[i] = draw(st.integers(0, arity - 1))
        if kind == "prefix":
            k = draw(st.integers(0, n))
            x = best[:k] + draw(st.lists(st.integers(0, arity - 1), min_size=n - k, max_size=n - k))
    return {"x": x, "arity": arity, "shift": draw(st.sampled_from([0.0, 0.3, -0.4])), "form": draw(st.sampled_from(["array", "list", "tuple"]))}


def run_discrete(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions.corefuncs import DiscreteFunction

    x, arity = case["x"], case["arity"]
    n = len(x)
    values = [v + case["shift"] for v in x]  # rounded by the function
    arg: tp.Any = {"array": np.array, "list": list, "tuple": tuple}[case["form"]](values)
    ok = [v == i % arity for i, v in enumerate(x)]
    correct = sum(ok)
    lead = next((i for i, v in enumerate(ok) if not v), n)
    m = n // 4
    expected = {"onemax": n - correct, "leadingones": n - lead, "jump": (n - m - correct) if correct == n or correct <= n - m else correct}
    for name, e in expected.items():
        got = DiscreteFunction(name, arity)(arg)
        ensure_eq(float(got), float(e), f"{name} of {x}")
        best = DiscreteFunction(name, arity)(np.arange(n) % arity)
        ensure_eq(float(best), float(-m if name == "jump" else 0), f"optimum of {name}")
        ensure(got > best or correct == n, f"{name}: {x} is as good as the optimum")
    rec.nontrivial(0 < correct < n)


def run_bonnans(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.functions.corefuncs import BonnansFunction

    rng = np.random.RandomState(case["seed"])
    state = np.random.get_state()[1].tolist()  # type: ignore
    func = BonnansFunction(case["index"], M=case["m"], N=case["n"])
    same = BonnansFunction(case["index"], M=case["m"], N=case["n"])
    ensure_eq(np.random.get_state()[1].tolist(), state, "the global generator changed")  # type: ignore
    x = rng.randint(0, 2, size=case["n"])
    a = func(x)
    ensure(a == same(x), "functions with the same index differ")
    direct = sum((sum(func.A[i, j] * x[j] for j in range(case["n"])) - func.y[i]) ** 2 for i in range(case["m"])) / case["n"] ** 2
    ensure(a >= 0 and abs(a - direct) <= 1e-9 * max(1, a), f"{a} instead of {direct}")
    ensure(func(x) == a, "not deterministic")
    rec.nontrivial(case["n"] > 1 and a > 0)



PROPS = [
    Prop("values", points(), run_values, 6000, rule="2 or more coordinates, some of them not zero", shards=3),
    Prop("relations", points(), run_relations, 500, rule="2 or more coordinates, some of them not zero", shards=2),
    Prop("discrete", discretes(), run_discrete, 1500, rule="some variables are correct, others not"),
    Prop("bonnans", st.fixed_dictionaries({"index": st.integers(0, 50), "m": st.integers(1, 8), "n": st.integers(1, 8), "seed": st.integers(0, 10**6)}), run_bonnans, 150, rule="several variables"),
]
