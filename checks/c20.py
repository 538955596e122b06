"""C20: constraint violations are penalized consistently"""
import math

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, Skip, ensure, ensure_eq
from pbt import params as P


def spy_class(base=None):
    """an optimizer which records the loss it is given for each told candidate"""
    import nevergrad as ng
    from nevergrad.optimization import base as nbase

    class Spy(nbase.Optimizer):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.seen = []
            self.tells = []

        def _internal_ask(self):
            return self._rng.normal(size=self.dimension)

        def _internal_tell_candidate(self, candidate, loss):
            self.seen.append((candidate.uid, loss))

        def tell(self, candidate, loss, *args, **kwargs):
            self.tells.append((candidate, loss, args, kwargs))
            super().tell(candidate, loss, *args, **kwargs)

    return Spy


def mags(lo=1e-3, hi=1e6):
    return st.floats(math.log10(lo), math.log10(hi)).map(lambda x: round(10.0**x, 9))


CV = st.one_of(mags(), mags(), st.just(0.0), mags().map(lambda x: -x), st.integers(1, 5).map(float))
LOSS = st.one_of(P.floats(-100, 100), mags(), mags().map(lambda x: -x), st.just(0.0))
STYLE = st.one_of(
    st.none(),
    st.tuples(mags(1e-2, 1e5), mags(1e-2, 1e2), st.sampled_from([0.5, 1.0, 2.0]), st.sampled_from([1.0, 1.0, 0.5, 2.0]), st.sampled_from([0.0, 0.5, 1.0]), st.sampled_from([0.5, 1.0, 3.0])).map(list),
)
DEFAULT_STYLE = [1e5, 1.0, 0.5, 1.0, 0.5, 1.0]
FORMS = ["list", "tuple", "array", "scalar"]


def form(cv, how):
    if how == "scalar" and len(cv) == 1:
        return cv[0]
    return {"tuple": tuple, "array": np.array}.get(how, list)(cv)


# ---------------------------------------------------------------------------
# relations between told violations


@st.composite
def relations_case(draw):
    n = draw(st.integers(0, 8))
    return {
        "budget": draw(st.sampled_from([None, 1, 1, 4, 4, 10, 100])), "seed": draw(st.integers(0, 1000)), "dim": draw(st.integers(1, 3)),
        "prefix": draw(st.lists(st.tuples(LOSS, st.one_of(st.none(), st.lists(CV, min_size=1, max_size=2)), st.booleans()), min_size=n, max_size=n)),
        "loss": draw(LOSS), "cv": draw(st.lists(CV, min_size=1, max_size=4)), "style": draw(STYLE), "form": draw(st.sampled_from(FORMS)), "asked": draw(st.booleans()),
        "which": draw(st.integers(0, 3)), "more": draw(mags(1e-1, 1e3)), "more_loss": draw(mags(1e-1, 1e3)),
    }


def told(case, loss, cv, style, extra=0):
    """the loss the optimizer is given for the last tell, after the prefix (and more valid tells)"""
    import nevergrad as ng

    root = ng.p.Array(shape=(case["dim"],))
    root.random_state.seed(case["seed"])
    opt = spy_class()(root, budget=case["budget"], num_workers=1)
    opt.parametrization.random_state.seed(case["seed"])
    for ploss, pcv, asked in [tuple(x) for x in case["prefix"]] + [(1.0, None, True)] * extra:
        cand = opt.ask() if asked else root.spawn_child(new_value=np.full(case["dim"], len(opt.seen) + 0.5))
        if pcv is None:
            opt.tell(cand, ploss)
        else:
            opt.tell(cand, ploss, pcv)
    before = {k: v.count for k, v in opt.archive.bytesdict.items()}
    bests = {k: v.get_estimation(k) for k, v in opt.current_bests.items()}
    cand = opt.ask() if case["asked"] else root.spawn_child(new_value=np.full(case["dim"], -123.25))
    kwargs = {} if style is None else {"penalty_style": style}
    opt.tell(cand, loss, cv, **kwargs)
    ensure_eq(len(opt.seen), len(case["prefix"]) + extra + 1, "losses given to the optimizer")
    ensure_eq(opt.seen[-1][0], cand.uid, "candidate given to the optimizer")
    ensure_eq(cand.loss, loss if loss < 5e20 else 5e20, "loss kept by the candidate (raw)")
    violated = cv is not None and np.any(np.asarray(cv) > 0)
    after = {k: v.count for k, v in opt.archive.bytesdict.items()}
    if violated:
        ensure_eq(after, before, "archive after a tell with violated constraints")
        ensure_eq({k: v.get_estimation(k) for k, v in opt.current_bests.items()}, bests, "best losses after a tell with violated constraints")
    else:
        ensure_eq(sum(after.values()), sum(before.values()) + 1, "evaluations in the archive after a tell without violated constraint")
    return opt.seen[-1][1]


def run_relations(case, rec: Recorder) -> None:
    loss, cv, style = case["loss"], case["cv"], case["style"]
    base = told(case, loss, form(cv, case["form"]), style)
    ensure(isinstance(base, float) and math.isfinite(base), f"the optimizer was given the loss {base!r}")
    ensure(base >= loss, lambda: f"loss {loss} with violations {cv} is given as the better loss {base}")
    raw = told(case, loss, None, style)
    ensure_eq(raw, loss, "loss given to the optimizer without constraints")
    num_tell = len(case["prefix"])
    second_half = case["budget"] is not None and num_tell > case["budget"] / 2.0
    positive = [x for x in cv if x > 0]
    if not positive:
        ensure_eq(base, loss, f"loss given to the optimizer with satisfied constraints {cv}")
        rec.event("satisfied")
    strict = bool(positive) and (loss > 0 or second_half)
    if strict and base < 5e20:
        ensure(base > loss, lambda: f"no penalty for the violations {cv} of loss {loss}, after {num_tell} tells out of {case['budget']}")
    tol = 1e-9 * max(1.0, abs(base))
    # same violations, written differently
    ensure(abs(told(case, loss, [max(x, 0.0) for x in cv], style) - base) <= tol, "satisfied constraints do not count")
    ensure(abs(told(case, loss, cv[::-1], style) - base) <= tol, "the order of the constraints does not count")
    ensure(abs(told(case, loss, np.array(cv + [-1.0, 0.0]), style) - base) <= tol, "more satisfied constraints do not count")
    if style is None:
        ensure_eq(told(case, loss, cv, list(DEFAULT_STYLE)), base, "loss for the documented default penalty style")
    # more violations
    more = list(cv)
    i = case["which"] % len(cv)
    more[i] = max(more[i], 0.0) + case["more"]
    higher = told(case, loss, more, style)
    ensure(higher >= base - tol, lambda: f"violations {cv} are given as {base} and the higher {more} as {higher}")
    if (loss > 0 or second_half) and base < 1e15 and case["more"] > 1e-3 * sum(positive):
        ensure(higher > base, lambda: f"violations {cv} and the higher {more} are both given as {base}")
    higher = told(case, loss, cv + [case["more"]], style)
    ensure(higher >= base - tol, lambda: f"violations {cv} are given as {base}, but {higher} with one more violation {case['more']}")
    # greater loss
    higher = told(case, loss + case["more_loss"], cv, style)
    ensure(higher > base - tol, lambda: f"loss {loss} is given as {base} and the greater {loss + case['more_loss']} as {higher}")
    # later
    later = told(case, loss, cv, style, extra=5)
    ensure(later >= base - tol, lambda: f"the same violations are given as {base}, and after 5 more tells as {later}")
    # documented formula, in the second half of the budget, for positive losses (and unambiguous styles)
    a, b, c, d, e, f = DEFAULT_STYLE if style is None else style
    if second_half and loss > 0 and positive and (d == 1 or b == 1):
        expected = loss + (a + abs(loss)) * (f + num_tell) ** e * (b * sum(x**c for x in positive)) ** d
        if expected < 5e20:
            ensure(abs(base - expected) <= 1e-9 * expected, lambda: f"documented penalized loss {expected}, given {base}")
        rec.event("documented formula")
    rec.nontrivial(bool(positive))
    rec.event("strict", strict)
    rec.event("custom style", style is not None)


# ---------------------------------------------------------------------------
# infinite and nan violations


@st.composite
def nonfinite_case(draw):
    cv = draw(st.lists(CV, min_size=1, max_size=3))
    cv.insert(draw(st.integers(0, len(cv))), draw(st.sampled_from(["inf", "nan", "1e200", "1e308"])))
    return {"budget": draw(st.sampled_from([None, 4, 10])), "seed": draw(st.integers(0, 100)), "dim": 1, "asked": draw(st.booleans()), "loss": draw(LOSS), "cv": cv,
            "prefix": [(1.0, None, True)] * draw(st.integers(0, 8)), "style": draw(STYLE)}


def run_nonfinite(case, rec: Recorder) -> None:
    import nevergrad as ng

    root = ng.p.Array(shape=(1,))
    opt = spy_class()(root, budget=case["budget"], num_workers=1)
    for ploss, _, _ in case["prefix"]:
        opt.tell(opt.ask(), ploss)
    cand = opt.ask()
    size = len(opt.archive)
    cv = [float(x) for x in case["cv"]]
    kwargs = {} if case["style"] is None else {"penalty_style": case["style"]}
    opt.tell(cand, case["loss"], cv, **kwargs)
    got = opt.seen[-1][1]
    ensure(got >= case["loss"], lambda: f"loss {case['loss']} with violations {cv} is given as {got}")
    ensure_eq(len(opt.archive), size, f"number of points in the archive after a tell with violations {cv}")
    rec.nontrivial(True)


# ---------------------------------------------------------------------------
# cheap constraints


@st.composite
def cheap_case(draw):
    n = draw(st.integers(1, 3))
    cons = []
    for _ in range(n):
        cons.append({"at": draw(st.sampled_from(["root", "x", "y"])), "sign": draw(st.sampled_from([1.0, -1.0])), "t": draw(P.floats(-2, 2)), "bool": draw(st.integers(0, 3)) == 0})
    vals = st.lists(P.floats(-5, 5), min_size=2, max_size=2)
    return {"kind": draw(st.sampled_from(["tuple", "dict", "inst"])), "cons": cons, "budget": draw(st.sampled_from([1, 10, 100, 10000])), "prefix": draw(st.integers(0, 6)), "a": draw(vals), "b": draw(vals),
            "loss": draw(P.floats(-100, 100)), "cv": draw(st.one_of(st.none(), st.just([-1.0]), st.just([1.0]))),
            "manager": draw(st.one_of(st.just({}), st.fixed_dictionaries({}, optional={"penalty_factor": st.sampled_from([0.0, 0, 0.5, 3.0, 100]), "penalty_exponent": st.sampled_from([1, 1.0, 1.001, 1.5]), "max_trials": st.sampled_from([1, 10])})))}


def run_cheap(case, rec: Recorder) -> None:
    import nevergrad as ng

    x, y = ng.p.Scalar(), ng.p.Scalar()
    root = {"tuple": lambda: ng.p.Tuple(x, y), "dict": lambda: ng.p.Dict(x=x, y=y), "inst": lambda: ng.p.Instrumentation(x, y=y)}[case["kind"]]()

    def total(value):  # of the root
        if case["kind"] == "dict":
            return value["x"] + value["y"]
        if case["kind"] == "tuple":
            return value[0] + value[1]
        return value[0][0] + value[1]["y"]

    def make(v):
        new = {"tuple": lambda: tuple(v), "dict": lambda: {"x": v[0], "y": v[1]}, "inst": lambda: ((v[0],), {"y": v[1]})}[case["kind"]]()
        return opt.parametrization.spawn_child(new_value=new)

    def register(c):
        def level(s):
            return float(c["sign"] * s - c["t"])

        def check(value):
            lev = level(total(value) if c["at"] == "root" else value)
            return lev >= 0 if c["bool"] else lev

        {"root": root, "x": x, "y": y}[c["at"]].register_cheap_constraint(check)

    def violations(v):
        out = []
        for c in case["cons"]:
            lev = c["sign"] * {"root": v[0] + v[1], "x": v[0], "y": v[1]}[c["at"]] - c["t"]
            out.append(0.0 if lev >= 0 else 1.0 if c["bool"] else -lev)
        return out

    def near(v):  # too close to a border of a constraint
        return any(abs(c["sign"] * {"root": v[0] + v[1], "x": v[0], "y": v[1]}[c["at"]] - c["t"]) < 1e-6 for c in case["cons"])

    if near(case["a"]) or near(case["b"]):
        raise Skip
    opt = spy_class()(root, budget=case["budget"], num_workers=1)
    for _ in range(case["prefix"]):
        opt.ask()
    for c in case["cons"]:
        register(c)
    opt._constraints_manager.update(**case["manager"])
    factor, exponent = case["manager"].get("penalty_factor", 1.0), case["manager"].get("penalty_exponent", 1.001)
    got = []
    for v in (case["a"], case["b"]):
        cand = make(v)
        count = sum(m.count for m in opt.archive.values())
        viol = violations(v)
        ensure_eq(cand.satisfies_constraints(), not any(viol), f"satisfies_constraints for the violations {viol}")
        if case["cv"] is None:
            opt.tell(cand, case["loss"])
        else:
            opt.tell(cand, case["loss"], case["cv"])
        new = sum(m.count for m in opt.archive.values()) - count
        got.append((viol, opt.seen[-1][1]))
        ensure_eq(cand.loss, case["loss"], "loss kept by the candidate")
        bad = any(viol) or case["cv"] == [1.0]
        ensure_eq(new, 0 if bad else 1, f"evaluations added to the archive for the violations {viol} and {case['cv']}")
        if any(viol):
            ensure(got[-1][1] > case["loss"] or factor == 0, lambda: f"no penalty for the violated constraints {viol}: {case['loss']} is given as {got[-1][1]}")
            if case["cv"] != [1.0]:
                expected = factor * exponent ** (opt.num_ask / math.sqrt(case["budget"])) * sum(viol)
                ensure(abs(got[-1][1] - case["loss"] - expected) <= 1e-9 * max(1.0, expected, abs(case["loss"])), lambda: f"penalty {got[-1][1] - case['loss']} for the violations {viol}, expected {expected} with {case['manager']} after {opt.num_ask} asks")
        elif case["cv"] != [1.0]:
            ensure_eq(got[-1][1], case["loss"], "loss given to the optimizer, for satisfied constraints")
    (va, la), (vb, lb) = got
    if case["cv"] is None and factor > 0:
        if all(i <= j for i, j in zip(va, vb)) and sum(va) + 1e-9 < sum(vb):
            ensure(la < lb, lambda: f"violations {va} are given as {la} and the higher {vb} as {lb}")
            rec.event("ordered violations")
        if all(i >= j for i, j in zip(va, vb)) and sum(vb) + 1e-9 < sum(va):
            ensure(la > lb, lambda: f"violations {vb} are given as {lb} and the higher {va} as {la}")
            rec.event("ordered violations")
    rec.nontrivial(any(va) or any(vb))
    rec.event("constraints of sub-parameters", any(c["at"] != "root" for c in case["cons"]))


# ---------------------------------------------------------------------------
# minimize


@st.composite
def minimize_case(draw):
    return {
        "budget": draw(st.integers(1, 20)), "workers": draw(st.integers(1, 4)), "batch": draw(st.booleans()), "delays": draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)), "seed": draw(st.integers(0, 1000)),
        "cons": draw(st.lists(P.floats(-1, 1), min_size=1, max_size=3)), "form": draw(st.sampled_from(["float", "np", "mixed"])), "inst": draw(st.booleans()),
    }


def run_minimize(case, rec: Recorder) -> None:
    import nevergrad as ng
    from .c17 import Executor

    root = ng.p.Instrumentation(ng.p.Array(shape=(2,)), y=ng.p.Scalar()) if case["inst"] else ng.p.Array(shape=(2,))
    root.random_state.seed(case["seed"])
    opt = spy_class()(root, budget=case["budget"], num_workers=case["workers"])

    def flat(value):
        return list(value[0][0]) + [value[1]["y"]] if case["inst"] else list(value)

    def objective(*args, **kwargs):
        return float(np.sum(flat((args, kwargs)) if case["inst"] else args[0]))

    calls = []

    def constraint(i, t):
        def func(value):
            v = flat(value)
            calls.append((i, tuple(v)))
            out = v[0] * (i + 1) - t
            return np.float64(out) if case["form"] == "np" or (case["form"] == "mixed" and i % 2) else float(out)

        return func

    class Watcher:
        def submitted(self, rank):
            pass

        def polled(self):
            pass

    executor = Executor({"delays": case["delays"], "interrupts": []}, Watcher())
    funcs = [constraint(i, t) for i, t in enumerate(case["cons"])]
    opt.minimize(objective, executor=executor, batch_mode=case["batch"], constraint_violation=funcs)
    ensure_eq(len(opt.tells), case["budget"], "tells")
    expected_calls = []
    orders = []
    for cand, loss, args, kwargs in opt.tells:
        v = flat(cand.value)
        ensure_eq(loss, float(np.sum(v)), "loss told for the candidate")
        told_cv = args[0] if args else kwargs.get("constraint_violation")
        ensure(told_cv is not None, "no constraint violation told")
        ensure_eq([float(x) for x in np.ravel(told_cv)], [v[0] * (i + 1) - t for i, t in enumerate(case["cons"])], f"violations told for the candidate {v}")
        expected_calls += [(i, tuple(v)) for i in range(len(funcs))]
    ensure_eq(sorted(calls), sorted(expected_calls), "calls of the constraint functions")
    for (uid, given), (cand, loss, args, kwargs) in zip(opt.seen, opt.tells):
        ensure_eq(uid, cand.uid, "candidate")
        ensure(given >= loss, f"loss {loss} is given as {given}")
    # the best points satisfy the constraints
    reco = opt.provide_recommendation()
    good = [cand for cand, _, _, _ in opt.tells if all(flat(cand.value)[0] * (i + 1) - t <= 0 for i, t in enumerate(case["cons"]))]
    if good:
        ensure(all(flat(reco.value)[0] * (i + 1) - t <= 0 for i, t in enumerate(case["cons"])), lambda: f"recommended {reco.value}, which violates constraints, while {len(good)} points satisfy them")
        best = min(c.loss for c in good)
        ensure_eq(opt.current_bests["minimum"].get_estimation("minimum"), best, "best loss among points satisfying the constraints")
    rec.nontrivial(0 < len(good) < case["budget"])
    rec.event("out of order", len(set(case["delays"])) > 1 and case["workers"] > 1)


# ---------------------------------------------------------------------------
# optimizers: constraints which are satisfied change nothing, and recommendations satisfy the constraints

OPTS = ["OnePlusOne", "DE", "PSO", "CMA", "RandomSearch", "DiscreteOnePlusOne", "TBPSA", "ES", "NGOpt", "cGA", "OptimisticNoisyOnePlusOne", "Portfolio", "ScrHammersleySearch", "NGOptSingle9", "NoisyBandit", "EDA", "SplitDE", "MixES", "RotatedTwoPointsDE"]
RECOMMENDS_BEST = {"RandomSearch", "OnePlusOne", "DiscreteOnePlusOne", "ScrHammersleySearch", "ES", "MixES"}


@st.composite
def optimizers_case(draw):
    return {"opt": draw(st.sampled_from(OPTS)), "seed": draw(st.integers(0, 1000)), "budget": draw(st.integers(1, 25)), "dim": draw(st.integers(1, 3)), "t": draw(st.sampled_from([None, None, 0.0, 0.3, -0.3])),
            "n": draw(st.integers(1, 2)), "shift": draw(P.floats(-2, 2))}


def run_optimizers(case, rec: Recorder) -> None:
    import nevergrad as ng

    opts = []
    for _ in range(2):
        root = ng.p.Array(shape=(case["dim"],))
        root.random_state.seed(case["seed"])
        opts.append(ng.optimizers.registry[case["opt"]](root, budget=case["budget"], num_workers=1))
    opt, ref = opts
    good, seen = [], []
    for _ in range(case["budget"]):
        a = opt.ask()
        loss = float(np.sum((a.value - case["shift"]) ** 2))
        if case["t"] is None:  # all satisfied: same run
            b = ref.ask()
            ensure(np.array_equal(a.value, b.value), "points asked after satisfied constraints and without constraints")
            opt.tell(a, loss, [-1.0 - abs(loss), 0.0][: case["n"]])
            ref.tell(b, loss)
        else:
            cv = [float(a.value[0] - case["t"]), float(-a.value[0] - 2.0)][: case["n"]]
            opt.tell(a, loss, cv)
            seen.append(a.value)
            if max(cv) <= 0:
                good.append((loss, a.value))
    reco = opt.provide_recommendation()
    if case["t"] is None:
        ensure(np.array_equal(reco.value, ref.provide_recommendation().value), "recommendation after satisfied constraints and without constraints")
    else:
        ensure(np.all(np.isfinite(reco.value)), f"recommended {reco.value}")
        # a point told once and never told as satisfying cannot be one of the bests
        for name, best in opt.current_bests.items():
            ensure(not good or any(np.array_equal(best.parameter.value, v) for _, v in good), f"{name} best does not satisfy the constraints")
        if good and case["opt"] in RECOMMENDS_BEST:
            ensure(any(np.allclose(reco.value, v) for _, v in good), lambda: f"recommended {reco.value}, which violates constraints (or was not told)")
    rec.nontrivial(case["t"] is None or 0 < len(good) < case["budget"])
    rec.event("all satisfied", case["t"] is None)


PROPS = [
    Prop("relations", relations_case(), run_relations, quick=500, rule="a violated constraint", shards=6),
    Prop("nonfinite", nonfinite_case(), run_nonfinite, quick=300, rule="infinite, nan or huge violation", shards=2),
    Prop("cheap", cheap_case(), run_cheap, quick=600, rule="a violated constraint", shards=4),
    Prop("minimize", minimize_case(), run_minimize, quick=300, rule="some points satisfy the constraints and some do not", shards=4),
    Prop("optimizers", optimizers_case(), run_optimizers, quick=500, rule="satisfied constraints only, or some of the points", shards=8),
]
