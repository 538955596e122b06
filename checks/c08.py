"""C08: cheap constraints decide satisfaction and are respected by ask"""
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P

RET = ["bool", "npbool", "float", "npfloat"]
CONSTRAINT = st.fixed_dictionaries({"at": st.integers(0, 30), "ret": st.sampled_from(RET), "t": st.one_of(P.nice, P.floats(-3, 3)), "neg": st.booleans()})


def summary(v):
    """a number depending on all numeric leaves of a value"""
    if isinstance(v, bool) or v is None:
        return 0.0
    if isinstance(v, str):
        return float(len(v))
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    if isinstance(v, np.ndarray):
        return float(np.sum(v))
    if isinstance(v, (tuple, list)):
        return sum((k + 1) * summary(x) for k, x in enumerate(v))
    if isinstance(v, dict):
        return sum((k + 1) * summary(v[x]) for k, x in enumerate(sorted(v)))
    raise TypeError(repr(v))


def slack(c, v):
    s = summary(v)
    return c["t"] - s if c["neg"] else s - c["t"]


class Func:
    def __init__(self, c):
        self.c = c
        self.seen = []

    def __call__(self, v):
        self.seen.append(v)
        s = slack(self.c, v)
        return {"bool": lambda: s >= 0, "npbool": lambda: np.bool_(s >= 0), "float": lambda: s, "npfloat": lambda: np.float64(s)}[self.c["ret"]]()


def nodes(spec, path=()):
    """paths of the sub-parameters which can be constrained (options of choices excluded)"""
    if spec["k"] == "const":
        return []
    out = [path]
    if spec["k"] in ("tuple",):
        for i, s in enumerate(spec["items"]):
            out += nodes(s, path + (i,))
    elif spec["k"] == "dict":
        for k, s in spec["items"]:
            out += nodes(s, path + (k,))
    elif spec["k"] == "inst":
        for i, s in enumerate(spec["args"]):
            out += nodes(s, path + (0, i))
        for k, s in spec["kwargs"]:
            out += nodes(s, path + (1, k))
    return out


def follow(x, path):
    for k in path:
        x = x[k]
    return x


def run_satisfies(c, rec: Recorder) -> None:
    root = P.build(c["spec"])
    root.random_state.seed(c["seed"])
    paths = nodes(c["spec"])
    cons = [(paths[k["at"] % len(paths)], k) for k in c["cons"]]
    free = root.copy()
    for path, k in cons:
        follow(root, path).register_cheap_constraint(Func(k))

    def oracle(p):
        v = p.value
        return all(slack(k, follow(v, path)) >= 0 for path, k in cons)

    seen = set()

    def check(p, ctx):
        exp = oracle(p)
        seen.add(exp)
        ensure_eq(p.satisfies_constraints(), exp, f"{ctx}: satisfies_constraints of {p.value} with {cons}")
        ensure_eq(p.satisfies_constraints(), exp, f"{ctx}: second call")

    check(root, "initial")
    cur = root
    family = [root]
    for o in c["ops"]:
        cur = P.apply_op(o, cur, root)
        family.append(cur)
        check(cur, f"after {o}")
        ensure(free.satisfies_constraints(), "constraints registered on another parameter apply to its copy")
    for i, p in enumerate(family):
        check(p, f"member {i}")

    # constraints apply to the parameter they are registered on and those which derive from it afterwards
    class No:
        def __call__(self, v):
            return False

    before = [p.satisfies_constraints() for p in family]
    child = cur.spawn_child()
    grandchild = child.spawn_child()
    child.register_cheap_constraint(No())
    ensure(not child.satisfies_constraints(), "unsatisfiable constraint")
    ensure(not child.spawn_child().satisfies_constraints() and not child.copy().satisfies_constraints(), "derived parameters")
    ensure_eq(grandchild.satisfies_constraints(), oracle(grandchild), "constraint registered on the parent after spawning")
    ensure_eq([p.satisfies_constraints() for p in family], before, "constraint registered on a child")
    rec.event("satisfied", True in seen)
    rec.event("violated", False in seen)
    rec.event("nested", any(p for p, _ in cons))
    rec.nontrivial(bool(cons))


OPTS = ["RandomSearch", "OnePlusOne", "DE", "PSO", "NGOpt", "CMA", "TBPSA", "ScrHammersleySearch", "DiscreteOnePlusOne", "LHSSearch", "CauchyOnePlusOne", "TwoPointsDE"]


def run_ask(c, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.common import errors

    # (optimizers delegating ask to others solve an impossible constraint at each level: they are very slow)
    c = dict(c, infeasible=c["infeasible"] and c["opt"] not in ("NGOpt", "CMA"))
    shape = c["dim"]
    arr = ng.p.Array(shape=(shape,))
    if c["bounded"]:
        arr.set_bounds(-3, 3)
    param = {"array": lambda: arr, "inst": lambda: ng.p.Instrumentation(arr, y=ng.p.Choice(3)), "dict": lambda: ng.p.Dict(x=arr)}[c["wrap"]]()
    param.random_state.seed(c["seed"])

    def arr_of(value):
        return {"array": lambda: value, "inst": lambda: value[0][0], "dict": lambda: value["x"]}[c["wrap"]]()

    t = c["t"] * np.sqrt(shape)

    def margin(x):
        return (-1 if c["neg"] else 1) * float(np.sum(x)) - t

    def func(x):  # half space which a centered normal distribution satisfies with probability above 0.15
        m = margin(x)
        return m >= 0 if c["ret"] == "bool" else m

    if c["infeasible"]:
        target, f = param, (lambda v: False) if c["ret"] == "bool" else (lambda v: -1.0)
    elif c["nested"]:
        target, f = arr, func
    else:
        target, f = param, lambda v: func(arr_of(v))
    target.register_cheap_constraint(f)
    opt = ng.optimizers.registry[c["opt"]](param, budget=100, num_workers=c["workers"])
    asked = []
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        n = 0
        held = []  # suggestions, the last one is asked first
        for step in c["steps"]:
            if step[0] == "suggest":
                good = step[1]
                val = np.full(shape, (1 if good else -1) * (-1 if c["neg"] else 1) * (abs(t) / shape + 0.5))
                if c["wrap"] == "inst":
                    opt.suggest(val, y=1)
                elif c["wrap"] == "dict":
                    opt.suggest({"x": val})
                else:
                    opt.suggest(val)
                if c["infeasible"]:
                    continue
                ensure_eq(opt.num_ask, n, "num_ask after suggest")
                held.append((val, good))
                if step[2:] == [True]:  # another operation comes before the next ask
                    continue
            cand = opt.ask()
            n += 1
            ensure_eq(opt.num_ask, n, "num_ask")
            if not c["infeasible"]:
                ensure(margin(arr_of(cand.value)) >= 0, lambda: f"asked {cand.value} which does not satisfy the constraint (margin {margin(arr_of(cand.value))})")
                ensure(cand.satisfies_constraints(), "satisfies_constraints of an asked candidate")
                while held and not held[-1][1]:
                    held.pop()  # not satisfying: goes on with the next one
                if held:
                    val = held.pop()[0]
                    ensure(np.array_equal(arr_of(cand.value), val), "a suggestion which satisfies the constraints is asked as is")
            asked.append(cand)
            if len(asked) >= c["workers"]:
                x = asked.pop(0)
                opt.tell(x, float(np.sum((arr_of(x.value) - 1) ** 2)))
    for x in asked:
        opt.tell(x, 1.0)
    failed = [w for w in ws if issubclass(w.category, errors.FailedConstraintWarning)]
    if c["opt"] not in ("NGOpt", "CMA"):  # (the warning may come from one try of their sub-optimizers)
        ensure_eq(bool(failed), c["infeasible"] and n > 0, "warning about constraints which cannot be satisfied")
    if not c["infeasible"]:
        r = opt.provide_recommendation()
        if opt.num_tell > opt.num_tell_not_asked == 0 and c["opt"] in ("RandomSearch", "OnePlusOne", "DE", "DiscreteOnePlusOne"):
            ensure(margin(arr_of(r.value)) >= 0, "recommended a point which does not satisfy the constraint")
    rec.event("opt:" + c["opt"])
    rec.event("infeasible", c["infeasible"])
    rec.event("nested", c["nested"])
    rec.nontrivial(not c["infeasible"])


def run_layer(c, rec: Recorder) -> None:
    """constraints as operators on the parameter: its value satisfies them when a solution is found"""
    import nevergrad as ng
    from nevergrad.common import errors

    arr = ng.p.Array(shape=(2,)).set_bounds(-3, 3)
    inst = c["inst"]
    param = ng.p.Instrumentation(arr, z=ng.p.Choice([1, 2])) if inst else arr
    param.random_state.seed(c["seed"])


    def violation(x, z=None):
        v = c["t"] - float(np.sum(x))
        return {"float": lambda: v, "list": lambda: [v, 2 * v], "array": lambda: np.array([v, v / 2])}[c["ret"]]()

    constrained = ng.ops.constraints.Constraint(violation, optimizer=c["opt"], budget=100)(param)
    child = constrained.sample() if c["sample"] else constrained.spawn_child()
    if not c["sample"]:
        child.set_standardized_data(P.cycle(c["data"], child.dimension))
    raw = param.spawn_child()
    plain = child._layers[-1].parameter() if hasattr(child._layers[-1], "parameter") else None
    v = child.value
    x = v[0][0] if inst else v
    ensure(np.all(np.abs(x) <= 3), f"{x} out of bounds")
    # (with several violations, the multiobjective search for a solution may fail)
    solved = c["ret"] == "float"
    ensure(float(np.sum(x)) >= c["t"] or not solved, f"value {x} does not satisfy sum(x) >= {c['t']}")
    ensure(P.same_value(child.value, v) or not solved, "value read twice")
    rec.event("solved", solved)
    if plain is not None and not c["sample"] and not inst:
        y = raw.set_standardized_data(P.cycle(c["data"], raw.dimension)).value
        if float(np.sum(y)) >= c["t"] + 1e-9:
            ensure(P.same_value(v, y, 1e-12, 1e-12), f"{y} satisfies the constraint but became {v}")
            rec.event("already satisfied")

    def wrong(*args, **kwargs):
        return True

    try:
        ng.ops.constraints.Constraint(wrong)(ng.p.Array(shape=(2,))).value
    except errors.NevergradTypeError:
        pass
    else:
        ensure(False, "a constraint operator returning a bool should be refused")
    rec.nontrivial()


H = P.HARD_METHODS
TREE = st.one_of(P.inst_spec(P.tree(1, H)), P.tree(2, H), P.inst_spec(P.tree(0, H)), st.lists(P.tree(1, H), min_size=1, max_size=3).map(lambda x: {"k": "tuple", "items": x})).filter(lambda s: s["k"] != "const" and nodes(s))
PROPS = [
    Prop("satisfies", st.fixed_dictionaries({"spec": TREE, "seed": P.seeds, "cons": st.lists(CONSTRAINT, min_size=0, max_size=3), "ops": st.lists(P.op, max_size=5)}).map(P.tame),
         run_satisfies, 1000, 20000, "at least one constraint", shards=5),
    Prop("ask", st.fixed_dictionaries({"opt": st.sampled_from(OPTS), "dim": st.integers(1, 5), "bounded": st.booleans(), "wrap": st.sampled_from(["array", "inst", "dict"]), "seed": P.seeds,
                                       "t": P.floats(-0.5, 1.0), "neg": st.booleans(), "ret": st.sampled_from(["bool", "float"]), "infeasible": st.integers(0, 11).map(lambda x: x == 11), "nested": st.booleans(),
                                       "workers": st.integers(1, 3), "steps": st.lists(st.one_of(st.just(["ask"]), st.just(["ask"]), st.tuples(st.just("suggest"), st.booleans(), st.booleans()).map(list)), min_size=1, max_size=10)}),
         run_ask, 240, 5000, "satisfiable constraints", shards=6),
    Prop("layer", st.fixed_dictionaries({"inst": st.booleans(), "seed": P.seeds, "t": P.floats(-2, 1), "ret": st.sampled_from(["float", "list", "array"]), "opt": st.sampled_from(["OnePlusOne", "DE", "CMA"]), "sample": st.booleans(),
                                         "data": st.lists(P.floats(-2, 2), min_size=1, max_size=4)}), run_layer, 60, 1500, "all", shards=3),
]
ASSUMPTIONS = ["in the ask check, constraints are satisfied with probability at least 0.15 by each draw of a centered normal distribution"]
