"""C13: ask / tell / suggest keep consistent books"""
import zlib

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, Skip, ensure, ensure_eq, expect_raises
from pbt import params as P
from checks.c03 import ambiguous

# algorithms of all families which accept any order of asks and tells
FREE = ["RandomSearch", "OnePlusOne", "DiscreteOnePlusOne", "NoisyOnePlusOne", "DE", "TwoPointsDE", "LhsDE", "PSO", "CMA", "DiagonalCMA", "TBPSA", "NaiveTBPSA",
        "ScrHammersleySearch", "LHSSearch", "ScrHaltonSearch", "NoisyBandit", "OptimisticNoisyOnePlusOne", "OptimisticDiscreteOnePlusOne", "cGA", "ES", "RecES", 
        "NonNSGAIIES", "NGOpt", "DoubleFastGADiscreteOnePlusOne", "AnisotropicAdaptiveDiscreteOnePlusOne", "Portfolio", "ParaPortfolio", "ASCMADEthird",
        "MetaModel", "AlmostRotationInvariantDE", "RotationInvariantDE", "TEAvgCauchyLHSSearch", "NaiveIsoEMNA", "MultiDiscrete", "TinyCMA", "QOPSO", "SPQODE"]

loss = st.one_of(P.nice, P.floats(-50, 50), st.sampled_from([0.0, 1.0, 2.0]))
OPS = st.one_of(
    st.just(["ask"]), st.just(["ask"]), st.just(["ask"]),
    st.tuples(st.just("tell"), st.integers(0, 20), loss).map(list),
    st.tuples(st.just("tell"), st.integers(0, 20), loss).map(list),
    st.tuples(st.just("tell"), st.integers(0, 20), loss).map(list),
    st.tuples(st.just("new"), st.integers(0, 3), loss).map(list),
    st.tuples(st.just("again"), st.integers(0, 20), loss).map(list),
    st.tuples(st.just("suggest"), st.integers(1, 4)).map(list),
    st.tuples(st.just("bad"), st.integers(0, 6)).map(list),
)


class Part:
    """cheap constraint satisfied by about two thirds of the values, whatever they are"""

    def __init__(self, salt):
        self.salt = salt

    def __call__(self, value):
        return zlib.crc32((repr(value) + str(self.salt)).encode()) % 3 != 0


class Model:
    def __init__(self):
        self.ask = self.tell = self.not_asked = 0
        self.suggestions = []


def run_protocol(c, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.common import errors

    root = P.build(c["spec"])
    root.random_state.seed(c["seed"])
    check = None
    if c.get("constraint") is not None and c["opt"] not in STRICT | {"NGOpt", "CMA"}:
        check = Part(c["constraint"])
        if sum(check(root.sample().value) for _ in range(12)) >= 5:
            root.register_cheap_constraint(check)
        else:
            check = None
    opt = ng.optimizers.registry[c["opt"]](root, budget=c["budget"], num_workers=c["workers"])
    events = []
    opt.register_callback("ask", lambda o: events.append("ask"))
    opt.register_callback("tell", lambda o, x, v: events.append(("tell", x.uid, v)))
    m = Model()
    pending, told, uids, objs = [], [], set(), []

    def books(when):
        ensure_eq(opt.num_ask, m.ask, f"num_ask after {when}")
        ensure_eq(opt.num_tell, m.tell, f"num_tell after {when}")
        ensure_eq(opt.num_tell_not_asked, m.not_asked, f"num_tell_not_asked after {when}")
        ensure_eq(sum(e == "ask" for e in events), m.ask, "number of calls of the ask callback")

    def tell(cand, value, asked):
        n = len(events)
        data, val = cand.get_standardized_data(reference=root), cand.value
        try:
            opt.tell(cand, value)
        except errors.TellNotAskedNotSupportedError:
            ensure(not asked, "TellNotAskedNotSupportedError for an asked point")
            raise Skip from None
        m.tell += 1
        m.not_asked += not asked
        ensure_eq(events[n:], [("tell", cand.uid, value)], "tell callback")
        ensure_eq(cand.loss, value, "loss of the told candidate")
        ensure(P.same_value(cand.value, val), "tell changed the value of the candidate")
        ensure(P.same_value(cand.get_standardized_data(reference=root), data), "tell changed the candidate")
        told.append(cand)

    kinds = set()
    for op in c["ops"]:
        kind = op[0]
        if kind == "ask":
            if len(pending) >= c["workers"] + (0 if c["opt"] in STRICT else 3):
                continue
            cand = opt.ask()
            m.ask += 1
            ensure(isinstance(cand, type(root)), f"asked a {type(cand)}")
            ensure(cand.uid not in uids, "the same candidate was asked twice")
            ensure(all(cand is not x for x in objs), "the same object was asked twice")
            uids.add(cand.uid)
            objs.append(cand)
            with expect_raises(RuntimeError, msg="modifying an asked candidate"):
                cand.value = cand.value
            with expect_raises(RuntimeError, msg="mutating an asked candidate"):
                cand.mutate()
            P.check_value(c["spec"], cand.value, "asked ")
            v = cand.value
            ensure(P.same_value(v, cand.value), "the value of an asked candidate changes when it is read")
            while check is not None and m.suggestions and not check(root.spawn_child(new_value=m.suggestions[-1]).value):
                m.suggestions.pop()  # the ask goes on with the next suggestion, or with a usual point
                kinds.add("refused suggestion")
            if m.suggestions:
                val = m.suggestions.pop()
                ensure(P.same_value(cand.value, val, 1e-9, 1e-9) or loose_eq(cand.value, val), f"suggested {val!r}, but {cand.value!r} was asked")
                pending.append([cand, False])
                kind = "suggested"
            else:
                pending.append([cand, True])
        elif kind == "tell":
            if not pending:
                continue
            i = op[1] % len(pending)
            if i:
                kinds.add("reordered")
            cand, asked = pending.pop(i)
            tell(cand, op[2], asked)
        elif kind == "new":
            cand = [lambda: root.sample(), lambda: root.spawn_child(), lambda: root.spawn_child(new_value=root.sample().value), lambda: (told or [root])[-1].spawn_child()][op[1]]()
            tell(cand, op[2], False)
        elif kind == "again":
            if not told:
                continue
            tell(told[op[1] % len(told)], op[2], False)
        elif kind == "suggest":
            if c["opt"] in NOSUGGEST or ambiguous(c["spec"]):
                continue
            for _ in range(op[1]):
                src = root.sample()
                val = src.value
                if val is None or (check is None and not src.satisfies_constraints()):
                    continue
                if c["spec"]["k"] == "inst":
                    opt.suggest(*val[0], **val[1])
                else:
                    opt.suggest(val)
                m.suggestions.append(val)
        else:
            before = len(opt.archive)
            cand = pending[0][0] if pending else root.spawn_child()
            bad = op[1]
            if bad == 0:
                with expect_raises(TypeError, msg="telling an array instead of a candidate"):
                    opt.tell(np.zeros(root.dimension), 1.0)
            elif bad == 1:
                with expect_raises(TypeError, msg="telling a string"):
                    opt.tell(cand, "12")
            elif bad == 2:
                with expect_raises(TypeError, msg="telling None"):
                    opt.tell(cand, None)
            elif bad == 3 and m.tell:
                with expect_raises(ValueError, msg="telling another number of losses"):
                    opt.tell(cand, [1.0, 2.0])
            elif bad == 4:
                with expect_raises(AssertionError, msg="callback on an unknown method"):
                    opt.register_callback("blublu", lambda o: None)
            elif bad == 5:
                with expect_raises(ValueError, TypeError, msg="empty loss"):
                    opt.tell(cand, [])
            elif bad == 6 and m.tell:
                with expect_raises(ValueError, msg="setting another number of objectives"):
                    opt.num_objectives = 3
            ensure_eq(len(opt.archive), before, "archive after a rejected tell")
        kinds.add(kind)
        books(kind)
    if m.tell:
        ensure_eq(opt.num_objectives, 1, "num_objectives")
    rec.nontrivial(len(kinds) >= 4 and m.tell >= 2)
    for k in kinds:
        rec.event(k)


# these may delegate to a sequential optimizer, which waits for its loss: num_workers is a limit
STRICT = {"NGOpt", "MetaModel", "Portfolio", "ParaPortfolio", "ASCMADEthird", "MultiDiscrete"}


def loose_eq(a, b):
    """== as used for finding an option of a choice (False == 0)"""
    try:
        return bool(a == b)
    except ValueError:
        return False


NOSUGGEST = {"NoisyBandit"}
SPEC = P.any_param(max_depth=1).filter(lambda s: 0 < P.dim_of(s) <= 12 and not P.any_node(s, lambda n: n["k"] == "log" or "exponent" in n))


def run_unknown(c, rec: Recorder) -> None:
    """optimizers refuse parametrizations without variables and unsupported parallelism"""
    import nevergrad as ng

    cls = ng.optimizers.registry[c["opt"]]
    with expect_raises(ValueError, msg="no variable to optimize"):
        cls(ng.p.Tuple(1, "a"), budget=10)
    root = ng.p.Array(shape=(2,))
    opt = cls(root, budget=None if c["nobudget"] else 10)
    if c["nobudget"]:
        with expect_raises(ValueError, msg="minimize without budget"):
            opt.minimize(lambda x: 0.0)
    ensure(root.sample() is not None, "")
    with expect_raises(RuntimeError, msg="modifying the parametrization of an optimizer"):
        root.value = np.ones(2)
    for cls2 in (ng.optimizers.Cobyla, ng.optimizers.Powell):
        with expect_raises(ValueError, msg="parallel run of a sequential optimizer"):
            cls2(2, budget=10, num_workers=2)
    rec.nontrivial()


PROPS = [
    Prop("protocol", st.fixed_dictionaries({
        "opt": st.sampled_from(FREE), "spec": SPEC, "seed": P.seeds, "budget": st.sampled_from([10, 30, 100, 400]), "workers": st.sampled_from([1, 1, 2, 5]),
        "constraint": st.one_of(st.none(), st.none(), st.integers(0, 9)),
        "ops": st.lists(OPS, min_size=4, max_size=25)}), run_protocol, 900, rule="at least four kinds of operations and two tells", shards=8),
    Prop("refusals", st.fixed_dictionaries({"opt": st.sampled_from(["OnePlusOne", "DE", "CMA", "RandomSearch", "PSO", "ES"]), "nobudget": st.booleans()}), run_unknown, 12),
]
