"""C14: archive, current bests and default recommendation match a reference model of the history"""
import math

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, Skip, ensure, ensure_eq, expect_raises
from pbt import params as P

NAMES = ["optimistic", "pessimistic", "average", "minimum"]
# base: a minimal optimizer defined here through the documented extension point
DEFAULT_RECOM = ["base", "base", "base", "OnePlusOne", "DiscreteOnePlusOne", "PSO", "cGA", "RandomSearch", "OptimisticNoisyOnePlusOne", "ES", "DE"]
losses = st.one_of(st.integers(-6, 6).map(float), st.integers(-6, 6).map(float), P.floats(-50, 50), P.floats(-1e8, 1e8))


def make_opt(ng, name, root, budget, workers):
    if name != "base":
        return ng.optimizers.registry[name](root, budget=budget, num_workers=workers)

    class Minimal(ng.optimizers.base.Optimizer):
        def _internal_ask(self):
            return self._rng.normal(0, 1, self.dimension)

    return Minimal(root, budget=budget, num_workers=workers)


def estimates(ls):
    """reference statistics of a list of losses"""
    n = len(ls)
    mean = math.fsum(ls) / n
    var = 1e6
    if n > 1:
        var = math.sqrt(n / (n - 1)) * max(0.0, math.fsum((x - mean) ** 2 for x in ls) / n)
    d = 0.1 * math.sqrt(var / (1 + n))
    return {"average": mean, "minimum": min(ls), "optimistic": mean - d, "pessimistic": mean + d}


def tol(ls):
    m = max(abs(x) for x in ls)
    return 1e-6 * m + 1e-9 if len(ls) > 1 else 1e-12 * m + 1e-9


class PruningSpy:
    """calls the real pruning, and keeps what it got and gave"""

    def __init__(self, inner):
        self.inner = inner
        self.log = []

    def __call__(self, archive):
        before = dict(archive.bytesdict)
        out = self.inner(archive)
        self.log.append((before, dict(out.bytesdict)))
        return out


def check_pruning(before, after, min_len, max_len):
    for k, v in after.items():
        ensure(k in before and before[k] is v, "pruning made up an archive entry")
    if len(before) < max_len:
        ensure_eq(len(after), len(before), "pruned below max_len")
        return
    keep, maybe = set(), set()
    for name in NAMES[:3]:
        est = {k: v.get_estimation(name) for k, v in before.items()}
        limit = sorted(est.values())[min(min_len, len(est) - 1)]
        for k, e in est.items():
            if e < limit - 1e-12 * abs(limit):
                keep.add(k)
            elif e < limit + 1e-12 * abs(limit) and e != limit:
                maybe.add(k)
    ensure(keep <= set(after), "pruning removed one of the best points", len(keep), len(after), min_len)
    ensure(set(after) <= keep | maybe, "pruning kept a point which is not among the best of any criterion", len(keep), len(after), min_len)


def run_archive(c, rec: Recorder) -> None:
    import nevergrad as ng

    root = P.build(c["spec"])
    if not c["det"]:
        root.function.deterministic = False
    root.random_state.seed(c["seed"])
    opt = make_opt(ng, c["opt"], root, c["budget"], c["workers"])
    spy = None
    if c["prune"]:
        spy = PruningSpy(ng.optimization.utils.Pruning(min_len=c["prune"][0], max_len=c["prune"][1]))
        opt.pruning = spy
    else:
        ensure(opt.pruning is None or opt.pruning.max_len >= 300, "default pruning below three times the minimum length of 100")
    hist = {}  # data -> losses told since the point is in the archive
    cands = {}  # data -> candidates
    obj_told = set()
    multi_told = set()  # points for which a same candidate object was told several times
    all_losses = {}  # data -> all losses
    pending = []
    pruned = tied = False
    repeats = 0
    for op in c["ops"]:
        if op[0] == "ask" or (op[0] == "tell" and not pending):
            if len(pending) < c["workers"]:
                pending.append(opt.ask())
            if op[0] == "ask":
                continue
        if op[0] == "tell":
            cand = pending.pop(op[1] % len(pending))
        elif op[0] == "point":
            data = P.cycle(c["pts"][op[1] % len(c["pts"])], root.dimension)
            cand = root.spawn_child()
            cand.set_standardized_data(data)
        elif op[0] == "again":
            flat = [x for k in sorted(cands) for x in cands[k]]
            if not flat:
                continue
            cand = flat[op[1] % len(flat)]
        elif op[0] == "best":
            if not hist:
                continue
            cand = opt.current_bests[NAMES[op[1] % 4]].parameter
        loss = op[2]
        key = cand.get_standardized_data(reference=root).tobytes()
        opt.tell(cand, loss)
        repeats += key in hist
        hist.setdefault(key, []).append(loss)
        all_losses.setdefault(key, []).append(loss)
        if id(cand) in obj_told:
            multi_told.add(key)
        obj_told.add(id(cand))
        cands.setdefault(key, []).append(cand)
        # archive against the model
        arch = opt.archive
        if spy is not None:
            before, after = spy.log.pop()
            ensure(not spy.log, "pruning called more than once per tell")
            ensure_eq(sorted(before), sorted(hist), "points of the archive before pruning")
            check_pruning(before, after, *c["prune"])
            for k in list(hist):
                if k not in after:
                    del hist[k]
                    pruned = True
        ensure_eq(len(arch), len(hist), "size of the archive")
        for k, ls in hist.items():
            x = np.frombuffer(k)
            ensure(x in arch, "a told point is missing in the archive", x, ls)
            mv = arch[x]
            ensure_eq(mv.count, len(ls), f"number of evaluations of {x}")
            est = estimates(ls)
            for name in NAMES:
                got = mv.get_estimation(name)
                ensure(abs(got - est[name]) <= tol(ls), f"{name} estimate of {ls}: {got} instead of {est[name]}")
            ensure(np.array_equal(mv.x, x), "the parameter of the archived point is another point")
            if k not in multi_told:
                ensure_eq(mv.parameter.loss, min(ls), "loss of the parameter kept for a point")
                ensure(any(mv.parameter is y for y in cands[k]), "the archived parameter was never told")
        keys = [b for b, _ in arch.bytesdict.items()]
        arrays = list(arch.keys_as_arrays())
        ensure_eq([a.tobytes() for a in arrays], keys, "keys_as_arrays")
        # bests
        mvs = list(arch.values())
        for name in NAMES:
            cur = opt.current_bests[name]
            est = cur.get_estimation(name)
            low = min((m.get_estimation(name) for m in mvs), default=np.inf)
            ensure(est <= low, f"the current {name} best has estimate {est} while {low} is in the archive")
            if not pruned:
                ensure(any(cur is m for m in mvs), f"the current {name} best is not in the archive")
            if name == "minimum" and not (pruned and repeats):
                ensure_eq(est, min(min(x) for x in all_losses.values()), "minimum over all losses")
        tied |= len({m.get_estimation("pessimistic") for m in mvs}) < len(mvs)
    if not all_losses:
        return
    # default recommendation
    if c["opt"] in ("base", "OnePlusOne", "DiscreteOnePlusOne", "RandomSearch"):
        r = opt.provide_recommendation()
        name = "minimum" if c["det"] else "pessimistic"
        data = r.get_standardized_data(reference=root).tobytes()
        if not pruned:
            ensure(data in hist, "the recommendation is not a told point")
            scores = {k: arch[np.frombuffer(k)].get_estimation(name) for k in hist}
            ensure_eq(scores[data], min(scores.values()), f"{name} estimate of the recommended point")
        ensure(any(r is y for y in cands[data]), "the recommendation was never told")
        if c["det"] and data not in multi_told and not (pruned and repeats):
            ensure_eq(r.loss, min(min(x) for x in all_losses.values()), "loss of the recommendation")
        ensure(opt.recommend() is r, "recommend and provide_recommendation disagree")
    rec.nontrivial(repeats >= 2 and len(all_losses) >= 2)
    rec.event("pruned", pruned)
    rec.event("ties", tied)
    rec.event("stochastic function", not c["det"])


SPEC = P.any_param(max_depth=1, methods=tuple(P.HARD_METHODS)).filter(lambda s: 0 < P.dim_of(s) <= 8)
OPS = st.one_of(
    st.just(["ask"]),
    st.tuples(st.just("tell"), st.integers(0, 9), losses).map(list),
    st.tuples(st.just("tell"), st.integers(0, 9), losses).map(list),
    st.tuples(st.just("point"), st.integers(0, 5), losses).map(list),
    st.tuples(st.just("point"), st.integers(0, 5), losses).map(list),
    st.tuples(st.just("again"), st.integers(0, 9), losses).map(list),
    st.tuples(st.just("best"), st.integers(0, 3), losses).map(list),
)
PRUNE = st.one_of(st.none(), st.none(), st.tuples(st.integers(1, 3), st.integers(1, 4)).map(lambda t: [t[0], t[0] + t[1]]))


def run_prune(c, rec: Recorder) -> None:
    """pruning alone, on bigger archives"""
    import nevergrad as ng
    from nevergrad.optimization import utils as ou

    root = ng.p.Array(shape=(1,))
    arch = ou.Archive()
    for i, ls in enumerate(c["losses"]):
        param = root.spawn_child()
        param.set_standardized_data([float(i)])
        arch[np.array([float(i)])] = ou.MultiValue(param, ls[0], reference=root)
        for x in ls[1:]:
            arch[np.array([float(i)])].add_evaluation(x)
    before = dict(arch.bytesdict)
    default = c["min_len"] == 0
    if default:
        pr = ou.Pruning.sensible_default(num_workers=c["workers"], dimension=c["dim"])
        low = max(100, 7 * c["workers"])
        ensure_eq(pr.min_len, low, "default min_len")
        ensure(3 * low <= pr.max_len <= 10 * low, "default max_len")
        ensure(pr.max_len == 3 * low or pr.max_len * c["dim"] * 16 <= 1024**3, "default max_len exceeds 1gb")
    else:
        pr = ou.Pruning(c["min_len"], c["min_len"] + c["extra"])
    out = pr(arch)
    check_pruning(before, dict(out.bytesdict), pr.min_len, pr.max_len)
    ensure(len(out) <= max(3 * pr.min_len, min(pr.max_len, len(before))), "size after pruning")
    if len({v.mean for v in before.values()}) == len(before) >= pr.max_len and all(v.count == 1 for v in before.values()):
        best = sorted(before, key=lambda k: before[k].mean)[: pr.min_len]
        ensure(set(out.bytesdict) == set(best) or max(abs(v.mean) for v in before.values()) > 1e5, "distinct means: the best are kept")
    rec.nontrivial(len(before) >= pr.max_len)
    rec.event("pruned", len(out) < len(before))


def run_compare(c, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.optimization import base

    root = P.build(c["spec"])
    root.random_state.seed(c["seed"])
    opt = make_opt(ng, "base", root, 100, 30)
    base.addCompare(opt)
    told = []
    for v in c["losses"]:
        told.append(opt.ask())
        opt.tell(told[-1], v)
    for w, ls in c["rounds"]:
        winners = [opt.ask() for _ in range(w)]
        losers = [told[i % len(told)] for i in ls] if told else []
        keys = [x.get_standardized_data(reference=root).tobytes() for x in winners + told]
        if len(set(keys)) < len(keys):
            raise Skip
        n = opt.num_tell
        opt.compare(winners, losers)
        ensure_eq(opt.num_tell, n + w, "number of tells of compare")
        vals = [opt.archive[x.get_standardized_data(reference=root)].get_estimation("average") for x in winners]
        ensure(all(a < b for a, b in zip(vals, vals[1:])), "winners are not in order", vals)
        lvals = [opt.archive[x.get_standardized_data(reference=root)].get_estimation("average") for x in losers]
        if lvals:
            ensure(max(vals) < min(lvals), "a loser is as good as a winner", vals, lvals)
        told += winners
        rec.event("losers", bool(lvals))
        if len(losers) and set(map(id, losers)) >= set(map(id, told[:-w])):
            ensure(opt.provide_recommendation() is winners[0], "the first winner is not recommended")
    rec.nontrivial(any(w > 1 and ls for w, ls in c["rounds"]))


PROPS = [
    Prop("archive", st.fixed_dictionaries({
        "opt": st.sampled_from(DEFAULT_RECOM), "spec": SPEC, "det": st.booleans(), "seed": P.seeds, "budget": st.sampled_from([20, 100, None]), "workers": st.sampled_from([1, 1, 3]),
        "prune": PRUNE, "pts": st.lists(st.lists(P.nice, min_size=1, max_size=3), min_size=1, max_size=6),
        "ops": st.lists(OPS, min_size=8, max_size=40)}), run_archive, 1200, rule="at least two repeated evaluations and two points", shards=8),
    Prop("pruning", st.fixed_dictionaries({
        "min_len": st.integers(0, 6), "extra": st.integers(1, 12), "workers": st.sampled_from([1, 3, 14, 15, 20, 100]), "dim": st.sampled_from([1, 10, 10**4, 10**5, 10**6]),
        "losses": st.one_of(st.lists(st.lists(losses, min_size=1, max_size=3), min_size=1, max_size=30),
                            st.lists(st.lists(P.floats(-50, 50), min_size=1, max_size=1), min_size=5, max_size=30, unique_by=lambda x: x[0]))}),
        run_prune, 800, rule="the archive has at least max_len points", shards=4),
    Prop("compare", st.fixed_dictionaries({
        "spec": SPEC, "seed": P.seeds, "losses": st.lists(P.nice, max_size=6),
        "rounds": st.lists(st.tuples(st.integers(1, 4), st.lists(st.integers(0, 9), max_size=8)).map(list), min_size=1, max_size=4)}), run_compare, 300,
         rule="several winners and at least one loser", shards=4),
]
