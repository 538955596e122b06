"""C24: meta-optimizers delegate every evaluation to their sub-optimizers"""
import math
import random

import numpy as np
from hypothesis import strategies as st
from pbt.core import Enum, Prop, Recorder, Skip, ensure, ensure_eq, expect_raises
from pbt import params as P
from . import optim as O


class Spy:
    """makes optimizer classes, whose instances keep a log of what they are asked and told"""

    def __init__(self):
        self.instances = []  # leaf optimizers, in order of creation

    def make(self, name="Rec", accepts=True, sequential=False):
        import nevergrad as ng

        spy = self

        class Rec(ng.optimizers.base.Optimizer):
            no_parallelization = sequential

            def __init__(self, parametrization, budget=None, num_workers=1):
                super().__init__(parametrization, budget=budget, num_workers=num_workers)
                self.kind = name
                self.accepts = accepts
                self.index = len(spy.instances)
                self.asked, self.told, self.foreign = {}, {}, {}
                self.log = []
                spy.instances.append(self)

            def _internal_ask_candidate(self):
                data = self._rng.normal(self.index, 1, self.dimension)
                cand = self.parametrization.spawn_child().set_standardized_data(data)
                self.asked[cand.uid] = cand.get_standardized_data(reference=self.parametrization)
                self.log.append(cand)
                return cand

            def _internal_tell_candidate(self, candidate, loss):
                self.told.setdefault(candidate.uid, []).append(loss)

            def _internal_tell_not_asked(self, candidate, loss):
                if not self.accepts:
                    raise ng.errors.TellNotAskedNotSupportedError
                data = candidate.get_standardized_data(reference=self.parametrization)
                self.foreign.setdefault(candidate.uid, []).append((data, loss))

        Rec.__name__ = name
        return Rec

    def start(self, cls, *args, **kwargs):
        """instance of an optimizer (configurations make a dummy instance before)"""
        self.instances.clear()
        return cls(*args, **kwargs)

    def asker(self, before, msg=""):
        """the (single) optimizer which was asked since the counts were taken"""
        new = [k for k, r in enumerate(self.instances) if len(r.log) > before[k]]
        ensure(len(new) == 1 and len(self.instances[new[0]].log) == before[new[0]] + 1, f"{msg}: not exactly one sub-optimizer was asked once", new)
        return new[0]

    def counts(self):
        return [len(r.log) for r in self.instances]

    def heard(self, rec, uid):
        """losses of all the tells of a point"""
        return rec.told.get(uid, []) + [x for _, x in rec.foreign.get(uid, [])]


MOVES = st.lists(
    st.one_of(
        st.just(["ask"]),
        st.just(["ask"]),
        st.tuples(st.just("tell"), st.integers(0, 9), st.integers(-5, 20).map(float)).map(list),
        st.tuples(st.just("tell"), st.integers(0, 9), st.integers(-5, 20).map(float)).map(list),
        st.tuples(st.just("foreign"), st.integers(-3, 3), st.integers(-5, 20).map(float)).map(list),
    ),
    min_size=20,
    max_size=60,
)
RARE = MOVES.map(lambda ms: [m for k, m in enumerate(ms) if m[0] != "foreign" or k % 4 == 0])


def sequence(case, opt, limit, on_ask, on_tell, foreign=True):
    """plays the moves"""
    pending = []
    for k, move in enumerate(case["moves"]):
        if move[0] == "ask":
            if len(pending) >= limit:
                continue
            pending.append(on_ask(opt.ask))
        elif move[0] == "tell":
            if pending:
                cand = pending.pop(move[1] % len(pending))
                on_tell(cand, move[2] + k / 64, True)
        elif foreign:
            cand = opt.parametrization.spawn_child()
            cand.set_standardized_data([move[1] + 0.01 * k + 0.1 * j for j in range(opt.dimension)])
            on_tell(cand, move[2] + k / 64, False)


# ---------------------------------------------------------------------------
# chaining


NAMED = {"half": 1 / 2, "third": 1 / 3, "fourth": 1 / 4, "tenth": 1 / 10, "most": 4 / 5}


def run_chain(case, rec: Recorder) -> None:
    import nevergrad as ng

    spy = Spy()
    budget, workers, dim = case["budget"], case["workers"], case["dim"]
    n = len(case["budgets"]) + 1
    cls = ng.optimizers.Chaining([spy.make(f"Rec{k}") for k in range(n)], case["budgets"], no_crossing=case["no_crossing"])
    opt = spy.start(cls, ng.p.Array(shape=(dim,)), budget=budget, num_workers=workers)
    subs = spy.instances
    ensure_eq([s.kind for s in subs], [f"Rec{k}" for k in range(n)], "sub-optimizers")
    for s, b in zip(subs, case["budgets"]):
        if isinstance(b, int):
            ensure_eq(s.budget, b, "budget of a sub-optimizer")
        elif b == "dimension":
            ensure_eq(s.budget, dim, "budget dimension")
        elif b == "num_workers" or budget is None:
            ensure_eq(s.budget, workers, f"budget {b}")
        else:
            exact = math.sqrt(budget) if b == "sqrt" else budget / n if b == "equal" else budget * NAMED[b]
            ensure(s.budget == max(1, math.floor(exact + 1e-9)), f"budget {b} out of {budget}", s.budget)
        ensure_eq(s.num_workers, workers, "workers of a sub-optimizer")
    used = [s.budget for s in subs[:-1]]
    ensure_eq(subs[-1].budget, None if budget is None else max(4, budget - sum(used)), "budget of the last optimizer")
    ends = list(np.cumsum(used)) + [float("inf")]
    state = {"ask": 0, "tell": 0}
    origin = {}

    def on_ask(ask):
        before = spy.counts()
        cand = ask()
        who = spy.asker(before, "ask")
        expected = next(k for k, e in enumerate(ends) if state["ask"] < e)
        ensure_eq(who, expected, f"optimizer of ask {state['ask']} (ends: {ends})")
        ensure(cand.uid in subs[who].asked, "the candidate is not the one of the sub-optimizer")
        ensure_eq(cand.get_standardized_data(reference=opt.parametrization).tolist(), subs[who].asked[cand.uid].tolist(), "asked point")
        origin[cand.uid] = who
        state["ask"] += 1
        return cand

    def on_tell(cand, loss, asked):
        opt.tell(cand, loss)
        who = origin.get(cand.uid)
        for k, s in enumerate(subs):
            heard = spy.heard(s, cand.uid)
            ensure(heard in ([], [loss]), f"optimizer {k} is told {heard} instead of {loss}")
            if k == who:
                ensure_eq(s.told.get(cand.uid), [loss], f"the optimizer {k} which asked for the point at tell {state['tell']} is told")
            elif case["no_crossing"]:
                ensure(asked is False or not heard, f"no crossing: optimizer {k} is told the point of optimizer {who}")
            elif state["tell"] < ends[k]:
                ensure_eq(heard, [loss], f"loss {state['tell']} for optimizer {k}, which follows or is running (ends: {ends})")
        state["tell"] += 1

    sequence(case, opt, case["pending"], on_ask, on_tell)
    rec.nontrivial(len({origin[u] for u in origin}) >= 2 and state["tell"] >= 3)
    rec.event("over budget", budget is not None and state["ask"] > budget)


# ---------------------------------------------------------------------------
# portfolio


def run_portfolio(case, rec: Recorder) -> None:
    import nevergrad as ng

    spy = Spy()
    budget, workers, dim, warmup = case["budget"], case["workers"], case["dim"], case["warmup"]
    n = len(case["subs"])
    if warmup is not None and budget is None:
        raise Skip
    sequential = [s == "sequential" for s in case["subs"]]
    if all(sequential) and workers > n:
        raise Skip  # documented limitation: not enough parallel optimizers
    cls = ng.optimizers.ConfPortfolio(optimizers=[spy.make(f"Rec{k}", accepts=s == "accepts", sequential=s == "sequential") for k, s in enumerate(case["subs"])], warmup_ratio=warmup, no_crossing=case["no_crossing"])
    opt = spy.start(cls, ng.p.Array(shape=(dim,)), budget=budget, num_workers=workers)
    subs = spy.instances
    ensure_eq([s.kind for s in subs], [f"Rec{k}" for k in range(n)], "sub-optimizers")
    ensure(all(s.num_workers == 1 for s, q in zip(subs, sequential) if q), "a sequential sub-optimizer has several workers")
    if warmup != 1.0 and (not any(sequential) or workers > n):
        ensure(sum(s.num_workers for s in subs) >= workers, "not enough workers", [s.num_workers for s in subs])
    if budget is None:
        ensure(all(s.budget is None for s in subs), "budget of a sub-optimizer", [s.budget for s in subs])
    elif warmup is None:
        ensure(sum(s.budget for s in subs) >= budget and all(s.budget <= budget for s in subs), "budgets of the sub-optimizers", [s.budget for s in subs], budget)
    else:
        ensure(all(s.budget >= math.floor(warmup * budget / n) for s in subs), "budgets of the sub-optimizers", [s.budget for s in subs], budget)
        if warmup < 1:
            ensure(all(s.budget >= (1 - warmup) * budget + warmup * budget / n - 1 for s in subs), "budgets of the sub-optimizers cannot hold the whole second phase", [s.budget for s in subs], budget)
    origin, told = {}, {}
    state = {"selected": None, "tell": 0, "asked": [0] * n, "pending": [0] * n}
    width = max(s.num_workers for s in subs)

    def on_ask(ask):
        before = spy.counts()
        if n > 1 and warmup is not None and state["selected"] is None and state["tell"] > int(warmup * budget):
            ind = origin.get(opt.current_bests["pessimistic"].parameter.uid)
            if ind is not None and (workers == 1 or subs[ind].num_workers > 1):
                state["selected"] = ind
        cand = ask()
        if cand.uid not in {c.uid for s in subs for c in s.log}:  # the first point of some optimizers
            new = [k for k in range(n) if subs[k].num_ask > len(subs[k].log) + state.setdefault("extra", [0] * n)[k]]
            ensure(len(new) == 1 and new[0] > 1, "ask of a suggested point", new)
            who = new[0]
            state["extra"][who] += 1
            ensure(not subs[who].log and not state["asked"][who], "an optimizer which knows a point got a random one")
            state["random"] = state.get("random", set()) | {cand.uid}
        else:
            who = spy.asker(before, "ask")
        if state["selected"] is not None:
            ensure_eq(who, state["selected"], "the optimizer selected after the warmup")
        else:
            if not any(sequential):
                trial = list(state["asked"])
                trial[who] += 1
                ensure(max(trial) - min(trial) <= width, f"asks are not balanced: {trial}")
            elif sequential[who] and state["pending"][who]:
                free = [k for k in range(n) if not (sequential[k] and state["pending"][k])]
                ensure(not free, f"optimizer {who} is sequential and asked before it was told, though {free} are available")
        origin[cand.uid] = who
        state["asked"][who] += 1
        state["pending"][who] += cand.uid not in state.get("random", ())
        return cand

    def on_tell(cand, loss, asked):
        who = origin.get(cand.uid)
        alive = range(n) if state["selected"] is None else [state["selected"]]
        if not asked and not any(subs[k].accepts for k in alive):
            with expect_raises(ng.errors.TellNotAskedNotSupportedError, msg="no sub-optimizer accepts foreign points"):
                opt.tell(cand, loss)
            state["broken"] = True
            return
        opt.tell(cand, loss)
        for k, s in enumerate(subs):
            heard = spy.heard(s, cand.uid)
            ensure(heard in ([], [loss]), f"optimizer {k} is told {heard} instead of {loss}")
            if k not in alive:
                ensure_eq(heard, [], f"the optimizer {k} is not in use any more but told")
            elif k == who:
                if cand.uid in state.get("random", ()) and not s.accepts:
                    continue  # (a random first point is foreign to the optimizer)
                ensure_eq(heard, [loss], f"the optimizer {k} is told of the point it asked for")
                ensure(cand.uid in s.told or cand.uid in state.get("random", ()), "its own point is told as foreign")
            elif case["no_crossing"] and asked:
                ensure_eq(heard, [], f"no crossing: the optimizer {k} is told of a point of {who}")
            elif s.accepts:
                ensure_eq(heard, [loss], f"the optimizer {k} is told of a point of {who}")
        state["tell"] += 1
        if who is not None:
            state["pending"][who] -= cand.uid not in state.get("random", ())

    pending = []
    for k, move in enumerate(case["moves"]):
        if state.get("broken"):
            break  # (the refused point may have been given to a part of the optimizers)
        if move[0] == "ask" and len(pending) < workers:
            if state["selected"] is not None and sequential[state["selected"]] and state["pending"][state["selected"]]:
                continue
            pending.append(on_ask(opt.ask))
        elif move[0] == "tell" and pending:
            on_tell(pending.pop(move[1] % len(pending)), move[2] + k / 64, True)
        elif move[0] == "foreign":
            cand = opt.parametrization.spawn_child()
            cand.set_standardized_data([move[1] + 0.01 * k + 0.1 * j for j in range(dim)])
            on_tell(cand, move[2] + k / 64, False)
    rec.nontrivial(sum(x > 0 for x in state["asked"]) >= 2 and state["tell"] >= 2)
    rec.event("selected after the warmup", state["selected"] is not None)


# ---------------------------------------------------------------------------
# nesting


TREES = st.recursive(
    st.just("leaf"),
    lambda sub: st.one_of(
        st.tuples(st.just("chain"), st.lists(sub, min_size=2, max_size=3), st.integers(1, 6), st.booleans()).map(list),
        st.tuples(st.just("portfolio"), st.lists(sub, min_size=1, max_size=3), st.just(0), st.booleans()).map(list),
        st.tuples(st.just("rescaled"), sub.map(lambda x: [x]), st.sampled_from([2, 5]), st.booleans()).map(list),
        st.tuples(st.just("split"), sub.map(lambda x: [x]), st.integers(1, 3), st.booleans()).map(list),
    ),
    max_leaves=5,
).filter(lambda t: t != "leaf" and any(x != "leaf" for x in t[1]))


def run_nested(case, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.optimization import optimizerlib

    spy = Spy()
    kinds = []

    def build(tree):
        if tree == "leaf":
            return spy.make()
        kind, subs, x, no_crossing = tree
        kinds.append(kind)
        made = [build(s) for s in subs]
        if kind == "chain":
            return ng.optimizers.Chaining(made, [x] * (len(made) - 1), no_crossing=no_crossing)
        if kind == "portfolio":
            return ng.optimizers.ConfPortfolio(optimizers=made, no_crossing=no_crossing)
        if kind == "rescaled":
            return optimizerlib.Rescaled(base_optimizer=made[0], scale=float(x))
        return ng.families.ConfSplitOptimizer(num_optims=x, multivariate_optimizer=made[0], monovariate_optimizer=made[0])

    opt = spy.start(build(case["tree"]), ng.p.Array(shape=(case["dim"],)), budget=40, num_workers=case["workers"])
    owners = {}
    asked_by = {}

    def on_ask(ask):
        before = {s.index: len(s.log) for s in spy.instances}
        cand = ask()
        new = [(s, c) for s in spy.instances for c in s.log[before.get(s.index, 0) :]]
        ensure(len(new) >= 1 or "portfolio" in kinds, "nobody was asked")
        if "split" not in kinds:
            ensure(len(new) <= 1, "several leaves were asked")
        if "split" not in kinds and "rescaled" not in kinds and new:
            ensure_eq(new[0][1].uid, cand.uid, "the asked candidate is not the one of the leaf")
        owners[cand.uid] = new
        for s, _ in new:
            asked_by[s.index] = True
        return cand

    def on_tell(cand, loss, asked):
        opt.tell(cand, loss)
        for s, c in owners.get(cand.uid, []):
            ensure_eq(s.told.get(c.uid, []), [loss], f"losses told to the leaf {s.index} which asked for the point, in {case['tree']}")

    sequence(case, opt, case["workers"], on_ask, on_tell)
    rec.nontrivial(len(kinds) >= 2 and len(owners) >= 3)
    rec.event("several leaves asked", len(asked_by) >= 2)


# ---------------------------------------------------------------------------
# rescaling


def run_rescaled(case, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.optimization.optimizerlib import Rescaled

    spy = Spy()
    dim, budget = case["dim"], case["budget"]
    if case["scale"] is None and budget is None:
        raise Skip
    opt = spy.start(Rescaled(base_optimizer=spy.make(), scale=case["scale"], shift=case["shift"]), ng.p.Array(shape=(dim,)), budget=budget, num_workers=case["workers"])
    sub = spy.instances[0]
    ensure_eq((len(spy.instances), sub.budget, sub.num_workers), (1, budget, case["workers"]), "number, budget and workers of the sub-optimizer")
    scale = case["scale"] if case["scale"] is not None else math.sqrt(math.log(max(2, budget)) / dim)
    mine = {}
    todo = set()

    def on_ask(ask):
        before = spy.counts()
        cand = ask()
        spy.asker(before, "ask")
        subcand = sub.log[-1]
        x, y = sub.asked[subcand.uid], cand.get_standardized_data(reference=opt.parametrization)
        if case["shift"] is None:
            ensure(np.allclose(y, scale * x, rtol=1e-9, atol=1e-12), "the point is not rescaled", x, y, scale)
        else:
            ensure(np.all(np.abs(y - scale * x) <= 8 * abs(scale * case["shift"]) + 1e-9), "the shift is too large", x, y, scale)
        mine[cand.uid] = subcand
        todo.add(cand.uid)
        return cand

    def on_tell(cand, loss, asked):
        opt.tell(cand, loss)
        if asked:
            ensure_eq(sub.told.get(mine[cand.uid].uid), [loss], "loss told to the sub-optimizer for its point")
            todo.discard(cand.uid)
        else:
            (out,) = [x[-1] for x in sub.foreign.values() if x[-1][1] == loss][-1:]
            ensure_eq(out[1], loss, "loss of a foreign point")
            if case["shift"] is None:
                ensure(np.allclose(scale * out[0], cand.get_standardized_data(reference=opt.parametrization), rtol=1e-9, atol=1e-12), "a foreign point is not rescaled")
        for u in todo:
            ensure(mine[u].uid not in sub.told, "a pending point is told")

    sequence(case, opt, case["workers"], on_ask, on_tell, foreign=True)
    rec.nontrivial(len(mine) - len(todo) >= 2)


# ---------------------------------------------------------------------------
# split


def run_split(case, rec: Recorder) -> None:
    import nevergrad as ng

    spy = Spy()
    kwargs = {k: v for k, v in case["how"].items()}
    kwargs = {k: float("inf") if v == "inf" else v for k, v in kwargs.items()}
    if case["groups"]:  # an instrumentation: the groups are the parameters
        names = ["b", "a", "c", "d"][: len(case["groups"])]
        made = {n: (ng.p.Array(shape=(g,)) if g > 1 or case["workers"] % 2 else ng.p.Scalar()) for n, g in zip(names, case["groups"])}
        args = [made.pop(n) for n in names[:1]] if case["positional"] else []
        root = ng.p.Instrumentation(*args, **made)
        dim = sum(case["groups"])
    else:
        root, dim = ng.p.Array(shape=(case["dim"],)), case["dim"]
    if "num_vars" in kwargs:
        cuts = sorted({min(max(1, c), dim - 1) for c in kwargs["num_vars"]} | {0, dim}) if dim > 1 else [0, 1]
        kwargs["num_vars"] = [b - a for a, b in zip(cuts, cuts[1:])]
    opt = spy.start(
        ng.families.ConfSplitOptimizer(multivariate_optimizer=spy.make("multi"), monovariate_optimizer=spy.make("mono"), progressive=case["progressive"], **kwargs),
        root, budget=case["budget"], num_workers=case["workers"]
    )
    subs = spy.instances
    sizes = [s.dimension for s in subs]
    ensure_eq(sum(sizes), dim, "sum of the sizes of the groups")
    ensure_eq([s.kind for s in subs], ["multi" if d > 1 else "mono" for d in sizes], f"optimizers of groups {sizes}")
    ensure_eq([(s.budget, s.num_workers) for s in subs], [(case["budget"], case["workers"])] * len(subs), "budgets and workers")
    if "num_vars" in kwargs:
        ensure_eq(sizes, kwargs["num_vars"], "sizes of the groups")
    elif "max_num_vars" in kwargs:
        m = kwargs["max_num_vars"]
        ensure(all(s == m for s in sizes[:-1]) and sizes[-1] <= m, f"sizes of the groups for max_num_vars={m}", sizes)
    elif "num_optims" in kwargs:
        ensure(len(sizes) == min(kwargs["num_optims"], dim) and max(sizes) - min(sizes) <= 1, f"sizes of the groups for num_optims={kwargs['num_optims']}", sizes)
    elif case["groups"] and len(case["groups"]) > 1:
        ensure_eq(sorted(sizes), sorted(case["groups"]), "sizes of the groups: the parameters")
    offsets = np.cumsum([0] + sizes)
    parts = {}
    changed = set()
    state = {"ask": 0}

    def on_ask(ask):
        before = spy.counts()
        cand = ask()
        data = cand.get_standardized_data(reference=opt.parametrization)
        mine = []
        for k, s in enumerate(subs):
            part = data[offsets[k] : offsets[k + 1]]
            new = s.log[before[k] :]
            if not new and case["progressive"]:
                ensure(k > 0 and np.allclose(part, 0), "coordinates of an optimizer which is not asked", k, part)
                limit = math.sqrt(2 * state["ask"] / case["budget"])
                ensure(k / len(subs) > limit - 1e-9, f"the optimizer {k} of {len(subs)} is not asked at {state['ask']}/{case['budget']}")
                continue
            ensure_eq(len(new), 1, f"asks of the group {k}")
            ensure(np.allclose(part, s.asked[new[0].uid], rtol=1e-9, atol=1e-12), f"coordinates of group {k} are not those it asked", part, s.asked[new[0].uid])
            mine.append((s, new[0]))
            changed.add(k)
        if case["progressive"]:
            limit = math.sqrt(2 * state["ask"] / case["budget"])
            ensure(all(k == 0 or k / len(subs) <= limit + 1e-9 for k, s in enumerate(subs) if len(s.log) > before[k]), "an optimizer is asked too early")
        if case["groups"] and not kwargs and len(case["groups"]) > 1:  # each parameter has the value of the candidate of its optimizer
            for s, c in mine:
                value = np.ravel(np.asarray(c.value)).tolist()
                values = [np.ravel(np.asarray(v)).tolist() for v in list(cand.args) + list(cand.kwargs.values())]
                ensure(any(np.allclose(value, v) for v in values if len(v) == len(value)), "the parameter does not have the value asked by its optimizer", value, values)
        parts[cand.uid] = mine
        state["ask"] += 1
        return cand

    def on_tell(cand, loss, asked):
        before = [sum(map(len, s.foreign.values())) for s in subs]
        opt.tell(cand, loss)
        data = cand.get_standardized_data(reference=opt.parametrization)
        for s, c in parts.get(cand.uid, []):
            ensure_eq(s.told.get(c.uid), [loss], "loss told to the optimizer of a group")
        if not asked:
            for k, s in enumerate(subs):
                ensure_eq(sum(map(len, s.foreign.values())), before[k] + 1, "foreign points told to a group")
                out, x = list(s.foreign.values())[-1][-1]
                ensure(x == loss and np.allclose(out, data[offsets[k] : offsets[k + 1]], rtol=1e-9, atol=1e-12), f"foreign point of group {k}", out, x)

    sequence(case, opt, case["workers"], on_ask, on_tell, foreign=True)
    rec.nontrivial(len(parts) >= 2 and len(subs) >= 2)
    rec.event("progressive", case["progressive"] and len(changed) >= 2)


# ---------------------------------------------------------------------------
# several single-objective runs


def run_msr(case, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.optimization import optimizerlib

    spy = Spy()
    opt = spy.start(optimizerlib.MultipleSingleRuns(num_single_runs=case["runs"], base_optimizer=spy.make()), ng.p.Array(shape=(2,)), budget=50, num_workers=case["workers"])
    subs = spy.instances
    ensure_eq(len(subs), case["runs"], "number of runs")
    m = case["objectives"]
    losses = []
    heard = [[] for _ in subs]
    order = []

    def on_ask(ask):
        n = [s.num_ask for s in subs]
        cand = ask()
        who = [k for k, s in enumerate(subs) if s.num_ask > n[k]]
        ensure_eq(len(who), 1, "number of optimizers which were asked")
        order.append(who[0])
        return cand

    def on_tell(cand, loss, asked):
        k = len(losses)
        vec = case["losses"][k % len(case["losses"])][:m]
        losses.append(vec)
        opt.tell(cand, vec if m > 1 else vec[0])
        ensure(m == 1 or np.array_equal(cand.losses, vec), "the losses of the candidate", cand.losses, vec)
        for s, out in zip(subs, heard):
            got = s.told.get(cand.uid, []) + [x for _, x in s.foreign.get(cand.uid, [])]
            ensure_eq(len(got), 1, "number of losses told to a run")
            out.append(got[0])

    sequence(case, opt, case["workers"], on_ask, on_tell)
    if losses:
        mat = np.array(losses)
        coeffs = []
        for out in heard:
            c = np.linalg.lstsq(mat, np.array(out), rcond=None)[0]
            ensure(np.allclose(mat @ c, out, atol=1e-6 * (1 + np.max(np.abs(mat)))), "the losses of a run are not a fixed combination of the losses", losses, out)
            if np.linalg.matrix_rank(mat, tol=1e-3) == m:
                ensure(np.all(c >= -1e-6) and np.all(c <= 1 + 1e-6), "weights out of [0, 1]", c)
                coeffs.append(tuple(np.round(c, 6)))
        ensure(len(set(coeffs)) == len(coeffs), "several runs have the same weights", coeffs)
        rec.nontrivial(bool(coeffs) and len(losses) > m)
    asked = [order.count(k) for k in range(len(subs))]
    ensure(max(asked) - min(asked) <= max(s.num_workers for s in subs), "asks are not balanced", asked)


# ---------------------------------------------------------------------------
# metamodels


def run_metamodel(case, rec: Recorder) -> None:
    import nevergrad as ng

    spy = Spy()
    dim = case["dim"]
    opt = spy.start(ng.families.ParametrizedMetaModel(multivariate_optimizer=spy.make()), ng.p.Array(shape=(dim,)), budget=200, num_workers=case["workers"])
    sub = spy.instances[0]
    ensure_eq((sub.budget, sub.num_workers), (200, case["workers"]), "budget and workers")
    minimum = dim * (dim - 1) // 2 + 2 * dim + 1
    model = [0]
    told = [0]

    def on_ask(ask):
        n = len(sub.log)
        cand = ask()
        if len(sub.log) == n:
            model[0] += 1
            ensure(told[0] >= minimum, "a model is used with too few points", told[0], minimum)
        else:
            ensure_eq(len(sub.log), n + 1, "asks of the optimizer")
            ensure_eq(sub.log[-1].uid, cand.uid, "candidate of the optimizer")
        return cand

    def on_tell(cand, loss, asked):
        loss = float(np.sum((cand.value - case["shift"]) ** 2))
        opt.tell(cand, loss)
        told[0] += 1
        ensure_eq(spy.heard(sub, cand.uid), [loss], "losses told to the optimizer")
        ensure_eq(cand.uid in sub.told, cand.uid in sub.asked, "told as asked")

    big = dict(case, moves=[["ask"], ["tell", 0, 0.0]] * case["rounds"] + case["moves"])
    sequence(big, opt, case["workers"], on_ask, on_tell)
    rec.nontrivial(model[0] >= 1)
    rec.event("points of the model", model[0])


# ---------------------------------------------------------------------------
# selected optimizers (competence maps): whatever is asked and told goes to the selected optimizer


def maps(tier, seed):
    import nevergrad as ng

    out = []
    for name in O.available():
        cls = ng.optimizers.registry[name]
        if isinstance(cls, type) and hasattr(cls, "_select_optimizer_cls"):
            for k in range(1 if tier == "quick" else 12):
                rng = random.Random(f"{seed}/{name}/{k}")
                out.append({"opt": name, "dim": rng.choice([1, 2, 3, 10, 40]), "budget": rng.choice([None, 5, 30, 200, 3000, 30000]) if name in ("CMA", "MetaCMA") else rng.choice([5, 30, 200, 3000, 30000]), "workers": rng.choice([1, 1, 1, 2, 5, 30]), "steps": rng.choice([3, 12, 25]), "seed": rng.randrange(1000), "discrete": rng.random() < 0.2, "foreign": rng.random() < 0.3})
    return out


def shrink_map(case):
    for key, values in (("dim", [1, 2]), ("workers", [1]), ("steps", [1, 2, 3, 5]), ("discrete", [False]), ("foreign", [False]), ("seed", [0])):
        for v in values:
            if case[key] != v and not (isinstance(v, int) and v > case[key]):
                yield dict(case, **{key: v})


def run_map(case, rec: Recorder) -> None:
    import nevergrad as ng

    root = ng.p.Instrumentation(ng.p.Choice([1, 2, 3]), ng.p.Array(shape=(case["dim"],))) if case["discrete"] else ng.p.Array(shape=(case["dim"],))
    root.random_state.seed(case["seed"])
    cls = ng.optimizers.registry[case["opt"]]
    if cls.no_parallelization and case["workers"] > 1:
        raise Skip
    opt = cls(root, budget=case["budget"], num_workers=case["workers"])
    sub = opt.optim
    ensure(sub is opt.optim, "the selected optimizer changes")
    if sub.no_parallelization and case["workers"] > 1:
        raise Skip
    pending = []
    losses = []
    with O.limits():
        for k in range(case["steps"] if case["budget"] is None else min(case["steps"], case["budget"])):
            pending.append(opt.ask())
            ensure_eq((sub.num_ask, opt.num_ask), (k + 1, k + 1), "number of asks of the selected optimizer")
            if len(pending) >= min(case["workers"], 3):
                cand = pending.pop(0)
                loss = float(np.sum((cand.get_standardized_data(reference=root) - 0.3) ** 2))
                opt.tell(cand, loss)
                losses.append(loss)
                ensure_eq((sub.num_tell, opt.num_tell), (len(losses),) * 2, "number of tells of the selected optimizer")
                ensure_eq(sub.num_tell_not_asked, 0, "tells as foreign points")
        if losses:
            best = min(losses)
            for o in (opt, sub):
                ensure_eq(o.current_bests["minimum"].get_estimation("minimum"), best, f"best loss of {o.name}")
    rec.nontrivial(len(losses) >= 2)
    rec.event("selected: " + sub.name[:25])


# ---------------------------------------------------------------------------
# declared portfolios


DOUBLE_INIT = {  # known finding C24-double-init: their optimizers are replaced by those of the default portfolio
    "MultiBFGSPlus": "BFGS", "LogMultiBFGSPlus": "BFGS", "SqrtMultiBFGSPlus": "BFGS", "MultiCobylaPlus": "Cobyla", "MultiSQPPlus": "SQP",
    "BFGSCMAPlus": "BFGS", "LogBFGSCMAPlus": "BFGS", "SqrtBFGSCMAPlus": "BFGS", "SQPCMAPlus": "SQP", "LogSQPCMAPlus": "SQP", "SqrtSQPCMAPlus": "SQP",
    "MultiBFGS": "BFGS", "LogMultiBFGS": "BFGS", "SqrtMultiBFGS": "BFGS", "MultiCobyla": "Cobyla", "ForceMultiCobyla": "Cobyla", "MultiSQP": "SQP",
    "BFGSCMA": "BFGS", "LogBFGSCMA": "BFGS", "SqrtBFGSCMA": "BFGS", "SQPCMA": "SQP", "LogSQPCMA": "SQP", "SqrtSQPCMA": "SQP",
    "FSQPCMA": "SQP", "F2SQPCMA": "SQP", "F3SQPCMA": "SQP",
}
DECLARED = {
    "Portfolio": ["CMA", "TwoPointsDE", "ScrHammersley"], "ParaPortfolio": ["CMA", "TwoPointsDE", "PSO", "SQP", "ScrHammersley"], "ASCMADEthird": ["CMA", "LhsDE"],
    "MultiCMA": ["CMA"] * 3, "TripleCMA": ["CMA"] * 3, "PolyCMA": ["CMA"] * 20, "MultiScaleCMA": ["CMA"] * 3, "MultiDS": ["DS"] * 3, "BAR": ["OnePlusOne", "CMA", "OpoDE"],
    "BAR2": ["OnePlusOne", "CMA", "OpoDE"], "BAR3": ["RandomSearch", "OnePlusOne", "CMA", "QNDE"], "BAR4": ["ChainMetaModelSQP", "QNDE"],
    "MultiDiscrete": ["Discrete"] * 3, "CMandAS3": ["CMA"] * 3, "Carola3": ["MetaModel", "Carola1"], "SQOPSODCMA20bar": ["SQOPSODCMA"] * 20,
}


def declared(tier, seed):
    return [{"opt": n, "contains": [v], "workers": 3} for n, v in DOUBLE_INIT.items()] + [{"opt": n, "contains": v, "workers": w} for n, v in DECLARED.items() for w in ((1,) if n in ("MultiDS", "BAR4") else (2,) if n == "Carola3" else (1, 2, 4))]


def run_declared(case, rec: Recorder) -> None:
    """portfolios of the registry are made of the optimizers they declare"""
    import nevergrad as ng

    name = case["opt"]
    if name in DOUBLE_INIT and "C24-double-init" in rec.listed:
        rec.known_finding("C24-double-init")
        return
    root = ng.p.Array(shape=(3,))
    opt = ng.optimizers.registry[name](root, budget=100, num_workers=case["workers"])
    left = [(type(o).__name__ + "/" + o.name).lower() for o in opt.optims]
    for expected in case["contains"]:
        found = [x for x in left if expected.lower() in x]
        if not found and name == "CMandAS3":
            found = left  # chained CMAs
        ensure(found, f"{name} has no (other) {expected}", [o.name for o in opt.optims])
        left.remove(found[0])
    if name not in DOUBLE_INIT and name != "Carola3":
        ensure(not left, f"{name} has other optimizers", left)
    ensure(all(o.parametrization is opt.parametrization for o in opt.optims), "the optimizers do not share the parametrization")
    rec.nontrivial(True)


chain_budgets = st.lists(st.one_of(st.integers(1, 4), st.integers(1, 12), st.sampled_from(["half", "third", "fourth", "tenth", "most", "sqrt", "equal", "dimension", "num_workers"])), min_size=1, max_size=3)
workers = st.sampled_from([1, 1, 2, 3, 6])
budget = st.one_of(st.none(), st.integers(1, 60))

def portfolio_domain(case):
    case = dict(case)
    if case["warmup"] is not None and case["budget"] is None:
        case["budget"] = 30
    if all(s == "sequential" for s in case["subs"]):
        case["workers"] = min(case["workers"], len(case["subs"]))
    return case


PROPS = [
    Prop("chaining", st.fixed_dictionaries({"budgets": chain_budgets, "budget": budget, "workers": workers, "pending": st.integers(1, 6), "dim": st.integers(1, 4), "no_crossing": st.booleans(), "moves": RARE}), run_chain, 1200, rule="at least two optimizers are asked, and three tells", shards=4),
    Prop("portfolio", st.fixed_dictionaries({"subs": st.lists(st.sampled_from(["accepts", "accepts", "refuses", "sequential"]), min_size=1, max_size=4), "budget": budget, "workers": workers, "dim": st.integers(1, 3), "warmup": st.sampled_from([None, None, 0.1, 0.3, 0.5, 1.0]), "no_crossing": st.booleans(), "moves": RARE}).map(portfolio_domain), run_portfolio, 2000, rule="at least two optimizers are asked, and two tells", shards=4),
    Prop("nested", st.fixed_dictionaries({"tree": TREES, "dim": st.integers(1, 4), "workers": workers, "moves": RARE}), run_nested, 800, rule="nested, and three asks", shards=4),
    Prop("rescaled", st.fixed_dictionaries({"scale": st.sampled_from([None, 1e-3, 0.5, 3.0, 1000.0]), "shift": st.sampled_from([None, None, 0.5]), "budget": budget, "workers": workers, "dim": st.integers(1, 4), "moves": RARE}), run_rescaled, 500, rule="at least two points are asked and told", shards=2),
    Prop("split", st.fixed_dictionaries({"how": st.sampled_from([{}, {}, {"num_optims": 2}, {"num_optims": 3}, {"num_optims": "inf"}, {"max_num_vars": 1}, {"max_num_vars": 2}, {"max_num_vars": 3}, {"num_vars": [1]}, {"num_vars": [2, 3]}, {"num_vars": [1, 2, 5]}]), "groups": st.one_of(st.just([]), st.lists(st.integers(1, 4), min_size=1, max_size=4)), "positional": st.booleans(), "progressive": st.booleans(), "budget": st.integers(2, 50), "workers": workers, "dim": st.integers(2, 9), "moves": RARE}), run_split, 1000, rule="at least two groups and two points", shards=4),
    Prop("single-runs", st.fixed_dictionaries({"runs": st.integers(1, 5), "objectives": st.integers(1, 3), "losses": st.lists(st.lists(st.integers(-9, 9).map(float), min_size=3, max_size=3), min_size=4, max_size=12), "workers": workers, "moves": RARE}), run_msr, 400, rule="more tells than objectives, which are linearly independent", shards=2),
    Prop("metamodel", st.fixed_dictionaries({"dim": st.integers(2, 4), "workers": st.sampled_from([1, 2]), "rounds": st.integers(10, 50), "shift": st.sampled_from([0.0, 0.5, 10.0]), "moves": RARE}), run_metamodel, 100, rule="a model was used", shards=4),
    Enum("competence-maps", maps, run_map, rule="at least two tells", shards=16, shrink=shrink_map),
    Enum("declared", declared, run_declared, rule="always", shards=4),
]
