"""C18: an optimizer dumped at any point of a run and loaded goes on exactly as the original one; parameters survive pickling"""
import copy
import os
import pickle
import random
import tempfile

import numpy as np
from hypothesis import strategies as st
from pbt.core import Enum, Prop, Recorder, Skip, ensure, ensure_eq
from pbt import params as P
from . import optim as O
from .c16 import seed_globals, unseeded


class Cont:
    """state of a run, continued on several copies of the optimizer with the same decisions"""

    def __init__(self, opt, pending, case, asked, told, rng):
        self.opt, self.pending, self.case, self.asked, self.told, self.rng = opt, list(pending), case, asked, told, rng

    def trace(self, root):
        case = self.case
        out = []
        loss = O.loss_function(case["loss"], case["seed"])
        while self.asked < case["budget"] or self.pending:
            if self.asked < case["budget"] and (not self.pending or (len(self.pending) < case["workers"] and self.rng.random() < 0.6)):
                cand = self.opt.ask()
                self.asked += 1
                self.pending.append(cand)
                out.append(("ask", cand.get_standardized_data(reference=root).tolist(), repr(cand.value)))
            else:
                cand = self.pending.pop(self.rng.randrange(len(self.pending)))
                value = loss(cand.get_standardized_data(reference=root), self.told)
                self.told += 1
                self.opt.tell(cand, value)
                out.append(("tell", cand.get_standardized_data(reference=root).tolist(), value))
        out.append(("state", self.opt.num_ask, self.opt.num_tell, self.opt.num_tell_not_asked, [(k, v.count, v.mean, v.variance) for k, v in self.opt.archive.bytesdict.items()]))
        reco = self.opt.provide_recommendation()
        out.append(("recommend", reco.get_standardized_data(reference=root).tolist(), repr(reco.value)))
        return out


def dump_load(ng, opt, how, cls):
    if how == "pickle":
        return pickle.loads(pickle.dumps(opt))
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "opt.pkl")
        opt.dump(path)
        if how == "class":
            return type(opt).load(path)
        if how == "registry":
            return ng.optimizers.registry[cls].load(path)
        return ng.optimizers.base.Optimizer.load(path)


def not_picklable(opt):
    """the documented limit of external code in threads (without enable_pickling), and native state of the fcmaes library"""
    try:
        pickle.dumps(opt)
    except ValueError as e:
        return "picklab" in str(e)
    except TypeError as e:
        return "mmap" in str(e)
    return False


def run_registry(case, rec: Recorder) -> None:
    import nevergrad as ng

    if ng.optimizers.registry[case["opt"]].no_parallelization and case["workers"] > 1:
        raise Skip
    with O.limits():
        root, opt = O.make(case)
        rng = random.Random(case["seed"])
        stop = case["stop"]
        pending, asked, told = [], 0, 0
        loss = O.loss_function(case["loss"], case["seed"])
        for _ in range(stop):
            if asked < case["budget"] and (not pending or (len(pending) < case["workers"] and rng.random() < 0.6)):
                pending.append(opt.ask())
                asked += 1
            elif pending:
                cand = pending.pop(rng.randrange(len(pending)))
                value = loss(cand.get_standardized_data(reference=root), told)
                told += 1
                opt.tell(cand, value)
        if not_picklable(opt):
            raise Skip
        saved = copy.copy(rng.getstate())
        if pending:  # together, as they share the random state of the parametrization
            loaded, keep = pickle.loads(pickle.dumps((opt, pending)))
        else:
            loaded, keep = dump_load(ng, opt, case["how"], case["opt"]), []
        ensure_eq(type(loaded), type(opt), "type")
        ensure_eq((loaded.name, loaded.budget, loaded.num_workers, loaded.dimension), (opt.name, opt.budget, opt.num_workers, opt.dimension), "attributes")
        ensure(P.same_value(loaded.parametrization.value, opt.parametrization.value), "value of the parametrization")
        if case["twice"]:
            loaded, keep = pickle.loads(pickle.dumps((loaded, keep)))
        # the loaded one goes first, so that anything still shared is seen as well
        seed_globals(3)
        second = Cont(loaded, keep, case, asked, told, _rng(saved)).trace(root)
        seed_globals(4)
        first = Cont(opt, pending, case, asked, told, _rng(saved)).trace(root)
    for k, (a, b) in enumerate(zip(first, second)):
        ensure(a == b, lambda: f"step {k} after the dump: {a} for the original, {b} for the loaded one")
    ensure_eq(len(first), len(second), "number of steps")
    rec.nontrivial(told >= 1 and asked < case["budget"])
    rec.event("pending candidates", bool(pending))


def _rng(state):
    r = random.Random()
    r.setstate(state)
    return r


def cases(tier, seed):
    quick = tier == "quick"
    names = {n for n in O.available() if unseeded(n)}
    out = O.registry_cases(seed, 2 if quick else 20, "C18", max_budget=30 if quick else 80, exclude=names)
    if not quick:
        out += O.registry_cases(seed, 1, "C18", slow=True, exclude=names)
    for c in out:
        rng = random.Random(c["seed"] + 1)
        c.update(stop=rng.choice([0, 1, 3] + [rng.randint(1, 2 * c["budget"] - 1)] * 5), how=rng.choice(["class", "base", "registry", "pickle"]), twice=rng.random() < 0.2)
    return out


def shrink(case):
    if case["stop"]:
        yield dict(case, stop=0)
        yield dict(case, stop=case["stop"] // 2)
        yield dict(case, stop=case["stop"] - 1)
    for c in ({"how": "pickle"}, {"twice": False}):
        if dict(case, **c) != case:
            yield dict(case, **c)
    yield from O.shrink_case(case)


# ---------------------------------------------------------------------------
# external code in a thread: replayed when loaded

# those which are deterministic (random restarts draw in the thread, others draw from global generators)
RECASTS = ["SQP", "Cobyla", "NelderMead", "Powell", "NLOPT_LN_SBPLX", "NLOPT_LN_COBYLA", "NLOPT_LN_BOBYQA", "PymooNSGA2"]


@st.composite
def recast_case(draw):
    spec = draw(st.sampled_from([{"k": "array", "shape": [2], "ms": False}, {"k": "array", "shape": [3], "ms": False, "lower": -1.0, "upper": 2.0},
                                 {"k": "tuple", "items": [{"k": "scalar", "ms": False, "lower": 0.0, "upper": 5.0}, {"k": "log", "ms": False, "lower": 0.1, "upper": 10.0}]}]))
    budget = draw(st.integers(2, 30))
    return {"opt": draw(st.sampled_from(RECASTS)), "spec": spec, "seed": draw(st.integers(0, 1000)), "budget": budget, "workers": 1, "loss": draw(st.sampled_from(["sphere", "random", "l1int"])),
            "stop": draw(st.integers(0, 2 * budget)), "twice": draw(st.booleans()), "how": draw(st.sampled_from(["class", "base", "registry", "pickle"]))}


def run_recast(case, rec: Recorder) -> None:
    import nevergrad as ng

    with O.limits():
        root, opt = O.make(case)
        opt.enable_pickling()
        pending, asked, told = [], 0, 0
        loss = O.loss_function(case["loss"], case["seed"])
        for _ in range(case["stop"]):
            if not pending:
                pending.append(opt.ask())
                asked += 1
            else:
                cand = pending.pop()
                opt.tell(cand, loss(cand.get_standardized_data(reference=root), told))
                told += 1
        if pending:
            loaded, keep = pickle.loads(pickle.dumps((opt, pending)))
        else:
            loaded, keep = dump_load(ng, opt, case["how"], case["opt"]), []
        if case["twice"]:
            loaded, keep = pickle.loads(pickle.dumps((loaded, keep)))
        second = Cont(loaded, keep, case, asked, told, random.Random(3)).trace(root)
        first = Cont(opt, pending, case, asked, told, random.Random(3)).trace(root)
    for k, (a, b) in enumerate(zip(first[:-1], second[:-1])):  # not the recommendation: it depends on whether the thread ended yet
        ensure(a == b, lambda: f"step {k} after the dump: {a} for the original, {b} for the loaded one")
    ensure_eq(len(first), len(second), "number of steps")
    rec.nontrivial(told >= 1 and asked < case["budget"])
    rec.event("pending candidate", bool(pending))


# ---------------------------------------------------------------------------
# parameters


@st.composite
def param_case(draw):
    ops = st.lists(P.op, min_size=0, max_size=6)
    return P.tame({"spec": draw(P.any_param()), "seed": draw(st.integers(0, 2**31)), "ops": draw(ops) + draw(ops), "cut": draw(st.integers(0, 6)), "protocol": draw(st.sampled_from([2, 3, 4, 5])), "times": draw(st.integers(1, 2))})


def run_param(case, rec: Recorder) -> None:
    root = P.build(case["spec"])
    root.random_state.seed(case["seed"])
    cur = root
    for o in case["ops"][: case["cut"]]:
        cur = P.apply_op(o, cur, root)
    root.value, cur.value  # pylint: disable=pointless-statement
    root2, cur2 = root, cur
    for _ in range(case["times"]):
        root2, cur2 = pickle.loads(pickle.dumps((root2, cur2), protocol=case["protocol"]))
    for a, b in ((root, root2), (cur, cur2)):
        ensure_eq((a.uid, a.generation, a.name, a.parents_uids, a.dimension, a.frozen if hasattr(a, "frozen") else None),
                  (b.uid, b.generation, b.name, b.parents_uids, b.dimension, b.frozen if hasattr(b, "frozen") else None), "attributes")
        ensure(P.same_value(a.value, b.value), f"value {a.value!r} after pickling: {b.value!r}")
        ensure_eq(a.get_value_hash(), b.get_value_hash(), "hash")
    for ref, ref2 in ((root, root2), (cur, cur2)):
        ensure(np.array_equal(cur.get_standardized_data(reference=ref), cur2.get_standardized_data(reference=ref2)), "standardized data")
    for i, o in enumerate(case["ops"][case["cut"] :]):
        cur2 = P.apply_op(o, cur2, root2)
        cur = P.apply_op(o, cur, root)
        ensure(P.same_value(cur.value, cur2.value), lambda: f"operation {i} {o[0]} after pickling gives {cur2.value!r} instead of {cur.value!r}")
        ensure(np.array_equal(cur.get_standardized_data(reference=root), cur2.get_standardized_data(reference=root2)), f"standardized data after operation {i} {o[0]}")
    rec.nontrivial(len(case["ops"]) >= 2)


PROPS = [
    Enum("registry", cases, run_registry, rule="dumped after a tell and before the end of the budget", shards=24, timeout=150, shrink=shrink),
    Prop("recast", recast_case(), run_recast, quick=250, rule="dumped after a tell and before the end of the budget", shards=8),
    Prop("parameters", param_case(), run_param, quick=500, rule="at least two operations before or after pickling", shards=4),
]
