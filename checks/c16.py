"""C16: runs are determined by the seed of the parametrization, whatever ran before in the process"""
import random
import threading

import numpy as np
from pbt.core import Enum, Recorder, Skip, ensure, ensure_eq
from . import optim as O

# third-party libraries drawing from their own unseeded generators, or from the global ones in a thread
UNSEEDED = {"BayesOptimBO", "PymooCMAES", "PymooBIPOP", "PCABO", "PCABO80", "PCABO95DoE20"}


def unseeded(name: str) -> bool:
    """directsearch draws from the global generator of numpy, and NGOptF* turn to bayes_optim (likewise)"""
    return name in UNSEEDED or "DS" in name or name.startswith("NGOptF")


class Threads:
    """counts the threads which are started: optimizers running a library in a thread recommend its output, but only
    if it had the time to finish, so that their recommendation is not determined by the seed"""

    def __enter__(self):
        self.count, self.start = 0, threading.Thread.start

        def start(thread, *args, **kwargs):
            if type(thread).__name__ != "TMonitor":  # of the progress bars
                self.count += 1
            return self.start(thread, *args, **kwargs)

        threading.Thread.start = start
        return self

    def __exit__(self, *_):
        threading.Thread.start = self.start


def seed_globals(seed):
    import sys

    random.seed(seed)
    np.random.seed(seed)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(seed)


def trace(case):
    root, opt = O.make(case)
    out = []
    with Threads() as threads:
        for kind, cand, loss in O.Run(case, root, opt).steps():
            out.append((kind, cand.get_standardized_data(reference=root).tolist(), repr(cand.value), loss))
        reco = opt.provide_recommendation()
    if not threads.count:
        out.append(("recommend", reco.get_standardized_data(reference=root).tolist(), repr(reco.value), None))
    return out


def run_twice(case, rec: Recorder) -> None:
    import nevergrad as ng

    if ng.optimizers.registry[case["opt"]].no_parallelization and case["workers"] > 1:
        raise Skip
    with O.limits():
        seed_globals(1)
        first = trace(case)
        if case["between"] is not None:  # another run of the same optimizer
            trace(dict(case["between"], opt=case["opt"]))
        seed_globals(2)
        second = trace(case)
    for k, (a, b) in enumerate(zip(first, second)):
        ensure(a == b, lambda: f"step {k}: {a} then {b}")
    ensure_eq(len(first), len(second), "number of steps")
    rec.nontrivial(case["budget"] >= 3)
    rec.event("another run in between", case["between"] is not None)


def cases(tier, seed):
    quick = tier == "quick"
    names = {n for n in O.available() if unseeded(n)}
    out = O.registry_cases(seed, 1 if quick else 12, "C16", max_budget=30 if quick else 80, exclude=names)
    if not quick:
        out += O.registry_cases(seed, 1, "C16", slow=True, exclude=names)
    for c in out:
        rng = random.Random(c["seed"] + 1)
        c["between"] = None
        if rng.random() < 0.6:
            b = O.rand_case(c["opt"], rng, 20)
            if c["workers"] > b["workers"] == 1 or not O.is_slow(c["opt"]):
                b["workers"] = min(b["workers"], c["workers"])
                c["between"] = b
    return out


def shrink(case):
    if case["between"] is not None:
        yield dict(case, between=None)
        for b in O.shrink_case(case["between"]):
            yield dict(case, between=b)
    yield from O.shrink_case(case)


# ---------------------------------------------------------------------------
# multiobjective


def mo_cases(tier, seed):
    rng = random.Random(f"c16-mo-{seed}")
    out = []
    for name in O.available():
        if unseeded(name) or "Pymoo" in name or O.is_slow(name):
            continue
        for _ in range(1 if tier == "quick" else 6):
            n = rng.randint(8, 40)
            m = rng.choice([2, 2, 3, 4])
            out.append({
                "name": name, "seed": rng.randint(0, 10**6), "dim": rng.choice([2, 2, 3, 5]), "m": m, "n": n,
                "ref": [rng.uniform(0, 3) for _ in range(m)] if rng.random() < 0.5 else None, "foreign": rng.random() < 0.5, "round": rng.random() < 0.4,
            })
    return out


def mo_trace(case):
    import nevergrad as ng

    param = ng.p.Array(shape=(case["dim"],))
    param.random_state.seed(case["seed"])
    rng = random.Random(case["seed"])
    opt = ng.optimizers.registry[case["name"]](param, budget=case["n"])
    if case["ref"] is not None:
        opt.tell(ng.p.MultiobjectiveReference(), case["ref"])
    out = []
    with Threads() as threads:
        for k in range(case["n"]):
            if case["foreign"] and rng.random() < 0.3:
                cand = opt.parametrization.spawn_child(new_value=np.array([rng.gauss(0, 1) for _ in range(case["dim"])]))
            else:
                cand = opt.ask()
            x = cand.value
            if not np.isfinite(x).all():
                break
            loss = [min(1e30, float(np.sum((x - i) ** 2)) - 1) for i in range(case["m"])]
            if case["round"]:
                loss = [float(round(v)) for v in loss]
            try:
                opt.tell(cand, loss)
            except ng.errors.TellNotAskedNotSupportedError:
                pass
            out.append((k, x.tolist()))
            if k % 7 == 6:
                # libraries running in a thread may draw their next restart while the subset is drawn
                for size, subset in ((None, "random"), (2, "random"), (2, "loss-covering"))[: 1 if threads.count else 3]:
                    out.append((subset, [c.losses.tolist() for c in opt.pareto_front(size, subset=subset)]))
    return out, threads.count


def run_mo(case, rec: Recorder) -> None:
    import warnings

    with O.limits(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        seed_globals(1)
        first, threads = mo_trace(case)
        seed_globals(2)
        second, _ = mo_trace(case)
    for a, b in zip(first, second):
        ensure(a == b, lambda: f"step: {a} then {b}")
    ensure_eq(len(first), len(second), "number of steps")
    rec.nontrivial(len(first) >= 8)


PROPS = [
    Enum("multiobjective", mo_cases, run_mo, rule="8 points or more", shards=6, timeout=150),
    Enum("registry", cases, run_twice, rule="budget of at least 3", shards=24, timeout=150, shrink=shrink),
]
