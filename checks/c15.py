"""C15: every optimizer of the registry asks valid points and recommends one, whatever the parametrization and schedule"""
from pbt.core import Enum, Recorder, Skip, ensure, ensure_eq
from pbt import params as P
from . import optim as O


def run_registry(case, rec: Recorder) -> None:
    import nevergrad as ng

    cls = ng.optimizers.registry[case["opt"]]
    if cls.no_parallelization and case["workers"] > 1:
        # declared as outside of its domain: raises at initialization (but for portfolios)
        raise Skip
    with O.limits():
        root, opt = O.make(case)
        ensure_eq(opt.dimension, root.dimension, "dimension")
        run = O.Run(case, root, opt)
        uids = set()
        for kind, cand, _ in run.steps():
            if kind == "ask":
                O.check_candidate(case, root, cand, "asked")
                ensure(cand.uid not in uids, "the same candidate was asked twice")
                uids.add(cand.uid)
            if run.told in (1, case["budget"] // 2) and kind == "tell" and case.get("early", True):
                O.check_candidate(case, root, opt.provide_recommendation(), "recommended early")
        ensure_eq((opt.num_ask, opt.num_tell), (case["budget"], case["budget"]), "number of asks and tells")
        reco = opt.provide_recommendation()
        O.check_candidate(case, root, reco, "recommended")
    rec.nontrivial(case["budget"] >= 3)
    rec.event("workers > 1", case["workers"] > 1)
    rec.event("dimension 1", root.dimension == 1)
    rec.event("discrete or mixed", P.has_kind(case["spec"], "choice", "tchoice"))


def cases(tier, seed):
    out = O.registry_cases(seed, 3 if tier == "quick" else 30, "C15", max_budget=30 if tier == "quick" else 80)
    if tier == "thorough":
        out += O.registry_cases(seed, 3, "C15", slow=True)
    return out


PROPS = [
    Enum("registry", cases, run_registry, rule="budget of at least 3", shards=24, timeout=150, shrink=O.shrink_case),
]
