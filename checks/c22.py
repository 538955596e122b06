"""C22: callbacks and loggers observe every event faithfully"""
import contextlib
import io
import json
import logging
import math
import os
import random
import warnings
from unittest import mock

import numpy as np
from hypothesis import strategies as st
from pbt.core import Enum, Prop, Recorder, Skip, ensure, ensure_eq
from pbt import params as P
from . import c16
from . import optim as O


def scratch(name):
    return os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), name)


# ---------------------------------------------------------------------------
# displays and logs do not alter the run


def trace(case, display):
    import nevergrad as ng

    root, opt = O.make(case)
    out = []
    if display:
        kind = case["display"]
        if kind == "printer":
            opt.register_callback("tell", ng.callbacks.OptimizationPrinter(case["interval"]))
        elif kind == "logger":
            opt.register_callback("tell", ng.callbacks.OptimizationLogger(logger=logging.getLogger("verif"), log_interval_tells=case["interval"]))
        elif kind == "recommend":
            opt.register_callback("ask", lambda o: o.provide_recommendation())
        elif kind == "params":
            opt.register_callback("tell", ng.callbacks.ParametersLogger(scratch("log.txt"), append=False))
        elif kind == "progress":
            opt.register_callback(case["event"], ng.callbacks.ProgressBar())
    with c16.Threads() as threads, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for kind, cand, loss in O.Run(case, root, opt).steps():
            out.append((kind, cand.get_standardized_data(reference=root).tolist(), repr(cand.value), loss))
        reco = opt.provide_recommendation()
    out.append(("recommend" if not threads.count else "threads", reco.get_standardized_data(reference=root).tolist(), repr(reco.value), None))
    return out


def run_registry(case, rec: Recorder) -> None:
    import nevergrad as ng

    if ng.optimizers.registry[case["opt"]].no_parallelization and case["workers"] > 1:
        raise Skip
    with O.limits():
        first = trace(case, False)
        second = trace(case, True)
    if "threads" in (first[-1][0], second[-1][0]):  # the recommendation may depend on the end of the thread
        first.pop(), second.pop()
    for k, (a, b) in enumerate(zip(first, second)):
        ensure(a == b, lambda: f"step {k}: {a}, but {b} with the callback {case['display']}")
    ensure_eq(len(first), len(second), "number of steps")
    rec.nontrivial(case["budget"] >= 3)
    rec.event("display: " + case["display"])


def deterministic(spec):
    if isinstance(spec, list):
        return [deterministic(s) for s in spec]
    if isinstance(spec, dict):
        return {k: True if k == "det" else deterministic(v) for k, v in spec.items()}
    return spec


def cases(tier, seed):
    quick = tier == "quick"
    names = {n for n in O.available() if c16.unseeded(n)} | {"StupidRandom"}  # (recommends a random point)
    out = O.registry_cases(seed, 1 if quick else 12, "C22", max_budget=20 if quick else 80, exclude=names)
    for c in out:
        rng = random.Random(c["seed"] + 1)
        c["spec"] = deterministic(c["spec"])  # reading the value of a stochastic choice draws it
        c["display"] = rng.choice(["printer", "printer", "logger", "recommend", "recommend", "params", "progress"])
        c["interval"] = rng.choice([1, 2, 5])
        c["event"] = rng.choice(["ask", "tell"])
    return out


# ---------------------------------------------------------------------------
# order and arguments of the callbacks, early stopping


@st.composite
def events_case(draw):
    return {"opt": draw(st.sampled_from(["OnePlusOne", "RandomSearch", "DE", "CMA", "NGOpt", "Portfolio", "ScrHammersleySearch", "NelderMead"])), "seed": draw(st.integers(0, 100)), "objectives": draw(st.sampled_from([1, 1, 2])),
            "moves": draw(st.lists(st.one_of(st.just(["ask"]), st.just(["ask"]), st.just(["tell", 0]), st.just(["tell", 1]), st.just(["foreign"]), st.just(["suggest"]), st.tuples(st.just("register"), st.sampled_from(["ask", "tell"])).map(list), st.just(["stopper"]), st.just(["clear"]), st.just(["bad"])), min_size=3, max_size=30))}


def run_events(case, rec: Recorder) -> None:
    import nevergrad as ng

    name = case["opt"]
    multi = case["objectives"] > 1
    if multi and name in ("NelderMead",):
        raise Skip
    root = ng.p.Array(shape=(2,))
    root.random_state.seed(case["seed"])
    opt = ng.optimizers.registry[name](root, budget=40, num_workers=1 if name == "NelderMead" else 8)
    log = []
    expected = []
    registered = {"ask": [], "tell": []}
    counter = [0]
    stop = [False]

    def make(kind):
        k = counter[0]
        counter[0] += 1

        def callback(*args, **kwargs):
            assert args[0] is opt and not kwargs
            log.append((k, kind, opt.num_ask, opt.num_tell + 0, [(id(a) if hasattr(a, "uid") else min(a, 5e20)) for a in args[1:]]))

        return k, callback

    pending, nasked, ntold = [], 0, 0
    for move in [["register", "ask"], ["register", "tell"]] + case["moves"]:
        what = move[0]
        if what == "register":
            k, callback = make(move[1])
            opt.register_callback(move[1], callback)
            registered[move[1]].append(k)
        elif what == "stopper":
            opt.register_callback("ask", ng.callbacks.EarlyStopping(lambda o: stop[0]))
            stop[0] = False
            registered["ask"].append("stopper")
        elif what == "clear":
            opt.remove_all_callbacks()
            registered = {"ask": [], "tell": []}
        elif what == "bad":
            for bad in ("minimize", "recommend", ""):
                try:
                    opt.register_callback(bad, print)
                except (AssertionError, ValueError, KeyError):
                    pass
                else:
                    ensure(False, f"a callback named {bad!r} is accepted")
        elif what == "suggest":
            opt.suggest([0.5, float(len(pending))])
        elif what == "ask":
            if len(pending) >= (1 if name == "NelderMead" else 8) or opt.num_ask >= 40:
                continue
            if "stopper" in registered["ask"] and not stop[0]:  # first a refused ask
                stop[0] = True
                before = (opt.num_ask, opt.num_tell)
                try:
                    opt.ask()
                except ng.errors.NevergradEarlyStopping:
                    pass
                else:
                    ensure(False, "the ask was not stopped")
                ensure_eq((opt.num_ask, opt.num_tell), before, "num_ask and num_tell after a stopped ask")
                for k in registered["ask"]:
                    if k == "stopper":
                        break
                    expected.append((k, "ask", nasked, ntold, []))
                stop[0] = False
                rec.event("stopped ask")
            pending.append(opt.ask())
            expected += [(k, "ask", nasked, ntold, []) for k in registered["ask"] if k != "stopper"]
            nasked += 1
        else:
            if what == "foreign":
                if name == "NelderMead":
                    continue
                cand = root.spawn_child(new_value=np.array([1.5, float(ntold)]))
            elif pending:
                cand = pending.pop(move[1] * (len(pending) - 1))
            else:
                continue
            loss = [float(np.sum((cand.value - 1) ** 2)), float(np.sum((cand.value + 1) ** 2))][: case["objectives"]]
            opt.tell(cand, loss if multi else loss[0])
            if multi:
                ensure_eq(list(cand.losses), loss, "losses of the candidate")
            expected += [(k, "tell", nasked, ntold, [id(cand), min(cand.loss, 5e20)]) for k in registered["tell"]]
            ntold += 1
            ensure(multi or cand.loss == loss[0], "loss of the candidate")
    ensure_eq(log, expected, "calls of the callbacks (rank of registration, event, num_ask, num_tell, arguments)")
    rec.nontrivial(len(log) >= 3)


# ---------------------------------------------------------------------------
# early stopping criteria, and intervals of the displays


@st.composite
def stopping_case(draw):
    return {"kind": draw(st.sampled_from(["timer", "timer", "no_improvement", "no_improvement", "criterion", "printer", "printer", "logger"])), "losses": draw(st.lists(st.integers(0, 6), min_size=20, max_size=20)), "window": draw(st.integers(0, 6)),
            "durations": draw(st.lists(st.integers(0, 4), min_size=1, max_size=5)), "limit": draw(st.sampled_from([0.5, 1.5, 3.5, 7.5])), "workers": draw(st.integers(1, 3)), "opt": draw(st.sampled_from(["OnePlusOne", "RandomSearch", "ScrHammersleySearch"]))}


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.messages = []

    def emit(self, record):
        self.messages.append(record.getMessage())


def run_stopping(case, rec: Recorder) -> None:
    import nevergrad as ng

    now = [1000.0]
    fake = lambda: now[0]
    with mock.patch("time.time", fake), mock.patch("time.perf_counter", fake), mock.patch("time.monotonic", fake):
        root = ng.p.Array(shape=(2,))
        root.random_state.seed(12)
        opt = ng.optimizers.registry[case["opt"]](root, budget=20, num_workers=1)
        kind = case["kind"]
        handler = Handler()
        if kind == "timer":
            opt.register_callback("ask", ng.callbacks.EarlyStopping.timer(case["limit"]))
        elif kind == "no_improvement":
            opt.register_callback("ask", ng.callbacks.EarlyStopping.no_improvement_stopper(case["window"]))
        elif kind == "criterion":
            opt.register_callback("ask", ng.callbacks.EarlyStopping(lambda o: o.num_tell > 0 and o.current_bests["minimum"].mean <= case["window"] - 3))
        elif kind == "printer":
            opt.register_callback("tell", ng.callbacks.OptimizationPrinter(case["window"] + 1, case["limit"]))
        else:
            logger = logging.Logger("verif")
            logger.addHandler(handler)
            opt.register_callback("tell", ng.callbacks.OptimizationLogger(logger=logger, log_level=logging.WARNING, log_interval_tells=case["window"] + 1, log_interval_seconds=case["limit"]))
        now[0] += 100.0 if kind == "timer" else 0.0  # the timer starts at the first ask
        asked, stopped = 0, False
        start = now[0]
        displays = []
        times = []
        while asked < 20:
            state = (opt.num_ask, opt.num_tell)
            try:
                cand = opt.ask()
            except ng.errors.NevergradEarlyStopping:
                stopped = True
                ensure_eq((opt.num_ask, opt.num_tell), state, "num_ask and num_tell after the stop")
                break
            if kind == "timer":
                ensure(now[0] <= start + case["limit"], f"asked {now[0] - start} seconds after the first ask, with a limit of {case['limit']}")
            now[0] += case["durations"][asked % len(case["durations"])]
            out = io.StringIO()
            count = len(handler.messages)
            with contextlib.redirect_stdout(out):
                opt.tell(cand, float(case["losses"][asked] - 3))
            text = out.getvalue() if kind == "printer" else "".join(handler.messages[count:])
            if text:
                ensure(text.count("recommendation") == 1, f"displayed {text}")
                ensure(text.startswith(f"After {opt.num_tell - 1},"), f"displayed {text!r} at tell {opt.num_tell}")
                displays.append(asked)
            times.append(now[0])
            asked += 1
    losses = [x - 3 for x in case["losses"]]
    if kind == "timer":
        elapsed = np.cumsum([0] + [case["durations"][k % len(case["durations"])] for k in range(20)])
        expected = next((k for k in range(20) if elapsed[k] > case["limit"]), 20)
        ensure_eq(asked, expected, f"asked points with a timer of {case['limit']} and evaluations of {np.diff(elapsed)[:asked + 1]} seconds")
    elif kind == "criterion":
        expected = next((k for k in range(1, 20) if min(losses[:k]) <= case["window"] - 3), 20)
        ensure_eq(asked, expected, f"asked points with the losses {losses} and a criterion at {case['window'] - 3}")
    elif kind == "no_improvement":
        best, count, expected = None, 0, 20
        for k in range(1, 20):
            m = min(losses[:k])
            if best is None or m < best:
                best, count = m, 0
            else:
                count += 1
            if count > case["window"]:
                expected = k
                break
        ensure_eq(asked, expected, f"asked points with the losses {losses} and a tolerance window of {case['window']}")
    else:
        # at most one display by interval of tells or of time, and at least one
        last, last_time = None, start
        for k in range(asked):
            due = (last is not None and k - last >= case["window"] + 1) or times[k] >= last_time + case["limit"]
            if k in displays:
                ensure(due or last is None, lambda: f"displays at tells {displays} (times {times}), with intervals of {case['window'] + 1} tells and {case['limit']} seconds")
                last, last_time = k, times[k]
            else:
                ensure(not due, lambda: f"displays at tells {displays} (times {times}), with intervals of {case['window'] + 1} tells and {case['limit']} seconds")
        ensure(bool(displays) or asked < case["window"] + 1, "nothing was displayed")
    rec.nontrivial(asked >= 2)
    rec.event(kind + (" stopped" if stopped else ""))


# ---------------------------------------------------------------------------
# log files


LEAVES = [
    {"k": "scalar", "ms": False}, {"k": "scalar", "ms": True, "lower": -1.0, "upper": 3.0}, {"k": "array", "shape": [2], "ms": False}, {"k": "array", "shape": [2, 3], "ms": True}, {"k": "array", "shape": [1], "ms": False},
    {"k": "log", "ms": False, "lower": 0.01, "upper": 10.0}, {"k": "scalar", "ms": False, "lower": 0.0, "upper": 9.0, "int": True},
    {"k": "choice", "items": [{"k": "const", "v": v} for v in ("a", 2, None)], "rep": None, "det": True}, {"k": "choice", "items": [{"k": "const", "v": v} for v in (math.inf, math.nan, 2.5)], "rep": None, "det": False},
    {"k": "tchoice", "items": [{"k": "const", "v": v} for v in (1, 2, 3)], "rep": None, "ordered": True, "transitions": [1.0, 1.0]},
]


@st.composite
def log_case(draw):
    leaf = st.sampled_from(LEAVES)
    kind = draw(st.sampled_from(["leaf", "tuple", "dict", "inst", "nested"]))
    sub = draw(st.lists(leaf, min_size=1, max_size=3))
    if kind == "leaf":
        spec = sub[0]
    elif kind == "tuple":
        spec = {"k": "tuple", "items": sub}
    elif kind == "dict":
        spec = {"k": "dict", "items": [[f"k{i}", s] for i, s in enumerate(sub)]}
    elif kind == "inst":
        spec = {"k": "inst", "args": sub[:1], "kwargs": [[f"k{i}", s] for i, s in enumerate(sub[1:])]}
    else:
        spec = {"k": "dict", "items": [["u", {"k": "tuple", "items": sub}], ["v", sub[0]]]}
    return {"spec": spec, "opt": draw(st.sampled_from(["OnePlusOne", "DE", "RandomSearch", "NGOpt", "CMA", "TBPSA"])), "seed": draw(st.integers(0, 100)), "objectives": draw(st.sampled_from([1, 1, 2])), "append": draw(st.booleans()), "order": draw(st.integers(0, 2)),
            "moves": draw(st.lists(st.sampled_from(["ask", "tell", "foreign", "restart"]), min_size=3, max_size=25)), "limit": draw(st.sampled_from([1, 2, 5, 24]))}


def named(spec, value, name=""):
    """(name, value) of the leaves, in the documented format"""
    k = spec["k"]
    dot = name + "." if name else ""
    if k == "tuple":
        return [x for i, s in enumerate(spec["items"]) for x in named(s, value[i], dot + str(i))]
    if k == "dict":
        return [x for key, s in spec["items"] for x in named(s, value[key], dot + key)]
    if k == "inst":
        args, kwargs = value
        return [x for i, s in enumerate(spec["args"]) for x in named(s, args[i], dot + str(i))] + [x for key, s in spec["kwargs"] for x in named(s, kwargs[key], dot + key)]
    return [(name if name else "0", value, spec)]


def run_log(case, rec: Recorder) -> None:
    import nevergrad as ng

    spec = case["spec"]
    path = scratch("params.txt")
    if os.path.exists(path):
        os.remove(path)
    expected = []
    logger = ng.callbacks.ParametersLogger(path, append=case["append"], order=case["order"])
    ensure_eq(logger.load(), [], "initial content")
    multi = case["objectives"] > 1
    opt = None
    told = 0
    for move in ["restart"] + case["moves"]:
        if move == "restart":
            if opt is not None:  # another run, logged in the same file
                logger = ng.callbacks.ParametersLogger(path, append=case["append"], order=case["order"])
                if not case["append"]:
                    expected = []
            root = P.build(spec)
            root.random_state.seed(case["seed"])
            opt = ng.optimizers.registry[case["opt"]](root, budget=100, num_workers=10)
            opt.register_callback("tell", logger)
            pending, counts = [], [0, 0, 0]
            continue
        if move == "ask":
            if len(pending) < 10:
                pending.append(opt.ask())
                counts[0] += 1
            continue
        if move == "foreign":
            cand = root.sample()
        elif pending:
            cand = pending.pop(0)
        else:
            continue
        loss = [told * 0.5 - 3, 2.0 - told * 0.25][: case["objectives"]]
        with warnings.catch_warnings():
            warnings.filterwarnings("error", message="Failing to json.*")
            opt.tell(cand, loss if multi else loss[0])
        told += 1
        expected.append((cand, list(counts), cand.loss, loss, (opt.name, root.name)))
        counts[1] += 1
        counts[2] += move == "foreign"
    data = logger.load()
    ensure_eq(len(data), len(expected), "number of logged events")
    flat = logger.load_flattened(max_list_elements=case["limit"])
    ensure_eq(len(flat), len(expected), "number of logged events (flattened)")
    for entry, fentry, (cand, counts, loss, losses, names) in zip(data, flat, expected):
        ensure_eq([entry["#num-ask"], entry["#num-tell"], entry["#num-tell-not-asked"]], counts, "logged num_ask, num_tell and num_tell_not_asked")
        ensure_eq(entry["#uid"], cand.uid, "logged uid")
        ensure_eq(entry["#generation"], cand.generation, "logged generation")
        ensure_eq(entry["#lineage"], cand.heritage["lineage"], "logged lineage")
        ensure_eq(entry["#loss"], loss, "logged loss")
        ensure_eq((entry["#optimizer"], entry["#parametrization"]), names, "logged names")
        ensure_eq(list(entry["#parents_uids"]), list(cand.parents_uids) if cand.generation > 1 else [], "logged parents")
        if multi:
            ensure_eq([entry[f"#losses#{k}"] for k in range(2)], losses, "logged losses")
        for name, value, leaf in named(spec, cand.value):
            ensure(name in entry, lambda: f"{name!r} is not logged: {sorted(entry)}")
            got = entry[name]
            want = value.tolist() if isinstance(value, np.ndarray) else value
            ensure(repr(got) == repr(want), lambda: f"logged {got!r} for {name!r}, instead of {want!r}")
            if leaf.get("ms"):
                ensure_eq((name + "#sigma") in entry, True, f"sigma of {name!r} is logged")
            internal = [k for k in entry if k.startswith(name + "#") and k != name + "#sigma"]
            if case["order"] == 0:
                ensure(not internal, lambda: f"internal parameters {internal} are logged with order=0")
        for name, value in entry.items():
            if isinstance(value, list):
                arr = np.array(value, dtype=object)
                keys = ["#".join([name, "_".join(map(str, idx))]) for idx in np.ndindex(*arr.shape)]
                for k, (key, idx) in enumerate(zip(keys, np.ndindex(*arr.shape))):
                    if k < case["limit"]:
                        ensure(repr(fentry.get(key, "missing")) == repr(arr[idx]), lambda: f"flattened {key!r}: {fentry.get(key, 'missing')!r} instead of {arr[idx]!r}")
                    else:
                        ensure(key not in fentry, f"flattened {key!r} is over the maximal number of elements")
                ensure(name not in fentry, f"the list {name!r} remains in the flattened entry")
            else:
                ensure(repr(fentry.get(name, "missing")) == repr(value), f"flattened {name!r}")
    rec.nontrivial(len(expected) >= 2)
    rec.event("several runs in the file", "restart" in case["moves"])


# ---------------------------------------------------------------------------
# dumps


@st.composite
def dump_case(draw):
    return {"opt": draw(st.sampled_from(["OnePlusOne", "DE", "PSO", "RandomSearch", "CMA", "TBPSA", "NGOpt", "ScrHammersleySearch", "NoisyDE"])), "seed": draw(st.integers(0, 100)), "event": draw(st.sampled_from(["ask", "tell"])), "steps": draw(st.integers(1, 12)), "workers": draw(st.integers(1, 3))}


def run_dump(case, rec: Recorder) -> None:
    import nevergrad as ng

    path = scratch("dump.pkl")
    if os.path.exists(path):
        os.remove(path)
    root = ng.p.Array(shape=(2,))
    root.random_state.seed(case["seed"])
    cls = ng.optimizers.registry[case["opt"]]
    opt = cls(root, budget=30, num_workers=case["workers"])
    opt.register_callback(case["event"], ng.callbacks.OptimizerDump(path))
    pending = []

    def check(state, archive):
        loaded = cls.load(path)
        ensure_eq((loaded.num_ask, loaded.num_tell), state, "num_ask and num_tell of the dumped optimizer")
        ensure_eq(len(loaded.archive), archive, "size of the archive of the dumped optimizer")
        ensure_eq((loaded.name, loaded.budget, loaded.num_workers), (opt.name, 30, case["workers"]), "name, budget and workers of the dumped optimizer")

    for k in range(case["steps"]):
        while len(pending) < case["workers"]:
            state = (opt.num_ask, opt.num_tell)
            pending.append(opt.ask())
            if case["event"] == "ask":
                check(state, len(opt.archive))
        cand = pending.pop(0)
        state, archive = (opt.num_ask, opt.num_tell), len(opt.archive)
        opt.tell(cand, float(np.sum(cand.value**2)))
        if case["event"] == "tell":
            check(state, archive)
        ensure(os.path.exists(path), "no dump")
    loaded = cls.load(path)
    loaded.tell(loaded.ask(), 1.0)
    rec.nontrivial(case["steps"] >= 2)


PROPS = [
    Enum("registry", cases, run_registry, rule="budget of at least 3", shards=24, timeout=150, shrink=O.shrink_case),
    Prop("events", events_case(), run_events, quick=300, rule="at least 3 calls", shards=4),
    Prop("stopping", stopping_case(), run_stopping, quick=500, rule="at least two asks", shards=4),
    Prop("log", log_case(), run_log, quick=300, rule="at least two logged events", shards=4),
    Prop("dump", dump_case(), run_dump, quick=100, rule="at least two steps", shards=4),
]
