"""C21: recast (external loop) optimizers ask what the wrapped code evaluates"""
import functools
import gc
import sys
import threading
import time
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Enum, Prop, Recorder, ensure, ensure_eq
from pbt import params as P

WAIT = 10.0  # seconds before calling it a deadlock


class Boom(Exception):
    pass


def within(func, seconds=WAIT):
    """runs in a thread, to detect deadlocks (of which the shrinking would otherwise take too long)"""
    out = []

    def target():
        try:
            out.append((True, func()))
        except BaseException as e:  # pylint: disable=broad-except
            out.append((False, e))

    th = threading.Thread(target=target, daemon=True)
    th.start()
    th.join(seconds)
    ensure(bool(out), f"still blocked after {seconds} seconds")
    ok, value = out[0]
    if not ok:
        raise value
    return value


def slow_thread(delay):
    """schedule of the calling thread: pauses at the next events (calls and returns)"""
    state = {"n": 0}

    def hook(frame, event, arg):
        state["n"] += 1
        if state["n"] < 60:
            time.sleep(delay)

    sys.setprofile(hook if delay else None)


class Trace:
    def __init__(self):
        self.points = []  # evaluated by the procedure
        self.losses = []  # received by the procedure
        self.ended = None
        self.thread = None


def procedure(trace, prog, dim, objective):
    """a minimization procedure: what it evaluates depends on the losses it received"""
    trace.thread = threading.current_thread()
    try:
        buf = np.zeros(dim)
        for step in prog["steps"]:
            if step["do"] == "eval":
                last = trace.losses[-1] if trace.losses else 0.5
                last = float(np.ravel(last)[-1])
                data = np.array([step["x"] + 0.1 * i + (np.tanh(last) if step["adapt"] else 0.0) for i in range(dim)])
                if step["reuse"]:  # always the same array, modified in place
                    buf[:] = data
                    data = buf
                trace.points.append(np.array(data, copy=True))
                slow_thread(prog["slow"])
                got = objective(data)
                trace.losses.append(got)
                buf[:] = 1e3  # the point is not used any more by the procedure
            elif step["do"] == "batch":
                data = [np.full(dim, step["x"] + k) for k in range(step["n"])]
                trace.points.append([np.array(d, copy=True) for d in data])
                got = objective(data)
                trace.losses.append(np.array(got, copy=True))
        if prog["end"] == "raise":
            raise Boom("the procedure failed")
        trace.ended = prog["end"]
        return None if prog["end"] == "none" else np.full(dim, 0.75)
    except Boom:
        trace.ended = "raise"
        raise
    except BaseException:
        trace.ended = "stopped"
        raise
    finally:
        slow_thread(prog["slow_end"])


def build(case, trace):
    import nevergrad as ng
    from nevergrad.optimization import recaster

    prog, dim = case["prog"], case["dim"]
    base = recaster.BatchRecastOptimizer if case["batch"] else recaster.SequentialRecastOptimizer

    class Recast(base):
        def get_optimization_function(self):
            return functools.partial(procedure, trace, prog, dim)

    root = ng.p.Array(shape=(dim,))
    root.random_state.seed(case["seed"])
    return Recast(root, budget=case["budget"], num_workers=1 if not case["batch"] else 10)




@st.composite
def program(draw, batch):
    n = draw(st.integers(0, 5 if batch else 8))
    steps = []
    for _ in range(n):
        if batch:
            steps.append({"do": "batch", "x": draw(st.integers(-30, 30)) / 7, "n": draw(st.integers(1, 4))})
        else:
            steps.append({"do": "eval", "x": draw(P.floats(-3, 3)), "adapt": draw(st.booleans()), "reuse": draw(st.booleans())})
    return {"steps": steps, "end": draw(st.sampled_from(["value", "value", "none", "raise"])), "slow": draw(st.sampled_from([0.0, 0.0, 0.0005])), "slow_end": draw(st.sampled_from([0.0, 0.0, 0.005]))}


@st.composite
def sequential_case(draw):
    return {"batch": False, "prog": draw(program(False)), "dim": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 100)), "budget": draw(st.sampled_from([None, 3, 50])), "asks": draw(st.integers(1, 12)),
            "losses": draw(st.lists(P.floats(-10, 10), min_size=1, max_size=6)), "minimize": draw(st.booleans()), "pending": draw(st.booleans()), "foreign": draw(st.booleans())}


def same_point(opt, cand, point, what):
    got = cand.get_standardized_data(reference=opt.parametrization)
    ensure(np.allclose(got, point, rtol=0, atol=1e-12), lambda: f"{what}: asked {got}, while the wrapped procedure evaluates {point}")


def check_left_behind(trace, what):
    if trace.thread is not None:
        trace.thread.join(WAIT)
        ensure(not trace.thread.is_alive(), f"a thread is left behind ({what})")


def run_sequential(case, rec: Recorder) -> None:
    import nevergrad as ng

    trace = Trace()
    opt = build(case, trace)
    total = len(case["prog"]["steps"])
    end = case["prog"]["end"]
    told = []
    errors = 0
    asks = case["asks"]
    if case["minimize"] and case["budget"] is not None:
        asks = case["budget"]
        seen = []

        def objective(x):
            seen.append(np.array(x, copy=True))
            told.append(case["losses"][len(told) % len(case["losses"])])
            return told[-1]

        try:
            within(lambda: opt.minimize(objective))
        except (Boom, RuntimeError) as e:
            ensure("the procedure failed" in str(e), f"unexpected error {e!r}")
            ensure(end == "raise" and asks > total, f"error {e!r} after {len(seen)} evaluations of {total}")
            errors += 1
        else:
            ensure(end != "raise" or asks <= total, "the error of the wrapped procedure was not reported")
        ensure_eq(len(seen), min(asks, total) if errors else asks, "evaluations")
        for k, x in enumerate(seen[: min(total, asks)]):
            ensure(np.allclose(x, trace.points[k], rtol=0, atol=1e-12), lambda: f"evaluation {k}: evaluated {x}, while the wrapped procedure evaluates {trace.points[k]}")
    else:
        foreign = opt.parametrization.spawn_child(new_value=np.full(case["dim"], 11.0))
        candidates = []
        for k in range(asks):
            try:
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter("always")
                    cand = within(opt.ask)
            except (Boom, RuntimeError) as e:
                ensure("the procedure failed" in str(e), f"unexpected error {e!r}")
                ensure(end == "raise" and k >= total, f"error {e!r} at ask {k} of {total}")
                errors += 1
                continue
            if k < total:
                same_point(opt, cand, trace.points[k], f"ask {k}")
            else:
                ensure(end != "raise", f"ask {k}: the error of the wrapped procedure was not reported")
                ensure(any("converged" in str(w.message) for w in caught), f"ask {k}: no warning though the wrapped procedure has finished")
                ensure(np.all(np.isfinite(cand.value)), f"asked {cand.value}")
            candidates.append((cand, np.array(cand.value, copy=True)))
            if case["foreign"] and k == 1:
                try:
                    within(lambda: opt.tell(foreign, 3.0))
                except ng.errors.TellNotAskedNotSupportedError:
                    pass
                else:
                    ensure(False, "tell of a point which was not asked is accepted")
            if case["pending"] and k == asks - 1:
                break  # never told
            loss = case["losses"][k % len(case["losses"])]
            within(lambda: opt.tell(cand, loss))
            told.append(loss)
        for cand, value in candidates:
            ensure(np.array_equal(cand.value, value), "the value of an asked candidate has changed")
    # wait for the procedure to receive the last loss
    deadline = time.time() + WAIT
    expected = told[: min(total, len(told))]
    while len(trace.losses) < len(expected) and time.time() < deadline:
        time.sleep(0.001)
    ensure_eq([float(x) for x in trace.losses], expected, "losses received by the wrapped procedure")
    ensure(len(trace.points) <= min(total, len(told) + 1), "the wrapped procedure went on without the loss")
    for k, point in enumerate(trace.points[:-1]):
        ensure(np.all(np.isfinite(point)), f"point {k}")
    if opt.num_tell > 0 and not errors:
        if asks > total:
            trace.thread.join(WAIT)
            reco = within(opt.provide_recommendation)
            if end == "value":
                ensure(np.allclose(reco.value, 0.75), f"recommended {reco.value}, while the wrapped procedure returned 0.75")
        else:
            reco = within(opt.provide_recommendation)
        ensure(np.all(np.isfinite(reco.value)), f"recommended {reco.value}")
    finished = asks > total
    del opt
    gc.collect()
    check_left_behind(trace, "finished procedure" if finished else "stopped procedure")
    rec.nontrivial(total >= 2 and asks >= 3)
    rec.event("went on after the end", finished)
    rec.event("error reported", errors > 0)
    rec.event("slow thread", bool(case["prog"]["slow_end"]))


@st.composite
def batch_case(draw):
    return {"batch": True, "prog": draw(program(True)), "dim": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 100)), "budget": draw(st.sampled_from([None, 50])),
            "moves": draw(st.lists(st.one_of(st.just(["ask"]), st.tuples(st.just("tell"), st.integers(0, 4)).map(list)), min_size=10, max_size=40))}


def run_batch(case, rec: Recorder) -> None:
    from nevergrad.optimization.recaster import TooManyAskError

    trace = Trace()
    opt = build(case, trace)
    steps = case["prog"]["steps"]
    end = case["prog"]["end"]
    pending = []  # asked, not told
    current = []  # candidates of the current batch
    sent = []  # losses expected by the procedure
    done = 0  # batches which were completed
    refused = errors = told = 0
    batch = None  # losses of the current batch
    for move in case["moves"]:
        if move[0] == "ask":
            over = done >= len(steps) and batch is None
            complete_asked = batch is not None and len(current) == steps[done]["n"]
            ensure_eq(opt.can_ask(), not (complete_asked and any(c is not None for c in pending)), "can_ask")
            try:
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter("always")
                    cand = within(opt.ask)
            except TooManyAskError:
                ensure(complete_asked, f"ask is refused with {len(current)} points asked in the current batch")
                refused += 1
                continue
            except (Boom, RuntimeError) as e:
                ensure("the procedure failed" in str(e), f"unexpected error {e!r}")
                ensure(end == "raise" and over, f"error {e!r} after {done} batches of {len(steps)}")
                errors += 1
                continue
            ensure(not complete_asked, "a new batch started before the previous one was completely told")
            if over:
                ensure(end != "raise", "the error of the wrapped procedure was not reported")
                ensure(any("converged" in str(w.message) for w in caught), "no warning though the wrapped procedure has finished")
                pending.append((cand, None))
                continue
            if batch is None:
                batch = {}
                current = []
            points = trace.points[done]
            where = [i for i, x in enumerate(points) if np.allclose(x, cand.value, rtol=0, atol=1e-12)]
            ensure(len(where) == 1, lambda: f"asked {cand.value}, while the wrapped procedure evaluates {points}")
            ensure(where[0] not in current, lambda: f"point {cand.value} is asked twice")
            current.append(where[0])
            pending.append((cand, where[0]))
        elif pending:
            cand, index = pending.pop(move[1] % len(pending))
            loss = float(told * 1.5 - 3)
            within(lambda: opt.tell(cand, loss))
            told += 1
            if index is not None:
                batch[index] = loss
                if len(batch) == steps[done]["n"]:
                    sent.append([batch[i] for i in range(len(batch))])
                    batch, current = None, []
                    done += 1
    deadline = time.time() + WAIT
    while len(trace.losses) < len(sent) and time.time() < deadline:
        time.sleep(0.001)
    ensure_eq([[float(x) for x in got] for got in trace.losses], sent, "losses received by the wrapped procedure")
    del opt
    gc.collect()
    check_left_behind(trace, "batches")
    rec.nontrivial(done >= 1)
    rec.event("refused ask", refused > 0)
    rec.event("error reported", errors > 0)
    rec.event("went on after the end", done >= len(steps))


# ---------------------------------------------------------------------------
# several optimizers at the same time, in any order: independent of each other


@st.composite
def many_case(draw):
    n = draw(st.integers(2, 4))
    return {"progs": [draw(program(False)) for _ in range(n)], "order": draw(st.lists(st.integers(0, n - 1), min_size=4, max_size=24)), "drop": draw(st.lists(st.integers(4, 20), max_size=1)), "split": draw(st.booleans())}


def run_many(case, rec: Recorder) -> None:
    traces, opts, asked, told = [], [], [], []
    for k, prog in enumerate(case["progs"]):
        prog = dict(prog, end="value")
        trace = Trace()
        traces.append(trace)
        opts.append(build({"prog": prog, "dim": 2, "batch": False, "seed": k, "budget": None}, trace))
        asked.append([])
        told.append([])
    waiting = {}
    for step, i in enumerate(case["order"]):
        if step in case["drop"] and opts[0] is not None:  # garbage collected while the others run
            waiting.pop(0, None)
            opts[0] = None
            gc.collect()
            if traces[0].thread is not None:
                check_left_behind(traces[0], "deleted optimizer")
        if opts[i] is None:
            continue
        if i not in waiting:
            waiting[i] = within(opts[i].ask)
            asked[i].append(waiting[i].value)
            if case["split"]:
                continue
        loss = float(10 * i + len(told[i]))
        cand = waiting.pop(i)
        within(lambda: opts[i].tell(cand, loss))
        told[i].append(loss)
    for i, (trace, prog) in enumerate(zip(traces, case["progs"])):
        n = min(len(prog["steps"]), len(asked[i]))
        for a, b in zip(asked[i][:n], trace.points):
            ensure(np.allclose(a, b, rtol=0, atol=1e-12), f"optimizer {i} asked {a}, and its procedure evaluates {b}")
        ensure_eq([float(x) for x in trace.losses], told[i][: len(trace.losses)], f"losses received by the procedure {i}")
    opts.clear()
    gc.collect()
    for trace in traces:
        check_left_behind(trace, "several optimizers")
    rec.nontrivial(sum(len(x) >= 2 for x in asked) >= 2)
    rec.event("deleted while others run", bool(case["drop"]))


# ---------------------------------------------------------------------------
# optimizers of the registry which run an external loop: no thread is left behind, evaluations go on after the convergence


def registry_names():
    import nevergrad as ng
    from . import optim as O

    out = []
    for name in sorted(ng.optimizers.registry):
        if name in O.UNAVAILABLE or O.is_slow(name) or name in O.TWO_COBYLA:
            continue
        if getattr(ng.optimizers.registry[name], "recast", False):
            out.append(name)
    return out


def registry_cases(tier, seed):
    import random

    out = []
    for name in registry_names():
        rng = random.Random(f"{name}{seed}")
        for _ in range(1 if tier == "quick" else 6):
            out.append({"opt": name, "dim": rng.randint(2, 4), "budget": rng.choice([None, 20, 60]) if not name.startswith(("SMAC", "Pymoo", "NLOPT", "DS", "PDS")) else rng.choice([20, 60]), "seed": rng.randint(0, 1000), "num": rng.randint(1, 25),
                        "flat": rng.random() < 0.3, "pending": rng.random() < 0.5})
    return out


def run_registry(case, rec: Recorder) -> None:
    import nevergrad as ng
    from . import optim as O

    with O.limits():
        before = set(threading.enumerate())
        root = ng.p.Array(shape=(case["dim"],))
        root.random_state.seed(case["seed"])
        cls = ng.optimizers.registry[case["opt"]]
        opt = cls(root, budget=case["budget"], num_workers=1)
        uids = set()
        for k in range(case["num"]):
            cand = within(opt.ask, 60)
            ensure(np.all(np.isfinite(cand.value)), f"asked {cand.value}")
            ensure(cand.uid not in uids, "a candidate is asked twice")
            uids.add(cand.uid)
            if k == case["num"] - 1 and case["pending"]:
                break
            # (a flat function makes some libraries converge at once)
            within(lambda: opt.tell(cand, 1.0 if case["flat"] else float(np.sum((cand.value - 0.3) ** 2))), 60)
        ensure(np.all(np.isfinite(within(opt.provide_recommendation, 60).value)), "recommendation")
        del opt, cand
        gc.collect()
        deadline = time.time() + WAIT

        def left():
            from nevergrad.optimization.recaster import _MessagingThread

            return [t for t in set(threading.enumerate()) - before if t.is_alive() and isinstance(t, _MessagingThread)]

        while left() and time.time() < deadline:
            gc.collect()
            time.sleep(0.01)
        ensure(not left(), f"threads left behind: {left()}")
    rec.nontrivial(case["num"] >= 5)
    rec.event("flat", case["flat"])


# ---------------------------------------------------------------------------
# batch library: any order of tells within a batch


def pymoo_cases(tier, seed):
    import random

    rng = random.Random(f"pymoo{seed}")
    return [{"seed": rng.randint(0, 10000), "workers": rng.choice([1, 3, 10, 200]), "steps": rng.choice([10, 250, 500]), "objectives": rng.choice([1, 2, 3]), "set": rng.random() < 0.4} for _ in range(12 if tier == "quick" else 80)]


def run_pymoo(case, rec: Recorder) -> None:
    import random

    import nevergrad as ng

    rng = random.Random(case["seed"])
    root = ng.p.Array(shape=(2,))
    root.random_state.seed(case["seed"])
    opt = ng.optimizers.PymooBatchNSGA2(root, budget=1000, num_workers=case["workers"])
    if case["set"]:
        opt.num_objectives = case["objectives"]
    pending, uids, told = [], set(), 0
    try:
        for _ in range(case["steps"]):
            if len(pending) < case["workers"] and (rng.random() < 0.55 or not pending) and opt.can_ask():
                cand = within(opt.ask)
                ensure(np.all(np.isfinite(cand.value)), f"asked {cand.value}")
                ensure(cand.uid not in uids, "a candidate is asked twice")
                uids.add(cand.uid)
                pending.append(cand)
            elif pending:
                cand = pending.pop(rng.randrange(len(pending)))
                losses = [float(np.sum((cand.value - k) ** 2)) for k in range(case["objectives"])]
                within(lambda: opt.tell(cand, losses if len(losses) > 1 else losses[0]))
                told += 1
                ensure(len(pending) > 0 or opt.can_ask(), "everything was told, and no point can be asked")
        ensure_eq((opt.num_ask, opt.num_tell, opt.num_tell_not_asked), (len(uids), told, 0), "num_ask, num_tell, num_tell_not_asked")
    finally:
        del opt
        gc.collect()
    rec.nontrivial(told >= 5)
    rec.event("several batches", told > 100)


# ---------------------------------------------------------------------------
# two interleaved optimizers of the same external library


def interleaved_cases(tier, seed):
    out = []
    for name in ["NelderMead", "Powell", "SQP", "BFGS", "Cobyla", "NLOPT_LN_SBPLX", "NLOPT_LN_PRAXIS", "CmaFmin2"]:
        out.append({"opt": name})
    return out


def run_interleaved(case, rec: Recorder) -> None:
    import nevergrad as ng

    cls = ng.optimizers.registry[case["opt"]]

    def values(interleaved):
        opts = []
        for seed in (1, 2):
            root = ng.p.Array(shape=(2,))
            root.random_state.seed(seed)
            opts.append(cls(root, budget=12))
        out = [[], []]
        order = [0, 1] * 6 if interleaved else [0] * 6 + [1] * 6
        try:
            cands = {}
            for i in order:
                cands[i] = within(opts[i].ask, 3)
                out[i].append(np.array(cands[i].value))
                if not interleaved:
                    opts[i].tell(cands[i], float(np.sum((cands[i].value - 0.5 - i) ** 2)))
                elif len(cands) == 2:  # both asked before any tell
                    for j in (0, 1):
                        opts[j].tell(cands[j], float(np.sum((cands[j].value - 0.5 - j) ** 2)))
                    cands = {}
                if not interleaved and len(out[0]) == 6 and i == 0:
                    opts[0] = None  # frees the library
                    gc.collect()
        finally:
            opts.clear()
            gc.collect()
        return out

    alone = values(False)
    if case["opt"] == "Cobyla" and "C21-cobyla-lock" in rec.listed:  # scipy's COBYLA holds a lock of the whole process
        rec.known_finding("C21-cobyla-lock")
        return
    together = values(True)
    for k in (0, 1):
        ensure(all(np.array_equal(a, b) for a, b in zip(alone[k], together[k])), f"asked {alone[k]} alone, and {together[k]} when another optimizer runs")
    rec.nontrivial(True)


PROPS = [
    Prop("sequential", sequential_case(), run_sequential, quick=500, rule="procedure of at least 2 evaluations and at least 3 asks", shards=8),
    Prop("batch", batch_case(), run_batch, quick=400, rule="a complete batch", shards=6),
    Prop("many", many_case(), run_many, quick=250, rule="at least two optimizers with two asks", shards=4),
    Enum("registry", registry_cases, run_registry, rule="at least 5 asks", shards=8, timeout=150),
    Enum("pymoo", pymoo_cases, run_pymoo, rule="at least 5 tells", shards=4, timeout=100),
    Enum("interleaved", interleaved_cases, run_interleaved, rule="every case", shards=4, timeout=60),
]
