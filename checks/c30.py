"""C30: simulated asynchronous execution follows the simulated time"""
import heapq
import typing as tp
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq, expect_raises
from pbt import params as P


def _make_function() -> tp.Any:
    import nevergrad as ng
    from nevergrad.functions import ExperimentFunction

    class Timed(ExperimentFunction):
        """Function with a given pseudo time for each of the inputs"""

        def __init__(self, log: tp.Any, delays: tp.Any) -> None:
            super().__init__(self._func, ng.p.Instrumentation(ng.p.Array(shape=(2,)), key=ng.p.Scalar()).set_name("timed"))
            self.log = log
            self.delays = delays

        def _func(self, *args: tp.Any, key: tp.Any = 0) -> float:
            self.log.append((args, key))
            return 10.0 * len(self.log) if not args else float(np.sum((args[0] - 0.3) ** 2) + abs(key))

        def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
            args, kwargs = input_parameter
            if not args:
                return self.delays[kwargs["key"] % len(self.delays)]
            # depends on the input and on the loss
            u = int(abs(args[0][0]) * 1000) + int(loss * 100)
            return self.delays[u % len(self.delays)]

    return Timed


delay = st.one_of(st.integers(-1, 4).map(float), P.floats(0, 5))


@st.composite
def schedules(draw: tp.Any) -> tp.Any:
    return {
        "batch": draw(st.booleans()), "delays": draw(st.lists(delay, min_size=1, max_size=8)),
        "ops": draw(st.lists(st.tuples(st.sampled_from(["submit", "submit", "plain", "done", "scan", "next", "next", "result", "again"]), st.integers(0, 7)), min_size=3, max_size=40)),
    }


def run_executor(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.benchmark.execution import MockedTimedExecutor

    log: tp.List[tp.Any] = []
    delays = case["delays"]
    func = _make_function()(log, delays)
    plain_log: tp.List[int] = []
    batch = case["batch"]
    executor = MockedTimedExecutor(batch_mode=batch)
    jobs: tp.List[tp.Any] = []
    release: tp.List[float] = []
    read: tp.List[bool] = []
    kinds: tp.List[int] = []
    time = 0.0
    overtaken = 0

    def plain(k: int) -> tp.Tuple[str, int]:
        plain_log.append(k)
        return ("plain", k)

    def unread() -> tp.List[int]:
        return sorted((k for k, r in enumerate(read) if not r), key=lambda k: (release[k], k))

    def is_done(k: int) -> bool:
        return batch or read[k] or unread()[0] == k

    for op, x in case["ops"]:
        if op in ("submit", "plain"):
            k = len(jobs)
            if op == "submit":
                jobs.append(executor.submit(func, key=k))
                release.append(time + max(0.0, delays[k % len(delays)]))
            else:
                jobs.append(executor.submit(plain, k))
                release.append(time + 1.0)
            kinds.append(op == "plain")
            read.append(False)
        elif not jobs:
            continue
        elif op == "done":
            k = x % len(jobs)
            ensure_eq(jobs[k].done(), is_done(k), f"done() of job {k}")
        elif op == "scan":
            ensure_eq([j.done() for j in jobs], [is_done(k) for k in range(len(jobs))], "done() of all the jobs")
        elif op == "next":
            if not unread():
                continue
            k = unread()[0] if not batch else unread()[x % len(unread())]
            overtaken += any(not r for r in read[:k])
            out = jobs[k].result()
            if kinds[k]:
                ensure_eq(out, ("plain", k), "output of the job")
            else:
                ensure(out in [10.0 * (i + 1) for i in range(len(log))] and log[int(out / 10) - 1] == ((), k), f"output {out} of job {k}")
            read[k] = True
            time = max(time, release[k])
        elif op == "result":
            k = x % len(jobs)
            if not is_done(k):
                with expect_raises(RuntimeError, msg="result of a job which is not done"):
                    jobs[k].result()
        elif op == "again":  # results can be read several times
            done = [k for k, r in enumerate(read) if r]
            if done and not batch and "C30-read-twice" in rec.listed:
                rec.known_finding("C30-read-twice")
            elif done:
                k = done[x % len(done)]
                ensure(jobs[k].done(), "a read job is not done")
                out = jobs[k].result()
                ensure_eq(out, jobs[k].result(), "result changed")
        ensure_eq(executor.time, time, "time of the executor")
        ensure(len(log) == len(set(k for _, k in log)) and len(plain_log) == len(set(plain_log)), "a function was evaluated twice")
    order = unread()
    for k in order if not batch else range(len(jobs)):
        if read[k]:
            continue
        ensure(jobs[k].done(), "the next job is not done")
        jobs[k].result()
        time = max(time, release[k])
        ensure_eq(executor.time, time, "final times")
    ensure_eq(len(log) + len(plain_log), len(jobs), "each of the jobs is evaluated once")
    ensure_eq([j.release_time for j in jobs], release, "release times")
    rec.event("batch", batch)
    rec.nontrivial(len(jobs) >= 3 and (overtaken > 0 or batch))


# ---------------------------------------------------------------------------
# complete optimizations


def simulate(opt: tp.Any, func: tp.Any, budget: int, workers: int, batch: bool) -> tp.Tuple[tp.List[tp.Any], float]:
    """Reference discrete-event simulation. Returns the history and the final time"""
    history: tp.List[tp.Any] = []
    time = 0.0
    queue: tp.List[tp.Any] = []
    order = asked = 0

    def start() -> None:
        nonlocal order, asked
        cand = opt.ask()
        asked += 1
        history.append(("ask", cand.uid))
        queue.append([None, order, cand])
        order += 1

    while asked < budget or queue:
        if not batch or not queue:
            begin = time
            new = []
            for _ in range(min(budget - asked, workers - len(queue))):
                start()
                new.append(queue[-1])
            for item in new:
                loss = func(*item[2].args, **item[2].kwargs)
                item[0] = begin + max(0, func.compute_pseudotime((item[2].args, item[2].kwargs), loss))
                item.append(loss)
        selected = [min(queue, key=lambda it: it[:2])] if not batch else list(queue)
        for item in selected:
            queue.remove(item)
            opt.tell(item[2], item[3])
            history.append(("tell", item[2].uid))
            time = max(time, item[0])
    return history, time


@st.composite
def optims(draw: tp.Any) -> tp.Any:
    return {
        "batch": draw(st.booleans()), "workers": draw(st.integers(1, 6)), "budget": draw(st.integers(1, 24)),
        "delays": draw(st.lists(delay, min_size=1, max_size=8)), "seed": draw(P.seeds),
        "optimizer": draw(st.sampled_from(["OnePlusOne", "DE", "RandomSearch", "PSO", "TwoPointsDE", "MetaRecentering", "CMA", "NGOpt", "ScrHammersleySearch"])),
        "verbosity": draw(st.sampled_from([0, 0, 0, 1])),
    }


def run_minimize(case: tp.Any, rec: Recorder) -> None:
    import contextlib
    import io
    import nevergrad as ng
    from nevergrad.benchmark.execution import MockedTimedExecutor

    warnings.simplefilter("ignore")
    outs = []
    for mode in ["real", "reference"]:
        log: tp.List[tp.Any] = []
        func = _make_function()(log, case["delays"])
        param = func.parametrization.copy()
        param.random_state.seed(case["seed"])
        np.random.seed(case["seed"] % 1000)
        opt = ng.optimizers.registry[case["optimizer"]](param, budget=case["budget"], num_workers=case["workers"])
        if mode == "real":
            history: tp.List[tp.Any] = []
            told: tp.List[tp.Any] = []
            opt.register_callback("ask", lambda o: told.append(("ask", None)))
            opt.register_callback("tell", lambda o, c, v: history.append((c.args, c.kwargs, v)) or told.append(("tell", None)))
            executor = MockedTimedExecutor(batch_mode=case["batch"])
            with contextlib.redirect_stdout(io.StringIO()):
                recom = opt.minimize(func, executor=executor, batch_mode=case["batch"], verbosity=case["verbosity"])
            outs.append((history, [x for x, _ in told], executor.time, recom.args, len(log)))
        else:
            history = []
            opt.register_callback("tell", lambda o, c, v: history.append((c.args, c.kwargs, v)))
            hist, time = simulate(opt, func, case["budget"], case["workers"], case["batch"])
            outs.append((history, [x for x, _ in hist], time, opt.recommend().args, len(log)))
    real, ref = outs
    ensure_eq(len(real[0]), case["budget"], "number of tells")
    ensure_eq(real[4], ref[4], "number of evaluations")
    ensure_eq(real[1], ref[1], "order of asks and tells")
    for k, (a, b) in enumerate(zip(real[0], ref[0])):
        ensure(np.array_equal(a[0][0], b[0][0]) and a[1] == b[1] and a[2] == b[2], f"tell {k} differs from the simulated one: {a} {b}")
    ensure_eq(real[2], ref[2], "final time")
    ensure(np.array_equal(real[3][0], ref[3][0]), "recommendation")
    rec.event("batch", case["batch"])
    rec.nontrivial(case["workers"] > 1 and case["budget"] > case["workers"] and len(set(case["delays"])) > 1)


PROPS = [
    Prop("executor", schedules(), run_executor, 1500, rule="3 jobs or more, one overtaking another in steady mode", shards=2),
    Prop("minimize", optims(), run_minimize, 500, rule="several workers, several delays", shards=3),
]
