"""C17: minimize spends exactly the budget, each candidate once, within the limits of workers, whatever the schedule of the executor"""
import contextlib
import io
import random
import threading
import time
from concurrent import futures

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P
from . import optim as O

OPTS = ["RandomSearch", "OnePlusOne", "DE", "PSO", "CMA", "TBPSA", "NGOpt", "ScrHammersleySearch", "DiscreteOnePlusOne", "NoisyDE", "cGA", "SQP", "Portfolio", "OptimisticNoisyOnePlusOne"]
SPECS = [
    {"k": "array", "shape": [2], "ms": False},
    {"k": "inst", "args": [{"k": "scalar", "ms": False, "lower": -1.0, "upper": 3.0}], "kwargs": [["x", {"k": "array", "shape": [2], "ms": False}]]},
    {"k": "tuple", "items": [{"k": "choice", "items": [{"k": "const", "v": i} for i in range(3)], "rep": None, "det": True}, {"k": "scalar", "ms": False}]},
]


class Boom(Exception):
    pass


class Interrupted(BaseException):
    pass


class Job:
    def __init__(self, ex, rank, fn, args, kwargs):
        self.ex, self.rank, self.fn, self.args, self.kwargs = ex, rank, fn, args, kwargs
        self.polls = 0
        self.was_done = False
        self.computed = False
        self.value = None

    def done(self):
        ex = self.ex
        ex.on_poll()
        if ex.poll_count in ex.interrupts:
            raise Interrupted(f"poll {ex.poll_count}")
        self.polls += 1
        self.was_done = self.was_done or self.polls > ex.delays[self.rank % len(ex.delays)]
        return self.was_done

    def result(self):
        ensure(self.was_done, "result of a job which is not done")
        if not self.computed:
            self.value = self.fn(*self.args, **self.kwargs)
            self.computed = True
        return self.value


class Executor:
    """jobs are done after a number of polls which is in the case"""

    def __init__(self, case, watch):
        self.delays, self.interrupts, self.watch = case["delays"], set(case["interrupts"]), watch
        self.jobs = []
        self.poll_count = 0

    def submit(self, fn, *args, **kwargs):
        self.jobs.append(Job(self, len(self.jobs), fn, args, kwargs))
        self.watch.submitted(len(self.jobs) - 1)
        return self.jobs[-1]

    def on_poll(self):
        self.poll_count += 1
        self.watch.polled()


class Watch:
    def __init__(self, case, opt, limit):
        self.case, self.opt, self.limit = case, opt, limit
        self.asked, self.told, self.subs = [], [], 0
        self.stopped = False

    def running(self):
        return self.subs - len(self.told)

    def submitted(self, rank):
        self.subs += 1
        ensure_eq(self.subs, len(self.asked), "submitted jobs and asked candidates")
        ensure(self.running() <= self.case["workers"], f"{self.running()} pending jobs with {self.case['workers']} workers")
        if self.case["batch"]:
            ensure(self.batch_room > 0, "batch mode: a job is launched while a batch is running")
            self.batch_room -= 1

    def polled(self):
        """all polls come after the new jobs were launched"""
        if not self.stopped and not self.case["batch"]:
            ensure(self.running() == self.case["workers"] or self.subs == self.limit, f"steady mode: only {self.running()} running jobs with {self.limit - self.subs} remaining")

    @property
    def batch_room(self):
        """a batch starts when everything was told"""
        if len(self.told) == self.subs - 1:  # self.subs was incremented already
            self._room = self.case["workers"]
        return self._room

    @batch_room.setter
    def batch_room(self, value):
        self._room = value

    _room = 0


@st.composite
def schedule_case(draw):
    budget = draw(st.integers(1, 14))
    case = {"opt": draw(st.sampled_from(OPTS)), "spec": draw(st.sampled_from(SPECS)), "seed": draw(st.integers(0, 1000)), "budget": budget,
            "workers": draw(st.integers(1, 5)), "batch": draw(st.booleans()), "delays": draw(st.lists(st.integers(0, 6), min_size=1, max_size=8)),
            "interrupts": draw(st.one_of(st.just([]), st.lists(st.integers(1, 20), max_size=3))), "fails": draw(st.one_of(st.just([]), st.lists(st.integers(0, 13), max_size=3))),
            "prior": draw(st.lists(st.booleans(), max_size=3)), "stop": draw(st.one_of(st.none(), st.none(), st.integers(0, 10))), "verbosity": draw(st.sampled_from([0, 0, 1, 2])),
            "max_time": draw(st.sampled_from([None, None, 0.0])), "once": draw(st.booleans())}
    return case


def spy_ask(opt, asked):
    """keeps track of the candidates asked by minimize"""
    original = opt.ask

    def ask():
        asked.append(original())
        return asked[-1]

    opt.ask = ask


def candidate_key(opt, cand):
    return cand.get_standardized_data(reference=opt.parametrization).tobytes()


def run_schedule(case, rec: Recorder) -> None:
    import nevergrad as ng

    if ng.optimizers.registry[case["opt"]].no_parallelization:
        case = dict(case, workers=1)
    root = P.build(case["spec"])
    root.random_state.seed(case["seed"])
    opt = ng.optimizers.registry[case["opt"]](root, budget=case["budget"], num_workers=case["workers"])
    n_prior = 0
    for tell in case["prior"][: case["budget"] - 1]:
        n_prior += 1
        cand = opt.ask()
        if tell or case["opt"] == "SQP":
            opt.tell(cand, 100.0)
    limit = case["budget"] - n_prior
    n_told_before = opt.num_tell
    watch = Watch(case, opt, limit)
    spy_ask(opt, watch.asked)
    opt.register_callback("tell", lambda o, c, v: watch.told.append((c, v)))
    stop_at, stops = case["stop"], []
    once = case["once"] and not case["fails"] and not case["interrupts"]
    if stop_at is not None and stop_at < limit:

        def criterion(_):
            stops.append(len(watch.asked))
            if once and watch.stopped:
                return False  # (only true once)
            watch.stopped = watch.stopped or len(watch.asked) >= stop_at
            return watch.stopped

        opt.register_callback("ask", ng.callbacks.EarlyStopping(criterion))
        limit = stop_at
    ex = Executor(case, watch)
    calls, failed = [], set()

    def function(*args, **kwargs):
        rank = len(watch.told)  # jobs are computed when told
        if rank in case["fails"] and rank not in failed:
            failed.add(rank)
            raise Boom(f"evaluation {rank}")
        calls.append((args, kwargs))
        return float(len(calls)) / 7 - 1

    kw = dict(executor=ex, batch_mode=case["batch"], verbosity=case["verbosity"])
    if case["max_time"] is not None:
        before = opt.num_ask
        with contextlib.redirect_stdout(io.StringIO()):
            first = opt.minimize(function, max_time=case["max_time"], **kw)  # no time at all
        P.check_value(case["spec"], first.value, "recommendation with max_time=0")
        ensure_eq(opt.num_ask, before, "asks with max_time=0")
    out = None
    errors = 0
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(len(case["fails"]) + len(case["interrupts"]) + 1):
            try:
                out = opt.minimize(function, **kw)
                break
            except (Boom, Interrupted):
                errors += 1
    ensure(out is not None, "minimize did not end")
    ensure_eq(errors, len(failed) + len([i for i in set(case["interrupts"]) if i <= ex.poll_count]), "errors")
    ensure_eq(len(failed), len([f for f in set(case["fails"]) if f < limit]), "errors of the function which were not raised")
    ensure_eq(watch.subs, limit, "number of submitted jobs")
    ensure_eq(len(calls), limit, "number of (successful) evaluations")
    ensure_eq(len(watch.told), limit, "number of tells")
    ensure_eq((opt.num_ask, opt.num_tell), (n_prior + limit, n_told_before + limit), "num_ask, num_tell")
    ensure_eq(sorted(c.uid for c, _ in watch.told), sorted(c.uid for c in watch.asked), "told candidates")
    by_args = {}
    for cand, job in zip(watch.asked, ex.jobs):
        ensure(P.same_value(list(cand.args), list(job.args)) and P.same_value(cand.kwargs, job.kwargs), "arguments of the job")
        by_args[cand.uid] = job
    for cand, loss in watch.told:
        ensure_eq(loss, by_args[cand.uid].value, "loss told to a candidate and result of its own job")
    if not case["spec"]["k"] == "tuple":
        again = opt.provide_recommendation()
        ensure(candidate_key(opt, again) == candidate_key(opt, out), lambda: f"minimize returned {out.value}, and the recommendation is {again.value}")
    n = len(ex.jobs)
    if watch.stopped and not case["fails"] and not case["interrupts"]:
        ensure_eq(stops, list(range(limit + 1)), "asks before and after the early stopping")
    if watch.stopped and once:  # the remaining budget can still be spent afterwards
        n = watch.limit
        watch.stopped = False
        opt._callbacks.pop("ask")
    with contextlib.redirect_stdout(io.StringIO()):
        opt.minimize(function, **kw)  # nothing remains, or it is still stopped
    ensure_eq(len(ex.jobs), n, "jobs with no remaining budget")
    rec.nontrivial(limit > case["workers"] > 1 or errors > 0)
    rec.event("interrupted or failed", errors > 0)
    rec.event("batch mode", case["batch"])
    rec.event("early stopping", watch.stopped)
    rec.event("prior asks", n_prior > 0)


# ---------------------------------------------------------------------------
# default executor and real threads


@st.composite
def real_case(draw):
    return {"opt": draw(st.sampled_from(OPTS)), "spec": draw(st.sampled_from(SPECS)), "seed": draw(st.integers(0, 1000)), "budget": draw(st.integers(1, 20)), "workers": draw(st.integers(1, 4)),
            "batch": draw(st.booleans()), "executor": draw(st.sampled_from(["default", "default", "threads"])), "delay_seed": draw(st.integers(0, 99)), "noise": draw(st.booleans()),
            "resume": draw(st.integers(0, 3))}


def run_real(case, rec: Recorder) -> None:
    import nevergrad as ng

    if ng.optimizers.registry[case["opt"]].no_parallelization:
        case = dict(case, workers=1)
    root = P.build(case["spec"])
    root.random_state.seed(case["seed"])
    opt = ng.optimizers.registry[case["opt"]](root, budget=case["budget"], num_workers=case["workers"])
    asked, told, calls, current, top = [], [], [], [0], [0]
    lock = threading.Lock()
    spy_ask(opt, asked)
    opt.register_callback("tell", lambda o, c, v: told.append((c, v)))
    rng = random.Random(case["delay_seed"])

    def function(*args, **kwargs):
        with lock:
            current[0] += 1
            top[0] = max(top[0], current[0])
            delay = rng.choice([0, 0, 0.001, 0.003])
            k = len(calls)
            calls.append((args, kwargs))
        if case["executor"] == "threads" and delay:
            time.sleep(delay)
        with lock:
            current[0] -= 1
        return float((k * 7) % 5)

    with contextlib.ExitStack() as stack:
        ex = stack.enter_context(futures.ThreadPoolExecutor(max_workers=8)) if case["executor"] == "threads" else None
        out = opt.minimize(function, executor=ex, batch_mode=case["batch"])
        b = case["budget"]
        ensure_eq((len(asked), len(told), len(calls), opt.num_ask, opt.num_tell), (b,) * 5, "asks, tells, calls")
        ensure(top[0] <= case["workers"], f"{top[0]} simultaneous evaluations with {case['workers']} workers")
        remaining = [v for _, v in told]
        ensure_eq(sorted(remaining), sorted(float((k * 7) % 5) for k in range(b)), "told losses")
        ensure_eq(len({c.uid for c, _ in told}), b, "distinct told candidates")
        if case["resume"] and case["opt"] not in ("ScrHammersleySearch", "NGOpt", "Portfolio"):  # a larger budget, afterwards
            opt.budget = b + case["resume"]
            out = opt.minimize(function, executor=ex, batch_mode=case["batch"])
            ensure_eq((len(calls), len(told)), (b + case["resume"],) * 2, "calls after increasing the budget")
    ensure(isinstance(out, type(root)), "type of the recommendation")
    P.check_value(case["spec"], out.value, "recommendation")
    rec.nontrivial(case["budget"] > 2)
    rec.event("threads", case["executor"] == "threads")


PROPS = [
    Prop("schedules", schedule_case(), run_schedule, quick=1200, rule="more evaluations than workers > 1, or an error or interruption occurred", shards=8),
    Prop("executors", real_case(), run_real, quick=300, rule="budget above 2", shards=4),
]
