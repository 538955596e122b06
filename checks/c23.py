"""C23: internal containers behave like their mathematical model"""
import copy
import math
import os
import pickle
from unittest import mock

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, Skip, ensure, ensure_eq, expect_raises
from pbt import params as P

keys = st.integers(0, 6)
keylist = st.lists(keys, max_size=6)


# ---------------------------------------------------------------------------
# ordered set: a list without duplicates, in which adding moves to the end


def model_add(model, key):
    if key in model:
        model.remove(key)
    model.append(key)


SET_OPS = st.lists(
    st.one_of(
        st.tuples(st.sampled_from(["add", "add", "discard", "remove"]), keys).map(list),
        st.tuples(st.sampled_from(["|", "&", "-", "^", "|=", "&=", "-=", "^=", "==", "<=", "disjoint", "rand", "ror"]), keylist).map(list),
        st.sampled_from([["pop"], ["popright"], ["clear"], ["pickle"], ["copy"]]),
    ),
    min_size=3,
    max_size=30,
)


def run_set(case, rec: Recorder) -> None:
    from nevergrad.common.tools import OrderedSet

    model = []
    for k in case["init"]:
        model_add(model, k)
    real = OrderedSet(case["init"])
    removed = 0
    for op in case["ops"]:
        what, arg = op[0], op[1] if len(op) > 1 else None
        n = len(model)
        if what == "add":
            real.add(arg)
            model_add(model, arg)
        elif what == "discard":
            real.discard(arg)
            if arg in model:
                model.remove(arg)
        elif what == "remove":
            if arg in model:
                real.remove(arg)
                model.remove(arg)
            else:
                with expect_raises(KeyError, msg="remove of a missing key"):
                    real.remove(arg)
        elif what in ("pop", "popright"):
            if model:
                out = getattr(real, what)()
                ensure_eq(out, model.pop(0 if what == "pop" else -1), what)
            else:
                with expect_raises(KeyError, StopIteration, IndexError, msg=f"{what} of an empty set"):
                    getattr(real, what)()
        elif what == "clear":
            real.clear()
            model.clear()
        elif what == "pickle":
            real = pickle.loads(pickle.dumps(real))
        elif what == "copy":
            other = copy.deepcopy(real)
            other.add(100)
            other.discard(model[0] if model else 0)
        elif what in ("==", "<=", "disjoint"):
            s = set(arg)
            ensure_eq(real == s, set(model) == s, "== of sets")
            ensure_eq(real <= s, set(model) <= s, "<= of sets")
            ensure_eq(real.isdisjoint(s), set(model).isdisjoint(s), "isdisjoint")
        elif what in ("|", "&", "-", "^", "rand", "ror"):
            s = set(arg)
            if what == "|" or what == "ror":
                out, exp = (real | OrderedSet(arg)) if what == "|" else (s | real), list(model)
                for k in arg if what == "|" else []:
                    model_add(exp, k)
                if what == "ror":
                    ensure_eq(set(out), set(exp) | s, "reversed union")
                    exp = None
            elif what == "&" or what == "rand":
                out, exp = (real & s if what == "&" else s & real), None  # (the order is not specified)
                ensure_eq(set(out), set(model) & s, "intersection")
            elif what == "-":
                out, exp = real - s, [k for k in model if k not in s]
            else:
                out, exp = real ^ s, None
                ensure_eq(set(out), set(model) ^ s, "symmetric difference")
            ensure(isinstance(out, OrderedSet), "the type is lost", type(out))
            ensure(out is not real, "operator works in place")
            if exp is not None and what != "|":
                ensure_eq(list(out), exp, f"set operator {what}")
            elif exp is not None:
                ensure_eq(set(out), set(exp), f"set operator {what}")
        else:
            s = set(arg)
            same = real
            if what == "|=":
                real |= OrderedSet(arg)
                order = []
                for k in arg:
                    model_add(order, k)
                for k in order:
                    model_add(model, k)
            elif what == "&=":
                real &= s
                model = [k for k in model if k in s]
            elif what == "-=":
                real -= s
                model = [k for k in model if k not in s]
            elif what == "^=":
                new = [k for k in dict.fromkeys(arg)]
                real ^= OrderedSet(new)
                for k in new:
                    if k in model:
                        model.remove(k)
                    else:
                        model.append(k)
            ensure(real is same, f"{what} is not in place")
        removed += len(model) < n
        ensure_eq(list(real), model, f"elements after {op}")
        ensure_eq(len(real), len(model), f"length after {op}")
        ensure_eq(list(reversed(list(real))), model[::-1], "reversed elements")
        for k in range(8):
            ensure_eq(k in real, k in model, f"membership of {k} after {op}")
    rec.nontrivial(removed >= 1)


# ---------------------------------------------------------------------------
# uid queue: told uids first (first in first out), then the oldest of the asked


QUEUE_OPS = st.lists(
    st.one_of(
        st.sampled_from([["ask"], ["ask"], ["ask"], ["pickle"], ["clear"]]),
        st.tuples(st.sampled_from(["tell", "tell", "tell", "discard"]), st.integers(0, 5)).map(list),
        st.tuples(st.sampled_from(["tell_asked", "discard_asked"]), st.integers(0, 5)).map(list),
    ),
    min_size=4,
    max_size=50,
)


def run_queue(case, rec: Recorder) -> None:
    from nevergrad.optimization.utils import UidQueue

    real = UidQueue()
    told, asked = [], []
    both = 0
    for op in case["ops"]:
        what = op[0]
        if what == "ask":
            if told:
                exp = told.pop(0)
            elif asked:
                exp = asked[0]
                both += 1
            else:
                with expect_raises(RuntimeError, msg="ask to an empty queue"):
                    real.ask()
                continue
            model_add(asked, exp)
            ensure_eq(real.ask(), exp, "asked uid")
        elif what in ("tell", "tell_asked"):
            uid = f"u{op[1]}"
            if what == "tell_asked":
                if not asked:
                    continue
                uid = asked[op[1] % len(asked)]
            real.tell(uid)
            told.append(uid)
            if uid in asked:
                asked.remove(uid)
        elif what in ("discard", "discard_asked"):
            uid = f"u{op[1]}"
            if what == "discard_asked" and asked:
                uid = asked[op[1] % len(asked)]
            if uid not in asked and uid not in told:
                continue
            asked, told = [u for u in asked if u != uid], [u for u in told if u != uid]  # never asked again
            real.discard(uid)
        elif what == "clear":
            real.clear()
            told, asked = [], []
        elif what == "pickle":
            real = pickle.loads(pickle.dumps(real))
        ensure_eq((list(real.told), list(real.asked)), (told, asked), f"told and asked after {op}")
    # drain
    for _ in range(len(told) + 2 * len(asked)):
        if told:
            exp = told.pop(0)
        else:
            exp = asked[0]
        model_add(asked, exp)
        ensure_eq(real.ask(), exp, "asked uid at the end")
    rec.nontrivial(both >= 1)


# ---------------------------------------------------------------------------
# archive: a dict of arrays


POINTS = st.lists(st.lists(st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-300, 1e300, float(np.nextafter(1, 2))]), min_size=1, max_size=3), min_size=2, max_size=5)


def run_archive(case, rec: Recorder) -> None:
    from nevergrad.optimization.utils import Archive

    real = Archive()
    model = {}
    pts = case["points"]
    forms = [lambda x: np.array(x), list, tuple, lambda x: np.array([x, x], dtype=float)[1], lambda x: np.asfortranarray(np.array([x, x]).T)[:, 0]]
    for k, i, form in case["ops"]:
        i %= len(pts)
        pt = tuple(pts[i])
        x = forms[form](pts[i])
        if k == "set":
            real[x] = len(model) + 1
            if pt in model:
                model[pt] = len(model) + 1
            else:
                model[pt] = len(model) + 1
        elif k == "get":
            ensure_eq(real.get(x), model.get(pt), "get")
            ensure_eq(real.get(x, "default"), model.get(pt, "default"), "get with a default")
            if pt in model:
                ensure_eq(real[x], model[pt], "getitem")
            else:
                with expect_raises(KeyError, msg="missing point"):
                    real[x]
        elif k == "pickle":
            real = pickle.loads(pickle.dumps(real))
        elif k == "bad":
            for bad in ([[1.0]], 1.0, [1, 2], np.array([1.0], dtype=np.float32), np.array([["a"]])):
                with expect_raises(AssertionError, ValueError, TypeError, msg="set of an invalid key"):
                    real[bad] = 1
            for method in (real.keys, real.items, lambda: iter(real)):
                with expect_raises(RuntimeError, TypeError, msg="keys, items or iter"):
                    method()
        ensure_eq(x in real, pt in model, "membership")
        ensure_eq(len(real), len(model), "length")
        ensure_eq(list(real.values()), list(model.values()), "values")
        ensure_eq([tuple(a) for a in real.keys_as_arrays()], list(model), "keys_as_arrays")
        ensure_eq([(tuple(a), v) for a, v in real.items_as_arrays()], list(model.items()), "items_as_arrays")
    rec.nontrivial(len(model) >= 2)


# ---------------------------------------------------------------------------
# statistics of repeated evaluations


values = st.one_of(st.integers(-5, 5).map(float), P.floats(-100, 100), P.floats(-1e9, 1e9), P.floats(-1e19, 1e19))


def run_values(case, rec: Recorder) -> None:
    import nevergrad as ng
    from nevergrad.optimization.utils import MultiValue

    ref = ng.p.Array(shape=(2,))
    param = ref.spawn_child()
    param.value = np.array([1.0, -2.0])
    real = None
    for k, y in enumerate(case["ys"]):
        if real is None:
            real = MultiValue(param, y, reference=ref)
        else:
            real.add_evaluation(y)
        if k in case["pickle"]:
            real = pickle.loads(pickle.dumps(real))
        ys = case["ys"][: k + 1]
        n = len(ys)
        scale = max(abs(v) for v in ys)
        mean = math.fsum(ys) / n
        ensure_eq(real.count, n, "count")
        ensure(abs(real.mean - mean) <= 1e-9 * scale, "mean", real.mean, mean)
        square = math.fsum(v * v for v in ys) / n
        ensure(abs(real.square - square) <= 1e-9 * scale**2, "mean square", real.square, square)
        ensure_eq(real.get_estimation("minimum"), min(ys), "minimum")
        ensure_eq(real.get_estimation("average"), real.mean, "average")
        low, high = real.get_estimation("optimistic"), real.get_estimation("pessimistic")
        ensure(low <= real.mean <= high and real.variance >= 0, "mean not in the confidence interval", low, real.mean, high)
        ensure(abs(low + high - 2 * real.mean) <= 1e-9 * (scale + 1e3), "confidence interval is not symmetric", low, real.mean, high)
        ensure_eq((low, high), (real.optimistic_confidence_bound, real.pessimistic_confidence_bound), "bounds")
        if n > 1:
            ensure(high - low <= 0.4 * scale + 1e-9, "confidence interval is larger than the deviations", low, high, ys)
            if scale <= 1e9:
                dev = math.sqrt(math.fsum((v - mean) ** 2 for v in ys) / n)
                width = 0.2 * math.sqrt(math.sqrt(n / (n - 1)) * dev**2 / (n + 1))
                ensure(abs(high - low - width) <= 1e-6 * scale + 1e-12, "width of the confidence interval", high - low, width)
    ensure_eq(real.x.tolist(), param.get_standardized_data(reference=ref).tolist(), "x")
    with expect_raises(NotImplementedError, ValueError, KeyError, msg="unknown estimation"):
        real.get_estimation("blublu")
    rec.nontrivial(len(set(case["ys"])) >= 2)


# ---------------------------------------------------------------------------
# delayed jobs


def run_jobs(case, rec: Recorder) -> None:
    from nevergrad.optimization.utils import SequentialExecutor

    calls = []

    def func(*args, **kwargs):
        calls.append((args, kwargs))
        return case["results"][len(calls) - 1]

    executor = SequentialExecutor()
    jobs = []
    results = {}
    for op, k in case["ops"]:
        if op == "submit":
            jobs.append((executor.submit(func, k, x=-k), k))
        elif jobs:
            job, arg = jobs[k % len(jobs)]
            ensure(job.done() is True, "the job is not done")
            if op == "result":
                n = len(calls)
                out = job.result()
                if id(job) in results:
                    ensure_eq(len(calls), n, "the function was called again")
                    ensure(out is results[id(job)] or out == results[id(job)], "the result changed")
                else:
                    ensure_eq(len(calls), n + 1, "number of calls")
                    ensure_eq(calls[-1], ((arg,), {"x": -arg}), "arguments")
                    ensure(out == case["results"][n], "result", out, case["results"][n])
                    results[id(job)] = out
        ensure_eq(len(calls), len(results), "calls of the function")
    rec.nontrivial(len(results) >= 2)


# ---------------------------------------------------------------------------
# sleeper, with a virtual clock


def run_sleeper(case, rec: Recorder) -> None:
    from nevergrad.common import tools

    now = [1000.0]
    slept = []
    durations = []
    start = None
    with mock.patch("time.time", lambda: now[0]), mock.patch("time.sleep", slept.append):
        kwargs = {}
        if case["bounds"]:
            kwargs = {"min_sleep": case["bounds"][0], "max_sleep": case["bounds"][0] + case["bounds"][1]}
        low, high = kwargs.get("min_sleep", 1e-7), kwargs.get("max_sleep", 1.0)
        if case["size"]:
            kwargs["averaging_size"] = case["size"]
        size = case["size"] or 10
        sleeper = tools.Sleeper(**kwargs)
        for op, dt in case["ops"]:
            now[0] += dt
            if op == "start":
                sleeper.start_timer()
                start = now[0] if start is None else start
            elif op == "stop":
                sleeper.stop_timer()
                if start is not None:
                    durations.append(now[0] - start)
                start = None
            else:
                n = len(slept)
                sleeper.sleep()
                ensure_eq(len(slept), n + 1, "number of sleeps")
                recent = durations[-size:]
                if recent:
                    exp = sum(recent) / len(recent) / 10
                elif start is not None:
                    exp = (now[0] - start) / 10
                else:
                    exp = low
                exp = min(max(exp, low), high)
                ensure(abs(slept[-1] - exp) <= 1e-9 * (1 + abs(exp)), "sleeping time", slept[-1], exp)
                ensure(low <= slept[-1] <= high, "sleeping time out of bounds", slept[-1], low, high)
    rec.nontrivial(len(slept) >= 1 and len(durations) >= 1)


# ---------------------------------------------------------------------------
# environment variables

VARS = ["VERIF_PBT_A", "VERIF_PBT_B", "VERIF_PBT_C"]


class Interrupted(Exception):
    pass


def run_env(case, rec: Recorder) -> None:
    from nevergrad.common.tools import set_env

    backup = {v: os.environ.get(v) for v in VARS}
    try:
        for v, val in zip(VARS, case["before"]):
            os.environ.pop(v, None)
            if val is not None:
                os.environ[v] = val
        levels(case["levels"], set_env, rec)
        if case["lower"]:
            state = dict(os.environ)
            with expect_raises(ValueError, msg="variable which is not capitalized"):
                with set_env(**{"VERIF_PBT_A": 3, "verif_pbt_lower": 1}):
                    pass
            ensure_eq(dict(os.environ), state, "environment after a refused variable")
        rec.nontrivial(any(lv["set"] for lv in case["levels"]))
    finally:
        for v, val in backup.items():
            os.environ.pop(v, None)
            if val is not None:
                os.environ[v] = val


def levels(todo, set_env, rec):
    if not todo:
        return
    lv = todo[0]
    new = {VARS[int(k)]: v for k, v in lv["set"].items()}
    outside = dict(os.environ)
    interrupted = False
    try:
        with set_env(**new):
            inside = dict(outside)
            inside.update({k: str(v) for k, v in new.items()})
            ensure_eq(dict(os.environ), inside, "environment inside the context")
            levels(todo[1:], set_env, rec)
            ensure_eq(dict(os.environ), inside, "environment after an inner context")
            for k, v in lv["change"].items():
                if VARS[int(k)] in new:  # other variables are not restored
                    if v is None:
                        os.environ.pop(VARS[int(k)], None)
                        rec.event("removed inside")
                    else:
                        os.environ[VARS[int(k)]] = v
            if lv["raise"]:
                raise Interrupted
    except Interrupted:
        interrupted = True
    ensure_eq(interrupted, lv["raise"], "exception of the context")
    ensure_eq(dict(os.environ), outside, "environment after the context")


text = st.sampled_from(["", "1", "abc", "x=y"])

PROPS = [
    Prop("ordered-set", st.fixed_dictionaries({"init": keylist, "ops": SET_OPS}), run_set, 2000, rule="an element is removed", shards=2),
    Prop("uid-queue", st.fixed_dictionaries({"ops": QUEUE_OPS}), run_queue, 2000, rule="an asked uid is asked again", shards=2),
    Prop("archive", st.fixed_dictionaries({"points": POINTS, "ops": st.lists(st.tuples(st.sampled_from(["set", "set", "get", "pickle", "bad"]), st.integers(0, 4), st.integers(0, 4)).map(list), min_size=2, max_size=20)}), run_archive, 1000, rule="at least two points", shards=2),
    Prop("multi-value", st.fixed_dictionaries({"ys": st.one_of(st.lists(values, min_size=1, max_size=12), P.floats(-1e6, 1e6).flatmap(lambda m: st.lists(st.floats(-1, 1).map(lambda d: m + d), min_size=1, max_size=12))), "pickle": st.lists(st.integers(0, 5), max_size=2)}), run_values, 2000, rule="at least two different values", shards=2),
    Prop("jobs", st.fixed_dictionaries({"results": st.lists(st.one_of(st.none(), st.floats(-1, 1), st.lists(st.integers(), max_size=2)), min_size=20, max_size=20), "ops": st.lists(st.tuples(st.sampled_from(["submit", "result", "result", "done"]), st.integers(0, 9)).map(list), min_size=3, max_size=20)}), run_jobs, 1000, rule="at least two results", shards=2),
    Prop("sleeper", st.fixed_dictionaries({"bounds": st.one_of(st.none(), st.tuples(st.floats(0, 1), st.floats(0, 1)).map(list)), "size": st.sampled_from([None, 1, 2, 3]), "ops": st.lists(st.tuples(st.sampled_from(["start", "stop", "sleep"]), st.one_of(st.just(0.0), st.floats(0, 20))).map(list), min_size=2, max_size=20)}), run_sleeper, 1500, rule="at least a timed job and a sleep", shards=2),
    Prop("environment", st.fixed_dictionaries({"before": st.lists(st.one_of(st.none(), text), min_size=3, max_size=3), "lower": st.booleans(), "levels": st.lists(st.fixed_dictionaries({"set": st.dictionaries(st.sampled_from("012"), st.one_of(text, st.integers(0, 9)), max_size=3), "change": st.dictionaries(st.sampled_from("012"), st.one_of(st.none(), text), max_size=2), "raise": st.booleans()}), min_size=1, max_size=3)}), run_env, 1000, rule="at least a variable is set", shards=2),
]
