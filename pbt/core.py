"""Shared machinery of the property-based checks.

A *check module* (``checks/cXX.py``) defines one property of properties.jsonl as a
list of :class:`Prop`.  A ``Prop`` couples

* a Hypothesis strategy which generates a *case*: plain JSON data (numbers, strings,
  lists, dicts), never live objects -- so a case can be hashed, printed, shrunk as one
  value and written to a replay file;
* a function ``run(case, rec)`` which interprets the case against the real code and an
  explicit oracle; it calls :func:`ensure` for each comparison.

The case functions draw nothing themselves: every random choice is inside the case
(seeds of nevergrad's own random states are integers of the case).
"""

import contextlib
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import typing as tp
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The oracle disagrees with the code."""


class Timeout(Violation):
    """The code does not terminate."""


class HarnessError(Exception):
    """The machinery itself failed (never reported as a violation)."""


class Skip(Exception):
    """The case left the domain of the property (counted, not an evaluation of interest)."""


def ensure(cond: tp.Any, msg: tp.Any = "", *args: tp.Any) -> None:
    if not bool(cond):
        if callable(msg):
            msg = msg()
        raise Violation(msg if not args else str(msg) + " " + " | ".join(_short(a) for a in args))


def ensure_eq(a: tp.Any, b: tp.Any, msg: str = "") -> None:
    if not (a == b):
        raise Violation(f"{msg}: {_short(a)} != {_short(b)}")


def _short(x: tp.Any, n: int = 300) -> str:
    try:
        s = repr(x)
    except Exception:  # pylint: disable=broad-except
        s = f"<unprintable {type(x).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


@contextlib.contextmanager
def expect_raises(*classes: tp.Any, msg: str = "") -> tp.Iterator[None]:
    try:
        yield
    except classes:
        return
    raise Violation(f"expected one of {[c.__name__ for c in classes]} to be raised: {msg}")


class Recorder:
    """Per-case and cumulative measurements of what the generator produced."""

    def __init__(self) -> None:
        self.evaluations = 0
        self.skipped = 0
        self.events: tp.Dict[str, int] = {}
        self.hashes: tp.Set[str] = set()
        self.samples: tp.List[tp.Any] = []
        self.known: tp.Dict[str, int] = {}
        self._nt = False
        self.listed: tp.Set[str] = set()  # known findings, whose cases are excluded
        self.strict = False  # replay of a single case

    # called by case functions
    def nontrivial(self, cond: tp.Any = True) -> None:
        if cond:
            self._nt = True

    def event(self, label: str, cond: tp.Any = True) -> None:
        if cond:
            self.events[label] = self.events.get(label, 0) + 1

    def known_finding(self, fid: str) -> None:
        """this case hits a recorded finding and its remainder was not decided"""
        self.known[fid] = self.known.get(fid, 0) + 1

    # called by the driver
    def begin(self) -> None:
        self._nt = False

    def end(self, name: str, case: tp.Any) -> None:
        self.evaluations += 1
        if self._nt:
            blob = json.dumps([name, case], sort_keys=True, default=str)
            h = hashlib.sha1(blob.encode()).hexdigest()[:16]
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 3:
                    self.samples.append({"prop": name, "case": blob[:1500]})

    def dump(self) -> tp.Dict[str, tp.Any]:
        return dict(
            evaluations=self.evaluations,
            skipped=self.skipped,
            events=self.events,
            hashes=sorted(self.hashes),
            samples=self.samples,
            known=self.known,
        )


class Prop:
    def __init__(
        self,
        name: str,
        strategy: tp.Any,
        run: tp.Callable[[tp.Any, Recorder], None],
        quick: int,
        thorough: tp.Optional[int] = None,
        rule: str = "",
        shards: int = 1,
        thorough_shards: tp.Optional[int] = None,
        timeout: tp.Optional[float] = None,
    ) -> None:
        # timeout: seconds after which a case counts as "never terminates", which is a violation; only given
        # where termination is part of the property, and orders of magnitude above the usual time of a case
        self.timeout = timeout
        self.name = name
        self._strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule = rule
        self.shards = shards
        self.thorough_shards = thorough_shards or max(shards, 8)

    @property
    def strategy(self) -> tp.Any:
        return self._strategy() if callable(self._strategy) else self._strategy


class Enum(Prop):
    """A finite, fully enumerated (or round-robin sampled) list of cases, each of which is run.
    ``cases(tier, seed)`` returns the list."""

    def __init__(
        self, name: str, cases: tp.Any, run: tp.Any, rule: str = "", shards: int = 8, timeout: tp.Optional[float] = None,
        shrink: tp.Optional[tp.Callable[[tp.Any], tp.Iterable[tp.Any]]] = None,
    ) -> None:
        super().__init__(name, None, run, 0, 0, rule, shards, shards, timeout)
        self.cases = cases
        self.shrink = shrink  # gives simpler variants of a case


def greedy_shrink(prop: Enum, case: tp.Any, msg: str, seconds: float = 60) -> tp.Tuple[tp.Any, str]:
    """replaces a failing case by simpler failing ones as long as possible"""
    end = time.time() + seconds
    progress = prop.shrink is not None
    while progress and time.time() < end:
        progress = False
        for cand in prop.shrink(case):  # type: ignore
            if time.time() > end:
                break
            try:
                run_case(prop, to_plain(cand), Recorder())
            except Timeout:
                continue
            except Violation as e:
                case, msg, progress = to_plain(cand), str(e), True
                break
            except HarnessError:
                continue
    return case, msg


# ---------------------------------------------------------------------------
# one case


def in_repo(filename: str) -> bool:
    return os.path.abspath(filename).startswith(os.path.join(REPO, "nevergrad"))


def classify_exception(exc: BaseException) -> str:
    """'violation' if the exception shows misbehaviour of the code under test, else 'harness'.

    Case functions only make calls which the property's domain declares valid, so an exception
    that escapes from the code under test is a violation.  Exceptions raised in the harness's own frames
    (not below a call into nevergrad) are errors of the check if they look like a broken assumption on
    names or signatures.
    """
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, (HarnessError, MemoryError, KeyboardInterrupt, SystemExit, ImportError)):
        return "harness"
    frames = traceback.extract_tb(exc.__traceback__)
    seen_repo = any(in_repo(f.filename) for f in frames)
    # index of the last frame of ours and of theirs
    last_repo = max((i for i, f in enumerate(frames) if in_repo(f.filename)), default=-1)
    last_verif = max(
        (i for i, f in enumerate(frames) if os.path.abspath(f.filename).startswith(VERIF + os.sep) and "/vendor/" not in f.filename),
        default=-1,
    )
    if seen_repo and last_repo > last_verif:
        return "violation"
    if isinstance(exc, (AttributeError, NameError)):
        return "harness"
    if isinstance(exc, TypeError) and "argument" in str(exc):
        return "harness"
    return "violation"


def reset_globals() -> None:
    import numpy as np

    random.seed(12345)
    np.random.seed(12345)
    torch = sys.modules.get("torch")
    if torch is not None:
        torch.manual_seed(12345)


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum: int, frame: tp.Any) -> None:
    raise CaseTimeout()


def run_case(prop: Prop, case: tp.Any, rec: Recorder) -> None:
    """Runs one case: returns if it holds (or is skipped), raises Violation/HarnessError otherwise."""
    reset_globals()
    rec.begin()
    limit = prop.timeout if prop.timeout is not None else 240.0
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            prop.run(case, rec)
    except Skip:
        rec.skipped += 1
        return
    except CaseTimeout:
        if prop.timeout is not None:
            raise Timeout(f"the case did not terminate within {limit:.0f}s") from None
        raise HarnessError(f"case not finished within {limit:.0f}s: {json.dumps(case)[:2000]}") from None
    except Violation:
        raise
    except HarnessError:
        raise
    except Exception as e:  # pylint: disable=broad-except
        kind = classify_exception(e)
        tb = traceback.format_exc(limit=-6)
        if kind == "violation":
            raise Violation(f"unexpected {type(e).__name__}: {e}\n{tb}") from e
        raise HarnessError(f"{type(e).__name__}: {e}\n{traceback.format_exc()}") from e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    rec.end(prop.name, case)


def derived_seed(seed: int, *parts: tp.Any) -> int:
    return zlib.crc32(("/".join([str(seed)] + [str(p) for p in parts])).encode()) & 0x7FFFFFFF


def to_plain(x: tp.Any) -> tp.Any:
    """JSON-able copy of a generated case (tuples become lists)"""
    if isinstance(x, (list, tuple)):
        return [to_plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): to_plain(v) for k, v in x.items()}
    if isinstance(x, bool) or x is None or isinstance(x, (int, float, str)):
        return x
    raise HarnessError(f"case contains a non plain value {x!r} ({type(x)})")


class _Stop(Exception):
    pass


def drive(
    prop: Prop, max_examples: int, seed: int, deadline: float, rec: Recorder
) -> tp.Optional[tp.Tuple[tp.Any, str]]:
    """Hypothesis-driven search; returns None or (shrunk failing case, message)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state: tp.Dict[str, tp.Any] = {"fail": None, "msg": "", "harness": None, "truncated": False, "fail_time": None, "noshrink": False}

    def body(raw: tp.Any) -> None:
        if state["harness"] is not None:
            return
        if state["fail"] is None and time.time() > deadline:
            state["truncated"] = True
            return
        case = to_plain(raw)
        if state["fail"] is not None and (state["noshrink"] or time.time() > state["fail_time"] + 60):
            # stop shrinking: only the best failing case known so far still fails
            if case == state["fail"]:
                raise Violation(state["msg"])
            return
        target = rec
        if state["fail"] is not None:
            target = Recorder()
            target.listed, target.strict = rec.listed, rec.strict
        try:
            run_case(prop, case, target)
        except Violation as e:
            state["fail"] = case
            state["msg"] = str(e)
            state["fail_time"] = state["fail_time"] or time.time()
            state["noshrink"] = isinstance(e, Timeout)
            raise Violation(str(e)) from None
        except HarnessError as e:
            state["harness"] = str(e)

    test = given(prop.strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=max_examples,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    try:
        test()
    except Violation:
        pass
    except hypothesis.errors.Flaky as e:
        # the case failed once but not again: code under test is not a function of the case
        if state["fail"] is None:
            raise HarnessError(f"flaky: {e}") from e
        state["msg"] += "\n(flaky under re-execution)"
    except BaseExceptionGroup as e:  # noqa: F821
        if state["fail"] is None:
            raise HarnessError(f"{e}") from e
    if state["harness"] is not None:
        raise HarnessError(state["harness"])
    if state["truncated"]:
        rec.event("time budget reached: remaining examples not run")
    if state["fail"] is not None:
        return state["fail"], state["msg"]
    return None
