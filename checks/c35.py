"""C35: common tools and registries obey their contracts"""
import contextlib
import io
import os
import tempfile
import typing as tp
import unittest
import warnings
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq, expect_raises
from pbt import params as P
from checks import c23

item = st.one_of(st.integers(-3, 3), st.none(), st.text("ab", max_size=2))


class Counting:
    """Iterator which counts what it gives"""

    def __init__(self, data: tp.Any) -> None:
        self.data = list(data)
        self.given = 0

    def __iter__(self) -> "Counting":
        return self

    def __next__(self) -> tp.Any:
        if self.given == len(self.data):
            raise StopIteration
        self.given += 1
        return self.data[self.given - 1]


# --------------------------------------------------------------------------------------------------------------------------------------
def run_iterators(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.common import tools

    data = case["data"]
    wrap: tp.Any = {"list": list, "tuple": tuple, "iterator": iter, "generator": lambda x: (y for y in x), "counting": Counting}[case["kind"]]
    ensure_eq(list(tools.pairwise(wrap(data))), [(data[k], data[k + 1]) for k in range(len(data) - 1)], "pairwise")
    n, fill = case["n"], case["fill"]
    padded = data + [fill] * (-len(data) % n)
    kwargs = {} if fill is None else {"fillvalue": fill}
    ensure_eq([list(x) for x in tools.grouper(wrap(data), n, **kwargs)], [padded[k : k + n] for k in range(0, len(padded), n)], "grouper")
    others = case["others"]
    expected = [o[k] for k in range(max(map(len, others), default=0)) for o in others if k < len(o)]
    ensure_eq(list(tools.roundrobin(*[wrap(o) for o in others])), expected, "roundrobin")
    # only what is necessary is consumed
    counters = [Counting(o) for o in others]
    robin = tools.roundrobin(*counters)
    stop = case["stop"] % (len(expected) + 1)
    ensure_eq([next(robin) for _ in range(stop)], expected[:stop], "first elements of roundrobin")
    ensure_eq(sum(c.given for c in counters), stop, "roundrobin is lazy")
    rec.nontrivial(len(data) > 2 and len(set(map(len, others))) > 1)


nested = st.recursive(item, lambda sub: st.one_of(st.lists(sub, max_size=3), st.dictionaries(st.sampled_from(["a", "b", "c.d", "0"]), sub, max_size=3), st.tuples(sub, sub).map(lambda x: {"__tuple__": list(x)})), max_leaves=12)


def detuple(x: tp.Any) -> tp.Any:
    if isinstance(x, dict):
        if list(x) == ["__tuple__"]:
            return tuple(detuple(y) for y in x["__tuple__"])
        return {k: detuple(v) for k, v in x.items()}
    if isinstance(x, list):
        return [detuple(y) for y in x]
    return x


def leaves(x: tp.Any, path: tp.Tuple[str, ...] = ()) -> tp.Iterator[tp.Tuple[str, tp.Any]]:
    if isinstance(x, (list, tuple)):
        for k, v in enumerate(x):
            yield from leaves(v, path + (str(k),))
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (str(k),))
    else:
        yield ".".join(path), x


def run_flatten(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.common import tools

    obj = detuple(case["obj"])
    before = repr(obj)
    pairs = list(leaves(obj))
    got = tools.flatten(obj)
    ensure_eq(repr(obj), before, "the object changed")
    if not isinstance(obj, (list, tuple, dict)):
        ensure_eq(got, obj, "flatten of a leaf")
        return
    if len({p for p, _ in pairs}) < len(pairs):  # several leaves with the same path ("c.d")
        ensure_eq(set(got), {p for p, _ in pairs}, "paths")
        ensure(all((p, v) in pairs for p, v in got.items()), "leaves")
        return
    ensure_eq(list(got.items()), pairs, "flatten")
    rec.nontrivial(len(pairs) > 2 and any("." in p for p, _ in pairs))


# --------------------------------------------------------------------------------------------------------------------------------------
@st.composite
def instances(draw: tp.Any) -> tp.Any:
    names = draw(st.lists(st.sampled_from(["a", "b", "c", "dd", "_p", "_q"]), min_size=1, max_size=5, unique=True))
    vals = st.one_of(st.integers(-2, 2), st.sampled_from(["", "x"]), st.booleans(), st.none())
    return {"defaults": {n: draw(vals) for n in names}, "values": {n: draw(vals) for n in names}, "keep": {n: draw(st.booleans()) for n in names},
            "drop": draw(st.integers(0, 5)), "extra": draw(st.booleans()), "check": draw(st.booleans()), "explicit": draw(st.booleans()), "kwonly": draw(st.booleans())}


def run_defaults(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.common import tools

    args = ", ".join(f"{n}={v!r}" for n, v in case["defaults"].items())
    space: tp.Dict[str, tp.Any] = {}
    exec(f"class Thing:\n    def __init__(self, {'*, ' if case['kwonly'] else ''}{args}):\n        self.__dict__.update({{k: v for k, v in locals().items() if k != 'self'}})", space)
    values = {n: case["defaults"][n] if case["keep"][n] else case["values"][n] for n in case["defaults"]}
    thing = space["Thing"](**values)
    mismatch = False
    if case["drop"] == 0:
        delattr(thing, list(values)[0])
        values.pop(list(values)[0])
        mismatch = True
    if case["extra"]:
        thing.other = 12
        mismatch = True
    kwargs: tp.Any = {"instance_dict": dict(thing.__dict__)} if case["explicit"] else {}
    if mismatch and case["check"]:
        with expect_raises(RuntimeError, msg="attributes and arguments mismatch"):
            tools.different_from_defaults(instance=thing, check_mismatches=True, **kwargs)
        rec.event("mismatch")
    else:
        got = tools.different_from_defaults(instance=thing, check_mismatches=case["check"], **kwargs)
        expected = {n: v for n, v in values.items() if v != case["defaults"][n] and not n.startswith("_")}
        ensure_eq(got, expected, "different from defaults")
        rec.nontrivial(0 < len(expected) < len(values))


# --------------------------------------------------------------------------------------------------------------------------------------
keys = st.sampled_from(["a", "b", "C", "dd"])
ops = st.one_of(
    st.tuples(st.sampled_from(["register", "name", "info"]), keys, st.integers(0, 3)),
    st.tuples(st.sampled_from(["register", "name", "info", "set", "del", "unregister", "get", "getinfo", "pop", "setdefault", "class"]), keys, st.integers(0, 3)),
    st.tuples(st.just("clear"), st.just(""), st.just(0)),
)


class Named:
    def __init__(self, name: tp.Optional[str], value: int) -> None:
        if name is not None:
            self.__name__ = name
        self.value = value


def run_registry(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.common.decorators import Registry

    registry: tp.Any = Registry()
    model: tp.Dict[str, tp.Any] = {}
    infos: tp.Dict[str, tp.Any] = {}
    collisions = again = 0
    removed: tp.Set[str] = set()
    for op, key, x in case["ops"]:
        if op in ("register", "name", "info", "class"):
            obj = Named(key if op != "class" else None, x)
            name = key if op != "class" else "Named"
            info = {"i": x} if x else None

            def add() -> tp.Any:
                if op in ("register", "class"):
                    return registry.register(obj, info)
                if op == "name":
                    return registry.register_name(name, obj, info)
                return registry.register_with_info(**(info or {}))(obj)

            if name in model:
                collisions += 1
                with expect_raises(RuntimeError, msg="name collision"):
                    add()
            else:
                again += name in removed
                out = add()
                ensure(out is (None if op == "name" else obj), "output of the registration")
                model[name] = obj
                infos[name] = dict(info or {})
        elif op == "set":
            if key not in model:
                infos[key] = {}
            model[key] = x
            registry[key] = x
        elif op in ("del", "pop"):
            if key in model:
                value = model.pop(key)
                infos.pop(key)
                removed.add(key)
                if op == "del":
                    del registry[key]
                else:
                    ensure(registry.pop(key) is value, "popped value")
            else:
                with expect_raises(KeyError, msg="missing key"):
                    if op == "del":
                        del registry[key]
                    else:
                        registry.pop(key)
        elif op == "unregister":
            registry.unregister(key)  # silent if missing
            if model.pop(key, None) is not None:
                infos.pop(key)
                removed.add(key)
        elif op == "clear":
            registry.clear()
            removed |= set(model)
            model.clear()
            infos.clear()
        elif op == "setdefault":
            if key not in model:
                infos[key] = {}
            ensure(registry.setdefault(key, x) is model.setdefault(key, x), "setdefault")
        elif op == "get":
            ensure(registry.get(key, "default") is model.get(key, "default"), "get")
            if key not in model:
                with expect_raises(KeyError, msg="missing key"):
                    registry[key]
        elif op == "getinfo":
            if key in model:
                ensure_eq(registry.get_info(key), infos[key], "information")
            else:
                with expect_raises(ValueError, msg="not registered"):
                    registry.get_info(key)
        ensure_eq(list(registry), list(model), "names, in the order of registration")
        ensure_eq(len(registry), len(model), "length")
        ensure(all(registry[k] is v for k, v in model.items()), "registered objects")
        ensure_eq(key in registry, key in model, "contains")
    for k in model:
        ensure_eq(registry.get_info(k), infos[k], f"information of {k}")
    rec.event("collision", collisions > 0)
    rec.event("again", again > 0)
    rec.nontrivial(len(model) > 0 and bool(removed))


# --------------------------------------------------------------------------------------------------------------------------------------
def run_sets(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.common import testing

    a, b, msg = case["a"], case["b"], case["msg"]
    if set(a) == set(b):
        testing.assert_set_equal(a, b, err_msg=msg)
        testing.assert_set_equal(iter(a), {x: 0 for x in b})
        return
    try:
        testing.assert_set_equal(a, b, err_msg=msg)
    except AssertionError as e:
        lines = str(e).splitlines()
        ensure_eq(lines[0] == msg, bool(msg), "provided message")
        ensure_eq(any("additional" in x for x in lines), bool(set(a) - set(b)), "additional elements")
        ensure_eq(any("missing" in x for x in lines), bool(set(b) - set(a)), "missing elements")
        for line in lines:
            diff = set(a) - set(b) if "additional" in line else set(b) - set(a)
            if "element(s)" in line:
                ensure(all(repr(x) in line for x in diff), "differing elements", line)
    else:
        ensure(False, "different sets")
    rec.nontrivial(len(a) > 1 and len(b) > 1)


CATEGORIES = ["NevergradWarning", "InefficientSettingsWarning", "BadLossWarning", "LossTooLargeWarning", "NevergradDeprecationWarning", "FinishedUnderlyingOptimizerWarning", "FailedConstraintWarning",
              "UserWarning", "RuntimeWarning", "DeprecationWarning"]


class Stop(Exception):
    pass


def run_warnings(case: tp.Any, rec: Recorder) -> None:
    """Only nevergrad warnings are suppressed, only in the context"""
    from nevergrad.common import errors, testing

    def category(name: str) -> tp.Any:
        return getattr(errors, name, None) or getattr(__builtins__ if not isinstance(__builtins__, dict) else None, name, None) or __import__("builtins").__dict__[name]

    expected = []
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        filters = list(warnings.filters)
        for k, (where, name, error) in enumerate(case["events"]):
            cat = category(name)
            if where == "out":
                warnings.warn(f"message {k}", cat)
                expected.append(f"message {k}")
                continue
            try:
                with testing.suppress_nevergrad_warnings():
                    with testing.suppress_nevergrad_warnings() if where == "twice" else contextlib.nullcontext():
                        warnings.warn(f"message {k}", cat)
                        if error:
                            raise Stop
            except Stop:
                ensure(error, "no error was expected")
            else:
                ensure(not error, "errors propagate")
            if not issubclass(cat, errors.NevergradWarning):
                expected.append(f"message {k}")
            ensure_eq(list(warnings.filters), filters, "filters are restored")
        ensure_eq([str(x.message) for x in w], expected, "warnings")
    rec.nontrivial(len({n for _, n, _ in case["events"]}) > 1 and any(e[0] != "out" for e in case["events"]))


def run_systems(case: tp.Any, rec: Recorder) -> None:
    from unittest import mock
    from nevergrad.common import testing

    classes: tp.Any = {"ValueError": ValueError, "OSError": OSError, "FileNotFoundError": FileNotFoundError, "KeyError": KeyError}
    handled, raised = classes[case["handled"]], None if case["raised"] is None else classes[case["raised"]]
    with mock.patch("platform.system", return_value=case["system"]), contextlib.redirect_stdout(io.StringIO()):
        try:
            with testing.skip_error_on_systems(handled, systems=case["systems"]):
                if raised is not None:
                    raise raised("blublu")
            outcome: tp.Any = None
        except BaseException as e:
            outcome = type(e)
    if raised is not None and issubclass(raised, handled) and case["system"] in case["systems"]:
        ensure_eq(outcome, unittest.SkipTest, "skipped")
        rec.nontrivial(True)
    else:
        ensure_eq(outcome, raised, "errors are not hidden")


@st.composite
def parametrizations(draw: tp.Any) -> tp.Any:
    n = draw(st.integers(1, 3))
    value = st.one_of(st.integers(-3, 3), st.text("ab", max_size=2), st.lists(st.integers(0, 2), max_size=2))
    return {"n": n, "cases": draw(st.dictionaries(st.sampled_from(["a", "b", "c", "Z", "_x", "a1"]), st.lists(value, min_size=n, max_size=n), min_size=1, max_size=5)), "bad": draw(st.sampled_from([None, None, "length", "args"]))}


def run_parametrized(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.common import testing

    n, cases = case["n"], dict(case["cases"])
    seen: tp.List[tp.Any] = []

    def one(x: tp.Any) -> None:
        seen.append([x])

    def two(x: tp.Any, y: tp.Any) -> None:
        seen.append([x, y])

    def three(x: tp.Any, y: tp.Any, z: tp.Any) -> None:
        seen.append([x, y, z])

    functions: tp.Any = {1: one, 2: two, 3: three}
    if case["bad"] == "length" and len(cases) > 1:
        name = sorted(cases)[-1]
        cases[name] = cases[name] + [0]
        with expect_raises(AssertionError, msg="values of different lengths"):
            testing.parametrized(**{k: tuple(v) for k, v in cases.items()})
        return
    decorator = testing.parametrized(**{k: tuple(v) for k, v in cases.items()})
    if case["bad"] == "args":
        with expect_raises(AssertionError, msg="wrong number of arguments"):
            decorator(functions[1 + n % 3])
        return
    func = decorator(functions[n])
    (mark,) = func.pytestmark
    ensure_eq(mark.name, "parametrize", "mark")
    argnames = mark.args[0].split(",")
    ensure_eq(argnames, ["x", "y", "z"][:n], "arguments")
    ids = mark.kwargs["ids"]
    ensure_eq(sorted(ids), sorted(cases), "names of the tests")
    ensure_eq(len(mark.args[1]), len(cases), "number of tests")
    for name, params in zip(ids, mark.args[1]):
        func(*([params] if n == 1 else params))
        ensure_eq(seen[-1], cases[name], f"arguments of {name}")
    rec.nontrivial(len(cases) > 1)


@st.composite
def markdowns(draw: tp.Any) -> tp.Any:
    link = st.fixed_dictionaries({"text": st.sampled_from(["here", "the doc", "a b"]), "target": st.sampled_from(["a.md", "sub/b.md", "../a.md", "sub", "missing.md", "sub/missing", "http://x.y/z", "https://q", "./c.txt", "b.md"])})
    return {"files": draw(st.dictionaries(st.sampled_from(["a.md", "sub/b.md", "sub/deep/c.md", "c.txt"]), st.lists(link, max_size=3), min_size=1, max_size=4))}


def run_markdown(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.common import testing

    with tempfile.TemporaryDirectory(prefix="c35_") as tmp:
        folder = Path(tmp) / "docs"
        folder.mkdir()
        for name, links in case["files"].items():
            (folder / name).parent.mkdir(parents=True, exist_ok=True)
            (folder / name).write_text("# title\n" + "\n".join(f"see [{x['text']}]({x['target']}), and more [not a link] (b)" for x in links))
        broken = []
        for name, links in case["files"].items():
            for x in links:
                if name.endswith(".md") and not x["target"].startswith("http") and not os.path.exists(os.path.join(folder, os.path.dirname(name), x["target"])):
                    broken.append(x["target"])
        if broken:
            try:
                testing.assert_markdown_links_not_broken(folder)
            except AssertionError as e:
                ensure_eq(str(e).count("from file"), len(broken), "number of broken links")
                ensure(all(b in str(e) for b in broken), "broken links", e)
            else:
                ensure(False, "broken links are errors", broken)
        else:
            testing.assert_markdown_links_not_broken(folder)
        rec.event("broken", bool(broken))
        rec.nontrivial(sum(map(len, case["files"].values())) > 2)


# --------------------------------------------------------------------------------------------------------------------------------------
@st.composite
def checks(draw: tp.Any) -> tp.Any:
    n = draw(st.integers(1, 4))
    grid = st.sampled_from([-2.0, -1.0, 0.0, 0.5, 1.0, 2.0])
    bound = st.one_of(st.none(), grid, st.lists(grid, min_size=n, max_size=n))
    return {"value": draw(st.lists(grid, min_size=n, max_size=n)), "lower": draw(bound), "upper": draw(bound)}


def run_bounds(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.parametrization import utils

    def values(bound: tp.Any, default: float) -> tp.List[float]:
        n = len(case["value"])
        return [default] * n if bound is None else [bound] * n if isinstance(bound, float) else bound

    expected = all(lo <= v <= up for v, lo, up in zip(case["value"], values(case["lower"], -np.inf), values(case["upper"], np.inf)))
    args = [np.array(b) if isinstance(b, list) else b for b in (case["lower"], case["upper"])]
    checker = utils.BoundChecker(*args)
    ensure_eq(checker(np.array(case["value"])), expected, "bounds")
    rec.nontrivial(case["lower"] is not None or case["upper"] is not None)
    rec.event("inside", expected)


class Node:
    """Objects containing others"""

    def __init__(self, spec: tp.Any, log: tp.Any = None) -> None:
        self.value = spec["value"]
        sub = spec["sub"]
        self.content = {k: Node(v) if isinstance(v, dict) else v for k, v in sub.items()} if spec["dict"] else [Node(v) if isinstance(v, dict) else v for v in sub.values()]

    def combine(self, other: tp.Any, *, more: tp.Any = None) -> tp.Any:
        return (self.value, getattr(other, "value", other), getattr(more, "value", more))


@st.composite
def objects(draw: tp.Any) -> tp.Any:
    size = draw(st.integers(0, 5))
    as_dict = draw(st.booleans())

    def node(deep: bool) -> tp.Any:
        return {"value": draw(st.integers(0, 10**6)), "dict": as_dict, "sub": {f"k{i}": node(False) if kinds[i] else i for i in range(size)} if deep else {}}

    kinds = [draw(st.booleans()) for _ in range(size)]
    return {"main": node(True), "other": node(True), "third": node(True), "plain": draw(st.integers(0, 9)), "use": draw(st.sampled_from(["both", "plain", "kwarg", "new"]))}


def run_subobjects(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.parametrization import utils

    main, other, third = Node(case["main"]), Node(case["other"]), Node(case["third"])
    subs = utils.Subobjects(main, base=Node, attribute="content")
    if case["use"] == "new":
        subs = utils.Subobjects(third, base=Node, attribute="content").new(main)
    pairs = list(enumerate(main.content)) if isinstance(main.content, list) else list(main.content.items())
    pairs = [(k, v) for k, v in pairs if isinstance(v, Node)]
    ensure_eq([k for k, _ in subs.items()], [k for k, _ in pairs], "keys of the sub-objects")
    ensure(all(a is b for (_, a), (_, b) in zip(subs.items(), pairs)), "sub-objects")
    if case["use"] == "plain":
        out = subs.apply("combine", case["plain"])
        ensure_eq(out, {k: (v.value, case["plain"], None) for k, v in pairs}, "applied method with a plain argument")
    else:
        out = subs.apply("combine", other, more=third if case["use"] != "new" else case["plain"])
        expected = {k: (v.value, other.content[k].value, third.content[k].value if case["use"] != "new" else case["plain"]) for k, v in pairs}
        ensure_eq(out, expected, "applied method with the sub-objects of the arguments")
    main.content = (1, 2)
    with expect_raises(TypeError, msg="only lists and dicts"):
        list(subs.items())
    rec.nontrivial(len(pairs) > 1)


# --------------------------------------------------------------------------------------------------------------------------------------
METHODS = {
    "lhs": 1, "pure_random": 1, "antithetic_pm": 1, "antithetic_order": 1, "antithetic_order_and_sign": 1, "jittered": 2, "reduced_jittered": 2, "big_block_symmetry": 2, "block_symmetry": 2,
    "greedy_dispersion": 1, "covering": 1, "dispersion": 2, "covering_mini_conv": 2, "greedy_dispersion_with_mini_conv": 2, "dispersion_with_mini_conv": 2, "max_pooling": 3, "max_without_pooling": 3,
    "Riesz_noblur_gradient": 1, "Riesz_blurred_gradient": 1, "Riesz_blursum_gradient": 1, "rs": 1, "rs_ra": 1,
}
TIMED = [m for m in METHODS if m.startswith(("greedy", "covering", "dispersion", "max", "Riesz", "rs"))]


@st.composite
def pointsets(draw: tp.Any) -> tp.Any:
    method = draw(st.sampled_from(sorted(METHODS)))
    dim = draw(st.integers(METHODS[method], 3))
    shape = draw(st.lists(st.integers(2 if dim == 1 else 1, 4), min_size=dim, max_size=dim))
    if int(np.prod(shape)) == 1:
        shape[-1] = 2
    return {"method": method, "n": draw(st.integers(2, 8)), "shape": shape, "seed": draw(P.seeds), "scale": draw(st.sampled_from([1.0, 1e-6, 1e6])), "quasi": draw(st.booleans())}


def run_sphere(case: tp.Any, rec: Recorder) -> None:
    from unittest import mock
    from nevergrad.common import sphere, tools

    n, shape, method = case["n"], case["shape"], case["method"]
    np.random.seed(case["seed"] % 2**32)
    rng = np.random.RandomState(case["seed"] % 2**32)
    func = getattr(sphere, method)
    short: tp.Any = (lambda *a, **k: func(*a, **dict(k, budget=1))) if method in TIMED else func
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["quasi"] and method in sphere.list_of_methods:
            pointset = case["scale"] * rng.normal(size=[n] + shape)
            before = pointset.copy()
            with mock.patch.object(sphere, method, short):
                out = tools.quasi_randomize(pointset, method)
            norms = [float(np.linalg.norm(x)) for x in before]
            ensure(bool(np.all(pointset == before)), "the points are not modified")
            rec.event("quasi_randomize")
        else:
            out = short(n, tuple(shape))
            norms = [1.0] * n
    ensure_eq(len(out), n, "number of points")
    for x, norm in zip(out, norms):
        ensure_eq(list(np.shape(x)), shape, "shape of the points")
        ensure(abs(np.linalg.norm(x) - norm) <= 1e-6 * norm, "norm of the points", np.linalg.norm(x), norm)
    unit = [np.array(x) / norm for x, norm in zip(out, norms)]
    if method == "antithetic_pm":
        for k in range(n // 2):
            ensure(np.allclose(unit[k], -unit[k + n // 2]), "antithetic points")
    elif method in ("big_block_symmetry", "block_symmetry"):
        ensure(all(np.allclose(np.abs(x), np.abs(unit[0])) for x in unit[: min(n, 4)]), "symmetric points")
    elif method == "antithetic_order":
        for x in unit[: 2 if shape[-1] > 1 else 1]:
            ensure(np.allclose(np.sort(x, axis=-1), np.sort(unit[0], axis=-1)), "permuted points")
    elif method == "lhs" and n > 2:
        # each coordinate has one value for each of the quantiles, up to the normalization: signs are balanced
        flat = np.array([x.ravel() for x in unit])
        ensure(bool(np.all(np.abs((flat > 0).sum(axis=0) - n / 2) <= 0.5)), "one point for each of the quantiles")
    rec.event(method)
    rec.nontrivial(True)


TREE = nested

PROPS = [
    Prop("iterators", st.fixed_dictionaries({"data": st.lists(item, max_size=9), "kind": st.sampled_from(["list", "tuple", "iterator", "generator", "counting"]), "n": st.integers(1, 4),
                                             "fill": st.one_of(st.none(), st.just("x")), "others": st.lists(st.lists(item, max_size=5), max_size=4), "stop": st.integers(0, 30)}), run_iterators, 400, rule="3 elements, several lengths"),
    Prop("flatten", st.fixed_dictionaries({"obj": TREE}), run_flatten, 400, rule="nested leaves"),
    Prop("defaults", instances(), run_defaults, 300, rule="some values only are the default ones"),
    Prop("registry", st.fixed_dictionaries({"ops": st.lists(ops, min_size=2, max_size=30)}), run_registry, 500, rule="names registered at the end, and removals"),
    Prop("sets", st.fixed_dictionaries({"a": st.lists(item, max_size=4), "b": st.lists(item, max_size=4), "msg": st.sampled_from(["", "my message"])}), run_sets, 200, rule="different sets of two elements or more"),
    Prop("warnings", st.fixed_dictionaries({"events": st.lists(st.tuples(st.sampled_from(["in", "in", "twice", "out"]), st.sampled_from(CATEGORIES), st.booleans()), min_size=1, max_size=6)}), run_warnings, 200, rule="several categories"),
    Prop("systems", st.fixed_dictionaries({"handled": st.sampled_from(["ValueError", "OSError", "FileNotFoundError"]), "raised": st.sampled_from([None, "ValueError", "OSError", "FileNotFoundError", "KeyError"]),
                                           "system": st.sampled_from(["Linux", "Windows", "Darwin"]), "systems": st.lists(st.sampled_from(["Linux", "Windows", "Darwin"]), max_size=2)}), run_systems, 150, rule="a test is skipped"),
    Prop("parametrized", parametrizations(), run_parametrized, 150, rule="several tests"),
    Prop("markdown", markdowns(), run_markdown, 120, rule="3 links or more"),
    Prop("bounds", checks(), run_bounds, 200, rule="bounds are provided"),
    Prop("subobjects", objects(), run_subobjects, 200, rule="several sub-objects"),
    Prop("sphere", pointsets(), run_sphere, 250, rule="all", shards=3),
] + [x for x in c23.PROPS if x.name in ("sleeper", "environment")]
