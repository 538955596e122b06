"""C31: benchmark dataframes are selected, exported and merged without loss"""
import itertools
import random
import re
import statistics
import tempfile
import typing as tp
import warnings
from collections import Counter
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq, expect_raises
from pbt import params as P

Row = tp.Dict[str, tp.Any]
OPTS = ["DE", "PSO", "OnePlusOne", "CMA", "NGOpt", "TwoPointsDE"]
loss_st = st.one_of(st.integers(-3, 5).map(float), st.integers(0, 3).map(float), P.floats(-100, 100))


@st.composite
def tables(draw: tp.Any, with_error: bool = False, complete: bool = False) -> tp.Any:
    """A table of records: names of optimizers, losses and descriptors, with unbalanced numbers of runs"""
    opts = draw(st.lists(st.sampled_from(OPTS), min_size=2, max_size=5, unique=True))
    cols = draw(st.lists(st.sampled_from(["dimension", "noise", "name", "rotation"]), min_size=0, max_size=3, unique=True))
    values = {"dimension": st.sampled_from([2, 10]), "noise": st.sampled_from([0.0, 0.1, 2.5]), "name": st.sampled_from(["sphere", "cigar"]), "rotation": st.booleans()}
    fields: tp.Dict[str, tp.Any] = {c: values[c] for c in cols}
    row = st.fixed_dictionaries(dict(fields, optimizer_name=st.sampled_from(opts), budget=st.sampled_from([10, 100, 1000]), loss=loss_st, pseudotime=st.integers(1, 9).map(float)))
    rows = draw(st.lists(row, min_size=draw(st.sampled_from([1, 6, 12])), max_size=30))
    if with_error:
        for r in rows:
            r["error"] = draw(st.sampled_from(["", "", "", "ValueError", "TypeError"]))
            if draw(st.integers(0, 3)) == 0:
                r["loss"] = "nan"
    return {"rows": rows, "cols": cols, "opts": opts, "order": draw(P.seeds), "index": draw(st.sampled_from(["range", "range", "shifted", "repeated"]))}


def frame(case: tp.Any, rows: tp.Optional[tp.List[Row]] = None, shuffle: bool = False) -> tp.Any:
    from nevergrad.benchmark.utils import Selector

    rows = case["rows"] if rows is None else rows
    rows = [{x: float("nan") if y == "nan" else y for x, y in r.items()} for r in rows]
    cols = list(rows[0])
    if shuffle:
        rng = random.Random(case["order"])
        rows = list(rows)
        rng.shuffle(rows)
        rng.shuffle(cols)
    df = Selector(data=[{c: r[c] for c in cols} for r in rows])
    if case["index"] == "shifted":
        df.index = [5 + 2 * k for k in range(len(rows))][::-1]
    elif case["index"] == "repeated":  # eg: obtained with several workers
        df.index = [k % max(1, len(rows) // 2) for k in range(len(rows))]
    return df


def recs(df: tp.Any) -> tp.List[Row]:
    return df.to_dict("records")  # type: ignore


# ---------------------------------------------------------------------------
# selection

criterion = st.one_of(
    st.tuples(st.just("optimizer_name"), st.sampled_from(OPTS)), st.tuples(st.just("optimizer_name"), st.lists(st.sampled_from(OPTS), max_size=3)),
    st.tuples(st.just("budget"), st.sampled_from([10, 100, 5])), st.tuples(st.just("budget"), st.lists(st.sampled_from([10, 100, 1000, 7]), max_size=3)),
    st.tuples(st.just("loss"), st.sampled_from(["positive", "small", "never", "truthy"])), st.tuples(st.just("pseudotime"), st.sampled_from([1.0, 2, 3.0])))
FUNCS: tp.Dict[str, tp.Callable[[tp.Any], tp.Any]] = {"positive": lambda x: x > 0, "small": lambda x: abs(x) < 2, "never": lambda x: None, "truthy": lambda x: x}


@st.composite
def selections(draw: tp.Any) -> tp.Any:
    case = draw(tables())
    case["criteria"] = draw(st.lists(criterion, max_size=3, unique_by=lambda x: x[0]))
    case["how"] = draw(st.sampled_from(["list", "set", "tuple"]))
    return case


def run_select(case: tp.Any, rec: Recorder) -> None:
    rows = case["rows"]
    df = frame(case)
    kwargs: tp.Dict[str, tp.Any] = {}
    expected = list(rows)
    for name, crit in case["criteria"]:
        if isinstance(crit, str) and crit in FUNCS:
            func = FUNCS[crit]
            kwargs[name] = func
            expected = [r for r in expected if func(r[name])]
        elif isinstance(crit, list):
            kwargs[name] = {"list": list, "set": set, "tuple": tuple}[case["how"]](crit)
            expected = [r for r in expected if r[name] in crit]
        else:
            kwargs[name] = crit
            expected = [r for r in expected if r[name] == crit]
    out = df.select(**kwargs)
    ensure_eq(type(out).__name__, "Selector", "type of the selection")
    ensure_eq(recs(out), expected, "selected rows")
    ensure_eq(recs(df), rows, "the selection changed the dataframe")
    dropped = df.select_and_drop(**kwargs)
    ensure_eq(list(dropped.columns), [c for c in rows[0] if c not in kwargs], "columns of select_and_drop")
    if len(dropped.columns):
        ensure_eq(recs(dropped), [{x: y for x, y in r.items() if x not in kwargs} for r in expected], "rows of select_and_drop")
    # in two steps
    two = df
    for x, y in reversed(list(kwargs.items())):
        two = two.select(**{x: y})
    ensure_eq(recs(two), expected, "selection in several steps")
    # unique values
    for col in rows[0]:
        ensure_eq(df.unique(col), {r[col] for r in rows}, f"unique values of {col}")
    cols = list(rows[0])[: 1 + case["order"] % 3]
    ensure_eq(df.unique(cols), {tuple(r[c] for c in cols) for r in rows}, f"unique values of {cols}")
    with expect_raises(AssertionError, msg="unique values of an unknown column"):
        df.unique(cols + ["unknown"])
    # equivalence
    shuffled = frame(case, shuffle=True)
    df.assert_equivalent(shuffled)
    changed = [dict(r) for r in rows]
    changed[case["order"] % len(rows)]["loss"] += 1
    with expect_raises(AssertionError, msg="dataframes with different losses are equivalent"):
        df.assert_equivalent(frame(case, changed, shuffle=True))
    with expect_raises(AssertionError, msg="dataframes with different lengths are equivalent"):
        df.assert_equivalent(frame(case, rows + rows[:1]))
    rec.nontrivial(0 < len(expected) < len(rows))


# ---------------------------------------------------------------------------
# victories


def reference(rows: tp.List[Row], categories: tp.Sequence[str], names: tp.Sequence[str]) -> tp.Tuple[tp.Dict[tp.Tuple[str, str], float], int]:
    cases: tp.Dict[tp.Any, tp.List[Row]] = {}
    for r in rows:
        cases.setdefault(tuple(r[c] for c in categories), []).append(r)
    out = {(a, b): 0.0 for a in names for b in names}
    for sub in cases.values():
        means = {}
        for n in names:
            losses = [r["loss"] for r in sub if r["optimizer_name"] == n]
            if losses:
                means[n] = sum(losses) / len(losses)
        for a, b in itertools.product(means, means):
            if abs(means[a] - means[b]) <= 1e-12:
                # equal up to rounding: only decidable with exact means
                out[a, b] += 0.5
            else:
                out[a, b] += means[a] < means[b]
    return out, len(cases)


def exact(rows: tp.List[Row]) -> bool:
    return all(float(r["loss"] * 4).is_integer() for r in rows)


@st.composite
def fights(draw: tp.Any) -> tp.Any:
    case = draw(tables())
    if draw(st.booleans()):
        for r in case["rows"]:
            r["loss"] = float(round(r["loss"]))
    case["categories"] = draw(st.lists(st.sampled_from(case["cols"] + ["budget"]), unique=True, max_size=4))
    case["complete"] = draw(st.booleans())
    case["num_rows"] = draw(st.integers(1, 6))
    return case


def run_fights(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.benchmark import plotting

    rows, categories = case["rows"], case["categories"]
    names = sorted({r["optimizer_name"] for r in rows})
    expected, num = reference(rows, categories, names)
    close = any(0 < abs(a["loss"] - b["loss"]) < 1e-9 for a in rows for b in rows)
    if close:
        return
    for shuffle in [False, True]:
        df = frame(case, shuffle=shuffle)
        victories, total = plotting.aggregate_winners(df, list(categories), list(names))
        ensure_eq(int(total), num, "number of cases")
        if exact(rows):
            for a, b in expected:
                ensure_eq(float(victories.loc[a, b]), expected[a, b], f"victories of {a} over {b}")
        else:
            for a in names:
                ensure_eq(float(victories.loc[a, a]), expected[a, a], "twice the number of cases with the optimizer")
                for b in names:
                    ensure_eq(float(victories.loc[a, b] + victories.loc[b, a]), expected[a, b] + expected[b, a], "comparisons")
        ensure_eq(recs(df), recs(frame(case, shuffle=shuffle)), "the dataframe changed")
        # rankings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            data = plotting.FightPlotter.winrates_from_selection(df, list(categories), num_rows=case["num_rows"], complete_runs_only=case["complete"])
        kept = list(names)
        if case["complete"]:
            most = max(expected[n, n] for n in names)
            kept = [n for n in names if expected[n, n] == most]
        vic, num2 = reference([r for r in rows if r["optimizer_name"] in kept], categories, kept)
        if not exact(rows):
            vic = {(a, b): float(x) for (a, b), x in vic.items()}
        order = [c.split(" ")[0] for c in data.columns]
        ensure_eq(sorted(order), kept, "names in the ranking")
        ensure_eq(sorted(data.columns), sorted(f"{n} ({int(2 * vic[n, n])}/{num2})" for n in kept), "numbers of cases in the ranking")
        played = {n: max(vic[n, b] + vic[b, n] for b in kept) for n in kept}
        # (an optimizer which does not play in a case of b is considered as losing)
        rates = {(a, b): vic[a, b] / played[b] for a in kept for b in kept}
        means = {a: sum(rates[a, b] for b in kept) / len(kept) for a in kept}
        best = [n.split(" ")[0] for n in data.index]
        ensure_eq(best, order[: min(case["num_rows"], len(names))], "rows of the ranking")
        ensure(all(means[a] >= means[b] - 1e-9 for a, b in zip(order[:-1], order[1:])), f"optimizers are not sorted: {order} {means}")
        for a in best:
            got = [float(x) for x in np.array(data)[best.index(a)]]
            ensure(np.allclose(got, [rates[a, b] for b in order], atol=1e-12), f"win rates of {a}: {got} {[rates[a, b] for b in order]}")
        for k, label in enumerate(data.index):
            match = re.match(r"^(\w+) \((\d+)/(\d+):(\d+\.\d)%", label)
            ensure(match is not None and (int(match.group(2)), int(match.group(3))) == (k + 1, len(kept)), f"label {label}")
            ensure(abs(float(match.group(4)) - 100 * means[best[k]]) <= 0.051, f"label {label} with mean {means[best[k]]}")  # type: ignore
    rec.event("complete runs only", case["complete"])
    rec.nontrivial(len(names) >= 2 and num >= 2)


# ---------------------------------------------------------------------------
# errors, normalizations, and curves


def run_errors(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.benchmark import plotting

    df = frame(case)
    before = recs(df)
    known = case["index"] == "repeated" and "C31-remove-errors-index" in rec.listed
    if known:  # (several records with the same index are mixed up)
        rec.known_finding("C31-remove-errors-index")
        df.index = range(len(df))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = plotting.remove_errors(df)
    expected = [{x: y for x, y in r.items() if x != "error"} for r in case["rows"] if r["loss"] != "nan"]
    ensure_eq(recs(out), expected, "records without error")
    ensure_eq(list(out.index), list(range(len(expected))), "index")
    if str(recs(df)) != str(before) and "C31-remove-errors-inplace" in rec.listed:
        rec.known_finding("C31-remove-errors-inplace")
    else:
        ensure_eq(str(recs(df)), str(before), "the dataframe changed")
    removed = [x for x in w if str(x.message).startswith("Removing")]
    kept = [x for x in w if str(x.message).startswith("Keeping")]
    ensure_eq(len(removed), sum(r["loss"] == "nan" for r in case["rows"]), "number of warnings for removed records")
    ensure_eq(len(kept), sum(r["loss"] != "nan" and r["error"] != "" for r in case["rows"]), "number of warnings for kept records")
    rec.nontrivial(0 < len(expected) < len(case["rows"]))


def run_curves(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.benchmark import plotting

    rows = case["rows"]
    case = dict(case, index="range")
    df = frame(case)
    for normalized in [False, True]:
        expected = [dict(r) for r in rows]
        if normalized:
            groups: tp.Dict[tp.Any, tp.List[Row]] = {}
            for r in expected:
                groups.setdefault(tuple(r[c] for c in case["cols"]), []).append(r)
            for sub in groups.values():
                low, high = min(r["loss"] for r in sub), max(r["loss"] for r in sub)
                for r in sub:
                    r["loss"] = (r["loss"] - low) / (high - low) if high != low else 1.0
            got = plotting.normalized_losses(df, descriptors=case["cols"])
            ensure(np.allclose([r["loss"] for r in recs(got)], [r["loss"] for r in expected], atol=1e-9), "normalized losses")
            ensure_eq([{x: y for x, y in r.items() if x != "loss"} for r in recs(got)], [{x: y for x, y in r.items() if x != "loss"} for r in rows], "other columns of the normalized losses")
        data = plotting.XpPlotter.make_data(df, normalized_loss=normalized)
        ensure_eq(recs(df), rows, "the dataframe changed")
        ensure_eq(sorted(data), sorted({r["optimizer_name"] for r in rows}), "names")
        for name, vals in data.items():
            sub = [r for r in expected if r["optimizer_name"] == name]
            budgets = sorted({r["budget"] for r in sub})
            ensure_eq(vals["budget"].tolist(), budgets, "budgets")
            for k, b in enumerate(budgets):
                losses = [r["loss"] for r in sub if r["budget"] == b]
                ensure(abs(vals["loss"][k] - statistics.median(losses)) <= 1e-9 * max(1, abs(vals["loss"][k])), f"loss {vals['loss'][k]} of {losses}")
                ensure_eq((int(vals["loss_nums"][k]), int(vals["num_eval"][k])), (len(losses), len(losses)), "number of runs")
                if len(losses) > 1:
                    ensure(abs(vals["loss_std"][k] - statistics.stdev(losses)) <= 1e-6, "standard deviation")
                times = [r["pseudotime"] for r in sub if r["budget"] == b]
                ensure(abs(vals["pseudotime"][k] - statistics.median(times)) <= 1e-9, "pseudo time")
    rec.nontrivial(len(rows) > 4)


# ---------------------------------------------------------------------------
# merged names


@st.composite
def merges(draw: tp.Any) -> tp.Any:
    case = draw(tables())
    case["others"] = draw(st.lists(st.sampled_from(["budget"] + case["cols"]), min_size=1, max_size=2, unique=True))
    case["sep"] = draw(st.sampled_from(["_", ",", " with "]))
    return case


def run_merge(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.benchmark import plotting

    rows, others = case["rows"], case["others"]
    df = frame(dict(case, index="range"))
    pattern = case["sep"].join(["{optimizer_name}"] + ["{" + x + "}" for x in others])
    out = plotting.merge_optimizer_name_pattern(df, pattern)
    variants: tp.Dict[str, tp.Set[tp.Any]] = {}
    for r in rows:
        variants.setdefault(r["optimizer_name"], set()).add(tuple(r[x] for x in others))
    expected = []
    merged = 0
    for r in rows:
        new = {x: y for x, y in r.items() if x not in others}
        if len(variants[r["optimizer_name"]]) > 1:
            new["optimizer_name"] = case["sep"].join([r["optimizer_name"]] + [str(r[x]) for x in others])
            merged += 1
        expected.append(new)
    ensure_eq(recs(out), expected, "merged names")
    ensure_eq(recs(df), rows, "the dataframe changed")
    ensure_eq(recs(plotting.merge_optimizer_name_pattern(df, "")), rows, "merge without pattern")
    rec.nontrivial(0 < merged < len(rows))


# ---------------------------------------------------------------------------
# csv files


@st.composite
def csvs(draw: tp.Any) -> tp.Any:
    case = draw(tables())
    case["cuts"] = sorted(draw(st.lists(st.integers(0, len(case["rows"])), max_size=3)))
    case["extra"] = draw(st.booleans())
    return case


def run_csv(case: tp.Any, rec: Recorder) -> None:
    import contextlib
    import io
    from nevergrad.benchmark import core
    from nevergrad.benchmark.utils import Selector

    rows = case["rows"]
    cuts = [0] + case["cuts"] + [len(rows)]
    with tempfile.TemporaryDirectory() as folder:
        path = Path(folder) / "out.csv"
        expected: tp.List[Row] = []
        parts = 0
        for k, (a, b) in enumerate(zip(cuts[:-1], cuts[1:])):
            part = [dict(r) for r in rows[a:b]]
            if not part:
                continue
            if case["extra"] and k == 1:
                for r in part:
                    r["additional"] = "x"
            with contextlib.redirect_stdout(io.StringIO()):
                core.save_or_append_to_csv(frame(case, part), path)
            expected.extend(part)
            parts += 1
        df = Selector.read_csv(path)
        got = recs(df)
        ensure_eq(len(got), len(expected), "number of rows")
        cols = {c for r in expected for c in r}
        ensure_eq(set(df.columns), cols, "columns")
        for x, y in zip(got, expected):
            for c in cols:
                if c not in y:
                    ensure(x[c] != x[c], f"value {x[c]} of a missing entry")
                elif isinstance(y[c], float):
                    ensure(abs(x[c] - y[c]) <= 1e-12 * max(1.0, abs(y[c])), f"{c}: {x[c]} instead of {y[c]}")
                else:
                    ensure_eq(x[c], y[c], c)
    rec.nontrivial(parts > 1)


# ---------------------------------------------------------------------------
# positions of the legend and names of files


@st.composite
def placements(draw: tp.Any) -> tp.Any:
    return {"positions": sorted(draw(st.lists(st.one_of(P.floats(0, 1), st.integers(0, 4).map(lambda x: x / 4)), min_size=1, max_size=12))), "diff": draw(st.one_of(P.floats(0.001, 0.5), st.sampled_from([0.25, 0.125])))}


def run_placements(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.benchmark import plotting

    pos, diff = case["positions"], case["diff"]
    out = plotting.compute_best_placements(list(pos), diff)
    ensure_eq(len(out), len(pos), "number of positions")
    gaps = [b - a for a, b in zip(out[:-1], out[1:])]
    ensure(all(g >= diff - 1e-9 for g in gaps), f"overlapping positions {out}")
    ensure(abs(sum(out) - sum(pos)) <= 1e-9 * len(pos), "the mean position changed")
    if all(b - a >= diff + 1e-9 for a, b in zip(pos[:-1], pos[1:])):
        ensure(np.allclose(out, pos), "positions without overlap changed")
    rec.nontrivial(len(pos) > 2 and not np.allclose(out, pos))


def run_compact(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.benchmark import plotting

    names = case["names"]
    outs = [plotting.compactize(n) for n in names]
    ensure_eq(len(set(outs)), len(set(names)), "different names have the same compact name")
    for n, o in zip(names, outs):
        ensure(len(o) <= 102 and (o == n or len(n) >= 70), f"compact name {o} of {n}")
        ensure_eq(plotting.compactize(n), o, "compact name")
    styles = plotting.NameStyle()
    first = [styles[n] for n in names]
    ensure_eq([styles[n] for n in names], first, "styles are not kept")
    ensure_eq(len(set(first)), len(set(names)), "different names have the same style")
    counts = Counter(len(n) >= 70 for n in set(names))
    rec.nontrivial(counts[True] > 1)


long_name = st.tuples(st.sampled_from(["a", "budget1000", "x" * 40]), st.lists(st.sampled_from(["(a=1)", "(b=2)", "dimension10", "rotationTrue", "noise0.5,"]), max_size=12), st.sampled_from(["", "end", "y" * 40])).map(lambda x: x[0] + "".join(x[1]) + x[2])

PROPS = [
    Prop("select", selections(), run_select, 500, rule="some of the rows are selected", shards=2),
    Prop("fights", fights(), run_fights, 300, rule="2 or more optimizers and cases", shards=3),
    Prop("errors", tables(with_error=True), run_errors, 400, rule="some records removed, some kept"),
    Prop("curves", tables(), run_curves, 200, rule="5 or more records", shards=2),
    Prop("merge", merges(), run_merge, 300, rule="some of the names are merged"),
    Prop("csv", csvs(), run_csv, 200, rule="several files"),
    Prop("placements", placements(), run_placements, 1500, rule="moved positions"),
    Prop("names", st.fixed_dictionaries({"names": st.lists(long_name, min_size=1, max_size=20)}), run_compact, 300, rule="several long names"),
]
