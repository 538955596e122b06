"""C07: choices select, weight and transition over options as specified"""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P

WEIGHT = st.one_of(P.floats(-6, 6), P.nice, st.sampled_from(["nan", "inf", "-inf", 0.0, 1.0, 700.0, -700.0]))
PLIM = 1e-13


def fl(x):
    return float(x)


def oracle_proba(row):
    """softmax of a row, with the documented treatment of nan and infinite weights"""
    row = [float("-inf") if x != x else x for x in row]
    if any(x == float("inf") for x in row):
        num = [1.0 if x == float("inf") else 0.0 for x in row]
    elif all(x == float("-inf") for x in row):
        num = [1.0] * len(row)
    else:
        m = max(row)
        num = [float(np.exp(x - m)) for x in row]
    s = sum(num)
    return [x / s for x in num]


def check_counts(counts, probas, n, ctx):
    """each count is a Binomial(n, p): fails if its tail probability is below PLIM"""
    for k, p in enumerate(probas):
        c = counts.get(k, 0)
        if p <= 0:
            ensure(c == 0, f"{ctx}: option {k} of probability 0 was drawn {c} times")
            continue
        tail = min(stats.binom.cdf(c, n, min(p, 1.0)), stats.binom.sf(c - 1, n, min(p, 1.0)))
        ensure(tail > PLIM, lambda: f"{ctx}: option {k} drawn {c} times out of {n} instead of about {n * p:.1f} (tail {tail:.2g}), probabilities {probas}")


def run_encoder(c, rec: Recorder) -> None:
    from nevergrad.parametrization.discretization import Encoder

    rows = [[fl(x) for x in r[: c["n"]]] for r in c["rows"]]
    w = np.array(rows)
    w0 = w.copy()
    enc = Encoder(w, np.random.RandomState(c["seed"]))
    p = enc.probabilities()
    ensure(p.shape == w.shape, "shape")
    exp = np.array([oracle_proba(r) for r in rows])
    ensure(np.allclose(p, exp, atol=1e-12, rtol=1e-9), f"probabilities of {rows}: {p}, expected {exp}")
    det = enc.encode(deterministic=True)
    for i, r in enumerate(rows):
        rr = [float("-inf") if x != x else x for x in r]
        ensure_eq(int(det[i]), rr.index(max(rr)), f"deterministic index for {r}")
    n = 400
    big = Encoder(np.repeat(w, n, axis=0), np.random.RandomState(c["seed"]))
    out = np.asarray(big.encode()).reshape(len(rows), n)
    for i, r in enumerate(rows):
        counts = {int(k): int(v) for k, v in zip(*np.unique(out[i], return_counts=True))}
        ensure(set(counts) <= set(range(c["n"])), f"indices {set(counts)}")
        check_counts(counts, list(exp[i]), n, f"encode of {r}")
    ensure(np.array_equal(w, w0, equal_nan=True), "weights modified")
    rec.event("nan or inf", not np.all(np.isfinite(w)))
    rec.event("ties", any(len(set(map(str, r))) < len(r) for r in rows))
    rec.nontrivial(c["n"] > 1)


def run_choice(c, rec: Recorder) -> None:
    """selection by the weights, and weight of a value set by the user"""
    import nevergrad as ng

    n, rep, det = c["n"], c["rep"], c["det"]
    options = [f"o{i}" for i in range(n)]
    ch = ng.p.Choice(options if c["str"] else n, repetitions=rep, deterministic=det)
    ch.random_state.seed(c["seed"])
    if not c["str"]:
        options = list(range(n))
    ensure_eq(len(ch), n, "length")
    r = 1 if rep is None else rep
    w = P.cycle(c["w"], r * n).reshape(r, n)
    child = ch.spawn_child().set_standardized_data(w.ravel())
    got = [child.value] if rep is None else list(child.value)
    ensure_eq(got, [options[int(i)] for i in np.asarray(child.indices.value).ravel()], "value and indices")
    if rep is None:
        ensure_eq(options[child.index], child.value, "index")
    if det:
        ensure_eq(got, [options[int(np.argmax(row))] for row in w], f"option of maximal weight in {w}")
        for _ in range(3):
            ensure_eq(ch.spawn_child().set_standardized_data(w.ravel()).value, child.value, "deterministic choice")
    else:
        N = 400
        rows = ch if rep is not None else None
        wide = ng.p.Choice(options, repetitions=N)
        wide.random_state.seed(c["seed"])
        vals = wide.spawn_child().set_standardized_data(np.tile(w[0], N)).value
        counts: dict = {}
        for v in vals:
            counts[options.index(v)] = counts.get(options.index(v), 0) + 1
        check_counts(counts, oracle_proba(list(w[0])), N, f"Choice with weights {w[0]}")
        one = ng.p.Choice(options)
        one.random_state.seed(c["seed"] + 1)
        counts = {}
        for _ in range(60):
            v = one.spawn_child().set_standardized_data(w[0]).value
            counts[options.index(v)] = counts.get(options.index(v), 0) + 1
        check_counts(counts, oracle_proba(list(w[0])), 60, f"single Choice with weights {w[0]}")
    # the value does not change until the data does
    ensure_eq(child.value, child.value, "value read twice")
    # value set by the user
    target = [options[k % n] for k in P.cycle(c["sel"], r).astype(int)]
    child.value = target[0] if rep is None else tuple(target)
    got = [child.value] if rep is None else list(child.value)
    ensure_eq(got, target, "value set")
    data = child.get_standardized_data(reference=ch).reshape(r, n)
    if n > 1:
        for row, t in zip(data, target):
            p = oracle_proba(list(row))
            ensure(abs(p[options.index(t)] - 1.5 / n) < 1e-9, f"probability {p} after setting {t} with {n} options")
            others = [x for i, x in enumerate(p) if i != options.index(t)]
            ensure(max(others) - min(others) < 1e-12, f"other options should be equally likely: {p}")
    rec.event("deterministic", det)
    rec.event("repetitions", rep is not None)
    rec.nontrivial(n > 1)


def run_transition(c, rec: Recorder) -> None:
    import nevergrad as ng

    n, rep = c["n"], c["rep"]
    options = [f"o{i}" for i in range(n)]
    ch = ng.p.TransitionChoice(options, repetitions=rep, ordered=c["ordered"], transitions=c["transitions"])
    ch.random_state.seed(c["seed"])
    r = 1 if rep is None else rep
    z = P.cycle(c["z"], r)
    pos = n * stats.norm.cdf(z)
    child = ch.spawn_child().set_standardized_data(z, reference=ch)
    inds = np.asarray(child.indices.value).ravel()
    ensure(len(inds) == r and np.all(inds >= 0) and np.all(inds < n), f"indices {inds}")
    for i in range(r):
        if abs(pos[i] - round(pos[i])) > 1e-7:
            ensure_eq(int(inds[i]), int(pos[i]), f"option of coordinate {z[i]} among {n}")
    got = [child.value] if rep is None else list(child.value)
    ensure_eq(got, [options[int(i)] for i in inds], "value and indices")
    d = child.get_standardized_data(reference=ch)
    ensure(np.allclose(d, stats.norm.ppf((inds + 0.5) / n), atol=1e-6), f"data {d} for indices {inds}")
    # in order: increasing coordinates give non decreasing options
    zs = np.sort(P.cycle(c["z"], 6))
    seq = [ch.spawn_child().set_standardized_data(np.full(r, x), reference=ch).indices.value[0] for x in zs]
    ensure(all(a <= b for a, b in zip(seq, seq[1:])), f"coordinates {zs} give options {seq}")
    # mutation
    N = 400
    wide = ng.p.TransitionChoice(options, repetitions=N, ordered=c["ordered"], transitions=c["transitions"])
    wide.random_state.seed(c["seed"])
    start = c["start"] % n
    parent = wide.spawn_child(new_value=tuple([options[start]] * N))
    mut = parent.spawn_child()
    mut.mutate()
    counts: dict = {}
    for v in mut.value:
        counts[options.index(v)] = counts.get(options.index(v), 0) + 1
    probas = [0.0] * n
    if not c["ordered"]:
        probas = [1.0 / n] * n
    else:
        total = sum(c["transitions"])
        for k, t in enumerate(c["transitions"]):
            for sign in (-1, 1):
                probas[min(n - 1, max(0, start + sign * k))] += t / total / 2
    check_counts(counts, probas, N, f"mutation from {start} among {n} with transitions {c['transitions']} ordered={c['ordered']}")
    ensure_eq(parent.value, tuple([options[start]] * N), "parent after mutation of its child")
    # sampling
    s = wide.sample()
    cs: dict = {}
    for v in s.value:
        cs[options.index(v)] = cs.get(options.index(v), 0) + 1
    check_counts(cs, [1.0 / n] * n, N, "sampling should be uniform over options")
    rec.event("ordered", c["ordered"])
    rec.nontrivial(n > 1 and np.any(z != 0))


def run_mutated_option(c, rec: Recorder) -> None:
    """mutation only mutates the weights and the chosen options"""
    ch = P.build(c["spec"])
    ch.random_state.seed(c["seed"])
    cur = ch
    for _ in range(3):
        child = cur.spawn_child()
        before = [x.value for x in child.choices]
        child.mutate()
        chosen = {int(i) for i in np.asarray(child.indices.value).ravel()}
        for k, x in enumerate(child.choices):
            if k not in chosen:
                ensure(P.same_value(x.value, before[k]), f"option {k} was mutated from {before[k]} to {x.value} but {chosen} is chosen")
        vals = [child.value] if c["spec"]["rep"] is None else list(child.value)
        expected = [child.choices[int(i)].value for i in np.asarray(child.indices.value).ravel()]
        ensure(all(P.same_value(a, b) for a, b in zip(vals, expected)) and len(vals) == len(expected), f"value {vals} of options {expected}")
        cur = child
    rec.nontrivial(P.has_kind(c["spec"]["items"], "scalar", "array", "choice", "tchoice"))


def run_discretization(c, rec: Recorder) -> None:
    from nevergrad.parametrization import discretization as d

    n = c["n"]
    x = np.array([fl(v) for v in c["x"]])
    x0 = x.copy()
    out = d.threshold_discretization(x, arity=n)
    ensure(np.array_equal(x, x0, equal_nan=True), "input modified")
    ensure(isinstance(out, list) and len(out) == len(x), f"{out!r}")
    for v, o in zip(x, out):
        ensure(isinstance(o, int) and 0 <= o < n, f"{o!r} for {v}, arity {n}")
        if v != v:
            ensure_eq(o, 0, "nan")
        elif n == 2:
            ensure_eq(o, int(v > 0), f"{v}")
        else:
            p = n * stats.norm.cdf(v)
            if abs(p - round(p)) > 1e-9:
                ensure_eq(o, min(n - 1, int(p)), f"{v} with arity {n}")
    idx = [i % n for i in c["idx"]]
    inv = d.inverse_threshold_discretization(idx, arity=n)
    ensure(np.all(np.isfinite(inv)), f"inverse {inv}")
    if n > 1:
        ensure_eq(d.threshold_discretization(inv, arity=n), idx, f"inverse discretization with arity {n}")
    order = np.argsort(idx, kind="stable")
    ensure(np.all(np.diff(np.asarray(inv)[order]) >= 0), "inverse should be increasing")
    ensure(np.allclose(inv, stats.norm.ppf((np.array(idx) + 0.5) / n), atol=1e-9), f"inverse should be the center of the bin: {inv}")
    noisy = d.noisy_inverse_threshold_discretization(idx, arity=n, gen=np.random.RandomState(c["seed"]))
    ensure_eq(d.threshold_discretization(noisy, arity=n), idx, f"noisy inverse with arity {n}")
    rec.event("arity 2", n == 2)
    rec.nontrivial(n > 1)


N_OPT = st.one_of(st.integers(1, 6), st.integers(1, 40))
PROPS = [
    Prop("encoder", st.fixed_dictionaries({"n": st.integers(1, 7), "rows": st.lists(st.lists(WEIGHT, min_size=7, max_size=7), min_size=1, max_size=3), "seed": P.seeds}),
         run_encoder, 1200, 15000, "more than one option", shards=3),
    Prop("choice", st.fixed_dictionaries({"n": N_OPT, "rep": st.sampled_from([None, 1, 2, 4]), "det": st.booleans(), "str": st.booleans(),
                                          "w": st.lists(st.one_of(P.floats(-3, 3), P.nice), min_size=1, max_size=9), "sel": st.lists(st.integers(0, 40), min_size=1, max_size=4), "seed": st.integers(0, 2**31)}),
         run_choice, 600, 10000, "more than one option", shards=4),
    Prop("transition", st.fixed_dictionaries({"n": N_OPT, "rep": st.sampled_from([None, 1, 2, 4]), "ordered": st.booleans(), "start": st.integers(0, 40),
                                              "transitions": st.lists(P.floats(0.05, 5), min_size=1, max_size=4), "z": st.lists(st.one_of(P.floats(-3, 3), P.nice), min_size=1, max_size=6), "seed": P.seeds}),
         run_transition, 600, 10000, "more than one option and a non-zero coordinate", shards=4),
    Prop("mutated_option", st.fixed_dictionaries({"spec": P.choice_spec(P.tree(1)), "seed": P.seeds}), run_mutated_option, 400, 8000, "options that are parameters", shards=2),
    Prop("discretization", st.fixed_dictionaries({"n": st.one_of(st.integers(1, 8), st.integers(1, 500)), "seed": P.seeds, "idx": st.lists(st.integers(0, 499), min_size=1, max_size=6),
                                                  "x": st.lists(st.one_of(P.floats(-9, 9), P.nice, st.sampled_from(["nan", "inf", "-inf"])), min_size=1, max_size=6)}),
         run_discretization, 1500, 20000, "arity above 1", shards=2),
]
ASSUMPTIONS = ["frequencies are compared with exact binomial tails, failing below a probability of 1e-13"]
