"""C11: mutation and recombination operators only move what they declare"""
import itertools

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq, expect_raises, Skip
from pbt import params as P

SHAPES = [[3], [4], [7], [12], [2, 2], [3, 4], [5, 2], [2, 3, 2], [4, 2, 3]]


def make(op, layered, init):
    """array with uniquely identifiable entries, and its operator"""
    import nevergrad as ng

    a = ng.p.Array(init=init, mutable_sigma=layered["ms"])
    if layered["bounds"] is not None:
        a.set_bounds(-1000.0, 1000.0, method=layered["bounds"])
    if layered["sigma"] is not None:
        a.set_mutation(sigma=layered["sigma"])
    if layered["int"]:
        a.set_integer_casting()
    return op(a)


def entries(shape, offset=0):
    return offset + 7.0 * np.arange(int(np.prod(shape))).reshape(shape)


def box_of(mask):
    """bounding box of the True entries"""
    return [(int(i.min()), int(i.max()) + 1) for i in np.nonzero(mask)]


def axes_of(c, ndim):
    """None, an int, or a tuple of distinct axes"""
    a = c["axes"]
    if a is None:
        return None, tuple(range(ndim))
    a = sorted({x % ndim for x in a})
    if len(a) == 1 and c["asint"]:
        return a[0], tuple(a)
    return tuple(a), tuple(a)


def same(a, b, layered):
    return np.isclose(a, b, rtol=1e-9, atol=1e-6) if not layered["int"] else a == b


LAYERS = st.fixed_dictionaries({
    "ms": st.booleans(), "bounds": st.sampled_from([None, "bouncing", "clipping", "arctan", "tanh"]),
    "sigma": st.one_of(st.none(), st.sampled_from([0.3, 1.0, 30.0])), "int": st.booleans()})
BASE = {"shape": st.sampled_from(SHAPES), "seed": P.seeds, "layers": LAYERS, "axes": st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=3)),
        "asint": st.booleans(), "read": st.booleans(), "child": st.booleans()}


def derive(c, x):
    q = x.spawn_child() if c["child"] else x.copy()
    if c["read"]:
        q.value  # pylint: disable=pointless-statement
    return q


def run_crossover(c, rec: Recorder) -> None:
    import nevergrad as ng

    shape = tuple(c["shape"])
    arg, axes = axes_of(c, len(shape))
    lay = c["layers"]
    kind = c["kind"]
    if kind == "ravel":
        op = ng.ops.mutations.RavelCrossover(max_size=c["max"])
        axes = (0,)
    else:
        op = ng.ops.mutations.Crossover(axis=arg, max_size=c["max"], fft=kind == "fft")
    if kind == "fft" and any(shape[a] % 2 for a in axes):
        raise Skip  # documented: only even shapes
    v1, v2 = entries(shape), entries(shape, 3)
    x1 = make(op, lay, v1)
    x1.random_state.seed(c["seed"])
    x2 = x1.spawn_child()
    x2.value = v2.astype(x2.value.dtype)
    v1, v2 = x1.value.copy(), x2.value.copy()
    child = derive(c, x1)
    h1, h2 = x1.get_value_hash(), x2.get_value_hash()
    child.recombine(x2)
    out = child.value
    ensure_eq((x1.get_value_hash(), x2.get_value_hash()), (h1, h2), "the parents were changed")
    ensure_eq(out.shape, shape, "shape")
    if lay["bounds"] is not None:
        ensure(np.all(np.abs(out) <= 1000), f"out of bounds: {out}")
    if kind == "fft":
        ensure(np.all(np.isfinite(out)), f"non finite {out}")
        rec.nontrivial()
        return
    if kind == "ravel":
        v1, v2, out = v1.ravel(), v2.ravel(), out.ravel()
    m1, m2 = same(out, v1, lay), same(out, v2, lay)
    ensure(np.all(m1 | m2), f"{out} has entries which are not at the same position in one of the parents {v1} and {v2}")
    ensure(not np.any(m1 & m2), "harness: ambiguous entries")
    box = box_of(m2)
    ensure(m2.sum() == np.prod([b - a for a, b in box]), f"entries of the second parent are not a block: {m2}")
    sizes = []
    for a in range(out.ndim):
        if a in axes:
            sizes.append(box[a][1] - box[a][0])
        else:
            ensure_eq(tuple(box[a]), (0, out.shape[a]), f"the block does not span the axis {a}, which is not a crossover axis")
    ensure(len(set(sizes)) == 1, f"block of sizes {sizes}")
    ensure(1 <= sizes[0] <= min(out.shape[a] - 1 for a in axes), f"block of size {sizes}")
    if c["max"] is not None:
        ensure(sizes[0] <= c["max"], f"block of size {sizes[0]} > {c['max']}")
    else:
        ensure(sizes[0] <= ((out.size + 1) / 2) ** (1 / len(axes)) + 1e-9, f"block of size {sizes[0]} for {out.size} elements")
    rec.nontrivial(out.size > 3)
    rec.event("several axes", len(axes) > 1)


def unchanged_meta(x, before):
    ensure_eq((x.get_value_hash(), x.generation), before, "the parent of the mutated parameter was changed")


def run_local(c, rec: Recorder) -> None:
    import nevergrad as ng

    shape = tuple(c["shape"])
    arg, axes = axes_of(c, len(shape))
    size = 1 + c["size"] % (min(shape[a] for a in axes) - 1)
    lay = c["layers"]
    x = make(ng.ops.mutations.LocalGaussian(size=size, axes=arg), lay, entries(shape))
    x.random_state.seed(c["seed"])
    before = (x.get_value_hash(), x.generation)
    v1 = x.value.copy()
    child = derive(c, x)
    child.mutate()
    out = child.value
    unchanged_meta(x, before)
    ensure_eq(out.shape, shape, "shape")
    if lay["bounds"] is not None:
        ensure(np.all(np.abs(out) <= 1000), f"out of bounds: {out}")
    data = child.get_standardized_data(reference=x).reshape(shape)
    changed = np.abs(data) > 1e-9  # rounding errors
    box = box_of(changed)
    ensure_eq([b - a for a, b in box], [size if a in axes else shape[a] for a in range(len(shape))], f"mutated block (axes {axes}, size {size}) {data}")
    ensure(changed.sum() == np.prod([b - a for a, b in box]), f"mutated entries are not a block: {changed}")
    ensure(np.all(same(out, v1, lay) | changed), f"{v1} became {out}, mutating only {changed}")
    rec.nontrivial(changed.sum() < changed.size)


def run_translation(c, rec: Recorder) -> None:
    import nevergrad as ng

    shape = tuple(c["shape"])
    arg, axes = axes_of(c, len(shape))
    lay = c["layers"]
    x = make(ng.ops.mutations.Translation(axis=arg), lay, entries(shape))
    x.random_state.seed(c["seed"])
    before = (x.get_value_hash(), x.generation)
    v1 = x.value.copy()
    child = derive(c, x)
    child.mutate()
    out = child.value
    unchanged_meta(x, before)
    for shifts in itertools.product(*[range(shape[a]) for a in axes]):
        rolled = v1
        for a, s in zip(axes, shifts):
            rolled = np.roll(rolled, s, axis=a)
        if np.all(same(out, rolled, lay)):
            rec.nontrivial(any(shifts))
            break
    else:
        ensure(False, f"{out} is not {v1} rolled along {axes}")


def run_jumping(c, rec: Recorder) -> None:
    import nevergrad as ng

    shape = tuple(c["shape"])
    axis = c["axis"] % len(shape)
    size = 2 + c["size"] % (shape[axis] - 1)  # sizes of the chunks are between 1 and size - 1, and chunks are smaller than the axis
    lay = c["layers"]
    x = make(ng.ops.mutations.Jumping(axis=axis, size=size), lay, entries(shape))
    x.random_state.seed(c["seed"])
    before = (x.get_value_hash(), x.generation)
    v1 = x.value.copy()
    child = derive(c, x)
    child.mutate()
    out = child.value
    unchanged_meta(x, before)
    ensure_eq(out.shape, shape, "shape")
    n = shape[axis]
    m1, mo = np.moveaxis(v1, axis, 0), np.moveaxis(out, axis, 0)
    perm = []
    for k in range(n):
        found = [j for j in range(n) if np.all(same(mo[k], m1[j], lay))]
        ensure(len(found) == 1, f"slice {mo[k]} of {out} comes from {found} in {v1}")
        perm.append(found[0])
    ensure_eq(sorted(perm), list(range(n)), "slices were lost or duplicated")
    # one chunk of at most size - 1 consecutive slices moved, the others kept their order
    ok = False
    for ln in range(1, size):
        for i in range(n):
            chunk = perm[i: i + ln]
            rest = perm[:i] + perm[i + ln:]
            if rest == sorted(rest) and chunk == list(range(chunk[0], chunk[0] + len(chunk))):
                ok = True
    ensure(ok, f"{perm} is not obtained by moving a chunk smaller than {size}")
    rec.nontrivial(perm != sorted(perm))


def run_choice(c, rec: Recorder) -> None:
    """exactly one of the mutations is applied"""
    import nevergrad as ng

    M = ng.ops.mutations
    n = c["n"]
    lay = dict(c["layers"])
    x = make(M.MutationChoice([M.Translation(0), M.LocalGaussian(size=1, axes=0)], with_default=c["default"]), lay, entries((n,)))
    x.random_state.seed(c["seed"])
    before = (x.get_value_hash(), x.generation)
    v1 = x.value.copy()
    kinds = set()
    for _ in range(6):
        child = derive(c, x)
        child.mutate()
        out = child.value
        unchanged_meta(x, before)
        if any(np.all(same(out, np.roll(v1, s), lay)) for s in range(n)):
            kinds.add("roll")
            continue
        diff = ~same(out, v1, lay)
        if diff.sum() == 1:
            kinds.add("local")
            continue
        ensure(c["default"], f"{v1} became {out}, which neither is a translation nor a local mutation")
        kinds.add("default")
    rec.nontrivial(len(kinds) > 1)


def run_cauchy(c, rec: Recorder) -> None:
    """moves are heavy tailed and centered: half of them are within one sigma"""
    import nevergrad as ng

    n = 4000
    x = ng.ops.mutations.Cauchy()(ng.p.Array(shape=(n,), mutable_sigma=False).set_mutation(sigma=c["sigma"]))
    x.random_state.seed(c["seed"])
    child = x.spawn_child()
    child.mutate()
    d = child.value / c["sigma"]
    for t in (0.5, 1.0, 5.0, 50.0):
        p = 2 / np.pi * np.arctan(t)
        k = np.sum(np.abs(d) <= t)
        ensure(abs(k - n * p) <= 7 * np.sqrt(n * p * (1 - p)) + 1, f"{k} of {n} moves within {t} sigma instead of {n * p}")
    k = np.sum(d > 0)
    ensure(abs(k - n / 2) <= 7 * np.sqrt(n / 4), f"{k} positive moves of {n}")
    rec.nontrivial()


def run_errors(c, rec: Recorder) -> None:
    import nevergrad as ng

    op = ng.ops.mutations.Crossover() if c["kind"] == "plain" else ng.ops.mutations.RavelCrossover()
    x = op(ng.p.Array(init=entries((2, 3))))
    x.random_state.seed(c["seed"])
    others = [x.sample() for _ in range(c["n"])]
    before = x.value.copy()
    if c["n"] == 0:
        x.recombine()
        ensure(np.array_equal(before, x.value), "recombination with nothing changed the value")
    elif c["n"] > 1:
        with expect_raises(Exception, msg="crossover between more than two parents"):
            x.recombine(*others)
        ensure(np.array_equal(before, x.value), "failed recombination changed the value")
    one = ng.ops.mutations.Crossover(axis=0)(ng.p.Array(init=np.zeros((1, 4))))
    with expect_raises(ValueError, msg="crossover on an axis of size 1"):
        one.recombine(one.spawn_child())
    x.freeze()
    with expect_raises(Exception, msg="recombining a frozen parameter"):
        x.recombine(x.spawn_child())
    with expect_raises(Exception, msg="mutating a frozen parameter"):
        x.mutate()
    ensure(np.array_equal(before, x.value), "a frozen parameter was changed")
    rec.nontrivial()


def run_rolling(c, rec: Recorder) -> None:
    from nevergrad.parametrization.mutation import rolling_mean

    v = np.array(c["v"], dtype=float)
    w = c["w"]
    out = rolling_mean(v, w)
    n = len(v)
    if w >= n:
        exp = np.full(n, v.sum())
    else:
        exp = np.array([sum(v[(i + j) % n] for j in range(max(1, w))) for i in range(n)])
    ensure(np.allclose(out, exp, rtol=1e-9, atol=1e-6), f"{out} instead of {exp}")
    rec.nontrivial(1 < w < n)


PROPS = [
    Prop("crossover", st.fixed_dictionaries(dict(BASE, kind=st.sampled_from(["plain", "plain", "ravel", "fft"]), max=st.one_of(st.none(), st.integers(1, 6)))),
         run_crossover, 800, rule="array of more than 3 entries", shards=4),
    Prop("local", st.fixed_dictionaries(dict(BASE, size=st.integers(0, 6))), run_local, 600, rule="some entries unchanged", shards=4),
    Prop("translation", st.fixed_dictionaries(BASE), run_translation, 400, rule="non zero shift", shards=4),
    Prop("jumping", st.fixed_dictionaries(dict(BASE, axis=st.integers(0, 3), size=st.integers(0, 12))), run_jumping, 600, rule="the order changed", shards=4),
    Prop("mutation_choice", st.fixed_dictionaries({"n": st.integers(3, 6), "layers": LAYERS, "default": st.booleans(), "seed": P.seeds,
                                                   "read": st.booleans(), "child": st.booleans()}), run_choice, 200, rule="several kinds of mutation drawn", shards=2),
    Prop("cauchy", st.fixed_dictionaries({"seed": P.seeds, "sigma": st.sampled_from([0.1, 1.0, 7.0])}), run_cauchy, 40),
    Prop("errors", st.fixed_dictionaries({"seed": P.seeds, "n": st.integers(0, 3), "kind": st.sampled_from(["plain", "ravel"])}), run_errors, 40),
    Prop("rolling", st.fixed_dictionaries({"v": st.lists(P.number, min_size=1, max_size=10), "w": st.integers(0, 12)}), run_rolling, 300, rule="window within the vector"),
]
