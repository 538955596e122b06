"""C06: data transforms are exact inverses and respect their range"""
import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq
from pbt import params as P

SHAPES = [[1], [4], [2, 3], [1, 1]]


@st.composite
def transform_case(draw):
    kind = draw(st.sampled_from(["affine", "exp", "tanh", "arctan", "clip", "bounce", "bounce_lo", "bounce_hi", "clip_lo", "clip_hi", "cdf", "cauchy"]))
    shape = draw(st.sampled_from(SHAPES))
    size = int(np.prod(shape))
    c = {"kind": kind, "shape": shape, "rev": draw(st.booleans()), "x": draw(st.lists(st.one_of(P.floats(-4, 4), P.nice), min_size=size, max_size=size))}
    c["array"] = draw(st.booleans()) and kind not in ("exp", "cdf", "cauchy")
    n = size if c["array"] else 1
    pairs = [draw(P.bounds_pair(0.05)) for _ in range(n)]
    c["lo"], c["hi"] = [a for a, _ in pairs], [b for _, b in pairs]
    c["a"] = draw(st.lists(P.floats(0.1, 10), min_size=n, max_size=n))
    c["neg"] = draw(st.booleans())
    c["far"] = draw(st.sampled_from([1.0, 30.0, 30.0, 1e4]))
    c["base"] = draw(P.floats(1.1, 20))
    c["coeff"] = draw(st.sampled_from([1.0, -1.0, 0.5, 2.0]))
    c["scale"] = draw(st.sampled_from([1.0, 0.5, 3.0]))
    c["t"] = draw(st.lists(P.floats(0, 1), min_size=size, max_size=size))
    return c


def run_transform(c, rec: Recorder) -> None:
    from nevergrad.parametrization import transforms as tr
    from scipy import stats

    shape = tuple(c["shape"])
    x = np.array(c["x"]).reshape(shape)
    t01 = np.array(c["t"]).reshape(shape)

    def arg(v):
        return np.array(v).reshape(shape) if c["array"] else v[0]

    lo, hi = arg(c["lo"]), arg(c["hi"])
    m, h = (lo + hi) / 2, (hi - lo) / 2
    kind = c["kind"]
    rng = (lo, hi)
    inv = True
    if kind in ("tanh", "cdf"):  # saturating: beyond, the range cannot represent differences of x
        x = np.clip(x, -4 * c["scale"], 4 * c["scale"]) if kind == "cdf" else np.clip(x, -4, 4)
    increasing = True
    tol_y = 1e-9
    if kind == "affine":
        a = arg(c["a"]) * (-1 if c["neg"] else 1)
        t, ref = tr.Affine(a, lo), lambda v: a * v + lo
        rng, increasing = (-np.inf, np.inf), not c["neg"]
        y = ref(t01 * 10 - 5)
    elif kind == "exp":
        t, ref = tr.Exponentiate(base=c["base"], coeff=c["coeff"]), lambda v: np.exp(np.log(c["base"]) * c["coeff"] * v)
        rng, increasing = (0, np.inf), c["coeff"] > 0
        y = 1e-3 + t01 * 10
    elif kind == "tanh":
        t, ref = tr.TanhBound(lo, hi), lambda v: m + h * np.tanh(v)
        y = lo + (hi - lo) * t01
    elif kind == "arctan":
        t, ref = tr.ArctanBound(lo, hi), lambda v: m + h * np.arctan(v) * 2 / np.pi
        y = lo + (hi - lo) * t01
    elif kind in ("cdf", "cauchy"):
        law = stats.norm if kind == "cdf" else stats.cauchy
        t, ref = tr.CumulativeDensity(lo, hi, scale=c["scale"], density="gaussian" if kind == "cdf" else "cauchy"), lambda v: lo + (hi - lo) * law.cdf(v / c["scale"])
        y = lo + (hi - lo) * t01
        tol_y = 1e-8
    else:
        a, b = (None if kind.endswith("_hi") else lo), (None if kind.endswith("_lo") else hi)
        kind = kind.split("_")[0]
        t = tr.Clipping(a, b, bounce=kind == "bounce")
        x = x * c["far"]
        inv = increasing = kind != "bounce"
        inv = False
        la, lb = (-np.inf if a is None else lo), (np.inf if b is None else hi)

        def ref(v):
            out = np.minimum(np.maximum(v, la), lb)
            if kind == "bounce":
                over = np.maximum(v - lb, 0)
                under = np.maximum(la - v, 0)
                out = np.maximum(np.minimum(np.where(over > 0, lb - over, np.where(under > 0, la + under, v)), lb), la)
            return out

        rng = (la, lb)
        y = lo + (hi - lo) * t01
    y = np.minimum(np.maximum(y, rng[0]), rng[1])
    x_before = x.copy()
    fx = t.forward(x)
    ensure(np.array_equal(x, x_before), "forward modified its input")
    ensure(fx.shape == shape, f"shape {fx.shape}")
    scale = np.maximum(1, np.maximum(np.abs(fx), np.abs(np.asarray(hi) - np.asarray(lo))))
    ensure(np.all(np.abs(fx - ref(x)) <= 1e-9 * scale), lambda: f"forward({x}) is {fx}, expected {ref(x)}")
    ensure(np.all(fx >= rng[0]) and np.all(fx <= rng[1]), f"forward({x}) = {fx} leaves {rng}")
    # extreme inputs stay in the range as well
    for big in (1e3, -1e3, 1e12, -1e12):
        if kind not in ("affine", "exp"):
            f = t.forward(np.full(shape, big))
            ensure(np.all(f >= rng[0]) and np.all(f <= rng[1]), f"forward({big}) = {f} leaves {rng}")
    yb = t.backward(y)
    ensure(yb.shape == shape and np.all(np.isfinite(yb)), f"backward({y}) = {yb}")
    yf = t.forward(yb)
    sc = np.maximum(np.abs(y), np.abs(np.asarray(hi) - np.asarray(lo)))
    ensure(np.all(np.abs(yf - y) <= tol_y * np.maximum(sc, 1e-3)), f"forward(backward({y})) = {yf}")
    if inv:
        b = t.backward(fx)
        ensure(np.all(np.abs(b - x) <= 2e-5 * np.maximum(1, np.abs(x))), f"backward(forward({x})) = {b}")
    elif kind != "bounce":
        ensure(np.array_equal(t.backward(fx), fx), "backward of clipping is the identity on the bounds")
    if increasing is not None and kind != "bounce":
        flat = np.sort(x.ravel())
        if not c["array"]:
            # monotonic: one same transform applied to all coordinates
            out = t.forward(flat.reshape((-1,)))
            d = np.diff(out)
            ensure(np.all(d >= 0) if increasing else np.all(d <= 0), f"not monotonic: {flat} gives {out}")
    if kind not in ("affine", "exp"):
        for side, sgn in ((hi, 1), (lo, -1)):
            if (c["kind"].endswith("_lo") and sgn == 1) or (c["kind"].endswith("_hi") and sgn == -1):
                continue
            bad = y.copy()
            bad.flat[0] = np.broadcast_to(side, shape).flat[0] + sgn * 0.01 * np.max(np.asarray(hi) - np.asarray(lo))
            try:
                t.backward(bad)
            except ValueError:
                pass
            else:
                ensure(False, f"backward accepts {bad} out of {rng}")
    r = t.reverted()
    ensure(np.array_equal(r.forward(y), yb) and np.array_equal(r.backward(x), fx), "reverted transform")
    ensure(np.array_equal(r.reverted().forward(x), fx), "reverted twice")
    rec.event("kind:" + kind)
    rec.event("array bounds", c["array"])
    rec.nontrivial(np.any(x != 0))


def run_fourier(c, rec: Recorder) -> None:
    from nevergrad.parametrization import transforms as tr

    shape = tuple(c["shape"])
    axes = [a for a in range(len(shape)) if a in c["axes"]] or [0]
    x = P.cycle(c["x"], int(np.prod(shape))).reshape(shape) + np.arange(int(np.prod(shape))).reshape(shape) * 0.1
    t = tr.Fourrier(axes if len(axes) > 1 else axes[0])
    if any(shape[a] % 2 for a in axes):
        try:
            t.forward(x)
        except ValueError:
            rec.event("odd shapes refused")
            return
        ensure(False, "odd shapes should be refused")
    f = t.forward(x)
    b = t.backward(f)
    ensure(b.shape == shape and np.allclose(b, x, atol=1e-9), f"backward(forward(x)) differs for {shape}, {axes}")
    ensure(np.allclose(f, np.fft.rfftn(x, axes=axes, norm="ortho")), "fourier")
    rec.nontrivial()


def run_errors(c, rec: Recorder) -> None:
    """inconsistent bounds are refused at construction"""
    from nevergrad.parametrization import transforms as tr

    lo, hi = c["a"], c["b"]
    classes = {"tanh": tr.TanhBound, "arctan": tr.ArctanBound, "clip": tr.Clipping, "cdf": tr.CumulativeDensity}
    if c["array"]:
        lo, hi = np.array([0.0, lo]), np.array([1.0, hi])
    try:
        classes[c["kind"]](lo, hi)
        ok = True
    except ValueError:
        ok = False
    ensure_eq(ok, c["a"] < c["b"], f"{c['kind']} with bounds {lo}, {hi}")
    rec.nontrivial(c["a"] >= c["b"])


PROPS = [
    Prop("transforms", transform_case(), run_transform, 4000, 60000, "a non-zero input", shards=6),
    Prop("fourier", st.fixed_dictionaries({"shape": st.lists(st.integers(1, 6), min_size=1, max_size=3), "axes": st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True), "x": st.lists(P.nice, min_size=1, max_size=5)}),
         run_fourier, 400, 4000, "even shapes", shards=1),
    Prop("errors", st.fixed_dictionaries({"kind": st.sampled_from(["tanh", "arctan", "clip", "cdf"]), "a": P.nice, "b": P.nice, "array": st.booleans()}).filter(lambda c: not (c["array"] and c["kind"] == "cdf")),
         run_errors, 300, 3000, "bounds in the wrong order", shards=1),
]
ASSUMPTIONS = ["round trips checked on inputs of magnitude below 4 for saturating transforms (relative tolerance 2e-5), forward/backward up to 1e-9 of the range"]
