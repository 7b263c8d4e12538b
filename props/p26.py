"""P26: interpolation of states."""
import numpy as np
from hypothesis import strategies as st

from common import Sub, Violation, load_sut, require

fm = load_sut()

val = st.one_of(st.integers(-1000, 1000).map(lambda v: v / 8), st.integers(-5, 5),
                st.integers(-10 ** 6, 10 ** 6).map(lambda v: v * 1e-9), st.integers(-10 ** 6, 10 ** 6).map(lambda v: v * 1e3))


@st.composite
def cases(draw):
    shape = draw(st.sampled_from([[], [1], [3], [5], [2, 3]]))
    m = draw(st.one_of(st.integers(1, 6), st.integers(1, 40), st.integers(1, 40), st.integers(40, 250)))
    size = int(np.prod(shape))
    kind = draw(st.sampled_from(["linear", "linear", "default", "previous", "previous", "next", "nearest", "cubic", "quadratic"]))
    dtype = draw(st.sampled_from(["float", "float", "float", "int", "bool"]))
    if m > 40 or draw(st.booleans()):
        rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
        y = rng.randint(-1000, 1000, (m, size))
        if dtype == "bool":
            y = y % 2
        y = (y / 8 if dtype == "float" else y).tolist()
    elif dtype == "float":
        y = draw(st.lists(st.lists(val, min_size=size, max_size=size), min_size=m, max_size=m))
    else:
        y = draw(st.lists(st.lists(st.integers(-20, 20) if dtype == "int" else st.integers(0, 1), min_size=size, max_size=size), min_size=m, max_size=m))
    # constant and infinite components
    const = draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(["first", "inf", "-inf", "zero"])), max_size=2))
    return {"shape": shape, "kind": kind, "dtype": dtype, "y": y, "const": [list(p) for p in const],
            "container": draw(st.sampled_from(["array", "list", "mixed", "tuple", "nested"])),
            "size": draw(st.one_of(st.none(), st.none(), st.integers(2, 60), st.just("multiple"))),
            "times": draw(st.lists(st.integers(0, 10 ** 6), max_size=5))}


def piecewise(t, y, kind, x):
    """Direct evaluation at one time x of states y at sorted times t. None near a jump."""
    m = len(t)
    if m == 1:
        return y[0]
    d = 1 / (m - 1)
    k = x / d
    near = abs(k - round(k)) < 1e-9
    if kind == "linear":
        i = min(int(k), m - 2)
        w = (x - t[i]) / (t[i + 1] - t[i])
        if near:
            return y[int(round(k))]
        return y[i] * (1 - w) + y[i + 1] * w
    if near:
        return y[int(round(k))]
    if kind == "previous":
        return y[int(k)]
    if kind == "next":
        return y[int(k) + 1]
    if abs(k - int(k) - 0.5) < 1e-9:
        return None
    return y[int(round(k))]


def same(a, b, dtype, what, tol=1e-9, scale=0.0):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, "{}: shape {} instead of {}", what, a.shape, b.shape)
    if dtype == "bool":
        require(a == b, "{}: {} instead of {}", what, a, b)
        return
    with np.errstate(all="ignore"):
        inf = np.isinf(b)
        require(np.where(inf, a == b, True), "{}: {} instead of {}", what, a, b)
        a, b = np.where(inf, 0, a).astype(float), np.where(inf, 0, b).astype(float)
    require(np.isfinite(a), "{}: undefined values {}", what, a)
    require(np.abs(a - b) <= tol * max(1e-300, scale, np.abs(b).max() if b.size else 1), "{}: {} instead of {}", what, a, b)


def interp(c):
    dt = {"float": float, "int": int, "bool": bool}[c["dtype"]]
    shape, m, kind = c["shape"], len(c["y"]), c["kind"]
    y = np.array(c["y"], dtype=dt).reshape(m, *shape)
    flat = y.reshape(m, -1)
    isconst = np.zeros(flat.shape[1], dtype=bool)
    for k, how in c["const"]:
        k %= flat.shape[1]
        isconst[k] = True
        flat[:, k] = {"first": flat[0, k], "zero": 0,
                      "inf": np.inf if dt is float else flat[0, k],
                      "-inf": -np.inf if dt is float else flat[0, k]}[how]
    if c["container"] == "mixed" and dt is float:
        flat[0, ~isconst & np.isfinite(flat[0])] = np.rint(flat[0, ~isconst & np.isfinite(flat[0])])
    needs = {"cubic": 4, "quadratic": 3}.get(kind, 1)
    size = c["size"]
    if size == "multiple":
        size = 3 * (m - 1) + 1
        size = size if size > 1 else None
    if m < needs or (size is not None and size < needs) or (kind in ("cubic", "quadratic") and not np.isfinite(flat).all()):
        return False, ["not applicable"]
    kw = {} if kind == "default" else {"kind": kind}
    if size is not None:
        kw["size"] = size
    how = c["container"]
    if how == "mixed" and dt is float and np.array_equal(y, np.rint(y)):
        how = "list"
    if how == "array":
        states = y
    elif how == "nested":
        states = y.tolist()
    elif how == "mixed" and dt is float:
        # integral states are integers, as initial values often are
        states = [np.array(v) if not np.array_equal(v, np.rint(v)) or np.isinf(v).any() else
                  (v.astype(int) if shape else int(v)) for v in y]
    else:
        states = [np.array(v) for v in y]
        if how == "tuple":
            states = tuple(states)
    q = fm.Interpolate(states, **kw)
    lin = "linear" if kind == "default" else kind
    smooth = kind in ("cubic", "quadratic")
    n = m if size is None else size
    t0 = np.linspace(0, 1, m)
    # sampled states
    times = np.linspace(0, 1, n)
    require(np.shape(q.t) == (n,) and np.allclose(q.t, times, rtol=0, atol=1e-12), "times of the samples: {}", q.t)
    require(q.t[0] == 0 and (n == 1 or q.t[-1] == 1), "the samples go from {} to {}", q.t[0], q.t[-1])
    got = np.asarray(q())
    require(got.shape == (n, *shape), "samples have shape {} instead of {}", got.shape, (n, *shape))
    require(got.dtype == y.dtype, "data type {} instead of {}", got.dtype, y.dtype)
    samples = []
    fin = np.isfinite(flat)
    big = float(np.abs(flat[fin].astype(float)).max()) if fin.any() else 0.0
    whole = lin == "linear" and dt is not float       # rounding of non-integral values is not specified
    tol = 1e-6 if smooth else 1e-9
    for k in range(n):
        e = None if smooth and size is not None else piecewise(t0, y.astype(float), "linear" if smooth else lin, times[k])
        exact = abs(times[k] * (m - 1) - round(times[k] * (m - 1))) < 1e-9
        if exact and lin in ("previous", "next") and not np.any(times[k] == t0):
            continue    # a jump, within rounding
        if e is not None and (exact or not (smooth or whole)):
            same(got[k], e.astype(dt) if dt is not float else e, c["dtype"], "sample %d of %d (%d states)" % (k, n, m), tol, big)
    if size is None:
        for k in range(m):
            same(q(t0[k]), y[k], c["dtype"], "value at the time of state %d of %d" % (k, m), tol, big)
            if lin == "linear" or smooth:
                same(q(k / (m - 1) if m > 1 else 0.0), y[k], c["dtype"], "value at the time of state %d of %d" % (k, m), tol, big)
    same(q(0), y[0], c["dtype"], "value at time 0", tol, big)
    same(q(1), y[-1], c["dtype"], "value at time 1", tol, big)
    # any time
    for v in c["times"]:
        x = v / 10 ** 6
        r = np.asarray(q(x))
        require(r.shape == tuple(shape) and r.dtype == y.dtype, "value at time {}: shape {}, type {}", x, r.shape, r.dtype)
        cc = r.reshape(-1)[isconst]
        same(cc, flat[0][isconst], c["dtype"], "constant value at time %g" % x)
        if smooth or whole:
            continue
        e = piecewise(times, got.astype(float), lin, x)
        if lin in ("previous", "next") and np.any(np.abs(x - times) < 1e-9) and not np.any(x == times):
            continue
        if e is not None:
            same(r, e if dt is float else e.astype(dt), c["dtype"], "value at time %g" % x, scale=big)
    # several times at once
    if c["times"]:
        x = np.array(c["times"]) / 10 ** 6
        r = np.asarray(q(x))
        require(r.shape == (len(x), *shape), "values at {} times have shape {}", len(x), r.shape)
        for k, v in enumerate(x):
            same(r[k], q(v), c["dtype"], "vector of times", 1e-12, big)
    return m >= 2, [lin, c["dtype"], "resampled" if size is not None else "plain"] + ["constant"] * bool(isconst.any()) + [how] + ["long"] * (m > 40)


def subs():
    return [Sub("states", cases(), interp, 250, 5000,
                "arrays of states of any shape and type; non-trivial: at least two states")]
