"""P12: stacking heights."""
import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, Violation, load_sut, require

fm = load_sut()
LENGTHS = [1.0, 5.0, 25.0, 0.01, 500.0]   # weights of very different orders


@st.composite
def cases(draw, nmin=0, nmax=10, bulk=False):
    c = draw(gens.fibers(nmin=nmin, nmax=nmax, bulk=bulk, planar=True, lfrac=(300, 1000)))
    c["periodic"] = draw(st.booleans())
    c["unit"] = draw(st.sampled_from([1.0, 1.0, 1.0, 0.001, 1000.0]))
    if c["size"] not in gens.SIZES:      # already in another unit
        c["unit"] = 1.0
    return c


def scaled(c):
    T = gens.table(c)
    T[:, :6] *= c["unit"]
    return T, dict(c, size=c["size"] * c["unit"])


def heights_ok(z, h, edges, what):
    exp = ref.heights(h, edges)
    tol = 1e-6 * h.max()
    k = int(np.argmax(np.abs(z - exp)))
    require(np.abs(z - exp) < tol, "{}: fiber {} is at height {} instead of {}", what, k, z[k], exp[k])
    # the same, stated without the model
    for i, j in edges:
        require(z[j] - z[i] > (h[i] + h[j]) / 2 - tol, "{}: fibers {} and {} interpenetrate", what, i, j)
    for j in range(len(h)):
        rests = abs(z[j] - h[j] / 2) < tol or any(
            b == j and abs(z[j] - z[a] - (h[a] + h[j]) / 2) < tol for a, b in edges)
        require(rests, "{}: nothing supports fiber {}", what, j)


def stack(c):
    T, cc = scaled(c)
    mat = fm.Mat(gens.dataframe(cc, T))
    net = fm.Net(mat, periodic=c["periodic"])
    d = sut.net(net, "Net")
    edges = [(int(a), int(b)) for a, b in zip(d.A, d.B) if a < b]
    st_ = fm.Stack(mat, net)
    m = sut.mat(mat, "mat after stacking")
    require(len(mat) == len(T) and list(mat.columns) == gens.COLS, "the mat changed shape")
    for k, col in enumerate(gens.COLS):
        if col != "z":
            require(np.array_equal(mat[col].values, T[:, k]), "stacking changed column {} of the mat", col)
    if len(T) == 0:
        require(len(st_) == 0, "stack of an empty mat has {} connections", len(st_))
        return False, ["empty"]
    heights_ok(m.z, T[:, ref.H_], edges, "Stack")
    s = sut.net(st_, "Stack")
    for a in "AB":
        lab = s[a]
        require(lab >= 0, "labels")
        zz = m.z[lab] + s["s" + a] * T[lab, ref.W]
        require(np.abs(s["z" + a] - zz) < 1e-9 * max(1e-300, T[:, ref.H_].max()) * 1e3,
                "node heights z{} of the stack are not those of the mat", a)
    # stacking again changes nothing
    z1 = m.z.copy()
    fm.Stack(mat, fm.Net(mat, periodic=c["periodic"]))
    require(np.abs(sut.mat(mat).z - z1) < 1e-6 * T[:, ref.H_].max(), "stacking again moves the fibers")
    levels = len(set(np.round(z1 / T[:, ref.H_].min(), 3)))
    return len(edges) > 1 and levels > 2, ["levels=%d" % min(levels, 5),
                                           "mixed" if len(set(T[:, ref.H_])) > 1 else "uniform"]


@st.composite
def handmade(draw):
    if draw(st.integers(0, 9)) < 6:       # in bulk: deep and dense topologies
        rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
        n = int(rng.choice([4, 8, 12, 30]))
        q, reach = rng.uniform(), int(rng.choice([2, 4, n]))
        same = rng.uniform() < 0.3
        h = [float(v) for v in rng.choice(gens.DIMS[:1] if same else gens.DIMS, n)]
        dims = [[float(rng.choice(LENGTHS)), float(rng.choice(gens.DIMS + [1e-3, 30.0]))] for _ in range(n)]
        edges = [[i, j] for i in range(n) for j in range(i, min(n, i + reach)) if rng.uniform() < q]
        return {"h": h, "dims": dims, "edges": edges, "shuffle": int(rng.randint(10 ** 6))}
    n = draw(st.integers(1, 12))
    h = draw(st.lists(st.sampled_from(gens.DIMS), min_size=n, max_size=n))
    dims = draw(st.lists(st.tuples(st.sampled_from(LENGTHS), st.sampled_from(gens.DIMS + [1e-3, 30.0])),
                         min_size=n, max_size=n))
    pair = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1))
    edges = draw(st.lists(pair, max_size=30))
    edges = sorted({(min(e), max(e)) for e in edges})
    return {"h": h, "dims": dims, "edges": [list(e) for e in edges],
            "shuffle": draw(st.integers(0, 10 ** 6))}


def lp(c):
    """Stack.solve on networks whose topology is arbitrary (given, not computed)."""
    n = len(c["h"])
    h = np.array(c["h"])
    T = np.zeros((n, 11))
    T[:, 0] = [d[0] for d in c["dims"]]
    T[:, 1] = [d[1] for d in c["dims"]]
    T[:, 2] = h
    T[:, 6] = 1
    T[:, 9] = 1
    T[:, 10] = np.inf
    mat = fm.Mat(gens.dataframe({"size": 50.0}, T))
    edges = [tuple(e) for e in c["edges"]]
    order = np.argsort([(k * 7919 + c["shuffle"]) % 101 for k in range(len(edges))], kind="stable")
    edges = [edges[k] for k in order]  # the order of connections is free
    import pandas as pd
    R = np.zeros((len(edges), 10))
    for k, (a, b) in enumerate(edges):
        R[k, :4] = [a, b, k, -k]
    df = pd.DataFrame(R, columns=sut.NETCOLS)
    df[["A", "B"]] = df[["A", "B"]].astype(int)
    df.attrs.update(n=n, size=50.0, periodic=False)
    sol = fm.Stack.solve(mat, fm.Net(df))
    x = getattr(sol, "x", None)
    if x is None:
        raise Violation("the stacking problem has no solution: %s" % getattr(sol, "message", sol))
    z = sut.vector(x, "stacking heights", n)
    real = [e for e in edges if e[0] < e[1]]
    heights_ok(z, h, real, "Stack.solve")
    return len(real) > 2, ["edges=%d" % min(len(real), 10)]


@st.composite
def seeded(draw):
    return {"n": draw(st.integers(10, 40)), "seed": draw(st.integers(0, 10 ** 6)),
            "length": draw(st.sampled_from([10.0, 25.0, 50.0])),
            "thickness": draw(st.sampled_from([0.1, 0.5, 1.0])),
            "periodic": draw(st.booleans())}


def dense(c):
    mat = fm.Mat(c["n"], length=c["length"], thickness=c["thickness"], size=50.0, seed=c["seed"])
    T = mat.values.astype(float)
    net = fm.Net(mat, periodic=c["periodic"])
    d = sut.net(net, "Net")
    edges = [(int(a), int(b)) for a, b in zip(d.A, d.B) if a < b]
    fm.Stack(mat, net)
    heights_ok(sut.mat(mat).z, T[:, ref.H_], edges, "Stack")
    return len(edges) > 5, ["dense"]


def subs():
    return [
        Sub("stack", cases(), stack, 60, 1200,
            "random in-plane mats, mixed thicknesses and length units; non-trivial: at least two "
            "connections and three heights"),
        Sub("topologies", handmade(), lp, 80, 1500,
            "arbitrary given networks; non-trivial: at least three connections"),
        Sub("large", cases(20, 150, True), stack, 6, 120, "the first check on mats of 20 to 150 fibers"),
        Sub("dense", seeded(), dense, 6, 100, "mats of 10 to 40 fibers; non-trivial: > 5 connections"),
    ]
