"""P09: completeness of bounded networks."""
import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require

fm = load_sut()


@st.composite
def cases(draw, planar=True):
    c = draw(gens.fibers(nmin=0, nmax=10, planar=planar, lfrac=(100, 2000)))
    c["sort"] = draw(st.booleans())
    return c


def self_pairs(d, T, tol, who):
    for i in range(len(T)):
        k = np.where((d.A == i) & (d.B == i))[0]
        require(len(k) == 1, "fiber {} has {} connections to itself ({})", i, len(k), who)
        s = sorted([d.sA[k[0]], d.sB[k[0]]])
        require(abs(s[0] + T[i, ref.L] / 2) < tol and abs(s[1] - T[i, ref.L] / 2) < tol,
                "self connection of fiber {} is at {} instead of its ends", i, s)


def compare(d, expected, T, tol):
    """expected: {(i, j): (si, sj, margin)} of crossings with margin > -tol."""
    got = {}
    for k in np.where(d.A < d.B)[0]:
        key = (int(d.A[k]), int(d.B[k]))
        require(key not in got, "fibers {} are connected twice", key)
        got[key] = (d.sA[k], d.sB[k])
    amb = 0
    for key, (si, sj, margin) in expected.items():
        if margin > tol:
            require(key in got, "fibers {} cross at abscissae {:.6g}, {:.6g} but are not connected",
                    key, si, sj)
        elif key not in got:
            amb += 1
            continue
        sc = tol * 10 * max(1.0, abs(si), abs(sj)) / 1e-3
        require(abs(got[key][0] - si) < sc and abs(got[key][1] - sj) < sc,
                "connection {} is at {} instead of {}", key, got[key], (si, sj))
    for key in got:
        require(key in expected, "fibers {} are connected but do not cross", key)
    return len(got), amb


def planar(c):
    T = gens.table(c)
    if len(T) > 1 and not c["sort"]:
        T = T[::-1].copy()
    tol = 1e-9 * c["size"]
    mat = fm.Mat(gens.dataframe(c, T))
    d = sut.net(fm.Net(mat, periodic=False), "Net")
    self_pairs(d, T, 1e-7 * c["size"], "bounded")
    exp = {k: v[0] for k, v in ref.crossings(T, None, tol).items()}
    m, amb = compare(d, exp, T, tol)
    pairs = len(T) * (len(T) - 1) // 2
    return m > 0 and m < pairs, ["n=%d" % min(len(T), 4)] + (["crossing"] if m else []) + (
        ["tip"] if amb else [])


def spatial(c):
    T = gens.table(c)
    tol = 1e-9 * c["size"]
    mat = fm.Mat(gens.dataframe(c, T))
    d = sut.net(fm.Net(mat, periodic=False), "Net")
    self_pairs(d, T, 1e-7 * c["size"], "bounded")
    got = set()
    for k in np.where(d.A < d.B)[0]:
        key = (int(d.A[k]), int(d.B[k]))
        require(key not in got, "fibers {} are connected twice", key)
        got.add(key)
        near = ref.nearest3d(T, *key)
        require(near is not None and near[2] > -tol, "fibers {} are connected beyond their ends", key)
    m = 0
    for i in range(len(T)):
        for j in range(i + 1, len(T)):
            near = ref.nearest3d(T, i, j)
            if near is None or near[2] < tol:
                continue
            dist = np.hypot(*(T[j, [ref.X, ref.Y]] - T[i, [ref.X, ref.Y]]))
            if dist < 0.5 * (T[i, ref.L] + T[j, ref.L]) - tol:
                m += 1
                require((i, j) in got, "nearest points of fibers {} are inside both but they are "
                        "not connected", (i, j))
    return m > 0, ["crossing"] if m else ["none"]


@st.composite
def with_pairs(draw):
    c = draw(gens.fibers(nmin=2, nmax=8, planar=draw(st.booleans()), lfrac=(300, 1500)))
    n = len(c["fibers"])
    pair = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1))
    c["pairs"] = [list(p) for p in draw(st.lists(pair, min_size=1, max_size=20))]
    return c


def restricted(c):
    mat = gens.make_mat(fm, c)
    tol = 1e-7 * c["size"]
    full = sut.net(fm.Net(mat, periodic=False), "Net")
    sub = sut.net(fm.Net(mat, periodic=False, pairs=np.array(c["pairs"])), "Net(pairs)")
    want = {(min(p), max(p)) for p in c["pairs"]}
    F = {(int(a), int(b)): k for k, (a, b) in enumerate(zip(full.A, full.B))}
    got = [(int(a), int(b)) for a, b in zip(sub.A, sub.B)]
    require(len(set(got)) == len(got), "repeated connections: {}", got)
    require(set(got) == want & set(F), "connections {} instead of {} for candidate pairs {}",
            sorted(got), sorted(want & set(F)), c["pairs"])
    for k, key in enumerate(got):
        for col in sut.NETCOLS[2:]:
            x, y = sub[col][k], full[col][F[key]]
            if key[0] == key[1] and col not in ("sA", "sB"):
                continue
            require(abs(x - y) < tol, "{} of connection {} is {} instead of {}", col, key, x, y)
    cross = [k for k in got if k[0] < k[1]]
    return bool(cross) and len(cross) < len([k for k in F if k[0] < k[1]]) + 1, [
        "crossing" if cross else "none"]


def dense(c):
    """Larger random mats, as generated by fibermat itself."""
    S = c.get("size", 50.0)
    mat = fm.Mat(c["n"], length=c["length"] * S / 50.0, size=S, theta=c["theta"], seed=c["seed"])
    T = mat.values.astype(float)
    d = sut.net(fm.Net(mat, periodic=False), "Net")
    tol = 1e-9 * S
    self_pairs(d, T, 1e-7 * S, "bounded")
    m, amb = compare(d, {k: v[0] for k, v in ref.crossings(T, None, tol).items()}, T, tol)
    return m > 0, ["n>=300" if c["n"] >= 300 else "n>=30" if c["n"] >= 30 else "n<30"]


def subs():
    return [
        Sub("planar", cases(), planar, 200, 4000,
            "random in-plane mats with equal, parallel, collinear and touching fibers; non-trivial: "
            "some pairs cross and some do not"),
        Sub("spatial", cases(planar=False), spatial, 120, 2500,
            "random out-of-plane mats; non-trivial: at least one expected connection"),
        Sub("pairs", with_pairs(), restricted, 120, 2500,
            "random candidate pair lists (any order, repeats, self pairs); non-trivial: a crossing pair"),
        Sub("dense", st.fixed_dictionaries({"n": st.one_of(st.integers(10, 60), st.integers(60, 150)), "seed": st.integers(0, 10 ** 6),
                                            "length": st.sampled_from([5.0, 25.0, 60.0]),
                                            "theta": st.sampled_from([3.14159, 1.0, 0.1])}),
            dense, 8, 100, "mats of 10 to 150 fibers from Mat itself; non-trivial: a crossing"),
        Sub("large", gens.large(1500), dense, 12, 60,
            "mats of 200 to 1200 fibers from Mat itself, in various units; non-trivial: a crossing"),
    ]
