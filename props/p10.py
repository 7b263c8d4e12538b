"""P10: periodic networks."""
import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require
from props.p09 import self_pairs

fm = load_sut()


@st.composite
def cases(draw):
    return draw(gens.fibers(nmin=1, nmax=8, planar=True, lfrac=(100, 1000)))


def compare(d, T, S, tol):
    exp = ref.crossings(T, S, tol)
    got = {}
    for k in np.where(d.A < d.B)[0]:
        key = (int(d.A[k]), int(d.B[k]))
        require(key not in got, "fibers {} are connected twice", key)
        got[key] = k
        for a, lab in (("A", d.A[k]), ("B", d.B[k])):
            s = d["s" + a][k]
            P = np.array([d["x" + a][k], d["y" + a][k], d["z" + a][k]])
            Q = T[lab, ref.X:ref.Z + 1] + s * T[lab, ref.U:ref.W + 1]
            require(np.abs(P - Q) < 1e-7 * S, "node on fiber {} is at {} instead of {}", lab, P, Q)
    image = multi = 0
    for key, cand in exp.items():
        if max(c[2] for c in cand) > tol:
            require(key in got, "fibers {} cross (through images) at {} but are not connected",
                    key, cand)
        elif key not in got:
            continue
        k = got[key]
        err = min(max(abs(d.sA[k] - c[0]), abs(d.sB[k] - c[1])) for c in cand)
        require(err < 1e-5 * S, "connection {} is at ({}, {}) where no crossing takes place ({})",
                key, d.sA[k], d.sB[k], cand)
        multi += len(cand) > 1
        image += ref.crossing2d(T, *key)[2] < 0
    for key in got:
        require(key in exp, "fibers {} are connected but never cross", key)
    return len(got), image, multi


def check(c):
    T = gens.table(c)
    S = c["size"]
    mat = gens.make_mat(fm, c)
    net = fm.Net(mat) if len(T) % 2 else fm.Net(mat, periodic=True)
    require(net.attrs.get("periodic") is True, "attribute periodic is {!r}", net.attrs.get("periodic"))
    d = sut.net(net, "Net")
    self_pairs(d, T, 1e-7 * S, "periodic")
    m, image, multi = compare(d, T, S, 1e-9 * S)
    return image > 0, ["image" if image else "direct", "multiple" if multi else "single"]


@st.composite
def translated(draw):
    c = draw(cases())
    c["t"] = [draw(st.integers(-1000, 1000)), draw(st.integers(-1000, 1000))]
    return c


def translation(c):
    T = gens.table(c)
    S = c["size"]
    P = np.array([[f[3], f[4]] for f in c["fibers"]]) + np.array(c["t"])
    P = (P + gens.NPOS // 2) % gens.NPOS - gens.NPOS // 2  # exact wrapping on the grid
    T2 = T.copy()
    T2[:, [ref.X, ref.Y]] = S * P / gens.NPOS
    a = sut.net(fm.Net(fm.Mat(gens.dataframe(c, T)), periodic=True), "Net")
    b = sut.net(fm.Net(fm.Mat(gens.dataframe(c, T2)), periodic=True), "Net")
    exp = ref.crossings(T, S, 1e-9 * S)
    unsure = {k for k, v in exp.items() if max(x[2] for x in v) < 1e-9 * S}
    KA = {(int(i), int(j)): k for k, (i, j) in enumerate(zip(a.A, a.B))}
    KB = {(int(i), int(j)): k for k, (i, j) in enumerate(zip(b.A, b.B))}
    diff = (set(KA) ^ set(KB)) - unsure
    require(not diff, "translation by {} changes the connected pairs: {}", c["t"], sorted(diff))
    single = 0
    for key in set(KA) & set(KB):
        if key[0] == key[1] or len(exp.get(key, [])) != 1:
            continue
        single += 1
        require(abs(a.sA[KA[key]] - b.sA[KB[key]]) < 1e-6 * S
                and abs(a.sB[KA[key]] - b.sB[KB[key]]) < 1e-6 * S,
                "translation by {} moves connection {}", c["t"], key)
    wrapped = bool(np.any(np.abs(T2[:, 3] - T[:, 3] - c["t"][0] * S / gens.NPOS) > 1e-6))
    return single > 0 and wrapped, ["wrapped" if wrapped else "unwrapped"]


def dense(c):
    S = c.get("size", 50.0)
    mat = fm.Mat(c["n"], length=c["length"] * S / 50.0, size=S, theta=c["theta"], seed=c["seed"])
    T = mat.values.astype(float)
    d = sut.net(fm.Net(mat, periodic=True), "Net")
    self_pairs(d, T, 1e-7 * S, "periodic")
    m, image, multi = compare(d, T, S, 1e-9 * S)
    return image > 0, ["multiple" if multi else "single"]


def subs():
    return [
        Sub("images", cases(), check, 200, 4000,
            "random in-plane mats, fibers up to the box size; non-trivial: a crossing through an image"),
        Sub("translation", translated(), translation, 150, 3000,
            "mat and its wrapped translate; non-trivial: some fiber is wrapped and a connection compared"),
        Sub("dense", st.fixed_dictionaries({"n": st.one_of(st.integers(5, 30), st.integers(5, 30), st.integers(100, 160)), "seed": st.integers(0, 10 ** 6),
                                            "length": st.sampled_from([5.0, 20.0, 25.0, 50.0]),
                                            "theta": st.sampled_from([3.14159, 1.0, 0.1])}),
            dense, 8, 100, "mats of 5 to 160 fibers from Mat itself; non-trivial: an image crossing"),
        Sub("large", gens.large(900), dense, 10, 50,
            "mats of 200 to 600 fibers from Mat itself, in various units; non-trivial: an image crossing"),
    ]
