"""P11: networks follow the geometry."""
import math

import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require

fm = load_sut()

transform = st.one_of(
    st.tuples(st.just("quarter"), st.integers(1, 3)),
    st.tuples(st.just("mirror"), st.sampled_from("xy")),
    st.tuples(st.just("swapxy"), st.just(0)),
    st.tuples(st.just("scale"), st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.5, 2.0, 10.0, 1e3, 1e5])),
    st.tuples(st.just("scale"), st.sampled_from([1e-5, 1e-4, 1e-3])),
    st.tuples(st.just("lift"), st.integers(-50, 50)),
    st.tuples(st.just("flip"), st.integers(0, 7)),
    st.tuples(st.just("renumber"), st.integers(0, 5039)),
    st.tuples(st.just("renumber"), st.integers(0, 5039)),
    st.tuples(st.just("shift"), st.integers(-300, 300), st.integers(-300, 300)),   # bounded only
    st.tuples(st.just("turn"), st.integers(1, 499)),                               # bounded only
    st.tuples(st.just("subset"), st.integers(0, 1)),
)


@st.composite
def cases(draw, nmin=2, nmax=7, bulk=False):
    c = draw(gens.fibers(nmin=nmin, nmax=nmax, bulk=bulk, planar=draw(st.booleans()), lfrac=(400, 1000)))
    c["op"] = list(draw(transform))
    c["periodic"] = draw(st.booleans()) and c["op"][0] not in ("shift", "turn")
    return c


def unrank(k, n):
    items, out = list(range(n)), []
    for m in range(n, 0, -1):
        out.append(items.pop(k % m))
        k //= m
    return out


def rotated(T, a):
    R = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    T = T.copy()
    T[:, [ref.X, ref.Y]] = T[:, [ref.X, ref.Y]] @ R.T
    T[:, [ref.U, ref.V_]] = T[:, [ref.U, ref.V_]] @ R.T
    return T


def network(T, size, periodic):
    mat = fm.Mat(gens.dataframe({"size": size}, T))
    d = sut.net(fm.Net(mat, periodic=periodic), "Net")
    out = {}
    for k in range(len(d.A)):
        key = (int(d.A[k]), int(d.B[k]))
        require(key not in out, "repeated connection {}", key)
        out[key] = np.array([d[c][k] for c in sut.NETCOLS[2:]])
    return out


def candidates(T, i, j, size, periodic):
    shifts = ref.SHIFTS if periodic else [(0, 0)]
    out = []
    for a, b in shifts:
        s = (a * size, b * size)
        c = ref.nearest3d(T, i, j, s)
        if c is None:
            continue
        dist = np.hypot(*(T[j, [ref.X, ref.Y]] + np.array(s) - T[i, [ref.X, ref.Y]]))
        out.append(min(c[2], 0.5 * (T[i, ref.L] + T[j, ref.L]) - dist))
    return out


def check(c):
    S, T, op, per = c["size"], gens.table(c), c["op"], c["periodic"]
    tol = 1e-7 * S
    n = len(T)
    before = network(T, S, per)
    if op[0] == "subset":
        bounded = network(T, S, False)
        every = network(T, S, True)
        for i, j in set(bounded) - set(every):
            amb = [x for x in candidates(T, i, j, S, True) if abs(x) < tol]
            require(amb, "fibers {} are connected in the bounded network only", (i, j))
        return len(bounded) > n, ["subset"]
    scale, S2, T2 = 1.0, S, T.copy()
    perm = list(range(n))
    flip = np.ones(n)
    off = np.zeros(3)
    M = np.eye(3)
    if op[0] == "quarter":
        k = op[1]
        M = np.array([[[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
                      [[0, 1, 0], [-1, 0, 0], [0, 0, 1]]][k - 1], dtype=float)
    elif op[0] == "mirror":
        M = np.diag([-1.0, 1, 1] if op[1] == "x" else [1.0, -1, 1])
    elif op[0] == "swapxy":
        M = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1.0]])
    elif op[0] == "turn":
        a = math.pi * op[1] / gens.NANG
        M = np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]])
        S2 = 1.5 * S
    elif op[0] == "scale":
        scale = op[1]
        S2 = S * scale
    elif op[0] == "lift":
        off[2] = S * op[1] / 10.0
    elif op[0] == "shift":
        off[:2] = [S * op[1] / 1000.0, S * op[2] / 1000.0]
        S2 = 2 * S
    elif op[0] == "flip":
        flip[op[1] % n] = -1
    elif op[0] == "renumber":
        perm = unrank(op[1], n)
    T2[:, :3] *= scale
    T2[:, ref.X:ref.Z + 1] = scale * (T[:, ref.X:ref.Z + 1] @ M.T) + off
    T2[:, ref.U:ref.W + 1] = (T[:, ref.U:ref.W + 1] @ M.T) * flip[:, None]
    # fiber k of the transformed mat is fiber perm[k] of the mat
    after = network(T2[perm], S2, per)
    new = {old: k for k, old in enumerate(perm)}
    expected = {}
    for (i, j), row in before.items():
        a, b = new[i], new[j]
        row = row.copy()
        PA = scale * (M @ row[2:5]) + off
        PB = scale * (M @ row[5:8]) + off
        sa, sb = scale * row[0] * flip[i], scale * row[1] * flip[j]
        if a > b:
            a, b, sa, sb, PA, PB = b, a, sb, sa, PB, PA
        expected[a, b] = np.r_[sa, sb, PA, PB]
    compared = 0
    for key in set(expected) | set(after):
        i, j = perm[key[0]], perm[key[1]]
        if i == j:
            require(key in after and key in expected, "self connection of fiber {} is missing", i)
            s = sorted(after[key][:2])
            require(abs(s[0] + s[1]) < 1e-7 * S2 and abs(s[1] - T2[i, 0] / 2) < 1e-7 * S2,
                    "self connection of fiber {} is at {}", i, s)
            continue
        if i > j:
            i, j = j, i
        cand = candidates(T, i, j, S, per)
        if any(abs(x) < tol for x in cand):
            continue  # at a fiber tip: may go either way
        require(key in after, "{}: connection {} is lost", op, (i, j))
        require(key in expected, "{}: connection {} appears", op, (i, j))
        if sum(x > 0 for x in cand) > 1:
            continue  # several crossings: any of them may be kept
        err = np.abs(after[key] - expected[key]).max()
        require(err < 10 * tol * (S2 / S if op[0] == "scale" else 2),
                "{}: connection {} is {} instead of {}", op, (i, j), after[key], expected[key])
        compared += 1
    return compared > 0, [op[0], "periodic" if per else "bounded"]


def subs():
    return [Sub("metamorphic", cases(), check, 300, 6000,
                "random mats and one of 10 transformations; non-trivial: a connection between two "
                "fibers is compared"),
            Sub("large", cases(30, 120, True), check, 12, 250, "the same on mats of 30 to 120 fibers")]
