"""P08: connections are nearest points."""
import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require

fm = load_sut()


@st.composite
def cases(draw, planar):
    c = draw(gens.fibers(nmin=2, nmax=8, planar=planar, lfrac=(100, 1500) if planar else (300, 1500)))
    c["periodic"] = draw(st.booleans())
    return c


def check(c):
    T = gens.table(c)
    S = c["size"]
    planar = bool(np.all(T[:, ref.W] == 0))
    mat = gens.make_mat(fm, c)
    d = sut.net(fm.Net(mat, periodic=c["periodic"]), "Net")
    n, tol = len(T), 1e-7 * S
    require((0 <= d.A) & (d.A <= d.B) & (d.B < n), "fiber labels out of order or range: {}",
            list(zip(d.A, d.B)))
    real = d.A < d.B
    for a, s in (("A", d.sA), ("B", d.sB)):
        lab = d[a]
        require(np.abs(s) <= 0.5 * T[lab, ref.L] + tol, "abscissa s{} beyond the fiber end", a)
        P = np.c_[d["x" + a], d["y" + a], d["z" + a]]
        Q = T[lab][:, ref.X:ref.Z + 1] + s[:, None] * T[lab][:, ref.U:ref.W + 1]
        k = int(np.argmax(np.abs(P - Q).max(axis=1))) if len(P) else 0
        require(np.abs(P - Q) < 1e-10 * S, "node {} of connection {} is at {} instead of {} on its fiber",
                a, k, P[k] if len(P) else None, Q[k] if len(P) else None)
    shifted = 0
    for k in np.where(real)[0]:
        A, B = int(d.A[k]), int(d.B[k])
        rA = np.array([d.xA[k], d.yA[k], d.zA[k]])
        rB = np.array([d.xB[k], d.yB[k], d.zB[k]])
        uA, uB = T[A, ref.U:ref.W + 1], T[B, ref.U:ref.W + 1]
        cc = abs(float(uA @ uB))
        require(cc < 1 - 1e-9, "parallel fibers {} and {} are connected", A, B)
        shifts = ref.SHIFTS if c["periodic"] else [(0, 0)]
        # images further than one box exist when fibers are longer than the box
        if c["periodic"] and T[:, ref.L].max() > S:
            shifts = [(a, b) for a in range(-2, 3) for b in range(-2, 3)]
        best = None
        for a, b in shifts:
            v = rB + np.array([a * S, b * S, 0.0]) - rA
            # nearest points: the segment between them is normal to both fibers
            e = max(abs(float(v @ uA)), abs(float(v @ uB)))
            if best is None or e < best[0]:
                best = (e, v, (a, b))
        e, v, sh = best
        # double precision, amplified by the angle (normal equations)
        fine = max(S, T[:, ref.L].max()) * 1e-12 / (1 - cc ** 2)
        require(e < fine,
                "connection {}-{}: the nodes are not the nearest points of the fibers "
                "(deviation {:.3g})", A, B, e)
        shifted += sh != (0, 0)
        if planar:
            require(np.abs(v[:2]) < fine,
                    "connection {}-{}: nodes are not vertically aligned ({})", A, B, v)
    # a fiber's connection to itself holds its two ends
    for k in np.where(~real)[0]:
        A = d.A[k]
        require(abs(abs(d.sA[k]) - T[A, ref.L] / 2) < tol and abs(d.sA[k] + d.sB[k]) < tol,
                "self connection of fiber {} is at {}, {}", A, d.sA[k], d.sB[k])
    labels = ["planar" if planar else "out-of-plane", "periodic" if c["periodic"] else "bounded"]
    if shifted:
        labels.append("image")
    if real.any():
        labels.append("crossing")
    return bool(real.any()), labels


def subs():
    return [
        Sub("planar", cases(True), check, 200, 4000,
            "random in-plane mats; non-trivial: at least one connection between two fibers"),
        Sub("spatial", cases(False), check, 200, 4000,
            "random out-of-plane mats; non-trivial: at least one connection between two fibers"),
    ]
