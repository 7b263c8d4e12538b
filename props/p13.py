"""P13: stacking forces."""
import math

import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, Violation, load_sut, require
from props import p12

fm = load_sut()


def balance(mat, net, T):
    n = len(T)
    sol = fm.Stack.solve(mat, net)
    d = sut.net(net, "net")
    edges = [(int(a), int(b)) for a, b in zip(d.A, d.B) if a < b]
    try:
        x, ineq, low = sol.x, sol.ineqlin.marginals, sol.lower.marginals
    except AttributeError as e:
        raise Violation("the solution carries no heights or forces: %s" % e)
    z = sut.vector(x, "heights", n)
    F = -sut.vector(ineq, "contact forces", len(edges))
    R = sut.vector(low, "floor forces", n)
    w = math.pi / 4 * T[:, 0] * T[:, 1] * T[:, 2]
    h = T[:, 2]
    tol = 1e-6 * w.sum()
    require(F > -tol, "negative contact force {}", F.min() if len(F) else 0)
    require(R > -tol, "negative floor force {}", R.min() if n else 0)
    # the assembled system, row by row
    C, f, H, hh = sut.unpack(fm.Stack.constraint(mat, net), 4, "Stack.constraint")
    C = sut.dense(C, "C", (len(edges), n))
    f, H, hh = sut.vector(f, "f", n), sut.vector(H, "H", len(edges)), sut.vector(hh, "h", n)
    require(np.abs(hh - h) < 1e-12 * h.max(), "thicknesses {} instead of {}", hh, h)
    require(np.abs(f - w) < 1e-9 * w, "weights {} instead of {}", f, w)
    rows = []
    for k in range(len(edges)):
        i, j = np.where(C[k] == 1)[0], np.where(C[k] == -1)[0]
        require(len(i) == 1 and len(j) == 1 and np.count_nonzero(C[k]) == 2,
                "row {} of the constraints is not a difference of two heights: {}", k, C[k])
        i, j = int(i[0]), int(j[0])
        rows.append((i, j))
        require(abs(H[k] + (h[i] + h[j]) / 2) < 1e-9 * h.max(), "bound {} of pair {} is not minus half "
                "the sum of the thicknesses", H[k], (i, j))
    require(sorted(rows) == sorted(edges), "constraints on {} instead of {}", sorted(rows), sorted(edges))
    # balance of each fiber
    load = w.copy()
    support = R.copy()
    for (i, j), fk in zip(rows, F):
        load[i] += fk
        support[j] += fk
        gap = z[j] - z[i] - (h[i] + h[j]) / 2
        require(gap > -1e-6 * h.max(), "fibers {} interpenetrate", (i, j))
        require(fk < tol or gap < 1e-6 * h.max(), "force {} between fibers {} that do not touch", fk, (i, j))
    for i in range(n):
        require(R[i] < tol or z[i] - h[i] / 2 < 1e-6 * h.max(), "floor force on fiber {} in the air", i)
    k = int(np.argmax(np.abs(load - support) / load)) if n else 0
    require(np.abs(load - support) < 1e-6 * load + 1e-12 * w.sum(), "fiber {} carries {} and is supported by {}", k, load[k], support[k])
    require(abs(R.sum() - w.sum()) < tol, "the floor carries {} instead of {}", R.sum(), w.sum())
    loaded = int(np.sum(F > tol))
    return loaded, edges


def built(c):
    T, cc = p12.scaled(c)
    if len(T) == 0:
        return False, ["empty"]
    mat = fm.Mat(gens.dataframe(cc, T))
    net = fm.Net(mat, periodic=c["periodic"])
    loaded, edges = balance(mat, net, T)
    # also after stacking
    stack = fm.Stack(mat, net)
    balance(mat, stack, T)
    return loaded > 1, ["loaded=%d" % min(loaded, 5), "mixed" if len({tuple(t[:3]) for t in T}) > 1 else "uniform"]


def given_(c):
    import pandas as pd
    n = len(c["h"])
    T = np.zeros((n, 11))
    T[:, 0] = [d[0] for d in c["dims"]]
    T[:, 1] = [d[1] for d in c["dims"]]
    T[:, 2] = c["h"]
    T[:, 6] = T[:, 9] = 1
    T[:, 10] = np.inf
    mat = fm.Mat(gens.dataframe({"size": 50.0}, T))
    edges = c["edges"]
    R = np.zeros((len(edges), 10))
    for k, (a, b) in enumerate(edges):
        R[k, :4] = [a, b, k, -k]
    df = pd.DataFrame(R, columns=sut.NETCOLS)
    df[["A", "B"]] = df[["A", "B"]].astype(int)
    df.attrs.update(n=n, size=50.0, periodic=False)
    loaded, _ = balance(mat, fm.Net(df), T)
    return loaded > 1, ["loaded=%d" % min(loaded, 5)]


def subs():
    return [
        Sub("mats", p12.cases(), built, 40, 900,
            "random in-plane mats with mixed dimensions; non-trivial: at least two loaded contacts"),
        Sub("topologies", p12.handmade(), given_, 80, 1500,
            "arbitrary given networks; non-trivial: at least two loaded contacts"),
        Sub("large", p12.cases(20, 120, True), built, 5, 100, "mats of 20 to 120 fibers"),
    ]
