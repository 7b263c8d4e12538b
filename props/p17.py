"""P17: assembled stiffness matrix against an element-by-element reference."""
import numpy as np
from hypothesis import strategies as st

import ref
import sut
from common import Sub, load_sut, require
from props import mech

fm = load_sut()


def compare(K, T, m, lmin, lmax, coupling):
    Kr, S, l = ref.stiffness(T, m.fiber, m.s, lmin, lmax, coupling)
    N = 2 * len(m.s)
    K = sut.dense(K, "stiffness matrix", (N, N))
    require(~np.isnan(K), "the stiffness matrix has undefined entries")
    fin = np.isfinite(Kr)
    require(np.where(fin, True, K == Kr), "infinite entries of the stiffness matrix differ")
    require(np.isfinite(K) == fin, "infinite entries of the stiffness matrix differ")
    # scale: moduli of the terms of the entry, the 2x2 rotation blocks being differences
    with np.errstate(all="ignore"):
        dg = np.sqrt(np.outer(np.diag(S), np.diag(S)))
        scale = np.where(np.isfinite(dg), np.maximum(S, dg), S)
    err = np.where(fin, np.abs(np.where(fin, K, 0) - np.where(fin, Kr, 0)), 0)
    bad = err > 1e-9 * np.where(fin, scale, 1)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        require(False, "K[{}, {}] = {} instead of {}", i, j, K[i, j], Kr[i, j])
    return l


def zeros(v, N, what):
    for x, w in zip(v, ("u", "F", "du", "dF")):
        x = sut.vector(x, w, N)
        require(np.all(x == 0), "{}: initial vector {} is not zero", what, w)


def call(mat, mesh, lmin, lmax, coupling, default):
    kw = {}
    if lmin is not None:
        kw["lmin"] = lmin
    if lmax is not None:
        kw["lmax"] = lmax
    if not default:
        kw["coupling"] = coupling
    return sut.unpack(fm.stiffness(mat, mesh, **kw), 5, "stiffness")


def tables(c):
    mat, mesh, T, m = mech.assembly(c)
    lmin, lmax = mech.bounds(c, mech.lengths(m))
    default = c["coupling"] == 1.0
    K, *vec = call(mat, mesh, lmin, lmax, c["coupling"], default)
    compare(K, T, m, lmin, lmax, c["coupling"])
    zeros(vec, 2 * len(mesh), "stiffness")
    kinds = len({(b, h, str(e)) for b, h, e in c["props"]})
    labels = ["lmin" if lmin is not None else "free", "lmax" if lmax is not None else "free2",
              "mixed" if kinds > 1 else "uniform", "coupled" if default else "partly coupled"]
    if any(e == "inf" for _, _, (_, e) in c["props"]):
        labels.append("infinite tensile modulus")
    return len(c["edges"]) >= 2, labels


@st.composite
def stacked(draw, **kw):
    c = draw(mech.stacks(**kw))
    c["lmin"] = draw(st.sampled_from([None, "below", 0.01, 0.5]))
    c["lmax"] = draw(st.sampled_from([None, "above", "max", 0.8]))
    c["coupling"] = draw(st.sampled_from([1.0, 0.99, 0.3]))
    return c


def stacks(c):
    mat, mesh = mech.stack_mesh(c)
    d = sut.mat(mat)
    T = np.stack([d[k] for k in "lbhxyzuvwGE"], axis=1)
    m = sut.mesh(mesh)
    l = mech.lengths(m)
    cc = dict(c)
    if l.min() < 1e-6 * l.max() and c["lmin"] is None:
        cc["lmin"] = 0.01
    lmin, lmax = mech.bounds(cc, l)
    K, *vec = call(mat, mesh, lmin, lmax, c["coupling"], False)
    compare(K, T, m, lmin, lmax, c["coupling"])
    return len(l) > len(T) + 1, ["stack"]


def subs():
    return [
        Sub("given", mech.tables(), tables, 80, 1600,
            "given topologies, mixed fibers and moduli, length bounds, coupling; non-trivial: at "
            "least two connections"),
        Sub("stacks", stacked(), stacks, 40, 800, "meshes of generated stacks; non-trivial: >= 1 crossing"),
        Sub("large", stacked(nmin=15, nmax=40, bulk=True), stacks, 5, 100, "the same on mats of 15 to 40 fibers"),
    ]
