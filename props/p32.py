"""P32: system plots."""
import copy
import re

import matplotlib

matplotlib.use("Agg")
import numpy as np
import scipy as sp
import scipy.sparse as ss
import scipy.sparse.linalg as ssl
from hypothesis import strategies as st
from matplotlib import pyplot as plt

from common import Sub, captured, load_sut, require
from props import sol

fm = load_sut()
LAYERS = ["stiffness", "lower", "inner", "upper", "inactive"]


@st.composite
def cases(draw):
    c = draw(sol.problems(nmax=9))
    c["itermax"] = draw(st.integers(0, 12))
    c["step"] = draw(st.integers(0, 12))
    c["perm"] = draw(st.sampled_from(["none", "rcm", "random", "reverse"]))
    c["solver"] = draw(st.sampled_from(["random", "perturbed", "exact", "default"]))
    c["axes"] = draw(st.booleans())
    c["seed"] = draw(st.integers(0, 2 ** 31 - 1))
    return c


def points(line):
    return {(int(round(r)), int(round(k))) for k, r in zip(np.asarray(line.get_xdata()), np.asarray(line.get_ydata()))}


def entries(P, rows):
    """Non-zero entries of P touching the given rows (or columns)."""
    r, k = np.nonzero(P)
    sel = rows[r] | rows[k]
    return r[sel], k[sel]


def plot(c):
    rng = np.random.RandomState(c["seed"])
    mat, mesh = sol.assemble(c)
    s = sol.run(c, mat, mesh)
    k = min(c["step"], s.steps)
    kw = dict(lmin=c["lmin"], coupling=c["coupling"])
    K, u, F, du, dF = fm.stiffness(mat, mesh, **kw)
    C, f, H, df, dH = fm.constraint(mat, mesh, **kw)
    u, f, F, H = [np.array(v[k], dtype=float) for v in (s.u, s.f, s.F, s.H)]
    nK, nC = K.shape[0], C.shape[0]
    N = nK + nC
    g = H - C @ u
    if np.any((np.abs(g) > 1e-9) & (np.abs(g) < 1e-3) & np.isfinite(g)):
        return False, ["ambiguous gap"]
    closed = np.abs(g) <= 1e-9
    P = np.block([[s.K, s.C.T], [s.C, np.zeros((nC, nC))]])
    perm = {"none": None, "random": rng.permutation(N), "reverse": np.arange(N)[::-1].copy()}.get(c["perm"])
    if c["perm"] == "rcm":
        perm = sp.sparse.csgraph.reverse_cuthill_mckee(ss.csr_matrix(P), symmetric_mode=True)
    order = np.arange(N) if perm is None else np.asarray(perm)
    calls = []

    def solver(A, b):
        A, b = ss.csc_matrix(A), np.array(b, dtype=float).ravel()
        if c["solver"] == "random":
            x = rng.uniform(-1, 1, len(b))
        else:
            x = ssl.spsolve(A, b) if len(b) else np.zeros(0)
            if c["solver"] == "perturbed":
                x = x + 10.0 ** rng.randint(-4, 1) * rng.uniform(-1, 1, len(b))
        calls.append((A.toarray(), b, np.array(x)))
        return x

    du, df = rng.uniform(-1, 1, nK) * (c["seed"] % 2), rng.uniform(-1, 1, nC) * (c["seed"] % 2)
    args = [K, u, F, du, dF, C, f, H, df, dH]
    before = [a.toarray().copy() if ss.issparse(a) else np.array(a) for a in args]
    pbefore = None if perm is None else perm.copy()
    mb, tb = mesh.copy(), mat.copy()
    plt.close("all")
    opt = {}
    if perm is not None:
        opt["perm"] = perm
    if c["solver"] != "default":
        opt["solve"] = solver
    fig, other = plt.subplots()
    ax = None
    if c["axes"]:
        # the axes given are not the current ones
        fig, axs = plt.subplots(1, 2)
        ax = opt["ax"] = axs[0]
        plt.sca(axs[1])
    nfig = len(plt.get_fignums())
    with captured() as out:
        res = fm.plot_system(*args, **opt)
    text = out.getvalue()
    try:
        if ax is not None:
            require(res is ax, "the axes returned are not those given")
            require(not other.has_data() and not axs[1].has_data(), "other axes were drawn on")
            require(len(plt.get_fignums()) == nfig, "a new figure was opened although axes are given")
        else:
            require(isinstance(res, matplotlib.axes.Axes), "{!r} is returned", type(res))
            require(not other.has_data() and res is not other, "existing axes were drawn on")
        for name, a, b in zip("K u F du dF C f H df dH".split(), args, before):
            a = a.toarray() if ss.issparse(a) else a
            require(np.array_equal(a, b, equal_nan=True), "{} was changed", name)
        require(perm is None or np.array_equal(perm, pbefore), "the permutation was changed")
        require(mesh.equals(mb) and mat.equals(tb), "the mesh or the mat was changed")
        # layers
        layers = {l.get_label(): l for l in res.get_lines()}
        require(sorted(layers) == sorted(LAYERS), "layers {}", sorted(layers))
        leg = res.get_legend()
        require(leg is not None and sorted(t.get_text() for t in leg.get_texts()) == sorted(LAYERS), "legend of the layers")
        pos = np.empty(N, dtype=int)
        pos[order] = np.arange(N)
        kind = np.r_[np.full(nK, -1), np.tile([0, 1, 2], nC // 3)]
        cl = np.r_[np.zeros(nK, bool), closed]
        r, q = np.nonzero(s.K)
        expected = {"stiffness": (r, q)}
        for j, name in enumerate(("lower", "inner", "upper")):
            expected[name] = entries(P, cl & (kind == j))
        expected["inactive"] = entries(P, np.r_[np.zeros(nK, bool), ~closed])
        for name in LAYERS:
            want = {(int(a), int(b)) for a, b in zip(pos[expected[name][0]], pos[expected[name][1]])}
            got = points(layers[name])
            require(got == want, "layer {!r} shows {} entries that are not in the system and misses {}",
                    name, len(got - want), len(want - got))
        # residual
        nums = re.findall(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)", text)
        require(len(nums) >= 1, "no residual is reported: {!r}", text)
        err = float(nums[-1])
        active = np.r_[np.zeros(nK, bool), closed]
        active[:nK] = True
        active &= np.abs(P).sum(axis=0) > 0
        b = np.r_[dF, dH]
        sel = order[active[order]]
        if c["solver"] == "default":
            o = sol.step_model(s, s.u[k], s.Z[k])
            sharp = o is not None and not o["jam"] and o["unique_f"]
            require(err <= 1e-6 or not sharp, "residual {} of the default solver", err)
        else:
            require(len(calls) == 1, "the solver is called {} times", len(calls))
            A, bb, x = calls[0]
            require(A.shape == (len(sel), len(sel)), "the solver is given {} equations instead of {}", A.shape[0], len(sel))
            require(np.allclose(A, P[np.ix_(sel, sel)], rtol=1e-9, atol=0), "the solver is given another matrix")
            require(np.allclose(bb, b[sel]), "the solver is given another right-hand side")
            want = np.linalg.norm(A @ x - bb)
            scale = np.linalg.norm(A) * np.linalg.norm(x) + np.linalg.norm(bb)
            require(not np.isfinite(want) or abs(err - want) <= 1e-6 * want + 1e-12 * scale, "residual {} is reported instead of {}", err, want)
    finally:
        plt.close("all")
    labels = [c["perm"], c["solver"], "axes" if c["axes"] else "new axes"]
    inner = cl & (kind == 1)
    if inner.any():
        labels.append("closed inner contacts")
    return bool(k > 0 and inner.any()), labels


def subs():
    return [Sub("layers", cases(), plot, 25, 400,
                "systems of generated problems at a step of their history; non-trivial: compressed, with closed inner contacts")]
