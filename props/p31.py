"""P31: totality of the pipeline."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import sut
from common import Sub, load_sut, require

fm = load_sut()


@st.composite
def runs(draw):
    c = {
        "n": draw(st.one_of(st.integers(1, 6), st.integers(1, 40))),
        "length": draw(st.sampled_from([0.1, 1, 5, 10.0, 25, 25.0, 40.0, 50.0, 50, 80.0, 200.0])),
        "width": draw(st.sampled_from([0.05, 0.5, 1, 2.0, 10.0])),
        "thickness": draw(st.sampled_from([0.05, 0.2, 1, 1.0, 3.0])),
        "size": draw(st.sampled_from([50, 50.0, 20.0, 1.0, 1000.0])),
        "theta": draw(st.sampled_from([0.0, 1e-3, 0.5, math.pi, math.pi, 3, 2 * math.pi])),
        "psi": draw(st.sampled_from([0.0] * 6 + [0.1, 1.0])),
        "shear": draw(st.sampled_from([1.0, 1, 1e-3, 2e4])),
        "tensile": draw(st.sampled_from(["inf", "inf", 2500, 1.0, 1e7])),
        "seed": draw(st.one_of(st.none(), st.integers(0, 2 ** 32 - 1))),
        "periodic": draw(st.sampled_from([True, False, 1, 0])),
        "threshold": draw(st.sampled_from(["none", None, -1.0, 0.0, 0, 0.5, 5, "inf"])),
        "lmin": draw(st.sampled_from(["none", None, 0.01, 1.0])),
        "lmax": draw(st.sampled_from(["none", None, 5.0, 1000.0])),
        "coupling": draw(st.sampled_from([1.0, 1, 0.99, 0.0])),
        "packing": draw(st.sampled_from([0, 1.0, 1, 1.2, 2.0, 5.0, 1e9])),
        "itermax": draw(st.sampled_from([0, 1, 2, 5, 30])),
        "interp_size": draw(st.sampled_from(["none", None, 2, 50])),
        "fresh": draw(st.booleans()),   # a network built by the stack itself
    }
    return c


def dec(v):
    return float("inf") if v == "inf" else v


def kwargs(c, *names):
    return {k: dec(c[k]) for k in names if c[k] != "none"}


def run(c):
    mat = fm.Mat(c["n"], **kwargs(c, "length", "width", "thickness", "size", "theta", "psi", "shear", "tensile", "seed"))
    require(fm.Mat.check(mat) and fm.Mat.check(mat.copy()), "the mat does not pass its check")
    nk = kwargs(c, "periodic")
    sk = dict(kwargs(c, "threshold"), verbose=False)
    net = fm.Net(mat, **nk)
    require(fm.Net.check(net), "the network does not pass its check")
    if c["fresh"]:
        stack = fm.Stack(mat, **nk, **sk)
    else:
        stack = fm.Stack(mat, net, **sk)
    require(fm.Stack.check(stack), "the stack does not pass its check")
    require(fm.Mat.check(mat), "the stacked mat does not pass its check")
    require(np.isfinite(mat.z.values.astype(float)), "heights are not finite: {}", mat.z.values)
    for src in (net, stack):
        mesh = fm.Mesh(src)
        require(fm.Mesh.check(mesh), "the mesh does not pass its check")
        require(len(mesh) == 2 * len(src), "{} nodes for {} connections", len(mesh), len(src))
    mk = kwargs(c, "lmin", "lmax", "coupling")
    m = sut.mesh(mesh)
    ds = np.diff(m.s)[np.diff(m.fiber) == 0]
    close = len(ds) and ds.min() < 1e-6 * c["length"]
    K, u, F, du, dF = fm.stiffness(mat, mesh, **mk)
    C, f, H, df, dH = fm.constraint(mat, mesh)
    N = len(mesh)
    require(K.shape == (2 * N, 2 * N) and C.shape == (3 * (N // 2 + c["n"]), 2 * N), "shapes {} {}", K.shape, C.shape)
    msh = fm.vtk_mat(mat, verbose=False)
    require(msh.n_points > 0 and np.isfinite(np.asarray(msh.points)), "export of the mat")
    if close:
        # coincident nodes: beams of vanishing length are not judged
        return False, ["close nodes"]
    try:
        sol = fm.solve(mat, mesh, **mk, **kwargs(c, "packing", "itermax", "interp_size"), verbose=False)
    except RuntimeError as e:
        require(False, "solve raised {!r}", e)
    Ks, Cs, u, f, F, H, Z, rl, mask, err = sol
    for k, v in dict(u=u, f=f, Z=Z, rlambda=rl).items():
        for t in (0, 0.5, 1):
            require(np.isfinite(v(t)), "{} is not finite at {}", k, t)
    msh = fm.vtk_mesh(mat, mesh, *u(1).reshape(-1, 2).T, *(f(1) @ C).reshape(-1, 2).T, verbose=False)
    require(msh.n_points > 0 and np.isfinite(np.asarray(msh.points)), "export of the mesh")
    labels = ["tensile inf" if c["tensile"] == "inf" else "tensile finite"]
    if c["psi"]:
        labels.append("out-of-plane")
    if c["threshold"] not in ("none", None):
        labels.append("threshold")
    if rl(1) > 1:
        labels.append("compressed")
    return len(net) > c["n"], labels


EMPTY = {
    "Mat": lambda: fm.Mat(),
    "Mat(0)": lambda: fm.Mat(0),
    "Mat(Mat())": lambda: fm.Mat(fm.Mat()),
    "Net": lambda: fm.Net(),
    "Net(Mat())": lambda: fm.Net(fm.Mat()),
    "Net(net=Net())": lambda: fm.Net(net=fm.Net()),
    "Stack": lambda: fm.Stack(),
    "Stack(Mat())": lambda: fm.Stack(fm.Mat()),
    "Stack(Mat(), Net())": lambda: fm.Stack(fm.Mat(), fm.Net()),
    "Mesh": lambda: fm.Mesh(),
    "Mesh(Net())": lambda: fm.Mesh(fm.Net()),
    "Mesh(Stack())": lambda: fm.Mesh(fm.Stack()),
    "Mesh(Mesh())": lambda: fm.Mesh(fm.Mesh()),
}
COLUMNS = {"Mat": list("lbhxyzuvwGE"), "Net": ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"],
           "Mesh": ["fiber", "s", "x", "y", "z", "beam", "constraint"]}
COLUMNS["Stack"] = COLUMNS["Net"]


@st.composite
def empties(draw):
    return {"what": draw(st.sampled_from(sorted(EMPTY) + ["chain"])),
            "size": draw(st.sampled_from([50.0, 1, 20.0])), "length": draw(st.sampled_from([1.0, 25, 80.0])),
            "psi": draw(st.sampled_from([0.0, 1.0])), "tensile": draw(st.sampled_from(["inf", 10.0])),
            "seed": draw(st.one_of(st.none(), st.integers(0, 9))),
            "periodic": draw(st.booleans()), "threshold": draw(st.sampled_from([None, 0.0, 5.0]))}


def empty(c):
    def isempty(o, cls):
        require(isinstance(o, getattr(fm, cls)), "{} is not a {}", type(o), cls)
        require(len(o) == 0, "{} is not empty: {}", cls, len(o))
        require(set(COLUMNS[cls]) <= set(o.columns), "{} has columns {}", cls, list(o.columns))
        require(o.attrs.get("n") == 0, "attributes of {}: {}", cls, o.attrs)
        require(getattr(fm, cls).check(o), "empty {} does not pass its check", cls)

    if c["what"] != "chain":
        isempty(EMPTY[c["what"]](), c["what"].split("(")[0])
        return True, [c["what"]]
    mat = fm.Mat(0, **kwargs(c, "size", "length", "psi", "tensile", "seed"))
    isempty(mat, "Mat")
    require(mat.attrs["size"] == c["size"], "size {}", mat.attrs)
    net = fm.Net(mat, periodic=c["periodic"])
    isempty(net, "Net")
    stack = fm.Stack(mat, net, threshold=c["threshold"])
    isempty(stack, "Stack")
    mesh = fm.Mesh(stack)
    isempty(mesh, "Mesh")
    for o in (net, stack, mesh):
        require(o.attrs["size"] == c["size"] and o.attrs["periodic"] == c["periodic"], "attributes {}", o.attrs)
    require(fm.vtk_mat(mat, verbose=False).n_points == 0, "points exported from an empty mat")
    require(fm.vtk_mesh(mat, mesh, verbose=False).n_points == 0, "points exported from an empty mesh")
    return True, ["chain"]


def subs():
    return [Sub("runs", runs(), run, 40, 600,
                "end-to-end runs over valid parameters; non-trivial: at least two fibers are connected"),
            Sub("empty", empties(), empty, 15, 60, "constructors without arguments and chains from an empty mat")]
