"""P01: domain of generated mats."""
import math

import numpy as np
from hypothesis import strategies as st

import sut
from common import Sub, load_sut, require

fm = load_sut()

POSITIVE = st.one_of(st.sampled_from([1e-3, 0.1, 0.5, 1.0, 2.0, 25.0, 1e3, 2500.5]),
                     st.integers(1, 1000),
                     st.floats(1e-3, 1e3, allow_nan=False))


@st.composite
def params(draw):
    p = {"n": draw(st.one_of(st.integers(0, 5), st.integers(0, 60)))}
    opt = {
        "length": POSITIVE, "width": POSITIVE, "thickness": POSITIVE, "size": POSITIVE,
        "theta": st.one_of(st.sampled_from([0.0, math.pi, math.pi / 2, 0.1, 1, 2]), st.floats(0, math.pi)),
        "psi": st.one_of(st.sampled_from([0.0, math.pi, math.pi / 2, 0.1, 1, 2]), st.floats(0, math.pi)),
        "shear": st.one_of(POSITIVE, st.just("inf")),
        "tensile": st.one_of(POSITIVE, st.just("inf")),
        "seed": st.one_of(st.integers(0, 20), st.integers(0, 2 ** 32 - 1)),
    }
    for k, s in opt.items():
        if draw(st.integers(0, 3)) > 0:
            p[k] = draw(s)
    p["call"] = draw(st.sampled_from(["Mat", "init", "positional", "extra"]))
    return p


DEFAULTS = dict(length=25., width=1., thickness=1., size=50., theta=math.pi, psi=0.,
                shear=1., tensile=math.inf)


def build(case):
    kw = {k: (math.inf if v == "inf" else v) for k, v in case.items() if k != "call"}
    call = case["call"]
    if call == "Mat":
        return fm.Mat(**kw)
    if call == "init":
        return fm.Mat.init(**kw)
    if call == "positional":
        n = kw.pop("n")
        return fm.Mat(n, **kw)
    # additional keyword arguments are documented as ignored
    return fm.Mat(periodic=True, packing=3.0, **kw)


def check(case):
    mat = build(case)
    d = sut.mat(mat, "Mat")
    n = case["n"]
    q = dict(DEFAULTS)
    q.update({k: (math.inf if v == "inf" else v) for k, v in case.items()})
    require(len(mat) == n, "{} fibers instead of {}", len(mat), n)
    require(list(mat.index) == list(range(n)), "labels are not 0..n-1: {}", list(mat.index)[:10])
    require(mat.attrs.get("n") == n, "attribute n is {!r}", mat.attrs.get("n"))
    require(isinstance(mat.attrs.get("size"), (int, float, np.integer, np.floating))
            and float(mat.attrs["size"]) == float(q["size"]), "attribute size is {!r}", mat.attrs.get("size"))
    for col, name in zip("lbhGE", ["length", "width", "thickness", "shear", "tensile"]):
        require(d[col] == q[name], "column {} is {} instead of {}", col, d[col], q[name])
    half = 0.5 * q["size"]
    for c in "xyz":
        require(np.abs(d[c]) <= half * (1 + 1e-12), "{} out of the box: {}", c, d[c])
    require(np.diff(d["z"]) >= 0, "z is not increasing: {}", d["z"])
    U = np.c_[d["u"], d["v"], d["w"]]
    require(np.abs(np.sum(U ** 2, axis=1) - 1) < 1e-9, "directions are not unit vectors")
    out = np.arcsin(np.clip(d["w"], -1, 1))
    require(np.abs(out) <= 0.5 * q["psi"] + 1e-7, "out-of-plane angles {} beyond psi/2 = {}", out, q["psi"] / 2)
    flat = np.hypot(d["u"], d["v"])
    ok = flat > 1e-6
    ang = np.arctan2(d["v"], d["u"])
    require(np.abs(ang[ok]) <= 0.5 * q["theta"] + 1e-9 + 1e-9 / flat[ok],
            "in-plane angles {} beyond theta/2 = {}", ang, q["theta"] / 2)
    # self check of the object
    require(fm.Mat.check(mat) is True, "the generated mat does not pass its own check")
    labels = ["n=0" if n == 0 else "n>0"]
    labels += [k for k in ("psi", "theta", "tensile") if k in case]
    return n > 0 and len(case) > 3, labels


def subs():
    return [Sub("domain", params(), check, 150, 2500,
                "random Mat parameters (each possibly left at its default, extra keywords, Mat / "
                "Mat.init); non-trivial: n > 0 and at least two non-default parameters")]
