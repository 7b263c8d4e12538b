"""P27: exported fibers."""
import math

import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, Violation, load_sut, require

fm = load_sut()
TOL = 1e-5


def frame(u, v, w):
    """Length, width (horizontal) and thickness directions; None for the width of a vertical fiber."""
    e1 = np.array([u, v, w], dtype=float)
    e1 /= np.linalg.norm(e1)
    p = math.hypot(e1[0], e1[1])
    if p < 1e-9:
        return e1, None, None
    e2 = np.array([-e1[1], e1[0], 0]) / p
    return e1, e2, np.cross(e1, e2)


def field(msh, name, width=None):
    require(name in msh.array_names, "field {!r} is missing", name)
    a = np.asarray(msh[name], dtype=float)
    n = msh.n_points
    require(a.shape == ((n,) if width is None else (n, width)), "field {!r} has shape {}", name, a.shape)
    return a


def cylinder(pts, l, b, h, c, d, res, what, local=None):
    """Points of an elliptic cylinder with the resolutions (r, theta, z).

    Even angular resolutions only: pyvista centres its cylinders by their bounding box, which is
    off axis for odd ones.
    """
    r_res, t_res, z_res = res
    pts = np.asarray(pts, dtype=float)
    require(np.isfinite(pts), "{}: undefined points", what)
    e1, e2, e3 = frame(*d)
    q = pts - np.asarray(c)
    eps = TOL * (l + b + h + np.abs(c).max())
    s = q @ e1
    require(abs(s.min() + l / 2) < eps and abs(s.max() - l / 2) < eps, "{}: extends from {} to {} along its length {}",
            what, s.min(), s.max(), l)
    lev = np.linspace(-l / 2, l / 2, z_res)
    require(np.abs(s[:, None] - lev).min(axis=1) < eps, "{}: points are not equally spaced along the length", what)
    require(np.abs(s[:, None] - lev).min(axis=0) < eps, "{}: sections are missing along the length", what)
    if e2 is None:
        # any horizontal orientation of the section
        r = np.linalg.norm(q - np.outer(s, e1), axis=1)
        require(abs(r.max() - max(b, h) / 2) < 0.35 * max(b, h) / 2, "{}: section of radius {}", what, r.max())
        require(r <= max(b, h) / 2 + eps, "{}: section of radius {}", what, r.max())
        if local is not None:
            require(np.abs(local[:, 0] - s) < eps, "{}: local abscissae", what)
        return
    y, z = q @ e2, q @ e3
    k = min(b, h)
    rho = np.hypot(2 * y / b, 2 * z / h)
    rings = np.arange(r_res + 1) / r_res
    e = eps / k * 4
    require(np.abs(rho[:, None] - rings).min(axis=1) < e, "{}: points off the elliptic rings ({})", what, rho.max())
    require(np.abs(rho[:, None] - rings).min(axis=0) < e, "{}: rings are missing", what)
    out = rho > 1 - 0.5 / r_res
    ang = np.arctan2(2 * z[out] / h, 2 * y[out] / b)
    if e < 0.01:
        a = np.sort(np.unique(np.round(np.mod(ang, 2 * math.pi), 3) % 6.283))
        gaps = np.diff(np.r_[a, a[0] + 2 * math.pi])
        require(gaps.max() <= 2 * math.pi / t_res + 0.01, "{}: the section is open over an angle of {}", what, gaps.max())
        require(np.sum(gaps > 0.02) == t_res, "{}: {} points around the section instead of {}", what, np.sum(gaps > 0.02), t_res)
    require(np.abs(y).max() <= b / 2 + eps and np.abs(z).max() <= h / 2 + eps, "{}: section too large", what)
    if local is not None:
        require(np.abs(local[:, 0] - s) < eps, "{}: local abscissae differ from positions", what)
        for v, g, name in ((local[:, 1], y, "width"), (local[:, 2], z, "thickness")):
            require(np.abs(v - g).max() < eps or np.abs(v + g).max() < eps, "{}: local coordinates differ along the {}", what, name)


@st.composite
def one(draw):
    k = draw(st.integers(0, 5))
    return {"l": draw(st.sampled_from([1.0, 5.0, 25.0, 60.0, 2.5])), "b": draw(st.sampled_from(gens.DIMS)),
            "h": draw(st.sampled_from(gens.DIMS)), "c": [draw(st.integers(-400, 400)) / 8 for _ in range(3)],
            "p": draw(gens.angle()), "q": draw(st.integers(-250, 250)) if k else draw(st.sampled_from([0, 250, -250])),
            "index": draw(st.sampled_from([None, 0, 3, 17])), "G": draw(st.sampled_from([1.0, 2.5])),
            "E": draw(st.sampled_from(["inf", 10.0, 2500.0])),
            "res": [draw(st.integers(1, 3)), draw(st.sampled_from([6, 8, 10, 12])), draw(st.integers(2, 25))]}


def fiber(c):
    t, p = math.pi * c["p"] / gens.NANG, math.pi * c["q"] / gens.NANG
    d = [math.cos(t) * math.cos(p), math.sin(t) * math.cos(p), math.sin(p)]
    if abs(c["q"]) == 250:
        d = [0.0, 0.0, math.copysign(1.0, c["q"])]
    E = np.inf if c["E"] == "inf" else c["E"]
    kw = dict(zip(("r_resolution", "theta_resolution", "z_resolution"), c["res"]))
    msh = fm.vtk_fiber(c["l"], c["b"], c["h"], *c["c"], *d, c["G"], E, index=c["index"], **kw)
    local = None
    if c["index"] is not None:
        local = field(msh, "xyz", 3)
        require(field(msh, "fiber") == c["index"], "fiber label")
        require(np.abs(field(msh, "lbh", 3) - [c["l"], c["b"], c["h"]]) < 1e-6, "fiber dimensions")
        require(np.abs(field(msh, "uvw", 3) - d) < 1e-6, "fiber direction")
        require(field(msh, "G") == c["G"], "shear modulus")
        require(field(msh, "E") == E, "tensile modulus")
    cylinder(msh.points, c["l"], c["b"], c["h"], c["c"], d, c["res"], "fiber", local)
    vol = c["l"] * c["b"] * c["h"] * math.pi / 4
    n = c["res"][1]
    low = n / (2 * math.pi) * math.sin(2 * math.pi / n)
    require(0.999 * low * vol <= abs(msh.volume) <= 1.0001 * vol, "volume {} of a cylinder of {}", msh.volume, vol)
    return c["q"] != 0 or c["p"] != 0, ["inclined" if c["q"] else "planar", "plain" if c["index"] is None else "labelled"]


NAMES = ["length", "width", "thickness", "x", "y", "z", "u", "v", "w", "shear", "tensile"]
DEFAULT = [25.0, 1.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0, np.inf]


@st.composite
def partial(draw):
    c = draw(one())
    c["given"] = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=6))
    c["resolution"] = draw(st.booleans())
    return c


def omitted(c):
    """Parameters that are not given have their documented default values."""
    t = math.pi * c["p"] / gens.NANG
    val = [c["l"], c["b"], c["h"], *c["c"], math.cos(t), math.sin(t), c["q"] / 250, c["G"], np.inf if c["E"] == "inf" else c["E"]]
    kw = {k: v for k, v in zip(NAMES, val) if k in c["given"]}
    full = [kw.get(k, d) for k, d in zip(NAMES, DEFAULT)]
    if np.linalg.norm(full[6:9]) < 1e-3:
        return False, ["no direction"]
    res = c["res"] if c["resolution"] else [1, 8, 20]
    if c["resolution"]:
        kw.update(zip(("r_resolution", "theta_resolution", "z_resolution"), c["res"]))
    msh = fm.vtk_fiber(**kw) if c["index"] is None else fm.vtk_fiber(**kw, index=c["index"])
    l, b, h = full[:3]
    d = np.array(full[6:9]) / np.linalg.norm(full[6:9])
    cylinder(msh.points, l, b, h, full[3:6], d, res, "fiber with default %s" % [k for k in NAMES if k not in kw])
    if c["index"] is not None:
        require(field(msh, "fiber") == c["index"], "fiber label")
        require(np.abs(field(msh, "lbh", 3) - full[:3]) < 1e-6, "fiber dimensions")
        require(field(msh, "G") == full[9], "shear modulus")
        require(field(msh, "E") == full[10], "tensile modulus")
    else:
        require("fiber" not in msh.array_names, "a fiber without label has a field of labels")
    return len(kw) > 0, ["%d given" % len(c["given"])]


@st.composite
def mats(draw):
    c = draw(gens.fibers(nmin=0, nmax=6, planar=draw(st.booleans()), moduli=True))
    c["func"] = draw(st.booleans())
    c["res"] = [draw(st.integers(1, 2)), draw(st.sampled_from([6, 8])), draw(st.integers(2, 12))] if draw(st.booleans()) else None
    return c


def mat(c):
    T = gens.table(c)
    m = gens.make_mat(fm, c)
    calls = []

    def func(msh, i):
        calls.append((i, msh.n_points, np.unique(np.asarray(msh["fiber"])).tolist()))
        msh["mine"] = np.full(msh.n_points, 100.0 + i)

    kw = {} if c["res"] is None else dict(zip(("r_resolution", "theta_resolution", "z_resolution"), c["res"]))
    if c["func"]:
        kw["func"] = func
    msh = fm.vtk_mat(m, verbose=False, **kw)
    if not len(T):
        require(msh.n_points == 0, "the export of an empty mat has {} points", msh.n_points)
        return False, ["empty"]
    lab = field(msh, "fiber")
    lbh, xyz, uvw = field(msh, "lbh", 3), field(msh, "xyz", 3), field(msh, "uvw", 3)
    G, E = field(msh, "G"), field(msh, "E")
    require(set(lab.tolist()) == set(range(len(T))), "fibers of the export: {}", sorted(set(lab.tolist())))
    res = c["res"] or [1, 8, 20]
    pts = np.asarray(msh.points)
    for i in range(len(T)):
        k = lab == i
        l, b, h = T[i, :3]
        require(np.abs(lbh[k] - T[i, :3]) < 1e-6, "dimensions of fiber {}", i)
        require(np.abs(uvw[k] - T[i, 6:9]) < 1e-6, "direction of fiber {}", i)
        require(G[k] == T[i, 9], "shear modulus of fiber {}", i)
        require(E[k] == T[i, 10], "tensile modulus of fiber {}", i)
        cylinder(pts[k], l, b, h, T[i, 3:6], T[i, 6:9], res, "fiber %d" % i, xyz[k])
    if c["func"]:
        require(sorted(int(x[0]) for x in calls) == list(range(len(T))), "function called for fibers {}", [x[0] for x in calls])
        for i, n, f in calls:
            require(f == [i], "function called for fiber {} with the shape of fiber {}", i, f)
        require(np.abs(field(msh, "mine") - 100 - lab) < 1e-9, "field of the user function")
    sep = [fm.vtk_fiber(*T[i], **{k: v for k, v in kw.items() if k != "func"}) for i in range(len(T))]
    require(msh.n_cells == sum(s.n_cells for s in sep), "{} cells", msh.n_cells)
    return len(T) >= 2, ["func" if c["func"] else "plain"]


@st.composite
def many(draw):
    c = draw(gens.fibers(nmin=2, nmax=6, planar=draw(st.booleans()), moduli=True))
    c["func"] = False
    c["res"] = [1, 6, 2]
    rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
    n = draw(st.sampled_from([140, 258, 270, 300]))
    rows = [list(c["fibers"][int(k)]) for k in rng.randint(0, len(c["fibers"]), n)]
    for r in rows:
        for k in (3, 4, 5):
            r[k] = int(rng.randint(-500, 501))
    c["fibers"] = rows
    return c


def subs():
    return [
        Sub("fiber", one(), fiber, 80, 2000, "one fiber of any direction; non-trivial: not along x"),
        Sub("omitted", partial(), omitted, 40, 500, "one fiber with some parameters left out; non-trivial: some are given"),
        Sub("mat", mats(), mat, 25, 500, "mats of 0 to 6 fibers; non-trivial: at least two fibers"),
        Sub("large", many(), mat, 2, 20, "mats of 140 to 300 fibers", scale=False),
    ]
