"""P28: exported deformed meshes."""
import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require
from props import mech
from props.p27 import field

fm = load_sut()
BASE = {"fiber": None, "lbh": 3, "xyz": 3, "uvw": 3, "G": None, "E": None}


@st.composite
def cases(draw):
    c = draw(gens.fibers(nmin=1, nmax=draw(st.sampled_from([6, 6, 6, 16])), planar=True, lfrac=(300, 1000), moduli=True))
    c["stack"] = draw(st.booleans())
    c["fields"] = draw(st.sampled_from(["none", "u", "u,r", "u,r", "u,r", "f", "f,m", "u,r,f", "u,r,f,m"]))
    c["shape"] = draw(st.sampled_from(["random", "random", "steep", "steep", "tilt", "parabola", "cubic", "lift", "zeros", "rest"]))
    c["noise"] = draw(st.integers(0, 2 ** 31 - 1))
    c["res"] = draw(st.sampled_from([None, None, 2, 9, 41]))
    return c


def geometry(c):
    mat = gens.make_mat(fm, c)
    net = fm.Net(mat, periodic=False)
    if c["stack"]:
        net = fm.Stack(mat, net)
    return mat, fm.Mesh(net)


def nodal_fields(c, m, fibers):
    rng = np.random.RandomState(c["noise"])
    N = len(m.s)
    if c["shape"] == "steep":
        return rng.uniform(-1, 1, N), rng.uniform(-6, 6, N), None
    if c["shape"] == "random":
        return rng.uniform(-1, 1, N), rng.uniform(-0.2, 0.2, N), None
    if c["shape"] in ("zeros", "rest"):
        u, r = rng.uniform(-1, 1, N), rng.uniform(-0.2, 0.2, N)
        keep = (0.5 if c["shape"] == "zeros" else -1)
        return np.where(rng.uniform(0, 1, N) < keep, u, 0.0), np.where(rng.uniform(0, 1, N) < keep, r, 0.0), None
    # a polynomial of degree <= 3 per fiber
    deg = {"lift": 0, "tilt": 1, "parabola": 2, "cubic": 3}[c["shape"]]
    L = np.abs(m.s).max()
    co = rng.uniform(-1, 1, (fibers, deg + 1))
    u = np.array([np.polyval(co[f], s / L) for f, s in zip(m.fiber, m.s)])
    r = np.array([np.polyval(np.polyder(co[f]), s / L) / L if deg else 0.0 for f, s in zip(m.fiber, m.s)])
    return u, r, (co, L)


def bracket(val, samples, scale, what):
    """val within the range of the reference over the location uncertainty (end sections are
    sampled slightly inside the fiber)."""
    lo, hi = min(samples), max(samples)
    t = 1e-6 * scale + 1e-12
    if not lo - t <= val <= hi + t:
        require(False, "{}: {} instead of {}", what, val, samples[0])


def deformed(c):
    mat, mesh = geometry(c)
    m = sut.mesh(mesh)
    nf = len(c["fibers"])
    if np.any((np.diff(m.s) < 1e-6 * c["size"]) & (np.diff(m.fiber) == 0)):
        return False, ["coincident nodes"]
    N = len(m.s)
    u, r, poly = nodal_fields(c, m, nf)
    has = c["fields"].split(",")
    rng = np.random.RandomState(c["noise"] + 1)
    F = rng.uniform(-5, 5, N)
    kw = {}
    if "u" in has:
        kw["displacement"] = u.copy()
        if "r" in has:
            kw["rotation"] = r.copy()
        else:
            r = np.zeros(N)
    if "f" in has:
        kw["force"] = F.copy()
        if "m" in has:
            kw["moment"] = np.zeros(N)
    opt = {} if c["res"] is None else {"z_resolution": c["res"]}
    base = fm.vtk_mat(mat, verbose=False, **opt)
    msh = fm.vtk_mesh(mat, mesh, verbose=False, **kw, **opt)
    P0, P1 = np.asarray(base.points, dtype=float), np.asarray(msh.points, dtype=float)
    require(P0.shape == P1.shape and base.n_cells == msh.n_cells, "the export has {} points and {} cells; the mat {} and {}",
            len(P1), msh.n_cells, len(P0), base.n_cells)
    for name, w in BASE.items():
        require(np.array_equal(field(msh, name, w), field(base, name, w)), "field {!r} differs from that of the mat", name)
    for name, on in (("displacement", "u" in has), ("rotation", "u" in has), ("curvature", "u" in has), ("force", "f" in has)):
        require((name in msh.array_names) == on, "field {!r} is {}", name, "missing" if on else "unexpected")
    eps = 1e-5 * c["size"]
    lab, xyz = field(msh, "fiber").astype(int), field(msh, "xyz", 3)
    if "u" in has:
        D, R, Q = field(msh, "displacement", 3), field(msh, "rotation"), field(msh, "curvature")
        require(D[:, :2] == 0, "horizontal displacements")
        require(np.abs(P1 - P0 - D) < eps, "points are not moved by the displacement field")
    else:
        require(np.abs(P1 - P0) < eps, "points move without displacement")
    if "f" in has:
        FF = field(msh, "force")
    done = {}
    for k in range(len(lab)):
        key = (lab[k], round(xyz[k, 0], 9))
        if key in done:
            # same section, same values
            j = done[key]
            if "u" in has:
                require(abs(D[k, 2] - D[j, 2]) < 1e-9 and abs(R[k] - R[j]) < 1e-9 and abs(Q[k] - Q[j]) < 1e-6 * max(1, abs(Q[k])),
                        "values differ within a section of fiber {}", lab[k])
            continue
        done[key] = k
        nodes = np.flatnonzero(m.fiber == lab[k])
        s = m.s[nodes]
        x1 = xyz[k, 0]
        xs = np.linspace(x1, 0.9998 * x1, 7)
        ref_ = [[], [], [], []]
        for x in xs:
            x = min(max(x, s[0]), s[-1])
            for e in {max(0, min(np.searchsorted(s, x + d) - 1, len(s) - 2)) for d in (-1e-6, 1e-6)}:
                v = ref.hermite((s[e], s[e + 1]), (u[nodes[e]], u[nodes[e + 1]]), (r[nodes[e]], r[nodes[e + 1]]), x)
                for a, b in zip(ref_, v):
                    a.append(b)
                ref_[3] += [F[nodes[e]], F[nodes[e + 1]]]
        what = "fiber %d, abscissa %g" % (lab[k], x1)
        le = np.diff(s).min()
        if "u" in has:
            um, rm = np.abs(u[nodes]).max(), np.abs(r[nodes]).max()
            bracket(D[k, 2], ref_[0], um + rm, "displacement of " + what)
            bracket(R[k], ref_[1], rm + um / le, "rotation of " + what)
            bracket(Q[k], ref_[2], rm / le + um / le ** 2, "curvature of " + what)
            if poly is not None and "r" in has:
                co, L = poly
                co = co[lab[k]]
                slack = 3e-4 * np.abs(co).sum() * len(co) ** 2
                require(abs(D[k, 2] - np.polyval(co, x1 / L)) <= slack, "{}: {} instead of {} (polynomial displacement)", what, D[k, 2], np.polyval(co, x1 / L))
                if len(co) > 1 and len(co) < 4:
                    d1 = np.polyval(np.polyder(co), x1 / L) / L
                    require(abs(R[k] - d1) <= slack / L + 1e-9, "{}: slope {} instead of {}", what, R[k], d1)
        if "f" in has:
            lo, hi = min(ref_[3]), max(ref_[3])
            require(lo - 1e-6 <= FF[k] <= hi + 1e-6, "force of {}: {} is not between {} and {}", what, FF[k], lo, hi)
            j = int(np.argmin(np.abs(s - x1)))
            near = np.abs(s - x1)[j]
            le = min(np.diff(s)[max(j - 1, 0)], np.diff(s)[min(j, len(s) - 2)])
            if near < 1e-6 * le and abs(x1) * 2e-4 < 1e-3 * le:
                require(abs(FF[k] - F[nodes[j]]) < 0.2, "force of {}: {} instead of the nodal value {}", what, FF[k], F[nodes[j]])
    return len(m.s) > 2 * nf and has != ["none"], ["fields:" + c["fields"], "shape:" + c["shape"]]


def subs():
    return [Sub("fields", cases(), deformed, 40, 800,
                "bounded meshes with generated nodal fields; non-trivial: at least one crossing and one field")]
