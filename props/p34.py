"""P34: exported meshes survive files."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import gens
import sut
from common import Sub, Violation, load_sut, require

fm = load_sut()
PLAIN = {"fiber", "lbh", "xyz", "uvw", "G", "E"}
NODAL = {"displacement", "rotation", "curvature", "force"}


@st.composite
def cases(draw):
    c = draw(gens.fibers(nmin=1, nmax=6, planar=True, lfrac=(300, 1000), moduli=True))
    c["what"] = draw(st.sampled_from(["fiber", "mat", "mesh", "mesh", "solved", "solved"]))
    c["periodic"] = draw(st.booleans())
    c["fields"] = draw(st.sampled_from(["none", "u", "u,r", "f", "u,r,f", "u,r,f,m"]))
    c["format"] = draw(st.sampled_from(["vtk", "vtk", "xml"]))
    c["noise"] = draw(st.integers(0, 2 ** 31 - 1))
    c["packing"] = draw(st.sampled_from([1.2, 2.0, 4.0]))
    return c


def export(c):
    """The exported object and the names of the fields it has to carry."""
    mat = gens.make_mat(fm, c)
    if c["what"] == "fiber":
        r = mat.iloc[0]
        return fm.vtk_fiber(r.l, r.b, r.h, r.x, r.y, r.z, r.u, r.v, r.w), set()
    if c["what"] == "mat":
        return fm.vtk_mat(mat, verbose=False), PLAIN
    net = fm.Net(mat, periodic=c["periodic"])
    mesh = fm.Mesh(fm.Stack(mat, net))
    m = sut.mesh(mesh)
    if np.any((np.diff(m.s) < 1e-6 * c["size"]) & (np.diff(m.fiber) == 0)):
        return None, None
    if c["what"] == "solved":
        # as in the documentation
        K, C, u, f, F, H, Z, rl, mask, err = fm.solve(mat, mesh, packing=c["packing"], itermax=20,
                                                      lmin=0.01 * c["size"] / 50, coupling=0.99, verbose=False)
        return fm.vtk_mesh(mat, mesh, *u(1).reshape(-1, 2).T, *(f(1) @ C).reshape(-1, 2).T, verbose=False), PLAIN | NODAL
    rng = np.random.RandomState(c["noise"])
    has = c["fields"].split(",")
    N = len(m.s)
    kw, names = {}, set(PLAIN)
    if "u" in has:
        kw["displacement"] = rng.uniform(-1, 1, N)
        names |= NODAL - {"force"}
    if "r" in has:
        kw["rotation"] = rng.uniform(-1, 1, N)
    if "f" in has:
        kw["force"] = rng.uniform(-1, 1, N)
        names.add("force")
    if "m" in has:
        kw["moment"] = np.zeros(N)
    return fm.vtk_mesh(mat, mesh, verbose=False, **kw), names


def cells(msh):
    """Cells as lists of points, whatever the kind of grid."""
    return [tuple(msh.get_cell(k).point_ids) for k in range(msh.n_cells)]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def roundtrip(c):
    import pyvista
    msh, names = export(c)
    if msh is None:
        return False, ["coincident nodes"]
    for n in names:
        require(n in msh.point_data, "field {!r} is missing from the points of the export", n)
    require(np.isfinite(np.asarray(msh.points)), "points are not finite")
    kind = type(msh).__name__
    ext = "vtk" if c["format"] == "vtk" else {"UnstructuredGrid": "vtu", "StructuredGrid": "vts", "PolyData": "vtp"}.get(kind, "vtk")
    with tempfile.TemporaryDirectory(prefix="verif-p34-") as tmp:
        path = os.path.join(tmp, "msh." + ext)
        try:
            msh.save(path)
        except Exception as e:
            raise Violation("the export (%s) cannot be saved: %s: %s" % (kind, type(e).__name__, str(e)[:200]))
        back = pyvista.read(path)
    require(type(back).__name__ == kind, "saved as a {}, read as a {}", kind, type(back).__name__)
    require(same(back.points, msh.points), "points change through a file")
    require(back.n_cells == msh.n_cells, "{} cells, {} once read", msh.n_cells, back.n_cells)
    step = max(1, msh.n_cells // 40)
    for k in range(0, msh.n_cells, step):
        require(list(back.get_cell(k).point_ids) == list(msh.get_cell(k).point_ids), "cell {} changes through a file", k)
    for n in names:
        require(n in back.point_data, "field {!r} is lost", n)
        require(same(back.point_data[n], msh.point_data[n]), "field {!r} changes through a file", n)
    if names:
        # what post-processing relies on: labels select fibers
        lab = np.asarray(back.point_data["fiber"], dtype=float)
        fib = np.unique(np.round(lab).astype(int))
        require(np.abs(lab - np.round(lab)) < 1e-6, "fiber labels are not whole numbers")
        require(set(fib.tolist()) <= set(range(len(c["fibers"]))), "fiber labels {}", fib)
        E = np.asarray(back.point_data["E"], dtype=float)
        for k in fib:
            e = c["fibers"][k][9]
            v = E[np.round(lab) == k]
            require(np.isinf(v) if e == "inf" else np.abs(v - e) <= 1e-5 * e, "tensile modulus of fiber {}: {}", k, v[:3])
    return msh.n_cells > 0, [c["what"], ext, "periodic" if c["periodic"] else "bounded"] + ["fields:" + c["fields"]] * (c["what"] == "mesh")


@st.composite
def many(draw):
    return {"n": draw(st.integers(120, 420)), "seed": draw(st.integers(0, 10 ** 6)),
            "length": draw(st.sampled_from([3.0, 10.0])), "what": draw(st.sampled_from(["mat", "mesh"])),
            "periodic": draw(st.sampled_from([False, False, True]))}


def labels(c):
    """Hundreds of fibers: labels read back from the file are those of the mat."""
    import pyvista
    mat = fm.Mat(c["n"], length=c["length"], size=50.0, seed=c["seed"])
    mat["E"] = 1.0 + np.arange(c["n"])
    x, y = mat.x.values, mat.y.values
    kw = dict(verbose=False, theta_resolution=4, z_resolution=2)
    if c["what"] == "mat":
        msh = fm.vtk_mat(mat, **kw)
    else:
        mesh = fm.Mesh(fm.Net(mat, periodic=c["periodic"]))
        m = sut.mesh(mesh)
        if np.any((np.diff(m.s) < 5e-5) & (np.diff(m.fiber) == 0)):
            return False, ["coincident nodes"]
        msh = fm.vtk_mesh(mat, mesh, **kw)
    with tempfile.TemporaryDirectory(prefix="verif-p34-") as tmp:
        path = os.path.join(tmp, "msh.vtk")
        msh.save(path)
        back = pyvista.read(path)
    lab = np.asarray(back.point_data["fiber"], dtype=float)
    require(lab == np.round(lab), "fiber labels are not whole numbers")
    lab = lab.astype(int)
    require(set(lab.tolist()) == set(range(c["n"])), "exported fibers: {} to {}, {} of {}", lab.min(), lab.max(),
            len(set(lab.tolist())), c["n"])
    require(np.abs(np.asarray(back.point_data["E"]) - 1 - lab) <= 1e-4 * (1 + lab), "moduli do not follow the labels")
    if not (c["periodic"] and c["what"] == "mesh"):
        p = np.asarray(back.points)
        d = np.hypot(p[:, 0] - x[lab], p[:, 1] - y[lab])
        require(d <= c["length"] / 2 + 1.0, "points labelled {} are {} away from that fiber", lab[int(d.argmax())], d.max())
    return True, [c["what"], "n>=256" if c["n"] >= 256 else "n<256"]


def subs():
    return [Sub("files", cases(), roundtrip, 40, 600,
                "exports of fibers, mats, meshes and solved meshes written to a scratch folder and read back; "
                "non-trivial: at least one cell"),
            Sub("many", many(), labels, 2, 60, "exports of 120 to 420 fibers, written and read back", scale=False)]
