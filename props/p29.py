"""P29: periodic export."""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

import gens
import ref
import sut
from common import Sub, load_sut, require
from props.p27 import field, frame

fm = load_sut()
SHIFTS = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]


@st.composite
def cases(draw):
    c = draw(gens.fibers(nmin=1, nmax=draw(st.sampled_from([5, 5, 5, 5, 18])), planar=True, lfrac=(200, 1000), moduli=True))
    c["stack"] = draw(st.booleans())
    c["deform"] = draw(st.booleans())
    c["noise"] = draw(st.integers(0, 2 ** 31 - 1))
    return c


def periodic(c):
    S = c["size"]
    mat = gens.make_mat(fm, c)
    net = fm.Net(mat, periodic=True)
    if c["stack"]:
        net = fm.Stack(mat, net)
    mesh = fm.Mesh(net)
    N = len(mesh)
    T = np.stack([sut.mat(mat)[k] for k in "lbhxyzuvwGE"], axis=1)
    rng = np.random.RandomState(c["noise"])
    kw = {}
    m = sut.mesh(mesh)
    if np.any((np.diff(m.s) < 1e-6 * S) & (np.diff(m.fiber) == 0)):
        return False, ["coincident nodes"]
    if c["deform"]:
        # moderate rigid and parabolic motions, so that shapes stay simple
        co = rng.uniform(-1, 1, (len(T), 2))
        kw = {"displacement": np.array([co[f, 0] + co[f, 1] * s / S for f, s in zip(m.fiber, m.s)]),
              "rotation": np.array([co[f, 1] / S for f in m.fiber]),
              "force": rng.uniform(-1, 1, N)}
    msh = fm.vtk_mesh(mat, mesh, verbose=False, **{k: v.copy() for k, v in kw.items()})
    alone = fm.Mesh(mesh)
    alone.attrs = dict(mesh.attrs, periodic=False)
    base = fm.vtk_mesh(mat, alone, verbose=False, **kw)
    eps = 1e-5 * S
    P, B = np.asarray(msh.points, dtype=float), np.asarray(base.points, dtype=float)
    require(P.shape[0] > 0, "the export has no point")
    require(np.abs(P[:, :2]) <= S * (1 + 1e-6) + eps, "a point lies outside of twice the box: {}", np.abs(P[:, :2]).max())
    names = [n for n in base.array_names if n in ("fiber", "lbh", "xyz", "uvw", "G", "E", "displacement", "rotation", "curvature", "force")]
    for n in names:
        require(n in msh.array_names, "field {!r} is missing", n)
    # 1. every image point inside the region is there, with its data
    tree = cKDTree(P)
    inside_all = 0
    labB = field(base, "fiber").astype(int)
    labP = np.asarray(msh["fiber"], dtype=float)
    for a, b in SHIFTS:
        Q = B + np.array([a * S, b * S, 0.0])
        inside = np.all(np.abs(Q[:, :2]) < S - 10 * eps, axis=1)
        inside_all += inside.sum()
        if not inside.any():
            continue
        d, k = tree.query(Q[inside])
        require(d < 5 * eps, "the image of fiber {} by ({}, {}) is missing", labB[inside][int(np.argmax(d))], a, b)
    # same number of points of each fiber at each place (images are not repeated)
    # 2. every point belongs to an image of its fiber
    fib = np.round(labP).astype(int)
    near = np.abs(labP - fib) < 1e-6
    require(near & (fib >= 0) & (fib < len(T)), "points with fiber labels {}", labP[~near][:3])
    xyz = np.asarray(msh["xyz"], dtype=float)
    D = np.asarray(msh["displacement"], dtype=float) if c["deform"] else np.zeros_like(P)
    images = {}
    for f in range(len(T)):
        k = np.flatnonzero(fib == f)
        e1, e2, e3 = frame(*T[f, 6:9])
        # sign of the local axes, from the bounded export
        kb = labB == f
        XB = np.asarray(base["xyz"], dtype=float)[kb]
        DB = np.asarray(base["displacement"], dtype=float)[kb] if c["deform"] else 0
        best = None
        for s2 in (1, -1):
            for s3 in (1, -1):
                R = T[f, 3:6] + XB[:, [0]] * e1 + s2 * XB[:, [1]] * e2 + s3 * XB[:, [2]] * e3
                r = np.abs(B[kb] - DB - R).max()
                if best is None or r < best[0]:
                    best = (r, s2, s3)
        require(best[0] < 5 * eps, "fiber {} of the bounded export is misplaced by {}", f, best[0])
        if not len(k):
            continue
        R = T[f, 3:6] + xyz[k][:, [0]] * e1 + best[1] * xyz[k][:, [1]] * e2 + best[2] * xyz[k][:, [2]] * e3
        t = (P[k] - D[k] - R)
        sh = np.round(t[:, :2] / S)
        require(np.abs(t[:, :2] - sh * S) < 20 * eps, "a point of fiber {} is off its images by {}", f, np.abs(t[:, :2] - sh * S).max())
        require(np.abs(t[:, 2]) < 20 * eps, "a point of fiber {} is lifted by {}", f, np.abs(t[:, 2]).max())
        require(np.abs(sh) <= 1, "a point of fiber {} belongs to a farther image", f)
        for n, w in (("lbh", slice(0, 3)), ("uvw", slice(6, 9))):
            require(np.abs(np.asarray(msh[n], dtype=float)[k] - T[f, w]) < 1e-5 * max(1, S), "field {!r} of fiber {}", n, f)
        require(np.abs(np.asarray(msh["G"], dtype=float)[k] - T[f, 9]) < 1e-5 * T[f, 9], "modulus of fiber {}", f)
        E = np.asarray(msh["E"], dtype=float)[k]
        require(np.isinf(E) if np.isinf(T[f, 10]) else np.abs(E - T[f, 10]) <= 1e-5 * T[f, 10], "tensile modulus of fiber {}: {}", f, E)
        images[f] = {tuple(v) for v in sh.astype(int).tolist()}
    # 3. amount of matter: images inside the region are complete, once, the other ones cut
    vol = msh.compute_cell_sizes(length=False, area=False, volume=True)
    cellv = np.abs(np.asarray(vol.cell_data["Volume"], dtype=float))
    cell_f = np.round(np.asarray(msh.point_data_to_cell_data()["fiber"], dtype=float)).astype(int)
    got = np.bincount(cell_f, weights=cellv, minlength=len(T))
    bv = base.compute_cell_sizes(length=False, area=False, volume=True)
    cb = np.round(np.asarray(base.point_data_to_cell_data()["fiber"], dtype=float)).astype(int)
    full = np.bincount(cb, weights=np.abs(np.asarray(bv.cell_data["Volume"], dtype=float)), minlength=len(T))
    cut = 0
    for f in range(len(T)):
        lo = hi = 0.0
        pts = B[labB == f]
        # axis and parallel lines, weighted as the chords of the section
        x = np.linspace(-0.5, 0.5, 2001) * T[f, 0]
        t = np.linspace(-0.5, 0.5, 43)[1:-1]
        wt = np.sqrt(0.25 - t ** 2)
        line = T[f, 3:5] + x[:, None, None] * T[f, 6:8] + T[f, 1] * t[:, None] * np.array([-T[f, 7], T[f, 6]])
        for a, b in SHIFTS:
            q = pts[:, :2] + np.array([a * S, b * S])
            if np.all(np.abs(q) < S - eps):
                lo, hi = lo + full[f], hi + full[f]
                continue
            shares = np.all(np.abs(line + np.array([a * S, b * S])) < S, axis=2).mean(axis=0)
            share = (shares * wt).sum() / wt.sum()
            # the section is a polygon: lines do not count exactly as chords of the ellipse
            slack = 0.3 * np.ptp(shares) + 0.002
            cut += share > 0.01
            lo += full[f] * max(0, share - slack)
            hi += full[f] * min(1, share + slack)
        slack = 0.002 * full[f]
        require(lo - slack <= got[f] <= hi + slack, "fiber {}: volume {} of images inside the region; expected {} to {}", f, got[f], lo, hi)
    return cut > 0, ["cut" if cut else "whole", "deformed" if c["deform"] else "undeformed"]


def subs():
    return [Sub("tiling", cases(), periodic, 40, 600,
                "periodic meshes of 1 to 5 fibers; non-trivial: an image is cut by the region")]
