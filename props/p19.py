"""P19: constraint rows against geometric gaps."""
import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require
from props import mech, meshgen

fm = load_sut()


@st.composite
def stacked(draw, **kw):
    c = draw(mech.stacks(moduli=False, **kw))
    c["noise"] = draw(st.integers(0, 2 ** 31 - 1))
    return c


@st.composite
def given(draw):
    c = draw(mech.tables())
    c["noise"] = draw(st.integers(0, 2 ** 31 - 1))
    # heights: those of the table, or any (overlapping fibers, lower labels on top)
    c["heights"] = draw(st.sampled_from(["table", "any", "any", "reversed"]))
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-6, 1e4]))
    return c


@st.composite
def loose(draw):
    """Networks that were not stacked: fibers of any height, in any order."""
    c = draw(gens.fibers(nmin=2, nmax=9, planar=draw(st.booleans()), lfrac=(300, 1000), sort_z=False))
    c["periodic"] = draw(st.booleans())
    c["noise"] = draw(st.integers(0, 2 ** 31 - 1))
    return c


def gaps(mat, mesh, hfib, noise):
    m = sut.mesh(mesh)
    N = len(m.s)
    z, h = m.z.copy(), hfib[m.fiber]
    if noise % 3 == 0:
        # thicknesses left on the mesh by other fibers
        fm.constraint(fm.Mat(mat.assign(h=mat.h * 1.7)), mesh)
    C, f, H, df, dH = sut.unpack(fm.constraint(mat, mesh), 5, "constraint")
    pairs = [(i, int(m.constraint[i])) for i in range(N) if i <= m.constraint[i]]
    R = 3 * len(pairs)
    C = sut.dense(C, "constraint matrix", (R, 2 * N))
    f, df, dH = [sut.vector(v, w, R) for v, w in ((f, "f"), (df, "df"), (dH, "dH"))]
    H = sut.vector(H, "H", R)
    require(f == 0, "contact forces are not initially zero")
    require(df == 0, "force increments are not initially zero")
    Z = (z + h / 2).max()
    require(C[:, 1::2] == 0, "constraints act on rotations")
    Cu = C[:, ::2]
    # rows come by groups of three: floor, inner, ceiling
    seen = []
    rng = np.random.RandomState(noise)
    us = [np.zeros(N), rng.normal(size=N), rng.uniform(-1, 1, N) * 10 ** rng.uniform(-3, 1)]
    scale = max(np.abs(z).max(), h.max())
    unit = scale if noise % 2 else 1.0
    for k in range(len(pairs)):
        lo, mid, up = Cu[3 * k], Cu[3 * k + 1], Cu[3 * k + 2]
        i = np.flatnonzero(lo)
        j = np.flatnonzero(up)
        require(len(i) == 1 and len(j) == 1, "floor / ceiling rows {} do not act on a single node", k)
        i, j = int(i[0]), int(j[0])
        require(m.constraint[i] == j and i <= j, "rows {} act on nodes {} and {} which are not connected", k, i, j)
        seen.append((i, j))
        for u in us:
            u = u * unit
            tol = 1e-9 * (scale + np.abs(u).max())
            d = H[3 * k:3 * k + 3] - Cu[3 * k:3 * k + 3] @ u
            zi, zj = z[i] + u[i], z[j] + u[j]
            require(abs(d[0] - (zi - h[i] / 2)) <= tol, "floor gap of node {}: {} instead of {}", i, d[0], zi - h[i] / 2)
            require(abs(d[2] - (Z - zj - h[j] / 2)) <= tol, "ceiling gap of node {}: {} instead of {}", j, d[2], Z - zj - h[j] / 2)
            if i == j:
                require(d[1] == np.inf, "the middle row of end node {} can be active (gap {})", i, d[1])
            else:
                e = zj - zi - (h[i] + h[j]) / 2
                require(abs(d[1] - e) <= tol, "gap between nodes {} and {}: {} instead of {}", i, j, d[1], e)
        # only the ceiling moves
        require(dH[3 * k] == 0 and dH[3 * k + 1] == 0 and dH[3 * k + 2] == 1,
                "rows {} move by {} when the ceiling moves by 1", k, dH[3 * k:3 * k + 3])
    require(sorted(seen) == sorted(pairs), "connections and constraint rows do not match")
    return len([p for p in pairs if p[0] != p[1]])


def stacks(c):
    mat, mesh = mech.stack_mesh(c)
    h = sut.mat(mat).h
    n = gaps(mat, mesh, h, c["noise"])
    return n >= 2, ["uniform" if len(set(h)) == 1 else "mixed"]


def tables(c):
    mat, mesh, T, m = mech.assembly(c)
    rng = np.random.RandomState(c["noise"] // 2)
    if c["heights"] == "any":
        mesh["z"] = rng.uniform(-5, 5, len(mesh))
    elif c["heights"] == "reversed":
        mesh["z"] = -m.z
    if c["scale"] != 1:
        T[:, [ref.L, ref.B_, ref.H_]] *= c["scale"]
        mat = fm.Mat(gens.dataframe({"size": 50.0 * c["scale"]}, T))
        for k in "sxyz":
            mesh[k] = mesh[k] * c["scale"]
    n = gaps(mat, mesh, T[:, ref.H_], c["noise"])
    return n >= 2, [c["heights"], "scale %g" % c["scale"]]


def unstacked(c):
    mat = gens.make_mat(fm, c)
    mesh = fm.Mesh(fm.Net(mat, periodic=c["periodic"]))
    n = gaps(mat, mesh, sut.mat(mat).h, c["noise"])
    return n >= 2, ["periodic" if c["periodic"] else "bounded"]


def subs():
    return [
        Sub("stacks", stacked(), stacks, 60, 1200, "stacks of generated mats; non-trivial: >= 2 connections"),
        Sub("large", stacked(nmin=15, nmax=40, bulk=True), stacks, 5, 100, "stacks of 15 to 40 fibers"),
        Sub("loose", loose(), unstacked, 40, 800, "networks that were not stacked; non-trivial: >= 2 connections"),
        Sub("given", given(), tables, 50, 1000, "given topologies and heights; non-trivial: >= 2 connections"),
    ]
