"""P18: algebra of the stiffness matrix."""
import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require
from props import mech

fm = load_sut()


@st.composite
def cases(draw):
    c = draw(mech.tables())
    c["noise"] = draw(st.integers(0, 2 ** 31 - 1))
    c["scale"] = draw(st.sampled_from([2.0, 0.5, 1e3, 1e-6, 3.7]))
    return c


def matrix(mat, mesh, c, m):
    lmin, lmax = mech.bounds(c, mech.lengths(m))
    kw = {k: v for k, v in (("lmin", lmin), ("lmax", lmax)) if v is not None}
    K = sut.unpack(fm.stiffness(mat, mesh, coupling=c["coupling"], **kw), 5, "stiffness")[0]
    return sut.dense(K, "stiffness matrix", (2 * len(m.s),) * 2), bool(kw)


def algebra(c):
    mat, mesh, T, m = mech.assembly(c)
    K, scaled = matrix(mat, mesh, c, m)
    N = len(m.s)
    require(~np.isnan(K), "undefined entries")
    # symmetry, with infinite entries included
    require((K == K.T) | (np.abs(K - K.T) <= 1e-12 * np.sqrt(np.abs(np.outer(np.diag(K), np.diag(K))))),
            "the stiffness matrix is not symmetric")
    # locality
    for f in range(len(T)):
        inside = np.repeat(m.fiber == f, 2)
        require(K[np.ix_(inside, ~inside)] == 0, "fiber {} is coupled to another one", f)
    # homogeneity
    T2 = T.copy()
    T2[:, [ref.G, ref.E]] *= c["scale"]
    mat2 = fm.Mat(gens.dataframe({"size": 50.0}, T2))
    K2, _ = matrix(mat2, mesh, c, m)
    fin = np.isfinite(K)
    dg = np.sqrt(np.abs(np.outer(np.diag(K), np.diag(K))))
    dg = np.where(np.isfinite(dg), dg, 1)
    require(np.isfinite(K2) == fin, "infinite entries change with the moduli")
    require(np.abs(np.where(fin, K2, 0) - c["scale"] * np.where(fin, K, 0)) <= 1e-9 * c["scale"] * np.maximum(np.abs(np.where(fin, K, 0)), dg),
            "scaling all moduli by {} does not scale the matrix", c["scale"])
    Kr = ref.stiffness(T, m.fiber, m.s, *mech.bounds(c, mech.lengths(m)), coupling=c["coupling"])[0]
    rng = np.random.RandomState(c["noise"])
    bent = 0
    for f in range(len(T)):
        nodes = np.flatnonzero(m.fiber == f)
        idx = np.sort(np.r_[2 * nodes, 2 * nodes + 1])
        A = K[np.ix_(idx, idx)]
        rigidE = np.isinf(T[f, ref.E])
        if rigidE:
            A = A[::2, ::2]  # no rotation: shear only
        require(np.isfinite(A), "unexpected infinite entry")
        d = np.sqrt(np.diag(A))
        require(np.diag(A) > 0, "a diagonal entry is not positive (fiber {})", f)
        An = A / np.outer(d, d)
        ev = np.linalg.eigvalsh((An + An.T) / 2)
        require(ev[0] >= -1e-9 * len(d), "fiber {} has a negative stiffness (normalised eigenvalue {})", f, ev[0])
        require(np.linalg.eigvalsh((A + A.T) / 2)[0] >= -1e-9 * np.abs(A).max(), "negative eigenvalue")
        # raising the fiber
        up = np.ones(len(nodes)) if rigidE else np.tile([1.0, 0.0], len(nodes))
        require(np.abs(A @ up) <= 1e-9 * (np.abs(A) @ up), "raising fiber {} stores energy", f)
        # tilting
        s = m.s[nodes]
        if not rigidE and c["coupling"] == 1.0 and not scaled:
            a = rng.uniform(0.5, 2)
            tilt = np.empty(2 * len(nodes))
            tilt[::2], tilt[1::2] = a * (s - s.mean()), a
            require(np.abs(A @ tilt) <= 1e-9 * (np.abs(A) @ np.abs(tilt)), "tilting fiber {} stores energy", f)
        # any other motion stores some energy: as many stiff modes as the model has, among the
        # modes that are clearly stiff
        Ar = Kr[np.ix_(idx, idx)]
        Ar = Ar[::2, ::2] if rigidE else Ar
        dr = np.sqrt(np.diag(Ar))
        evr = np.linalg.eigvalsh(Ar / np.outer(dr, dr))
        require((ev > 1e-10).sum() >= (evr > 1e-8).sum(), "fiber {} can be deformed without energy", f)
        for _ in range(2):
            q = rng.normal(size=len(d))
            e = float(q @ A @ q)
            require(e >= -1e-9 * float(np.abs(q) @ np.abs(A) @ np.abs(q)), "negative energy")
        if not rigidE and len(nodes) > 2:
            bent += 1
    return bent >= 2, ["coupling=%g" % c["coupling"], "scaled" if scaled else "unscaled"]


@st.composite
def pure(draw):
    """Prescribed curvature or shear of one fiber with generated nodes."""
    return {"half": draw(st.integers(5, 40)), "nodes": draw(st.lists(st.integers(-39, 39), max_size=6)),
            "b": draw(st.sampled_from(gens.DIMS)), "h": draw(st.sampled_from(gens.DIMS)),
            "G": draw(st.sampled_from([0.5, 1.0, 2.0, 100.0])), "E": draw(st.sampled_from([2.0, 10.0, 2500.0])),
            "kappa": draw(st.sampled_from([1.0, -0.5, 0.01])), "gamma": draw(st.sampled_from([1.0, -0.3]))}


def analytic(c):
    """Energies of pure bending (no shear) and pure shear against beam theory.

    Rotations proportional to s with matching parabolic heights give the energy of a constant
    curvature; heights proportional to s without rotation give the reduced shear energy.
    """
    half = c["half"]
    s = sorted({-half, half} | {int(round(v * half / 40.0)) for v in c["nodes"]} - {-half, half} | {-half, half})
    inner = s[1:-1]
    n = 1 + len(inner)
    case = {"half": [half] + [5] * len(inner), "edges": [[0, k + 1, v, 0, 0, 0] for k, v in enumerate(inner)],
            "order": 0, "unit": 1.0, "flip": False,
            "props": [[c["b"], c["h"], [c["G"], c["E"]]]] + [[1.0, 1.0, [1.0, 1.0]]] * len(inner)}
    mat, mesh, T, m = mech.assembly(case)
    K = sut.dense(sut.unpack(fm.stiffness(mat, mesh), 5, "stiffness")[0], "K")
    nodes = np.flatnonzero(m.fiber == 0)
    q = np.zeros(2 * len(m.s))
    x = m.s[nodes]
    b, h, G, E = c["b"], c["h"], c["G"], c["E"]
    bend = shear = 0.0
    for le in np.diff(x):
        k0 = np.pi / 4 * G * b * h / le / (1 + G / E * (le / h) ** 2)
        # constant curvature: u = k s^2 / 2, theta = k s: no shear strain, rotations differ by k le
        bend += k0 * (E / G * h ** 2 + le ** 2 / 12) * (c["kappa"] * le) ** 2
        shear += k0 * (c["gamma"] * le) ** 2
    q[2 * nodes], q[2 * nodes + 1] = c["kappa"] * x ** 2 / 2, c["kappa"] * x
    require(abs(q @ K @ q - bend) <= 1e-8 * bend, "pure bending stores {} instead of {}", q @ K @ q, bend)
    q[:] = 0
    q[2 * nodes] = c["gamma"] * x
    require(abs(q @ K @ q - shear) <= 1e-8 * shear, "pure shear stores {} instead of {}", q @ K @ q, shear)
    return len(inner) > 0, ["nodes=%d" % len(x)]


def subs():
    return [
        Sub("algebra", cases(), algebra, 60, 1200,
            "given topologies with mixed fibers; non-trivial: two fibers with an inner node"),
        Sub("energy", pure(), analytic, 40, 800, "one fiber, generated nodes; non-trivial: an inner node"),
    ]
