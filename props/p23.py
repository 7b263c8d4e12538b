"""P23: solutions do not depend on numbering, solver, units or sampling."""
import math

import numpy as np
import scipy.sparse as ss
import scipy.sparse.linalg as ssl
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require
from props import sol

fm = load_sut()
TOL = sol.TOL


# ---------------------------------------------------------------- comparison of histories
def judged_depth(s):
    """Number of states of s up to which the history is numerically unambiguous.

    The second value tells whether the end of the history is clear too.
    """
    for k in range(s.states):
        o = sol.step_model(s, s.u[k], s.Z[k])
        if o is None:
            return k, False
        if k and abs(s.rl[k] - s.kw["packing"]) <= 1e-9 * s.kw["packing"]:
            return k, False     # at the target, within rounding
        if k < s.steps and (o["jam"] or sol.next_event(o)[0] is None):
            return k, False
        if k == s.steps:
            done = s.rl[-1] >= s.kw["packing"] or s.steps == s.kw["itermax"] or o["jam"]
            return k, done
    return s.steps, True


def along(Z, Y, at):
    """Values Y of states at ceilings Z (decreasing), at given ceilings."""
    return np.stack([np.interp(at[::-1], Z[::-1], Y[::-1, k])[::-1] for k in range(Y.shape[1])], axis=1) \
        if Y.shape[1] else np.zeros((len(at), 0))


def nodal(s):
    """Nodal contact forces at every state."""
    return np.asarray(s.f) @ s.C[:, ::2]


def same_path(a, b, what, length=1.0, force=1.0, nodes=None, heights_only=False):
    """b follows a: lengths are multiplied by `length`, forces by `force`."""
    k, clear = judged_depth(a)
    top = a.Z[0]
    require(abs(b.Z[0] - length * top) <= 1e-9 * length * top, "{}: the ceiling starts at {} instead of {}",
            what, b.Z[0], length * top)
    if clear and (a.rl[-1] >= a.kw["packing"] or k < a.kw["itermax"]):
        require(abs(b.Z[-1] / length - a.Z[-1]) <= 1e-6 * top, "{}: the ceiling reaches {} instead of {}",
                what, b.Z[-1] / length, a.Z[-1])
    else:
        # the last judged state can be reached
        require(b.Z[-1] / length <= a.Z[k] + 1e-6 * top or b.steps == b.kw["itermax"], "{}: the ceiling only reaches {}, not {}",
                what, b.Z[-1] / length, a.Z[k])
    at = a.Z[:k + 1]
    at = at[at >= b.Z[-1] / length - 1e-12 * top]
    q = len(at)
    if q == 0:
        return 0
    # events at the same heights
    for z in at:
        require(np.abs(b.Z / length - z).min() <= 1e-6 * top, "{}: no state at the ceiling height {} ({})",
                what, z, b.Z / length)
    ua, ub = a.u[:q], along(b.Z / length, b.u, at)
    if nodes is not None:
        ub = ub[:, np.stack([2 * nodes, 2 * nodes + 1], axis=1).ravel()]
    e = np.abs(ub[:, ::2] / length - ua[:, ::2])
    require(e <= 2e-6 * top, "{}: displacements differ by {}", what, e.max())
    if heights_only:
        return q
    rot = np.abs(ub[:, 1::2] - ua[:, 1::2])
    require(rot <= 1e-5 * max(1.0, np.abs(ua[:, 1::2]).max()), "{}: rotations differ by {}", what, rot.max())
    na, nb = nodal(a)[:q], along(b.Z / length, nodal(b), at) / force
    if nodes is not None:
        nb = nb[:, nodes]
    noise = 1e-9 * max(((np.abs(np.where(np.isfinite(a.K), a.K, 0)) @ np.abs(u)).max() for u in ua), default=0)
    noise += 1e-18 * np.abs(np.where(np.isfinite(a.K), a.K, 0)).max()    # no force at all
    e = np.abs(na - nb)
    require(e <= 1e-5 * np.abs(na).max() + noise, "{}: nodal contact forces differ by {} (largest: {})", what, e.max(), np.abs(na).max())
    return q


# ---------------------------------------------------------------- variants
def dense_solver(A, b):
    try:
        return np.linalg.solve(A.toarray(), b)
    except np.linalg.LinAlgError as e:
        raise RuntimeError(str(e))


def lu_solver(A, b):
    return ssl.splu(ss.csc_matrix(A), permc_spec="MMD_AT_PLUS_A").solve(b)


def natural(A, b):
    return ssl.spsolve(ss.csc_matrix(A), b, permc_spec="NATURAL")


def column(A, b):
    # a solver that returns complex numbers without imaginary part
    return ssl.spsolve(ss.csc_matrix(A).astype(complex), b.astype(complex))


SOLVERS = {"dense": dense_solver, "lu": lu_solver, "natural": natural, "complex": column}


@st.composite
def numerics(draw):
    c = draw(sol.problems(finite=True, nmax=10))
    c["itermax"] = 150
    c["solver"] = draw(st.sampled_from(["dense", "lu", "natural", "complex", "default", "default"]))
    c["perm"] = draw(st.sampled_from(["random", "random", "cuthill", "reverse", "none"]))
    c["order"] = draw(st.integers(0, 2 ** 31 - 1))
    c["sub"] = draw(st.integers(1, 4))
    return c


def same_problem(c):
    mat, mesh = sol.assemble(c)
    a = sol.run(c, mat, mesh)
    size = 2 * a.N + a.R
    kw = {}
    if c["perm"] == "random":
        kw["perm"] = np.random.RandomState(c["order"]).permutation(size)
    elif c["perm"] == "reverse":
        kw["perm"] = np.arange(size)[::-1].copy()
    elif c["perm"] == "cuthill":
        K = fm.stiffness(mat, mesh, lmin=c["lmin"], coupling=c["coupling"])[0]
        C = fm.constraint(mat, mesh)[0]
        kw["perm"] = ss.csgraph.reverse_cuthill_mckee(ss.bmat([[K, C.T], [C, None]], format="csc"), symmetric_mode=True)
    if c["solver"] != "default":
        kw["solve"] = SOLVERS[c["solver"]]
    kw["verbose"] = not c["verbose"]
    b = sol.run(c, mat, mesh, **kw)
    q = same_path(a, b, "perm=%s, solve=%s" % (c["perm"], c["solver"]))
    # sampling: same values at the times of the states
    if a.steps:
        n = a.steps * c["sub"] + 1
        d = sol.run(c, mat, mesh, interp_size=n)
        for name in "ufFHZ":
            full, part = getattr(a, name), getattr(d, name)
            require(len(part) == n, "interp_size={} gives {} points for {}", n, len(part), name)
            part = part[::c["sub"]]
            fin = np.isfinite(full)
            require(np.isfinite(part) == fin, "interp_size={}: infinite values of {} differ", n, name)
            scale = np.abs(full[fin]).max() if fin.any() else 1.0
            require(np.abs(np.where(fin, part, 0) - np.where(fin, full, 0)) <= 1e-9 * scale, "interp_size={} changes {} at stored times", n, name)
            obj_a, obj_d = (s.raw[{"u": 2, "f": 3, "F": 4, "H": 5, "Z": 6}[name]] for s in (a, d))
            for k in range(a.states):
                t = k / a.steps
                va, vd = np.array(obj_a(t)), np.array(obj_d(t))
                ok = np.isfinite(va)
                require(np.abs(np.where(ok, va, 0) - np.where(ok, vd, 0)) <= 1e-8 * scale, "interp_size={} changes {} at time {}", n, name, t)
        for name in ("rl", "err", "mask"):
            require(np.array_equal(getattr(a, name), getattr(d, name)), "interp_size changes {}", name)
    return q >= 3, ["perm " + c["perm"], "solver " + c["solver"]]


@st.composite
def units(draw):
    c = draw(sol.problems(finite=True, nmax=10, units=False))
    c["itermax"] = 150
    c["alpha"] = draw(st.sampled_from([1.0, 0.1, 10.0, 2.0, 0.03, 25.4, 1e-3, 1e-4, 100.0]))
    c["beta"] = draw(st.sampled_from([1.0, 0.001, 1000.0, 2.0, 6.9, 1e6, 1e8, 1e-6]))
    if c["beta"] * max(1.0, c["alpha"]) ** 3 > 1e8:
        c["beta"] = 1.0     # stiffness and constraints too far apart for double precision
    return c


def scaled(c):
    T = gens.table(c)
    mat, mesh = sol.assemble(c, T)
    a = sol.run(c, mat, mesh)
    al, be = c["alpha"], c["beta"]
    T2 = T.copy()
    T2[:, :6] *= al
    T2[:, [ref.G, ref.E]] *= be
    c2 = dict(c, size=c["size"] * al, threshold=None if c["threshold"] is None else c["threshold"] * al)
    mat2, mesh2 = sol.assemble(c2, T2)
    if len(mesh2) != a.N:
        full = sut.net(fm.Stack(gens.make_mat(fm, c, T), fm.Net(gens.make_mat(fm, c, T), periodic=c["periodic"])))
        gap = np.abs(full.zB - full.zA)
        require(c["threshold"] is not None and np.any(np.abs(gap - c["threshold"]) < 1e-9 * c["threshold"]),
                "scaling the mat changes its mesh")
        return False, ["borderline threshold"]
    b = sol.run(c2, mat2, mesh2, lmin=c["lmin"] * al, tol=TOL * al, errtol=1e-6 * max(1.0, al, be * al * max(1.0, al)))
    # forces: stress times area
    q = same_path(a, b, "lengths x %g, moduli x %g" % (al, be), length=al, force=be * al ** 2)
    return q >= 3 and (al, be) != (1.0, 1.0), ["lengths"] * (al != 1) + ["moduli"] * (be != 1)


@st.composite
def moved(draw):
    c = draw(sol.problems(finite=True, nmax=10))
    c["itermax"] = 150
    c["periodic"] = False
    c["op"] = draw(st.sampled_from(["turn", "mirror", "renumber", "renumber", "shift", "flip"]))
    c["by"] = draw(st.integers(1, 499))
    c["order"] = draw(st.integers(0, 2 ** 31 - 1))
    return c


def extension(n, edges, rng):
    """A random renumbering that keeps the order of connected fibers: new label of each fiber."""
    left = set(range(n))
    label = np.zeros(n, dtype=int)
    for new in range(n):
        ready = sorted(k for k in left if not any(a in left for a, b in edges if b == k))
        k = ready[rng.randint(len(ready))]
        left.remove(k)
        label[k] = new
    return label


def geometry(c):
    T = gens.table(c)
    mat, mesh = sol.assemble(c, T)
    a = sol.run(c, mat, mesh)
    T2, S2, sign = T.copy(), c["size"], np.ones(len(T))
    label = np.arange(len(T))
    if c["op"] == "turn":
        ang = math.pi * c["by"] / 500
        R = np.array([[math.cos(ang), -math.sin(ang)], [math.sin(ang), math.cos(ang)]])
        T2[:, [ref.X, ref.Y]] = T[:, [ref.X, ref.Y]] @ R.T
        T2[:, [ref.U, ref.V_]] = T[:, [ref.U, ref.V_]] @ R.T
        S2 *= 2
    elif c["op"] == "mirror":
        T2[:, [ref.X, ref.U]] *= -1
    elif c["op"] == "shift":
        T2[:, ref.X] += 0.3 * c["size"]
        T2[:, ref.Y] -= 0.2 * c["size"]
        S2 *= 2
    elif c["op"] == "flip":
        flip = np.random.RandomState(c["order"]).uniform(size=len(T)) < 0.5
        T2[flip, ref.U:ref.W + 1] *= -1
        sign[flip] = -1
    else:
        edges = [(int(a.m.fiber[i]), int(a.m.fiber[j])) for i, j in a.pairs if i != j]
        net = sut.net(fm.Net(gens.make_mat(fm, c), periodic=False))
        edges = [(int(p), int(q)) for p, q in zip(net.A, net.B) if p != q]
        label = extension(len(T), edges, np.random.RandomState(c["order"]))
        T2 = np.empty_like(T)
        T2[label] = T
    c2 = dict(c, size=S2)
    mat2, mesh2 = sol.assemble(c2, T2)
    b = sol.run(c2, mat2, mesh2)
    if b.N != a.N:
        return False, ["borderline crossing or threshold"]
    # nodes of a in b: same fiber, same abscissa
    nodes = np.full(a.N, -1)
    for k in range(a.N):
        f = label[a.m.fiber[k]]
        cand = np.flatnonzero(b.m.fiber == f)
        d = np.abs(b.m.s[cand] - sign[a.m.fiber[k]] * a.m.s[k])
        j = int(np.argmin(d))
        if d[j] > 1e-6 * S2 or (d < 1e-6 * S2).sum() > 1:
            return False, ["borderline crossing or coincident nodes"]
        nodes[k] = cand[j]
    if not np.array_equal(nodes[a.m.constraint], b.m.constraint[nodes]):
        return False, ["borderline crossing"]
    heights_only = c["op"] == "flip"
    q = same_path(a, b, c["op"], nodes=nodes, heights_only=heights_only)
    return q >= 3, [c["op"]]


def subs():
    return [
        Sub("numerics", numerics(), same_problem, 14, 300,
            "permutations, linear solvers and sampling of the same problem; non-trivial: >= 3 compared states"),
        Sub("units", units(), scaled, 40, 800, "unit systems; non-trivial: >= 3 compared states"),
        Sub("moved", moved(), geometry, 14, 300,
            "rotated, mirrored, shifted, renumbered mats; non-trivial: >= 3 compared states"),
    ]
