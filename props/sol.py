"""Generated compaction problems, their solution by fibermat and an independent step model."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Violation, load_sut, require

fm = load_sut()

TOL = 1e-6


@st.composite
def problems(draw, nmin=2, nmax=14, finite=True, uniform=None, packings=(1.5, 2.0, 3.0, 4.0, 8.0),
             units=True, warped=False):
    """Stacks that can be compacted: crossing fibers, moderate slenderness, finite moduli."""
    S = 50.0
    rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
    n = draw(st.integers(nmin, nmax))
    if rng.uniform() < 0.8:
        n = max(n, min(nmax, int(rng.randint(6, 15))))
    mixed = draw(st.integers(0, 3)) > 0 if uniform is None else not uniform
    span = draw(st.sampled_from([200, 350, 500, 80]))      # per mille of the box size
    L0 = int(rng.randint(400, 1000))
    b0, h0 = [float(rng.choice([0.2, 0.5, 1.0, 2.0])), float(rng.choice([0.2, 0.5, 1.0, 2.0]))]
    G0, E0 = float(rng.choice([1.0, 2.0, 0.5])), float(rng.choice([10.0, 100.0, 2500.0]))
    rigid = (not finite) and draw(st.booleans())
    rows = []
    for _ in range(n):
        l, b, h, G, E = L0, b0, h0, G0, E0
        if mixed:
            l = int(rng.randint(400, 1000))
            b, h = [float(v) for v in rng.choice([0.2, 0.5, 1.0, 2.0], 2)]
            G, E = float(rng.choice([1.0, 2.0, 0.5])), float(rng.choice([10.0, 100.0, 2500.0]))
        if rigid or (not finite and rng.uniform() < 0.3):
            E = "inf"
        x, y = [int(v) for v in rng.randint(-span, span + 1, 2)]
        z = int(rng.randint(-500, 501))
        p = int(rng.randint(-gens.NANG // 2 + 1, gens.NANG // 2 + 1))
        rows.append([l, b, h, x, y, z, p, 0, G, E])
    rows.sort(key=lambda r: r[5])
    # other units of length (contact tolerance included), other contact tolerances
    unit = draw(st.sampled_from([1.0] * 6 + [1e-3, 30.0])) if units else 1.0
    rows = [[r[0], r[1] * unit, r[2] * unit] + r[3:] for r in rows]
    threshold = draw(st.sampled_from([None, 10.0, 10.0, 2.0, 1.0]))
    lift = None
    if warped and draw(st.integers(0, 2)) == 0:
        # some fiber ends do not lie at the height of their fiber (node heights are free)
        lift = [[int(rng.choice([-1, 0, 1])), float(rng.choice([0.01, 0.2, 0.5, 1.0]))] for _ in rows]
    return {"size": S * unit, "fibers": rows, **({} if lift is None else {"lift": lift}), "periodic": draw(st.booleans()),
            "threshold": None if threshold is None else threshold * unit,
            "packing": draw(st.sampled_from(list(packings))),
            "itermax": draw(st.sampled_from([60, 60, 60, 5, 2])),
            "lmin": draw(st.sampled_from([0.01, 0.01, 0.05])) * unit,
            "coupling": draw(st.sampled_from([0.99, 0.99, 0.9])),
            "tol": (draw(st.sampled_from([TOL] * 5 + [1e-8, 1e-5])) if units else TOL) * unit,
            "errtol": 1e-6 * max(1.0, unit ** 2),
            "verbose": draw(st.integers(0, 3)) == 0}


class S:
    """A solved problem."""


def assemble(c, T=None):
    mat = gens.make_mat(fm, c, T)
    net = fm.Net(mat, periodic=c["periodic"])
    stack = fm.Stack(mat, net, threshold=c["threshold"])
    mesh = fm.Mesh(stack)
    if c.get("lift"):
        m = sut.mesh(mesh)
        z, h = m.z.copy(), sut.mat(mat).h[m.fiber]
        room = (z + h / 2).max() - z - h / 2
        for f in np.unique(m.fiber):
            end, part = c["lift"][int(f) % len(c["lift"])]
            nodes = np.flatnonzero(m.fiber == f)
            if end and len(nodes) > 2:
                i = nodes[0] if end < 0 else nodes[-1]
                z[i] += part * room[i]
        mesh["z"] = z
    return mat, mesh


def run(c, mat, mesh, **over):
    kw = dict(packing=c["packing"], itermax=c["itermax"], lmin=c["lmin"], coupling=c["coupling"],
              verbose=c.get("verbose", False))
    for k in ("tol", "errtol"):
        if c.get(k) is not None and c[k] != 1e-6:
            kw[k] = c[k]
    kw.update(over)
    with contextlib.redirect_stderr(io.StringIO()):     # progress bars
        out = fm.solve(mat, mesh, **kw)
    return collect(mat, mesh, out, kw)


def collect(mat, mesh, out, kw):
    s = S()
    s.kw = kw
    s.tol, s.errtol = kw.get("tol", TOL), kw.get("errtol", 1e-6)
    s.mat, s.mesh = mat, mesh
    m = sut.mesh(mesh)
    d = sut.mat(mat)
    s.m = m
    s.N = len(m.s)
    s.h = d.h[m.fiber]
    s.E = d.E
    s.pairs = [(i, int(m.constraint[i])) for i in range(s.N) if i <= m.constraint[i]]
    R = s.R = 3 * len(s.pairs)
    out = sut.unpack(out, 10, "solve")
    s.raw = out
    K, C, u, f, F, H, Z, rl, mask, err = out
    s.K = sut.dense(K, "K", (2 * s.N, 2 * s.N))
    s.C = sut.dense(C, "C", (R, 2 * s.N))
    n = None
    for name, q, shape in (("Z", Z, ()), ("rlambda", rl, ()), ("err", err, ()), ("u", u, (2 * s.N,)),
                           ("f", f, (R,)), ("F", F, (2 * s.N,)), ("H", H, (R,)), ("mask", mask, (2 * s.N + R,))):
        try:
            v = np.array(q())
        except Exception as e:
            raise Violation("result %s cannot be evaluated: %s: %s" % (name, type(e).__name__, e))
        if name in ("Z",) and s.kw.get("interp_size") is None:
            n = len(v)
        if n is None or (s.kw.get("interp_size") is not None and name in ("rlambda", "mask", "err")):
            require(v.ndim >= 1 and v.shape[1:] == shape, "result {} has shape {}", name, v.shape)
        else:
            require(v.shape == (n, *shape), "result {} has shape {} instead of {}", name, v.shape, (n, *shape))
        setattr(s, {"rlambda": "rl"}.get(name, name), v)
    s.states = len(s.rl)
    s.steps = s.states - 1
    return s


def gaps(s, u, Z):
    """Geometric gaps (floor, inner, ceiling per connection) for nodal values u and ceiling Z."""
    z = s.m.z + u[::2]
    g = np.empty(s.R)
    for k, (i, j) in enumerate(s.pairs):
        g[3 * k] = z[i] - s.h[i] / 2
        g[3 * k + 1] = np.inf if i == j else z[j] - z[i] - (s.h[i] + s.h[j]) / 2
        g[3 * k + 2] = Z - z[j] - s.h[j] / 2
    return g


def soft(s):
    """Degrees of freedom that can move, and the finite matrix (rigid rotations removed)."""
    free = np.ones(2 * s.N, dtype=bool)
    free[1::2] = np.isfinite(s.E[s.m.fiber])
    K = np.where(np.isfinite(s.K), s.K, 0.0)
    return free, K


def step_model(s, u, Z):
    """Equilibrium rates at a state, per unit descent of the ceiling, by dense linear algebra.

    Returns None where they are numerically ambiguous, otherwise a dict: jam (the closed
    contacts do not allow the ceiling to go down), du, f (or None when contact forces are not
    unique), gaps, closing speeds, active rows.
    """
    g = gaps(s, u, Z)
    if np.any((g > 0.05 * s.tol) & (g < 20 * s.tol)):
        return None
    A = np.flatnonzero(g <= s.tol)
    free, K = soft(s)
    idx = np.flatnonzero(free)
    K = K[np.ix_(idx, idx)]
    C = s.C[np.ix_(A, idx)]
    dH = np.zeros(s.R)
    dH[2::3] = -1.0
    b = dH[A]
    Uu, sv, Vt = np.linalg.svd(C, full_matrices=True)
    r = int((sv > 1e-9).sum())
    if len(sv) and np.any((sv > 1e-9) & (sv < 1e-3)):
        return None
    coef = Uu[:, :r].T @ b
    part = Vt[:r].T @ (coef / sv[:r])
    resid = np.abs(C @ part - b).max() if len(A) else 0.0
    out = {"gaps": g, "tol": s.tol, "active": A, "rank": r, "unique_f": r == len(A), "jam": resid > 1e-6}
    if out["jam"]:
        return out if resid > 1e-3 else None
    # scale the free motions: rotations by the fiber length scale
    sc = 1 / np.sqrt(np.maximum(np.diag(K), 1e-300))
    Nn = Vt[r:].T                       # null space of the active constraints
    out["du"] = np.zeros(2 * s.N)
    if Nn.shape[1]:
        # solve the KKT system in scaled variables through a QR of the scaled null space
        Q, Rr = np.linalg.qr(Nn / sc[:, None])
        Ks = K * np.outer(sc, sc)
        red = Q.T @ Ks @ Q
        ev = np.linalg.eigvalsh((red + red.T) / 2)
        out["cond"] = ev[-1] / max(ev[0], 1e-300)
        if ev[0] <= 0 or out["cond"] > 1e10:
            return None
        y = np.linalg.solve(red, -Q.T @ (Ks @ (part / sc)))
        d = part + sc * (Q @ y)
    else:
        out["cond"] = 1.0
        d = part
    out["du"][idx] = d
    if out["unique_f"]:
        w = Uu[:, :r] @ ((Vt[:r] @ (-(K @ d))) / sv[:r])
        out["f"] = np.zeros(s.R)
        out["f"][A] = w
    # closing speeds of the open rows (gap decreases at this rate)
    with np.errstate(all="ignore"):
        out["speed"] = s.C @ out["du"] - dH
    return out


def next_event(out):
    """Descent of the ceiling to the next closing contact, or None if none closes.

    Second value: False when it is numerically ambiguous.
    """
    g, v = out["gaps"], out["speed"]
    op = (g > out["tol"]) & np.isfinite(g)
    vs = max(1.0, np.abs(v[op]).max()) if op.any() else 1.0
    noise = 1e-9 * vs * max(1.0, out["cond"] * 1e-6)
    sure = op & (v > noise)
    maybe = op & (np.abs(v) <= noise) & (v != 0)
    if not sure.any():
        return None, not maybe.any()
    return float((g[sure] / v[sure]).min()), True
