"""P22: each step goes to the next contact event."""
import numpy as np

from common import Sub, load_sut, require
from props import sol
from props.p20 import histories

fm = load_sut()


def steps(c):
    mat, mesh = sol.assemble(c)
    s = sol.run(c, mat, mesh)
    top = s.Z[0]
    judged = skipped = nonunique = 0
    dof = 2 * s.N
    free, K = sol.soft(s)
    for k in range(s.steps):
        u0, u1, Z0, Z1 = s.u[k], s.u[k + 1], s.Z[k], s.Z[k + 1]
        o = sol.step_model(s, u0, Z0)
        if o is None:
            skipped += 1
            continue
        require(not o["jam"], "state {} is jammed", k)
        dz, sure = sol.next_event(o)
        if dz is None:
            skipped += 1
            continue
        judged += 1
        got = Z0 - Z1
        slack = 1e-6 * top * max(1.0, o["cond"] * 1e-8)
        require(abs(got - dz) <= slack, "step {}: the ceiling goes down by {}, the next contact closes after {}", k, got, dz)
        ref = got * o["du"]
        err = np.abs((u1 - u0)[::2] - ref[::2])
        require(err <= slack, "step {}: displacements differ by {} from the equilibrium", k, err.max())
        # rotations, compared through the displacements they produce over the shortest fibers
        er = np.abs((u1 - u0)[1::2] - ref[1::2])[free[1::2]]
        require(er <= 1e-6 * max(1.0, np.abs(ref[1::2]).max(), o["cond"] * 1e-8), "step {}: rotations differ by {}", k, er.max() if er.size else 0)
        if o["unique_f"]:
            df = got * o["f"]
            noise = 1e-9 * ((np.abs(K) @ np.abs(u1 - u0)).max() + np.abs(s.f[k]).max())
            e = np.abs(s.f[k + 1] - s.f[k] - df)
            require(e <= 1e-5 * np.abs(df).max() + noise, "step {}: contact forces differ by {} (increment {})", k, e.max(), np.abs(df).max())
        else:
            nonunique += 1
        # contacts: closed ones stay closed, one more closes
        A = set(o["active"].tolist())
        g1 = sol.gaps(s, u1, Z1)
        B = set(np.flatnonzero(g1 <= 2 * s.tol).tolist())
        require(A <= B, "step {}: contacts {} open", k, sorted(A - B)[:5])
        require(len(B) > len(A), "step {}: no contact closes", k)
        # the mask is that of the active rows
        m = np.flatnonzero(s.mask[k + 1][dof:])
        require(set(m.tolist()) == A, "step {}: recorded contacts {} instead of {}", k, m.tolist(), sorted(A))
        require(s.mask[k + 1][:dof] == free, "step {}: recorded degrees of freedom are not those that can move", k)
    o = sol.step_model(s, s.u[0], s.Z[0])
    if o is not None:
        require(set(np.flatnonzero(s.mask[0][dof:]).tolist()) == set(o["active"].tolist()), "initial mask")
    labels = ["steps judged"] * bool(judged) + ["steps skipped"] * bool(skipped) + ["redundant contacts"] * bool(nonunique)
    return judged >= 2, labels + ["judged=%d" % min(judged, 12)]


def events(c):
    """Long histories, without the model: along each step the first open contact closes at its end."""
    mat = fm.Mat(c["n"], length=c["length"], size=50.0, seed=c["seed"], tensile=c["tensile"])
    cc = {**c, "size": 50.0}
    mat, mesh = sol.assemble(cc, mat.values.astype(float))
    s = sol.run(cc, mat, mesh)
    top = s.Z[0]
    slack = 2 * s.tol + 1e-9 * top
    g = np.array([sol.gaps(s, s.u[k], s.Z[k]) for k in range(s.states)])
    dof = 2 * s.N
    for k in range(s.steps):
        a, b = g[k], g[k + 1]
        # what the step took for closed (around tol, either is right)
        closed = s.mask[k + 1][dof:].astype(bool)
        require(np.abs(b[closed]) <= 2 * slack, "step {}: contacts open by {}", k, np.abs(b[closed]).max() if closed.any() else 0)
        fresh = ~closed & (b <= slack)
        require(fresh.any(), "step {} of {}: no contact closes", k, s.steps)
        require(b >= -slack, "step {}: a contact is overrun by {}", k, -b.min())
        sure = a > 3 * slack
        require(~closed[sure], "step {}: open contacts are recorded as closed", k)
        require(closed[a <= s.tol / 2 - 1e-12 * top], "step {}: closed contacts are recorded as open", k)
    if s.tol >= 1e-9 * top:
        require(np.diff(s.mask[1:, dof:].sum(axis=1)) >= 0, "the number of closed contacts decreases")
    return s.steps >= 20, ["steps>=100" if s.steps >= 100 else "steps>=20" if s.steps >= 20 else "short"]


def subs():
    return [
        Sub("steps", sol.problems(finite=True, warped=True), steps, 35, 700,
            "generated stacks with finite moduli; non-trivial: at least two judged steps"),
        Sub("large", sol.problems(nmin=16, nmax=36, finite=True), steps, 1, 60, "stacks of 16 to 36 fibers"),
        Sub("long", histories(), events, 6, 80, "library mats of 30 to 60 fibers, compacted without limit of steps; "
            "non-trivial: at least 20 steps", scale=False),
        Sub("rigid", sol.problems(finite=False, warped=True), steps, 12, 250,
            "some or all tensile moduli infinite; non-trivial: at least two judged steps"),
    ]
