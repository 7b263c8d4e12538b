"""P25: contacts push."""
import math

import numpy as np
from hypothesis import strategies as st

import gens
import ref
from common import Sub, load_sut, require
from props import mech, meshgen, sol

fm = load_sut()
TOL = sol.TOL


def silent(s, k, noise):
    """No force in open contacts nor between a fiber end and itself."""
    for r, (i, j) in enumerate(s.pairs):
        if i == j:
            require(s.f[k][3 * r + 1] == 0, "state {}: a force of {} acts between fiber end {} and itself", k, s.f[k][3 * r + 1], i)
    g = sol.gaps(s, s.u[k], s.Z[k])
    op = g > 2 * s.tol + 1e-9 * s.Z[0]
    require(np.abs(s.f[k][op]) <= noise, "state {}: open contacts carry forces up to {}", k, np.abs(s.f[k][op]).max() if op.any() else 0)
    return g


def newly_closed(c):
    mat, mesh = sol.assemble(c)
    s = sol.run(c, mat, mesh)
    free, K = sol.soft(s)
    noise = 1e-9 * np.abs(s.f).max() + 1e-13 * max((np.abs(K) @ np.abs(u)).max() for u in s.u)
    g = [silent(s, k, noise) for k in range(s.states)]
    amb = [bool(np.any((x > 0.05 * s.tol) & (x < 20 * s.tol))) for x in g]
    judged = strict = 0
    for k in range(s.steps - 1):
        # contacts that close at the end of step k act during step k + 1
        if amb[k] or amb[k + 1]:
            continue
        new = np.flatnonzero((g[k] > s.tol) & (g[k + 1] <= s.tol))
        if not len(new):
            continue
        judged += 1
        rate = (s.f[k + 2] - s.f[k + 1])[new]
        speed = g[k][new] / (s.Z[k] - s.Z[k + 1])
        power = float(rate @ speed)
        require(power >= -noise * speed.max() * len(new), "contacts {} closed at state {} then pull: force increments {}", new, k + 1, rate)
        if len(new) == 1:
            require(rate[0] >= -noise, "contact {} closed at state {} then pulls ({})", new[0], k + 1, rate[0])
        # it is the closing that is resisted: an independent model tells when the force is sizeable
        o = sol.step_model(s, s.u[k + 1], s.Z[k + 1])
        if len(new) == 1 and o is not None and not o["jam"] and o["unique_f"]:
            expected = o["f"][new[0]] * (s.Z[k + 1] - s.Z[k + 2])
            if expected > 1e3 * noise:
                strict += 1
                require(rate[0] > 0.5 * expected, "contact {} closed at state {} does not push: {} instead of {}", new[0], k + 1, rate[0], expected)
    return judged >= 1, ["strict"] * bool(strict) + ["judged=%d" % min(judged, 10)]


@st.composite
def rigs(draw):
    """Independent three-point bending assemblies side by side under one ceiling."""
    one = st.fixed_dictionaries({
        "a": st.integers(3, 20), "b": st.integers(3, 20), "c": st.integers(-80, 80),
        "hang": st.integers(1, 10), "h": st.lists(st.sampled_from([0.2, 0.5, 1.0, 2.0]), min_size=3, max_size=3),
        "w": st.sampled_from([0.5, 1.0, 2.0]), "G": st.sampled_from([0.5, 1.0, 2.0]),
        "E": st.sampled_from([10.0, 100.0, 2500.0])})
    return {"rigs": draw(st.lists(one, min_size=1, max_size=4)), "packing": draw(st.sampled_from([1.3, 2.0, 5.0])),
            "lmin": draw(st.sampled_from([None, 0.01])),
            "unit": draw(st.sampled_from([1.0, 1.0, 1e-3, 30.0])), "coupling": draw(st.sampled_from([1.0, 0.99]))}


def bending(c):
    """Each rig: two supports on the floor, a beam across them, a loading fiber on the beam."""
    rows, S = [], 200.0
    for k, r in enumerate(c["rigs"]):
        x0 = 40.0 * k - 60.0
        hs, hb, hl = r["h"]
        hl = hl + hs          # the middle of the beam meets the floor before its ends meet the ceiling
        a, b = r["a"] / 2, r["b"] / 2
        p = (a + b) * (r["c"] / 100) / 2 + (b - a) / 2      # strictly between the supports
        hang = r["hang"] / 20
        mid = (b - a) / 2
        L = a + b + 2 * hang
        # supports and loading fiber along y, beam along x
        rows += [(0, [3.0, r["w"], hs, x0 - a, 0, 0, 0, 1, 0, r["G"], r["E"]]),
                 (0, [4.0, r["w"], hs, x0 + b, 0, 0, 0, 1, 0, r["G"], r["E"]]),
                 (1, [L, r["w"], hb, x0 + mid, 0, 0, 1, 0, 0, r["G"], r["E"]]),
                 (2, [5.0, r["w"], hl, x0 + p, 0, 0, 0, 1, 0, r["G"], r["E"]])]
    rows.sort(key=lambda t: t[0])
    T = np.array([t[1] for t in rows], dtype=float)
    unit = c["unit"]
    T[:, :6] *= unit
    mat = fm.Mat(gens.dataframe({"size": S * unit}, T))
    stack = fm.Stack(mat, fm.Net(mat, periodic=False))
    mesh = fm.Mesh(stack)
    # each rig has three crossings
    require(len(mesh) == 2 * (len(T) + 3 * len(c["rigs"])), "unexpected number of nodes")
    s = sol.run(dict(c, itermax=100), mat, mesh, lmin=c["lmin"] and c["lmin"] * unit, tol=TOL * unit,
                errtol=1e-6 * max(1.0, unit ** 2))
    free, K = sol.soft(s)
    noise = 1e-7 * np.abs(s.f).max() + 1e-12 * max((np.abs(K) @ np.abs(u)).max() for u in s.u)
    # beam ends may be lifted against the ceiling: the rig is then no three-point bending any more
    ends = set()
    for k in range(s.states):
        g = silent(s, k, noise)
        lifted = [r for r, (i, j) in enumerate(s.pairs) if i == j and g[3 * r + 2] <= 2 * s.tol
                  and abs(s.m.z[i] - (s.m.z[j])) == 0 and T[s.m.fiber[i], ref.U] == 1]
        if lifted:
            return k >= 2, ["lifted ends"]
        require(s.f[k] >= -noise, "state {}: a contact pulls with a force of {} (largest push: {})", k, s.f[k].min(), s.f[k].max())
    return s.steps >= 1 and np.abs(s.f).max() > 0, ["rigs=%d" % len(c["rigs"]), "steps=%d" % min(s.steps, 5), "unit %g" % unit]


def known_release():
    """solve() never releases contacts: contact forces get negative during compaction."""
    mat = fm.Mat(10, length=25, width=2, thickness=0.5, tensile=2500, seed=0)
    mesh = fm.Mesh(fm.Stack(mat, fm.Net(mat), threshold=10))
    f = fm.solve(mat, mesh, packing=4, lmin=0.01, coupling=0.99, verbose=False)[3]
    return bool(f().min() < -1e-3)


KNOWN = [("never-released", known_release)]


def subs():
    return [
        Sub("closing", sol.problems(finite=True, warped=True), newly_closed, 35, 700,
            "generated stacks; non-trivial: a contact closes and is followed by another step"),
        Sub("large", sol.problems(nmin=16, nmax=36, finite=True), newly_closed, 2, 60, "stacks of 16 to 36 fibers"),
        Sub("bending", rigs(), bending, 40, 800,
            "one to four three-point-bending assemblies; non-trivial: at least one loaded step"),
    ]
