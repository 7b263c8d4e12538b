"""P21: load bookkeeping and stopping criteria."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import sut
from common import Sub, load_sut, require
from props import sol

fm = load_sut()


def history(c):
    mat, mesh = sol.assemble(c)
    s = sol.run(c, mat, mesh)
    top = s.Z[0]
    require(s.steps <= c["itermax"], "{} steps for at most {}", s.steps, c["itermax"])
    dZ = np.diff(s.Z)
    require(dZ < 0, "the ceiling does not go down at every step: {}", s.Z)
    require(np.abs(s.rl - s.Z[0] / s.Z) <= 1e-12 * s.rl, "stretch factors {} are not Z0 / Z", s.rl)
    require(s.rl[:-1] < c["packing"], "steps are taken after the target {}: {}", c["packing"], s.rl)
    # bounds move with the ceiling, and only ceiling rows do
    H0 = fm.constraint(mat, mesh)[2]
    for k in range(s.states):
        for r, name in ((0, "floor"), (1, "inner"), (2, "ceiling")):
            e = H0[r::3] + ((s.Z[k] - s.Z[0]) if r == 2 else 0)
            g = s.H[k][r::3]
            inf = np.isinf(e)
            require(g[inf] == np.inf, "a {} bound of a fiber end is not infinite", name)
            require(np.abs(g[~inf] - e[~inf]) <= 1e-10 * top, "{} bounds at state {} moved by {}", name, k,
                    np.abs(g[~inf] - e[~inf]).max() if (~inf).any() else 0)
    # why did it stop ?
    if s.rl[-1] >= c["packing"]:
        why = "target"
    elif s.steps == c["itermax"]:
        why = "itermax"
    else:
        o = sol.step_model(s, s.u[-1], s.Z[-1])
        if o is None or not (o["jam"] or o["unique_f"]):
            why = "ambiguous"
        elif o["jam"]:
            why = "jammed"
        else:
            nxt, sure = sol.next_event(o)
            require(nxt is None or not sure,
                    "stopped after {} steps at packing {} (target {}) although a contact closes after {} more",
                    s.steps, s.rl[-1], c["packing"], nxt)
            why = "no contact" if sure else "ambiguous"
    # a jammed packing cannot be compacted
    for k in range(s.steps):
        o = sol.step_model(s, s.u[k], s.Z[k])
        require(o is None or not o["jam"], "a step is taken from state {} where the packing is jammed", k)
    # Prefix: smaller limits give the beginning of the same history
    for lim in sorted({0, 1, s.steps // 2, s.steps} & set(range(s.steps + 1))):
        p = sol.run(c, mat, mesh, itermax=lim)
        require(p.steps == lim, "{} steps with itermax={} (the history has {})", p.steps, lim, s.steps)
        require(np.abs(p.Z - s.Z[:lim + 1]) <= 1e-9 * top, "with itermax={} the ceiling follows {} instead of {}", lim, p.Z, s.Z[:lim + 1])
        require(np.abs(p.u - s.u[:lim + 1]).max() <= 1e-7 * max(top, np.abs(s.u).max()), "with itermax={} displacements differ", lim)
    return s.steps >= 2, ["stop:" + why, "steps=%d" % min(s.steps, 10)]


def targets(c):
    """Lower targets stop the same history earlier, exactly at the first state that reaches them."""
    mat, mesh = sol.assemble(c)
    s = sol.run(c, mat, mesh)
    for num in c["fractions"]:
        goal = 1 + (s.rl[-1] - 1) * num / 100 if num < 100 else s.rl[min(s.steps, num - 100)]
        k = int(np.argmax(s.rl >= goal))
        if np.any(np.abs(s.rl[1:] - goal) < 1e-9) and num < 100:
            continue
        p = sol.run(c, mat, mesh, packing=goal)
        if num >= 100:
            # exactly the packing of a state: reached there (or not, by rounding only)
            require(p.steps in (k, k + 1) and abs(s.rl[k] - goal) < 1e-9, "target {}: stops after {} steps, reached after {}", goal, p.steps, k)
            continue
        require(p.steps == k, "target {}: stops after {} steps (packing {}), reached after {} ({})",
                goal, p.steps, p.rl[-1], k, s.rl)
    p = sol.run(c, mat, mesh, packing=1.0)
    require(p.steps == 0, "steps are taken for a packing of 1")
    return s.steps >= 2, []


def sampled(c):
    """The stopping criteria are those of the steps, whatever the number of interpolation points."""
    mat, mesh = sol.assemble(c)
    s = sol.run(c, mat, mesh)
    for n in c["sizes"]:
        p = sol.run(c, mat, mesh, interp_size=n)
        require(np.shape(p.raw[5]()) [0] == n, "{} samples instead of {}", np.shape(p.raw[5]())[0], n)
        for k, name in ((2, "u"), (3, "f"), (6, "Z"), (7, "stretch factor"), (9, "error")):
            for t in (0, 1):
                a, b = np.asarray(s.raw[k](t)), np.asarray(p.raw[k](t))
                require(np.abs(a - b) <= 1e-9 * max(1e-12, np.abs(a).max() if a.size else 0),
                        "{} of the {} state with interp_size={} differs", name, "last" if t else "first", n)
        last = float(np.asarray(p.raw[7](1)))
        if last < c["packing"]:
            require(len(p.rl) == len(s.rl), "stopped at packing {} (target {}) after {} steps with interp_size={}, after {} steps without",
                    last, c["packing"], len(p.rl) - 1, n, s.steps)
        require(np.array_equal(p.mask[-1], s.mask[-1]), "the last state of contact with interp_size={} differs", n)
    return s.steps >= 2, ["fewer" if min(c["sizes"]) <= s.steps else "more"]


DEFAULTS = {"packing": 1.0, "itermax": 1000, "tol": 1e-6, "errtol": 1e-6, "interp_size": None, "verbose": True,
            "perm": None, "lmin": None, "lmax": None, "coupling": 1.0}


def omitted(c):
    """Settings that are not given have their documented default values."""
    mat, mesh = sol.assemble(c)
    mine = {"packing": c["packing"], "itermax": c["itermax"], "tol": c["tol"], "errtol": c["errtol"], "interp_size": 9,
            "verbose": False, "perm": np.arange(2 * len(mesh) + 3 * int(np.sum(mesh.index.values <= mesh.constraint.values)))[::-1],
            "lmin": c["lmin"], "lmax": 20.0 * c["size"] / 50, "coupling": c["coupling"]}
    out = []
    for full in (False, True):
        kw = {k: v for k, v in mine.items() if k not in c["omit"]}
        if full:
            kw.update({k: DEFAULTS[k] for k in c["omit"]})
        with contextlib.redirect_stderr(io.StringIO()):
            r = sut.unpack(fm.solve(mat, mesh, **kw), 10, "solve")
        out.append([sut.dense(r[0], "K"), sut.dense(r[1], "C")] + [np.asarray(q()) for q in r[2:]])
    for name, a, b in zip(("K", "C", "u", "f", "F", "H", "Z", "stretch factor", "mask", "err"), *out):
        require(a.shape == b.shape, "without {}: {} has shape {}, {} with the documented defaults", c["omit"], name, a.shape, b.shape)
        require(np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
                or (a.dtype.kind == "f" and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)), "without {}: {} differs from the one with the documented defaults",
                c["omit"], name)
    return len(out[0][7]) >= 2 or "packing" in c["omit"], sorted(c["omit"])


@st.composite
def without(draw):
    c = draw(sol.problems(nmax=8, finite=True, units=False))
    c["omit"] = draw(st.lists(st.sampled_from(sorted(DEFAULTS)), unique=True, min_size=1, max_size=4))
    return c


@st.composite
def with_sizes(draw):
    c = draw(sol.problems(finite=True))
    c["sizes"] = draw(st.lists(st.integers(2, 6), min_size=1, max_size=2, unique=True)) + [draw(st.integers(7, 60))]
    return c


@st.composite
def with_fractions(draw):
    c = draw(sol.problems(finite=True))
    c["fractions"] = draw(st.lists(st.one_of(st.integers(1, 99), st.integers(100, 110)), min_size=1, max_size=4))
    return c


def subs():
    return [
        Sub("history", sol.problems(finite=True), history, 25, 500,
            "generated stacks; non-trivial: at least two steps"),
        Sub("large", sol.problems(nmin=16, nmax=36, finite=True), history, 2, 60, "stacks of 16 to 36 fibers"),
        Sub("sampled", with_sizes(), sampled, 10, 300, "other numbers of interpolation points; non-trivial: >= 2 steps"),
        Sub("omitted", without(), omitted, 12, 200, "some settings left out; non-trivial: >= 1 step, or no target given"),
        Sub("targets", with_fractions(), targets, 20, 400, "packing targets along a history; non-trivial: >= 2 steps"),
    ]
