"""P20: computed states are admissible and in equilibrium."""
import numpy as np
from hypothesis import strategies as st

import sut
from common import Sub, load_sut, require
from props import sol

fm = load_sut()


def admissible(s, u, f, Z, what, labels):
    top = s.Z[0]
    g = sol.gaps(s, u, Z)
    slack = 2 * s.tol + 1e-9 * top
    k = int(np.argmin(g))
    require(g[k] >= -slack, "{}: {} penetration of {}", what, ["floor", "fiber", "ceiling"][k % 3], -g[k])
    free, K = sol.soft(s)
    require(np.abs(u[~free]) == 0, "{}: rotation of a node of infinite tensile modulus", what)
    r = (K @ u + s.C.T @ f)[free]
    scale = (np.abs(K) @ np.abs(u)).max() + np.abs(f).max()
    require(np.abs(r) <= 1e-8 * scale, "{}: elastic and contact forces differ by {} (scale {})",
            what, np.abs(r).max(), scale)
    require(np.isfinite(f), "{}: undefined contact forces", what)
    on = np.abs(f) > 1e-7 * np.abs(f).max() + 1e-12 * scale
    require(g[on] <= slack, "{}: a contact force acts across a gap of {}", what, g[on].max() if on.any() else 0)
    return on.any()


def states(c, T=None):
    mat, mesh = sol.assemble(c, T)
    kw = {} if c.get("interp_size") is None else {"interp_size": c["interp_size"]}
    s = sol.run(c, mat, mesh)
    # sizes and matrices
    Kd = sut.dense(fm.stiffness(mat, mesh, lmin=c["lmin"], coupling=c["coupling"])[0], "stiffness")
    require((s.K == Kd) | (np.isnan(s.K) & np.isnan(Kd)), "K is not the stiffness matrix of the problem")
    require(s.C == sut.dense(fm.constraint(mat, mesh)[0], "constraint"), "C is not the constraint matrix")
    require(len(s.Z) == len(s.rl) == len(s.mask) == len(s.err), "results have different numbers of states")
    require(s.mask.dtype == bool, "the mask is not boolean")
    # initial state
    top = (s.m.z + s.h / 2).max()
    require(s.u[0] == 0, "initial displacements are not zero")
    require(s.f[0] == 0, "initial forces are not zero")
    require(abs(s.Z[0] - top) <= 1e-12 * top and s.rl[0] == 1, "initial ceiling at {} (stack: {})", s.Z[0], top)
    require(s.F == 0, "external loads are not zero")
    loaded = False
    labels = []
    for k in range(s.states):
        loaded |= bool(admissible(s, s.u[k], s.f[k], s.Z[k], "state %d of %d" % (k, s.steps), labels))
    require((s.err >= 0) & (s.err <= s.errtol), "reported errors {}", s.err)
    # between states
    K, C, u, f, F, H, Z, rl, mask, err = s.raw
    for t in c["times"]:
        ut, ft, Zt = (np.array(q(t), dtype=float) for q in (u, f, Z))
        admissible(s, ut, ft, float(Zt), "time %g" % t, labels)
    for q, a in ((u, s.u), (f, s.f), (Z, s.Z)):
        require(np.allclose(q(0.0), a[0], rtol=1e-12, atol=0) and np.allclose(q(1.0), a[-1], rtol=1e-12, atol=0),
                "the end states are not at times 0 and 1")
    return s.steps >= 2 and loaded, ["steps=%d" % min(s.steps, 10) if s.steps < 50 else "steps>=50" if s.steps < 100 else "steps>=100", "loaded" if loaded else "unloaded",
                                     "periodic" if c["periodic"] else "bounded"]


def with_times(strategy):
    return st.tuples(strategy, st.lists(st.integers(0, 1000), min_size=1, max_size=4)).map(
        lambda p: dict(p[0], times=[v / 1000 for v in p[1]]))


@st.composite
def seeded(draw):
    return {"n": draw(st.integers(10, 60)), "seed": draw(st.integers(0, 10 ** 6)),
            "length": draw(st.sampled_from([15.0, 25.0, 40.0])), "tensile": draw(st.sampled_from([100.0, 2500.0, "inf"])),
            "periodic": draw(st.booleans()), "threshold": draw(st.sampled_from([None, 10.0])),
            "packing": draw(st.sampled_from([2.0, 4.0])), "itermax": draw(st.sampled_from([10, 40])),
            "lmin": 0.01, "coupling": 0.99, "verbose": draw(st.booleans()), "times": [draw(st.integers(0, 1000)) / 1000]}


@st.composite
def histories(draw):
    """Tens to hundreds of steps."""
    return {"n": draw(st.integers(30, 60)), "seed": draw(st.integers(0, 10 ** 6)), "length": draw(st.sampled_from([25.0, 30.0])),
            "tensile": draw(st.sampled_from([2500.0, 2500.0, 100.0])), "periodic": draw(st.booleans()),
            "threshold": draw(st.sampled_from([None, 10.0, 3.0])), "packing": draw(st.sampled_from([4.0, 8.0])), "itermax": 1000,
            "lmin": 0.01, "coupling": 0.99, "tol": draw(st.sampled_from([1e-6, 1e-6, 1e-9, 1e-12])), "verbose": False,
            "times": [draw(st.integers(0, 1000)) / 1000 for _ in range(3)]}


def large(c):
    # same checks on mats generated by the library itself
    mat = fm.Mat(c["n"], length=c["length"], size=50.0, seed=c["seed"],
                 tensile=np.inf if c["tensile"] == "inf" else c["tensile"])
    T = mat.values.astype(float)
    return states({**c, "size": 50.0}, T)


def subs():
    return [
        Sub("states", with_times(sol.problems(finite=True, warped=True)), states, 32, 700,
            "generated stacks with finite moduli, all states and times between; non-trivial: >= 2 "
            "steps and contact forces"),
        Sub("rigid", with_times(sol.problems(finite=False)), states, 14, 300,
            "some or all tensile moduli infinite"),
        Sub("seeded", seeded(), large, 4, 60, "library mats of 10 to 60 fibers"),
        Sub("long", histories(), large, 8, 60, "library mats of 30 to 60 fibers, compacted without limit of steps", scale=False),
    ]
