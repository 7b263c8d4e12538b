"""P24: global balance, stiffening, work and energy."""
import numpy as np

from common import Sub, load_sut, require
from props import sol
from props.p20 import histories

fm = load_sut()


def balance(c, T=None):
    mat, mesh = sol.assemble(c, T)
    s = sol.run(c, mat, mesh)
    free, K = sol.soft(s)
    floor = s.f[:, 0::3].sum(axis=1)
    ceil = s.f[:, 2::3].sum(axis=1)
    big = np.abs(s.f).max()
    noise = 1e-12 * max((np.abs(K) @ np.abs(u)).max() for u in s.u)
    tol = 1e-7 * big + noise
    k = int(np.argmax(np.abs(floor - ceil)))
    require(np.abs(floor - ceil) <= tol, "state {}: the floor carries {}, the ceiling {}", k, floor[k], ceil[k])
    require(ceil >= -tol, "the ceiling is pulled: {}", ceil)
    require(floor >= -tol, "the floor is pulled: {}", floor)
    require(np.diff(ceil) >= -tol, "the load decreases during compaction: {}", ceil)
    # each fiber
    nod = s.f @ s.C[:, ::2]
    for f in range(len(s.E)):
        r = nod[:, s.m.fiber == f].sum(axis=1)
        require(np.abs(r) <= tol, "the contact forces on fiber {} sum to {}", f, r[np.argmax(np.abs(r))])
    # work of the ceiling against the stored energy
    E = np.array([0.5 * u @ K @ u for u in s.u])
    W = np.r_[0, np.cumsum(-np.diff(s.Z) * (ceil[1:] + ceil[:-1]) / 2)]
    enoise = 1e-12 * max(np.abs(u) @ np.abs(K) @ np.abs(u) for u in s.u) + tol * s.Z[0]
    k = int(np.argmax(np.abs(E - W)))
    require(np.abs(E - W) <= 1e-6 * np.abs(W).max() + enoise, "state {}: stored energy {}, work of the ceiling {}", k, E[k], W[k])
    require(np.diff(E) >= -enoise, "the stored energy decreases: {}", E)
    return s.steps >= 2 and ceil[-1] > tol, ["loaded" if ceil[-1] > tol else "unloaded", "steps=%d" % min(s.steps, 10)]


def library(c):
    mat = fm.Mat(c["n"], length=c["length"], size=50.0, seed=c["seed"], tensile=c["tensile"])
    return balance({**c, "size": 50.0}, mat.values.astype(float))


def subs():
    return [
        Sub("finite", sol.problems(finite=True, warped=True), balance, 40, 900,
            "generated stacks; non-trivial: at least two steps and a positive load"),
        Sub("large", sol.problems(nmin=16, nmax=36, finite=True), balance, 4, 60, "stacks of 16 to 36 fibers"),
        Sub("long", histories(), library, 6, 40, "library mats of 30 to 60 fibers, compacted without limit of steps", scale=False),
        Sub("rigid", sol.problems(finite=False), balance, 15, 300, "some or all tensile moduli infinite"),
    ]
