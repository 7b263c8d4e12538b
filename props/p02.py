"""P02: distribution of generated mats."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.stats import rankdata

import sut
from common import Sub, load_sut, require

fm = load_sut()


@st.composite
def params(draw):
    return {
        "n": draw(st.sampled_from([2000, 500, 100, 40, 10])),
        "seed": draw(st.integers(0, 2 ** 31)),
        "size": draw(st.sampled_from([1.0, 10.0, 50.0, 333.0])),
        "theta": draw(st.sampled_from([math.pi, math.pi / 2, 1.0, 0.25])),
        "psi": draw(st.sampled_from([math.pi, math.pi / 2, 1.0, 0.25])),
        "length": draw(st.sampled_from([1.0, 25.0, 200.0])),
    }


def unit(mat, case):
    d = sut.mat(mat, "Mat")
    return np.c_[d["x"] / case["size"] + 0.5, d["y"] / case["size"] + 0.5,
                 d["z"] / case["size"] + 0.5,
                 np.arctan2(d["v"], d["u"]) / case["theta"] + 0.5,
                 np.arcsin(np.clip(d["w"], -1, 1)) / case["psi"] + 0.5]


NAMES = ["x", "y", "z", "in-plane angle", "out-of-plane angle"]


def ks(u):
    u = np.sort(u)
    n = len(u)
    k = np.arange(n)
    return math.sqrt(n) * max(np.max((k + 1) / n - u), np.max(u - k / n))


def check(case):
    total = 4000
    m = max(1, total // case["n"])
    kw = {k: v for k, v in case.items() if k != "seed"}
    parts = [unit(fm.Mat(seed=case["seed"] + k, **kw), case) for k in range(m)]
    P = np.concatenate(parts)
    n = len(P)
    for k, name in enumerate(NAMES):
        stat = ks(P[:, k])
        require(stat < 3.4, "{} is not uniform: Kolmogorov statistic sqrt(n) D = {:.2f} (n = {})",
                name, stat, n)
    # rank correlations, also between distances to the middle (catches |.|-type dependence)
    R = np.c_[P, np.abs(P - 0.5)]
    R = np.apply_along_axis(rankdata, 0, R)
    R = (R - R.mean(0)) / R.std(0)
    C = R.T @ R / n * math.sqrt(n)
    for a in range(10):
        for b in range(a):
            require(abs(C[a, b]) < 7.0, "{} and {} are correlated: r sqrt(n) = {:.1f}",
                    NAMES[a % 5], NAMES[b % 5], C[a, b])
    # successive fibers (z is sorted)
    for a in (0, 1, 3, 4):
        for b in (0, 1, 3, 4):
            r = np.mean(R[1:, a] * R[:-1, b]) * math.sqrt(n)
            require(abs(r) < 7.0, "{} depends on {} of the previous fiber: {:.1f}",
                    NAMES[a], NAMES[b], r)
    # fibers of the same mat do not avoid or attract each other: coincidences in equal cells
    for cols in [(k,) for k in range(5)] + [(0, 1), (3, 4), (0, 3), (1, 2)]:
        for per in (1, 8):
            b = max(2, int(round((case["n"] / per) ** (1 / len(cols)))))
            cells = b ** len(cols)
            pairs = mean = var = 0.0
            for U in parts:
                j = np.zeros(len(U), dtype=int)
                for k in cols:
                    j = j * b + np.clip((U[:, k] * b).astype(int), 0, b - 1)
                c = np.bincount(j, minlength=cells)
                pairs += np.sum(c * (c - 1)) / 2
                q = len(U) * (len(U) - 1) / 2
                mean += q / cells
                var += q / cells * (1 - 1 / cells)
            require(abs(pairs - mean) < 8 * math.sqrt(var),
                    "{} coincidences of {} in {} equal cells instead of {} +- {:.0f}: fibers are not independent",
                    int(pairs), " and ".join(NAMES[k] for k in cols), cells, int(mean), math.sqrt(var))
    # seeds matter
    if m > 1:
        for a in range(min(m, 12)):
            for b in range(a):
                require(not np.array_equal(parts[a], parts[b]),
                        "seeds {} and {} give the same mat", case["seed"] + a, case["seed"] + b)
    else:
        other = unit(fm.Mat(seed=case["seed"] + 1, **kw), case)
        require(not np.any(np.all(other == parts[0], axis=0)), "two seeds give equal columns")
    return True, ["n=%d" % case["n"]]


# Different seeds: a birthday search. 2 500 mats of 2 fibers agree by accident with probability
# below 1e-25 (every coordinate is a 53-bit number); if the seed only counted through m possible
# values, two of k random seeds agree with probability 1 - exp(-k^2 / 2 m).
@st.composite
def seedsets(draw):
    kind = draw(st.sampled_from(["random", "random", "random", "range", "high", "stride"]))
    return {"kind": kind, "k": draw(st.sampled_from([600, 1500])),
            "start": draw(st.integers(0, 2 ** 30)), "n": draw(st.integers(1, 3))}


def seeds_of(case):
    k, s = case["k"], case["start"]
    if case["kind"] == "random":
        return sorted(set(np.random.RandomState(s % 2 ** 32).randint(0, 2 ** 32, k, dtype=np.uint64).tolist()))
    if case["kind"] == "range":
        return list(range(s % 5000, s % 5000 + k))
    if case["kind"] == "high":
        return list(range(2 ** 32 - k, 2 ** 32))
    step = 1 + s % 2 ** 20
    return list(range(s % 7, min(2 ** 32, s % 7 + k * step), step))


def check_seeds(case):
    seen = {}
    for s in seeds_of(case):
        mat = fm.Mat(n=case["n"], psi=1.0, seed=s)
        key = tuple(mat[c].values.tobytes() for c in ("x", "y", "z", "u"))
        require(key not in seen, "seeds {} and {} give the same mat", seen.get(key), s)
        seen[key] = s
    return True, [case["kind"]]


def subs():
    return [Sub("seeds", seedsets(), check_seeds, 4, 60,
                "sets of 600 or 1500 different seeds over the 32-bit range (random, consecutive, "
                "highest, strided): all mats differ; non-trivial: all"),
            Sub("uniform", params(), check, 12, 150,
                "4000 fibers pooled over consecutive seeds, for random openings and box sizes (uniformity, "
                "correlations, coincidences within each mat); "
                "non-trivial: all (p-value threshold 1e-9 per statistic)")]
