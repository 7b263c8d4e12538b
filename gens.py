"""Hypothesis strategies. Every case is a JSON-able value; geometry is drawn on grids.

Fiber angles are multiples of 1/500 turn of pi (never nearly parallel without being
parallel) and positions multiples of size/1000, so that exact coincidences (parallel
fibers, common centres, crossings at tips, fibers on the domain boundary) do occur while
numerically meaningless near-coincidences do not.
"""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

NANG = 500      # angles: theta = pi * k / NANG, -NANG/2 < k <= NANG/2
NPOS = 1000     # positions: size * k / NPOS, |k| <= NPOS / 2


def biased_int(lo, hi, special=()):
    base = st.integers(lo, hi)
    special = [s for s in special if lo <= s <= hi]
    if special:
        # every value of a wide range stays likely; a few special ones are favoured
        return st.one_of(base, base, base, st.sampled_from(special))
    return base


def angle():
    return biased_int(-NANG // 2 + 1, NANG // 2, (0, NANG // 2, NANG // 4, -NANG // 4))


def out_angle():
    return biased_int(-NANG // 6, NANG // 6, (0,))


def pos():
    return biased_int(-NPOS // 2, NPOS // 2, (0, NPOS // 2, -NPOS // 2, 100, -100))


DIMS = [0.1, 0.2, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0]
SIZES = [10.0, 20.0, 32.0, 50.0, 100.0]


@st.composite
def fibers(draw, nmin=1, nmax=8, size=None, lfrac=(100, 1000), planar=True,
           poly=True, moduli=False, sort_z=True, finite_E=False, bulk=False):
    """A mat description: {"size", "fibers": [[l,b,h,x,y,z,theta,psi,G,E],...]}.

    l, x, y are given as integers (per mille of size), theta, psi as integers (pi / NANG).
    """
    S = size if size is not None else draw(st.sampled_from(SIZES))
    # other units of length: kilometres or micrometres, for sizes and thicknesses alike
    unit = draw(st.sampled_from([1.0] * 7 + [1e-3, 1e3])) if size is None else 1.0
    S *= unit
    n = draw(st.integers(nmin, nmax))
    same = (not poly) or draw(st.integers(0, 2)) == 0
    L0 = draw(st.integers(*lfrac))
    b0 = draw(st.sampled_from(DIMS))
    h0 = draw(st.sampled_from(DIMS))
    G0 = draw(st.sampled_from([1.0, 2.0, 0.5, 100.0])) if moduli else 1.0
    E0 = draw(st.sampled_from([10.0, 2500.0, 625.0] + ([] if finite_E else ["inf"]))) if moduli else "inf"
    out = []
    # Two sources of randomness: value by value (coincidences, good shrinking), or in bulk from
    # a drawn integer (generic mats, with many fibers and crossings); both are functions of
    # Hypothesis' choices only, and the case is written out in full.
    if bulk or draw(st.integers(0, 9)) < 7:
        rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
        if not bulk:        # large mats: the size stays a choice of its own, to be shrunk
            n = nmax - int((nmax - nmin + 1) * rng.uniform() ** 1.5)
            n = max(nmin, min(nmax, n))
        fan = [NANG // 2, NANG // 2, NANG // 2, NANG // 8][rng.randint(4)]
        lo, hi = lfrac
        if rng.uniform() < 0.6:      # long fibers: many crossings
            lo = lo + (hi - lo) // 2
        span = NPOS // 2 if rng.uniform() < 0.6 else NPOS // 4
        L0 = int(rng.randint(lo, hi + 1))
        # a bundle: nearly parallel fibers (0.36 degrees apart or more), close to each other
        bundle = rng.uniform() < 0.12
        yspan = span
        if bundle:
            fan, yspan = [3, NANG // 60, NANG // 25][rng.randint(3)], NPOS // 60
        turn = rng.uniform() < 0.5
        extremes = rng.uniform() < 0.4      # mostly short fibers and a few long ones
        for i in range(n):
            l, b, h, G, E = L0, b0, h0, G0, E0
            if not same:
                l = int(rng.randint(lo, hi + 1))
                if extremes:
                    l = [hi, lfrac[0], lfrac[0] + (hi - lfrac[0]) // 8][rng.randint(3)]
                b, h = [DIMS[k] for k in rng.randint(0, len(DIMS), 2)]
                if moduli:
                    G = [1.0, 2.0, 0.5, 100.0][rng.randint(4)]
                    E = [10.0, 2500.0, 625.0, "inf"][rng.randint(3 if finite_E else 4)]
            x, y = int(rng.randint(-span, span + 1)), int(rng.randint(-yspan, yspan + 1))
            z = int(rng.randint(-NPOS // 2, NPOS // 2 + 1))
            p = int(rng.randint(-fan + 1, fan + 1))
            q = 0 if planar else int(rng.randint(-NANG // 6, NANG // 6 + 1))
            if bundle and turn:
                x, y, p = y, x, p + NANG // 2 if p <= 0 else p - NANG // 2
            out.append([l, b, h, x, y, z, p, q, G, E])
        if sort_z:
            out.sort(key=lambda r: r[5])
        return scaled(S, out, unit)
    for i in range(n):
        if same:
            l, b, h, G, E = L0, b0, h0, G0, E0
        else:
            l = draw(st.integers(*lfrac))
            b = draw(st.sampled_from(DIMS))
            h = draw(st.sampled_from(DIMS))
            if moduli:
                G = draw(st.sampled_from([1.0, 2.0, 0.5, 100.0]))
                E = draw(st.sampled_from([10.0, 2500.0, 625.0] + ([] if finite_E else ["inf"])))
            else:
                G, E = G0, E0
        x, y, z = draw(pos()), draw(pos()), draw(pos())
        p = draw(angle())
        q = 0 if planar else draw(out_angle())
        out.append([l, b, h, x, y, z, p, q, G, E])
    if sort_z:
        out.sort(key=lambda r: r[5])
    return scaled(S, out, unit)


def scaled(S, out, unit):
    """The mat with widths and thicknesses in the given unit (the rest is relative to the size)."""
    if unit != 1:
        out = [[r[0], r[1] * unit, r[2] * unit] + r[3:] for r in out]
    return {"size": S, "fibers": out}


def table(case):
    """Columns l b h x y z u v w G E of a mat description (harness-side arrays)."""
    S = case["size"]
    rows = []
    for l, b, h, x, y, z, p, q, G, E in case["fibers"]:
        th, ps = math.pi * p / NANG, math.pi * q / NANG
        E = math.inf if E == "inf" else float(E)
        rows.append([S * l / 1000., b, h, S * x / NPOS, S * y / NPOS, S * z / NPOS,
                     math.cos(th) * math.cos(ps), math.sin(th) * math.cos(ps), math.sin(ps),
                     G, E])
    return np.array(rows, dtype=float).reshape(-1, 11)


COLS = [*"lbhxyzuvwGE"]


def dataframe(case, T=None):
    """A plain DataFrame with the attributes Mat() requires."""
    T = table(case) if T is None else T
    df = pd.DataFrame(np.array(T, dtype=float), columns=COLS)
    df.attrs["n"] = len(df)
    df.attrs["size"] = case["size"]
    return df


def make_mat(fm, case, T=None):
    return fm.Mat(dataframe(case, T))


def large(nmax):
    """Parameters of mats with hundreds of fibers, generated by fibermat itself."""
    return st.fixed_dictionaries({
        "n": st.integers(200, nmax), "seed": st.integers(0, 10 ** 6),
        "length": st.sampled_from([2.0, 5.0, 12.5, 25.0]), "size": st.sampled_from([50.0, 10.0, 0.05, 1e4]),
        "theta": st.sampled_from([3.14159, 1.0, 0.1])})
