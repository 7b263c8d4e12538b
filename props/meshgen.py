"""Networks for P15 and P16: built from generated mats, and given tables."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import sut
from common import load_sut

fm = load_sut()

THRESHOLDS = [None, None, None, 0.0, 0.3, 1.0, 2.5, 10.0, -1.0]


@st.composite
def built(draw, nmin=1, nmax=9, bulk=False):
    planar = draw(st.integers(0, 3)) > 0
    c = draw(gens.fibers(nmin=nmin, nmax=nmax, bulk=bulk, planar=planar, lfrac=(200, 1000)))
    c["periodic"] = draw(st.booleans())
    c["stack"] = planar and draw(st.booleans())
    c["threshold"] = draw(st.sampled_from(THRESHOLDS)) if c["stack"] else None
    return c


def network(c):
    mat = gens.make_mat(fm, c)
    net = fm.Net(mat, periodic=c["periodic"])
    if c["stack"]:
        net = fm.Stack(mat, net, threshold=c["threshold"])
    return mat, net


@st.composite
def seeded(draw):
    return {"n": draw(st.one_of(st.integers(10, 100), st.integers(100, 200), st.integers(200, 400))), "seed": draw(st.integers(0, 10 ** 6)),
            "length": draw(st.sampled_from([10.0, 25.0, 50.0])), "psi": draw(st.sampled_from([0, 0, 1])),
            "periodic": draw(st.booleans()), "stack": draw(st.booleans()),
            "twins": draw(st.sampled_from([0, 0, 3, 10])), "shift": draw(st.sampled_from([1e-3, 1e-5, 1e-7, 1e-9]))}


def seeded_network(c):
    mat = fm.Mat(c["n"], length=c["length"], size=50.0, psi=c["psi"] * 0.5, seed=c["seed"])
    for k in range(c["twins"]):
        # a fiber next to another one: nodes that almost coincide on those they cross
        i, j = k % len(mat), (7 * k + 5) % len(mat)
        if i != j:
            mat.loc[j, ["u", "v", "w"]] = mat.loc[i, ["u", "v", "w"]]
            mat.loc[j, "x"] = mat.x[i]
            mat.loc[j, "y"] = mat.y[i] + c["shift"] * (1 if mat.y[i] < 0 else -1)
    mat = fm.Mat(mat)
    net = fm.Net(mat, periodic=c["periodic"])
    if c["stack"] and not c["psi"]:
        net = fm.Stack(mat, net)
    return mat, net


@st.composite
def given_tables(draw):
    """A network with any topology and abscissae (coincident nodes included), rows in any order."""
    n = draw(st.integers(1, 7))
    half = draw(st.lists(st.integers(2, 40), min_size=n, max_size=n))
    if draw(st.integers(0, 9)) < 7:
        rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
        n = int(rng.randint(2, 10))
        half = [int(v) for v in rng.randint(2, 40, n)]
        p = rng.uniform()
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if rng.uniform() < p]
        edges = [[i, j, int(rng.randint(-half[i] + 1, half[i])), int(rng.randint(-half[j] + 1, half[j])),
                  int(rng.randint(0, 5)), int(rng.randint(0, 5))] for i, j in pairs]
        order = int(rng.randint(0, 10 ** 6))
    else:
        pairs = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=12))
        pairs = sorted({(min(p), max(p)) for p in pairs if p[0] != p[1]})
        edges = [[i, j, draw(st.integers(-half[i] + 1, half[i] - 1)),
                  draw(st.integers(-half[j] + 1, half[j] - 1)),
                  draw(st.integers(0, 4)), draw(st.integers(0, 4))] for i, j in pairs]
        order = draw(st.integers(0, 10 ** 6))
    return {"half": half, "edges": edges, "order": order,
            "unit": draw(st.sampled_from([1.0, 1.0, 0.1, 1e-3, 1e3])),
            "flip": draw(st.booleans())}


def given_network(c):
    half, unit = c["half"], c["unit"]
    n = len(half)
    sg = -1 if c["flip"] else 1  # the two ends of a fiber may come in any order
    rows = [[i, i, sg * half[i], -sg * half[i], 3.0 * i, 3.0 * i] for i in range(n)]
    rows += [[i, j, a, b, p, q] for i, j, a, b, p, q in c["edges"]]
    perm = np.random.RandomState(c["order"] % 2 ** 31).permutation(len(rows))
    rows = [rows[k] for k in perm]
    data = []
    for A, B, sA, sB, p, q in rows:
        # coordinates are free data here: a recognisable function of the row
        data.append([A, B, sA * unit, sB * unit, sA * unit + A, 0.5 * p, A * 1.5,
                     0.25 * q, sB * unit - B, B * 1.5 + 0.1])
    df = pd.DataFrame(np.array(data, dtype=float), columns=sut.NETCOLS)
    df[["A", "B"]] = df[["A", "B"]].astype(int)
    df.attrs.update(n=n, size=50.0, periodic=bool(c["order"] % 2))
    return fm.Net(df)
