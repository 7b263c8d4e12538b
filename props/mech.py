"""Generated assemblies for P17 to P25: meshes with mixed dimensions and moduli, stacks."""
import math

import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Violation, load_sut, require
from props import meshgen

fm = load_sut()

MODULI = [[1.0, 10.0], [1.0, 2500.0], [2.0, 2.0], [0.5, 625.0], [100.0, 10.0], [3.0, 3e6], [1e9, 12.0], [1.0, "inf"]]


@st.composite
def tables(draw, finite=False):
    """A given topology with its fibers: lengths follow the abscissae, the rest is free."""
    c = draw(meshgen.given_tables())
    n = len(c["half"])
    mods = MODULI[:-1] if finite else MODULI
    same = draw(st.integers(0, 2)) == 0
    one = [draw(st.sampled_from(gens.DIMS)), draw(st.sampled_from(gens.DIMS)), draw(st.sampled_from(mods))]
    rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
    c["props"] = [one if same else [gens.DIMS[rng.randint(len(gens.DIMS))], gens.DIMS[rng.randint(len(gens.DIMS))],
                                    mods[rng.randint(len(mods))]] for _ in range(n)]
    # no coincident nodes (zero-length beams) unless a lower bound rescales the lengths
    c["lmin"] = draw(st.sampled_from([None, None, "below", "min", 0.2, 0.5, 1.0]))
    c["lmax"] = draw(st.sampled_from([None, None, "above", "max", 0.6, 0.9, 1.0]))
    c["coupling"] = draw(st.sampled_from([1.0, 1.0, 0.99, 0.5, 0.0, 0.123]))
    return c


def table_of(c):
    n = len(c["half"])
    T = np.zeros((n, 11))
    T[:, ref.L] = 2.0 * np.array(c["half"]) * c["unit"]
    for k, (b, h, (G, E)) in enumerate(c["props"]):
        T[k, [ref.B_, ref.H_]] = b, h
        T[k, ref.G] = G
        T[k, ref.E] = math.inf if E == "inf" else E
    T[:, ref.U] = 1
    return T


def assembly(c):
    """(mat, mesh, T, m) of a given topology; coincident nodes are moved apart without lmin."""
    T = table_of(c)
    mat = fm.Mat(gens.dataframe({"size": 50.0}, T))
    mesh = fm.Mesh(meshgen.given_network(c))
    return mat, mesh, T, sut.mesh(mesh, "Mesh")


def lengths(m):
    el = [(k, k + 1) for k in range(len(m.s) - 1) if m.fiber[k] == m.fiber[k + 1]]
    return np.array([m.s[b] - m.s[a] for a, b in el])


def bounds(c, l):
    """lmin, lmax of a case from the lengths of its beams (None or numbers, lmin <= lmax)."""
    a, b = l.min(), l.max()
    lmin, lmax = c["lmin"], c["lmax"]
    if lmin == "below":
        lmin = 0.5 * a if a > 0 else 0.25 * b
    elif lmin == "min":
        lmin = a if a > 0 else 0.01 * b
    elif lmin is not None:
        lmin = a + (b - a) * 0.5 * lmin if b > a else a
    if lmax == "above":
        lmax = 2 * b
    elif lmax == "max":
        lmax = b
    elif lmax is not None:
        lmax = a + (b - a) * lmax if b > a else b
    if a == 0 and lmin is None:
        lmin = 0.01 * b
    return lmin, lmax


@st.composite
def stacks(draw, nmin=1, nmax=9, moduli=True, finite=False, bulk=False):
    c = draw(gens.fibers(nmin=nmin, nmax=nmax, planar=True, lfrac=(300, 1000), bulk=bulk, moduli=moduli, finite_E=finite))
    c["periodic"] = draw(st.booleans())
    c["threshold"] = draw(st.sampled_from([None, None, 0.5, 2.0, 10.0]))
    return c


def stack_mesh(c, T=None):
    mat = gens.make_mat(fm, c, T)
    net = fm.Net(mat, periodic=c["periodic"])
    stack = fm.Stack(mat, net, threshold=c["threshold"])
    return mat, fm.Mesh(stack)
