"""Reference models, written from the documentation, without using fibermat."""
import math

import numpy as np

# columns of a table: l b h x y z u v w G E
L, B_, H_, X, Y, Z, U, V_, W, G, E = range(11)


def crossing2d(T, i, j, shift=(0.0, 0.0)):
    """Crossing of in-plane fiber i with the image of fiber j translated by shift.

    Returns (si, sj, margin): margin > 0 inside both segments. None if parallel.
    """
    ui, uj = T[i, [U, V_]], T[j, [U, V_]]
    det = ui[0] * uj[1] - ui[1] * uj[0]
    if abs(det) < 1e-6:
        return None
    r = T[j, [X, Y]] + np.asarray(shift) - T[i, [X, Y]]
    si = (r[0] * uj[1] - r[1] * uj[0]) / det
    sj = (r[0] * ui[1] - r[1] * ui[0]) / det
    margin = min(T[i, L] / 2 - abs(si), T[j, L] / 2 - abs(sj))
    return si, sj, margin


def nearest3d(T, i, j, shift=(0.0, 0.0)):
    """Nearest points of the two fiber lines, by minimising the distance in closed form."""
    ui, uj = T[i, U:W + 1], T[j, U:W + 1]
    c = float(ui @ uj)
    if 1 - c * c < 1e-10:
        return None
    r = T[j, X:Z + 1] + np.array([shift[0], shift[1], 0.0]) - T[i, X:Z + 1]
    a, b = float(r @ ui), float(r @ uj)
    si = (a - c * b) / (1 - c * c)
    sj = (c * a - b) / (1 - c * c)
    margin = min(T[i, L] / 2 - abs(si), T[j, L] / 2 - abs(sj))
    return si, sj, margin


SHIFTS = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]


def crossings(T, size=None, tol=None):
    """All crossings between distinct in-plane fibers: {(i, j): [(si, sj, margin), ...]}.

    size is not None: images of j translated by box sizes are included.
    Only crossings with margin > -tol are listed.
    """
    n = len(T)
    out = {}
    shifts = [(0, 0)] if size is None else SHIFTS
    I, J = np.triu_indices(n, 1)
    ui, uj = T[I][:, [U, V_]], T[J][:, [U, V_]]
    det = ui[:, 0] * uj[:, 1] - ui[:, 1] * uj[:, 0]
    ok = np.abs(det) >= 1e-6
    I, J, ui, uj, det = I[ok], J[ok], ui[ok], uj[ok], det[ok]
    for a, b in shifts:
        s = np.array([0.0, 0.0] if size is None else [a * size, b * size])
        r = T[J][:, [X, Y]] + s - T[I][:, [X, Y]]
        si = (r[:, 0] * uj[:, 1] - r[:, 1] * uj[:, 0]) / det
        sj = (r[:, 0] * ui[:, 1] - r[:, 1] * ui[:, 0]) / det
        margin = np.minimum(T[I, L] / 2 - np.abs(si), T[J, L] / 2 - np.abs(sj))
        for k in np.where(margin > -tol)[0]:
            out.setdefault((int(I[k]), int(J[k])), []).append((si[k], sj[k], margin[k]))
    return out


def heights(h, edges):
    """Least heights with z_j >= h_j / 2 and z_j >= z_i + (h_i + h_j) / 2 for (i < j) in edges."""
    n = len(h)
    below = [[] for _ in range(n)]
    for i, j in edges:
        below[j].append(i)
    z = np.zeros(n)
    for j in range(n):
        z[j] = h[j] / 2
        for i in below[j]:
            z[j] = max(z[j], z[i] + (h[i] + h[j]) / 2)
    return z


def rescale(l, lmin=None, lmax=None):
    l = np.asarray(l, dtype=float)
    lmin = l.min() if lmin is None else lmin
    lmax = l.max() if lmax is None else lmax
    a, b = min(l.min(), lmin), max(l.max(), lmax)
    if b == a:
        return l.copy()
    return lmin + (l - a) * (lmax - lmin) / (b - a)


def element(l, b, h, G, E, coupling=1.0):
    """Documented Timoshenko element matrix."""
    k = G * b * h / l * (math.pi / 4)
    if math.isinf(E):
        bend = math.inf
    else:
        k = k / (1 + G / E * (l / h) ** 2)
        bend = E / G * h ** 2
    c = coupling * l / 2
    d = l ** 2 / 3 + bend
    o = l ** 2 / 6 - bend
    return k * np.array([[1, c, -1, c],
                         [c, d, -c, o],
                         [-1, -c, 1, -c],
                         [c, o, -c, d]])


def stiffness(T, fiber, s, lmin=None, lmax=None, coupling=1.0):
    """Assembled matrix, and the matrix of the largest element entries (for tolerances).

    fiber, s : node data, sorted by fiber and abscissa.
    """
    m = len(fiber)
    el = [(k, k + 1) for k in range(m - 1) if fiber[k] == fiber[k + 1]]
    l = rescale([s[b] - s[a] for a, b in el], lmin, lmax)
    K = np.zeros((2 * m, 2 * m))
    S = np.zeros((2 * m, 2 * m))
    with np.errstate(all="ignore"):
        for (a, b), le in zip(el, l):
            f = fiber[a]
            Ke = element(le, T[f, B_], T[f, H_], T[f, G], T[f, E], coupling)
            idx = [2 * a, 2 * a + 1, 2 * b, 2 * b + 1]
            K[np.ix_(idx, idx)] += Ke
            S[np.ix_(idx, idx)] += np.abs(Ke)
    return K, S, l


def hermite(s, y, m, x):
    """Cubic Hermite interpolation, its slope and curvature, on one element [s0, s1]."""
    s0, s1 = s
    d = s1 - s0
    t = (x - s0) / d
    h00, h10 = 2 * t ** 3 - 3 * t ** 2 + 1, t ** 3 - 2 * t ** 2 + t
    h01, h11 = -2 * t ** 3 + 3 * t ** 2, t ** 3 - t ** 2
    v = h00 * y[0] + h10 * d * m[0] + h01 * y[1] + h11 * d * m[1]
    dv = ((6 * t ** 2 - 6 * t) * (y[0] - y[1]) / d + (3 * t ** 2 - 4 * t + 1) * m[0]
          + (3 * t ** 2 - 2 * t) * m[1])
    d2 = ((12 * t - 6) * (y[0] - y[1]) / d ** 2 + (6 * t - 4) / d * m[0] + (6 * t - 2) / d * m[1])
    return v, dv, d2
