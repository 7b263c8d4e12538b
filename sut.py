"""Schema-checked access to what the code under test returns.

Anything that does not have the documented form is a violation of the property under
check (not a crash of the harness).
"""
import numpy as np
import pandas as pd

from common import Violation, require

NETCOLS = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]


def columns(df, cols, what):
    require(isinstance(df, pd.DataFrame), "{}: not a DataFrame but {}", what, type(df).__name__)
    for c in cols:
        require(c in df.columns, "{}: column {!r} is missing", what, c)
    try:
        arr = {c: np.array(df[c].values, dtype=float) for c in cols}
    except (TypeError, ValueError) as e:
        raise Violation("%s: non numeric data (%s)" % (what, e))
    n = len(df)
    for c in cols:
        require(arr[c].shape == (n,), "{}: column {!r} has shape {}", what, c, arr[c].shape)
    return arr


class V(dict):
    __getattr__ = dict.__getitem__


def ints(a, what):
    require(np.all(np.isfinite(a)) and np.all(a == np.round(a)), "{}: labels are not integers", what)
    return a.astype(int)


def net(df, what="net"):
    d = V(columns(df, NETCOLS, what))
    d["A"] = ints(d["A"], what)
    d["B"] = ints(d["B"], what)
    for c in NETCOLS:
        require(np.all(np.isfinite(d[c])), "{}: column {!r} has non-finite values", what, c)
    return d


def mesh(df, what="mesh"):
    d = V(columns(df, ["fiber", *"sxyz", "beam", "constraint"], what))
    for c in ("fiber", "beam", "constraint"):
        d[c] = ints(d[c], what)
    for c in "sxyz":
        require(np.all(np.isfinite(d[c])), "{}: column {!r} has non-finite values", what, c)
    require(list(df.index) == list(range(len(df))), "{}: node labels are not 0..m-1", what)
    return d


def mat(df, what="mat"):
    d = V(columns(df, [*"lbhxyzuvwGE"], what))
    for c in "lbhxyzuvw":
        require(np.all(np.isfinite(d[c])), "{}: column {!r} has non-finite values", what, c)
    return d


def dense(M, what, shape=None):
    import scipy.sparse as ss
    if ss.issparse(M):
        M = M.toarray()
    try:
        M = np.array(M, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation("%s: not a numeric matrix (%s)" % (what, e))
    require(M.ndim == 2, "{}: not a matrix but {}-d", what, M.ndim)
    if shape is not None:
        require(M.shape == tuple(shape), "{}: shape {} instead of {}", what, M.shape, shape)
    return M


def vector(v, what, size=None):
    try:
        v = np.array(v, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation("%s: not a numeric vector (%s)" % (what, e))
    require(v.ndim == 1, "{}: not a vector but {}-d", what, v.ndim)
    if size is not None:
        require(v.shape == (size,), "{}: {} values instead of {}", what, v.shape[0], size)
    return v


def unpack(t, n, what):
    try:
        t = tuple(t)
    except TypeError:
        raise Violation("%s: does not return a tuple" % what)
    require(len(t) == n, "{}: returns {} values instead of {}", what, len(t), n)
    return t
