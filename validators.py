"""Shared parts of P04, P05, P06: the documented error contract of check()."""
import warnings

import numpy as np

from common import Violation, require


def accepts(fn, what):
    """fn() must return True / an object without raising."""
    try:
        return fn()
    except Exception as e:
        raise Violation("%s is refused: %s: %s" % (what, type(e).__name__, str(e)[:200]))


def rejects(fn, expected, what):
    try:
        fn()
    except expected as e:
        # IndexError and KeyError are both LookupErrors; none of the documented types is a
        # subclass of another one, so isinstance is exact here
        return
    except Exception as e:
        raise Violation("%s raises %s (%s) instead of %s" % (
            what, type(e).__name__, str(e)[:200], expected.__name__))
    raise Violation("%s is accepted (expected %s)" % (what, expected.__name__))


def skipped(cls, df, what):
    """With skip_check, check() returns True with a UserWarning."""
    old = df.attrs
    df.attrs = dict(old, skip_check=True)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            ok = cls.check(df)
        except Exception as e:
            raise Violation("skip_check: %s raises %s" % (what, type(e).__name__))
    require(ok is True, "skip_check: check of {} returns {!r}", what, ok)
    require(any(issubclass(x.category, UserWarning) for x in w), "skip_check: no warning for {}", what)
    # an inactive flag changes nothing
    df.attrs = dict(old, skip_check=False)
    return df


def frozen(df):
    return ([(str(c), str(df[c].dtype), df[c].values.tobytes()) for c in df.columns],
            list(df.index), sorted(map(repr, df.attrs.items())))


def reindexed(df, index):
    out = df.copy()
    out.attrs = dict(df.attrs)
    out.index = index
    return out


def index_corruption(draw_kind, a, b, m):
    """Ill-formed row labels of length m (m >= 2)."""
    idx = list(range(m))
    a, b = a % m, b % m
    if a == b:
        b = (a + 1) % m
    if draw_kind == "duplicate":
        idx[a] = idx[b]
    elif draw_kind == "swap":
        idx[a], idx[b] = idx[b], idx[a]
    elif draw_kind == "shift":
        idx = [i + 1 for i in idx]
    elif draw_kind == "gap":
        idx = idx[:a] + [i + 1 for i in idx[a:]]
        if a == m:
            idx[-1] = m
    elif draw_kind == "negative":
        idx = [i - 1 for i in idx]
    elif draw_kind == "reverse":
        idx = idx[::-1]
    elif draw_kind == "rotate":
        k = a if a else 1
        idx = idx[k:] + idx[:k]
    return idx


INDEX_KINDS = ["duplicate", "swap", "shift", "gap", "negative", "reverse", "rotate"]
