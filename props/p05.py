"""P05: the network and stack validators."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import sut
from common import Sub, load_sut, require
from validators import INDEX_KINDS, accepts, frozen, index_corruption, reindexed, rejects, skipped

fm = load_sut()


@st.composite
def nets(draw, mmin=0):
    """A table of connections, independent of any geometry."""
    n = draw(st.integers(1, 6))
    m = draw(st.integers(mmin, 9))
    rows, seen = [], set()
    for k in range(m):
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(a, n - 1))
        sa, sb = draw(st.integers(-10, 10)), draw(st.integers(-10, 10))
        if (a, b, sa, sb) in seen:
            sa = 100 + k
        seen.add((a, b, sa, sb))
        rows.append([a, b, sa, sb] + [draw(st.integers(-3, 3)) for _ in range(6)])
    if draw(st.booleans()):
        rows.sort()
    return {"n": n, "rows": rows, "size": draw(st.sampled_from([1.0, 50.0])),
            "periodic": draw(st.booleans()), "cls": draw(st.sampled_from(["Net", "Stack"]))}


def frame(c):
    R = np.array(c["rows"], dtype=float).reshape(-1, 10)
    df = pd.DataFrame(R, columns=sut.NETCOLS)
    df[["A", "B"]] = df[["A", "B"]].astype(int)
    df.attrs.update(n=c["n"], size=c["size"], periodic=c["periodic"])
    return df


def check_valid(c):
    cls = getattr(fm, c["cls"])
    df = frame(c)
    before = frozen(df)
    require(accepts(lambda: cls.check(df), "a well-formed table") is True, "check does not return True")
    obj = accepts(lambda: cls(df), "a well-formed table (constructor)")
    require(isinstance(obj, cls), "constructor gives {}", type(obj).__name__)
    require(accepts(lambda: obj.check(), "a well-formed object") is True, "check does not return True")
    skipped(cls, df, "a well-formed table")
    accepts(lambda: cls.check(df), "a table with skip_check = False")
    df.attrs.pop("skip_check")
    require(frozen(df) == before, "checking changed the table")
    return len(df) > 1, [c["cls"], "m=%d" % min(len(df), 3)]


@st.composite
def built(draw):
    c = draw(gens.fibers(nmin=0, nmax=7, planar=draw(st.booleans())))
    c["periodic"] = draw(st.booleans())
    return c


def check_built(c):
    mat = gens.make_mat(fm, c)
    net = fm.Net(mat, periodic=c["periodic"])
    require(fm.Net.check(net) is True, "check of a built network does not return True")
    stack = fm.Stack(mat, net)
    require(fm.Stack.check(stack) is True, "check of a built stack does not return True")
    require(fm.Net.check(stack) is True, "check of a built stack as a network does not return True")
    return len(net) > len(mat), ["built"]


corruption = st.one_of(
    st.tuples(st.just("column"), st.sampled_from(sut.NETCOLS)),
    st.tuples(st.just("attr"), st.sampled_from(["n", "size", "periodic"])),
    st.tuples(st.just("index"), st.sampled_from(INDEX_KINDS), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("index"), st.sampled_from(INDEX_KINDS), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("float"), st.sampled_from(["A", "B", "AB"])),
    st.tuples(st.just("range"), st.sampled_from(["A-", "B+", "n"]), st.sampled_from([1, 2, 1000])),
    st.tuples(st.just("repeat"), st.integers(0, 20), st.sampled_from(["", "x", "xA", "yA", "zA", "xB", "yB", "zB", "AzB", "all"])),
    st.tuples(st.just("order"), st.integers(0, 20)),
)


@st.composite
def corrupted(draw):
    c = draw(nets(mmin=2))
    c["what"] = list(draw(corruption))
    c["row"] = draw(st.integers(0, 20))
    c["ctor"] = draw(st.booleans())
    return c


def corrupt(df, c):
    w, r = c["what"], c["row"] % len(df)
    if w[0] == "column":
        out = df.drop(columns=[w[1]])
        out.attrs = dict(df.attrs)
        return out, KeyError
    if w[0] == "attr":
        df.attrs.pop(w[1])
        return df, AttributeError
    if w[0] == "index":
        return reindexed(df, index_corruption(w[1], w[2], w[3], len(df))), IndexError
    if w[0] == "float":
        for col in w[1]:
            df[col] = df[col].astype(float)
        return df, TypeError
    if w[0] == "range":
        if w[1] == "A-":
            df.loc[r, "A"] = -w[2]
        elif w[1] == "B+":
            df.loc[r, "B"] = df.attrs["n"] - 1 + w[2]
        else:
            df.attrs["n"] = int(df[["A", "B"]].values.max())
        return df, ValueError
    if w[0] == "repeat":
        # another connection between the same fibers at the same abscissae
        k = w[1] % len(df)
        row = df.iloc[[k]].copy()
        if w[2]:
            for col in {"all": sut.NETCOLS[4:], "x": ["xA", "xB"], "AzB": ["zA", "zB"]}.get(w[2], [w[2]]):
                row[col] += 1.0
        pos = r + 1
        out = pd.concat([df.iloc[:pos], row, df.iloc[pos:]], ignore_index=True)
        out.attrs = dict(df.attrs)
        return out, ValueError
    if w[0] == "order":
        k = w[1] % len(df)
        if df.loc[k, "A"] == df.loc[k, "B"]:
            if df.attrs["n"] == 1:
                df.attrs["n"] = 2
            a = int(df.loc[k, "A"])
            df.loc[k, "B"] = a + 1 if a + 1 < df.attrs["n"] else a - 1
            if df.loc[k, "A"] > df.loc[k, "B"]:
                return df, ValueError
        a, b = int(df.loc[k, "A"]), int(df.loc[k, "B"])
        df.loc[k, "A"], df.loc[k, "B"] = b, a
        return df, ValueError
    raise AssertionError(w)


def check_corrupted(c):
    cls = getattr(fm, c["cls"])
    df, expected = corrupt(frame(c), c)
    what = "a %s with corruption %r at row %d" % (c["cls"], c["what"], c["row"] % len(df))
    if c["ctor"]:
        rejects(lambda: cls(df), expected, what)
    rejects(lambda: cls.check(df), expected, what)
    skipped(cls, df, what)
    rejects(lambda: cls.check(df), expected, what + " and skip_check = False")
    return True, [c["what"][0], c["cls"]]


def subs():
    return [
        Sub("accepts", nets(), check_valid, 60, 800,
            "well-formed tables of connections without geometry; non-trivial: at least two rows"),
        Sub("built", built(), check_built, 30, 400,
            "networks and stacks built from random mats; non-trivial: at least one crossing"),
        Sub("rejects", corrupted(), check_corrupted, 150, 2500,
            "one corruption (7 kinds) of a well-formed table, Net and Stack; non-trivial: all"),
    ]
