"""P04: the mat validator."""
import math

import numpy as np
from hypothesis import strategies as st

import gens
from common import Sub, Violation, load_sut, require
from validators import INDEX_KINDS, accepts, frozen, index_corruption, reindexed, rejects, skipped

fm = load_sut()


@st.composite
def valid(draw):
    c = draw(gens.fibers(nmin=0, nmax=7, planar=False, moduli=True, lfrac=(1, 3000),
                         sort_z=draw(st.booleans())))
    # conditions that are not required: heights out of the box, slightly rounded directions,
    # additional columns and attributes, infinite moduli, integer columns
    c["zscale"] = draw(st.sampled_from([1.0, 10.0, -3.0]))
    c["round"] = draw(st.sampled_from([0.0, 1e-8, -1e-7]))
    c["extra"] = draw(st.booleans())
    c["intcols"] = draw(st.booleans())
    return c


def make(c):
    T = gens.table(c)
    T[:, 5] *= c["zscale"]
    T[:, 6:9] *= 1 + c["round"]
    df = gens.dataframe(c, T)
    if c["intcols"]:
        df["h"] = np.ones(len(df), dtype=int)
    if c["extra"]:
        df["name"] = ["f%d" % k for k in range(len(df))]
        df.attrs["comment"] = "any"
    return df


def check_valid(c):
    df = make(c)
    before = frozen(df)
    require(accepts(lambda: fm.Mat.check(df), "a well-formed table") is True, "check does not return True")
    mat = accepts(lambda: fm.Mat(df), "a well-formed table (constructor)")
    require(isinstance(mat, fm.Mat), "constructor gives {}", type(mat).__name__)
    require(accepts(lambda: mat.check(), "a well-formed mat") is True, "check does not return True")
    skipped(fm.Mat, df, "a well-formed table")
    accepts(lambda: fm.Mat.check(df), "a table with skip_check = False")
    df.attrs.pop("skip_check")
    require(frozen(df) == before, "checking changed the table")
    return len(df) > 0, ["n=%d" % min(len(df), 3), "extra" if c["extra"] else "plain"]


BAD = st.sampled_from([0.0, -0.0, -1e-12, -1.0, -1e300, "nan", "-inf"])
corruption = st.one_of(
    st.tuples(st.just("column"), st.sampled_from(gens.COLS)),
    st.tuples(st.just("attr"), st.sampled_from(["n", "size"])),
    st.tuples(st.just("count"), st.sampled_from([-1, 1, 2, 100])),
    st.tuples(st.just("index"), st.sampled_from(INDEX_KINDS), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("dim"), st.sampled_from("lbh"), BAD),
    st.tuples(st.just("modulus"), st.sampled_from("GE"), BAD),
    st.tuples(st.just("box"), st.sampled_from("xy"), st.sampled_from([-1, 1]),
              st.sampled_from([1e-6, 1e-3, 0.1, 1.0, 100.0, "inf", "nan"])),
    st.tuples(st.just("norm"), st.sampled_from([1e-3, -1e-3, 1.0, -0.5, -1.0, "nan"])),
    st.tuples(st.just("component"), st.sampled_from("uvw"), st.sampled_from([0.3, -0.3, "nan"])),
    st.tuples(st.just("shrunk_box"), st.sampled_from([0.999, 0.5])),
    st.tuples(st.just("empty_index"), st.just(0)),
)


@st.composite
def corrupted(draw):
    c = draw(gens.fibers(nmin=2, nmax=7, planar=False, moduli=True))
    c["what"] = list(draw(corruption))
    c["row"] = draw(st.integers(0, 20) | st.integers(0, 2000))
    c["ctor"] = draw(st.booleans())
    # parallel and repeated fibers, mats of more than 50 or 100 fibers
    c["like"] = [draw(st.sampled_from(["none", "none", "direction", "all"])), draw(st.integers(0, 20))]
    c["times"] = draw(st.sampled_from([1, 1, 1, 2, 30, 100]))
    return c


def base(c):
    T = gens.table(c)
    if c["times"] > 1:
        T = np.concatenate([T] * c["times"])
        k = c["times"] * c["what"][-1] if isinstance(c["what"][-1], int) else 0
        T[:, 3:6] *= (1 - 0.5 * (np.arange(len(T)) + k) / (len(T) + k))[:, None]
    if c["like"][0] != "none":
        # another fiber is like the corrupted one
        r, o = c["row"] % len(T), c["like"][1] % len(T)
        T[o, 6:9] = T[r, 6:9]
        if c["like"][0] == "all":
            T[o] = T[r]
    return gens.dataframe(c, T)


def num(v):
    return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}.get(v, v) if isinstance(v, str) else v


def corrupt(df, c):
    """Returns (corrupted table, expected exception)."""
    w, r = c["what"], c["row"] % len(df)
    half = 0.5 * c["size"]
    if w[0] == "column":
        out = df.drop(columns=[w[1]])
        out.attrs = dict(df.attrs)
        return out, KeyError
    if w[0] == "attr":
        df.attrs.pop(w[1])
        return df, AttributeError
    if w[0] == "count":
        df.attrs["n"] = max(0, len(df) + w[1])
        return df, ValueError
    if w[0] == "index":
        return reindexed(df, index_corruption(w[1], w[2], w[3], len(df))), IndexError
    if w[0] == "dim" or w[0] == "modulus":
        df.loc[r, w[1]] = num(w[2])
        return df, ValueError
    if w[0] == "box":
        v = num(w[3])
        df.loc[r, w[1]] = w[2] * half * (1 + v)
        return df, ValueError
    if w[0] == "norm":
        df.loc[r, ["u", "v", "w"]] *= 1 + num(w[1])
        return df, ValueError
    if w[0] == "component":
        U = df.loc[r, ["u", "v", "w"]].values.astype(float)
        k = "uvw".index(w[1])
        d = num(w[2])
        V = U.copy()
        V[k] += d
        if abs(np.linalg.norm(V) - 1) < 1e-3:
            V[k] = U[k] + 2.5
        df.loc[r, w[1]] = V[k]
        return df, ValueError
    if w[0] == "shrunk_box":
        far = max(np.abs(df.x).max(), np.abs(df.y).max())
        if far == 0:
            df.loc[r, "x"] = far = half
        df.attrs["size"] = 2 * far * w[1]
        return df, ValueError
    if w[0] == "empty_index":
        return reindexed(df, ["a%d" % k for k in range(len(df))]), IndexError
    raise AssertionError(w)


def check_corrupted(c):
    df, expected = corrupt(base(c), c)
    what = "a mat with corruption %r at row %d" % (c["what"], c["row"] % len(df))
    if c["ctor"]:
        rejects(lambda: fm.Mat(df), expected, what)
    rejects(lambda: fm.Mat.check(df), expected, what)
    skipped(fm.Mat, df, what)
    rejects(lambda: fm.Mat.check(df), expected, what + " and skip_check = False")
    return True, [c["what"][0]]


def subs():
    return [
        Sub("accepts", valid(), check_valid, 60, 800,
            "well-formed tables incl. boundary values; non-trivial: at least one fiber"),
        Sub("rejects", corrupted(), check_corrupted, 180, 2500,
            "one corruption (11 kinds) of a well-formed table; non-trivial: all"),
    ]
