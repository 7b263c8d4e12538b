"""P06: the mesh validator."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
from common import Sub, load_sut, require
from validators import INDEX_KINDS, accepts, frozen, index_corruption, reindexed, rejects, skipped

fm = load_sut()


@st.composite
def meshes(draw, nmin=1):
    """A well-formed mesh without geometry: fibers with nodes, some of them paired."""
    n = draw(st.integers(nmin, 5))
    # fibers without any inner node are as common as well connected ones
    most = draw(st.sampled_from([0, 1, 2, 4, 4]))
    inner = [draw(st.integers(0, most)) for _ in range(n)]
    fib = []          # per fiber: increasing abscissae (ties allowed inside)
    for k in range(n):
        half = draw(st.integers(6, 12))
        ss = sorted(draw(st.lists(st.integers(-5, 5), min_size=inner[k], max_size=inner[k])))
        fib.append([-half] + ss + [half])
    nodes = [(k, s) for k in range(n) for s in fib[k]]
    ends, pos = set(), 0
    for k in range(n):
        ends |= {pos, pos + len(fib[k]) - 1}
        pos += len(fib[k])
    free = [i for i in range(len(nodes)) if i not in ends]
    free = draw(st.permutations(free))
    con = list(range(len(nodes)))
    for a, b in zip(free[::2], free[1::2]):
        con[a], con[b] = b, a
    return {"n": n, "nodes": nodes, "con": con, "size": 50.0, "periodic": draw(st.booleans()),
            "exp": draw(st.sampled_from([0, 0, 0, -20, -40, 20]))}


def frame(c):
    m = len(c["nodes"])
    fiber = np.array([k for k, s in c["nodes"]], dtype=int)
    s = np.array([s for k, s in c["nodes"]], dtype=float) * 2.0 ** c.get("exp", 0)
    beam = np.zeros(m, dtype=int)
    for k in range(c["n"]):
        idx = np.where(fiber == k)[0]
        beam[idx] = np.roll(idx, -1)
    df = pd.DataFrame({"fiber": fiber, "s": s, "x": s, "y": 0.0 * s, "z": 1.0 * fiber,
                       "beam": beam, "constraint": np.array(c["con"], dtype=int)})
    df.attrs.update(n=c["n"], size=c["size"], periodic=c["periodic"])
    return df


def check_valid(c):
    df = frame(c)
    before = frozen(df)
    require(accepts(lambda: fm.Mesh.check(df), "a well-formed table") is True, "check does not return True")
    obj = accepts(lambda: fm.Mesh(df), "a well-formed table (constructor)")
    require(isinstance(obj, fm.Mesh), "constructor gives {}", type(obj).__name__)
    require(accepts(lambda: obj.check(), "a well-formed mesh") is True, "check does not return True")
    skipped(fm.Mesh, df, "a well-formed table")
    accepts(lambda: fm.Mesh.check(df), "a table with skip_check = False")
    df.attrs.pop("skip_check")
    require(frozen(df) == before, "checking changed the table")
    paired = any(k != v for k, v in enumerate(c["con"]))
    return paired, ["paired" if paired else "unpaired"]


@st.composite
def built(draw):
    c = draw(gens.fibers(nmin=0, nmax=7, planar=draw(st.booleans())))
    c["periodic"] = draw(st.booleans())
    c["threshold"] = draw(st.sampled_from([None, 0.0, 1.0, 3.0]))
    return c


def check_built(c):
    mat = gens.make_mat(fm, c)
    net = fm.Net(mat, periodic=c["periodic"])
    require(fm.Mesh.check(fm.Mesh(net)) is True, "check of a built mesh does not return True")
    mesh = fm.Mesh(fm.Stack(mat, net, threshold=c["threshold"]))
    require(mesh.check() is True, "check of the mesh of a stack does not return True")
    return len(net) > len(mat), ["built"]


corruption = st.one_of(
    st.tuples(st.just("column"), st.sampled_from(["fiber", *"sxyz", "beam", "constraint"])),
    st.tuples(st.just("attr"), st.sampled_from(["n", "size", "periodic"])),
    st.tuples(st.just("index"), st.sampled_from(INDEX_KINDS), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("index"), st.sampled_from(INDEX_KINDS), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("float"), st.sampled_from(["fiber", "beam", "constraint"])),
    st.tuples(st.just("fiber_range"), st.sampled_from(["low", "high", "n"])),
    st.tuples(st.just("range"), st.sampled_from(["beam", "constraint"]), st.sampled_from([-1, 0, 5])),
    st.tuples(st.just("fibers_unsorted"), st.just(0)),
    st.tuples(st.just("nodes_unsorted"), st.integers(0, 20)),
    st.tuples(st.just("neighbours_unsorted"), st.integers(0, 40)),
    st.tuples(st.just("beam"), st.integers(0, 20), st.integers(1, 20)),
    st.tuples(st.just("beams_swapped"), st.integers(0, 20), st.integers(1, 20)),
    st.tuples(st.just("constraint"), st.integers(0, 20), st.integers(1, 20)),
    st.tuples(st.just("cycle"), st.integers(3, 5), st.integers(0, 20)),
    st.tuples(st.just("one_way"), st.integers(0, 20), st.integers(0, 20)),
    st.tuples(st.just("fiber_label"), st.integers(0, 20), st.sampled_from([-1, 1])),
    st.tuples(st.just("end_pair"), st.integers(0, 20), st.integers(0, 20), st.booleans(), st.booleans()),
    st.tuples(st.just("end_pair"), st.integers(0, 20), st.integers(0, 20), st.booleans(), st.booleans()),
    st.tuples(st.just("end_inner"), st.integers(0, 20), st.booleans()),
)


@st.composite
def corrupted(draw):
    c = draw(meshes(nmin=2))
    c["what"] = list(draw(corruption))
    c["row"] = draw(st.integers(0, 40))
    c["ctor"] = draw(st.booleans())
    return c


def corrupt(df, c):
    w, m = c["what"], len(df)
    r = c["row"] % m
    fiber = df["fiber"].values
    n = c["n"]
    first = [int(np.where(fiber == k)[0][0]) for k in range(n)]
    last = [int(np.where(fiber == k)[0][-1]) for k in range(n)]
    if w[0] == "column":
        out = df.drop(columns=[w[1]])
        out.attrs = dict(df.attrs)
        return out, KeyError
    if w[0] == "attr":
        df.attrs.pop(w[1])
        return df, AttributeError
    if w[0] == "index":
        return reindexed(df, index_corruption(w[1], w[2], w[3], m)), IndexError
    if w[0] == "float":
        df[w[1]] = df[w[1]].astype(float)
        return df, TypeError
    if w[0] == "fiber_range":
        if w[1] == "low":
            df["fiber"] -= 1
        elif w[1] == "high":
            df.loc[fiber == n - 1, "fiber"] = n + r % 3
        else:
            df.attrs["n"] = n - 1
        return df, ValueError
    if w[0] == "range":
        df.loc[r, w[1]] = w[2] if w[2] < 0 else m + w[2]
        return df, ValueError
    if w[0] == "fibers_unsorted":
        df["fiber"] = (n - 1) - df["fiber"]
        return df, ValueError
    if w[0] == "nodes_unsorted":
        k = w[1] % n
        # move an end node inside: s of the first node above the one of the second
        df.loc[first[k], "s"], df.loc[last[k], "s"] = df.loc[last[k], "s"], df.loc[first[k], "s"]
        return df, ValueError
    if w[0] == "neighbours_unsorted":
        # two consecutive nodes of a fiber at different abscissae are exchanged
        s = df["s"].values
        near = [i for i in range(m - 1) if fiber[i] == fiber[i + 1] and s[i] < s[i + 1]]
        i = near[w[1] % len(near)]
        df.loc[i, "s"], df.loc[i + 1, "s"] = s[i + 1], s[i]
        return df, ValueError
    if w[0] == "beam":
        a = w[1] % m
        df.loc[a, "beam"] = (int(df.loc[a, "beam"]) + 1 + (w[2] - 1) % (m - 1)) % m
        return df, ValueError
    if w[0] == "beams_swapped":
        a = w[1] % m
        b = (a + 1 + (w[2] - 1) % (m - 1)) % m
        df.loc[a, "beam"], df.loc[b, "beam"] = int(df.loc[b, "beam"]), int(df.loc[a, "beam"])
        return df, ValueError
    if w[0] == "constraint":
        a = w[1] % m
        df.loc[a, "constraint"] = (int(df.loc[a, "constraint"]) + 1 + (w[2] - 1) % (m - 1)) % m
        return df, ValueError
    free = [i for i in range(m) if i not in first and i not in last]
    if w[0] == "cycle":
        # the constraints of the inner nodes are a permutation with a cycle of 3 to 5 nodes
        if len(free) < 3:
            df.loc[0, "constraint"], df.loc[m - 1, "constraint"] = m - 1, 0
            return df, ValueError
        k = min(w[1], len(free))
        rot = free[w[2] % len(free):] + free[:w[2] % len(free)]
        loop = rot[:k]
        for i in loop:      # their partners become free
            df.loc[int(df.loc[i, "constraint"]), "constraint"] = int(df.loc[i, "constraint"])
        for a, b in zip(loop, loop[1:] + loop[:1]):
            df.loc[a, "constraint"] = b
        return df, ValueError
    if w[0] == "one_way":
        # a node refers to another one that refers to itself or to a third one
        a, b = w[1] % m, w[2] % m
        if a == b or int(df.loc[b, "constraint"]) == a:
            b = next(k for k in range(m) if k != a and int(df.loc[k, "constraint"]) != a)
        df.loc[a, "constraint"] = b
        return df, ValueError
    if w[0] == "fiber_label":
        # an end node carries the label of a neighbouring fiber: the beams no longer close
        k = w[1] % n
        if w[2] > 0 and k < n - 1:
            df.loc[last[k], "fiber"] = k + 1
        elif k > 0:
            df.loc[first[k], "fiber"] = k - 1
        else:
            df.loc[last[k], "fiber"] = k + 1
        return df, ValueError
    if w[0] == "end_pair":
        # two fiber ends are each other's constraint (reciprocal)
        a, b = w[1] % n, w[2] % n
        ea, eb = (first if w[3] else last)[a], (first if w[4] else last)[b]
        if ea == eb:
            ea, eb = first[a], last[a]
        df.loc[ea, "constraint"], df.loc[eb, "constraint"] = eb, ea
        return df, ValueError
    if w[0] == "end_inner":
        # a fiber end is linked to an inner node (reciprocal)
        k = w[1] % n
        e = (first if w[2] else last)[k]
        free = [i for i in range(m) if i not in first and i not in last and c["con"][i] == i]
        if not free:
            o = last[k] if e == first[k] else first[k]
            df.loc[e, "constraint"], df.loc[o, "constraint"] = o, e
        else:
            i = free[c["row"] % len(free)]
            df.loc[e, "constraint"], df.loc[i, "constraint"] = i, e
        return df, ValueError
    raise AssertionError(w)


def check_corrupted(c):
    df, expected = corrupt(frame(c), c)
    what = "a mesh with corruption %r" % (c["what"],)
    if c["ctor"]:
        rejects(lambda: fm.Mesh(df), expected, what)
    rejects(lambda: fm.Mesh.check(df), expected, what)
    skipped(fm.Mesh, df, what)
    rejects(lambda: fm.Mesh.check(df), expected, what + " and skip_check = False")
    return True, [c["what"][0]]


def subs():
    return [
        Sub("accepts", meshes(), check_valid, 60, 800,
            "well-formed meshes without geometry; non-trivial: at least one constraint pair"),
        Sub("built", built(), check_built, 25, 400,
            "meshes of networks and of thresholded stacks of random mats; non-trivial: a crossing"),
        Sub("rejects", corrupted(), check_corrupted, 150, 2500,
            "one corruption (15 kinds) of a well-formed mesh; non-trivial: all"),
    ]
