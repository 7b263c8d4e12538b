"""P14: stacking keeps the network; threshold."""
import math

import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require

fm = load_sut()


@st.composite
def cases(draw, nmin=1, nmax=9, bulk=False):
    c = draw(gens.fibers(nmin=nmin, nmax=nmax, bulk=bulk, planar=True, lfrac=(400, 1000)))
    c["periodic"] = draw(st.booleans())
    if draw(st.booleans()):
        # dyadic thicknesses: heights are exact, distances may equal the threshold
        for f in c["fibers"]:
            f[2] = [0.25, 0.5, 1.0, 2.0][int(f[2] * 8) % 4]
    c["threshold"] = draw(st.one_of(st.sampled_from([0.0, -1.0, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, "inf"]),
                                    st.floats(0.0, 8.0)))
    c["exact"] = draw(st.integers(0, 12))
    c["use_exact"] = draw(st.booleans())
    c["extra"] = draw(st.booleans())
    return c


def rows(d):
    return {(int(d.A[k]), int(d.B[k])): {c: d[c][k] for c in sut.NETCOLS[2:]} for k in range(len(d.A))}


def check(c):
    T = gens.table(c)
    S = c["size"]
    mat = gens.make_mat(fm, c)
    net = fm.Net(mat, periodic=c["periodic"])
    base = rows(sut.net(net, "Net"))
    full = fm.Stack(mat, net)
    z = sut.mat(mat).z.copy()
    exact = bool(np.all(z * 64 == np.round(z * 64)))
    F = sut.net(full, "Stack")
    got = rows(F)
    require(len(got) == len(F.A), "repeated connections in the stack")
    require(set(got) == set(base), "stacking changes the connected pairs: {}", set(got) ^ set(base))
    for key in base:
        for col in ("sA", "sB", "xA", "yA", "xB", "yB"):
            require(abs(got[key][col] - base[key][col]) < 1e-9 * S, "stacking changes {} of {}", col, key)
        for col, lab in (("zA", key[0]), ("zB", key[1])):
            require(abs(got[key][col] - z[lab]) < 1e-9 * S, "{} of {} is not the height of its fiber", col, key)
    require(full.attrs.get("periodic") == c["periodic"], "periodicity of the stack is {!r}",
            full.attrs.get("periodic"))
    # threshold, possibly equal to one of the distances
    t = math.inf if c["threshold"] == "inf" else c["threshold"]
    dist = sorted({abs(z[b] - z[a]) for a, b in base if a < b})
    if c["use_exact"] and dist:
        t = dist[c["exact"] % len(dist)]
    kw = {"packing": 3.0, "lmin": 0.1} if c["extra"] else {}
    part = fm.Stack(mat, net, threshold=t, **kw)
    P = sut.net(part, "Stack(threshold)")
    require(list(part.index) == list(range(len(part))), "labels of the thresholded stack are not 0..m-1")
    require(part.attrs.get("periodic") == c["periodic"], "periodicity of the stack is {!r}",
            part.attrs.get("periodic"))
    kept = rows(P)
    require(len(kept) == len(P.A), "repeated connections in the stack")
    removed = 0
    edge = False
    for key in base:
        a, b = key
        dz = abs(z[b] - z[a])
        if a == b:
            require(key in kept, "the ends of fiber {} are removed by the threshold", a)
        elif abs(dz - t) <= 1e-9 * max(1.0, S) and not (exact and dz == t):
            continue
        elif dz <= t:
            edge |= dz == t
            require(key in kept, "connection {} at distance {} is removed by threshold {}", key, dz, t)
        else:
            removed += 1
            require(key not in kept, "connection {} at distance {} is kept by threshold {}", key, dz, t)
    for key in kept:
        require(key in base, "connection {} is not in the network", key)
        for col in kept[key]:
            require(kept[key][col] == got[key][col], "threshold changes {} of {}", col, key)
    require(np.abs(sut.mat(mat).z - z) < 1e-6 * T[:, 2].max(), "the threshold moves the fibers")
    some = any(a < b for a, b in kept)
    labels = ["removed" if removed else "none-removed", "kept" if some else "none-kept"]
    if edge:
        labels.append("equal")
    return removed > 0, labels


@st.composite
def tilted(draw):
    c = draw(gens.fibers(nmin=2, nmax=9, planar=False, lfrac=(400, 1000)))
    c["periodic"] = draw(st.booleans())
    c["t"] = draw(st.floats(0, 10))
    return c


def spatial(c):
    """Out-of-plane fibers: the stack has the pairs of the given network, where the stacked
    fibers are nearest."""
    mat = gens.make_mat(fm, c)
    net = fm.Net(mat, periodic=c["periodic"])
    first = rows(sut.net(net, "Net"))
    full = rows(sut.net(fm.Stack(mat, net), "Stack"))
    z = sut.mat(mat).z.copy()
    base = rows(sut.net(fm.Net(mat, periodic=c["periodic"]), "Net"))
    base = {k: v for k, v in base.items() if k in first}
    require(set(full) == set(base), "the stack has other connections than the network of the mat: {}",
            set(full) ^ set(base))
    S = c["size"]
    for key in base:
        for col in base[key]:
            require(abs(base[key][col] - full[key][col]) < 1e-6 * S, "{} of {} differs between the "
                    "stack and the network of the mat", col, key)
    net2 = fm.Net(mat, periodic=c["periodic"])
    first = rows(sut.net(net2, "Net"))
    base = dict(first)
    dist = sorted(abs(r["zB"] - r["zA"]) for k, r in base.items() if k[0] < k[1])
    t = c["t"] if not dist else dist[0] + (dist[-1] - dist[0]) * c["t"] / 10
    kept = rows(sut.net(fm.Stack(mat, net2, threshold=t), "Stack(threshold)"))
    far = below = 0
    # stacking the stacked mat again may use other contacts: compare with its own network
    if np.abs(sut.mat(mat).z - z).max() > 1e-9:
        base = rows(sut.net(fm.Net(mat, periodic=c["periodic"]), "Net"))
        base = {k: v for k, v in base.items() if k in first}
    for key, r in base.items():
        dz = abs(r["zB"] - r["zA"])
        if key[0] == key[1]:
            require(key in kept, "the ends of fiber {} are removed by the threshold", key[0])
        elif abs(dz - t) < 1e-6 * S:
            continue
        elif dz < t:
            require(key in kept, "connection {} at distance {} is removed by threshold {}", key, dz, t)
        else:
            far += 1
            below += r["zB"] < r["zA"]
            require(key not in kept, "connection {} at distance {} is kept by threshold {}", key, dz, t)
    require(set(kept) <= set(base), "connections {} are not in the network", set(kept) - set(base))
    return far > 0, ["tilted"] + (["second-below"] if below else [])


@st.composite
def monotone(draw):
    c = draw(gens.fibers(nmin=3, nmax=9, planar=True, lfrac=(500, 1000)))
    c["periodic"] = draw(st.booleans())
    c["t"] = sorted(draw(st.lists(st.floats(0, 6), min_size=2, max_size=4)))
    return c


def nested(c):
    mat = gens.make_mat(fm, c)
    net = fm.Net(mat, periodic=c["periodic"])
    sets = []
    for t in c["t"] + [None]:
        d = sut.net(fm.Stack(mat, net, threshold=t), "Stack")
        sets.append({(int(a), int(b)) for a, b in zip(d.A, d.B)})
    for a, b in zip(sets, sets[1:]):
        require(a <= b, "a larger threshold removes connections {}", sorted(a - b))
    return sets[0] != sets[-1], ["nested"]


@st.composite
def partial(draw):
    c = draw(gens.fibers(nmin=2, nmax=10, planar=draw(st.integers(0, 4)) > 0, lfrac=(400, 1000)))
    c["periodic"] = draw(st.booleans())
    c["how"] = draw(st.sampled_from(["pairs", "pairs", "rows", "stack"]))
    c["ends"] = draw(st.booleans())
    c["pick"] = draw(st.integers(0, 2 ** 31 - 1))
    c["share"] = draw(st.sampled_from([0.3, 0.6, 0.9, 0.0]))
    c["threshold"] = draw(st.sampled_from([None, None, 1.0, 2.5]))
    return c


def restricted(c):
    """Networks that connect only some of the crossing fibers."""
    mat = gens.make_mat(fm, c)
    T = gens.table(c)
    n, S = len(T), c["size"]
    rng = np.random.RandomState(c["pick"])
    planar = bool(np.all(T[:, ref.W] == 0))
    if c["how"] == "pairs":
        # candidate pairs (fibers of the box only)
        I, J = np.triu_indices(n, 1)
        keep = rng.uniform(size=len(I)) < c["share"]
        pairs = np.c_[I[keep], J[keep]]
        if c["ends"]:
            pairs = np.r_[np.c_[np.arange(n), np.arange(n)], pairs]
        net = fm.Net(mat, periodic=c["periodic"], pairs=pairs.reshape(-1, 2))
    elif c["how"] == "rows":
        full = fm.Net(mat, periodic=c["periodic"])
        keep = (rng.uniform(size=len(full)) < c["share"]) | (full.A.values == full.B.values)
        net = full[keep]
        net = fm.Net(net.reset_index(drop=True))
    else:
        net = fm.Stack(mat, fm.Net(mat, periodic=c["periodic"]), threshold=float(T[:, ref.H_].mean()) * 1.01)
    given = rows(sut.net(net, "given network"))
    every = rows(sut.net(fm.Net(mat, periodic=c["periodic"]), "Net"))
    full = fm.Stack(mat, net)
    z = sut.mat(mat).z.copy()
    F = sut.net(full, "Stack")
    got = rows(F)
    require(list(full.index) == list(range(len(full))), "labels of the stack are not 0..m-1")
    require(len(got) == len(F.A), "repeated connections in the stack")
    extra = {k for k in got if k not in given and k[0] != k[1]}
    require(not extra, "the stack connects {}, which the given network does not", sorted(extra))
    require({(k, k) for k in range(n)} <= set(got), "ends of fibers are missing")
    if planar:
        require({k for k in given if k[0] != k[1]} <= set(got), "the stack lost the connections {}", sorted(set(given) - set(got)))
        tol = 1e-6 * T[:, ref.H_].max()
        for a, b in got:
            if a < b:
                require(got[a, b]["zB"] - got[a, b]["zA"] >= (T[a, 2] + T[b, 2]) / 2 - tol, "fibers {} and {} interpenetrate in the stack", a, b)
        for key in got:
            for col in ("sA", "sB", "xA", "yA", "xB", "yB"):
                if key in given:
                    require(abs(got[key][col] - given[key][col]) < 1e-9 * S, "stacking changes {} of {}", col, key)
        # stacks of meshes start without penetration
        if len(full):
            H = np.asarray(fm.constraint(mat, fm.Mesh(full))[2], dtype=float)
            require(H >= -2 * tol, "the stacked mesh interpenetrates by {}", -H.min())
    if c["threshold"] is not None and planar:
        P = rows(sut.net(fm.Stack(mat, net, threshold=c["threshold"]), "Stack(threshold)"))
        z = sut.mat(mat).z.copy()
        for k in got:
            dz = abs(z[k[1]] - z[k[0]])
            if k[0] == k[1]:
                require(k in P, "the ends of fiber {} are removed", k[0])
            elif abs(dz - c["threshold"]) > 1e-9 * S:
                require((k in P) == (dz <= c["threshold"]), "connection {} at distance {} is {} by threshold {}", k, dz,
                        "kept" if k in P else "removed", c["threshold"])
        require(set(P) <= set(got), "connections {} are not in the given network", sorted(set(P) - set(got)))
    left = {k for k in every if k not in given and k[0] < k[1]}
    some = any(a < b for a, b in got)
    return bool(left) and some, [c["how"], "planar" if planar else "tilted"]


def subs():
    return [
        Sub("filter", cases(), check, 80, 1500,
            "random in-plane mats and thresholds, half of them equal to an occurring distance; "
            "non-trivial: the threshold removes a connection"),
        Sub("tilted", tilted(), spatial, 40, 800,
            "random out-of-plane mats; non-trivial: the threshold removes a connection"),
        Sub("monotone", monotone(), nested, 20, 300,
            "increasing thresholds on one mat; non-trivial: some connection is removed by the smallest"),
        Sub("given", partial(), restricted, 50, 900,
            "networks that connect only some of the crossing fibers; non-trivial: some crossing is left out, "
            "some is connected"),
        Sub("large", cases(20, 100, True), check, 6, 120, "the filter on mats of 20 to 100 fibers"),
    ]
