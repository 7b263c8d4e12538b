"""P35: fibers that do not interact do not influence each other."""
import numpy as np
from hypothesis import strategies as st

import gens
import ref
import sut
from common import Sub, load_sut, require
from props import sol
from props.p23 import judged_depth, along, nodal

fm = load_sut()


@st.composite
def groups(draw, nmin=1, nmax=7, solver=False):
    """Two groups on either side of the box (they cannot meet, whatever the boundaries)."""
    rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
    na, nb = draw(st.integers(nmin, nmax)), draw(st.integers(nmin, nmax))
    mixed = draw(st.integers(0, 3)) > 0
    S = 50.0
    yspan = int(rng.choice([40, 80, 150, 500]))
    h0 = float(rng.choice([0.2, 0.5, 1.0]))
    mods = [float(rng.choice([1.0, 2.0, 0.5])), float(rng.choice([10.0, 100.0, 2500.0]))]
    rows = []
    for k in range(na + nb):
        side = -1 if k < na else 1
        x = side * int(rng.randint(150, 351))
        if solver:
            x = side * int(rng.randint(220, 281))
        l = int(rng.randint(180, 251) if rng.uniform() < 0.7 or solver else rng.randint(30, 251))
        h = float(rng.choice([0.2, 0.5, 1.0, 2.0])) if mixed else h0
        G, E = ([float(rng.choice([1.0, 2.0, 0.5])), float(rng.choice([10.0, 100.0, 2500.0]))] if mixed else mods)
        y = int(rng.randint(-yspan, yspan + 1)) if not solver else int(rng.randint(-60, 61))
        if not solver and rng.uniform() < 0.2:
            y = int(rng.choice([-495, 495]))
        rows.append([[l, float(rng.choice([0.2, 0.5, 1.0])), h, x, y, int(rng.randint(-500, 501)),
                      int(rng.randint(-gens.NANG // 2 + 1, gens.NANG // 2 + 1)), 0, G, E], side])
    order = rng.permutation(na + nb)      # interleaved labels
    rows = [rows[k] for k in order]
    return {"size": S, "fibers": [r for r, _ in rows], "side": [s for _, s in rows],
            "periodic": draw(st.booleans()),
            "threshold": draw(st.sampled_from([None, None, 0.5, 1.0, 2.0, 10.0])),
            "coupling": draw(st.sampled_from([1.0, 0.99])),
            "bounds": draw(st.sampled_from([None, [1e-3, 60.0], [1e-2 / 64, None]])),
            "compact": draw(st.sampled_from([1.3, 2.0, 4.0]))}


class G:
    """Everything fibermat computes from a mat."""


def build(c, fibers):
    g = G()
    g.c = dict(c, fibers=[c["fibers"][k] for k in fibers])
    g.T = gens.table(g.c)
    g.mat = gens.make_mat(fm, g.c)
    netdf = fm.Net(g.mat, periodic=c["periodic"])
    g.net = sut.net(netdf)
    stack = fm.Stack(g.mat, netdf, threshold=c["threshold"])
    g.stack = sut.net(stack, "Stack")
    g.z = sut.mat(g.mat).z
    g.meshdf = fm.Mesh(stack)
    g.mesh = sut.mesh(g.meshdf)
    return g


def rows(d, label=None):
    """Connections as sorted rows, with labels translated."""
    out = []
    for k in range(len(d.A)):
        a, b = d.A[k], d.B[k]
        if label is not None:
            a, b = label[a], label[b]
        out.append([a, b] + [d[q][k] for q in sut.NETCOLS[2:]])
    return np.array(sorted(out, key=lambda r: (r[0], r[1], round(r[2], 6), round(r[3], 6))), dtype=float).reshape(-1, 10)


def check(c):
    side = np.array(c["side"])
    U = build(c, range(len(side)))
    S = c["size"]
    eps = 1e-9 * S
    many = []
    for which, name in ((-1, "left"), (1, "right")):
        own = np.flatnonzero(side == which)
        g = build(c, own)
        many.append(g)
        g.own = own
        for a, b, what in ((U.net, g.net, "network"), (U.stack, g.stack, "stack")):
            require(np.all(side[a.A] == side[a.B]), "the {} connects fibers that are apart", what)
            keep = side[a.A] == which
            part = sut.V({k: a[k][keep] for k in sut.NETCOLS})
            ra, rb = rows(part), rows(b, own)
            require(len(ra) == len(rb), "the {} group has {} connections in the {} of all fibers, {} alone", name, len(ra), what, len(rb))
            require(np.abs(ra - rb) <= 1e-6 * S, "the {} of the {} group depends on the other group", what, name)
        require(np.abs(U.z[own] - g.z) <= 1e-7 * max(1.0, U.T[:, 2].max()), "the heights of the {} group depend on the other: {} alone, {} together",
                name, g.z, U.z[own])
        # mesh
        keep = np.flatnonzero(side[U.mesh.fiber] == which)
        g.nodes = keep
        require(len(keep) == len(g.mesh.s), "the {} group has {} nodes in the mesh of all fibers, {} alone", name, len(keep), len(g.mesh.s))
        back = np.full(len(U.mesh.s), -1)
        back[keep] = np.arange(len(keep))
        require(np.array_equal(U.mesh.fiber[keep], own[g.mesh.fiber]), "the order of the fibers in the mesh")
        for q in "sxyz":
            require(np.abs(U.mesh[q][keep] - g.mesh[q]) <= 1e-6 * S, "node coordinates {} of the {} group depend on the other group", q, name)
        if np.any((np.diff(g.mesh.s) < 1e-6 * S) & (np.diff(g.mesh.fiber) == 0)):
            g.twins = True
        else:
            g.twins = False
            require(np.array_equal(back[U.mesh.beam[keep]], g.mesh.beam), "beams of the {} group", name)
            require(np.array_equal(back[U.mesh.constraint[keep]], g.mesh.constraint), "links of the {} group", name)
    twins = any(g.twins for g in many)
    labels = ["periodic" if c["periodic"] else "bounded", "threshold" if c["threshold"] is not None else "all"]
    inner = sum(int(np.sum(g.stack.A != g.stack.B)) for g in many)
    if twins:
        return False, labels + ["coincident nodes"]
    # matrices
    kw = {"coupling": c["coupling"]}
    if c["bounds"] is not None:
        kw["lmin"] = c["bounds"][0]
        if c["bounds"][1] is not None:
            kw["lmax"] = c["bounds"][1]
    short = min(np.diff(g.mesh.s)[np.diff(g.mesh.fiber) == 0].min() for g in many)
    if c["bounds"] is not None and (short < c["bounds"][0] or c["bounds"][1] is None):
        kw = {"coupling": c["coupling"]}      # rescaling of lengths is global
    KU = sut.dense(fm.stiffness(U.mat, U.meshdf, **kw)[0], "stiffness")
    CU, fU, HU = fm.constraint(U.mat, U.meshdf)[:3]
    CU, HU = sut.dense(CU, "constraint"), np.asarray(HU, dtype=float)
    top = (U.mesh.z + U.T[U.mesh.fiber, 2] / 2).max()
    firsts = np.flatnonzero(np.arange(len(U.mesh.s)) <= U.mesh.constraint)
    for g, name in zip(many, ("left", "right")):
        d = np.stack([2 * g.nodes, 2 * g.nodes + 1], axis=1).ravel()
        K = sut.dense(fm.stiffness(g.mat, g.meshdf, **kw)[0], "stiffness")
        sc = np.abs(K).max()
        require(np.abs(KU[np.ix_(d, d)] - K) <= 1e-6 * np.abs(K) + 1e-7 * sc, "the stiffness of the {} group depends on the other group", name)
        rest = np.setdiff1d(np.arange(len(KU)), d)
        require(KU[np.ix_(d, rest)] == 0, "the stiffness couples fibers that are apart")
        C, f, H = fm.constraint(g.mat, g.meshdf)[:3]
        C, H = sut.dense(C, "constraint"), np.asarray(H, dtype=float)
        pr = np.flatnonzero(side[U.mesh.fiber[firsts]] == (-1 if name == "left" else 1))
        r = (3 * pr[:, None] + np.arange(3)).ravel()
        require(len(r) == len(H), "{} constraints of the {} group instead of {}", len(r), name, len(H))
        require(CU[np.ix_(r, d)] == C, "the constraints of the {} group depend on the other group", name)
        require(CU[np.ix_(r, rest)] == 0, "constraints involve fibers that are apart")
        own_top = (g.mesh.z + g.T[g.mesh.fiber, 2] / 2).max()
        e = H.copy()
        e[2::3] += top - own_top
        fin = np.isfinite(e)
        require(np.isfinite(HU[r]) == fin, "infinite bounds of the {} group", name)
        require(np.abs(HU[r][fin] - e[fin]) <= 1e-6 * top, "the bounds of the {} group depend on the other group", name)
    return inner >= 2 and len(many[0].T) > 0 and len(many[1].T) > 0, labels


def follow(c):
    """Compaction: at the same ceiling height, a group is in the state it has alone."""
    side = np.array(c["side"])
    kw = dict(c, lmin=None, itermax=300, threshold=c["threshold"])
    U = build(c, range(len(side)))
    if not len(U.mesh.s):
        return False, []
    gs = []
    for which in (-1, 1):
        own = np.flatnonzero(side == which)
        g = build(c, own)
        g.own, g.nodes = own, np.flatnonzero(side[U.mesh.fiber] == which)
        if len(g.nodes) != len(g.mesh.s):
            return False, ["see check"]
        if np.any((np.diff(g.mesh.s) < 1e-2) & (np.diff(g.mesh.fiber) == 0)):
            return False, ["close nodes"]
        g.top = (g.mesh.z + g.T[g.mesh.fiber, 2] / 2).max()
        gs.append(g)
    top = max(g.top for g in gs)
    low = min(g.top for g in gs)
    goal = low / c["compact"]
    a = sol.run(dict(kw, packing=top / goal), U.mat, U.meshdf, coupling=0.99, lmin=None)
    ka, clear_a = judged_depth(a)
    q = 0
    floors = []
    for g in gs:
        b = sol.run(dict(kw, packing=g.top / goal), g.mat, g.meshdf, coupling=0.99, lmin=None)
        kb, clear_b = judged_depth(b)
        floors.append((b.Z[-1], clear_b))
        hi = min(a.Z[0], b.Z[0])
        lo = max(a.Z[ka], b.Z[kb])
        at = b.Z[:kb + 1]
        at = at[(at <= hi + 1e-12 * top) & (at >= lo - 1e-12 * top)]
        mid = np.linspace(hi, lo, 4) if hi > lo else np.zeros(0)
        at = np.sort(np.r_[at, mid])[::-1]
        if not len(at):
            continue
        d = np.stack([2 * g.nodes, 2 * g.nodes + 1], axis=1).ravel()
        ua, ub = along(a.Z, a.u[:, d], at), along(b.Z, b.u, at)
        e = np.abs(ua - ub)[:, ::2]
        require(e <= 1e-5 * top, "at equal ceiling heights the displacements of a group depend on the other group, by {}", e.max())
        na, nb = along(a.Z, nodal(a)[:, g.nodes], at), along(b.Z, nodal(b), at)
        noise = 1e-9 * max((np.abs(np.where(np.isfinite(b.K), b.K, 0)) @ np.abs(u)).max() for u in b.u)
        soft = 1e-5 * np.abs(np.where(np.isfinite(b.K), b.K, 0)).max(axis=1)[::2]
        fe = np.abs(na - nb)
        require(fe <= 1e-4 * np.abs(nb).max() + noise + soft[None, :] * top, "at equal ceiling heights the contact forces of a group depend on the other group, by {} (largest: {})",
                fe.max(), np.abs(nb).max())
        q += int(np.sum(at < b.Z[0] - 1e-9))
    # the packing goes as far as the first group to jam (or the target)
    if clear_a and all(k for _, k in floors) and a.steps < 300:
        stop = max(max(z, goal) if z > goal else goal for z, _ in floors)
        if stop > goal * (1 + 1e-6):
            require(abs(a.Z[-1] - stop) <= 1e-5 * top, "together the packing stops at {}, the groups alone at {}", a.Z[-1], [z for z, _ in floors])
        else:
            require(a.Z[-1] <= goal * (1 + 1e-5), "together the packing stops at {}; alone the groups reach {}", a.Z[-1], [z for z, _ in floors])
    return q >= 3, ["states=%d" % min(q, 10)]


def subs():
    return [
        Sub("geometry", groups(1, 9), check, 60, 1200,
            "two groups of fibers apart from each other, together and alone: networks, stacks, meshes, "
            "matrices; non-trivial: at least two crossings"),
        Sub("compaction", groups(3, 6, True), follow, 25, 300,
            "the same, compacted to equal ceiling heights; non-trivial: at least three heights compared"),
    ]
