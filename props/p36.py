"""P36: a mesh deformed by a solution is the starting point of the next one."""
import numpy as np
from hypothesis import strategies as st

import sut
from common import Sub, load_sut, require
from props import sol
from props.p20 import admissible

fm = load_sut()


@st.composite
def rounds(draw):
    c = draw(sol.problems(finite=draw(st.booleans()), nmax=9))
    c["rounds"] = [[draw(st.sampled_from([1000, 1000, 500, draw(st.integers(0, 1000))])) / 1000,
                    draw(st.sampled_from([1.2, 1.5, 2.0, 3.0])), draw(st.sampled_from(["mesh", "copy", "frame"]))]
                   for _ in range(draw(st.integers(1, 3)))]
    return c


def gaps0(mat, mesh, N):
    C, f, H, df, dH = sut.unpack(fm.constraint(mat, mesh), 5, "constraint")
    R = len(np.asarray(H))
    return (sut.dense(C, "C", (R, 2 * N)), np.array(H, dtype=float), np.array(f, dtype=float))


def restart(c):
    mat, mesh = sol.assemble(c)
    s = sol.run(c, mat, mesh)
    labels, moved = [], 0
    for t, packing, how in c["rounds"]:
        u, f, H, Z = (np.array(s.raw[k](t), dtype=float) for k in (2, 3, 5, 6))
        Z = float(Z)
        old = [np.array(mesh[q].values) for q in ("fiber", *"sxyz", "beam", "constraint")]
        g = H - s.C @ u
        K0 = s.K
        if how == "mesh":           # as in the documentation
            mesh.z += u[::2]
            new = mesh
        else:
            df = mesh.copy()
            df["z"] = df["z"].values + u[::2]
            new = fm.Mesh(df) if how == "copy" else df
        require(bool(fm.Mesh.check(new)), "a mesh deformed by its solution is refused")
        for q, a in zip(("fiber", *"sxyz", "beam", "constraint"), old):
            b = np.array(new[q].values)
            require(np.array_equal(b, a + u[::2] if q == "z" else a), "column {} of the deformed mesh", q)
        for k, v, name in ((2, u, "displacement"), (3, f, "contact force"), (6, Z, "ceiling")):
            require(np.array_equal(np.array(s.raw[k](t), dtype=float), v), "deforming the mesh changes the {} computed before", name)
        # remaining gaps
        C, g1, f1 = gaps0(mat, new, s.N)
        require(C == s.C, "the constraints of the deformed mesh are not those of the mesh")
        require(f1 == 0, "initial contact forces {}", f1)
        m = sut.mesh(new)
        top = float((m.z + s.h / 2).max())
        tol = 2 * s.tol + 1e-9 * s.Z[0]
        require(abs(top - Z) <= tol, "the deformed mesh is {} high under a ceiling at {}", top, Z)
        e = g.copy()
        e[2::3] += top - Z
        fin = np.isfinite(e)
        require(np.isfinite(g1) == fin, "infinite bounds of the deformed mesh differ")
        k = int(np.argmax(np.where(fin, np.abs(np.where(fin, g1, 0) - np.where(fin, e, 0)), 0)))
        require(abs(g1[k] - e[k]) <= 1e-9 * s.Z[0] + 1e-12 if fin[k] else True,
                "gap of the deformed mesh: {}, remaining gap of the solution: {}", g1[k], e[k])
        require(g1[fin] >= -2 * tol, "the deformed mesh interpenetrates by {}", -g1[fin].min() if fin.any() else 0)
        Kd = sut.dense(fm.stiffness(mat, new, lmin=c["lmin"], coupling=c["coupling"])[0], "stiffness")
        require((Kd == K0) | (np.isnan(Kd) & np.isnan(K0)), "the stiffness of the deformed mesh is not that of the mesh")
        # the next compaction starts from there
        Zold = Z
        mesh = new
        s = sol.run(dict(c, packing=packing), mat, mesh)
        require(abs(s.Z[0] - top) <= 1e-12 * abs(top) and s.rl[0] == 1, "the next compaction starts at {}, the mesh is {} high", s.Z[0], top)
        require(s.u[0] == 0, "the next compaction starts with displacements")
        require(s.f[0] == 0, "the next compaction starts with forces")
        require(s.rl[:-1] < packing, "steps after the target: {}", s.rl)
        require(s.Z <= Zold + tol, "the ceiling goes up")
        for k in range(s.states):
            # what is closed to within the tolerance stays so: earlier rounding adds up
            s_tol, s.tol = s.tol, s.tol * 3
            admissible(s, s.u[k], s.f[k], s.Z[k], "state %d of the next compaction" % k, labels)
            s.tol = s_tol
        if s.steps and t > 0:
            moved += 1
        if s.steps:
            o = sol.step_model(s, s.u[0], s.Z[0])
            require(o is None or not o["jam"], "a step is taken although the packing is jammed")
            if o is not None and not o["jam"]:
                nxt, sure = sol.next_event(o)
                if nxt is not None and sure:
                    d = s.Z[0] - s.Z[1]
                    require(abs(d - nxt) <= 1e-6 * max(nxt, 1e-3 * top) + 2 * s.tol, "the first step goes down by {}, the next contact closes after {}", d, nxt)
        labels.append(how)
    return moved >= 1, sorted(set(labels))


def subs():
    return [Sub("rounds", rounds(), restart, 30, 600,
                "one to three successive compactions of the same mesh; non-trivial: a compaction continues "
                "from a deformed mesh")]
