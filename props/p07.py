"""P07: inputs are left unchanged."""
import numpy as np
from hypothesis import strategies as st

import gens
from common import Sub, Violation, load_sut, require

fm = load_sut()

OPS = ["net", "net_bounded", "net_pairs", "lp", "lp_constraint", "stack", "stack_threshold", "mesh",
       "mesh_net", "stiffness", "constraint", "solve", "vtk_mat", "vtk_mesh", "plot",
       "copy_mat", "copy_net", "copy_stack", "copy_mesh", "check", "interpolate"]


@st.composite
def cases(draw):
    c = draw(gens.fibers(nmin=1, nmax=6, planar=True, lfrac=(300, 1000), moduli=True, finite_E=True))
    c["periodic"] = draw(st.booleans())
    c["threshold"] = draw(st.sampled_from([0.0, 1.0, 5.0]))
    c["labels"] = draw(st.booleans())
    c["ops"] = draw(st.lists(st.sampled_from(OPS), min_size=2, max_size=9))
    return c


def snap(df, drop=()):
    return {
        "type": type(df).__name__,
        "columns": [str(c) for c in df.columns if c not in drop],
        "index": [int(i) for i in df.index],
        "dtypes": [str(df[c].dtype) for c in df.columns if c not in drop],
        "attrs": sorted((str(k), repr(v)) for k, v in df.attrs.items()),
        "values": {str(c): df[c].values.copy() for c in df.columns if c not in drop},
    }


def same(a, b, what, allow=()):
    for k in ("type", "columns", "index", "dtypes", "attrs"):
        require(a[k] == b[k], "{}: {} changed from {} to {}", what, k, a[k], b[k])
    for col in a["columns"]:
        if col in allow:
            continue
        x, y = a["values"][col], b["values"][col]
        require(np.array_equal(x, y, equal_nan=x.dtype.kind == "f"),
                "{}: values of column {!r} changed from {} to {}", what, col, x[:8], y[:8])


class World:
    def __init__(self, c):
        self.c = c
        self.df = gens.dataframe(c)
        self.mat = fm.Mat(self.df)
        # the plain table given to the constructor is an input as well
        self.net = fm.Net(self.mat, periodic=c["periodic"])
        self.stack = fm.Stack(self.mat, self.net)
        self.mesh = fm.Mesh(self.stack)
        self.arrays = {}

    def frames(self):
        return {"mat": self.mat, "net": self.net, "stack": self.stack, "mesh": self.mesh}

    def snap(self):
        out = {k: snap(v, drop=("h",) if k == "mesh" else ()) for k, v in self.frames().items()}
        return out

    def run(self, op):
        c, mat, net, stack, mesh = self.c, self.mat, self.net, self.stack, self.mesh
        allow = ()
        new = []
        kept = {}
        if op == "net":
            fm.Net(mat, periodic=c["periodic"])
        elif op == "net_bounded":
            fm.Net(mat, periodic=False)
        elif op == "net_pairs":
            pairs = np.array([[i, j] for j in range(len(mat)) for i in range(j + 1)][::-1])
            kept["pairs"] = (pairs, pairs.copy())
            fm.Net(mat, periodic=False, pairs=pairs)
        elif op == "lp":
            fm.Stack.solve(mat, net)
        elif op == "lp_constraint":
            fm.Stack.constraint(mat, net)
        elif op in ("stack", "stack_threshold"):
            allow = ("z",)
            fm.Stack(mat, net, threshold=c["threshold"] if op != "stack" else None)
        elif op == "mesh":
            fm.Mesh(stack)
        elif op == "mesh_net":
            fm.Mesh(net)
        elif op == "stiffness":
            fm.stiffness(mat, mesh, lmin=0.01)
        elif op == "constraint":
            fm.constraint(mat, mesh)
        elif op == "solve":
            fm.solve(mat, mesh, packing=2.0, itermax=4, lmin=0.01, coupling=0.99, verbose=False)
        elif op == "vtk_mat":
            fm.vtk_mat(mat, verbose=False)
        elif op == "vtk_mesh":
            m = len(mesh)
            fields = [np.linspace(-1, 0, m) * k for k in (0.1, 0.01, 1.0, 0.0)]
            for k, f in enumerate(fields):
                kept["field %d" % k] = (f, f.copy())
            fm.vtk_mesh(mat, mesh, *fields, verbose=False)
        elif op == "interpolate":
            t = np.arange(len(mesh) + 1.0)
            for k, y in enumerate([np.c_[t, t ** 2, t * 0 + np.inf, np.where(t > 1, np.inf, t)], t - 0.5,
                                   np.arange(6), np.array([[True, False], [False, False]])]):
                kept["data %d" % k] = (y, y.copy())
                with np.errstate(all="ignore"):
                    for kind in ("linear", "previous"):
                        for size in (None, 5):
                            g = fm.Interpolate(y, size=size, kind=kind)
                            g(), g(0.3), g(np.linspace(0, 1, 4))
            rows = [np.array([0.0, np.inf]), np.array([1.0, np.inf])]
            kept["rows"] = (np.array(rows), np.array(rows).copy())
            fm.Interpolate(rows)(0.5)
            require(rows[0].tolist() == [0.0, np.inf] and rows[1].tolist() == [1.0, np.inf],
                    "rows given to be interpolated changed to {}", rows)
        elif op == "plot":
            from matplotlib import pyplot as plt
            system = list(fm.stiffness(mat, mesh, lmin=0.01)) + list(fm.constraint(mat, mesh))
            for k, x in enumerate(system):
                a = x.toarray() if hasattr(x, "toarray") else x
                kept["system %d" % k] = (x, a.copy())
            fig, ax = plt.subplots()
            try:
                fm.plot_system(*system, ax=ax)
            except RuntimeError as e:
                if "singular" not in str(e):
                    raise
            finally:
                plt.close("all")
        elif op.startswith("copy_"):
            name = op[5:]
            src = self.frames()[name]
            cls = {"mat": fm.Mat, "net": fm.Net, "stack": fm.Stack, "mesh": fm.Mesh}[name]
            cp = cls(src)
            require(cp is not src, "copy of {} is the object itself", name)
            same(snap(src), snap(cp), "copy of %s" % name)
            require(dict(cp.attrs) == dict(src.attrs), "copy of {} has other attributes", name)
            if name == "stack":
                as_net = fm.Net(src)
                require(len(as_net) == len(src), "network copied from a stack differs")
        elif op == "check":
            fm.Mat.check(mat), fm.Net.check(net), fm.Stack.check(stack), fm.Mesh.check(mesh)
        for k, (obj, old) in kept.items():
            a = obj.toarray() if hasattr(obj, "toarray") else obj
            require(np.array_equal(a, old), "{}: argument {} changed", op, k)
        return allow


def check(c):
    w = World(c)
    df0 = snap(w.df)
    # the network built before stacking and the plain table are inputs of what follows
    for k, op in enumerate(c["ops"]):
        before = w.snap()
        allow = w.run(op)
        after = w.snap()
        for name in before:
            same(before[name], after[name], "%s after %s" % (name, op),
                 allow if name == "mat" else ())
        if "h" in w.mesh.columns:
            require(np.array_equal(w.mesh["h"].values, w.mat.h.values[w.mesh.fiber.values]),
                    "column h of the mesh is not the fiber thickness")
    return len(w.net) > len(w.mat) and len(set(c["ops"])) > 1, sorted(set(c["ops"]))


def first(c):
    """Direct inputs at first use: mat before any network, network before any stack."""
    df = gens.dataframe(c)
    s0 = snap(df)
    mat = fm.Mat(df)
    same(dict(s0, type="Mat"), snap(mat), "mat built from a table")
    same(s0, snap(df), "table given to Mat")
    s1 = snap(mat)
    net = fm.Net(mat, periodic=c["periodic"])
    same(s1, snap(mat), "mat after Net")
    s2 = snap(net)
    sol = fm.Stack.solve(mat, net)
    same(s1, snap(mat), "mat after Stack.solve")
    stack = fm.Stack(mat, net, threshold=c["threshold"])
    same(s1, snap(mat), "mat after Stack", allow=("z",))
    same(s2, snap(net), "net after Stack")
    s3, s4 = snap(mat), snap(stack)
    mesh = fm.Mesh(stack)
    same(s4, snap(stack), "stack after Mesh")
    same(s3, snap(mat), "mat after Mesh")
    s5 = snap(mesh)
    fm.solve(mat, mesh, packing=3.0, itermax=4, lmin=0.01, coupling=0.99, verbose=False)
    same(s3, snap(mat), "mat after solve")
    same(s5, snap(mesh, drop=("h",)), "mesh after solve")
    return len(net) > len(mat), ["first"]


def subs():
    return [
        Sub("histories", cases(), check, 25, 400,
            "random sequences of 20 kinds of calls on one mat, its network, stack and mesh; "
            "non-trivial: at least one crossing and two kinds of calls"),
        Sub("pipeline", cases(), first, 25, 400,
            "every stage on freshly built inputs; non-trivial: at least one crossing"),
    ]
