"""P03: results depend only on the arguments."""
import hashlib
import json
import os
import pickle
import subprocess
import sys

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import sut
from common import SRC, Sub, load_sut, require

fm = load_sut()

KINDS = ["mat", "net", "stack", "mesh", "stiffness", "constraint", "lp", "solve", "vtk"]

arg = st.fixed_dictionaries({
    "n": st.sampled_from([3, 6, 9]),
    "seed": st.sampled_from([0, 1, 7]),
    "length": st.sampled_from([15.0, 25.0]),
    "size": st.sampled_from([20.0, 50.0]),
    "psi": st.sampled_from([0.0, 0.0, 0.3]),
    "periodic": st.booleans(),
    "threshold": st.sampled_from([None, None, 2.0]),
    "tensile": st.sampled_from([2500.0, 100.0]),
})

op = st.one_of(
    st.tuples(st.just("eval"), st.sampled_from(KINDS), st.integers(0, 2)),
    st.tuples(st.just("eval"), st.sampled_from(KINDS), st.integers(0, 2)),
    st.tuples(st.just("rng"), st.integers(0, 5), st.sampled_from(["seed", "draw"])),
    st.tuples(st.just("scramble"), st.integers(0, 5), st.integers(0, 3)),
)


@st.composite
def histories(draw):
    pool = draw(st.lists(arg, min_size=1, max_size=3))
    ops = draw(st.lists(op, min_size=3, max_size=14))
    return {"pool": pool, "ops": [list(o) for o in ops]}


def frame(df):
    return (type(df).__name__, list(map(str, df.columns)), list(df.index),
            [df[c].values.tolist() for c in df.columns],
            sorted((str(k), repr(v)) for k, v in df.attrs.items()))


def evaluate(kind, a):
    """Everything is rebuilt from the arguments. Returns (digest, objects)."""
    kw = dict(a)
    psi = kw.pop("psi") if kind in ("mat", "net", "mesh") else (kw.pop("psi"), 0.0)[1]
    objs = []
    mat = fm.Mat(psi=psi, **kw)
    objs.append(mat)
    if kind == "mat":
        return frame(mat), objs
    net = fm.Net(mat, **kw)
    objs.append(net)
    if kind == "net":
        return frame(net), objs
    if kind == "lp":
        sol = fm.Stack.solve(mat, net)
        return np.asarray(sol.x).tolist(), objs
    if kind == "mesh":
        mesh = fm.Mesh(net)
        objs.append(mesh)
        return frame(mesh), objs
    stack = fm.Stack(mat, net, **kw)
    objs.append(stack)
    if kind == "stack":
        return (frame(stack), frame(mat)), objs
    mesh = fm.Mesh(stack)
    objs.append(mesh)
    if kind == "stiffness":
        r = fm.stiffness(mat, mesh, lmin=0.01)
        return [r[0].toarray().tobytes()] + [np.asarray(x).tobytes() for x in r[1:]], objs
    if kind == "constraint":
        r = fm.constraint(mat, mesh)
        return [r[0].toarray().tobytes()] + [np.asarray(x).tobytes() for x in r[1:]], objs
    if kind == "solve":
        r = fm.solve(mat, mesh, packing=2.0, itermax=8, lmin=0.01, coupling=0.99, verbose=False)
        return [np.asarray(x()).tobytes() for x in r[2:]], objs
    msh = fm.vtk_mesh(mat, mesh, verbose=False)
    return [np.asarray(msh.points).tobytes(),
            sorted((k, np.asarray(msh[k]).tobytes()) for k in msh.array_names)], objs


def digest(value):
    return hashlib.sha1(pickle.dumps(value)).hexdigest()


def history(case):
    pool = case["pool"]
    first, alive = {}, []
    repeats = mixed = 0
    for k, o in enumerate(case["ops"]):
        if o[0] == "eval":
            a = pool[o[2] % len(pool)]
            key = (o[1], json.dumps(a, sort_keys=True))
            value, objs = evaluate(o[1], a)
            dg = digest(value)
            if key in first:
                repeats += 1
                mixed += k - first[key][0] > 1
                require(dg == first[key][1], "{} of {} differs from its first evaluation", o[1], a)
            else:
                first[key] = (k, dg)
            alive.extend(objs)
        elif o[0] == "rng":
            if o[2] == "seed":
                np.random.seed(o[1])
            else:
                np.random.uniform(size=o[1])
        elif alive:
            # overwrite the data of an object built earlier
            df = alive[(o[1] * 7 + o[2]) % len(alive)]
            for c in list(df.columns)[o[2]:]:
                if len(df):
                    df.loc[df.index[0], c] = df[c].iloc[-1]
                    df[c] = df[c].values[::-1].copy()
            df.attrs["n"] = -1
            df.attrs["seed"] = o[1]
    # finally, evaluate everything again
    for (kind, text), (k, dg) in list(first.items()):
        require(digest(evaluate(kind, json.loads(text))[0]) == dg,
                "{} of {} differs from its first evaluation", kind, text)
        repeats += 1
    return len(first) >= 2 and repeats >= 2, ["repeat" if mixed else "final-repeat"]


# Objects that were already used (and modified by hand) give what fresh copies of them give.
BASE = {"mat": [*"lbhxyzuvwGE"], "net": sut.NETCOLS, "stack": sut.NETCOLS,
        "mesh": ["fiber", *"sxyz", "beam", "constraint"]}
USE = ["net", "net_pairs", "mesh", "stack", "lp", "stiffness", "constraint", "solve", "vtk", "mesh_stack"]

shared_op = st.one_of(
    st.tuples(st.just("use"), st.sampled_from(USE), st.integers(0, 3)),
    st.tuples(st.just("use"), st.sampled_from(USE), st.integers(0, 3)),
    st.tuples(st.just("set"), st.sampled_from([*"lbhGE", "z", "h", "h"]), st.integers(0, 9),
              st.sampled_from([0.5, 0.75, 1.5, 2.0])),
    st.tuples(st.just("move"), st.sampled_from(["x", "y", "turn"]), st.integers(0, 9), st.sampled_from([0.25, 0.5])),
    st.tuples(st.just("exchange"), st.sampled_from(["x", "y", "xy", "z", "uv", "lb", "h", "GE"]), st.booleans()),
    st.tuples(st.just("raise"), st.integers(0, 40), st.sampled_from([-0.5, 0.25, 2.0])),
    st.tuples(st.just("attr"), st.sampled_from(["note", "threshold"]), st.integers(0, 3)),
)


@st.composite
def shared_cases(draw):
    a = draw(arg)
    ops = [list(o) for o in draw(st.lists(shared_op, min_size=3, max_size=10))]
    if draw(st.booleans()):
        # the same use before and after a modification
        u = draw(st.sampled_from(USE + ["net", "stack"]))
        v = draw(st.integers(0, 3))
        ops = [o for o in ops if o[0] != "use"] or [["exchange", "x", True]]
        ops = ops[:4]
        for k in range(len(ops), -1, -1):
            ops.insert(k, ["use", u, v])
    return {"arg": a, "ops": ops, "late": draw(st.booleans())}


def pristine(kind, df):
    """A new object with the documented columns and a copy of the attributes."""
    new = pd.DataFrame({c: np.array(df[c].values) for c in BASE[kind]})
    new.attrs = {k: df.attrs[k] for k in ("n", "size", "periodic") if k in df.attrs}
    return {"mat": fm.Mat, "net": fm.Net, "stack": fm.Stack, "mesh": fm.Mesh}[kind](new)


def use(kind, variant, mat, net, stack, mesh):
    thr = [None, 0.0, 1.0, 3.0][variant]
    if kind == "net":
        return values(fm.Net(mat, periodic=bool(variant % 2)), "net")
    if kind == "net_pairs":
        n = len(mat)
        return values(fm.Net(mat, pairs=[[i, i + 1 + variant % 2] for i in range(n - 1 - variant % 2)]), "net")
    if kind == "mesh":
        return values(fm.Mesh(net), "mesh")
    if kind == "mesh_stack":
        return values(fm.Mesh(stack), "mesh")
    if kind == "stack":
        return values(fm.Stack(mat, net, threshold=thr), "stack") + values(mat, "mat")
    if kind == "lp":
        return [np.asarray(fm.Stack.solve(mat, net).x).tobytes()]
    if kind == "stiffness":
        r = fm.stiffness(mat, mesh, lmin=[None, 0.1][variant % 2], coupling=[1.0, 0.5][variant // 2])
        return [r[0].toarray().tobytes()] + [np.asarray(x).tobytes() for x in r[1:]]
    if kind == "constraint":
        r = fm.constraint(mat, mesh)
        return [r[0].toarray().tobytes()] + [np.asarray(x).tobytes() for x in r[1:]]
    if kind == "solve":
        r = fm.solve(mat, mesh, packing=1.5 + variant, itermax=6, lmin=0.1, coupling=0.99, verbose=False)
        return [np.asarray(x()).tobytes() for x in r[2:]]
    msh = fm.vtk_mesh(mat, mesh, verbose=False)
    return [np.asarray(msh.points).tobytes(), sorted((k, np.asarray(msh[k]).tobytes()) for k in msh.array_names)]


def values(df, kind):
    return [df[c].values.tobytes() for c in BASE[kind]] + [list(df.index)]


def attempt(*a):
    """Outcome of one use; an object modified by hand may be refused, but then always."""
    try:
        return "value", use(*a)
    except Exception as e:
        return "error", type(e).__name__


def compare(o, kind, dg, copies):
    expected = attempt(o[1], o[2], *copies)
    require(kind == expected[0], "{}: {} with used objects and {} with fresh copies", o[1], kind, expected[0])
    require(dg == digest(expected), "{} (variant {}) differs between used objects and fresh copies of them",
            o[1], o[2])


def shared(case):
    a = dict(case["arg"])
    psi = a.pop("psi")
    a["threshold"] = None
    a.pop("tensile")
    mat = fm.Mat(psi=0 * psi, tensile=200.0, **a)
    net = fm.Net(mat, periodic=a["periodic"])
    stack = fm.Stack(mat, net)
    mesh = fm.Mesh(stack)
    uses, sets, errors = {}, 0, 0
    S = a["size"]
    late = []       # comparisons made once everything is done: nothing happens in between on other objects
    for o in case["ops"]:
        if o[0] == "set":
            k = o[2] % len(mat)
            rows = slice(None) if o[2] % 3 == 0 else k
            if o[1] == "z":
                mat.loc[k, "z"] += o[3]
            else:
                mat.loc[rows, o[1]] = mat.loc[rows, o[1]] * o[3]
            sets += 1
        elif o[0] == "move":
            k = o[2] % len(mat)
            if o[1] == "turn":
                u, v = mat.loc[k, "u"], mat.loc[k, "v"]
                mat.loc[k, ["u", "v"]] = [-v, u]
            else:
                x = mat.loc[k, o[1]] + o[3] * S
                mat.loc[k, o[1]] = x - S if x > 0.5 * S else x
            sets += 1
        elif o[0] == "exchange":
            # the fibers exchange some of their properties (sums are unchanged)
            for col in o[1]:
                v = mat[col].values
                mat[col] = v[::-1].copy() if o[2] else np.roll(v, 1)
            sets += 1
        elif o[0] == "raise":
            mesh.loc[o[1] % len(mesh), "z"] += o[2]
            sets += 1
        elif o[0] == "attr":
            for df in (mat, net, stack, mesh):
                df.attrs[o[1]] = o[2]
        else:
            copies = [pristine(k, d) for k, d in
                      zip(["mat", "net", "stack", "mesh"], [mat, net, stack, mesh])]
            got = attempt(o[1], o[2], mat, net, stack, mesh)
            for df in (net, stack, mesh):
                require(df.attrs["periodic"] == a["periodic"] and df.attrs["n"] == a["n"] and df.attrs["size"] == a["size"],
                        "{}: attributes of a {} built before are now {}", o[1], type(df).__name__, df.attrs)
            late.append((o, got[0], digest(got), copies))
            if not case.get("late"):
                compare(*late.pop())
            errors += got[0] == "error"
            uses[o[1]] = uses.get(o[1], 0) + 1
    for item in late:
        compare(*item)
    return sum(uses.values()) >= 2 and errors < sum(uses.values()), \
        (["modified"] if sets else []) + (["repeat"] if max(uses.values(), default=0) > 1 else [])


def fingerprints(args):
    return [[digest(json.dumps(evaluate(k, a)[0], default=repr)) for k in ("mat", "net", "stack", "mesh")]
            for a in args]


def process(case):
    """Same arguments in another process, with another string hash seed."""
    here = fingerprints(case["pool"])
    code = ("import sys, json; sys.path.insert(0, %r); import common; from props import p03\n"
            "with common.quiet(): print('@@' + json.dumps(p03.fingerprints(json.loads(sys.argv[1]))))"
            % os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code, json.dumps(case["pool"])],
                       capture_output=True, text=True, env=env, timeout=110)
    line = [x for x in r.stdout.splitlines() if x.startswith("@@")]
    if not line:
        raise RuntimeError("subprocess failed: %s" % r.stderr[-2000:])
    there = json.loads(line[0][2:])
    require(here == there, "results differ between two processes")
    return True, ["process"]


def subs():
    return [
        Sub("histories", histories(), history, 16, 300,
            "random sequences of evaluations, uses of the global random generator and overwriting "
            "of earlier objects; non-trivial: at least two different evaluations each repeated"),
        Sub("shared", shared_cases(), shared, 60, 500,
            "random sequences of uses of the same objects with hand modifications in between, each "
            "compared with fresh copies; non-trivial: at least two uses"),
        Sub("process", st.fixed_dictionaries({"pool": st.lists(arg, min_size=4, max_size=6),
                                              "hashseed": st.integers(1, 1000)}),
            process, 1, 3, "the same arguments evaluated in another process"),
    ]
