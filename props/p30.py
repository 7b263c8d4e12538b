"""P30: settings panel."""
import math

import numpy as np
from hypothesis import strategies as st

from common import Sub, load_sut, require

fm = load_sut()

FLOATS = {"length": (0.5, 200), "width": (0.01, 20), "thickness": (0.01, 20), "size": (1, 500),
          "packing": (0.5, 20), "coupling": (0.0, 1.0)}
OPTIONAL = {"threshold": (-5, 100), "lmin": (0, 10), "lmax": (0, 200)}
DEFAULTS = dict(n=0, length=25., width=1., thickness=1., size=50., theta=1., shear=1., tensile="inf", seed=0,
                periodic=True, threshold=None, packing=1., itermax=1000, tol=1e-6, lmin=None, lmax=None,
                coupling=1.0, interp_size=None, verbose=True)
NAMES = list(DEFAULTS)
SWITCHED = ["shear", "tensile", "seed", "threshold", "lmin", "lmax", "interp_size"]


def num(lo, hi):
    return st.one_of(st.integers(math.ceil(lo), math.floor(hi)) if math.ceil(lo) <= math.floor(hi) else st.nothing(),
                     st.floats(lo, hi, allow_nan=False))


def values(name):
    if name in FLOATS:
        return num(*FLOATS[name])
    if name in OPTIONAL:
        return st.one_of(st.none(), num(*OPTIONAL[name]), st.sampled_from([0, 0.0, 1e-12, 1e6]))
    return {
        "n": st.integers(0, 10 ** 6),
        "theta": st.floats(0.0, 1.0),
        "shear": st.one_of(st.just("inf"), num(0.01, 1e4), st.sampled_from([1e-12, 1e-3, 26e9, 1e15])),
        "tensile": st.one_of(st.just("inf"), num(0.01, 1e6), st.sampled_from([1e-12, 1e-3, 2.1e11, 1e15])),
        "seed": st.one_of(st.none(), st.integers(0, 2 ** 31)),
        "periodic": st.booleans(),
        "itermax": st.integers(1, 10 ** 6),
        "tol": st.sampled_from([1e-10, 1e-9, 1e-7, 1e-6, 3e-5, 1e-3, 0.1]),
        "interp_size": st.one_of(st.none(), st.integers(0, 10000)),
        "verbose": st.booleans(),
    }[name]


KIND = st.sampled_from(["plain", "numpy"])


@st.composite
def histories(draw):
    init = {k: draw(values(k)) for k in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=8))}
    ops = []
    for _ in range(draw(st.integers(0, 12))):
        op = draw(st.sampled_from(["set", "set", "call", "switch", "widget", "show", "read"]))
        if op in ("set", "widget"):
            name = draw(st.sampled_from(NAMES))
            ops.append([op, name, draw(values(name)), draw(KIND)])
        elif op == "call":
            names = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=6))
            ops.append([op, {k: draw(values(k)) for k in names}])
        elif op == "switch":
            ops.append([op, draw(st.sampled_from(SWITCHED)), draw(st.booleans())])
        else:
            ops.append([op])
    return {"init": init, "kind": draw(KIND), "ops": ops}


def decode(name, v, kind="plain"):
    """Value given to the panel."""
    if isinstance(v, str):
        return {"plain": float(v), "numpy": np.float64(v)}[kind]
    if kind == "numpy" and v is not None and not isinstance(v, bool):
        return np.int64(v) if isinstance(v, int) else np.float64(v)
    return v


UNKNOWN = object()


class Model:
    """value (as the reader sees it when on), on."""

    def __init__(self):
        self.v, self.on = {}, {}
        for k, v in DEFAULTS.items():
            self.v[k], self.on[k] = UNKNOWN, True
            self.put(k, v)

    def put(self, k, v):
        if k in SWITCHED:
            off = v is None or v == "inf"
            self.on[k] = not off
            if not off:
                self.v[k] = v
        else:
            self.v[k] = v

    def get(self, k):
        if k in SWITCHED and not self.on[k]:
            return math.inf if k in ("shear", "tensile") else None
        if k == "theta":
            return self.v[k] * math.pi
        return self.v[k]


def same(a, b, name):
    if b is UNKNOWN:
        return a is not None and a == a  # never set: any value
    if b is None or a is None:
        return a is None and b is None
    if isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and bool(a) == b
    if name in ("n", "itermax", "seed", "interp_size"):
        return isinstance(a, (int, np.integer)) and not isinstance(a, bool) and abs(int(a) - b) <= 1e-9 * abs(b)
    return a == b or abs(a - b) <= 1e-9 * abs(b)


def compare(s, m, where):
    d = dict(**s)
    require(set(d) == set(NAMES), "{}: unpacked keywords {}", where, sorted(set(d) ^ set(NAMES)))
    for k in NAMES:
        a = s[k]
        require(same(a, m.get(k), k), "{}: {} reads {!r} instead of {!r}", where, k, a, m.get(k))
        require(same(d[k], m.get(k), k), "{}: {} is unpacked as {!r} instead of {!r}", where, k, d[k], m.get(k))
        if k in SWITCHED:
            w = getattr(s, k)
            require(w.switch.value == m.on[k], "{}: switch of {} is {}", where, k, w.switch.value)
            require(w.disabled == (not m.on[k]), "{}: field {} disabled={} while its option is {}",
                    where, k, w.disabled, "on" if m.on[k] else "off")


def history(c):
    s = fm.Settings(**{k: decode(k, v, c["kind"]) for k, v in c["init"].items()})
    other = fm.Settings()
    m = Model()
    for k, v in c["init"].items():
        m.put(k, v)
    compare(s, m, "construction")
    changes = 0
    for i, op in enumerate(c["ops"]):
        where = "operation %d (%s)" % (i, op[0] if len(op) == 1 else "%s %s" % (op[0], op[1]))
        if op[0] == "set":
            s[op[1]] = decode(op[1], op[2], op[3])
            m.put(op[1], op[2])
            changes += 1
        elif op[0] == "call":
            s(**{k: decode(k, v) for k, v in op[1].items()})
            for k, v in op[1].items():
                m.put(k, v)
            changes += 1
        elif op[0] == "switch":
            getattr(s, op[1]).switch.value = op[2]
            m.on[op[1]] = op[2]
            changes += 1
        elif op[0] == "widget":
            # typed in the notebook
            if op[2] is None or op[2] == "inf":
                continue
            getattr(s, op[1]).value = decode(op[1], op[2], op[3])
            m.v[op[1]] = op[2]
            changes += 1
        elif op[0] == "show":
            s()
        compare(s, m, where)
    compare(other, Model(), "another panel")
    return changes > 0, ["with switches" if any(o[0] == "switch" for o in c["ops"]) else "set"]


@st.composite
def pipelines(draw):
    return {"n": draw(st.integers(1, 14)), "length": draw(st.integers(40, 500)) / 10, "width": draw(st.integers(1, 30)) / 10,
            "thickness": draw(st.integers(1, 20)) / 10, "size": 50.0, "theta": draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])),
            "shear": draw(st.sampled_from([1.0, 2.0])), "tensile": draw(st.sampled_from([10.0, 2500.0, "inf"])),
            "seed": draw(st.integers(0, 1000)), "periodic": draw(st.booleans()),
            "threshold": draw(st.sampled_from([None, 1.0, 5.0])), "packing": draw(st.sampled_from([1.0, 1.5, 3.0])),
            "itermax": draw(st.integers(1, 6)), "tol": draw(st.sampled_from([1e-6, 1e-3])),
            "lmin": draw(st.sampled_from([None, 0.1])), "lmax": draw(st.sampled_from([None, 20.0])),
            "coupling": draw(st.sampled_from([1.0, 0.99])), "interp_size": draw(st.sampled_from([None, 7])),
            "verbose": False, "how": draw(st.sampled_from(["construct", "call", "set"]))}


def run(mat_kw, net_kw, solve_kw, all_kw=None):
    mat = fm.Mat(**(all_kw or mat_kw))
    net = fm.Net(mat, **(all_kw or net_kw))
    stack = fm.Stack(mat, net, **(all_kw or net_kw))
    mesh = fm.Mesh(stack, **(all_kw or {}))
    K, C, u, f, F, H, Z, rl, mask, err = fm.solve(mat, mesh, **(all_kw or solve_kw))
    t = np.linspace(0, 1, 5)
    return dict(mat=mat, net=net, stack=stack, mesh=mesh, K=K.toarray(), C=C.toarray(),
                **{k: np.asarray(v(t)) for k, v in dict(u=u, f=f, F=F, H=H, Z=Z, rlambda=rl, mask=mask, err=err).items()},
                **{k + "0": np.asarray(v()) for k, v in dict(u=u, f=f, rlambda=rl, mask=mask).items()})


def pipeline(c):
    val = {k: decode(k, v) for k, v in c.items() if k != "how"}
    if c["how"] == "construct":
        s = fm.Settings(**val)
    elif c["how"] == "call":
        s = fm.Settings()
        s(**val)
    else:
        s = fm.Settings()
        for k, v in val.items():
            s[k] = v
    val["theta"] = val["theta"] * math.pi
    pick = lambda *ks: {k: val[k] for k in ks}
    a = run(None, None, None, all_kw=s)
    b = run(pick("n", "length", "width", "thickness", "size", "theta", "shear", "tensile", "seed"),
            pick("periodic", "threshold"),
            pick("packing", "itermax", "tol", "lmin", "lmax", "coupling", "interp_size", "verbose"))
    for k in b:
        if k in ("mat", "net", "stack", "mesh"):
            require(a[k].equals(b[k]), "the {} differs from the one of the values held by the panel", k)
            require(repr(a[k].attrs) == repr(b[k].attrs), "attributes of {}: {} / {}", k, a[k].attrs, b[k].attrs)
        else:
            require(a[k].shape == b[k].shape, "shape of {}: {} / {}", k, a[k].shape, b[k].shape)
            require(np.array_equal(a[k], b[k], equal_nan=True) or np.allclose(a[k], b[k], rtol=1e-12, atol=1e-12, equal_nan=True),
                    "solution {} differs from the one of the values held by the panel", k)
    return b["rlambda"][-1] > 1, [c["how"], "interp" if c["interp_size"] else "steps"]


def subs():
    return [Sub("histories", histories(), history, 60, 800,
                "construction and up to 12 operations (item, call, switch, field, display); non-trivial: at least one change"),
            Sub("pipeline", pipelines(), pipeline, 12, 200,
                "mat, network, stack, mesh and solution from an unpacked panel; non-trivial: the stack is compressed")]
