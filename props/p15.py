"""P15: nodes of a mesh are the ends of the connections of its network."""
from collections import Counter

import numpy as np

import sut
from common import Sub, load_sut, require
from props import meshgen

fm = load_sut()


def half(fiber, s, x, y, z):
    return (int(fiber), float(s), float(x), float(y), float(z))


def compare(net):
    net.attrs["sample"] = "A%d" % len(net)      # attributes are free beyond the documented ones
    attrs = dict(net.attrs)
    require(all(k in attrs for k in ("n", "size", "periodic")), "attributes of the network: {}", attrs)
    d = sut.net(net, "network")
    mesh = fm.Mesh(net)
    m = sut.mesh(mesh, "Mesh")
    N = len(d.A)
    require(len(mesh) == 2 * N, "{} nodes for {} connections", len(mesh), N)
    for k, v in attrs.items():
        require(k in mesh.attrs and mesh.attrs[k] == v, "attribute {!r} of the mesh is {!r}, not {!r}",
                k, mesh.attrs.get(k), v)
    node = [half(m.fiber[k], m.s[k], m.x[k], m.y[k], m.z[k]) for k in range(2 * N)]
    inner, ends = Counter(), Counter()
    for A, B, sA, sB, xA, yA, zA, xB, yB, zB in zip(*[d[c] for c in sut.NETCOLS]):
        p, q = half(A, sA, xA, yA, zA), half(B, sB, xB, yB, zB)
        if A == B:
            ends[p] += 1
            ends[q] += 1
        else:
            inner[tuple(sorted([p, q]))] += 1
    cons = m.constraint
    require((cons >= 0) & (cons < 2 * N), "constraints refer to nodes that do not exist")
    got_inner, got_ends = Counter(), Counter()
    for k in range(2 * N):
        require(cons[cons[k]] == k, "constraint of node {} is not reciprocal", k)
        if cons[k] == k:
            got_ends[node[k]] += 1
        elif k < cons[k]:
            got_inner[tuple(sorted([node[k], node[cons[k]]]))] += 1
    for got, exp, what in ((got_ends, ends, "fiber ends"), (got_inner, inner, "linked nodes")):
        miss, extra = exp - got, got - exp
        require(not miss and not extra, "{} of the mesh differ from the network: missing {}, unexpected {}",
                what, list(miss)[:2], list(extra)[:2])
    ties = N and max(Counter((int(a), float(b)) for a, b in zip(m.fiber, m.s)).values()) > 1
    labels = ["ties"] if ties else []
    return len(inner) >= 2, labels + ["edges=%d" % min(10, sum(inner.values()))]


def from_mat(c):
    mat, net = meshgen.network(c)
    return compare(net)


def from_table(c):
    return compare(meshgen.given_network(c))


def from_seed(c):
    mat, net = meshgen.seeded_network(c)
    return compare(net)


def subs():
    return [
        Sub("built", meshgen.built(), from_mat, 70, 1500,
            "networks and stacks of generated mats; non-trivial: at least two connections"),
        Sub("given", meshgen.given_tables(), from_table, 70, 1500,
            "given network tables, ties in abscissa included; non-trivial: at least two connections"),
        Sub("seeded", meshgen.seeded(), from_seed, 12, 120, "mats of 10 to 400 fibers, some of them side by side"),
    ]
