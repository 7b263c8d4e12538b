"""P16: beams chain the nodes of each fiber."""
import numpy as np

import sut
from common import Sub, load_sut, require
from props import meshgen

fm = load_sut()


def chains(net, half, rtol):
    n = len(half)
    mesh = fm.Mesh(net)
    m = sut.mesh(mesh, "Mesh")
    N = len(mesh)
    require(np.all(np.diff(m.fiber) >= 0), "nodes are not numbered fiber by fiber")
    require(sorted(set(m.fiber.tolist())) == list(range(n)), "fibers of the mesh: {} (of {})",
            sorted(set(m.fiber.tolist())), n)
    require((m.beam >= 0) & (m.beam < N), "beams refer to nodes that do not exist")
    most = 0
    for f in range(n):
        nodes = np.flatnonzero(m.fiber == f)
        most = max(most, len(nodes))
        require(np.all(np.diff(m.s[nodes]) >= 0), "nodes of fiber {} are not sorted by abscissa: {}", f, m.s[nodes])
        path, k = [], int(nodes[0])
        for _ in range(len(nodes)):
            path.append(k)
            k = int(m.beam[k])
        require(path == nodes.tolist() and k == nodes[0],
                "following beams along fiber {} visits {} (then {}) instead of {}", f, path, k, nodes.tolist())
        for end, sgn in ((nodes[0], -1), (nodes[-1], 1)):
            require(m.constraint[end] == end, "end node {} of fiber {} is constrained to {}", end, f, m.constraint[end])
            require(abs(m.s[end] - sgn * half[f]) <= rtol * half[f], "end node {} of fiber {} is at {} instead of {}",
                    end, f, m.s[end], sgn * half[f])
        inner = nodes[1:-1]
        require(np.all(m.fiber[m.constraint[inner]] != f), "an inner node of fiber {} is constrained to its own fiber", f)
    # The mesh passes its own check, and labels are those of the rows
    require(fm.Mesh.check(mesh) is True, "the mesh fails its own check")
    return most >= 4, ["longest=%d" % min(most, 12), "bare" if (np.bincount(m.fiber) == 2).any() else "all crossed"]


def from_mat(c):
    mat, net = meshgen.network(c)
    l = sut.mat(mat).l
    return chains(net, l / 2, 1e-12)


def from_table(c):
    return chains(meshgen.given_network(c), np.array(c["half"]) * c["unit"], 1e-12)


def from_seed(c):
    mat, net = meshgen.seeded_network(c)
    return chains(net, sut.mat(mat).l / 2, 1e-12)


def subs():
    return [
        Sub("built", meshgen.built(), from_mat, 70, 1500,
            "networks and stacks of generated mats; non-trivial: a fiber with two crossings"),
        Sub("given", meshgen.given_tables(), from_table, 70, 1500,
            "given network tables; non-trivial: a fiber with two crossings"),
        Sub("seeded", meshgen.seeded(), from_seed, 12, 120, "mats of 10 to 400 fibers, some of them side by side"),
    ]
