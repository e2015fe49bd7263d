"""C24: subdivision keeps the geometry and the topology of meshes."""
import itertools
import torch
from symx.harness import case
from pytorch3d.ops import SubdivideMeshes
from pytorch3d.structures import Meshes

KW = dict(dtype="float64")
TOPO = {
    "triangle": (3, [[0, 1, 2]]),
    "turned": (3, [[2, 1, 0]]),
    "isolated": (5, [[4, 0, 2]]),
    "pair": (4, [[0, 1, 2], [2, 1, 3]]),
    "apart": (6, [[5, 3, 4], [0, 2, 1]]),
    "bowtie": (5, [[0, 1, 2], [2, 3, 4]]),
    "fan": (5, [[0, 1, 2], [0, 2, 3], [0, 3, 4]]),
    "tetra": (4, [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]]),
    "three on an edge": (5, [[0, 1, 2], [1, 0, 3], [0, 1, 4]]),
    "empty": (2, []),
    "nothing": (0, []),
}


def generic(nv, seed=0):
    """vertices in general position: midpoints identify their edge"""
    return torch.tensor([[(7.0 * i + 3 * i * i + 1.7 * i ** 3 + seed) / 13, (5.0 * i * i - 2 * i) / 11, i ** 3 * 0.9 - i] for i in range(nv)], dtype=torch.float64).reshape(nv, 3)


def faces_of(t):
    return torch.tensor(t[1], dtype=torch.int64).reshape(-1, 3)


def rotate(f):
    i = f.index(min(f))
    return tuple(f[i:] + f[:i])


def mapping(ctx, verts, faces, nv, tris):
    """{new vertex: edge} from a run with vertices in general position; checks the topology"""
    edges = sorted({tuple(sorted(e)) for f in tris for e in (f[:2], f[1:], [f[0], f[2]])})
    base = generic(nv)
    ctx.true("one vertex per edge is added", len(verts) == nv + len(edges))
    ctx.eq("original vertices stay", verts[:nv], base)
    mids = {e: (base[e[0]] + base[e[1]]) / 2 for e in edges}
    at = {}
    for k in range(nv, len(verts)):
        hit = [e for e in edges if float((verts[k] - mids[e]).abs().max()) < 1e-9]
        ctx.true("a new vertex is the midpoint of one edge", len(hit) == 1)
        at[k] = hit[0]
    ctx.true("every edge has one", sorted(at.values()) == edges)
    pos = {e: k for k, e in at.items()}
    want = []
    for a, b, c in tris:
        ab, bc, ca = (pos[tuple(sorted(e))] for e in ((a, b), (b, c), (c, a)))
        want += [(a, ab, ca), (b, bc, ab), (c, ca, bc), (ab, bc, ca)]
    ctx.true("four faces of the same orientation tile each face", sorted(rotate(list(f)) for f in want) == sorted(rotate(f) for f in faces.tolist()))
    return at


def blend(x, at, nv):
    return torch.cat([x[:nv]] + [((x[e[0]] + x[e[1]]) / 2)[None] for _, e in sorted(at.items())])


def verify(ctx, topo, form, D, sub_for=None):
    """subdivide a batch of these topologies and compare everything"""
    N = len(topo)
    if form == "padded":  # padded vertices all belong to the mesh
        topo = [(max(t[0] for t in topo), t[1]) for t in topo]

    def pack(ts):
        if form == "list":
            return list(ts)
        n = max(len(t) for t in ts)
        return torch.stack([torch.cat([t, torch.full((n - len(t), 3), -1 if t.dtype == torch.int64 else 0, dtype=t.dtype)]) for t in ts])

    def make(vs):
        return Meshes(pack(vs), pack([faces_of(t) for t in topo]))

    probe = make([generic(t[0]) for t in topo])
    div = SubdivideMeshes(probe[0]) if sub_for else SubdivideMeshes()
    out = div(probe)
    ctx.true("batch size", len(out) == N)
    at = [mapping(ctx, out.verts_list()[n], out.faces_list()[n], t[0], [list(f) for f in t[1]]) for n, t in enumerate(topo)]
    vs = [ctx.real(f"v{n}", (t[0], 3)) for n, t in enumerate(topo)]
    m = make(vs)
    if D:
        fs = [ctx.real(f"f{n}", (t[0], D)) for n, t in enumerate(topo)]
        got, nf = div(m, torch.cat(fs))
        want = [blend(f, a, t[0]) for f, a, t in zip(fs, at, topo)]
        ctx.eq("features of the new vertices", nf.reshape(-1, D), torch.cat(want))
    else:
        got = div(m)
    for n, t in enumerate(topo):
        ctx.true("the faces do not depend on the positions", torch.equal(got.faces_list()[n], out.faces_list()[n]))
        ctx.eq("vertices", got.verts_list()[n], blend(vs[n], at[n], t[0]))
    for n in range(N):
        ctx.eq("the input keeps its vertices", m.verts_list()[n], vs[n])


FILLED = [k for k in TOPO if TOPO[k][1]]


@case(params=[(k, f, d) for k in FILLED for f in ("list", "padded") for d in (0, 2)], bounds="(topology, list or padded, feature size): one mesh, vertices and features symbolic", **KW)
def single(ctx, k, form, D):
    verify(ctx, [TOPO[k]], form, D)


BATCH = [("triangle", "pair"), ("pair", "isolated"), ("tetra", "empty", "triangle"), ("empty", "fan"), ("fan", "empty"), ("apart", "bowtie", "triangle"), ("three on an edge", "turned"), ("pair", "pair"), ("isolated", "isolated", "pair"), ("nothing", "tetra"), ("triangle", "nothing", "apart")]


@case(params=[(b, f, d) for b in BATCH for f in ("list", "padded") for d in (0, 3)], bounds="(topologies of the batch, list or padded, feature size): vertices and features symbolic", **KW)
def batch(ctx, names, form, D):
    verify(ctx, [TOPO[k] for k in names], form, D)


@case(params=[(k, n, d) for k in FILLED for n in (1, 2, 3) for d in (0, 2) if n < 3 or k in ("pair", "isolated")], bounds="(topology, batch size, feature size): precomputed faces, vertices and features symbolic", **KW)
def precomputed(ctx, k, n, D):
    verify(ctx, [TOPO[k]] * n, "list", D, sub_for=True)


@case(params=[1, 2], bounds="every mesh of one and two different faces on 4 vertices (any order and orientation) next to a fixed mesh", **KW)
def any_topology(ctx, n):
    every = [list(p) for p in itertools.permutations(range(4), 3)]
    a = ctx.pick("face", every)
    tris = [a]
    if n == 2:
        rest = [f for f in every if set(f) != set(a)]
        tris.append(ctx.pick("face2", rest))
    verify(ctx, [TOPO["triangle"], (4, tris)], "list", 1)


@case(params=[("pair", 1), ("tetra", 1)], bounds="two rounds of subdivision: every vertex lies where the midpoint rule applied twice puts it", **KW)
def twice(ctx, k, D):
    nv, tris = TOPO[k]
    div = SubdivideMeshes()
    base = Meshes([generic(nv)], [faces_of(TOPO[k])])
    one = div(base)
    at = mapping(ctx, one.verts_list()[0], one.faces_list()[0], nv, tris)
    two = div(one)
    t1 = one.faces_list()[0].tolist()
    edges = sorted({tuple(sorted(e)) for f in t1 for e in (f[:2], f[1:], [f[0], f[2]])})
    b1 = one.verts_list()[0]
    v2 = two.verts_list()[0]
    n1 = len(b1)
    ctx.true("one vertex per edge again", len(v2) == n1 + len(edges) and len(two.faces_list()[0]) == 16 * len(tris))
    at2 = {}
    for j in range(n1, len(v2)):
        hit = [e for e in edges if float((v2[j] - (b1[e[0]] + b1[e[1]]) / 2).abs().max()) < 1e-9]
        ctx.true("midpoint of one edge", len(hit) == 1)
        at2[j] = hit[0]
    v = ctx.real("v", (nv, 3))
    f = ctx.real("f", (nv, D))
    m1, f1 = div(Meshes([v], [faces_of(TOPO[k])]), f)
    m2, f2 = div(m1, f1)
    ctx.eq("vertices", m2.verts_list()[0], blend(blend(v, at, nv), at2, n1))
    ctx.eq("features", f2, blend(blend(f, at, nv), at2, n1))
