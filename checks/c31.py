"""C31: mesh regularisers and graph operators equal their definitions."""
import itertools
import torch
from symx.harness import case
from pytorch3d.loss import mesh_edge_loss, mesh_laplacian_smoothing, mesh_normal_consistency
from pytorch3d.ops import GraphConv, cot_laplacian, laplacian, norm_laplacian, taubin_smoothing
from pytorch3d.structures import Meshes
from checks.common import FLOOR, cross, dot

KW = dict(dtype="float32", eps0=True, cpp=["mesh_normal_consistency_find_verts"])
TOPO = {
    "triangle": (3, [[0, 1, 2]]),
    "turned": (3, [[2, 1, 0]]),
    "isolated": (5, [[4, 0, 2]]),
    "pair": (4, [[0, 1, 2], [2, 1, 3]]),
    "flipped pair": (4, [[0, 1, 2], [1, 2, 3]]),
    "bowtie": (5, [[0, 1, 2], [2, 3, 4]]),
    "three on an edge": (5, [[0, 1, 2], [1, 0, 3], [0, 1, 4]]),
    "tetra": (4, [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]]),
    "no faces": (2, []),
    "nothing": (0, []),
}
BATCHES = [("triangle",), ("isolated",), ("pair",), ("bowtie",), ("tetra",), ("three on an edge",), ("turned", "flipped pair"), ("pair", "no faces", "triangle"), ("nothing", "triangle"), ("bowtie", "nothing", "isolated")]
NONE = [("nothing",), ("nothing", "nothing"), ("no faces",), ("no faces", "nothing")]


def faces_of(t):
    return torch.tensor(TOPO[t][1], dtype=torch.int64).reshape(-1, 3)


def edges_of(t):
    return sorted({tuple(sorted(e)) for f in TOPO[t][1] for e in (f[:2], f[1:], [f[0], f[2]])})


# positions in general position: no edge, face or sum of weights degenerates
BASE = torch.tensor([[0.0, 0.0, 0.5], [2.0, 0.25, 0.0], [0.5, 1.75, -0.25], [1.5, 2.0, 1.25], [-1.0, 1.0, 2.0]])


def make(ctx, batch, free=None, tag="v"):
    """a batch of meshes; free: number of symbolic vertices per mesh (default all), the others are fixed"""
    vs = []
    for k, t in enumerate(batch):
        n = TOPO[t][0]
        m = n if free is None else min(n, free)
        v = ctx.real(f"{tag}{k}", (m, 3), -4, 4)
        vs.append(torch.cat((v, BASE[m:n] + 0.125 * k)) if m < n else v)
    return vs


def meshes(vs, batch):
    return Meshes(vs, [faces_of(t) for t in batch])


def lengths(ctx, v, t):
    for a, b in edges_of(t):
        d = v[a] - v[b]
        ctx.assume(dot(d, d) >= FLOOR)


def areas(ctx, v, t):
    for f in TOPO[t][1]:
        sq = heron(v, f)[0]
        ctx.assume(sq >= 1 / 16)
        ctx.assume(torch.sqrt(sq) >= 1 / 4)


def normals(ctx, v, t):
    for a, b, c in TOPO[t][1]:
        n = cross(v[b] - v[a], v[c] - v[a])
        ctx.assume(dot(n, n) >= FLOOR)


def heron(v, f):
    """(squared area, sides opposite to the corners) by Heron's formula"""
    a, b, c = (v[i] for i in f)
    A, B, C = (torch.sqrt(dot(d, d)) for d in (b - c, a - c, a - b))
    s = 0.5 * (A + B + C)
    return s * (s - A) * (s - B) * (s - C), (A, B, C)


@case(params=[dict(batch=b, target=t) for b in BATCHES for t in (0.0, "t")], bounds="batches of up to three meshes of up to five vertices, symbolic vertices and target length", **KW)
def edge_loss(ctx, batch, target):
    """mean over the meshes of the mean squared difference of the edge lengths and the target"""
    vs = make(ctx, batch)
    for v, t in zip(vs, batch):
        lengths(ctx, v, t)
    goal = ctx.real("target", (), -2, 2) if target == "t" else target
    got = mesh_edge_loss(meshes(vs, batch), goal) if target == "t" else mesh_edge_loss(meshes(vs, batch))
    want = 0.0
    for v, t in zip(vs, batch):
        E = edges_of(t)
        for a, b in E:
            d = v[a] - v[b]
            want = want + (torch.sqrt(dot(d, d)) - goal) ** 2 / (len(E) * len(batch))
    ctx.eq("edge loss", got, want)
    ctx.true("not negative", (got >= 0).all())


def cots(v, t):
    """{edge: sum of the cotangents of the opposite angles}, {vertex: sum of the areas of its faces}"""
    w, area = {e: 0.0 for e in edges_of(t)}, {}
    for f in TOPO[t][1]:
        sq, side = heron(v, f)
        S = torch.sqrt(sq)
        for i in range(3):
            a, b, c = side[i], side[(i + 1) % 3], side[(i + 2) % 3]
            e = tuple(sorted(f[:i] + f[i + 1 :]))
            # the documented identity: cot a = (b^2 + c^2 - a^2) / (4 area)
            w[e] = w[e] + (b * b + c * c - a * a) / (4 * S)
            area[f[i]] = area.get(f[i], 0.0) + S
    return w, area


@case(params=["triangle", "turned"], bounds="one triangle with a symbolic vertex", prove_ms=30000, **KW)
def area_of_triangle(ctx, topo):
    """the area is half the length of the cross product, the entries are half the cotangents"""
    v = make(ctx, (topo,), 1)[0]
    areas(ctx, v, topo)
    f = TOPO[topo][1][0]
    n = cross(v[1] - v[0], v[2] - v[0])
    L, inv = cot_laplacian(v, faces_of(topo))
    ctx.eq("area", inv[:, 0] ** 2 * dot(n, n), torch.full((3,), 4.0), tol=(1e-4, 1e-3))
    for i in range(3):
        a, b, c = f[i], f[(i + 1) % 3], f[(i + 2) % 3]
        e = L.to_dense()[b, c]
        cs = dot(v[b] - v[a], v[c] - v[a])
        ctx.eq("entry", e * e * dot(n, n), cs * cs, tol=(1e-4, 1e-3))
        ctx.true("sign", e * cs >= 0)


@case(params=[dict(topo=t, free=f) for t in TOPO for f in ((None,) if len(TOPO[t][1]) <= 1 else (2,))], bounds="ten topologies of up to five vertices; all vertices of single faces, two vertices of larger ones symbolic", prove_ms=30000, **KW)
def cot_matrix(ctx, topo, free):
    """entries are half the sum of the cotangents on both sides of the edge; reciprocal areas per vertex"""
    v = make(ctx, (topo,), free)[0]
    areas(ctx, v, topo)
    n = TOPO[topo][0]
    if n == 0:
        return ctx.true("shape", cot_laplacian(v, faces_of(topo))[0].shape == (0, 0))
    L, inv = cot_laplacian(v, faces_of(topo))
    L = L.to_dense()
    w, area = cots(v, topo)
    ctx.true("shape", tuple(L.shape) == (n, n) and tuple(inv.shape) == (n, 1))
    for i in range(n):
        for j in range(n):
            want = w.get(tuple(sorted((i, j))), None)
            ctx.eq("entry", L[i, j], ctx.const(0.0) if want is None else want)
        ctx.eq("reciprocal area", inv[i, 0] * area[i] if i in area else inv[i, 0], ctx.const(1.0 if i in area else 0.0))


@case(params=list(TOPO), bounds="ten topologies of up to five vertices, symbolic vertices", **KW)
def matrices(ctx, topo):
    """uniform: -1 on the diagonal, 1 / degree of the row on edges; normalised: reciprocal lengths on edges"""
    v = make(ctx, (topo,))[0]
    lengths(ctx, v, topo)
    n, E = TOPO[topo][0], edges_of(topo)
    ed = torch.tensor(E, dtype=torch.int64).reshape(-1, 2)
    deg = [sum(i in e for e in E) for i in range(n)]
    for name, L in (("laplacian", laplacian(v, ed)), ("laplacian_packed", Meshes([v], [faces_of(topo)]).laplacian_packed() if E else None)):
        if L is None:
            continue
        L = L.to_dense()
        want = [[-1.0 if i == j else (1.0 / deg[i] if tuple(sorted((i, j))) in E else 0.0) for j in range(n)] for i in range(n)]
        ctx.eq(name, L, torch.tensor(want).reshape(n, n), tol=(1e-6, 1e-6))
    L = norm_laplacian(v, ed).to_dense()
    ctx.true("shape", tuple(L.shape) == (n, n))
    for i in range(n):
        for j in range(n):
            if tuple(sorted((i, j))) in E:
                d = v[i] - v[j]
                ctx.eq("reciprocal length", L[i, j] * torch.sqrt(dot(d, d)), ctx.const(1.0))
            else:
                ctx.eq("no edge", L[i, j], ctx.const(0.0))


@case(params=[dict(batch=b, method=m, _case=dict(tier="thorough" if m == "cot" and b[0] in ("tetra", "three on an edge") else "quick", budget=400)) for b in BATCHES if "isolated" not in b and "no faces" not in b for m in ("uniform", "cot", "cotcurv")] + [dict(batch=b, method="cotcurv") for b in (("isolated",), ("pair", "no faces", "triangle"))],
      bounds="batches of up to three meshes; uniform: all vertices symbolic, cotangent weights: one vertex per mesh of several faces", prove_ms=30000, **KW)
def smoothing(ctx, batch, method):
    """mean over the meshes of the mean length of the documented Laplacian vectors"""
    many = method != "uniform" and (len(batch) > 1 or max(len(TOPO[t][1]) for t in batch) > 1)
    vs = make(ctx, batch, 1 if many else 2 if method == "cot" else None)
    for v, t in zip(vs, batch):
        areas(ctx, v, t)
        if method == "cot":
            # the weights of each face at one of its corners add up to sin / (sin sin) > 0
            w = cots(v, t)[0]
            for i in range(TOPO[t][0]):
                nb = [w[e] for e in w if i in e]
                if nb:
                    ctx.assume(sum(nb) > 0)
    got = mesh_laplacian_smoothing(meshes(vs, batch), method) if method != "uniform" else mesh_laplacian_smoothing(meshes(vs, batch))
    want = 0.0
    for v, t in zip(vs, batch):
        E = edges_of(t)
        w, area = cots(v, t) if method != "uniform" else ({e: 1.0 for e in E}, None)
        for i in range(TOPO[t][0]):
            nb = [e for e in E if i in e]
            if not nb:
                continue  # without neighbours the sum is empty
            # sum_j w_ij (v_j - v_i) over the total weight, or over four times the area
            ws, wv = sum(w[e] for e in nb), sum(w[e] * v[e[0] + e[1] - i] for e in nb)
            lv = (wv - ws * v[i]) / (4 * area[i]) if method == "cotcurv" else wv / ws - v[i]
            want = want + torch.sqrt(dot(lv, lv)) / (TOPO[t][0] * len(batch))
    ctx.eq("smoothing loss", got, want, tol=(1e-4, 1e-3))
    ctx.true("not negative", (got >= 0).all())


@case(params=[dict(batch=b, free=f) for b in BATCHES + [("flipped pair",)] for f in (1, 2) if f == 1 or len(b) == 1], bounds="batches of up to three meshes of up to five vertices, up to three faces on an edge; one or two vertices per mesh symbolic", prove_ms=30000, **KW)
def consistency(ctx, batch, free):
    """mean over the meshes of the mean over pairs of faces on an edge of 1 - cosine of their normals"""
    vs = make(ctx, batch, free)
    for v, t in zip(vs, batch):
        normals(ctx, v, t)
    got = mesh_normal_consistency(meshes(vs, batch))
    want = ctx.const(0.0)
    for v, t in zip(vs, batch):
        terms = []
        for a, b in edges_of(t):
            # normals oriented by the edge: f0 = (a, b, c) and f1 = (b, a, d)
            opp = [[x for x in f if x not in (a, b)][0] for f in TOPO[t][1] if a in f and b in f]
            for c, d in itertools.combinations(opp, 2):
                n0, n1 = cross(v[b] - v[a], v[c] - v[a]), cross(v[d] - v[a], v[b] - v[a])
                terms.append(1 - dot(n0, n1) / torch.sqrt(dot(n0, n0)) / torch.sqrt(dot(n1, n1)))
        if terms:
            want = want + sum(terms) / (len(terms) * len(batch))
    ctx.eq("normal consistency", got.reshape(()), want)


@case(params=[dict(batch=b, loss=l) for b in NONE for l in ("edge", "uniform", "cot", "cotcurv", "consistency") if "no faces" not in b or l in ("edge", "consistency", "cotcurv")], bounds="batches without faces", **KW)
def nothing(ctx, batch, loss):
    """zero, with a gradient, for batches of empty meshes"""
    f = dict(edge=mesh_edge_loss, consistency=mesh_normal_consistency).get(loss) or (lambda m: mesh_laplacian_smoothing(m, loss))
    out = f(meshes(make(ctx, batch), batch))
    ctx.eq("zero", out.reshape(()), ctx.const(0.0))


@case(params=[dict(batch=b, loss=l) for b in (("triangle",), ("pair",), ("turned", "flipped pair")) for l in ("edge", "uniform", "cot", "cotcurv", "consistency")], bounds="translations of up to two meshes, one vertex each and the translation symbolic", prove_ms=30000, **KW)
def translation(ctx, batch, loss):
    f = dict(edge=mesh_edge_loss, consistency=mesh_normal_consistency).get(loss) or (lambda m: mesh_laplacian_smoothing(m, loss))
    vs = make(ctx, batch, 1)
    for v, t in zip(vs, batch):
        if loss.startswith("cot"):
            areas(ctx, v, t)
        elif loss == "consistency":
            normals(ctx, v, t)
        lengths(ctx, v, t)
    off = ctx.real("off", (len(vs), 3), -4, 4)
    a = f(meshes(vs, batch))
    b = f(meshes([v + o for v, o in zip(vs, off)], batch))
    ctx.eq("translation does not matter", a, b, tol=(1e-4, 1e-3))


@case(params=[dict(edges=e, directed=d, din=i, dout=o) for e in ([], [[0, 1]], [[1, 0], [0, 1]], [[0, 1], [0, 1], [2, 1]], [[2, 2], [0, 2]]) for d in (False, True) for i, o in ((2, 2), (1, 3), (3, 1))], bounds="graphs of three vertices with repeated, opposite and self edges; symbolic features and weights, up to three features", **KW)
def graph_conv(ctx, edges, directed, din, dout):
    """w0 x_i plus the sum of w1 x_j over the edges at i (of the second ends at the first ends when directed)"""
    g = GraphConv(din, dout, directed=directed)
    for k, lin in enumerate((g.w0, g.w1)):
        for p in ("weight", "bias"):
            old = getattr(lin, p)
            delattr(lin, p)
            setattr(lin, p, ctx.real(f"{p}{k}", tuple(old.shape), -2, 2))
    x = ctx.real("x", (3, din), -4, 4)
    out = g(x, torch.tensor(edges, dtype=torch.int64).reshape(-1, 2))
    lin = lambda m, q: torch.stack([sum(m.weight[o, i] * q[i] for i in range(din)) + m.bias[o] for o in range(dout)])
    for i in range(3):
        want = lin(g.w0, x[i])
        for a, b in edges:
            if a == i:
                want = want + lin(g.w1, x[b])
            if b == i and not directed:
                want = want + lin(g.w1, x[a])
        ctx.eq("convolution", out[i], want)


@case(params=[(d,) for d in (False, True)], bounds="the empty graph", **KW)
def graph_conv_empty(ctx, directed):
    g = GraphConv(2, 3, directed=directed)
    out = g(ctx.real("x", (0, 2)), torch.zeros((0, 2), dtype=torch.int64))
    ctx.true("shape", tuple(out.shape) == (0, 3))


@case(params=[dict(batch=b, free=f, it=n, default=d) for b, f in ((("triangle",), None), (("pair",), 2), (("turned", "pair"), 1), (("bowtie",), 1), (("isolated",), None), (("nothing", "triangle"), 1)) for n in (0, 1) for d in (True, False) if not (n == 0 and d)] + [dict(batch=("triangle",), free=1, it=2, default=False)],
      bounds="batches of up to two meshes, up to two rounds; up to three vertices and the two factors symbolic", prove_ms=30000, **KW)
def taubin(ctx, batch, free, it, default):
    """each round moves vertices towards the mean of their neighbours weighted by reciprocal lengths by lambda, then by mu"""
    vs = make(ctx, batch, free)
    for v, t in zip(vs, batch):
        lengths(ctx, v, t)
    m = meshes(vs, batch)
    if default:
        lam, mu = 0.53, -0.53
        out = taubin_smoothing(m, num_iter=it)
    else:
        lam, mu = ctx.real("lambda", (), 0.125, 0.875), ctx.real("mu", (), -0.875, -0.125)
        out = taubin_smoothing(m, lam, mu, it)
    ctx.true("same faces", all(a.tolist() == b.tolist() for a, b in zip(out.faces_list(), m.faces_list())))
    for v, t, got in zip(vs, batch, out.verts_list()):
        E = edges_of(t)
        for k in range(it):
            for w in (lam, mu):
                wt = {}
                for a, b in E:
                    d = v[a] - v[b]
                    ctx.assume(dot(d, d) >= FLOOR)
                    wt[a, b] = 1 / torch.sqrt(dot(d, d))
                new = []
                for i in range(len(v)):
                    nb = [e for e in E if i in e]
                    mean = sum(wt[e] * v[e[0] + e[1] - i] for e in nb) / sum(wt[e] for e in nb) if nb else v[i]
                    new.append((1 - w) * v[i] + w * mean)
                v = torch.stack(new) if new else v
        ctx.eq("filtered vertices", got, v, tol=(1e-4, 1e-3))
