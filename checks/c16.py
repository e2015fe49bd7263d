"""C16: point-to-edge and point-to-face distances, mesh/cloud losses."""
import torch
from symx.harness import case
from pytorch3d import _C
from pytorch3d.loss import point_mesh_edge_distance, point_mesh_face_distance
from pytorch3d.loss.point_mesh_distance import edge_point_distance, face_point_distance, point_edge_distance, point_face_distance
from pytorch3d.structures import Meshes, Pointclouds
from checks.common import cross, dot, segment_dist2, triangle_dist2

FWD = ["point_face_dist_forward", "face_point_dist_forward", "point_edge_dist_forward", "edge_point_dist_forward", "point_face_array_dist_forward", "point_edge_array_dist_forward"]
CASE = dict(cpp=FWD, dtype="float32", eps0=True)
TRIS = {
    "flat": [[0.5, -1, 2], [2.5, -1, 2], [1, 1, 2]],
    "skew": [[0, 0, 0], [2, 1, -1], [-1, 2, 3]],
    "obtuse": [[1, 1, 0], [0, 4, 0], [0.5, -5, 1]],
}


def perm(t, k):
    return torch.roll(t, k, -1)


@case(params=[(k,) for k in range(3)], bounds="segments of symbolic length in each axis direction, symbolic point: 3D distance is the minimum over the segment", **CASE)
def edge_axis(ctx, k):
    L = ctx.real("L", (), 0.1, 4)
    p = ctx.real("p", (3,))
    v0 = torch.tensor([0.5, -1.0, 2.0])
    v1 = v0 + perm(torch.stack([L, torch.zeros(()), torch.zeros(())]), k)
    d = _C.point_edge_array_dist_forward(p[None], torch.stack([v0, v1])[None])[0, 0]
    ctx.eq("distance", d, segment_dist2(p, v0, v1))
    t = ctx.real("t", (), 0, 1)
    q = v0 + t * (v1 - v0)
    ctx.le("no point of the segment is closer", d, dot(p - q, p - q))


@case(bounds="arbitrary point and segment (length at least 0.1)", **CASE)
def edge_any(ctx):
    p, s = ctx.real("p", (1, 3)), ctx.real("s", (1, 2, 3))
    ctx.assume(dot(s[0, 1] - s[0, 0], s[0, 1] - s[0, 0]) >= 0.01)
    d = _C.point_edge_array_dist_forward(p, s)[0, 0]
    ctx.eq("distance", d, segment_dist2(p[0], s[0, 0], s[0, 1]))


@case(bounds="degenerate segment (both ends equal): distance to the point", **CASE)
def edge_degenerate(ctx):
    p, v = ctx.real("p", (1, 3)), ctx.real("v", (3,))
    d = _C.point_edge_array_dist_forward(p, torch.stack([v, v])[None])[0, 0]
    ctx.eq("distance to the point", d, dot(p[0] - v, p[0] - v))


def face_ref(p, v0, v1, v2, area_ok=True):
    """triangle distance by definition; the segment distances come from the point-edge operator, which is decided on its own (edge_any)"""
    e = [_C.point_edge_array_dist_forward(p[None], torch.stack([a, b])[None])[0, 0] for a, b in ((v0, v1), (v0, v2), (v1, v2))]
    edge = torch.minimum(torch.minimum(e[0], e[1]), e[2])
    if not area_ok:
        return edge
    n = cross(v1 - v0, v2 - v0)
    h = dot(p - v0, n)
    inside = (dot(cross(v1 - v0, p - v0), n) >= 0) & (dot(cross(v2 - v1, p - v1), n) >= 0) & (dot(cross(v0 - v2, p - v2), n) >= 0)
    return torch.where(inside, h * h / dot(n, n), edge)


FACE = dict(CASE, feas_ms=400, weight=2)


@case(params=[(n,) for n in TRIS], bounds="fixed triangles, symbolic point: plane distance inside the prism over the triangle, closest edge outside", **FACE)
def face_fixed(ctx, name):
    tri = ctx.const(TRIS[name])
    p = ctx.real("p", (3,), -6, 6)
    d = _C.point_face_array_dist_forward(p[None], tri[None], 5e-3)[0, 0]
    ctx.eq("distance", d, face_ref(p, *tri))


@case(params=[dict(name=n, k=k, _case=dict(tier="quick" if n == "flat" else "thorough")) for n in TRIS for k in range(3)], bounds="fixed triangles, point symbolic along an axis: no triangle point is closer", **FACE)
def face_minimal(ctx, name, k):
    tri = ctx.const(TRIS[name])
    x = ctx.real("p", (), -6, 6)
    p = torch.roll(torch.stack([x, torch.full((), 0.3), torch.full((), -0.7)]), k, 0)
    d = _C.point_face_array_dist_forward(p[None], tri[None], 5e-3)[0, 0]
    u, v = ctx.real("u", (), 0, 1), ctx.real("v", (), 0, 1)
    ctx.assume(u + v <= 1)
    q = tri[0] + u * (tri[1] - tri[0]) + v * (tri[2] - tri[0])
    ctx.le("no point of the triangle is closer", d, dot(p - q, p - q))


@case(params=[(k,) for k in range(3)], bounds="triangles in each coordinate plane, one side parallel to an axis, symbolic size and shape, symbolic point over the triangle; area >= 0.02", **FACE)
def face_inside(ctx, k):
    a, b, c = ctx.real("a", (), 0.2, 4), ctx.real("b", (), -3, 3), ctx.real("c", (), 0.2, 4)
    u, w, h = ctx.real("u", (), 0, 1), ctx.real("w", (), 0, 1), ctx.real("h", (), -5, 5)
    ctx.assume(u + w <= 1)
    z = torch.zeros(())
    v0 = torch.tensor([0.5, -1.0, 2.0])
    e1, e2 = perm(torch.stack([a, z, z]), k), perm(torch.stack([b, c, z]), k)
    p = v0 + u * e1 + w * e2 + perm(torch.stack([z, z, h]), k)
    d = _C.point_face_array_dist_forward(p[None], torch.stack([v0, v0 + e1, v0 + e2])[None], 5e-3)[0, 0]
    ctx.eq("distance to the plane", d, h * h)


@case(params=[(0.5, True), (0.005, False), (0.0, False)], bounds="right triangle of symbolic legs below / above the minimum area: below it only the edges count", **FACE)
def min_area(ctx, thr, below):
    a, b = ctx.real("a", (), 0.2, 1.0), ctx.real("b", (), 0.2, 0.9)
    if not below:
        ctx.assume(a * b / 2 > thr)
    p = ctx.real("p", (3,), -3, 3)
    z = torch.zeros(())
    v0, v1, v2 = torch.zeros(3), torch.stack([a, z, z]), torch.stack([z, b, z])
    d = _C.point_face_array_dist_forward(p[None], torch.stack([v0, v1, v2])[None], thr)[0, 0]
    ctx.eq("distance to the closest edge" if below else "distance to the face", d, face_ref(p, v0, v1, v2, not below))


LAY = [((1, 2), (2, 1)), ((2, 1), (1, 2)), ((1, 1, 1), (1, 2, 1))]


def first(c):
    return torch.tensor([sum(c[:i]) for i in range(len(c))])


@case(params=LAY, bounds="batch layouts (points per cloud, segments per mesh): points symbolic in two coordinates, fixed segments", **CASE)
def edge_batches(ctx, np_, ns):
    P, S = sum(np_), sum(ns)
    xy = ctx.real("p", (P, 1), -6, 6)
    pts = torch.cat([xy, torch.full((P, 1), 0.5), torch.full((P, 1), -0.25)], 1)
    seg = torch.tensor([[[0.0, 0, 0], [1, 0, 0]], [[2, 1, 0], [2, 3, 0.5]], [[-3, 0, 0], [-1.5, 1, 0]], [[0.5, 2, 1], [4, 1, 1]]])[:S]
    fp, fs = first(np_), first(ns)
    pd, pi = _C.point_edge_dist_forward(pts, fp, seg, fs, max(np_))
    ed, ei = _C.edge_point_dist_forward(pts, fp, seg, fs, max(ns))
    arr = _C.point_edge_array_dist_forward(pts, seg)
    batches(ctx, np_, ns, pts, seg, pd, pi, ed, ei, arr, lambda p, s: segment_dist2(p, s[0], s[1]))
    ctx.eq("autograd wrapper, points", point_edge_distance(pts, fp, seg, fs, max(np_)), pd)
    ctx.eq("autograd wrapper, edges", edge_point_distance(pts, fp, seg, fs, max(ns)), ed)


def batches(ctx, np_, ns, pts, prim, pd, pi, ed, ei, arr, ref):
    fp, fs = first(np_).tolist(), first(ns).tolist()
    P, S = sum(np_), sum(ns)
    for i in range(P):
        for j in range(S):
            ctx.eq("distance array", arr[i, j], ref(pts[i], prim[j]))
    for n in range(len(np_)):
        pr, sr = range(fp[n], fp[n] + np_[n]), range(fs[n], fs[n] + ns[n])
        for i in pr:
            ctx.true("index belongs to the same batch element", int(pi[i]) in sr)
            ctx.eq("distance is attained at the index", pd[i], arr[i, int(pi[i])])
            for j in sr:
                ctx.le("no closer primitive", pd[i], arr[i, j])
        for j in sr:
            ctx.true("index belongs to the same batch element (reverse)", int(ei[j]) in pr)
            ctx.eq("distance is attained at the index (reverse)", ed[j], arr[int(ei[j]), j])
            for i in pr:
                ctx.le("no closer point", ed[j], arr[i, j])


@case(params=LAY, bounds="batch layouts (points per cloud, triangles per mesh): points symbolic in height over large fixed triangles", **FACE)
def face_batches(ctx, np_, ns):
    P, S = sum(np_), sum(ns)
    x = ctx.real("p", (P, 1), -3, 3)
    pts = torch.cat([torch.full((P, 1), 0.5), torch.full((P, 1), 0.25), x], 1)
    tri = torch.tensor([[[-50.0, -50, 0], [50, -50, 0], [0, 50, 0]], [[-50.0, -50, 2], [0, 50, 2], [50, -50, 2]], [[-50.0, -50, -1], [50, -50, -1], [0, 50, -1]], [[-50.0, -50, 5], [50, -50, 5], [0, 50, 5]]])[:S]
    fp, fs = first(np_), first(ns)
    pd, pi = _C.point_face_dist_forward(pts, fp, tri, fs, max(np_), 5e-3)
    ed, ei = _C.face_point_dist_forward(pts, fp, tri, fs, max(ns), 5e-3)
    arr = _C.point_face_array_dist_forward(pts, tri, 5e-3)
    batches(ctx, np_, ns, pts, tri, pd, pi, ed, ei, arr, lambda p, s: (p[2] - s[0, 2]) ** 2)
    ctx.eq("autograd wrapper, points", point_face_distance(pts, fp, tri, fs, max(np_)), pd)
    ctx.eq("autograd wrapper, faces", face_point_distance(pts, fp, tri, fs, max(ns)), ed)


V1 = [[-50.0, -50, 0], [50, -50, 0], [0, 50, 0], [60, 70, 20]]
V2 = [[-50.0, -50, 2], [0, 50, 2], [50, -50, 2]]


@case(params=[("edge", (1, 2)), ("face", (1, 2)), ("edge", (2, 1)), ("face", (2, 1))], bounds="two meshes (2 and 1 faces) with clouds of different sizes, points symbolic in height over the first face", **FACE)
def losses(ctx, kind, np_):
    xs = ctx.real("p", (sum(np_),), -3, 3)
    pts = [torch.stack([torch.stack([torch.full((), 0.5), torch.full((), 0.25), xs[k]]) for k in range(a, b)]) for a, b in ((0, np_[0]), (np_[0], sum(np_)))]
    F1, F2 = [[0, 1, 2], [2, 1, 3]], [[0, 1, 2]]
    m = Meshes([ctx.const(V1), ctx.const(V2)], [torch.tensor(F1), torch.tensor(F2)])
    out = (point_mesh_edge_distance if kind == "edge" else point_mesh_face_distance)(m, Pointclouds(pts))
    want = 0
    for V, Fs, P in ((V1, F1, pts[0]), (V2, F2, pts[1])):
        V = ctx.const(V)
        if kind == "edge":
            prim = sorted({tuple(sorted((f[a], f[b]))) for f in Fs for a, b in ((0, 1), (1, 2), (0, 2))})
            d = _C.point_edge_array_dist_forward(P, torch.stack([V[list(e)] for e in prim]))
        else:
            d = _C.point_face_array_dist_forward(P, torch.stack([V[f] for f in Fs]), 5e-3)
        want = want + d.min(1).values.mean() + d.min(0).values.mean()
    ctx.eq("loss", out, want / 2)
