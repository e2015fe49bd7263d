"""C17: gradients of the custom operators equal the derivative of their documented forward.

The reference of every harness is the documented formula written in plain differentiable operations; autograd differentiates it."""
import torch
from symx.harness import case
from pytorch3d import _C
from pytorch3d.loss.point_mesh_distance import edge_point_distance, face_point_distance, point_edge_distance, point_face_distance
from pytorch3d.ops import ball_query, knn_points
from pytorch3d.ops.graph_conv import gather_scatter, gather_scatter_python
from pytorch3d.ops.interp_face_attrs import interpolate_face_attributes
from pytorch3d.ops.mesh_face_areas_normals import mesh_face_areas_normals
from pytorch3d.ops.points_to_volumes import add_points_features_to_volume_densities_features
from pytorch3d.renderer.blending import BlendParams, sigmoid_alpha_blend
from pytorch3d.renderer.compositing import alpha_composite, norm_weighted_sum, weighted_sum
from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes
from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.renderer.points.rasterize_points import rasterize_points
from pytorch3d.structures import Meshes, Pointclouds
from checks.common import all_idx, compose, cross, dist_table, dot, edge, location, pixel_centres

R = dict(dtype="float32")


def compare(ctx, name, op, ref, xs, tags=None):
    """gradients of op and of ref at the same point for the same symbolic upstream gradients"""
    def leaves():
        return [x.detach().clone().requires_grad_(True) for x in xs]

    a = leaves()
    out = op(*a)
    out = list(out) if isinstance(out, (tuple, list)) else [out]
    b = leaves()
    want = ref(*b)
    want = list(want) if isinstance(want, (tuple, list)) else [want]
    gs = [ctx.real(f"g{i}", tuple(o.shape), -3, 3) for i, o in enumerate(out)]
    pairs = [(o, w, g) for o, w, g in zip(out, want, gs) if o.numel()]
    for o, w, _ in pairs:
        ctx.eq(name + ": value", o.detach(), w.detach())
    ga = torch.autograd.grad([o for o, _, _ in pairs], a, [g for _, _, g in pairs], allow_unused=True)
    gb = torch.autograd.grad([w for _, w, _ in pairs if w.requires_grad], b, [g for _, w, g in pairs if w.requires_grad], allow_unused=True)
    for i, (u, v) in enumerate(zip(ga, gb)):
        u = torch.zeros_like(xs[i]) if u is None else u
        v = torch.zeros_like(xs[i]) if v is None else v
        ctx.eq(f"{name}: gradient of {tags[i] if tags else 'input ' + str(i)}", u, v)


def take(t, idx, valid):
    """t (..., P) at index lists, zero where not valid"""
    return torch.stack([t[int(i)] if v else t.sum() * 0 for i, v in zip(idx, valid)])


@case(params=[dict(D=d, l1=a, l2=b, K=k, norm=n, _case=dict(tier="quick" if n == 2 or (d == 1 and k < 3) else "thorough")) for d, a, b, k in ((2, (1,), (3,), 2), (1, (2, 1), (1, 3), 2), (1, (1, 2), (2, 2), 3), (3, (1,), (2,), 2), (1, (0, 1), (2, 0), 2)) for n in (1, 2)],
      cpp=["knn_points_idx", "knn_points_backward"], bounds="dimensions 1 to 3, clouds of different lengths (zero included), K beyond the number of points, both norms", **R)
def knn(ctx, D, l1, l2, K, norm):
    N, P1, P2 = len(l1), max(l1), max(l2)
    p1, p2 = ctx.real("p1", (N, P1, D)), ctx.real("p2", (N, P2, D))
    if norm == 1:
        ctx.assume((p1[:, :, None] != p2[:, None]).all())
    keep = {}

    def op(a, b):
        out = knn_points(a, b, torch.tensor(l1), torch.tensor(l2), K=K, norm=norm)
        keep["idx"] = out.idx
        return out.dists

    def ref(a, b):
        d, idx = dist_table(a, b, norm), keep["idx"]
        return torch.stack([torch.stack([take(d[n, i], idx[n, i], [i < l1[n] and k < min(K, l2[n]) for k in range(K)]) for i in range(P1)]) for n in range(N)])

    compare(ctx, "knn distances", op, ref, [p1, p2])


@case(params=[(2, (1,), (3,), 2, False), (1, (2, 1), (1, 3), 2, False), (1, (1,), (2,), 3, True)], cpp=["ball_query", "knn_points_backward"],
      bounds="radius 1, clouds of different lengths, fewer neighbours than K", **R)
def ball(ctx, D, l1, l2, K, skip):
    N, P1, P2 = len(l1), max(l1), max(l2)
    p1, p2 = ctx.real("p1", (N, P1, D), -1, 1), ctx.real("p2", (N, P2, D), -1, 1)
    keep = {}

    def op(a, b):
        out = ball_query(a, b, torch.tensor(l1), torch.tensor(l2), K=K, radius=1.0, skip_points_outside_cube=skip)
        keep["idx"] = out.idx
        return out.dists

    def ref(a, b):
        d, idx = dist_table(a, b), keep["idx"]
        return torch.stack([torch.stack([take(d[n, i], idx[n, i], [int(j) >= 0 for j in idx[n, i]]) for i in range(P1)]) for n in range(N)])

    compare(ctx, "ball query distances", op, ref, [p1, p2])


FACES = [[[0, 1, 2]], [[0, 1, 2], [2, 1, 3]], [[0, 1, 2], [3, 2, 0], [1, 3, 0]]]


@case(params=[(f, k) for f in range(3) for k in range(3)], cpp=["face_areas_normals_forward", "face_areas_normals_backward"],
      bounds="(1 to 3 faces sharing vertices, symbolic axis): one coordinate of every vertex symbolic, no face smaller than 0.005", **R)
def face_areas_normals(ctx, f, k):
    base = torch.tensor([[0.0, 0.0, 0.25], [1.0, 0.25, 0.0], [0.25, 1.0, -0.5], [1.25, 1.5, 0.75]])
    s = ctx.real("s", (4,), -2, 2)
    v = torch.stack([torch.cat([base[i, :k], s[i:i + 1], base[i, k + 1:]]) for i in range(4)])
    F = torch.tensor(FACES[f])
    for a, b, c in FACES[f]:
        n = cross(v[b] - v[a], v[c] - v[a])
        ctx.assume(dot(n, n) > 1e-4)

    def ref(x):
        n = cross(x[F[:, 1]] - x[F[:, 0]], x[F[:, 2]] - x[F[:, 0]])
        r = dot(n, n).sqrt()
        return r / 2, n / r[:, None]

    compare(ctx, "face areas and normals", lambda x: mesh_face_areas_normals(x, F), ref, [v], ["vertices"])


@case(params=[(k,) for k in range(3)], cpp=["face_areas_normals_forward", "face_areas_normals_backward"], bounds="one face with one fully symbolic vertex", **R)
def face_areas_normals_vertex(ctx, k):
    base = torch.tensor([[0.0, 0.0, 0.25], [1.0, 0.25, 0.0], [0.25, 1.0, -0.5]])
    v = torch.cat([base[:k], ctx.real("p", (1, 3), -2, 2), base[k + 1:]])
    n0 = cross(v[1] - v[0], v[2] - v[0])
    ctx.assume(dot(n0, n0) > 1e-4)

    def ref(x):
        n = cross(x[1] - x[0], x[2] - x[0])[None]
        r = dot(n, n).sqrt()
        return r / 2, n / r[:, None]

    compare(ctx, "face areas and normals", lambda x: mesh_face_areas_normals(x, torch.tensor([[0, 1, 2]])), ref, [v], ["vertices"])


@case(params=[(1, 1, 2), (2, 2, 1)], bounds="(pixels wide, slots, attributes): every pattern of face indices", **R)
def interpolation(ctx, W, K, D):
    p2f = all_idx(ctx, (1, K, 1, W), 2).permute(0, 2, 3, 1).contiguous()
    bary, attr = ctx.real("b", (1, 1, W, K, 3), -2, 2), ctx.real("a", (2, 3, D), -5, 5)

    def ref(b, a):
        out = []
        for w in range(W):
            for k in range(K):
                i = int(p2f[0, 0, w, k])
                out.append((b[0, 0, w, k][:, None] * a[i]).sum(0) if i >= 0 else a.sum((0, 1)) * 0)
        return torch.stack(out).reshape(1, 1, W, K, D)

    compare(ctx, "interpolated attributes", lambda b, a: interpolate_face_attributes(p2f, b, a), ref, [bary, attr], ["barycentrics", "attributes"])


def seg_case(p, a, b):
    """squared distance to the segment ab and its region (0: inner, -1: nearest to a, 1: nearest to b), by cases"""
    d = b - a
    t, l2 = dot(p - a, d), dot(d, d)
    if bool((t <= 0).detach()):
        return dot(p - a, p - a), -1
    if bool((t >= l2).detach()):
        return dot(p - b, p - b), 1
    return dot(p - a, p - a) - t * t / l2, 0


def nearest_edge(ctx, p, t):
    """squared distance to the nearest edge of a triangle, assumed unique except at a common corner"""
    best = None
    for i, j in ((0, 1), (0, 2), (1, 2)):
        d, r = seg_case(p, t[i], t[j])
        corner = {-1: i, 1: j, 0: None}[r]
        if best is None:
            best = (d, corner)
            continue
        if corner is not None and corner == best[1]:
            continue
        ctx.assume((d != best[0]).detach())
        if bool((d < best[0]).detach()):
            best = (d, corner)
    return best[0]


def fragment_cases(ctx, t, p, persp, clip):
    """depth, barycentrics and signed distance of one face at one pixel centre, by cases"""
    a, b, c = t[0], t[1], t[2]
    area = edge(c, a, b)
    w = torch.stack([edge(p, b, c), edge(p, c, a), edge(p, a, b)])
    ctx.assume((w != 0).all().detach())
    z, den = t[:, 2], area
    if persp:
        w = torch.stack([w[0] * z[1] * z[2], w[1] * z[0] * z[2], w[2] * z[0] * z[1]])
        den = w.sum()
    w = w / den
    pos = [bool((w[i] > 0).detach()) for i in range(3)]
    if clip:
        w = torch.stack([w[i] if pos[i] else w[i] * 0 for i in range(3)])
        w = w / w.sum()
    d = nearest_edge(ctx, p.to(t.dtype), t[:, :2])
    return (w * z).sum(), w, -d if all(pos) else d


# mesh rasterizer
RM = dict(cpp=["rasterize_meshes", "rasterize_meshes_backward"], eps0=True, feas_ms=500, dtype="float32")
TRI = {"ccw": [[-0.5, -0.5], [0.1, 0.7], [0.75, -0.25]], "cw": [[0.0, 0.0], [1.0, 0.0], [0.0, 1.5]]}


def raster(ctx, v, counts, size, K, blur, persp, clip, cull=False, grads=("zbuf", "bary", "dists")):
    """v (F, 3, 3)"""
    H, W = size
    keep = {}

    def op(x):
        parts, a = [], 0
        for c in counts:
            parts.append(x[a:a + c].reshape(3 * c, 3))
            a += c
        m = Meshes(parts, [torch.arange(3 * c).reshape(c, 3) for c in counts])
        p2f, z, b, d = rasterize_meshes(m, size, blur_radius=blur, faces_per_pixel=K, perspective_correct=persp, clip_barycentric_coords=clip, cull_backfaces=cull, bin_size=0)
        keep["idx"] = p2f
        return z, b, d

    cen = pixel_centres(H, W)

    def ref(x):
        Z, B, D = [], [], []
        for n in range(len(counts)):
            for i in range(H):
                for j in range(W):
                    for k in range(K):
                        f = int(keep["idx"][n, i, j, k])
                        if f < 0:
                            none = x.sum() * 0 - 1
                            z, b, d = none, none.expand(3), none
                        else:
                            z, b, d = fragment_cases(ctx, x[f], cen[i, j], persp, clip)
                        Z.append(z)
                        B.append(b)
                        D.append(d)
        s = (len(counts), H, W, K)
        return torch.stack(Z).reshape(s), torch.stack(B).reshape(s + (3,)), torch.stack(D).reshape(s)

    compare(ctx, "mesh rasterizer", op, ref, [v], ["face vertices"])


@case(params=[dict(shape=s, blur=b, clip=c, _case=dict(tier="quick" if s == "cw" else "thorough")) for s in TRI for b in (0.0, 0.09) for c in (False, True)],
      bounds="one triangle of a fixed shape and fixed depths at a symbolic position, one pixel, all upstream gradients", **RM)
def mesh_position(ctx, shape, blur, clip):
    v = torch.cat([torch.tensor(TRI[shape]) + ctx.real("t", (1, 2), -2, 2), torch.tensor([[1.0], [1.5], [2.0]])], 1)[None]
    raster(ctx, v, [1], (1, 1), 1, blur, False, clip)


@case(params=[dict(shape=s, persp=p, clip=c) for s in TRI for p in (False, True) for c in (False, True)],
      bounds="one triangle covering the pixel at fixed places inside and (blurred) outside, symbolic depths", **RM)
def mesh_depths(ctx, shape, persp, clip):
    o = ctx.pick("offset", [(0.0, 0.0), (-0.2, -0.2), (0.3, 0.1), (0.1, -0.4), (0.5, 0.3)])
    v = torch.cat([torch.tensor(TRI[shape]) + torch.tensor([o]), ctx.real("z", (3, 1), 0.5, 4)], 1)[None]
    if persp:
        c = v[0]
        w = [edge(torch.zeros(2), c[(i + 1) % 3, :2], c[(i + 2) % 3, :2]) * c[(i + 1) % 3, 2] * c[(i + 2) % 3, 2] for i in range(3)]
        tot = w[0] + w[1] + w[2]
        area = edge(torch.tensor(TRI[shape][2]), torch.tensor(TRI[shape][0]), torch.tensor(TRI[shape][1]))
        ctx.assume(tot * area > 0.01)
    raster(ctx, v, [1], (1, 1), 1, 0.3, persp, clip)


@case(params=[dict(persp=p, clip=c, k=k) for p in (False, True) for c in (False, True) for k in range(3)], bounds="one symbolic coordinate of one vertex (each axis), perspective correction and clipping on and off", **RM)
def mesh_vertex(ctx, persp, clip, k):
    s = ctx.real("s", (), -1, 1) if k < 2 else ctx.real("s", (), 0.5, 3)
    base = torch.tensor([[-0.5, -0.5, 1.0], [0.1, 0.7, 1.5], [0.75, -0.25, 2.0]])
    row = torch.cat([base[1, :k], s[None], base[1, k + 1:]])
    v = torch.stack([base[0], row, base[2]])[None]
    if k < 2:
        ctx.assume(edge(v[0, 2, :2], v[0, 0, :2], v[0, 1, :2]).abs() > 0.05)
    if persp:
        c = v[0]
        w = [edge(torch.zeros(2), c[(i + 1) % 3, :2], c[(i + 2) % 3, :2]) * c[(i + 1) % 3, 2] * c[(i + 2) % 3, 2] for i in range(3)]
        ctx.assume((w[0] + w[1] + w[2]) * edge(c[2, :2], c[0, :2], c[1, :2]) > 0.01)
    raster(ctx, v, [1], (1, 1), 1, 0.04, persp, clip)


TRIS = [[[-1.0, -1.0], [0.2, 1.0], [1.0, -0.8]], [[-1.0, -0.5], [0.0, 1.5], [1.0, -0.5]], [[-0.7, -0.9], [0.1, 0.8], [0.9, -0.1]]]


@case(params=[(K, c, s, p) for K in (1, 2) for c, s in (((3,), (1, 1)), ((1, 2), (1, 2)), ((2, 0, 1), (2, 1))) for p in (False, True)],
      bounds="overlapping faces with symbolic depths: K slots, batches with empty meshes, non-square images", **RM)
def mesh_batches(ctx, K, counts, size, persp):
    z = ctx.real("z", (3,), 0.5, 3)
    ctx.assume((z[0] != z[1]) & (z[1] != z[2]) & (z[0] != z[2]))
    v = torch.cat([torch.tensor(TRIS) + 0.05, z[:, None, None].expand(3, 3, 1)], -1)
    raster(ctx, v, counts, size, K, 0.0, persp, False)


@case(params=[(c, s, K) for c, s in (((2,), (1, 1)), ((1, 1), (1, 2)), ((2, 0, 1), (2, 1))) for K in (1, 2)], cpp=["rasterize_points", "rasterize_points_backward"], dtype="float32",
      bounds="points with symbolic depths and one symbolic coordinate, batches with empty clouds")
def points(ctx, counts, size, K):
    P = sum(counts)
    xy = torch.tensor([[0.25, 0.25], [0.5, -0.25], [-0.5, 0.125]])[:P]
    xy = xy + torch.stack([ctx.real("x", (), -1, 1), ctx.real("y", (), -1, 1)])[None]
    z = ctx.real("z", (P,), 1, 3)
    v = torch.cat([xy, z[:, None]], 1)
    H, W = size
    cen = pixel_centres(H, W).float()
    keep = {}

    def op(x):
        parts, a = [], 0
        for c in counts:
            parts.append(x[a:a + c])
            a += c
        idx, zb, d = rasterize_points(Pointclouds(parts), size, radius=1.0, points_per_pixel=K, bin_size=0)
        keep["idx"] = idx
        return zb, d

    def ref(x):
        Z, D = [], []
        for n in range(len(counts)):
            for i in range(H):
                for j in range(W):
                    for k in range(K):
                        f = int(keep["idx"][n, i, j, k])
                        none = x.sum() * 0 - 1
                        Z.append(x[f, 2] if f >= 0 else none)
                        D.append(((x[f, :2] - cen[i, j]) ** 2).sum() if f >= 0 else none)
        s = (len(counts), H, W, K)
        return torch.stack(Z).reshape(s), torch.stack(D).reshape(s)

    compare(ctx, "point rasterizer", op, ref, [v], ["points"])


@case(params=[(1, 1), (2, 1), (3, 1), (2, 2)], cpp=["sigmoid_alpha_blend", "sigmoid_alpha_blend_backward"], bounds="(slots, pixels): every pattern of empty slots, symbolic distances and upstream gradients, sigma 0.5", **R)
def sigmoid(ctx, K, W):
    p2f = all_idx(ctx, (1, K, 1, W), 1).permute(0, 2, 3, 1).contiguous()
    d = ctx.real("d", (1, 1, W, K), -2, 2)
    colors = ctx.real("c", (1, 1, W, K, 3), 0, 1)

    def op(x, c):
        return sigmoid_alpha_blend(c, Fragments(pix_to_face=p2f, zbuf=None, bary_coords=None, dists=x), BlendParams(sigma=0.5))

    def ref(x, c):
        al = []
        for w in range(W):
            t = x.sum() * 0 + 1
            for k in range(K):
                if int(p2f[0, 0, w, k]) >= 0:
                    t = t * (1 - 1 / (1 + torch.exp(x[0, 0, w, k] / 0.5)))
            al.append(1 - t)
        return torch.cat([c[..., 0, :], torch.stack(al).reshape(1, 1, W, 1)], -1)

    compare(ctx, "sigmoid blending", op, ref, [d, colors], ["distances", "colours"])


CP = dict(cpp=[f"accum_{n}{b}" for n in ("alphacomposite", "weightedsum", "weightedsumnorm") for b in ("", "_backward")], dtype="float32")


@case(params=[dict(op=op, shape=s) for op in (alpha_composite, weighted_sum, norm_weighted_sum) for s in ((1, 3, 1, 1), (2, 2, 1, 2), (1, 2, 2, 1))],
      bounds="(operator, (N, K, H, W)): every index pattern, symbolic alphas in [0, 1], features and upstream gradients", **CP)
def composite(ctx, op, shape):
    idx = all_idx(ctx, shape, 2)
    al, f = ctx.real("a", shape, 0, 1), ctx.real("f", (2, 2), -5, 5)
    N, K, H, W = shape
    if op is norm_weighted_sum:
        for n in range(N):
            for y in range(H):
                for x in range(W):
                    tot = sum([al[n, k, y, x] for k in range(K) if int(idx[n, k, y, x]) >= 0], ctx.const(0.0))
                    ctx.assume(tot != torch.tensor(1e-4))
    compare(ctx, "composited image", lambda a, b: op(idx, a, b), lambda a, b: compose(op, idx, a, b), [al, f], ["alphas", "features"])


@case(params=[(2,), (3,)], bounds="alpha compositing with opaque points (alpha exactly one) in front of others", **CP)
def composite_opaque(ctx, K):
    idx = all_idx(ctx, (1, K, 1, 1), 2)
    al, f = ctx.real("a", (1, K, 1, 1), 0, 1), ctx.real("f", (1, 2), -5, 5)
    k = ctx.pick("opaque", list(range(K)))
    al = torch.cat([al[:, :k], torch.ones_like(al[:, :1]), al[:, k + 1:]], 1)
    compare(ctx, "composited image", lambda a, b: alpha_composite(idx, a, b), lambda a, b: compose(alpha_composite, idx, a, b), [al, f], ["alphas", "features"])


@case(params=[(mode, a, m) for mode in ("trilinear", "nearest") for a in (True, False) for m in range(4) if m < 3 or (mode, a) == ("trilinear", False)], cpp=["points_to_volumes_forward", "points_to_volumes_backward"], dtype="float32",
      bounds="two points (one masked out, one symbolic coordinate or all features) in a grid of up to 2x3x2 voxels, without and with rescaling", feas_ms=500)
def volumes(ctx, mode, align, m):
    small = m == 3
    m = m % 3
    grid = (1, 1, 2) if small else (2, 3, 2) if m == 1 else (2, 2, 2)
    x = ctx.real("x", (), -1.5, 1.5)
    base = torch.tensor([[0.3, -0.2, 0.4], [0.1, 0.15, -0.35]])
    pts = torch.cat([torch.cat([base[:1, :m], x[None, None], base[:1, m + 1:]], 1), base[1:]])[None]
    feats, dens, vf = ctx.real("f", (1, 2, 2), -3, 3), ctx.real("d", (1, 1) + grid, 0.5, 1), ctx.real("v", (1, 2) + grid, -3, 3)
    rescale = small or (mode == "nearest" and m == 0 and ctx.pick("rescale", [False, True]))
    mask = [1.0, 0.0] if small else ctx.pick("mask", [[1.0, 1.0], [1.0, 0.0], [0.0, 1.0]])
    loc = location(pts[0], grid, align)
    for k in range(-4, 7):
        ctx.assume(loc != (k + 0.5 if mode == "nearest" else float(k)))

    def share(l):
        """(2, D, H, W) weight of each point at each voxel, by cases"""
        rows = []
        for i in range(2):
            ax = []
            for a in range(3):
                if mode == "nearest":
                    ax.append({int(torch.floor(l[i, 2 - a].detach() + 0.5).long()): 1.0 + l[i, 0] * 0})
                else:
                    c = int(torch.floor(l[i, 2 - a].detach()).long())
                    ax.append({c: c + 1 - l[i, 2 - a], c + 1: l[i, 2 - a] - c})
            rows.append(torch.stack([torch.stack([torch.stack([ax[0][u] * ax[1][v] * ax[2][t] if u in ax[0] and v in ax[1] and t in ax[2] else l.sum() * 0 for t in range(grid[2])]) for v in range(grid[1])]) for u in range(grid[0])]))
        return torch.stack(rows) * torch.tensor(mask)[:, None, None, None]

    def op(p, f, d, v):
        out = add_points_features_to_volume_densities_features(points_3d=p, points_features=f, volume_densities=d * 1, volume_features=v * 1, mode=mode, mask=torch.tensor([mask]), align_corners=align, rescale_features=rescale)
        return out

    def ref(p, f, d, v):
        l = location(p[0], grid, align)
        w = share(l)
        D = d + w.sum(0)[None, None]
        V = v + (w[:, None] * f[0][:, :, None, None, None]).sum(0)[None]
        if rescale:
            lo = 1e-4 if mode == "trilinear" else 1.0
            V = V / torch.where(D < lo, torch.full_like(D, lo), D)
        return V, D

    if mode == "nearest" and rescale:
        w = share(loc)
        ctx.assume(dens[0, 0] + w.sum(0) != 1.0)
    compare(ctx, "volumes", op, ref, [pts, feats, dens, vf], ["points", "point features", "densities", "volume features"])


# point to mesh distances
PM = dict(cpp=[f"{n}_dist_{b}" for n in ("point_face", "face_point", "point_edge", "edge_point", "point_face_array", "point_edge_array") for b in ("forward", "backward")], eps0=True, feas_ms=400, dtype="float32")
ONE = dict(fp=torch.zeros(1, dtype=torch.int64), n=1)


@case(params=[(which, k) for which in ("point", "edge", "array") for k in range(4)], bounds="one point with one symbolic coordinate (or fully symbolic) and one segment", **PM)
def point_edge(ctx, which, k):
    p = ctx.real("p", (1, 3), -3, 3)
    if k < 3:
        p = torch.cat([torch.tensor([[0.3, -0.6, 0.9]])[:, :k], p[:, k:k + 1], torch.tensor([[0.3, -0.6, 0.9]])[:, k + 1:]], 1)
    seg = torch.tensor([[[0.5, -1.0, 0.25], [1.0, 0.5, -0.5]]])
    z = torch.zeros(1, dtype=torch.int64)

    def op(a, s):
        return point_edge_distance(a, z, s, z, 1) if which == "point" else edge_point_distance(a, z, s, z, 1)

    if which == "array":
        g = ctx.real("g", (1, 1), -3, 3)
        a, s = p.detach().clone().requires_grad_(True), seg.detach().clone().requires_grad_(True)
        ga = _C.point_edge_array_dist_backward(p, seg, g)
        gb = torch.autograd.grad(seg_case(a[0], s[0, 0], s[0, 1])[0], (a, s), g[0, 0])
        for i in range(2):
            ctx.eq("gradient", ga[i], gb[i])
        return
    compare(ctx, "distance", op, lambda a, s: seg_case(a[0], s[0, 0], s[0, 1])[0][None], [p, seg], ["points", "segments"])


@case(params=[(k, i) for k in range(3) for i in range(2)], bounds="one symbolic coordinate of either end of the segment", **PM)
def point_edge_end(ctx, k, i):
    s = ctx.real("s", (), -3, 3)
    base = torch.tensor([[0.5, -1.0, 0.25], [1.0, 0.5, -0.5]])
    row = torch.cat([base[i, :k], s[None], base[i, k + 1:]])
    seg = (torch.stack([row, base[1]]) if i == 0 else torch.stack([base[0], row]))[None]
    z = torch.zeros(1, dtype=torch.int64)
    compare(ctx, "distance", lambda a, t: point_edge_distance(a, z, t, z, 1), lambda a, t: seg_case(a[0], t[0, 0], t[0, 1])[0][None], [ctx.const([[0.3, -0.6, 0.9]]), seg], ["points", "segments"])


def tri_ref(ctx, p, t):
    """squared distance to the triangle, by cases"""
    a, b, c = t[0], t[1], t[2]
    n = cross(b - a, c - a)
    if all(bool((dot(cross(v - u, p - u), n) >= 0).detach()) for u, v in ((a, b), (b, c), (c, a))):
        h = dot(p - a, n)
        return h * h / dot(n, n)
    return nearest_edge(ctx, p, t)


SLOW = [(0, 0, 1), (0, 0, 2), (1, 2, 0), (1, 2, 2)]


@case(params=[dict(which=which, name=name, k=k, b=b, _case=dict(tier="thorough" if (name, k, b) in SLOW else "quick", budget=240)) for which in ("point", "face") for name in range(2) for k in range(3) for b in range(3) if (name, k, b) not in ((1, 0, 0), (1, 1, 1))], bounds="one point with one symbolic coordinate and one triangle: over the face, beside each edge, at each corner", **PM)
def point_face(ctx, which, name, k, b):
    tri = torch.tensor([[[0.5, -1.0, 2.0], [2.5, -1.0, 2.0], [1.0, 1.0, 2.0]], [[0.0, 0.0, 0.0], [2.0, 1.0, -1.0], [-1.0, 2.0, 3.0]]][name])[None]
    off = [(1.3, 0.2, 1.0), (-0.5, 0.3, 2.5), (3.0, -1.7, 1.5)][b]
    x = ctx.real("x", (), -4, 4)
    p = torch.cat([torch.tensor(off)[:k], x[None], torch.tensor(off)[k + 1:]])[None]
    z = torch.zeros(1, dtype=torch.int64)
    op = point_face_distance if which == "point" else face_point_distance
    # the distance is continuously differentiable in the point except where two edges are equally near (and the point is not in a corner region): squared distances to a convex set are smooth
    compare(ctx, "distance", lambda a, t: op(a, z, t, z, 1, 5e-3), lambda a, t: tri_ref(ctx, a[0], t[0])[None], [p, tri], ["points", "triangles"])


@case(params=[(i, k) for i in range(3) for k in range(3)], bounds="one symbolic coordinate of one triangle vertex, point over the face or beside an edge", **PM)
def point_face_vertex(ctx, i, k):
    base = torch.tensor([[0.5, -1.0, 0.25], [2.5, -0.75, 0.5], [1.0, 1.0, -0.25]])
    s = ctx.real("s", (), -0.5, 0.5)
    row = base[i] + torch.eye(3)[k] * s
    tri = torch.stack([row if j == i else base[j] for j in range(3)])[None]
    p = torch.tensor([ctx.pick("p", [(1.3, -0.3, 1.0), (2.5, 1.0, 0.5), (-0.5, -2.0, 0.3)])])
    z = torch.zeros(1, dtype=torch.int64)
    compare(ctx, "distance", lambda a, t: point_face_distance(a, z, t, z, 1, 5e-3), lambda a, t: tri_ref(ctx, a[0], t[0])[None], [p, tri], ["points", "triangles"])


LAY = [((1, 2), (2, 1)), ((2, 1), (1, 2))]


def first(c):
    return torch.tensor([sum(c[:i]) for i in range(len(c))])


@case(params=[(l, w) for l in LAY for w in ("point_face", "face_point", "point_edge", "edge_point")], bounds="batch layouts: gradients are accumulated at the nearest primitive of the same batch element", **PM)
def point_mesh_batches(ctx, lay, which):
    np_, ns = lay
    P, S = sum(np_), sum(ns)
    x = ctx.real("p", (P, 1), -3, 3)
    pts = torch.cat([torch.full((P, 1), 0.5), torch.full((P, 1), 0.25), x], 1)
    tri = torch.tensor([[[-50.0, -50, 0], [50, -50, 0], [0, 50, 0]], [[-50.0, -50, 2], [0, 50, 2], [50, -50, 2]], [[-50.0, -50, -1], [50, -50, -1], [0, 50, -1]]])[:S]
    face = "face" in which
    prim = tri if face else tri[:, :2] * torch.tensor([0.01, 0.01, 1.0])
    fp, fs = first(np_), first(ns)
    by_point = which.startswith("point")
    op = dict(point_face=point_face_distance, face_point=face_point_distance, point_edge=point_edge_distance, edge_point=edge_point_distance)[which]
    args = (5e-3,) if face else ()
    dist = (lambda p, t: tri_ref(ctx, p, t)) if face else (lambda p, t: seg_case(p, t[0], t[1])[0])

    def ref(a, t):
        out = []
        for n in range(len(np_)):
            pr, sr = range(int(fp[n]), int(fp[n]) + np_[n]), range(int(fs[n]), int(fs[n]) + ns[n])
            for i in (pr if by_point else sr):
                best = None
                for j in (sr if by_point else pr):
                    d = dist(a[i], t[j]) if by_point else dist(a[j], t[i])
                    if best is not None:
                        ctx.assume((d != best).detach())
                    if best is None or bool((d < best).detach()):
                        best = d
                out.append(best)
        return torch.stack(out)

    compare(ctx, which, lambda a, t: op(a, fp, t, fs, max(np_) if by_point else max(ns), *args), ref, [pts, prim], ["points", "primitives"])


EDGES = [[[0, 1]], [[0, 1], [1, 2], [2, 0]], [[0, 2], [0, 1], [0, 1]], [[1, 1], [2, 0]]]


@case(params=[(e, d) for e in range(4) for d in (False, True)], cpp=["gather_scatter"], bounds="graphs of three vertices with repeated edges and self loops, directed and undirected", **R)
def graph(ctx, e, directed):
    E = torch.tensor(EDGES[e])
    x = ctx.real("x", (3, 2))

    def ref(t):
        rows = [t[v] * 0 for v in range(3)]
        for a, b in EDGES[e]:
            rows[a] = rows[a] + t[b]
            if not directed:
                rows[b] = rows[b] + t[a]
        return torch.stack(rows)

    compare(ctx, "gather_scatter", lambda t: gather_scatter(t, E, directed), ref, [x])
    compare(ctx, "gather_scatter_python", lambda t: gather_scatter_python(t, E, directed), ref, [x])
