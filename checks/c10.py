"""C10: mesh rasterizer (native and Python)."""
import torch
from symx.harness import case
from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes, rasterize_meshes_python
from pytorch3d.structures import Meshes
from checks.common import edge, fragment, pixel_centres, threads

C = dict(cpp=["rasterize_meshes"], dtype="float32", eps0=True, feas_ms=500)
IMPL = ["native", "python"]


def call(impl, meshes, size, K, blur=0.0, persp=False, clip=False, cull=False):
    kw = dict(image_size=size, blur_radius=blur, faces_per_pixel=K, perspective_correct=persp, clip_barycentric_coords=clip, cull_backfaces=cull)
    if impl == "python":
        return rasterize_meshes_python(meshes, cull_to_frustum=False, **kw)
    return rasterize_meshes(meshes, bin_size=0, **kw)


def check(ctx, faces, counts, size, out, K, blur=0.0, persp=False, clip=False, cull=False):
    """faces (F,3,3) packed"""
    H, W = size
    p2f, zbuf, bary, dists = out
    ctx.true("shapes", all(tuple(t.shape) == (len(counts), H, W, K) for t in (p2f, zbuf, dists)) and tuple(bary.shape) == (len(counts), H, W, K, 3))
    centres = pixel_centres(H, W)
    s = 0
    for n, F in enumerate(counts):
        for y in range(H):
            for x in range(W):
                got = [int(i) for i in p2f[n, y, x]]
                c = sum(i >= 0 for i in got)
                ctx.true("slots fill from the front with distinct faces of this mesh",
                         all(s <= i < s + F for i in got[:c]) and len(set(got[:c])) == c and all(i == -1 for i in got[c:]))
                ctx.eq("empty slots hold -1", torch.cat([zbuf[n, y, x, c:], dists[n, y, x, c:], bary[n, y, x, c:].reshape(-1)]), -torch.ones(5 * (K - c)))
                ref = {i: fragment(faces[i], centres[y, x], blur, persp, clip, cull) for i in range(s, s + F)}
                for k, i in enumerate(got[:c]):
                    cov, depth, w, d = ref[i]
                    ctx.true("the face covers the pixel", cov)
                    ctx.eq("depth is the interpolation of the vertex depths", zbuf[n, y, x, k], depth)
                    ctx.eq("barycentric coordinates", bary[n, y, x, k], w)
                    ctx.eq("signed squared distance to the boundary", dists[n, y, x, k], d)
                    if k:
                        ctx.le("depth order", zbuf[n, y, x, k - 1], zbuf[n, y, x, k])
                for i in range(s, s + F):
                    if i not in got[:c]:
                        ok = ~ref[i][0]
                        if c == K:
                            ok = ok | (ref[i][1] >= ref[got[K - 1]][1])
                        ctx.true("no nearer covering face is missed", ok)
        s += F


SHAPES = {
    "acute": [[-0.5, -0.5], [0.1, 0.7], [0.75, -0.25]],
    "acute_cw": [[0.1, 0.7], [-0.5, -0.5], [0.75, -0.25]],
    "obtuse": [[-1.0, 0.25], [0.25, -0.25], [1.0, 0.5]],
    "right": [[0.0, 0.0], [0.0, 1.5], [1.0, 0.0]],
    "right_cw": [[0.0, 0.0], [1.0, 0.0], [0.0, 1.5]],
    "line": [[-0.5, -0.5], [0.0, 0.0], [0.5, 0.5]],
}


def tri1(ctx, shape, z=None):
    xy = torch.tensor(SHAPES[shape]) + ctx.real("t", (1, 2), -2, 2)
    z = ctx.const([1.0, 1.0, 1.0]) if z is None else z
    return torch.cat([xy, z[:, None]], 1)


def mesh1(v):
    return Meshes([v], [torch.tensor([[0, 1, 2]])])


BL = [0.0, 0.09]


@case(params=[dict(impl=i, shape=s, blur=b, _case=dict(tier="quick" if not b or s == "right" or (s, i) == ("right_cw", "native") else "thorough")) for i in IMPL for s in SHAPES for b in BL],
      bounds="one triangle of a fixed shape at a symbolic position, constant depth, one pixel", **C)
def position(ctx, impl, shape, blur):
    v = tri1(ctx, shape)
    kw = dict(blur=blur, cull=ctx.pick("cull", [False, True]), clip=ctx.pick("clip", [False, True]))
    check(ctx, v[None], [1], (1, 1), call(impl, mesh1(v), (1, 1), 2, **kw), 2, **kw)


@case(params=[dict(impl=i, shape=s, persp=p, clip=c) for i in IMPL for s in ("acute", "right_cw") for p in (False, True) for c in (False, True)],
      bounds="one triangle at a symbolic position without blur, depths symbolic (positive when perspective correction is on)", **C)
def depths(ctx, impl, shape, persp, clip):
    z = ctx.real("z", (3,), 0.5 if persp else -1, 4)
    v = tri1(ctx, shape, z)
    kw = dict(persp=persp, clip=clip)
    check(ctx, v[None], [1], (1, 1), call(impl, mesh1(v), (1, 1), 2, **kw), 2, **kw)


@case(params=[dict(impl=i, persp=p, clip=c, k=k, _case=dict(tier="quick" if k == 1 or i == "native" else "thorough")) for i in IMPL for p in (False, True) for c in (False, True) for k in range(3)],
      bounds="one triangle whose position lies on a line crossing it, blurred, depths symbolic", **C)
def blur_depths(ctx, impl, persp, clip, k):
    t = ctx.real("t", (), -1, 1)
    d = [[1.0, 0.25], [0.25, 1.0], [-1.0, 0.5]][k]
    z = ctx.real("z", (3,), 1, 1.25)
    v = torch.cat([torch.tensor(SHAPES["acute"]) + t * torch.tensor(d), z[:, None]], 1)
    if persp:
        # the plane of the triangle is met in front of the camera
        w = torch.stack([edge(torch.zeros(2), v[1], v[2]), edge(torch.zeros(2), v[2], v[0]), edge(torch.zeros(2), v[0], v[1])])
        ctx.assume(w[0] * z[1] * z[2] + w[1] * z[0] * z[2] + w[2] * z[0] * z[1] > 0.01)
    kw = dict(blur=0.09, persp=persp, clip=clip)
    check(ctx, v[None], [1], (1, 1), call(impl, mesh1(v), (1, 1), 2, **kw), 2, **kw)


@case(params=[dict(impl=i, j=j, _case=dict(tier="quick" if (i, j) in (("native", 0), ("native", 1)) else "thorough")) for i in IMPL for j in range(3)], bounds="one triangle, one vertex fully symbolic (all orientations and degenerate shapes), no blur", **C)
def vertex(ctx, impl, j):
    p = ctx.real("p", (3,), -2, 2)
    rows = [torch.tensor(r + [0.75]) for r in ([-0.6, -0.3], [0.5, -0.4])]
    rows.insert(j, p)
    v = torch.stack(rows)
    kw = dict(cull=ctx.pick("cull", [False, True]))
    check(ctx, v[None], [1], (1, 1), call(impl, mesh1(v), (1, 1), 1, **kw), 1, **kw)


@case(params=[dict(impl=i, j=j) for i in IMPL for j in range(2)], bounds="vertex depths at and around the camera plane: a face with a vertex behind the camera is skipped", **C)
def behind(ctx, impl, j):
    z = ctx.real("z", (3,), -1, 1)
    v = torch.cat([torch.tensor(SHAPES["acute"]), z[:, None]], 1)
    kw = dict(blur=0.01 * j)
    check(ctx, v[None], [1], (1, 1), call(impl, mesh1(v), (1, 1), 1, **kw), 1, **kw)


SIZES = [(1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 3)]


@case(params=[dict(impl=i, size=s, k=k, _case=dict(tier="quick" if i == "native" or s != (3, 2) else "thorough")) for i in IMPL for s in SIZES for k in range(2)], bounds="a triangle moving along an axis over larger (non-square) images, any number of threads up to 3", **C)
def images(ctx, impl, size, k):
    t = ctx.real("t", (), -3, 3)
    o = torch.stack([t, torch.full((), 0.1)] if k == 0 else [torch.full((), -0.2), t])
    v = torch.cat([torch.tensor(SHAPES["right"]) - 0.4 + o, ctx.real("z", (1, 1), 0, 3).expand(3, 1)], 1)
    with threads(ctx, ctx.pick("threads", [1, 2, 3]) if impl == "native" and size[0] > 1 else 1):
        out = call(impl, mesh1(v), size, K=1, blur=0.01 * k)
    check(ctx, v[None], [1], size, out, 1, blur=0.01 * k)


@case(params=[dict(H=h, t=t, _case=dict(tier="quick" if h < 6 else "thorough")) for h in range(1, 9) for t in range(1, 9)], bounds="(image height, threads): a face covering the whole image with symbolic depth, rows shared out over up to 8 threads", **C)
def thread_rows(ctx, H, t):
    z = ctx.real("z", (), -1, 4)
    v = torch.cat([torch.tensor([[-9.0, -9.0], [9.0, -9.0], [0.0, 40.0]]), z.expand(3, 1)], 1)
    with threads(ctx, t):
        p2f, zbuf = call("native", mesh1(v), (H, 1), K=1)[:2]
    front = bool(ctx.fork(z >= 0))
    ctx.true("every row is rasterized", bool((p2f == (0 if front else -1)).all()))
    ctx.eq("depth", zbuf.reshape(-1), (z if front else ctx.const(-1.0)).expand(H))


TRIS = [[[-1.0, -1.0], [0.2, 1.0], [1.0, -0.8]], [[-1.0, -0.5], [1.0, -0.5], [0.0, 1.5]], [[-0.7, -0.9], [0.1, 0.8], [0.9, -0.1]], [[0.2, 0.1], [0.2, 1.0], [1.0, 0.5]]]


@case(params=[dict(impl=i, K=K, cull=c, blur=b, _case=dict(tier="quick" if i == "native" and K != 3 or not b else "thorough")) for i in IMPL for K in (1, 2, 3, 4) for c in (False, True) for b in BL], bounds="four overlapping faces (one clockwise, one missing the pixel), symbolic depths, K from 1 to 4", **C)
def order(ctx, impl, K, cull, blur):
    z = ctx.real("z", (3,), -1, 3)
    zz = torch.cat([z, ctx.const([0.5])])
    v = torch.cat([torch.tensor(TRIS), zz[:, None, None].expand(4, 3, 1)], -1)
    m = Meshes([v.reshape(12, 3)], [torch.arange(12).reshape(4, 3)])
    check(ctx, v, [4], (1, 1), call(impl, m, 1, K=K, cull=cull, blur=blur), K, cull=cull, blur=blur)


@case(params=[dict(impl=i, size=s, counts=c) for i in IMPL for s in ((1, 2), (2, 1)) for c in ((1, 2), (2, 0, 1), (0, 2), (2, 2))], bounds="batches of meshes of different sizes (empty included), symbolic depths and one symbolic coordinate", **C)
def batches(ctx, impl, size, counts):
    F = sum(counts)
    z = ctx.real("z", (F,), 0, 2)
    x = ctx.real("x", (), -1, 1)
    xy = torch.tensor([[[-2.0, -2.5], [-0.2, 2.0], [1.7, -1.0]], [[-0.3, -1.0], [0.3, 1.7], [1.8, -1.2]], [[-2.0, 0.3], [0.1, 2.0], [2.5, -1.5]], [[-1.0, -2.0], [-1.2, 2.0], [1.2, 0.4]]])[:F]
    v = torch.cat([xy, z[:, None, None].expand(F, 3, 1)], -1)
    if F:
        v = torch.cat([v[:1] + torch.stack([x, x * 0, x * 0]), v[1:]])
    parts, a = [], 0
    for c in counts:
        parts.append(v[a:a + c].reshape(3 * c, 3))
        a += c
    m = Meshes(parts, [torch.arange(3 * c).reshape(c, 3) for c in counts])
    check(ctx, v, list(counts), size, call(impl, m, size, K=2), 2)
