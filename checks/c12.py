"""C12: point rasterizer (native and Python)."""
import torch
from symx.harness import case
from pytorch3d.renderer.points.rasterize_points import rasterize_points, rasterize_points_python
from pytorch3d.structures import Pointclouds
from checks.common import pixel_centres

CPP = ["rasterize_points"]
C = dict(cpp=CPP, dtype="float32", feas_ms=500)


def check(ctx, pts, sizes, size, rad, K, out):
    """pts (P,3) packed, sizes per cloud, rad (P,) packed"""
    H, W = size
    idx, zbuf, dists = out
    ctx.true("shapes", all(tuple(t.shape) == (len(sizes), H, W, K) for t in out))
    centres = pixel_centres(H, W)
    a = 0
    for n, s in enumerate(sizes):
        for y in range(H):
            for x in range(W):
                got = [int(i) for i in idx[n, y, x]]
                c = sum(i >= 0 for i in got)
                ctx.true("slots fill from the front, indices distinct and of this cloud",
                         all(a <= i < a + s for i in got[:c]) and len(set(got[:c])) == c and all(i == -1 for i in got[c:]))
                ctx.eq("empty slots hold -1 (depth)", zbuf[n, y, x, c:], -torch.ones(K - c))
                ctx.eq("empty slots hold -1 (distance)", dists[n, y, x, c:], -torch.ones(K - c))
                d2 = [(pts[p, 0] - centres[y, x, 0].item()) ** 2 + (pts[p, 1] - centres[y, x, 1].item()) ** 2 for p in range(a, a + s)]
                for k, i in enumerate(got[:c]):
                    ctx.eq("depth of the point", zbuf[n, y, x, k], pts[i, 2])
                    ctx.eq("squared distance to the pixel centre", dists[n, y, x, k], d2[i - a])
                    ctx.true("point covers the pixel and is not behind the camera", (d2[i - a] < rad[i] ** 2) & (pts[i, 2] >= 0))
                    if k:
                        ctx.le("depth order", zbuf[n, y, x, k - 1], zbuf[n, y, x, k])
                for i in range(a, a + s):
                    if i not in got[:c]:
                        ok = (d2[i - a] >= rad[i] ** 2) | (pts[i, 2] < 0)
                        if c == K:
                            ok = ok | (pts[i, 2] >= pts[got[K - 1], 2])
                        ctx.true("no nearer covering point is missed", ok)
        a += s


IMPL = {"native": rasterize_points, "python": rasterize_points_python}


def call(name, cloud, size, rad, K):
    if name == "python":
        return rasterize_points_python(cloud, size, rad, K)
    return rasterize_points(cloud, size, rad, K, bin_size=0)


@case(params=[(i, s) for i in IMPL for s in ((1, 1), (1, 2), (2, 1), (2, 2))], bounds="one point with symbolic position and radius, images up to 2x2", **C)
def one_point(ctx, impl, size):
    p = ctx.real("p", (1, 3), -3, 3)
    r = ctx.real("r", (1, 1), 0, 2)
    check(ctx, p, [1], size, r[0], 2, call(impl, Pointclouds(p[None]), size, r, 2))


@case(params=[(i, s, k) for i in IMPL for s in ((1, 3), (3, 1), (2, 3), (3, 2), (4, 2), (3, 3)) for k in range(2)], bounds="one point moving along an axis, larger non-square images", **C)
def one_point_line(ctx, impl, size, k):
    x, z = ctx.real("p", (), -3, 3), ctx.real("z", (), -1, 1)
    p = torch.stack([x, torch.full((), 0.1), z] if k == 0 else [torch.full((), -0.3), x, z])[None]
    check(ctx, p, [1], size, torch.tensor([0.7]), 1, call(impl, Pointclouds(p[None]), size, 0.7, 1))


@case(params=[(i, K) for i in IMPL for K in (1, 2, 4)], bounds="three points in one pixel, symbolic depths", **C)
def depth_order(ctx, impl, K):
    z = ctx.real("z", (3,), -3, 3)
    p = torch.cat([torch.tensor([[0.1, 0.1], [0.0, 0.3], [-0.2, 0.2]]), z[:, None]], 1)
    check(ctx, p, [3], (1, 1), torch.full((3,), 0.75), K, call(impl, Pointclouds(p[None]), 1, 0.75, K))


@case(params=[(i, K) for i in IMPL for K in (1, 2)], bounds="two points, everything symbolic, one pixel", **C)
def two_points(ctx, impl, K):
    p, r = ctx.real("p", (2, 3), -3, 3), ctx.real("r", (1, 2), 0, 2)
    check(ctx, p, [2], (1, 1), r[0], K, call(impl, Pointclouds(p[None]), (1, 1), r, K))


@case(params=[(i, s) for i in IMPL for s in ((1, 2), (2, 1), (2, 0, 1), (0, 2))], bounds="batches of clouds of different sizes (empty included), per-point radii, symbolic depth and radius, 1x2 image", **C)
def batches(ctx, impl, sizes):
    P, M = sum(sizes), max(sizes)
    z = ctx.real("z", (P,), -2, 2)
    x = ctx.real("x", (1,), -2, 2)
    xy = torch.tensor([[0.9, 0.1], [1.1, 0.0], [-0.8, 0.2]])[:P]
    p = torch.cat([torch.cat([x[:, None], xy[:1, 1:]], 1), xy[1:]], 0)
    p = torch.cat([p, z[:, None]], 1)
    parts, rads, packed, a = [], [], [], 0
    for s in sizes:
        parts.append(p[a:a + s])
        row = [0.3 + 0.2 * (a + i) for i in range(s)]
        packed += row
        rads.append(row + [0.01] * (M - s))
        a += s
    out = call(impl, Pointclouds(parts), (1, 2), torch.tensor(rads), 2)
    check(ctx, p, sizes, (1, 2), torch.tensor(packed), 2, out)


@case(params=[(i,) for i in IMPL], bounds="scalar and per-point radii agree", **C)
def radius_forms(ctx, impl):
    z = ctx.real("z", (2,), 0, 2)
    p = torch.cat([torch.tensor([[0.1, 0.1], [0.0, 0.6]]), z[:, None]], 1)
    a = call(impl, Pointclouds(p[None]), (1, 1), 0.5, 2)
    for r in (torch.full((1, 2), 0.5), [[0.5, 0.5]], torch.full((2,), 0.5)):
        b = call(impl, Pointclouds(p[None]), (1, 1), r, 2)
        for u, v in zip(a, b):
            ctx.eq("same result", v, u)
