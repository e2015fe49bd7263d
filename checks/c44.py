"""C44: splatter blending composes normalised 3x3 splats by occlusion layer."""
import math
import torch
from symx.harness import case
from pytorch3d.renderer.blending import BlendParams
from pytorch3d.renderer.cameras import FoVPerspectiveCameras
from pytorch3d.renderer.splatter_blend import SplatterBlender

KW = dict(dtype="float32", feas_ms=200)


class Given:
    """a camera whose projection of the given points is the given points"""
    def transform_points_screen(self, points, image_size=None, with_xyflip=True):
        assert not with_xyflip
        return points.clone()


def reference(ctx, depth, mask, colors, sigma, bg):
    """(N, H, W, 4): depth (N,H,W,K) with 1 at background slots, mask (N,H,W,K), colors (N,H,W,K,3)

    Every pixel p splats its fragments onto its 3x3 neighbourhood with a Gaussian weight.  Seen from the receiving pixel q:
    the fragment of p nearest in depth to the front of q, or the fragment of q nearest to the front of p, is on q's surface;
    fragments of p before it are in front, those after it behind.
    """
    N, H, W, K = mask.shape
    off = torch.tensor([[i, j] for i in (-1, 0, 1) for j in (-1, 0, 1)])
    gauss = torch.exp(-(off * off).sum(-1) / (2 * sigma ** 2))
    gauss = (1.05 / gauss.sum() * gauss).reshape(3, 3)
    out = []
    for n in range(N):
        for h in range(H):
            for w in range(W):
                acc = [[] for _ in range(3)]  # front, surface, behind
                Q = [depth[n, h, w, k] for k in range(K)]
                for dy in (-1, 0, 1):
                    for dx in (-1, 0, 1):
                        if not (0 <= h + dy < H and 0 <= w + dx < W) or bool(mask[n, h + dy, w + dx].all()):
                            continue
                        P = [depth[n, h + dy, w + dx, k] for k in range(K)]
                        ja, a, jb, b = 0, (P[0] - Q[0]).abs(), 0, (P[0] - Q[0]).abs()
                        for k in range(1, K):
                            d = (P[k] - Q[0]).abs()
                            if ctx.fork(d < a):
                                ja, a = k, d
                            d = (P[0] - Q[k]).abs()
                            if ctx.fork(d < b):
                                jb, b = k, d
                        layer = (-jb if ctx.fork(b < a) else ja) if K > 1 else 0
                        for k in range(K):
                            if not mask[n, h + dy, w + dx, k]:
                                acc[0 if layer > k else 1 if layer == k else 2].append((gauss[dy + 1, dx + 1], colors[n, h + dy, w + dx, k]))
                res = torch.tensor([*bg, 0.0])
                for t in (2, 1, 0):
                    if acc[t]:
                        weight = sum(g for g, _ in acc[t])
                        rgba = torch.cat([sum(g * c for g, c in acc[t]), weight[None]])
                        if ctx.fork(weight > 1.0):
                            rgba = rgba / weight
                        res = rgba + (1.0 - rgba[3]) * res
                out.append(res)
    return torch.stack(out).reshape(N, H, W, 4)


# number of fragments at each pixel (N, H, W)
LAYOUTS = {
    "row": [[[2, 2, 2]]], "column": [[[2], [2], [2]]], "row, gaps": [[[2, 0, 1]]], "column, gaps": [[[1], [2], [0]]],
    "square": [[[2, 1], [2, 2]]], "square, gaps": [[[0, 2], [1, 0]]], "two": [[[2, 1]], [[0, 2]]], "one pixel": [[[2]]],
    "wide": [[[1, 2, 0], [2, 1, 2]]], "three": [[[3, 1]]], "three down": [[[2], [3]]], "single": [[[1, 1], [0, 1]]],
}


def build(ctx, layout, moving):
    cnt = torch.tensor(LAYOUTS[layout])
    N, H, W = cnt.shape
    K = max(1, int(cnt.max()))
    mask = torch.arange(K).expand(N, H, W, K) >= cnt[..., None]
    base = torch.linspace(0.15, 0.8, N * H * W * K).reshape(N, H, W, K)
    # spread the fixed depths so that near and far surfaces alternate between pixels, sorted inside a pixel
    perm = torch.tensor([(7 * i + 3) % (N * H * W * K) if math.gcd(7, N * H * W * K) == 1 else i for i in range(N * H * W * K)])
    base = base.reshape(-1)[perm].reshape(N, H, W, K).sort(-1).values
    pts = [(n, h, w) for n in range(N) for h in range(H) for w in range(W)]
    free = [p for p in pts if int(cnt[p])][:: 2 if moving == "even" else 1][:2] if moving == "even" else [] if moving == "none" else [[p for p in pts if int(cnt[p])][0 if moving == "first" else -1]]
    rows = []
    for p in pts:
        if p in free:
            z = ctx.real("z%d%d%d" % p, (K,), 0, 0.875)
            for k in range(1, int(cnt[p])):
                ctx.assume(z[k] > z[k - 1])
        else:
            z = base[p]
        rows.append(torch.where(mask[p], torch.ones(K), z))
    return mask, torch.stack(rows).reshape(N, H, W, K), (N, H, W, K)


@case(params=[dict(layout=l, moving=m, sigma=s) for l in LAYOUTS for m, s in (("even", 0.5), ("last", 1.0), ("first", 0.5)) if m == "last" or l not in ("square", "wide", "three", "three down")],
      bounds="images of up to 2x3 pixels with up to three fragments each, twelve layouts; depths of two pixels and all colours symbolic; two kernel widths", **KW)
def splat(ctx, layout, moving, sigma):
    mask, depth, (N, H, W, K) = build(ctx, layout, moving)
    colors = ctx.real("c", (N, H, W, K, 3), 0, 1)
    xy = torch.stack(torch.meshgrid(H - 0.5 - torch.arange(H), W - 0.5 - torch.arange(W), indexing="ij")[::-1], -1)
    pts = torch.cat([xy[None, :, :, None].expand(N, H, W, K, 2), depth[..., None]], -1)
    bg = (0.25, 0.5, 1.0)
    got = SplatterBlender((N, H, W, K), "cpu")(colors, pts, Given(), mask, BlendParams(sigma=sigma, background_color=bg))
    ctx.true("shape", tuple(got.shape) == (N, H, W, 4))
    ctx.eq("splat", got, reference(ctx, depth, mask, colors, sigma, bg), tol=(1e-5, 1e-5))


@case(params=[dict(layout=l, moving="none") for l in LAYOUTS], bounds="the same; colours between 0 and 1", **KW)
def convex(ctx, layout, moving):
    """the result is between 0 and 1 when the colours are; its alpha is 0 where nothing reaches and the background shows there unchanged"""
    mask, depth, (N, H, W, K) = build(ctx, layout, moving)
    colors = ctx.real("c", (N, H, W, K, 3), 0, 1)
    xy = torch.stack(torch.meshgrid(H - 0.5 - torch.arange(H), W - 0.5 - torch.arange(W), indexing="ij")[::-1], -1)
    pts = torch.cat([xy[None, :, :, None].expand(N, H, W, K, 2), depth[..., None]], -1)
    got = SplatterBlender((N, H, W, K), "cpu")(colors, pts, Given(), mask, BlendParams(sigma=0.5, background_color=(0.25, 0.5, 1.0)))
    ctx.le("not negative", torch.full(got.shape, -1e-4), got)
    ctx.le("at most one", got, torch.full(got.shape, 1.0001))
    hit = torch.zeros(N, H, W, dtype=torch.bool)
    for n, h, w, k in (~mask).nonzero().tolist():
        hit[n, max(h - 1, 0):h + 2, max(w - 1, 0):w + 2] = True
    for n, h, w in (~hit).nonzero().tolist():
        ctx.eq("background", got[n, h, w], torch.tensor([0.25, 0.5, 1.0, 0.0]), tol=(1e-6, 0))


@case(params=[dict(layout=l, n=n) for l in ("row", "column", "square", "wide") for n in (1,)], bounds="a perspective camera given by its matrix, fixed depths, symbolic colours", **KW)
def camera(ctx, layout, n):
    """fragments at pixel centres of a real camera splat as with exact centres; the depth compared is the projected one"""
    mask, depth, (N, H, W, K) = build_fixed(layout)
    colors = ctx.real("c", (N, H, W, K, 3), 0, 1)
    cam = FoVPerspectiveCameras(K=torch.tensor([[[1.0, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1.25, -1.25], [0, 0, 1, 0]]]))
    s = min(H, W)
    z = depth
    x = ((W - 1.0 - 2 * torch.arange(W)) / s)[None, None, :, None].expand(N, H, W, K) * z
    y = ((H - 1.0 - 2 * torch.arange(H)) / s)[None, :, None, None].expand(N, H, W, K) * z
    got = SplatterBlender((N, H, W, K), "cpu")(colors, torch.stack([x, y, z], -1), cam, mask, BlendParams(sigma=0.5, background_color=(0.0, 0.5, 1.0)))
    proj = 1.25 * (z - 1.0) / z
    want = reference(ctx, torch.where(mask, torch.ones(()), proj), mask, colors, 0.5, (0.0, 0.5, 1.0))
    ctx.eq("splat", got, want, tol=(1e-4, 1e-4))


def build_fixed(layout):
    cnt = torch.tensor(LAYOUTS[layout])
    N, H, W = cnt.shape
    K = max(1, int(cnt.max()))
    mask = torch.arange(K).expand(N, H, W, K) >= cnt[..., None]
    z = 1.125 + torch.arange(N * H * W * K) / 8.0
    idx = torch.tensor([(5 * i + 2) % z.numel() if math.gcd(5, z.numel()) == 1 else i for i in range(z.numel())])
    return mask, z[idx].reshape(N, H, W, K).sort(-1).values, (N, H, W, K)
