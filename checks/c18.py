"""C18: point compositing (native kernels, autograd wrappers, compositor modules, points renderer)."""
import torch
from symx.harness import case
from pytorch3d.renderer import AlphaCompositor, FoVOrthographicCameras, NormWeightedCompositor, PointsRasterizationSettings, PointsRasterizer, PointsRenderer
from pytorch3d.renderer.compositing import alpha_composite, norm_weighted_sum, weighted_sum
from pytorch3d.structures import Pointclouds
from checks.common import all_idx, compose, compose_weights, pixel_centres

C = dict(cpp=["accum_alphacomposite", "accum_weightedsum", "accum_weightedsumnorm"], dtype="float32")
OPS = [alpha_composite, weighted_sum, norm_weighted_sum]
@case(params=[(op, s) for op in OPS for s in ((1, 3, 1, 1), (2, 2, 1, 2), (1, 2, 2, 1), (2, 1, 2, 3))], bounds="(operator, (N, K, H, W)): every index pattern, all alphas (also outside [0,1]) and features symbolic", **C)
def formula(ctx, op, shape):
    idx = all_idx(ctx, shape, 2)
    alphas = ctx.real("a", shape, -2, 2)
    feats = ctx.real("f", (2, 2), -5, 5)
    ctx.eq("composited image", op(idx, alphas, feats), compose(op, idx, alphas, feats))


@case(params=[(op, K) for op in OPS for K in (1, 2, 3)], bounds="alphas in [0,1], every index pattern of K slots: weights are read off with unit features", **C)
def weights_sum(ctx, op, K):
    idx = all_idx(ctx, (1, K, 1, 1), K)
    alphas = ctx.real("a", (1, K, 1, 1), 0, 1)
    out = op(idx, alphas, torch.cat([torch.eye(K), torch.ones(1, K)]))[0, :, 0, 0]
    ctx.le("weights are not negative", torch.zeros(K), out[:K])
    ctx.eq("the weights add up", out[:K].sum(), out[K])
    if op is not weighted_sum:
        ctx.le("weights sum to at most one", out[K], ctx.const(1.0))
    feats = ctx.real("f", (1, K), -5, 5)
    if op is not weighted_sum:
        img = op(idx, alphas, feats)[0, 0, 0, 0]
        hi = torch.clamp(feats.max(), min=0)
        lo = torch.clamp(feats.min(), max=0)
        ctx.le("output in the hull of the features and zero", lo, img)
        ctx.le("output in the hull of the features and zero", img, hi)


BG = {"list": lambda ctx: [0.25, 0.5, 0.75], "tuple": lambda ctx: (0.25, 0.5, 0.75), "tensor": lambda ctx: ctx.real("bg", (3,), 0, 1), "none": lambda ctx: None, "scalar": lambda ctx: ctx.real("bg", (), 0, 1)}


@case(params=[dict(mod=m, bg=b, ch=c, late=l) for m in (AlphaCompositor, NormWeightedCompositor) for b in BG for c in (3, 4) for l in (False, True) if not (b == "none" and l)],
      bounds="compositor modules with every kind of background colour, 3 and 4 channels, background given at construction or call", **C)
def background(ctx, mod, bg, ch, late):
    shape = (2, 2, 1, 2)
    idx = all_idx(ctx, shape, 2)
    idx[:, 0] = torch.where((idx[:, 0] < 0) & (idx[:, 1] >= 0), idx[:, 1], idx[:, 0])  # slots fill from the front
    idx[:, 1] = torch.where(idx[:, 1] == idx[:, 0], torch.full_like(idx[:, 1], -1), idx[:, 1])
    alphas = ctx.real("a", shape, 0, 1)
    feats = ctx.real("f", (ch, 2), 0, 1)
    col = BG[bg](ctx)
    out = mod()(idx, alphas, feats, background_color=col) if late else mod(background_color=col)(idx, alphas, feats)
    ref = compose(alpha_composite if mod is AlphaCompositor else norm_weighted_sum, idx, alphas, feats)
    ctx.true("shape", tuple(out.shape) == tuple(ref.shape))
    for n in range(2):
        for x in range(2):
            if int(idx[n, 0, 0, x]) < 0 and col is not None:
                c = torch.as_tensor(col)
                c = c.expand(ch) if c.dim() == 0 else (torch.cat([c, torch.ones(1)]) if ch == 4 else c)
                ctx.eq("uncovered pixel is the background colour", out[n, :, 0, x], c)
            else:
                ctx.eq("covered pixel keeps its composited value", out[n, :, 0, x], ref[n, :, 0, x])


@case(params=[(m, s, n) for m in (AlphaCompositor, NormWeightedCompositor) for s in ((1, 1), (1, 2), (2, 1)) for n in ((2,), (1, 0, 2))], cpp=C["cpp"] + ["rasterize_points"], dtype="float32",
      bounds="complete points renderer with an orthographic camera: symbolic depths and one symbolic coordinate, batches with empty clouds")
def renderer(ctx, mod, size, counts):
    P = sum(counts)
    x = ctx.real("x", (), -1, 1)
    z = ctx.real("z", (P,), 2, 5)
    xy = torch.tensor([[0.25, 0.25], [0.5, -0.25], [-0.5, 0.125]])[:P]
    xy = torch.cat([xy[:1] + torch.stack([x, x * 0])[None], xy[1:]])
    pts = torch.cat([xy, z[:, None]], 1)
    feats = ctx.real("f", (P, 3), 0, 1)
    pl, fl, a = [], [], 0
    for c in counts:
        pl.append(pts[a:a + c])
        fl.append(feats[a:a + c])
        a += c
    N, K, r = len(counts), 2, 0.75
    cams = FoVOrthographicCameras(znear=1.0, zfar=10.0, max_y=1.0, min_y=-1.0, max_x=1.0, min_x=-1.0)
    ren = PointsRenderer(PointsRasterizer(cams, PointsRasterizationSettings(image_size=size, radius=r, points_per_pixel=K, bin_size=0)), mod(background_color=(0.25, 0.5, 0.75)))
    img = ren(Pointclouds(pl, features=fl))
    H, W = size
    ctx.true("shape", tuple(img.shape) == (N, H, W, 3))
    cen = pixel_centres(H, W)
    a = 0
    for n, c in enumerate(counts):
        for i in range(H):
            for j in range(W):
                ds = [((xy[a + k] - cen[i, j].float()) ** 2).sum() for k in range(c)]
                ids = [a + k for k in range(c) if ctx.fork(ds[k] < r * r)]
                # order by depth
                for u in range(len(ids)):
                    for v in range(u + 1, len(ids)):
                        if ctx.fork(z[ids[v]] < z[ids[u]]):
                            ids[u], ids[v] = ids[v], ids[u]
                if not ids:
                    ctx.eq("uncovered pixel is the background", img[n, i, j], ctx.const([0.25, 0.5, 0.75]))
                    continue
                if len(ids) > 1:
                    ctx.assume(z[ids[0]] != z[ids[1]])
                al = [1 - ds[k - a] / (r * r) for k in ids]
                w = compose_weights(alpha_composite if mod is AlphaCompositor else norm_weighted_sum, al, ids)
                ctx.eq("covered pixel", img[n, i, j], sum(wk * feats[k] for wk, k in zip(w, ids)))
        a += c
