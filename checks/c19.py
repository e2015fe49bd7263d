"""C19: blending the fragments of a pixel with the background."""
import torch
from symx.harness import case
from pytorch3d.renderer.blending import BlendParams, hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend
from pytorch3d.renderer.mesh.rasterizer import Fragments
from checks.common import all_idx

C = dict(cpp=["sigmoid_alpha_blend"], dtype="float32")


def inputs(ctx, shape, symbolic_empty=True):
    """fragments with every pattern of empty slots; colours of empty slots are arbitrary, their depth and distance the rasterizer's -1"""
    N, H, W, K = shape
    p2f = all_idx(ctx, (N, K, H, W), 2).permute(0, 2, 3, 1).contiguous()
    empty = p2f < 0
    d, z = ctx.real("d", shape, -2, 2), ctx.real("z", shape, 1, 10)
    minus = -torch.ones(shape)
    d, z = torch.where(empty, minus, d), torch.where(empty, minus, z)
    colors = ctx.real("c", shape + (3,), 0, 1)
    return colors, Fragments(pix_to_face=p2f, zbuf=z, bary_coords=None, dists=d)


BG = {"default": None, "list": [0.25, 0.5, 0.75], "tuple": (0.0, 1.0, 0.5), "tensor": "t"}


def params(ctx, bg, **kw):
    col = BG[bg]
    if col is None:
        return BlendParams(**kw), torch.ones(3)
    if col == "t":
        t = ctx.real("bg", (3,), 0, 1)
        return BlendParams(background_color=t, **kw), t
    return BlendParams(background_color=col, **kw), torch.tensor(list(col))


def pixels(shape):
    return [(n, y, x) for n in range(shape[0]) for y in range(shape[1]) for x in range(shape[2])]


@case(params=[(s, b) for s in ((1, 1, 1, 2), (2, 1, 2, 1), (1, 2, 2, 2), (1, 1, 3, 3)) for b in BG], bounds="((N, H, W, K), background): every pattern of empty slots, all colours symbolic", **C)
def hard(ctx, shape, bg):
    colors, fr = inputs(ctx, shape)
    prm, col = params(ctx, bg)
    out = hard_rgb_blend(colors, fr, prm)
    ctx.true("shape", tuple(out.shape) == shape[:3] + (4,))
    for p in pixels(shape):
        empty = int(fr.pix_to_face[p][0]) < 0
        ctx.eq("colour of the nearest face or the background", out[p][:3], col if empty else colors[p][0])
        ctx.eq("alpha", out[p][3], ctx.const(0.0 if empty else 1.0))


def alpha(fr, p, sigma):
    t = 1.0
    for k in range(fr.pix_to_face.shape[-1]):
        if int(fr.pix_to_face[p][k]) >= 0:
            t = t * (1 - 1 / (1 + torch.exp(fr.dists[p][k] / sigma)))
    return 1 - t


@case(params=[(s, g) for s in ((1, 1, 1, 3), (2, 1, 2, 2), (1, 2, 2, 1)) for g in (0.5, 0.0625)], bounds="((N, H, W, K), sigma): every pattern of empty slots, symbolic distances", **C)
def sigmoid(ctx, shape, sigma):
    colors, fr = inputs(ctx, shape)
    out = sigmoid_alpha_blend(colors, fr, BlendParams(sigma=sigma))
    ctx.true("shape", tuple(out.shape) == shape[:3] + (4,))
    for p in pixels(shape):
        ctx.eq("colour of the nearest face", out[p][:3], colors[p][0])
        if all(int(i) < 0 for i in fr.pix_to_face[p]):
            ctx.eq("no face: alpha is zero", out[p][3], ctx.const(0.0))
        else:
            ctx.eq("alpha is one minus the product of the transparencies", out[p][3], alpha(fr, p, sigma))
            ctx.le("alpha is not negative", ctx.const(0.0), out[p][3])
            ctx.le("alpha is at most one", out[p][3], ctx.const(1.0))


NF = {"default": lambda ctx, n: (1.0, 100.0), "float": lambda ctx, n: (0.5, 20.0), "tensor": lambda ctx, n: (torch.arange(1, n + 1) * 0.5, torch.arange(1, n + 1) * 15.0), "symbolic": lambda ctx, n: (ctx.real("znear", (n,), 0.5, 1), ctx.real("zfar", (n,), 11, 20))}


@case(params=[(s, b, r) for s, b, r in (((1, 1, 1, 1), "default", "default"), ((1, 1, 1, 2), "tensor", "float"), ((2, 1, 1, 2), "list", "tensor"), ((1, 1, 1, 3), "tuple", "default"), ((2, 1, 2, 1), "tensor", "tensor"), ((1, 2, 1, 2), "list", "float"), ((2, 1, 1, 1), "tensor", "symbolic"))],
      bounds="((N, H, W, K), background, kind of depth range): every pattern of empty slots, symbolic distances, depths and colours, sigma 0.5, gamma 0.25 (the floor of the background weight is not reached)", tol=(1e-3, 1e-4), **C)
def softmax(ctx, shape, bg, rng):
    colors, fr = inputs(ctx, shape)
    sigma, gamma = 0.5, 0.25
    prm, col = params(ctx, bg, sigma=sigma, gamma=gamma)
    near, far = NF[rng](ctx, shape[0])
    top, full = {}, {}
    for p in pixels(shape):
        zn, zf = (near[p[0]], far[p[0]]) if torch.is_tensor(near) else (near, far)
        full[p] = [k for k in range(shape[3]) if int(fr.pix_to_face[p][k]) >= 0]
        top[p] = None
        for k in full[p]:
            if top[p] is None or ctx.fork(fr.zbuf[p][k] < fr.zbuf[p][top[p]]):
                top[p] = k
        if full[p]:
            ctx.assume(torch.exp((1e-10 - (zf - fr.zbuf[p][top[p]]) / (zf - zn)) / gamma) > 1e-10)
    out = softmax_rgb_blend(colors, fr, prm) if rng == "default" else softmax_rgb_blend(colors, fr, prm, near, far)
    ctx.true("shape", tuple(out.shape) == shape[:3] + (4,))
    for p in pixels(shape):
        zn, zf = (near[p[0]], far[p[0]]) if torch.is_tensor(near) else (near, far)
        ks = full[p]
        ctx.eq("alpha is one minus the product of the transparencies", out[p][3], alpha(fr, p, sigma) if ks else ctx.const(0.0))
        if not ks:
            ctx.eq("no face: the background", out[p][:3], col)
            continue
        zi = [(zf - fr.zbuf[p][k]) / (zf - zn) for k in ks]
        zt = (zf - fr.zbuf[p][top[p]]) / (zf - zn)
        w = [torch.exp((v - zt) / gamma) / (1 + torch.exp(fr.dists[p][k] / sigma)) for k, v in zip(ks, zi)]
        wb = torch.exp((1e-10 - zt) / gamma)
        num = wb * col
        tot = wb
        for k, x in zip(ks, w):
            num = num + x * colors[p][k]
            tot = tot + x
        ctx.eq("softmax weighted colour", out[p][:3], num / tot)


@case(params=[(K, g) for K in (1, 2, 3) for g in (0.25, 1e-4) if K < 3 or g < 0.1], bounds="weights read off with unit colours; K slots, every pattern of empty slots, gamma including the default", **C)
def softmax_weights(ctx, K, gamma):
    shape = (1, 1, 1, K)
    _, fr = inputs(ctx, shape)
    p = (0, 0, 0)
    ks = [k for k in range(K) if int(fr.pix_to_face[p][k]) >= 0]
    eye = torch.eye(3)
    w = {}
    for k in range(K):
        colors = torch.zeros(shape + (3,))
        colors[0, 0, 0, k, 0] = 1.0
        out = softmax_rgb_blend(colors, fr, BlendParams(sigma=0.5, gamma=gamma, background_color=(0.0, 0.0, 1.0)))[p]
        w[k] = out[0]
        ctx.le("weights are not negative", ctx.const(0.0), out[0])
        if k not in ks:
            ctx.eq("empty slots do not contribute", out[0], ctx.const(0.0))
        ctx.le("background weight is not negative", ctx.const(0.0), out[2])
    ctx.eq("weights sum to one", sum(w.values()) + out[2], ctx.const(1.0))
    ctx.le("alpha is not negative", ctx.const(0.0), out[3])
    ctx.le("alpha is at most one", out[3], ctx.const(1.0))
    for a in ks:
        for b in ks:
            if a != b and gamma == 0.25:
                za, zb, da, db = fr.zbuf[p][a], fr.zbuf[p][b], fr.dists[p][a], fr.dists[p][b]
                if ctx.fork((za <= zb) & (da <= db)):
                    ctx.le("a nearer face that covers the pixel at least as well weighs at least as much", w[b], w[a])
