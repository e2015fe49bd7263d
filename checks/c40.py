"""C40: Implicitron's ray marchers, ray refinement and masked metrics equal their definitions."""
import math
from unittest import mock
import torch
from symx.harness import case
from pytorch3d.implicitron.models.renderer import ray_point_refiner as rpr
from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
from pytorch3d.implicitron.models.renderer.raymarcher import CumsumRaymarcher, EmissionAbsorptionRaymarcher
from pytorch3d.implicitron.tools import metric_utils as mu
from pytorch3d.implicitron.tools.config import expand_args_fields

C = dict(dtype="float32")
KINDS = dict(ea=EmissionAbsorptionRaymarcher, cumsum=CumsumRaymarcher)
OPTIONS = [
    dict(), dict(surface_thickness=2), dict(surface_thickness=3), dict(density_relu=False), dict(bg_color=(1.0,)), dict(bg_color=(0.25, -0.5)),
    dict(bg_color=(0.5, 2.0), blend_output=True), dict(blend_output=True, surface_thickness=2), dict(replicate_last_interval=True),
    dict(background_opacity=0.75), dict(background_opacity=2.0, bg_color=(1.0, 0.5), density_relu=False),
]


@case(params=[(k, i, s, dl) for k in KINDS for i in range(len(OPTIONS)) for s, dl in (((3,), False), ((2, 3), True))]
      + [("ea", 0, (2, 1, 3), False), ("cumsum", 6, (1, 2, 4), False), ("ea", 6, (4,), True)],
      bounds="(ray marcher, options, rays and points per ray, ray deltas given): densities of both signs (not negative without the ReLU), lengths, features symbolic", **C)
def ray_marching(ctx, kind, option, shape, given):
    opt, n = OPTIONS[option], shape[-1]
    marcher = expand_args_fields(KINDS[kind])(**opt)
    d = ctx.real("density", shape + (1,), -2 if opt.get("density_relu", True) else 0, 3)
    f = ctx.real("feature", shape + (2,), -3, 3)
    z = torch.cumsum(ctx.real("step", shape, 0, 2), -1)
    deltas = ctx.real("delta", shape, 0, 2) if given else None
    out = marcher(d, f, {}, z, ray_deltas=deltas)

    # the definition, one point after the other
    last = opt.get("background_opacity", 1e10 if kind == "ea" else 0.0)
    sig = d[..., 0].clamp(min=0) if opt.get("density_relu", True) else d[..., 0]
    mass = []
    for k in range(n):
        if given:
            step = deltas[..., k]
        elif k + 1 < n:
            step = z[..., k + 1] - z[..., k]
        else:
            step = z[..., k] - z[..., k - 1] if opt.get("replicate_last_interval") else torch.full(shape[:-1], last)
        mass.append(step * sig[..., k])
    total = [sum(mass[: k + 1]) for k in range(n)]
    cap = (lambda x: 1.0 - torch.exp(-x)) if kind == "ea" else (lambda x: x.clamp(max=1.0))
    thick = opt.get("surface_thickness", 1)
    weights = []
    for k in range(n):
        through = 1.0 - cap(total[k - thick]) if k >= thick else torch.ones(shape[:-1])
        weights.append(cap(mass[k]) * through if kind == "ea" else torch.minimum(cap(mass[k]), through))
    opacity = cap(total[-1])
    bg = torch.tensor(opt.get("bg_color", (0.0,))).expand(2)
    colour = sum(weights[k][..., None] * f[..., k, :] for k in range(n))
    if opt.get("blend_output"):
        colour = colour * opacity[..., None]
    ctx.true("shapes", tuple(out.features.shape) == shape[:-1] + (2,) and tuple(out.depths.shape) == shape[:-1] + (1,)
             and tuple(out.masks.shape) == shape[:-1] + (1,) and tuple(out.weights.shape) == shape)
    ctx.eq("weights", out.weights, torch.stack(weights, -1))
    ctx.eq("opacity", out.masks[..., 0], opacity)
    ctx.eq("depth", out.depths[..., 0], sum(weights[k] * z[..., k] for k in range(n)))
    ctx.eq("features", out.features, colour + (1 - opacity)[..., None] * bg)


@case(params=[(a, p, b) for a in (True, False) for p in (1, 2) for b in (False, True)],
      bounds="(input samples kept, new samples per ray, bins given): one or two rays of four lengths, symbolic", **C)
def refinement(ctx, keep, pts, with_bins):
    """sample_pdf (decided by C28) stands in as any numbers between the first and the last bin"""
    rays = 1 if keep and pts == 2 else 2
    refiner = expand_args_fields(rpr.RayPointRefiner)(n_pts_per_ray=pts, random_sampling=True, add_input_samples=keep)
    z = torch.cumsum(ctx.real("step", (1, rays, 4), 0, 2), -1)
    bins = torch.cumsum(ctx.real("binstep", (1, rays, 4), 0, 2), -1) if with_bins else None
    src = bins if with_bins else z
    w = ctx.real("w", (1, rays, 3 if with_bins else 4), 0, 1)
    m = pts + 1 if with_bins else pts
    u = ctx.real("u", (rays, m), 0, 1)
    seen = {}

    def stand_in(b, weights, n, det=False, eps=1e-5, **kw):
        seen.update(bins=b, weights=weights, n=n, det=det)
        return b[..., :1] + u * (b[..., -1:] - b[..., :1])

    bundle = ImplicitronRayBundle(origins=torch.zeros(1, rays, 3), directions=torch.ones(1, rays, 3),
                                  lengths=None if with_bins else z, xys=torch.zeros(1, rays, 2), bins=bins)
    with mock.patch.object(rpr, "sample_pdf", stand_in):
        out = refiner(bundle, w)
    ctx.true("one draw per requested sample, at random", seen["n"] == m and not seen["det"])
    mid = src[0] if with_bins else (z[0, :, 1:] + z[0, :, :-1]) / 2
    ctx.eq("bins", seen["bins"], mid)
    ctx.eq("weights", seen["weights"], w[0] if with_bins else w[0, :, 1:-1])
    new = out.bins if with_bins else out.lengths
    ctx.true("samples per ray", tuple(new.shape) == (1, rays, m + (4 if keep else 0)))
    ctx.le("sorted", new[..., :-1], new[..., 1:])
    ctx.le("not before the first input", src[..., :1].expand(new.shape), new)
    ctx.le("not behind the last input", new, src[..., -1:].expand(new.shape))
    want = mid[:, :1] + u * (mid[:, -1:] - mid[:, :1])
    ctx.eq("all samples are kept", new[0].sum(-1), want.sum(-1) + (src[0].sum(-1) if keep else 0))
    ctx.true("the input bundle is unchanged", (bundle.bins if with_bins else bundle.lengths) is src)


@case(params=[(c, m, s) for c in (0, 1) for m in (False, True) for s in (False, True)],
      bounds="(cropped border, mask given, best scale): two images of 2x1 valid pixels, symbolic depths and masks", **C)
def depth_error(ctx, crop, masked, scaled):
    size = (2, 1, 2 + 2 * crop, 1 + 2 * crop)
    p, g = ctx.real("pred", size, 0.5, 4), ctx.real("gt", size, -1, 4)
    mask = ctx.real("mask", size, 0, 1) if masked else None
    mse, ab = mu.eval_depth(p, g, crop=crop, mask=mask, get_best_scale=scaled)
    for b in range(2):
        num = sq = ad = xy = xx = torch.zeros(())
        pix = [(i + crop, j + crop) for i in range(2) for j in range(1)]
        ok = []
        for i, j in pix:
            v = g[b, 0, i, j] > 0
            ok.append((v & (mask[b, 0, i, j] > 0.5) if masked else v).float())
        for o, (i, j) in zip(ok, pix):
            num, xy, xx = num + o, xy + o * p[b, 0, i, j] * g[b, 0, i, j], xx + o * p[b, 0, i, j] ** 2
        scale = xy / xx.clamp(min=0.125) if scaled else 1.0  # 0.25 at least when any pixel is valid
        for o, (i, j) in zip(ok, pix):
            e = g[b, 0, i, j] - scale * p[b, 0, i, j]
            sq, ad = sq + o * e ** 2, ad + o * e.abs()
        ctx.eq("mean squared error", mse[b], sq / num.clamp(min=1))
        ctx.eq("mean absolute error", ab[b], ad / num.clamp(min=1))


@case(params=[(m,) for m in ("none", "full", "one channel")], bounds="(mask): two images of two channels, 1x2 pixels, symbolic values and binary masks", **C)
def colour_error(ctx, kind):
    x, y = ctx.real("x", (2, 2, 1, 2), 0, 1), ctx.real("y", (2, 2, 1, 2), 0, 1)
    mask = None if kind == "none" else (ctx.real("m", (2, 2 if kind == "full" else 1, 1, 2), 0, 1) > 0.5).float()
    full = torch.ones(2, 2, 1, 2) if mask is None else mask.expand(2, 2, 1, 2)
    ctx.eq("masked mean squared error", mu.calc_mse(x, y, mask), ((x - y) ** 2 * full).sum() / full.sum().clamp(min=1))
    if kind != "full":
        m1 = full[:, :1]
        want = ((x - y).abs() * m1).sum((1, 2, 3)) / m1.sum((1, 2, 3)).clamp(min=1)
        ctx.eq("masked absolute error per image", mu.rgb_l1(x, y, mask), want)
