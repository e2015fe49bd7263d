"""C41: image features sampled at vertices and points."""
import torch
from symx.harness import case
from pytorch3d.ops import vert_align
from pytorch3d.renderer.utils import ndc_grid_sample, ndc_to_grid_sample_coords
from pytorch3d.structures import Meshes, Pointclouds
from checks.common import tex2d

KW = dict(dtype="float32", feas_ms=200)
# fixed locations of the points that are not symbolic
FIX = torch.tensor([[0.25, -0.5, 3.0], [-0.75, 0.125, -1.0], [0.5, 0.625, 0.0], [-0.125, 0.75, 2.0]])


def points(ctx, sizes, free, lim=1.25):
    """points of every element; the one number `free` (element, index) is symbolic"""
    out = []
    for b, n in enumerate(sizes):
        p = FIX[:n] + 0.0625 * b
        if free[0] == b:
            z = ctx.real("p", (3,), -lim, lim)
            p = torch.stack([z if i == free[1] else p[i] for i in range(n)])
        out.append(p)
    return out


def wrap(kind, pts):
    if kind == "meshes":
        return Meshes(pts, [torch.tensor([[0, 1, min(2, len(p) - 1)]]) if len(p) > 1 else torch.zeros(0, 3, dtype=torch.int64) for p in pts])
    if kind == "clouds":
        return Pointclouds(pts)
    return torch.stack(pts)


def expected(ctx, feats, b, p, align, pad, mode):
    return torch.cat([tex2d(ctx, f[b].permute(1, 2, 0), (p[0] + 1) / 2, (1 - p[1]) / 2, align, pad, mode) for f in feats])


LAYOUT = [("tensor", (2,), (0, 1)), ("tensor", (1, 1), (1, 0)), ("meshes", (3, 1), (1, 0)), ("meshes", (2, 3), (0, 1)), ("clouds", (1, 3), (1, 2)), ("clouds", (2, 2), (0, 0)), ("clouds", (2, 0, 1), (2, 0)), ("meshes", (2, 0, 3), (0, 0))]
MAPS = {"one": [(1, 2, 3)], "tall": [(2, 3, 2)], "two": [(1, 2, 2), (2, 1, 3)], "single": [(1, 1, 1)]}


@case(params=[dict(kind=k, sizes=s, free=f, maps=m, packed=p) for k, s, f in LAYOUT for m in MAPS for p in (False, True)],
      bounds="batches of one to three tensors, meshes or clouds of up to three points (one symbolic, with free z), one or two maps of up to 3x2 texels; all features symbolic", **KW)
def align(ctx, kind, sizes, free, maps, packed):
    """bilinear interpolation per element and map, maps concatenated; packed output holds the points of every element in turn"""
    pts = points(ctx, sizes, free)
    feats = [ctx.real(f"f{i}", (len(sizes),) + s) for i, s in enumerate(MAPS[maps])]
    out = vert_align(feats if len(feats) > 1 or kind == "meshes" else feats[0], wrap(kind, pts), return_packed=packed)
    C, V = sum(s[0] for s in MAPS[maps]), max(sizes)
    want = [[expected(ctx, feats, b, p, True, "zeros", "bilinear") for p in pts[b]] for b in range(len(sizes))]
    if packed:
        ctx.true("shape", tuple(out.shape) == (sum(sizes), C))
        ctx.eq("packed", out, torch.stack([w for r in want for w in r]))
    else:
        ctx.true("shape", tuple(out.shape) == (len(sizes), V, C))
        for b, r in enumerate(want):
            for i, w in enumerate(r):
                ctx.eq("padded", out[b, i], w)


@case(params=[dict(mode=m, pad=p, corners=a, size=s) for m in ("bilinear", "nearest") for p in ("zeros", "border", "reflection") for a in (True, False) for s in ((2, 3), (3, 1))
              if s != (3, 1) or p != "reflection"], bounds="one symbolic point inside [-1.25, 1.25] of a batch of two, maps of 2x3 and 3x1 texels; exact ties of nearest sampling excluded", **KW)
def options(ctx, mode, pad, corners, size):
    pts = points(ctx, (1, 1), (1, 0))
    f = ctx.real("f", (2, 1) + size)
    out = vert_align(f, torch.stack(pts), interp_mode=mode, padding_mode=pad, align_corners=corners)
    ctx.eq("option", out[1, 0], expected(ctx, [f], 1, pts[1][0], corners, pad, mode))


@case(params=["dims", "feats", "batch", "object"], bounds="rejections", **KW)
def rejects(ctx, what):
    v, f = ctx.real("v", (2, 1, 3)), ctx.real("f", (2, 1, 2, 2))
    try:
        vert_align({"feats": f[0], "batch": f[:1]}.get(what, f), {"dims": v[0], "object": [v]}.get(what, v))
        ctx.true("rejected", False)
    except ValueError:
        ctx.true("rejected", True)


SIZES = [(2, 2), (2, 4), (4, 2), (1, 2), (2, 1)]


@case(params=[dict(size=s, corners=a, lead=l) for s in SIZES for a in (True, False) for l in ((1,), (2, 1))], bounds="images of up to 2x4 and 4x2 pixels, one symbolic location", **KW)
def ndc(ctx, size, corners, lead):
    """NDC locations: +x left, +y up, the short side spans [-1, 1]"""
    H, W = size
    s = min(H, W)
    f = ctx.real("f", (2, 2, H, W))
    q = ctx.real("q", (2,), -1, 1)
    other = torch.tensor([0.25, -0.375])
    n = lead[0] * (lead[1] if len(lead) > 1 else 1)
    g = torch.stack([other.expand(n, 2), torch.stack([q] + [other] * (n - 1))]).reshape((2,) + lead + (2,))
    out = ndc_grid_sample(f, g, align_corners=corners)
    ctx.true("shape", tuple(out.shape) == (2, 2) + lead)
    out = out.reshape(2, 2, n)
    # pixel-space fractions of the image from the left and from the bottom
    for b, i, p in [(0, 0, other), (1, 0, q)]:
        u, v = (1 - p[0] * s / W) / 2, (1 + p[1] * s / H) / 2
        ctx.eq("sample", out[b, :, i], tex2d(ctx, f[b].permute(1, 2, 0), u, v, corners, "zeros"))


@case(params=SIZES, bounds="pixel centres of images of up to 4x2 pixels", **KW)
def centres(ctx, *size):
    """sampling at the NDC centre of a pixel returns that pixel"""
    H, W = size
    s = min(H, W)
    f = ctx.real("f", (1, 2, H, W))
    ys = (H - 1.0 - 2 * torch.arange(H)) / s
    xs = (W - 1.0 - 2 * torch.arange(W)) / s
    g = torch.stack(torch.meshgrid(ys, xs, indexing="ij")[::-1], -1)[None]
    before = g.clone()
    ctx.eq("pixels", ndc_grid_sample(f, g, align_corners=False), f, tol=(1e-5, 1e-5))
    ctx.true("locations unchanged", bool((g == before).all()))
    c = ndc_to_grid_sample_coords(g, size)
    ctx.eq("coordinates", c, torch.stack(torch.meshgrid((2 * torch.arange(H) + 1.0) / H - 1, (2 * torch.arange(W) + 1.0) / W - 1, indexing="ij")[::-1], -1)[None], tol=(1e-6, 1e-6))
