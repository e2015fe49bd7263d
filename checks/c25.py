"""C25: splatting points into volumes (native kernel, Python reference, Volumes wrapper)."""
from contextlib import contextmanager, nullcontext

import torch
from symx.harness import case
from pytorch3d.ops import add_pointclouds_to_volumes, add_points_features_to_volume_densities_features
from pytorch3d.structures import Pointclouds, Volumes
from checks.common import location, votes

C = dict(cpp=["points_to_volumes_forward"], dtype="float32")


def no_ties(ctx, loc, mode):
    """halfway between two voxels both are nearest"""
    if mode == "nearest":
        for k in range(-3, 4):
            ctx.assume(loc != k + 0.5)


def expected(pts, feats, dens, vf, mask, grids, mode, align, min_weight, rescale):
    D, F = [], []
    for n in range(pts.shape[0]):
        loc = location(pts[n], grids[n], align)
        w = votes(loc, grids[n], mode, dens.shape[2:]) * mask[n][:, None, None, None]
        d = dens[n] + w.sum(0)[None]
        f = vf[n] + (w[:, None] * feats[n][:, :, None, None, None]).sum(0)
        if rescale:
            lo = min_weight if mode == "trilinear" else 1.0
            f = f / torch.where(d < lo, torch.full_like(d, lo), d)
        D.append(d)
        F.append(f)
    return torch.stack(F), torch.stack(D)


IM = [(py, m, a) for py in (False, True) for m in ("trilinear", "nearest") for a in (True, False)]


@contextmanager
def fixed_random(ctx, n):
    """the Python version parks votes outside the grid at a random voxel with weight zero"""
    keep = torch.Tensor.random_
    k = ctx.pick("parking voxel", [0, n - 1])
    torch.Tensor.random_ = lambda self, *a: self.fill_(k)
    try:
        yield
    finally:
        torch.Tensor.random_ = keep


def run(ctx, py, mode, align, pts, feats, dens, vf, mask, grids, min_weight=1e-4, rescale=True):
    G = [tuple(dens.shape[2:])] * pts.shape[0] if grids is None else grids
    for n in range(pts.shape[0]):
        no_ties(ctx, location(pts[n], G[n], align), mode)
    kw = dict(mode=mode, align_corners=align, _python=py, min_weight=min_weight)
    kw["rescale_features"] = rescale
    m = None if mask is None else torch.tensor(mask, dtype=torch.float32)
    with fixed_random(ctx, int(dens[0].numel())) if py else nullcontext():
        of, od = add_points_features_to_volume_densities_features(pts, feats, dens.clone(), None if vf is None else vf.clone(), mask=m, grid_sizes=None if grids is None else torch.tensor(grids), **kw)
    z = torch.zeros((pts.shape[0], feats.shape[2]) + tuple(dens.shape[2:])) if vf is None else vf
    rf, rd = expected(pts, feats, dens, z, torch.ones(pts.shape[:2]) if m is None else m, G, mode, align, min_weight, rescale)
    ctx.eq("densities gain exactly the point weights", od, rd)
    ctx.eq("features are the weighted sums" if not rescale else "features are the weighted averages", of, rf)


@case(params=[dict(py=p, mode=m, align=a, grid=g, axis=k) for p, m, a in IM for g in ((2, 2, 2), (1, 2, 3), (3, 1, 2)) for k in range(3)], bounds="one point moving freely along one axis (also outside the grid) with fixed other coordinates, small grids; initial content symbolic", **C)
def one_axis(ctx, py, mode, align, grid, axis):
    t = ctx.real("t", (), -2, 2)
    fix = [0.25, -0.5, 0.125]
    p = torch.stack([t if a == axis else ctx.const(fix[a]) for a in range(3)])[None, None]
    f = ctx.real("f", (1, 1, 2), -5, 5)
    d0 = ctx.real("d", (1, 1, 1, 1, 1), 0, 3).expand(1, 1, *grid).contiguous()
    f0 = ctx.real("v", (1, 2, 1, 1, 1), -3, 3).expand(1, 2, *grid).contiguous()
    run(ctx, py, mode, align, p, f, d0, f0, None, None, rescale=False)


@case(params=[dict(py=p, mode=m, align=a, _case=dict(tier="thorough" if p and (m == "nearest" or not a) else "quick")) for p, m, a in IM], bounds="one point anywhere in or around a 2x2x2 grid", **C)
def anywhere(ctx, py, mode, align):
    p = ctx.real("p", (1, 1, 3), -1.5, 1.5)
    f = ctx.const([[[2.0]]])
    run(ctx, py, mode, align, p, f, torch.zeros(1, 1, 2, 2, 2), torch.zeros(1, 1, 2, 2, 2), None, None)


@case(params=[dict(align=a, k=k) for a in (True, False) for k in range(3)], bounds="weights of a point inside the grid: eight non-negative votes summing to one", **C)
def partition(ctx, align, k):
    t = ctx.real("t", (), -1, 1)
    v = [ctx.const(0.25), ctx.const(-0.125), ctx.const(0.0)]
    v[k] = t
    p = torch.stack(v)[None, None]
    g = (3, 3, 3)
    if not align:  # every coordinate at least half a voxel from the border
        ctx.assume((t >= -2 / 3) & (t <= 2 / 3))
    _, od = add_points_features_to_volume_densities_features(p, torch.ones(1, 1, 1), torch.zeros(1, 1, *g), torch.zeros(1, 1, *g), mode="trilinear", align_corners=align)
    ctx.le("votes are not negative", torch.zeros(27), od.reshape(-1))
    ctx.eq("votes sum to one", od.sum(), ctx.const(1.0))


@case(params=[dict(py=p, mode=m, align=a, mask=k) for p, m, a in IM for k in (0, 1, 2)], bounds="several points with masks sharing voxels, symbolic features, one symbolic coordinate; batches with different grid sizes inside a padded volume", **C)
def several(ctx, py, mode, align, mask):
    t = ctx.real("t", (), -1, 1)
    p = torch.tensor([[[0.0, 0.1, 0.2], [0.3, -0.2, 0.1], [-1.4, 0.05, 0.03]], [[0.3, 0.3, -0.3], [-0.6, 0.3, 0.7], [0.1, 0.1, 0.1]]])
    p = torch.cat([torch.cat([(p[0, :1, :1] + t), p[0, :1, 1:]], 1)[None], p[:1, 1:]], 1)
    p = torch.cat([p, torch.tensor([[[0.3, 0.3, -0.3], [-0.6, 0.3, 0.7], [0.1, 0.1, 0.1]]])])
    f = ctx.real("f", (2, 3, 1), -5, 5)
    m = [None, [[1, 0, 1], [0, 1, 1]], [[0, 0, 0], [1, 1, 1]]][mask]
    grids = [(2, 2, 3), (2, 1, 2)] if mask else None
    run(ctx, py, mode, align, p, f, ctx.real("d", (2, 1, 1, 1, 1), 0, 1).expand(2, 1, 2, 2, 3).contiguous(), torch.zeros(2, 1, 2, 2, 3), m, grids, min_weight=0.25)


@case(params=[dict(py=p, mode=m) for p in (False, True) for m in ("trilinear", "nearest")], bounds="no initial features given: they start at zero", **C)
def no_features(ctx, py, mode):
    t = ctx.real("t", (), -1, 1)
    p = torch.stack([t, ctx.const(0.25), ctx.const(-0.25)])[None, None]
    run(ctx, py, mode, True, p, ctx.real("f", (1, 1, 2), -1, 1), torch.ones(1, 1, 2, 2, 2), None, None, None)


@case(params=[dict(py=p, mode=m, align=a, hetero=h) for p, m, a in IM for h in (False, True)], bounds="Volumes with voxel size and translation, clouds of different sizes; world coordinates, one symbolic; the initial volumes are not modified", **C)
def volumes(ctx, py, mode, align, hetero):
    t = ctx.real("t", (), -1, 1)
    f = ctx.real("f", (3, 1), -5, 5)
    p = torch.tensor([[0.5, 0.3, 0.1], [0.6, 0.15, -0.05], [0.3, 0.05, 0.4]])
    p = torch.cat([p[:1] + torch.stack([t, t * 0, t * 0])[None], p[1:]])
    grids = [(2, 2, 3), (2, 2, 2)] if hetero else [(2, 2, 2), (2, 2, 2)]
    dl = [torch.ones(1, *g) * 0.5 for g in grids]
    fl = [torch.ones(1, *g) * 0.25 for g in grids]
    if not hetero:
        dl, fl = torch.stack(dl), torch.stack(fl)
    vs, tr = 0.5, torch.tensor([[-0.5, -0.25, 0.0], [-0.25, 0.0, -0.5]])
    vol = Volumes(densities=dl, features=fl, voxel_size=vs, volume_translation=tr, align_corners=align)
    d0, f0 = vol.densities().clone(), vol.features().clone()
    pc = Pointclouds([p[:2], p[2:]], features=[f[:2], f[2:]])
    pts, fts = pc.points_padded(), pc.features_padded()
    # documented mapping: x_local = (x_world + volume_translation) / (0.5 * voxel_size) / (volume_size - 1)
    locs = [location((pts[n] + tr[n]) / (0.5 * vs) / (torch.tensor([g[2], g[1], g[0]]) - 1), g, align) for n, g in enumerate(grids)]
    for n in range(2):
        no_ties(ctx, locs[n][: 2 - n], mode)
    with fixed_random(ctx, int(d0[0].numel())) if py else nullcontext():
        out = add_pointclouds_to_volumes(pc, vol, mode=mode, _python=py)
    ctx.eq("the initial densities are not modified", vol.densities(), d0)
    ctx.eq("the initial features are not modified", vol.features(), f0)
    ctx.true("grid sizes", out.get_grid_sizes().tolist() == [list(g) for g in grids])
    for n, k in enumerate((2, 1)):
        w = votes(locs[n][:k], grids[n], mode, d0.shape[2:])
        d = d0[n] + w.sum(0)[None]
        ft = f0[n] + (w[:, None] * fts[n][:k][:, :, None, None, None]).sum(0)
        lo = 1e-4 if mode == "trilinear" else 1.0
        ctx.eq("densities", out.densities()[n], d)
        ctx.eq("features", out.features()[n], ft / torch.where(d < lo, torch.full_like(d, lo), d))
