"""C26: placement of volume grids (Volumes, VolumeLocator) and sampling them along rays (VolumeSampler)."""
import torch
from symx.harness import case
from pytorch3d.renderer import RayBundle
from pytorch3d.renderer.implicit.renderer import VolumeSampler
from pytorch3d.structures import Volumes
from pytorch3d.structures.volumes import VolumeLocator

C = dict(dtype="float32")
# sizes for which the concrete grid coordinates are exact in floating point, per corner alignment
GRIDS = {
    True: [[(2, 3, 5)], [(2, 2, 3), (2, 2, 3)], [(3, 2, 2), (2, 3, 5)], [(2, 5, 2), (3, 2, 2), (2, 3, 3)], [(2, 3, 2)] * 3],
    False: [[(2, 2, 4)], [(4, 2, 2), (4, 2, 2)], [(4, 2, 2), (2, 4, 4)], [(2, 4, 2), (4, 2, 2), (2, 2, 4)], [(2, 4, 2)] * 3],
}
VS = ["scalar", "tuple", "t3", "n3", "n1", "t1"]
TR = ["tuple", "t3", "n3", "t13"]


def xyz(g):
    return torch.tensor([g[2], g[1], g[0]], dtype=torch.float32)


def placement(ctx, n, vs, tr):
    """(constructor argument, per element (N,3) value) of voxel size and translation"""
    if vs in ("scalar", "tuple"):
        a = 0.5 if vs == "scalar" else (0.5, 1.5, 2.0)
        v = torch.tensor([a] * 3 if vs == "scalar" else a)[None].expand(n, 3)
    else:
        a = ctx.real("voxel", {"t3": (3,), "n3": (n, 3), "n1": (n, 1), "t1": (1,)}[vs], 0.125, 4)
        v = a.expand(n, 3) if vs != "t3" else a[None].expand(n, 3)
    if tr == "tuple":
        b = (0.25, -1.0, 3.0)
        t = torch.tensor(b)[None].expand(n, 3)
    else:
        b = ctx.real("translation", {"t3": (3,), "n3": (n, 3), "t13": (1, 3)}[tr], -5, 5)
        t = b.reshape(-1, 3).expand(n, 3)
    return a, v, b, t


def world(local, g, v, t):
    """documented mapping of local to world coordinates"""
    return local * (xyz(g) - 1) * 0.5 * v - t


def voxel_local(g, align):
    """local coordinates of the voxel centres of one grid (D,H,W,3), grid_sample convention"""
    ax = [torch.tensor([(-1 + 2 * i / (n - 1) if n > 1 else -1.0) if align else (2 * i + 1) / n - 1 for i in range(n)]) for n in g]
    Z, Y, X = torch.meshgrid(*ax, indexing="ij")
    return torch.stack([X, Y, Z], -1)


def build(ctx, grids, align, vs="n3", tr="n3", feats=2, kind="volumes", const=False):
    n = len(grids)
    a, v, b, t = placement(ctx, n, vs, tr)
    mk = (lambda name, s: ctx.real(name, s, -2, 2)) if not const else (lambda name, s: torch.arange(1.0, 1 + torch.Size(s).numel()).reshape(s))
    d = [mk(f"d{i}", (1,) + g) for i, g in enumerate(grids)]
    f = [mk(f"f{i}", (feats,) + g) for i, g in enumerate(grids)] if feats else None
    uneven = any(g != grids[0] for g in grids)
    dd, ff = (d, f) if uneven or kind == "list" else (torch.stack(d), None if f is None else torch.stack(f))
    return Volumes(densities=dd, features=ff, voxel_size=a, volume_translation=b, align_corners=align), d, f, v, t


@case(params=[dict(g=g, vs=vs, tr=tr) for g in range(4) for vs in VS for tr in TR if (vs, tr) in (("n3", "n3"), ("scalar", "tuple")) or g == 2 or (g == 0 and tr == "t3")], bounds="every documented form of voxel size and translation; symbolic sizes, translations and points", **C)
def maps(ctx, g, vs, tr):
    grids = GRIDS[True][g]
    n = len(grids)
    a, v, b, t = placement(ctx, n, vs, tr)
    vol = Volumes(densities=[torch.zeros((1,) + s) for s in grids], voxel_size=a, volume_translation=b)
    p = ctx.real("p", (n, 2, 3), -10, 10)
    w = vol.local_to_world_coords(p)
    ctx.eq("local to world is the documented mapping", w, torch.stack([world(p[i], grids[i], v[i], t[i]) for i in range(n)]))
    ctx.eq("world to local is the documented mapping", vol.world_to_local_coords(p), torch.stack([(p[i] + t[i]) / (0.5 * v[i]) / (xyz(grids[i]) - 1) for i in range(n)]))
    ctx.eq("there and back", vol.world_to_local_coords(w), p)
    ctx.eq("back and there", vol.local_to_world_coords(vol.world_to_local_coords(p)), p)
    ctx.eq("transform", vol.get_local_to_world_coords_transform().transform_points(p), w)
    ctx.eq("inverse transform", vol.get_world_to_local_coords_transform().transform_points(w), p)
    m = vol.get_local_to_world_coords_transform().get_matrix() @ vol.get_world_to_local_coords_transform().get_matrix()
    ctx.eq("matrices are inverse", m, torch.eye(4).expand(n, 4, 4))


def check_grid(ctx, vol, grids, align, v, t, name=""):
    lo, wo = vol.get_coord_grid(world_coordinates=False), vol.get_coord_grid()
    for i, g in enumerate(grids):
        e = voxel_local(g, align)
        ctx.eq(name + "local coordinates of the voxel centres", lo[i, : g[0], : g[1], : g[2]], e)
        ctx.eq(name + "world coordinates of the voxel centres", wo[i, : g[0], : g[1], : g[2]], world(e, g, v[i], t[i]))


@case(params=[dict(g=g, align=a) for g in range(4) for a in (True, False)], bounds="coordinate grids, even and uneven batches, symbolic voxel sizes and translations", **C)
def coord_grid(ctx, g, align):
    vol, d, f, v, t = build(ctx, GRIDS[align][g], align, const=True)
    check_grid(ctx, vol, GRIDS[align][g], align, v, t)


@case(params=[dict(form=f, align=a, n=n) for f in ("tuple", "list", "tensor") for a in (True, False) for n in (1, 2)], bounds="VolumeLocator built from each documented form of grid sizes", **C)
def locator(ctx, form, align, n):
    grids = [(2, 3, 5) if align else (2, 4, 4)] * n if form == "tuple" else ([(2, 3, 5), (3, 2, 2)] if align else [(4, 2, 4), (2, 4, 2)])[:n]
    a, v, b, t = placement(ctx, n, "n3", "n3")
    arg = grids[0] if form == "tuple" else grids if form == "list" else torch.tensor(grids)
    loc = VolumeLocator(batch_size=n, grid_sizes=arg, device=torch.device("cpu"), voxel_size=a, volume_translation=b, align_corners=align)
    ctx.true("sizes", loc.get_grid_sizes().tolist() == [list(g) for g in grids])
    ctx.true("length", len(loc) == n)
    check_grid(ctx, loc, grids, align, v, t)
    p = ctx.real("p", (n, 3), -10, 10)
    ctx.eq("there and back", loc.world_to_local_coords(loc.local_to_world_coords(p[:, None]))[:, 0], p)


@case(params=[dict(g=g, align=a, pad=m) for g in range(4) for a in (True, False) for m in ("zeros", "border")], bounds="rays through every voxel centre: the sampler returns the stored densities and features; contents and placement symbolic", eps0=True, **C)
def sample_centres(ctx, g, align, pad):
    grids = GRIDS[align][g]
    n = len(grids)
    vs = torch.tensor([[0.5, 1.0, 2.0], [1.0, 0.25, 4.0], [2.0, 0.5, 1.0]])[:n]
    t = ctx.real("t", (n, 3), -5, 5)
    d = [ctx.real(f"d{i}", (1,) + s, -2, 2) for i, s in enumerate(grids)]
    f = [ctx.real(f"f{i}", (2,) + s, -2, 2) for i, s in enumerate(grids)]
    vol = Volumes(densities=d, features=f, voxel_size=vs, volume_translation=t, align_corners=align)
    wo = vol.get_coord_grid()
    R = max(s[0] * s[1] * s[2] for s in grids)
    org = []
    for i, s in enumerate(grids):
        w = wo[i, : s[0], : s[1], : s[2]].reshape(-1, 3)
        org.append(torch.cat([w, w[:1].expand(R - len(w), 3)]))
    o = torch.stack(org)
    dirs = torch.tensor([0.5, -1.0, 0.25]).expand(n, R, 3)
    # the second sample of every ray starts one direction earlier and is taken at length one
    ln = torch.tensor([0.0]).expand(n, R, 1)
    rb = RayBundle(origins=o, directions=dirs, lengths=ln, xys=torch.zeros(n, R, 2))
    rb2 = RayBundle(origins=o - 2 * dirs, directions=dirs, lengths=ln + 2, xys=torch.zeros(n, R, 2))
    for k, r in enumerate((rb, rb2)):
        sd, sf = VolumeSampler(vol, padding_mode=pad)(r)
        for i, s in enumerate(grids):
            m = s[0] * s[1] * s[2]
            ctx.eq(f"sampling a voxel centre returns its density ({k})", sd[i, :m, 0], d[i].reshape(1, -1).T)
            ctx.eq(f"sampling a voxel centre returns its features ({k})", sf[i, :m, 0], f[i].reshape(2, -1).T)


@case(params=[dict(g=g, align=a, axis=k, mode=m) for g in (0, 2) for a in (True, False) for k in range(3) for m in ("bilinear", "nearest")], bounds="one ray point moving along one axis inside and outside the grid; contents symbolic", **C)
def sample_between(ctx, g, align, axis, mode):
    grids = GRIDS[align][g]
    n = len(grids)
    d = [ctx.real(f"d{i}", (1,) + s, -2, 2) for i, s in enumerate(grids)]
    vol = Volumes(densities=d, align_corners=align, voxel_size=0.5)
    u = ctx.real("u", (n,), -1.5, 1.5)
    fix = [0.15, -0.3, 0.2]
    loc = torch.stack([torch.stack([u[i] if k == axis else ctx.const(fix[k]) for k in range(3)]) for i in range(n)])
    w = torch.stack([world(loc[i], grids[i], ctx.const(0.5), ctx.const(0.0)) for i in range(n)])
    vx = torch.stack([(loc[i] + 1) * 0.5 * (xyz(grids[i]) - 1) if align else (loc[i] + 1) * 0.5 * xyz(grids[i]) - 0.5 for i in range(n)])
    for k in range(-3, 7):
        if mode == "nearest":
            ctx.assume(vx != k + 0.5)
    rb = RayBundle(origins=w[:, None], directions=torch.ones(n, 1, 3), lengths=torch.zeros(n, 1, 1), xys=torch.zeros(n, 1, 2))
    sd, sf = VolumeSampler(vol, sample_mode=mode)(rb)
    ctx.true("no features", sf.shape == (n, 1, 1, 0))
    for i, s in enumerate(grids):
        ws = []
        for a, m in ((2, s[0]), (1, s[1]), (0, s[2])):
            e = (vx[i, a] - torch.arange(m, dtype=vx.dtype)).abs()
            ws.append((1 - e).clamp(min=0) if mode == "bilinear" else torch.where(e < 0.5, torch.ones_like(e), torch.zeros_like(e)))
        r = (ws[0][:, None, None] * ws[1][None, :, None] * ws[2][None, None] * d[i][0]).sum()
        ctx.eq("sampled value", sd[i, 0, 0, 0], r)


INDEX = {"int": 1, "negative": -1, "slice": slice(1, 3), "step": slice(None, None, 2), "list": [2, 0], "repeat": [1, 1], "long": torch.tensor([2, 1]), "bool": torch.tensor([True, False, True])}


@case(params=[dict(op=op, g=g, align=a) for op in list(INDEX) + ["clone", "copy", "cpu", "update", "update_nofeat", "update_clone"] for g in (3, 4) for a in (True, False)], bounds="three volumes: indexing, cloning and replacing padded data keep sizes, placement and content; all contents symbolic", **C)
def operations(ctx, op, g, align):
    grids = GRIDS[align][g]
    vol, d, f, v, t = build(ctx, grids, align)
    D, F = vol.densities().clone(), vol.features().clone()
    sel = list(range(3))
    if op in INDEX:
        ix = INDEX[op]
        sel = torch.arange(3)[ix].reshape(-1).tolist()
        out = vol[ix]
    elif op in ("clone", "copy", "cpu"):
        out = vol.clone() if op == "clone" else vol.to("cpu", copy=True) if op == "copy" else vol.cpu()
    else:
        d = [ctx.real(f"nd{i}", (1,) + s, -2, 2) for i, s in enumerate(grids)]
        f = [ctx.real(f"nf{i}", (2,) + s, -2, 2) for i, s in enumerate(grids)]
        new = Volumes(densities=d, features=f)
        out = (vol.clone() if op == "update_clone" else vol).update_padded(new.densities(), None if op == "update_nofeat" else new.features())
    ctx.true("length", len(out) == len(sel))
    ctx.true("grid sizes", out.get_grid_sizes().tolist() == [list(grids[i]) for i in sel])
    ctx.true("align corners", out.get_align_corners() == align)
    dl = out.densities_list()
    fl = out.features_list()
    for j, i in enumerate(sel):
        ctx.eq("densities", dl[j], d[i])
        if op == "update_nofeat":
            ctx.true("no features", fl is None and out.features() is None)
        else:
            ctx.eq("features", fl[j], f[i])
    check_grid(ctx, out, [grids[i] for i in sel], align, v[torch.tensor(sel)], t[torch.tensor(sel)])
    p = ctx.real("p", (len(sel), 1, 3), -3, 3)
    ctx.eq("placement", out.local_to_world_coords(p), torch.stack([world(p[j], grids[i], v[i], t[i]) for j, i in enumerate(sel)]))
    ctx.eq("original densities", vol.densities(), D)
    ctx.eq("original features", vol.features(), F)
    ctx.true("original sizes", vol.get_grid_sizes().tolist() == [list(g) for g in grids])
    if op in ("clone", "copy", "update_clone"):
        out.densities().zero_()
        out.locator._grid_sizes.zero_()
        out.get_local_to_world_coords_transform()._matrix.zero_()
        ctx.eq("deep copy: densities", vol.densities(), D)
        ctx.true("deep copy: sizes", vol.get_grid_sizes().tolist() == [list(g) for g in grids])
        check_grid(ctx, vol, grids, align, v, t, "deep copy: ")
