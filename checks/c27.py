"""C27: sampled rays are the camera rays of their pixels."""
import torch
from symx.harness import case
from pytorch3d.renderer.implicit.raysampling import GridRaysampler, MonteCarloRaysampler, MultinomialRaysampler, NDCGridRaysampler, NDCMultinomialRaysampler, _safe_multinomial
from pytorch3d.renderer.implicit.utils import HeterogeneousRayBundle, ray_bundle_to_ray_points
from checks.cams import CLS, build

C = dict(dtype="float32", prove_ms=20000)
CAMS = [dict(model=m, screen=s) for m in CLS for s in ((False, True) if m in ("persp", "ortho") else (False,))]


def on_rays(ctx, cam, R, T, ndc, bundle, unit, which=None):
    """points at the sampled lengths project to the reported positions and have the sampled depth (distance for unit directions)"""
    pts = ray_bundle_to_ray_points(bundle)
    n = pts.shape[0]
    R, T = (R, T) if which is None else (R[which], T[which])
    flat = pts.reshape(n, -1, 3)
    v = flat @ R + T[:, None]
    xys = bundle.xys[..., None, :].expand(*pts.shape[:-1], 2).reshape(n, -1, 2)
    z = bundle.lengths.reshape(n, -1)
    if unit:
        org = bundle.origins[..., None, :].expand_as(pts).reshape(n, -1, 3)
        d = bundle.directions.reshape(-1, 3)
        ctx.eq("unit directions", (d * d).sum(-1), torch.ones(d.shape[0]))
        ctx.eq("distance from the origin", ((flat - org) ** 2).sum(-1), z * z)
        vo = org @ R + T[:, None]
        ctx.eq("origin at depth zero", vo[..., 2], torch.zeros_like(z))
    else:
        ctx.eq("view depth of the points", v[..., 2], z)
    return v, xys


def project(ctx, ndc, v, xys):
    ctx.eq("projection of the points", ndc(v)[..., :2], xys)


def bounds(ctx, lo=0.25):
    near = ctx.real("min_depth", (), lo, 2)
    far = ctx.real("max_depth", (), 3, 8)
    return near, far


def slow(d, n):
    """free orientations of these cameras take minutes: identity in the quick tier"""
    return d["model"] == "fovo" or (n == 2 and d["screen"])


@case(params=[dict(d, n=n, size=s, free=f, _case=dict(tier="thorough" if f and slow(d, n) else "quick", budget=400)) for d in CAMS for n, s in ((1, (2, 3)), (2, (2, 1)), (1, (2, 2))) for f in ((True, False) if slow(d, n) else (True,))], bounds="grids up to 3 pixels a side, one and two cameras, two points per ray, free cameras and depth range", **C)
def ndc_grid(ctx, model, screen, n, size, free):
    """the NDC grid sampler covers every pixel centre; points project to them at the sampled depth"""
    H, W = size
    cam, R, T, _, ndc = build(ctx, model, n, [H, W], screen, free=free)
    near, far = bounds(ctx)
    r = NDCMultinomialRaysampler(image_width=W, image_height=H, n_pts_per_ray=2, min_depth=0.5, max_depth=1.0)(cam, min_depth=near, max_depth=far)
    s = min(H, W)
    want = torch.tensor([[[(W - 1 - 2 * x) / s, (H - 1 - 2 * y) / s] for x in range(W)] for y in range(H)])
    ctx.eq("pixel grid", r.xys, want[None].expand(n, H, W, 2), tol=(1e-6, 1e-6))
    ctx.eq("depth range", r.lengths, torch.stack((near, far)).expand(n, H, W, 2))
    v, xys = on_rays(ctx, cam, R, T, ndc, r, False)
    project(ctx, ndc, v, xys)


@case(params=[dict(kind=k, size=s) for k in ("grid", "old", "old_ndc") for s in ((1, 1), (1, 3), (3, 1), (2, 3))], bounds="grids up to 3 pixels a side with fixed extents", **C)
def grid(ctx, kind, size):
    """grid samplers put the outer rays at the given extents and space the others evenly"""
    H, W = size
    cam, R, T, _, ndc = build(ctx, "persp", 2, [H, W])
    e = dict(min_x=-0.75, max_x=1.25, min_y=2.0, max_y=-1.0)
    if kind == "old_ndc":
        r = NDCGridRaysampler(W, H, 3, 0.5, 2.5)
        s = min(H, W)
        e = dict(min_x=(W - 1) / s, max_x=(1 - W) / s, min_y=(H - 1) / s, max_y=(1 - H) / s)
    elif kind == "old":
        r = GridRaysampler(image_width=W, image_height=H, n_pts_per_ray=3, min_depth=0.5, max_depth=2.5, **e)
    else:
        r = MultinomialRaysampler(image_width=W, image_height=H, n_pts_per_ray=3, min_depth=0.5, max_depth=2.5, **e)
    r = r(cam)
    at = lambda a, b, i, n: a if n == 1 else a + (b - a) * i / (n - 1)
    want = torch.tensor([[[at(e["min_x"], e["max_x"], x, W), at(e["min_y"], e["max_y"], y, H)] for x in range(W)] for y in range(H)])
    ctx.eq("grid", r.xys, want[None].expand(2, H, W, 2), tol=(1e-6, 1e-6))
    ctx.eq("depths", r.lengths, torch.tensor([0.5, 1.5, 2.5]).expand(2, H, W, 3))
    v, xys = on_rays(ctx, cam, R, T, ndc, r, False)
    project(ctx, ndc, v, xys)


@case(params=[dict(d, n=n, free=f, _case=dict(tier="thorough" if f and slow(d, n) else "quick", budget=400)) for d in CAMS for n in (1, 2) for f in ((True, False) if slow(d, n) else (True,))], bounds="two rays per image, two points per ray, every random draw, free cameras and extents", **C)
def monte_carlo(ctx, model, screen, n, free):
    cam, R, T, _, ndc = build(ctx, model, n, [2, 4], screen, free=free)
    near, far = bounds(ctx)
    lo, hi = ctx.real("lo", (2,), -2, 2), ctx.real("hi", (2,), -2, 2)
    ctx.assume(lo < hi)
    r = MonteCarloRaysampler(lo[0], hi[0], lo[1], hi[1], 2, 2, near, far)(cam)
    ctx.le("not below the range", lo.expand_as(r.xys), r.xys)
    ctx.le("not above the range", r.xys, hi.expand_as(r.xys))
    ctx.eq("depth range", r.lengths, torch.stack((near, far)).expand(n, 2, 2))
    v, xys = on_rays(ctx, cam, R, T, ndc, r, False)
    project(ctx, ndc, v, xys)


@case(params=[dict(d, how=h) for d in CAMS for h in ("grid", "mc")], bounds="one camera with identity rotation, up to two rays, one point per ray at the nearest depth", dtype="float32", prove_ms=40000)
def unit_directions(ctx, model, screen, how):
    """with unit directions the lengths are distances from the ray origin; points still project to the reported positions"""
    cam, R, T, _, ndc = build(ctx, model, 1, [1, 2], screen, free=False, K=model == "fovp")
    near, far = ctx.real("min_depth", (), 0.25, 2), 9.0
    if how == "grid":
        r = NDCMultinomialRaysampler(image_width=2, image_height=1, n_pts_per_ray=1, min_depth=0.5, max_depth=far, unit_directions=True)(cam, min_depth=near)
    else:
        r = MonteCarloRaysampler(-1.0, 1.0, -1.0, 1.0, 1, 1, near, far, unit_directions=True)(cam)
    v, xys = on_rays(ctx, cam, R, T, ndc, r, True)
    # the point is a positive multiple of the direction: compare x = x_ndc through the direction before normalisation
    raw = (MultinomialRaysampler(min_x=0.0, max_x=0.0, min_y=0.0, max_y=0.0, image_width=1, image_height=1, n_pts_per_ray=1, min_depth=0.5, max_depth=1.0))
    raw.register_buffer("_xy_grid", r.xys.reshape(1, -1, 2), persistent=False)
    q = raw(cam)
    ctx.eq("same origins", r.origins.reshape(-1, 3), q.origins.reshape(-1, 3))
    d, u = q.directions.reshape(-1, 3), r.directions.reshape(-1, 3)
    ctx.eq("same directions", torch.cross(u, d, dim=-1), torch.zeros_like(d))
    ctx.true("same sense", (u * d).sum(-1) > 0)


@case(params=[dict(where=w, n=n, pts=p) for w in ("grid", "grid_init", "mc", "mc_call") for n in (1, 2) for p in (1, 2, 4)], bounds="up to four points per ray, every random draw", **C)
def strata(ctx, where, n, pts):
    """stratified depths stay in their strata (hence ordered and in the range) and differ between rays freely"""
    cam, R, T, _, ndc = build(ctx, "persp", n, [1, 2])
    near, far = bounds(ctx)
    if where.startswith("grid"):
        s = NDCMultinomialRaysampler(image_width=2, image_height=1, n_pts_per_ray=pts, min_depth=0.5, max_depth=9.0, stratified_sampling=where == "grid_init")
        r = s(cam, min_depth=near, max_depth=far, **(dict(stratified_sampling=True) if where == "grid" else {}))
    else:
        s = MonteCarloRaysampler(-1.0, 1.0, -1.0, 1.0, 2, pts, near, far, stratified_sampling=where == "mc")
        r = s(cam, **(dict(stratified_sampling=True) if where == "mc_call" else {}))
    c = [near + (far - near) * i / max(pts - 1, 1) for i in range(pts)]
    lo = torch.stack([c[0]] + [(a + b) / 2 for a, b in zip(c, c[1:])])
    hi = torch.stack([(a + b) / 2 for a, b in zip(c, c[1:])] + [c[-1]])
    ctx.le("not below the stratum", lo.expand_as(r.lengths), r.lengths)
    ctx.le("not above the stratum", r.lengths, hi.expand_as(r.lengths))
    v, xys = on_rays(ctx, cam, R, T, ndc, r, False)
    project(ctx, ndc, v, xys)


@case(params=[dict(n=n, k=k, size=s, call=c) for n, k, s, c in ((1, 1, (2, 2), False), (1, 2, (2, 1), True), (2, 1, (1, 2), False), (1, 2, (1, 3), False))], bounds="up to four pixels, up to two rays per image, every random draw", **C)
def subsampled(ctx, n, k, size, call):
    """with a number of rays per image, the rays are distinct pixels of the grid"""
    H, W = size
    cam, R, T, _, ndc = build(ctx, "persp", n, [H, W])
    s = NDCMultinomialRaysampler(image_width=W, image_height=H, n_pts_per_ray=1, min_depth=0.5, max_depth=9.0, n_rays_per_image=None if call else k)
    r = s(cam, **(dict(n_rays_per_image=k) if call else {}))
    g = NDCMultinomialRaysampler(image_width=W, image_height=H, n_pts_per_ray=1, min_depth=0.5, max_depth=9.0)._xy_grid.reshape(-1, 2).tolist()
    ctx.true("shape", tuple(r.xys.shape) == (n, k, 1, 2) and tuple(r.lengths.shape) == (n, k, 1, 1))
    got = [[[round(float(c), 6) for c in q] for q in b] for b in r.xys[:, :, 0].tolist()]
    g = [[round(c, 6) for c in q] for q in g]
    for b in got:
        ctx.true("pixels of the grid", all(q in g for q in b))
        ctx.true("distinct pixels", len({tuple(q) for q in b}) == k)
    v, xys = on_rays(ctx, cam, R, T, ndc, r, False)
    project(ctx, ndc, v, xys)


MASKS = {
    "one": [[[1, 0], [0, 1]]],
    "two": [[[1, 1], [0, 1]], [[0, 0], [1, 0]]],
    "uneven": [[[0, 1], [0, 1]], [[1, 1], [1, 0]]],
    "wide": [[[0, 1, 1]], [[1, 0, 1]]],
}


@case(params=[dict(mask=m, k=k, dt=d) for m, k, d in (("one", None, "bool"), ("two", None, "float"), ("two", 2, "float"), ("uneven", None, "float"), ("uneven", 1, "float"), ("wide", 2, "float"), ("one", 1, "float"))], bounds="grids of up to four pixels with up to two masks, every random draw", **C)
def masked(ctx, mask, k, dt):
    """masked sampling returns only masked-in pixels, each once while there are enough"""
    m = torch.tensor(MASKS[mask], dtype=torch.float32)
    n, H, W = m.shape
    cam, R, T, _, ndc = build(ctx, "persp", n, [H, W])
    s = NDCMultinomialRaysampler(image_width=W, image_height=H, n_pts_per_ray=1, min_depth=0.5, max_depth=9.0)
    r = s(cam, mask=m, **(dict(n_rays_per_image=k) if k else {}))
    g = [[round(float(c), 6) for c in q] for q in s._xy_grid.reshape(-1, 2).tolist()]
    want = k or int(m.sum((1, 2)).min())
    ctx.true("shape", tuple(r.xys.shape) == (n, want, 1, 2))
    for b in range(n):
        ids = [g.index([round(float(c), 6) for c in q]) for q in r.xys[b, :, 0].tolist()]
        on = MASKS[mask][b]
        flat = [c for row in on for c in row]
        ctx.true("masked-in pixels", all(flat[i] == 1 for i in ids))
        if sum(flat) >= want:
            ctx.true("each pixel once", len(set(ids)) == want)
    v, xys = on_rays(ctx, cam, R, T, ndc, r, False)
    project(ctx, ndc, v, xys)


@case(params=[dict(n=n, k=k) for n, k in ((1, 2), (2, 2), (3, 2), (2, 3))], bounds="up to three weights per row, up to three draws; weights free and non-negative", **C)
def safe_multinomial(ctx, n, k):
    """draws have positive weight and do not repeat while enough weights are positive"""
    w = ctx.real("w", (1, n), 0, 2)
    pos = [ctx.fork(w[0, i] > 0) for i in range(n)]
    ctx.assume(any(pos))
    got = _safe_multinomial(w, k)[0].tolist()
    ctx.true("positive weight", all(pos[i] for i in got))
    ctx.true("no repetition", sum(pos) < k or len(set(got)) == k)


@case(params=[dict(how=h, n=n, total=t) for h in ("grid", "grid_call", "masked", "mc", "strata") for n, t in ((1, 2), (2, 2), (2, 3), (3, 2))], bounds="one to three cameras, two or three rays in total, every random draw", cpp=["packed_to_padded", "padded_to_packed"], **C)
def rays_total(ctx, how, n, total):
    """a fixed total number of rays: cameras with their counts, rays packed camera by camera, each on a ray of its camera"""
    cam, R, T, _, ndc = build(ctx, "persp", n, [1, 2])
    kw = dict(image_width=2, image_height=1, n_pts_per_ray=2, min_depth=0.5, max_depth=9.0)
    mask = None
    if how == "mc":
        r = MonteCarloRaysampler(-1.0, 1.0, -1.0, 1.0, None, 2, 0.5, 9.0, n_rays_total=total)(cam)
    elif how == "grid_call":
        r = NDCMultinomialRaysampler(**kw)(cam, n_rays_total=total)
    elif how == "masked":
        mask = torch.tensor([[[1.0, 0.0]], [[0.0, 1.0]], [[1.0, 0.0]]])[:n]
        r = NDCMultinomialRaysampler(n_rays_total=total, **kw)(cam, mask=mask)
    else:
        r = NDCMultinomialRaysampler(n_rays_total=total, stratified_sampling=how == "strata", **kw)(cam)
    ctx.true("a heterogeneous bundle", isinstance(r, HeterogeneousRayBundle))
    ids, counts = r.camera_ids.tolist(), r.camera_counts.tolist()
    ctx.true("camera counts", sum(counts) == total and len(set(ids)) == len(ids) == len(counts) and all(0 <= i < n for i in ids) and all(c > 0 for c in counts))
    ctx.true("shapes", all(q.shape[0] == total for q in (r.origins, r.directions, r.lengths, r.xys)) and r.origins.numel() == total * 3 == r.directions.numel() and r.lengths.shape == r.origins.shape[:-1] + (2,) == r.xys.shape)
    which = [i for i, c in zip(ids, counts) for _ in range(c)]
    w = torch.tensor(which)
    v, xys = on_rays(ctx, cam, R, T, ndc, r, False, w)
    got = torch.cat([ndc(v[i : i + 1].expand(n, *v.shape[1:]))[k : k + 1] for i, k in enumerate(which)])
    ctx.eq("projection of the points", got[..., :2], xys)
    if mask is not None:
        ctx.eq("masked-in pixel", xys[:, 0, 0], torch.tensor([[1.0, -1.0, 1.0][k] for k in which]) * 1.0, tol=(1e-6, 1e-6))
