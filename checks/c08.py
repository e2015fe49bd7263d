"""C08: camera projection and unprojection are exact inverses in every space."""
import torch
from symx.harness import case
from pytorch3d.renderer.cameras import get_ndc_to_screen_transform, get_screen_to_ndc_transform
from checks.cams import CLS, build, depth, extrinsics, intrinsics, world_points

C = dict(dtype="float32", prove_ms=20000)
SIZES = [(4, 4), (2, 4), (8, 4)]
CAMS = [dict(model=m, screen=s, K=k, n=n) for m in CLS for s in ((False, True) if m in ("persp", "ortho") else (False,)) for k in (False, True) for n in (1, 2)]


@case(params=CAMS, bounds="one and two cameras, free rotation, translation, intrinsics and points", **C)
def projection(ctx, model, screen, K, n):
    """the camera's own space, NDC and view coordinates follow the documented formulas"""
    cam, R, T, proj, ndc = build(ctx, model, n, [2, 4], screen, K=K)
    w, v = world_points(ctx, R, T, n, model, 2)
    ctx.eq("world to view", cam.get_world_to_view_transform().transform_points(w), v)
    want = proj(v)
    ctx.eq("projection of view points", cam.get_projection_transform().transform_points(v), want)
    ctx.eq("transform_points", cam.transform_points(w), want)
    ctx.eq("full projection", cam.get_full_projection_transform().transform_points(w), want)
    ctx.eq("ndc", cam.transform_points_ndc(w), ndc(v))
    ctx.true("kind", cam.is_perspective() == (model in ("fovp", "persp")) and cam.in_ndc() == (not screen))


@case(params=[dict(model=m, deg=d, scalar=s) for m, d, s in [("fovp", True, False), ("persp", False, True), ("ortho", False, True), ("persp", False, "flat"), ("ortho", False, "flat")]], bounds="field of view in degrees; one focal length per camera", **C)
def parameter_forms(ctx, model, deg, scalar):
    for n in (1, 2):
        cam, R, T, proj, ndc = build(ctx, model, n, tag=str(n), degrees=deg, scalar=scalar)
        w, v = world_points(ctx, R, T, n, model, 1, str(n))
        ctx.eq("transform_points", cam.transform_points(w), proj(v))
        ctx.eq("unproject", cam.unproject_points(depth(proj(v), v[..., 2:])), w)


@case(params=[dict(d, world=w, z=z) for d in CAMS for w in (True, False) for z in ((False, True) if d["model"] in ("fovp", "fovo") else (False,)) if not (d["n"] == 2 and d["K"])], bounds="one and two cameras, free parameters and points", **C)
def unproject(ctx, model, screen, K, n, world, z):
    """unprojecting a projected point with its depth gives the original point"""
    cam, R, T, proj, ndc = build(ctx, model, n, [2, 4], screen, K=K)
    w, v = world_points(ctx, R, T, n, model, 2 if n == 1 else 1)
    xy = proj(v)
    kw = dict(scaled_depth_input=True) if z else {}
    got = cam.unproject_points(xy if z else depth(xy, v[..., 2:]), world_coordinates=world, **kw)
    ctx.eq("unprojected point", got, w if world else v)


@case(params=[dict(model=m, screen=s, size=z, K=k, world=w) for m in ("persp", "ortho") for s in (True, False) for z in SIZES for k in (False, True) for w in (True, False) if s or z == (4, 4)], bounds="one camera, square and non-square images", **C)
def unproject_ndc(ctx, model, screen, size, K, world):
    cam, R, T, proj, ndc = build(ctx, model, 1, list(size), screen, K=K)
    w, v = world_points(ctx, R, T, 1, model)
    got = cam.unproject_points(depth(ndc(v), v[..., 2:]), world_coordinates=world, from_ndc=True)
    ctx.eq("unprojected from NDC", got, w if world else v)


@case(params=[dict(model=m, screen=s, size=z, how=h) for m in CLS for s in ((False, True) if m in ("persp", "ortho") else (False,)) for z in SIZES for h in (("kwarg", "attr") if m in ("persp", "ortho") else ("kwarg",)) if not (s and h == "kwarg" and z == (4, 4))], bounds="square and non-square images; image size given with the camera or the call", **C)
def screen(ctx, model, screen, size, how):
    """screen positions are W/2 - s/2 x_ndc, H/2 - s/2 y_ndc; without the flip they are mirrored about the image centre at the origin"""
    H, W = size
    if how == "attr" or screen:
        a, proj = intrinsics(ctx, model, 1)
        R, T = extrinsics(ctx, 1)
        at = size if how == "attr" else (3, 5)
        cam = CLS[model](R=R, T=T, in_ndc=not screen, image_size=(at,), **a)
        kw = dict(image_size=(size,)) if how == "kwarg" else {}
    else:
        cam, R, T, _, _ = build(ctx, model, 1)
        kw = dict(image_size=torch.tensor([size]))
    w, v = world_points(ctx, R, T, 1, model)
    ndc = cam.transform_points_ndc(w, **kw)
    s = min(H, W) / 2
    want = torch.stack((W / 2 - s * ndc[..., 0], H / 2 - s * ndc[..., 1], ndc[..., 2]), -1)
    ctx.eq("screen", cam.transform_points_screen(w, **kw), want)
    ctx.eq("screen without flip", cam.transform_points_screen(w, with_xyflip=False, **kw), torch.stack((-want[..., 0], -want[..., 1], want[..., 2]), -1))
    if screen:
        # with screen parameters the pixel position is p - f X / Z whatever the image size
        own = cam.transform_points(w)
        p = cam.principal_point[:, None]
        ctx.eq("pixel of a screen camera", want[..., :2], 2 * p - own[..., :2])
    ctx.eq("corner", get_ndc_to_screen_transform(cam, with_xyflip=True, image_size=(size,)).transform_points(torch.tensor([[[W / (2 * s), H / (2 * s), 1.0]]])), torch.tensor([[[0.0, 0.0, 1.0]]]))
    q = ctx.real("q", (1, 1, 3), -9, 9)
    for flip in (True, False):
        f = get_ndc_to_screen_transform(cam, with_xyflip=flip, image_size=(size,))
        b = get_screen_to_ndc_transform(cam, with_xyflip=flip, image_size=(size,))
        ctx.eq("ndc and screen are mutually inverse", b.transform_points(f.transform_points(q)), q)


@case(params=[dict(model=m) for m in ("persp", "ortho")], bounds="two screen cameras with different image sizes", **C)
def screen_batch(ctx, model):
    sizes = ((2, 4), (8, 4))
    cam, R, T, proj, ndc = build(ctx, model, 2, sizes, True)
    w, v = world_points(ctx, R, T, 2, model)
    n = ndc(v)
    ctx.eq("ndc", cam.transform_points_ndc(w), n)
    got = cam.transform_points_screen(w)
    for i, (H, W) in enumerate(sizes):
        s = min(H, W) / 2
        ctx.eq("screen", got[i], torch.stack((W / 2 - s * n[i, :, 0], H / 2 - s * n[i, :, 1], n[i, :, 2]), -1))
    ctx.eq("back", cam.unproject_points(depth(n, v[..., 2:]), from_ndc=True), w)
    ctx.eq("back from screen space", cam.unproject_points(depth(proj(v), v[..., 2:])), w)


@case(params=[dict(model=m, n=n) for m in CLS for n in (1, 3)], bounds="up to three cameras", **C)
def centre(ctx, model, n):
    cam, R, T, proj, ndc = build(ctx, model, n)
    c = cam.get_camera_center()
    ctx.true("shape", tuple(c.shape) == (n, 3))
    ctx.eq("the centre maps to the view origin", cam.get_world_to_view_transform().transform_points(c[:, None]), torch.zeros(n, 1, 3))
    ctx.eq("centre", (c[:, None] @ R)[:, 0] + T, torch.zeros(n, 3))
    R2, T2 = extrinsics(ctx, n, "2")
    d = cam.get_camera_center(R=R2, T=T2)
    ctx.eq("centre of given extrinsics", (d[:, None] @ R2)[:, 0] + T2, torch.zeros(n, 3))


INDEX = [0, 2, -1, [0], [2, 0], [1, 1, 2], [-1, 0], "bool", "none", "long"]


@case(params=[dict(model=m, K=k, screen=s) for m in CLS for k in (False, True) for s in ((False, True) if m in ("persp", "ortho") else (False,))], bounds="batches of three cameras; every documented index type", **C)
def indexing(ctx, model, K, screen):
    sizes = ((2, 4), (8, 4), (4, 4))
    cam, R, T, proj, ndc = build(ctx, model, 3, sizes, screen, free=False, K=K, **({} if K or model != "fovp" else dict(degrees=True)))
    w, v = world_points(ctx, R, T, 3, model)
    own, nd = cam.transform_points(w), cam.transform_points_ndc(w)
    xyz = depth(own, v[..., 2:])
    un = cam.unproject_points(xyz, world_coordinates=False)
    for idx in INDEX:
        if isinstance(idx, str):
            i = torch.tensor([True, False, True]) if idx == "bool" else torch.tensor([False] * 3) if idx == "none" else torch.tensor([2, 2, 0, 1])
        else:
            i = idx
        if idx == "none":
            if model != "fovp" or K:
                ctx.true("empty selection", len(cam[i]) == 0)
            continue
        sub = cam[i]
        j = [i] if isinstance(i, int) else i
        ctx.true("type and length", type(sub) is type(cam) and len(sub) == len(w[j]) and sub.in_ndc() == cam.in_ndc())
        ctx.eq("points", sub.transform_points(w[j]), own[j])
        ctx.eq("ndc", sub.transform_points_ndc(w[j]), nd[j])
        ctx.eq("unprojection", sub.unproject_points(xyz[j], world_coordinates=False), un[j])
        ctx.eq("extrinsics", sub.T, T[j])
        if screen:
            ctx.eq("image size", sub.get_image_size(), cam.get_image_size()[j])
    cl = cam.clone()
    ctx.true("clone", type(cl) is type(cam) and len(cl) == 3)
    ctx.eq("clone projects alike", cl.transform_points(w), own)
    ctx.eq("clone projects alike to ndc", cl.transform_points_ndc(w), nd)
    ctx.eq("clone unprojects alike", cl.unproject_points(xyz, world_coordinates=False), un)
    cl.T[0] = cl.T[0] + 1
    ctx.eq("clone is independent", cam.T, T)
    for bad in (3, [0, 3], torch.tensor([3])):
        try:
            cam[bad]
            ctx.true("an index out of range raises", False)
        except IndexError:
            pass


@case(params=[dict(model=m) for m in CLS], bounds="one camera, points of shape (P, 3) and (1, P, 3)", **C)
def single(ctx, model):
    """one camera applied to unbatched points and to a batch of points; a batch of cameras applied to one set of points"""
    cam, R, T, proj, ndc = build(ctx, model, 1)
    w, v = world_points(ctx, R, T, 1, model, 2)
    want = proj(v)
    ctx.eq("unbatched points", cam.transform_points(w[0]), want[0])
    ctx.eq("unbatched ndc", cam.transform_points_ndc(w[0]), want[0])
    ctx.eq("unbatched screen", cam.transform_points_screen(w[0], image_size=((2, 4),)), cam.transform_points_screen(w, image_size=((2, 4),))[0])
    back = depth(want[0], v[0, :, 2:])
    ctx.eq("unbatched unprojection", cam.unproject_points(back).reshape(2, 3), w[0])
    x = w[0][:, None]
    ctx.eq("more points than cameras", cam.transform_points(x), want[0][:, None])
    ctx.eq("more points than cameras, back", cam.unproject_points(back[:, None]), w[0][:, None])


@case(params=[dict(model=m, n=n) for m in CLS for n in (1, 2)], bounds="extrinsics and intrinsics given with the call", **C)
def overrides(ctx, model, n):
    """parameters given with a call take the place of those of the constructor in projection and unprojection alike"""
    a, proj = intrinsics(ctx, model, n, "a")
    b, other = intrinsics(ctx, model, n, "b")
    R, T = extrinsics(ctx, n, "a", free=n == 1)
    R2, T2 = extrinsics(ctx, n, "b", free=n == 1)
    w, v = world_points(ctx, R2, T2, n, model)
    cam = CLS[model](R=R, T=T, **a)
    ctx.eq("projection", cam.transform_points(w, R=R2, T=T2, **b), other(v))
    cam = CLS[model](R=R, T=T, **a)
    ctx.eq("ndc", cam.transform_points_ndc(w, R=R2, T=T2, **b), other(v))
    cam = CLS[model](R=R, T=T, **a)
    ctx.eq("unprojection", cam.unproject_points(depth(other(v), v[..., 2:]), R=R2, T=T2, **b), w)
    cam = CLS[model](R=R, T=T, **a)
    ctx.eq("unprojection to view", cam.unproject_points(depth(other(v), v[..., 2:]), world_coordinates=False, **b), v)
    cam = CLS[model](R=R, T=T, **a)
    k, third = intrinsics(ctx, model, n, "k", K=True)
    ctx.eq("calibration matrix given with the call", cam.transform_points(w, R=R2, T=T2, **k), third(v))
    ctx.eq("and back", cam.unproject_points(depth(third(v), v[..., 2:]), **k), w)


@case(params=[dict(model=m) for m in ("persp", "ortho")], bounds="screen cameras with principal point and image size given with the call", **C)
def overrides_ndc(ctx, model):
    for tag, size in (("u", (2, 4)), ("w", (8, 4))):
        a, proj = intrinsics(ctx, model, 1, tag + "a")
        b, other = intrinsics(ctx, model, 1, tag + "b")
        R, T = extrinsics(ctx, 1, tag, free=False)
        cam = CLS[model](R=R, T=T, in_ndc=False, image_size=((3, 3),), **a)
        w, v = world_points(ctx, R, T, 1, model, tag=tag)
        kw = dict(b, image_size=torch.tensor([size]))
        nd = cam.transform_points_ndc(w, **kw)
        p = b["principal_point"][:, None]
        H, W = size
        s = min(H, W) / 2
        scr = 2 * p - other(v)[..., :2]
        ctx.eq("ndc", nd[..., :2], torch.stack((W / 2 - scr[..., 0], H / 2 - scr[..., 1]), -1) / s)
        ctx.eq("back", cam.unproject_points(depth(nd, v[..., 2:]), from_ndc=True, **kw), w)
        f = ctx.real("g" + tag, (1, 1), 0.25, 8)
        ctx.eq("one focal length given with the call", cam.transform_points(w, focal_length=f), CLS[model](R=R, T=T, focal_length=f, principal_point=a["principal_point"]).transform_points(w))


@case(params=[dict(model=m) for m in ("persp", "ortho")], bounds="two cameras", **C)
def focal_override(ctx, model):
    a, _ = intrinsics(ctx, model, 2)
    R, T = extrinsics(ctx, 2, free=False)
    w, v = world_points(ctx, R, T, 2, model)
    f = ctx.real("g", (2, 1), 0.25, 8)
    want = CLS[model](R=R, T=T, focal_length=f, principal_point=a["principal_point"]).transform_points(w)
    cam = CLS[model](R=R, T=T, **a)
    ctx.eq("focal lengths of shape (N, 1)", cam.transform_points(w, focal_length=f), want)
    ctx.eq("focal lengths of shape (N,)", cam.transform_points(w, focal_length=f[:, 0]), want)


@case(params=[dict(model=m, eps=e) for m in ("fovp", "persp") for e in (0.25,)], bounds="points on either side of the camera plane", **C)
def eps(ctx, model, eps):
    """eps replaces the divisor by one of the same sign and at least eps"""
    cam, R, T, proj, ndc = build(ctx, model, 1, free=False)
    w, v = world_points(ctx, R, T, 1, model)
    z = v[..., 2:]
    d = torch.where(z.abs() < eps, torch.where(z < 0, -eps * torch.ones_like(z), eps * torch.ones_like(z)), z)
    ctx.eq("clamped divisor", cam.transform_points(w, eps=eps)[..., :2] * d, (proj(v) * z)[..., :2] if model == "fovp" else (proj(v) * z)[..., :2])
    ctx.eq("same for ndc", cam.transform_points_ndc(w, eps=eps), cam.transform_points(w, eps=eps))
