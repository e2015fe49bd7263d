"""C09: camera constructors and convention conversions preserve the view."""
import math

import torch
from symx.harness import case
from pytorch3d.renderer.camera_utils import camera_to_eye_at_up, join_cameras_as_batch, rotate_on_spot
from pytorch3d.renderer.cameras import (
    FoVPerspectiveCameras,
    OrthographicCameras,
    PerspectiveCameras,
    camera_position_from_spherical_angles,
    get_world_to_view_transform,
    look_at_rotation,
    look_at_view_transform,
)
from pytorch3d.renderer.points.pulsar.renderer import Renderer
from pytorch3d.utils.camera_conversions import (
    cameras_from_opencv_projection,
    opencv_from_cameras_projection,
    pulsar_from_cameras_projection,
    pulsar_from_opencv_projection,
)
from checks.cams import CLS, extrinsics, intrinsics

C = dict(dtype="float32", prove_ms=20000)


def opencv(ctx, n, tag=""):
    R, _ = ctx.rotation("R" + tag, (n,))
    t = ctx.real("t" + tag, (n, 3), -4, 4)
    f = ctx.real("f" + tag, (n, 2), 1, 64)
    p = ctx.real("p" + tag, (n, 2), -8, 16)
    K = torch.zeros(n, 3, 3)
    K[:, 0, 0], K[:, 1, 1], K[:, :2, 2], K[:, 2, 2] = f[:, 0], f[:, 1], p, 1.0
    return R, t, K


def cv_project(R, t, K, w):
    v = w @ R.transpose(1, 2) + t[:, None]
    q = v @ K.transpose(1, 2)
    return q[..., :2] / q[..., 2:], v


def cv_points(ctx, R, t, n):
    """world points with free OpenCV view coordinates, non-zero depth"""
    v = ctx.real("v", (n, 1, 3), -4, 4)
    ctx.assume(v[..., 2] != 0)
    return (v - t[:, None]) @ R, v


SZ = [((4, 4),), ((2, 4),), ((8, 4),), ((2, 4), (8, 4))]


@case(params=[dict(sizes=s, n=n) for s in SZ for n in (1, 2) if len(s) in (1, n)], bounds="one and two cameras, square and non-square images, all parameters free", **C)
def opencv_to_pytorch3d(ctx, sizes, n):
    R, t, K = opencv(ctx, n)
    R0, t0, K0 = R.clone(), t.clone(), K.clone()
    size = torch.tensor(sizes).expand(n, 2)
    cam = cameras_from_opencv_projection(R, t, K, size)
    w, v = cv_points(ctx, R, t, n)
    px, _ = cv_project(R, t, K, w)
    ctx.true("type", type(cam) is PerspectiveCameras and len(cam) == n and cam.in_ndc())
    ctx.eq("pixels", cam.transform_points_screen(w)[..., :2], px)
    ctx.eq("pixels with the image size given", cam.transform_points_screen(w, image_size=size)[..., :2], px)
    s = size.min(1).values[:, None].to(torch.float32)
    wh = size.flip(1)[:, None]
    ctx.eq("ndc", cam.transform_points_ndc(w)[..., :2], (wh - 2 * px) / s[:, None])
    ctx.eq("depth", cam.get_world_to_view_transform().transform_points(w)[..., 2], v[..., 2])
    R2, t2, K2 = opencv_from_cameras_projection(cam, size)
    ctx.eq("rotation there and back", R2, R)
    ctx.eq("translation there and back", t2, t)
    ctx.eq("camera matrix there and back", K2, K)
    for a, b in ((R, R0), (t, t0), (K, K0)):
        ctx.eq("inputs unchanged", a, b)


FORMS = ["ndc", "screen", "K", "Kscreen"]


@case(params=[dict(sizes=s, form=f) for s in SZ for f in FORMS], bounds="one and two cameras given in NDC or screen space, by focal length or calibration matrix", **C)
def pytorch3d_to_opencv(ctx, sizes, form):
    n = len(sizes)
    a, _ = intrinsics(ctx, "persp", n)
    f, p = a["focal_length"], a["principal_point"]
    R, T = extrinsics(ctx, n)
    size = torch.tensor(sizes)
    if "K" in form:
        k = torch.zeros(n, 4, 4)
        k[:, 0, 0], k[:, 1, 1], k[:, :2, 2], k[:, 2, 3], k[:, 3, 2] = f[:, 0], f[:, 1], p, 1.0, 1.0
        a = dict(K=k)
    kw = dict(in_ndc=False, image_size=size) if "screen" in form else {}
    cam = PerspectiveCameras(R=R, T=T, **a, **kw)
    w, v = cv_points(ctx, R.transpose(1, 2), T, n)
    px = cam.transform_points_screen(w, image_size=size)[..., :2]
    R2, t2, K2 = opencv_from_cameras_projection(cam, size)
    got, v2 = cv_project(R2, t2, K2, w)
    ctx.eq("pixels", got, px)
    ctx.eq("depth", v2[..., 2], v[..., 2])
    back = cameras_from_opencv_projection(R2, t2, K2, size)
    ctx.eq("rotation there and back", back.R, R)
    ctx.eq("translation there and back", back.T, T)
    ctx.eq("screen positions there and back", back.transform_points_screen(w)[..., :2], px)
    ctx.eq("camera unchanged", cam.R, R)
    ctx.eq("camera unchanged", cam.T, T)


@case(params=[dict(n=1, size=(2, 4), via="opencv", shape=2), dict(n=1, size=(4, 2), via="opencv", shape=3), dict(n=1, size=(2, 4), via="cameras", shape=2), dict(n=2, size=(4, 2), via="opencv", shape=2), dict(n=1, size=(4, 6), via="cameras", shape=2, _case=dict(tier="thorough", budget=600))], bounds="images of up to 4x6 pixels, every pixel ray of pulsar; whole-pixel principal points", **C)
def pulsar(ctx, n, size, via, shape):
    """the ray pulsar casts through the pixel in column i and (flipped) row j projects to the centre of that pixel with the OpenCV camera"""
    H, W = size
    R = ctx.rotation("R", (n,))[0] if size == (4, 6) else turns(ctx, "R", n, 3 - n)
    t = ctx.real("t", (n, 3), -4, 4)
    f = ctx.real("f", (n, 1), 1, 64)
    off = ctx.integer("off", (n, 2), -3, 3)
    p = torch.tensor([[W / 2, H / 2]]) + off
    K = torch.zeros(n, 3, 3)
    K[:, 0, 0], K[:, 1, 1], K[:, :2, 2], K[:, 2, 2] = f[:, 0], f[:, 0], p, 1.0
    sz = torch.tensor([size] * n)
    if via == "opencv":
        cam = pulsar_from_opencv_projection(R, t if shape == 2 else t[..., None], K, sz, znear=0.5)
    else:
        cam = pulsar_from_cameras_projection(cameras_from_opencv_projection(R, t, K, sz), sz)
    ctx.true("shape", tuple(cam.shape) == (n, 13))
    eye, p00, vx, vy, foc, pp = Renderer._transform_cam_params(cam, W, H, False, False)
    ctx.eq("eye", (R @ eye[..., None])[..., 0] + t, torch.zeros(n, 3))
    for i in range(W):
        for j in range(H):
            ray = p00 - eye + (i + pp[:, :1]) * vx + (j + pp[:, 1:]) * vy
            px, v = cv_project(R, t, K, (eye + ray)[:, None])
            ctx.le("the ray points forward", 0 * f[:, 0] + 1e-6, v[:, 0, 2])
            ctx.eq("pixel", px[:, 0], torch.tensor([[i + 0.5, H - j - 0.5]]).expand(n, 2))


@case(bounds="one and two cameras whose focal lengths differ: the average is used", **C)
def pulsar_focal(ctx):
    R, t, K = opencv(ctx, 2)
    cam = pulsar_from_opencv_projection(R, t, K, torch.tensor([[4, 6]] * 2), znear=0.5)
    foc, width = cam[:, 9], cam[:, 10]
    ctx.eq("focal length over sensor width", foc * 6, width * (K[:, 0, 0] + K[:, 1, 1]) / 2)
    ctx.eq("principal point", cam[:, 11:], torch.stack((3 - K[:, 0, 2], K[:, 1, 2] - 2), -1))


# ------------------------------------------------------------------ look at
def turns(ctx, name, n, k):
    """frames (columns x, y, z) given by up to three turns: every rotation for k = 3"""
    cs = [ctx.unit(f"{name}{i}", 2, (n,)).unbind(-1) for i in range(k)]
    R = torch.eye(3)[None].expand(n, 3, 3)
    for (c, s), (i, j) in zip(cs, ((2, 0), (1, 2), (0, 1))):
        Q = torch.eye(3)[None].repeat(n, 1, 1)
        Q[:, i, i], Q[:, j, j], Q[:, i, j], Q[:, j, i] = c, c, -s, s
        R = R @ Q
    return R


def frame(ctx, n, k=3, tag=""):
    """every non-degenerate (eye, at, up): eye = at - d z, up = a y + b z for an orthonormal frame (x, y, z)"""
    R = turns(ctx, "F" + tag, n, k)
    x, y, z = R.unbind(-1)
    d = ctx.real("d" + tag, (n, 1), 0.125, 8)
    a = ctx.real("a" + tag, (n, 1), 0.125, 4)
    b = ctx.real("b" + tag, (n, 1), -4, 4)
    at = ctx.real("at" + tag, (n, 3), -4, 4)
    return R, at - d * z, at, a * y + b * z, d


@case(params=[dict(n=1, k=1), dict(n=1, k=2), dict(n=2, k=1), dict(n=2, k=2), dict(n=1, k=3, _case=dict(tier="thorough", budget=600))], bounds="one and two cameras; every non-degenerate eye, target and up vector", **C)
def look_at(ctx, n, k):
    F, eye, at, up, d = frame(ctx, n, k)
    R, T = look_at_view_transform(eye=eye, at=at, up=up)
    ctx.eq("rotation", R, F)
    ctx.eq("look_at_rotation", look_at_rotation(eye, at, up), F)
    w2v = get_world_to_view_transform(R=R, T=T)
    ctx.eq("the camera is at the eye", w2v.transform_points(eye[:, None]), torch.zeros(n, 1, 3))
    ctx.eq("the target is on the optical axis", w2v.transform_points(at[:, None])[:, 0], torch.cat((0 * d, 0 * d, d), -1))
    u = w2v.transform_points((eye + up)[:, None])[:, 0]
    ctx.eq("up has no sideways part", u[:, 0], torch.zeros(n))
    ctx.le("up is in the upper half plane", torch.full((n,), 1e-3), u[:, 1])


@case(params=[dict(which=w, form=f) for w in ("eye", "at", "up") for f in ("list", "one")], bounds="two cameras sharing an eye, a target or an up vector", **C)
def look_at_broadcast(ctx, which, form):
    F = turns(ctx, "F", 2, 1 if which == "up" else 2)
    d = ctx.real("d", (2, 1), 0.125, 8)
    z, y = F[..., 2], F[..., 1]
    c = [1.0, -2.0, 0.5] if form == "list" else ctx.real("c", (3,), -2, 2)
    shared = torch.tensor([c]) if form == "list" else c[None]
    arg = [c] if form == "list" else shared
    if which == "at":
        kw = dict(eye=shared - d * z, at=arg, up=y)
    elif which == "eye":
        kw = dict(eye=arg, at=shared + d * z, up=y)
    else:
        # a shared up vector: frames differ by a turn about x of the first
        a, b = ctx.unit("turn", 2).unbind(-1)
        ctx.assume(a >= 0.125)
        up = F[:1, :, 1]
        z2 = torch.stack((F[0, :, 2], a * F[0, :, 2] + b * F[0, :, 1]))
        F = torch.stack((F[0], torch.stack((F[0, :, 0], a * F[0, :, 1] - b * F[0, :, 2], z2[1]), -1)))
        at = ctx.real("at", (2, 3), -2, 2)
        kw = dict(eye=at - d * z2, at=at, up=up)
    R, T = look_at_view_transform(**kw)
    ctx.eq("rotation", R, F)
    e = kw["eye"] if torch.is_tensor(kw["eye"]) else shared
    ctx.eq("translation", (e.expand(2, 3)[:, None] @ R)[:, 0] + T, torch.zeros(2, 3))


@case(params=[dict(n=n, deg=g, scalar=s) for n in (1, 2) for g in (False, True) for s in (False, True) if not (s and n == 2)], bounds="one and two positions, radians and degrees, scalars and batches", **C)
def spherical(ctx, n, deg, scalar):
    lim = 400.0 if deg else 7.0
    d = ctx.real("dist", (n,), -4, 4)
    e = ctx.real("elev", (n,), -lim, lim)
    a = ctx.real("azim", (n,), -lim, lim)
    s = math.pi / 180.0 if deg else 1.0
    er, ar = s * e, s * a
    want = torch.stack((d * torch.cos(er) * torch.sin(ar), d * torch.sin(er), d * torch.cos(er) * torch.cos(ar)), -1)
    if scalar:
        got = camera_position_from_spherical_angles(d[0], e[0], a[0], degrees=deg)
    else:
        got = camera_position_from_spherical_angles(d, e, a, degrees=deg)
    ctx.eq("position", got, want)
    if n == 2:
        got = camera_position_from_spherical_angles(d, e[:1], a, degrees=deg)
        er = (s * e[:1]).expand(2)
        ctx.eq("shared elevation", got, torch.stack((d * torch.cos(er) * torch.sin(ar), d * torch.sin(er), d * torch.cos(er) * torch.cos(ar)), -1))
        got = camera_position_from_spherical_angles(2.0, e, 0.0, degrees=deg)
        ctx.eq("numbers", got, torch.stack((0 * e, 2 * torch.sin(s * e), 2 * torch.cos(s * e)), -1))


@case(params=[dict(n=n, deg=g, at=w) for n in (1, 2) for g in (False, True) for w in (False, True)], bounds="one and two cameras, free distance, elevation within 85 degrees, azimuth and target", **C)
def look_at_spherical(ctx, n, deg, at):
    """the camera given by distance, elevation and azimuth is at that position and looks at the target with the y axis up"""
    d = ctx.real("dist", (n,), 0.25, 4)
    e = ctx.real("elev", (n,), -80 if deg else -1.4, 80 if deg else 1.4)
    a = ctx.real("azim", (n,), -360 if deg else -7, 360 if deg else 7)
    s = math.pi / 180.0 if deg else 1.0
    ce, se, ca, sa = torch.cos(s * e), torch.sin(s * e), torch.cos(s * a), torch.sin(s * a)
    ctx.assume(ce >= 0.0625)
    c = ctx.real("at", (n, 3), -2, 2) if at else torch.zeros(n, 3)
    R, T = look_at_view_transform(d, e, a, degrees=deg, **(dict(at=c) if at else {}))
    x = torch.stack((-ca, 0 * ca, sa), -1)
    y = torch.stack((-se * sa, ce, -se * ca), -1)
    z = torch.stack((-ce * sa, -se, -ce * ca), -1)
    ctx.eq("rotation", R, torch.stack((x, y, z), -1))
    eye = c - d[:, None] * z
    ctx.eq("position", (eye[:, None] @ R)[:, 0] + T, torch.zeros(n, 3))


@case(params=[dict(n=1, k=2), dict(n=2, k=1), dict(n=1, k=3, _case=dict(tier="thorough", budget=600))], bounds="one and two cameras", **C)
def eye_at_up(ctx, n, k):
    R, T = turns(ctx, "R", n, k), ctx.real("T", (n, 3), -4, 4)
    eye, at, up = camera_to_eye_at_up(get_world_to_view_transform(R=R, T=T))
    ctx.eq("eye", (eye[:, None] @ R)[:, 0] + T, torch.zeros(n, 3))
    ctx.eq("at", at - eye, R[..., 2])
    ctx.eq("up", up, R[..., 1])
    R2, T2 = look_at_view_transform(eye=eye, at=at, up=up)
    ctx.eq("rotation recovered", R2, R)
    ctx.eq("translation recovered", T2, T)


@case(params=[dict(n=n, m=m) for n, m in ((0, 0), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 0), (0, 2))], bounds="batches of one and two cameras and rotations, also unbatched", **C)
def on_spot(ctx, n, m):
    R, T = extrinsics(ctx, max(n, 1))
    Q, _ = ctx.rotation("Q", (max(m, 1),))
    R2, T2 = rotate_on_spot(R if n else R[0], T if n else T[0], Q if m else Q[0])
    k = max(n, m, 1)
    ctx.true("shape", tuple(R2.shape) == (k, 3, 3) and tuple(T2.shape) == (k, 3))
    ctx.eq("the new rotation is the old one followed by the inverse of the given", R2, (R @ Q.transpose(1, 2)).expand(k, 3, 3))
    c = -(T[:, None] @ R.transpose(1, 2)).expand(k, 1, 3)
    ctx.eq("the camera stays where it is", (c @ R2)[:, 0] + T2, torch.zeros(k, 3))


@case(params=[dict(model=m, K=k, sizes=s, screen=v) for m in CLS for k in (False, True) for s in ((1, 1), (2, 1), (1,), (1, 2, 1)) for v in ((False, True) if m in ("persp", "ortho") else (False,)) if not (v and len(s) == 3)], bounds="up to three batches of up to two cameras", **C)
def joining(ctx, model, K, sizes, screen):
    cams, ws, outs, nds = [], [], [], []
    for i, n in enumerate(sizes):
        a, proj = intrinsics(ctx, model, n, str(i), K=K)
        R, T = extrinsics(ctx, n, str(i), free=False)
        if screen:
            a.update(in_ndc=False, image_size=torch.tensor([(4, 2 + 2 * i)] * n))
        c = CLS[model](R=R, T=T, **a)
        v = ctx.real(f"v{i}", (n, 1, 3), -4, 4)
        if model in ("fovp", "persp"):
            ctx.assume(v[..., 2] != 0)
        cams.append(c)
        ws.append(v - T[:, None])
        outs.append(c.transform_points(ws[-1]))
        nds.append(c.transform_points_ndc(ws[-1]))
    j = join_cameras_as_batch(cams)
    ctx.true("type and length", type(j) is type(cams[0]) and len(j) == sum(sizes) and j.in_ndc() == (not screen))
    w = torch.cat(ws)
    ctx.eq("points", j.transform_points(w), torch.cat(outs))
    ctx.eq("ndc", j.transform_points_ndc(w), torch.cat(nds))
    if screen:
        ctx.eq("screen", j.transform_points_screen(w), torch.cat([c.transform_points_screen(x) for c, x in zip(cams, ws)]))


@case(bounds="inconsistent lists", **C)
def joining_rejects(ctx):
    R, T = extrinsics(ctx, 1)
    p = PerspectiveCameras(R=R, T=T)
    bad = [
        [p, OrthographicCameras(R=R, T=T)],
        [p, PerspectiveCameras(R=R, T=T, in_ndc=False, image_size=((4, 4),))],
        [FoVPerspectiveCameras(R=R, T=T), FoVPerspectiveCameras(R=R, T=T, degrees=False)],
        [p, PerspectiveCameras(R=R, T=T, image_size=((4, 4),))],
    ]
    for b in bad:
        try:
            join_cameras_as_batch(b)
            ctx.true("inconsistent cameras raise", False)
        except ValueError:
            ctx.true("inconsistent cameras raise", True)
