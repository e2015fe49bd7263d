"""cameras with symbolic parameters and their documented projections, shared by C08, C09 and others"""
import math

import torch
from pytorch3d.renderer.cameras import FoVOrthographicCameras, FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras

CLS = dict(fovp=FoVPerspectiveCameras, fovo=FoVOrthographicCameras, persp=PerspectiveCameras, ortho=OrthographicCameras)


def eye4(n):
    return torch.zeros(n, 4, 4)


def intrinsics(ctx, model, n, tag="", K=False, scalar=False, degrees=False):
    """(constructor arguments, function of view points (n, P, 3) -> documented projected (x, y, scaled depth))"""
    col = lambda v: v[:, None]
    if K:
        # calibration matrices of the documented pattern with every entry free (skew included)
        if model in ("fovp", "persp"):
            e = ctx.real("K" + tag, (n, 6), -4, 4)
            f = ctx.real("Kz" + tag, (n, 2), 0.25, 4)
            ctx.assume(e[:, 0] * e[:, 4] != e[:, 1] * e[:, 3])
            k = eye4(n)
            k[:, 0, :3], k[:, 1, :3], k[:, 3, 2] = e[:, :3], e[:, 3:], 1.0
            if model == "persp":
                k[:, 2, 3] = 1.0
                f = torch.stack((torch.zeros_like(f[:, 0]), torch.ones_like(f[:, 0])), -1)
            else:
                k[:, 2, 2], k[:, 2, 3] = f[:, 0], -f[:, 1]
                f = torch.stack((f[:, 0], -f[:, 1]), -1)

            def proj(v):
                X, Y, Z = v.unbind(-1)
                g = lambda i: e[:, i : i + 1]
                return torch.stack(((g(0) * X + g(1) * Y) / Z + g(2), (g(3) * X + g(4) * Y) / Z + g(5), f[:, :1] + f[:, 1:] / Z), -1)
        else:
            e = ctx.real("K" + tag, (n, 6), -4, 4)
            f = ctx.real("Kz" + tag, (n, 2), 0.25, 4)
            if model == "ortho":
                f = torch.stack((torch.ones_like(f[:, 0]), torch.zeros_like(f[:, 0])), -1)
            ctx.assume(e[:, 0] * e[:, 4] != e[:, 1] * e[:, 3])
            k = eye4(n)
            k[:, 0, :2], k[:, 0, 3], k[:, 1, :2], k[:, 1, 3], k[:, 3, 3] = e[:, :2], e[:, 2], e[:, 3:5], e[:, 5], 1.0
            k[:, 2, 2], k[:, 2, 3] = f[:, 0], f[:, 1]

            def proj(v):
                X, Y, Z = v.unbind(-1)
                g = lambda i: e[:, i : i + 1]
                return torch.stack((g(0) * X + g(1) * Y + g(2), g(3) * X + g(4) * Y + g(5), f[:, :1] * Z + f[:, 1:]), -1)

        return dict(K=k), proj
    if model == "fovp":
        near = ctx.real("znear" + tag, (n,), 0.25, 2)
        far = ctx.real("zfar" + tag, (n,), 3, 50)
        asp = ctx.real("aspect" + tag, (n,), 0.25, 4)
        fov = ctx.real("fov" + tag, (n,), 18, 160) if degrees else ctx.real("fov" + tag, (n,), 0.3, 2.8)
        t = torch.tan((math.pi / 180) * fov / 2 if degrees else fov / 2)

        def proj(v):
            X, Y, Z = v.unbind(-1)
            f1, f2 = far / (far - near), -far * near / (far - near)
            return torch.stack((X / (Z * col(t * asp)), Y / (Z * col(t)), (col(f1) * Z + col(f2)) / Z), -1)

        return dict(znear=near, zfar=far, aspect_ratio=asp, fov=fov, degrees=degrees), proj
    if model == "fovo":
        near = ctx.real("znear" + tag, (n,), 0.25, 2)
        far = ctx.real("zfar" + tag, (n,), 3, 50)
        lo = ctx.real("min" + tag, (n, 2), -4, -0.25)
        hi = ctx.real("max" + tag, (n, 2), 0.5, 4)
        s = ctx.real("scale" + tag, (n, 3), 0.25, 4)

        def proj(v):
            X, Y, Z = v.unbind(-1)
            w, m = hi - lo, (hi + lo) / (hi - lo)
            return torch.stack((X * col(2 * s[:, 0] / w[:, 0]) - col(m[:, 0]), Y * col(2 * s[:, 1] / w[:, 1]) - col(m[:, 1]), Z * col(s[:, 2] / (far - near)) - col(near / (far - near))), -1)

        return dict(znear=near, zfar=far, min_x=lo[:, 0], min_y=lo[:, 1], max_x=hi[:, 0], max_y=hi[:, 1], scale_xyz=s), proj
    f = ctx.real("f" + tag, (n, 1 if scalar else 2), 0.25, 8)
    p = ctx.real("p" + tag, (n, 2), -4, 4)

    def proj(v):
        X, Y, Z = v.unbind(-1)
        fx, fy = f[:, :1], f[:, -1:]
        if model == "persp":
            return torch.stack((fx * X / Z + p[:, :1], fy * Y / Z + p[:, 1:], 1 / Z), -1)
        return torch.stack((fx * X + p[:, :1], fy * Y + p[:, 1:], Z + 0 * X), -1)

    return dict(focal_length=f[:, 0] if scalar == "flat" else f, principal_point=p), proj


def extrinsics(ctx, n, tag="", free=True):
    if not free:
        return torch.eye(3)[None].expand(n, 3, 3).clone(), ctx.real("T" + tag, (n, 3), -4, 4)
    R, _ = ctx.rotation("R" + tag, (n,))
    return R, ctx.real("T" + tag, (n, 3), -4, 4)


def build(ctx, model, n=1, size=None, screen=False, tag="", free=True, **kw):
    """(camera, R, T, documented projection in the camera's own space, documented projection to NDC)"""
    a, proj = intrinsics(ctx, model, n, tag, **kw)
    R, T = extrinsics(ctx, n, tag, free)
    if screen:
        a["in_ndc"] = False
        a["image_size"] = torch.tensor(size, dtype=torch.float32)[None].expand(n, 2) if isinstance(size[0], int) else torch.tensor(size, dtype=torch.float32)
    cam = CLS[model](R=R, T=T, **a)

    def ndc(v):
        if not screen:
            return proj(v)
        # screen parameters: x_ndc = -(x_screen - W / 2) * 2 / s with x_screen = p - f X / Z (image x points right)
        hw = a["image_size"]
        s = hw.min(1).values
        z = torch.zeros_like(v)
        z[..., 2] = v[..., 2]
        base = proj(v)
        c = principal(cam, a, model)
        xs = c[:, :1] - (base[..., 0] - c[:, :1])
        ys = c[:, 1:] - (base[..., 1] - c[:, 1:])
        return torch.stack((-(xs - hw[:, 1:] / 2) * 2 / s[:, None], -(ys - hw[:, :1] / 2) * 2 / s[:, None], base[..., 2]), -1)

    return cam, R, T, proj, ndc


def principal(cam, a, model):
    if "K" in a:
        return a["K"][:, :2, 2 if model == "persp" else 3]
    return a["principal_point"]


def world_points(ctx, R, T, n, model, count=1, tag=""):
    """(world points, view points); view points are free with non-zero depth and world = (view - T) R^T"""
    v = ctx.real("view" + tag, (n, count, 3), -4, 4)
    if model in ("fovp", "persp"):
        ctx.assume(v[..., 2] != 0)
    return (v - T[:, None]) @ R.transpose(1, 2), v


def depth(v, z):
    return torch.cat((v[..., :2], z), -1)
