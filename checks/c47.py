"""C47: rasterizer modules and shaders hand over consistent positions, depths and fragments."""
from unittest import mock
import torch
from symx.harness import case
from pytorch3d.renderer.blending import BlendParams
from pytorch3d.renderer.cameras import FoVOrthographicCameras, FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras
from pytorch3d.renderer.mesh import rasterizer as mesh_rasterizer
from pytorch3d.renderer.mesh.rasterizer import Fragments, MeshRasterizer, RasterizationSettings
from pytorch3d.renderer.mesh.renderer import MeshRenderer, MeshRendererWithFragments
from pytorch3d.renderer.mesh.shader import HardDepthShader, SoftDepthShader, SoftSilhouetteShader
from pytorch3d.renderer.mesh.utils import _clip_barycentric_coordinates, _interpolate_zbuf
from pytorch3d.renderer.points import rasterizer as points_rasterizer
from pytorch3d.renderer.points.rasterizer import PointsRasterizationSettings, PointsRasterizer
from pytorch3d.structures import Meshes, Pointclouds

KW = dict(dtype="float32", feas_ms=200)
ROT = torch.tensor([[[0.6, 0, 0.8], [0, 1, 0], [-0.8, 0, 0.6]], [[1.0, 0, 0], [0, 0.8, -0.6], [0, 0.6, 0.8]]])
TR = torch.tensor([[0.25, -0.5, 4.0], [-0.25, 0.5, 5.0]])
SIZE = torch.tensor([[4, 6], [5, 3]])
V = torch.tensor([[0.25, 0.5, 0.125], [-0.5, 0.25, 0.5], [0.5, -0.75, -0.25], [-0.25, -0.5, 0.75]])


def camera(ctx, kind, n):
    """cameras with symbolic focal length and principal point, and the NDC position of a view point"""
    f, pp = ctx.real("f", (n, 2), 0.5, 2), ctx.real("pp", (n, 2), -1, 1)
    R, T = ROT[:n], TR[:n]
    if kind in ("perspective", "orthographic"):
        C = PerspectiveCameras if kind == "perspective" else OrthographicCameras
        div = (lambda q: q[2]) if kind == "perspective" else (lambda q: 1.0)
        return C(R=R, T=T, focal_length=f, principal_point=pp), lambda b, q: f[b] * q[:2] / div(q) + pp[b]
    if kind.startswith("screen"):
        C = PerspectiveCameras if kind == "screen" else OrthographicCameras
        div = (lambda q: q[2]) if kind == "screen" else (lambda q: 1.0)
        size = SIZE[:n]

        def ndc(b, q):
            s = f[b] * q[:2] / div(q)
            h, w = float(size[b, 0]), float(size[b, 1])
            # screen: +x right, +y down from the upper left corner; the camera's axes point left and up
            x, y = -s[0] + pp[b, 0], -s[1] + pp[b, 1]
            return torch.stack([(w / 2 - x) * 2 / min(h, w), (h / 2 - y) * 2 / min(h, w)])
        return C(R=R, T=T, focal_length=f, principal_point=pp, in_ndc=False, image_size=size), ndc
    if kind == "fov":
        a = ctx.real("aspect", (n,), 0.5, 2)
        fov = ctx.const([0.875] * n)
        t = torch.tan(fov / 2)[0]
        return FoVPerspectiveCameras(R=R, T=T, fov=fov, degrees=False, aspect_ratio=a), lambda b, q: torch.stack([q[0] / (t * a[b]), q[1] / t]) / q[2]
    m = ctx.real("size", (n, 2), 0.5, 2)
    cam = FoVOrthographicCameras(R=R, T=T, max_x=m[:, 0], min_x=-m[:, 0], max_y=m[:, 1], min_y=-m[:, 1])
    return cam, lambda b, q: torch.stack([q[0] / m[b, 0], q[1] / m[b, 1]])


@case(params=[dict(kind=k, obj=o, n=n, late=l) for k in ("perspective", "orthographic", "screen", "screen-ortho", "fov", "fov-ortho") for o in ("mesh", "points")
              for n, l in ((1, False), (2, True))], **KW)
def transform(ctx, kind, obj, n, late):
    """NDC position by the camera of the own batch element, view-space depth; structure unchanged"""
    cams, ndc = camera(ctx, kind, n)
    z = ctx.real("p", (3,), -1, 1)
    verts = [torch.cat([z[None], V[:2]]), V.clone()]
    if obj == "mesh":
        world = Meshes(verts, [torch.tensor([[0, 1, 2]]), torch.tensor([[0, 1, 2], [1, 3, 2]])])
    else:
        world = Pointclouds(verts)
    cls = MeshRasterizer if obj == "mesh" else PointsRasterizer
    out = cls().transform(world, cameras=cams) if late else cls(cameras=cams).transform(world)
    got = out.verts_list() if obj == "mesh" else out.points_list()
    ctx.true("layout", [len(g) for g in got] == [3, 4])
    for b in range(2):
        c = b if n == 2 else 0
        for i in (0, len(verts[b]) - 1):
            q = verts[b][i] @ ROT[c] + TR[c]
            ctx.eq("view-space depth", got[b][i, 2], q[2], tol=(1e-4, 1e-4))
            ctx.eq("position in NDC", got[b][i, :2], ndc(c, q), tol=(1e-3, 1e-3))
        ctx.eq("the input is unchanged", (world.verts_list() if obj == "mesh" else world.points_list())[b], verts[b])


@case(params=[dict(obj=o, bad=b) for o in ("mesh", "points") for b in ("none", "count") if (o, b) != ("points", "count")], **KW)
def transform_refused(ctx, obj, bad):
    p = torch.cat([ctx.real("p", (1, 3)), V])
    world = Meshes([p] * 3, [torch.tensor([[0, 1, 2]])] * 3) if obj == "mesh" else Pointclouds([p])
    cls = MeshRasterizer if obj == "mesh" else PointsRasterizer
    try:
        cls().transform(world, **({} if bad == "none" else dict(cameras=FoVPerspectiveCameras(R=ROT, T=TR))))
        refused = False
    except ValueError:
        refused = True
    ctx.true("missing or mismatching cameras are refused", refused)


@case(params=[dict(kind=k, blur=b, given=g) for k in ("fov", "fov-ortho", "perspective") for b in (0.0, 0.5) for g in (False, True)], **KW)
def handed_over(ctx, kind, blur, given):
    """the settings given to the kernels: those of the user, else the documented ones of the camera"""
    near = (ctx.pick("near0", (0.5, 1.0, 3.0)), ctx.pick("near1", (0.75, 2.0)))
    cls = {"fov": FoVPerspectiveCameras, "fov-ortho": FoVOrthographicCameras, "perspective": PerspectiveCameras}[kind]
    cams = cls(R=ROT, T=TR, **({} if kind == "perspective" else dict(znear=torch.tensor(near))))
    seen = {}

    def record(mesh, **kw):
        seen.update(kw, mesh=mesh)
        return tuple(frag)
    frag = [torch.zeros(1), torch.ones(1), torch.full((1,), 2.0), torch.full((1,), 3.0)]
    settings = dict(image_size=(3, 5), blur_radius=blur, faces_per_pixel=2, bin_size=0, max_faces_per_bin=7, cull_backfaces=True, cull_to_frustum=True)
    if given:
        settings.update(perspective_correct=kind != "fov", clip_barycentric_coords=blur == 0.0, z_clip_value=0.25)
    p = torch.cat([ctx.real("p", (1, 3), -1, 1), V])
    world = Meshes([p, V], [torch.tensor([[0, 1, 2]])] * 2)
    late = ctx.fork(ctx.boolean("late"))
    r = MeshRasterizer(cams, RasterizationSettings() if late else RasterizationSettings(**settings))
    with mock.patch.object(mesh_rasterizer, "rasterize_meshes", record):
        f = r(world, **(dict(raster_settings=RasterizationSettings(**settings)) if late else {}))
    ctx.true("fragments in order", f.pix_to_face is frag[0] and f.zbuf is frag[1] and f.bary_coords is frag[2] and f.dists is frag[3])
    ctx.eq("projected mesh", seen["mesh"].verts_packed(), r.transform(world).verts_packed())
    ctx.true("given settings", all(seen[k] == settings[k] for k in ("image_size", "blur_radius", "faces_per_pixel", "bin_size", "max_faces_per_bin", "cull_backfaces", "cull_to_frustum")))
    persp = settings.get("perspective_correct", kind != "fov-ortho")
    ctx.true("perspective correction", seen["perspective_correct"] == persp)
    ctx.true("barycentric clipping", seen["clip_barycentric_coords"] == settings.get("clip_barycentric_coords", blur > 0))
    clip = 0.25 if given else None if not persp or kind == "perspective" else min(near) / 2
    ctx.true("near clipping", seen["z_clip_value"] == clip if clip is None else abs(seen["z_clip_value"] - clip) < 1e-6)


@case(params=[dict(radius=r) for r in ("float", "tensor")], **KW)
def handed_over_points(ctx, radius):
    cams, _ = camera(ctx, "perspective", 1)
    seen = {}
    frag = [torch.zeros(1), torch.ones(1), torch.full((1,), 2.0)]
    rad = 0.25 if radius == "float" else ctx.real("r", (1, 4), 0.1, 1)
    st = PointsRasterizationSettings(image_size=(4, 2), radius=rad, points_per_pixel=3, bin_size=0, max_points_per_bin=5)
    world = Pointclouds([V])

    def record(p, **kw):
        seen.update(kw, cloud=p)
        return tuple(frag)
    r = PointsRasterizer(cams, st)
    with mock.patch.object(points_rasterizer, "rasterize_points", record):
        f = r(world)
    ctx.true("fragments in order", f.idx is frag[0] and f.zbuf is frag[1] and f.dists is frag[2])
    ctx.true("given settings", seen["image_size"] == (4, 2) and seen["radius"] is rad and seen["points_per_pixel"] == 3 and seen["bin_size"] == 0 and seen["max_points_per_bin"] == 5)
    ctx.eq("projected points", seen["cloud"].points_packed(), r.transform(world).points_packed())


def fragments(ctx, N, H, W, K):
    """K slots per pixel: filled from the front; unfilled slots hold -1"""
    idx = torch.full((N, H, W, K), -1, dtype=torch.int64)
    filled = [ctx.pick(f"filled{i}", tuple(range(K + 1))) for i in range(min(2, N * H * W))]
    k = 0
    for n in range(N):
        for h in range(H):
            for w in range(W):
                c = filled[k % len(filled)] if k % 3 else filled[0]
                k += 1
                idx[n, h, w, :c] = n
    mask = idx >= 0
    m1 = -torch.ones(())
    z = torch.where(mask, ctx.real("z", (N, H, W, K), 0.5, 8), m1)
    d = torch.where(mask, ctx.real("d", (N, H, W, K), -1, 1), m1)
    bary = torch.where(mask[..., None], torch.tensor([0.5, 0.25, 0.25]), m1)
    return Fragments(pix_to_face=idx, zbuf=z, bary_coords=bary, dists=d), mask


FAR = ("camera", "cameras", "kwarg", "default")


def far_plane(ctx, far, N):
    """cameras, keyword arguments, far distance per batch element"""
    if far == "kwarg":
        z = ctx.real("far", (), 9, 20)
        return FoVPerspectiveCameras(), dict(zfar=z), [z] * N
    if far == "default":
        return PerspectiveCameras(), {}, [torch.tensor(100.0)] * N
    n = N if far == "cameras" else 1
    z = ctx.real("far", (n,), 9, 20)
    return FoVPerspectiveCameras(R=ROT[:n], T=TR[:n], zfar=z), {}, [z[b if n > 1 else 0] for b in range(N)]


@case(params=[dict(far=f, shape=s) for f in FAR for s in [(1, 1, 2, 2), (2, 2, 1, 1), (2, 1, 2, 2)]], **KW)
def hard_depth(ctx, far, shape):
    """the depth of the nearest face, the far plane of the own camera elsewhere"""
    cams, kw, z = far_plane(ctx, far, shape[0])
    fr, mask = fragments(ctx, *shape)
    keep = fr.zbuf.clone()
    late = ctx.fork(ctx.boolean("late"))
    out = HardDepthShader()(fr, None, cameras=cams, **kw) if late else HardDepthShader(cameras=cams)(fr, None, **kw)
    ctx.true("shape", tuple(out.shape) == shape[:3] + (1,))
    for n in range(shape[0]):
        for h in range(shape[1]):
            for w in range(shape[2]):
                ctx.eq("depth", out[n, h, w, 0], keep[n, h, w, 0] if mask[n, h, w, 0] else z[n])
    ctx.eq("fragments are unchanged", fr.zbuf, keep)


@case(params=[dict(far=f, shape=s) for f in FAR for s in [(1, 1, 1, 2), (2, 1, 1, 1), (2, 1, 2, 1)]], **KW)
def soft_depth(ctx, far, shape):
    """depths weighted by the probabilities of the faces until they add up to one, the rest by the far plane"""
    cams, kw, z = far_plane(ctx, far, shape[0])
    fr, mask = fragments(ctx, *shape)
    sigma = 0.5
    out = SoftDepthShader(cameras=cams, blend_params=BlendParams(sigma=sigma))(fr, None, **kw)
    ctx.true("shape", tuple(out.shape) == shape[:3] + (1,))
    for n in range(shape[0]):
        for h in range(shape[1]):
            for w in range(shape[2]):
                left, want = torch.ones(()), torch.zeros(())
                for k in range(shape[3]):
                    if mask[n, h, w, k]:
                        p = torch.sigmoid(-fr.dists[n, h, w, k] / sigma)
                        p = left if ctx.fork(p > left) else p
                        want, left = want + p * fr.zbuf[n, h, w, k], left - p
                ctx.eq("depth", out[n, h, w, 0], want + left * z[n], tol=(1e-4, 1e-4))


@case(params=[dict(shape=s) for s in [(1, 1, 2, 2), (2, 2, 1, 2)]], cpp=["sigmoid_alpha_blend"], **KW)
def silhouette(ctx, shape):
    """one minus the product of the probabilities of missing every face"""
    fr, mask = fragments(ctx, *shape)
    out = SoftSilhouetteShader(blend_params=BlendParams(sigma=0.5))(fr, None)
    ctx.true("shape", tuple(out.shape) == shape[:3] + (4,))
    for n in range(shape[0]):
        for h in range(shape[1]):
            for w in range(shape[2]):
                miss = torch.ones(())
                for k in range(shape[3]):
                    if mask[n, h, w, k]:
                        miss = miss * (1 - torch.sigmoid(-fr.dists[n, h, w, k] / 0.5))
                ctx.eq("alpha", out[n, h, w, 3], 1 - miss, tol=(1e-5, 1e-5))
                ctx.eq("white", out[n, h, w, :3], torch.ones(3))


@case(params=["bg", "inside", "any"], **KW)
def clip_bary(ctx, p):
    """negative coordinates become zero, the rest sums to one; missing fragments stay -1"""
    a = ctx.real("a", (2,), -1.5, 1.5)
    b = torch.stack([a[0], a[1], 1 - a[0] - a[1]]) if p != "bg" else -torch.ones(3)
    if p == "inside":
        ctx.assume(b[0] >= 0), ctx.assume(b[1] >= 0), ctx.assume(b[2] >= 0)
    out = _clip_barycentric_coordinates(torch.stack([b, -torch.ones(3)])[None])[0]
    ctx.eq("missing fragment", out[1], -torch.ones(3))
    if p == "bg":
        ctx.eq("missing", out[0], -torch.ones(3))
    elif p == "inside":
        ctx.eq("unchanged", out[0], b, tol=(1e-5, 1e-5))
    else:
        c = [x if ctx.fork(x > 0) else torch.zeros(()) for x in b]
        ctx.eq("clipped", out[0], torch.stack(c) / sum(c), tol=(1e-5, 1e-5))
        ctx.eq("sum", out[0].sum(), 1.0, tol=(1e-5, 1e-5))


@case(params=[dict(K=k) for k in (1, 2)], **KW)
def interpolated_depth(ctx, K):
    """depth of valid fragments from their own face's vertices; -1 elsewhere"""
    v = ctx.real("v", (4, 3))
    mesh = Meshes([v, V[:3]], [torch.tensor([[0, 1, 2], [1, 3, 2]]), torch.tensor([[2, 0, 1]])])
    faces, verts = mesh.faces_packed(), mesh.verts_packed()
    idx = torch.tensor([[[[ctx.pick(f"i{n}{k}", (-1, 0, 1, 2)) for k in range(K)]] for n in range(2)]]).reshape(2, 1, 1, K)
    b = ctx.real("b", (2, 1, 1, K, 3), -1, 1)
    out = _interpolate_zbuf(idx, b, mesh)
    for n in range(2):
        for k in range(K):
            i = int(idx[n, 0, 0, k])
            ctx.eq("depth", out[n, 0, 0, k], torch.tensor(-1.0) if i < 0 else (b[n, 0, 0, k] * verts[faces[i], 2]).sum())


@case(params=[dict(both=b) for b in (False, True)], **KW)
def renderer(ctx, both):
    """the shader gets the rasterizer's fragments with recomputed depth only where asked, and the same meshes"""
    v = torch.cat([ctx.real("v", (1, 3), -1, 1), V])
    mesh = Meshes([v], [torch.tensor([[0, 1, 2]])])
    fr = Fragments(pix_to_face=torch.zeros(1, 1, 1, 1, dtype=torch.int64), zbuf=ctx.real("z", (1, 1, 1, 1)), bary_coords=torch.full((1, 1, 1, 1, 3), 1 / 3), dists=None)
    seen = []

    class Raster(torch.nn.Module):
        def forward(self, m, **kw):
            seen.append((m, kw))
            return fr

    class Shade(torch.nn.Module):
        def forward(self, f, m, **kw):
            seen.append((f, m, kw))
            return f.zbuf + 1
    out = (MeshRendererWithFragments if both else MeshRenderer)(Raster(), Shade())(mesh, extra=3)
    img = out[0] if both else out
    ctx.true("fragments are returned", not both or out[1] is fr)
    ctx.true("same objects and arguments", seen[0][0] is mesh and seen[1][0] is fr and seen[1][1] is mesh and seen[0][1] == seen[1][2] == dict(extra=3))
    ctx.eq("image", img, fr.zbuf + 1)
