"""C33: lighting and shading follow the reflection model."""
import torch
from symx.harness import case
from pytorch3d.renderer.lighting import AmbientLights, DirectionalLights, PointLights, diffuse, specular
from pytorch3d.renderer.materials import Materials
from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.renderer.mesh.shading import flat_shading, gouraud_shading, phong_shading
from pytorch3d.renderer.mesh.textures import TexturesVertex
from pytorch3d.renderer.cameras import FoVPerspectiveCameras
from pytorch3d.structures import Meshes
from checks.common import cross, dot

KW = dict(dtype="float32", prove_ms=20000, feas_ms=200)
MIN = 1.0 / 16


def long(ctx, *vs):
    """lengths above the normaliser's floor"""
    for v in vs:
        ctx.assume(dot(v, v) >= MIN)


def unit(v):
    return v / torch.sqrt(dot(v, v))


def lambert(ctx, n, color, d):
    """colour times the clamped cosine (all of shape (3,))"""
    c = dot(unit(n), unit(d))
    return color * c if ctx.fork(c > 0) else torch.zeros(3)


def shine(ctx, p, n, color, d, cam, power):
    """colour times the clamped cosine of the reflected direction and the direction to the camera, on lit sides only"""
    n, d = unit(n), unit(d)
    c = dot(n, d)
    if not ctx.fork(c > 0):
        return torch.zeros(3)
    r = 2 * c * n - d
    a = dot(unit(cam - p), r)
    return color * a ** power if ctx.fork(a > 0) else torch.zeros(3)


SHAPES = [(1,), (2,), (1, 2), (2, 1), (2, 2), (1, 1, 2, 1), (2, 1, 1, 2)]


@case(params=[dict(shape=s, n=n, where=w) for s in SHAPES for n in (1, 2) for w in ("function", "lights") if n in (1, s[0])], bounds="up to four points of one or two batch elements with their own colour and direction", **KW)
def diffuse_directional(ctx, shape, n, where):
    nrm = ctx.real("n", shape + (3,), -2, 2)
    col, d = ctx.real("c", (n, 3), 0, 1), ctx.real("d", (n, 3), -2, 2)
    long(ctx, nrm, d)
    if where == "function":
        got = diffuse(nrm, col, d)
    else:
        got = DirectionalLights(diffuse_color=col, direction=d).diffuse(nrm, None)
    ctx.true("shape", got.shape == nrm.shape)
    for i in torch.cartesian_prod(*[torch.arange(k) for k in shape]).reshape(-1, len(shape)).tolist():
        i = tuple(i)
        b = i[0] if n > 1 else 0
        ctx.eq("diffuse light", got[i], lambert(ctx, nrm[i], col[b], d[b]), tol=(1e-4, 1e-4))


@case(params=[dict(shape=s, n=n) for s in ((2,), (1, 1, 2, 1), (2, 1, 1, 1)) for n in (1, 2) if n in (1, s[0])], bounds="up to two points of one or two batch elements", **KW)
def diffuse_point(ctx, shape, n):
    p, nrm = ctx.real("p", shape + (3,), -2, 2), ctx.real("n", shape + (3,), -2, 2)
    col, loc = ctx.real("c", (n, 3), 0, 1), ctx.real("l", (n, 3), -4, 4)
    got = PointLights(diffuse_color=col, location=loc).diffuse(nrm, p)
    ctx.true("shape", got.shape == nrm.shape)
    for i in torch.cartesian_prod(*[torch.arange(k) for k in shape]).reshape(-1, len(shape)).tolist():
        i = tuple(i)
        b = i[0] if n > 1 else 0
        long(ctx, nrm[i], loc[b] - p[i])
        ctx.eq("diffuse light", got[i], lambert(ctx, nrm[i], col[b], loc[b] - p[i]), tol=(1e-4, 1e-4))


GIVEN = dict(
    p=[[0.25, -0.5, 1.0], [1.5, 0.5, -0.25]],
    n=[[0.5, 1.0, 0.25], [-0.25, 0.75, 1.0]],
    d=[[1.0, 2.0, -0.5], [0.5, 0.25, 3.0]],
    e=[[-1.0, 2.0, 1.5], [2.0, 1.0, 2.5]],
)


@case(params=[dict(shape=s, n=n, kind=k, power=q, free=f) for s in ((1,), (2,), (1, 1, 2, 1), (2, 1, 1, 1)) for n in (1, 2) for k in ("function", "directional", "point") for q, f in ((1, "n"), (3, "n"), (2, "d"), (1, "e"), (1, "p")) if n in (1, s[0]) and (f == "n" or s != (1,)) and not (q == 3 and s == (2,))],
      bounds="up to two points of one or two batch elements, shininess 1 to 4; colours and one of normals, light directions, camera positions and points symbolic", **KW)
def specular_light(ctx, shape, n, kind, power, free):
    def vec(k, lead):
        if k == free:
            return ctx.real(k, lead + (3,), -2, 2)
        g = torch.tensor(GIVEN[k])
        m = 1
        for q in lead:
            m = m * q
        return g[:m].reshape(lead + (3,))

    p, nrm = vec("p", shape), vec("n", shape)
    col, d, cam = ctx.real("c", (n, 3), 0, 1), vec("d", (n,)), vec("e", (n,))
    sh = torch.tensor([float(power + b) for b in range(n)])
    idx = [tuple(i) for i in torch.cartesian_prod(*[torch.arange(k) for k in shape]).reshape(-1, len(shape)).tolist()]
    for i in idx:
        b = i[0] if n > 1 else 0
        long(ctx, nrm[i], cam[b] - p[i], d[b] - p[i] if kind == "point" else d[b])
    if kind == "function":
        got = specular(p, nrm, d, col, cam, sh)
    elif kind == "directional":
        got = DirectionalLights(specular_color=col, direction=d).specular(nrm, p, cam, sh)
    else:
        got = PointLights(specular_color=col, location=d).specular(nrm, p, cam, sh)
    ctx.true("shape", got.shape == nrm.shape)
    for i in idx:
        b = i[0] if n > 1 else 0
        ctx.eq("specular light", got[i], shine(ctx, p[i], nrm[i], col[b], d[b] - p[i] if kind == "point" else d[b], cam[b], power + b), tol=(1e-4, 1e-4))


@case(params=["normal", "direction", "both"], bounds="one point; symbolic positive factors", **KW)
def scaling(ctx, what):
    """lengths of normals and directions do not matter"""
    p, n, c, d, e = (ctx.real(k, (1, 3), -2, 2) for k in "pncde")
    a, b = ctx.real("a", (), 1, 4), ctx.real("b", (), 1, 4)
    long(ctx, n, d, e - p)
    n2, d2 = n * a if what != "direction" else n, d * b if what != "normal" else d
    sh = torch.tensor([2.0])
    ctx.eq("diffuse", diffuse(n2, c, d2), diffuse(n, c, d), tol=(1e-4, 1e-4))
    ctx.eq("specular", specular(p, n2, d2, c, e, sh), specular(p, n, d, c, e, sh), tol=(1e-4, 1e-4))


@case(params=[dict(shape=s, ch=c, n=n) for s in ((2,), (2, 1, 1, 1)) for c in (1, 3, 5) for n in (1, 2)], bounds="up to two points, one to five channels", **KW)
def ambient_lights(ctx, shape, ch, n):
    col = ctx.real("c", (n, ch), 0, 1)
    l = AmbientLights(ambient_color=col)
    p = ctx.real("p", shape + (3,), -2, 2)
    ctx.eq("no diffuse light", l.diffuse(p, p), torch.zeros(shape + (ch,)))
    ctx.eq("no specular light", l.specular(p, p, None, None), torch.zeros(shape + (ch,)))
    ctx.eq("colour", l.ambient_color, col)


FACES = [[[0, 1, 2]], [[0, 1, 2], [2, 1, 3]]]
VERTS = [[[0.0, 0.0, 1.0], [2.0, 0.0, 1.5], [0.0, 2.0, 0.5]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.25], [0.0, 0.0, 2.0], [1.5, 1.5, 1.0]]]


NORMALS = [[0.5, 0.25, -1.0], [1.0, 0.5, -0.25], [-0.5, 1.0, 0.75], [0.25, -0.75, 1.0]]


def scene(ctx, n, lights, nl, nm):
    """n meshes with fixed vertices; lights, materials, barycentric coordinates and colours are symbolic"""
    verts = [torch.tensor(VERTS[i % 2]) for i in range(n)]
    feats = [ctx.real(f"f{i}", (len(v), 3), 0, 1) for i, v in enumerate(verts)]
    nrm = [torch.tensor(NORMALS)[: len(v)] + 0.25 * i for i, v in enumerate(verts)]
    m = Meshes(verts, [torch.tensor(FACES[i % 2]) for i in range(n)], textures=TexturesVertex(feats), verts_normals=nrm)
    amb, dif, spc = (ctx.real(k, (nl, 3), 0, 1) for k in ("la", "ld", "ls"))
    if lights == "ambient":
        L = AmbientLights(ambient_color=amb)
        at = None
    else:
        at = torch.tensor([[3.0, 1.0, -2.0], [-1.0, 4.0, 1.0]])[:nl]
        L = (PointLights if lights == "point" else DirectionalLights)(ambient_color=amb, diffuse_color=dif, specular_color=spc, **{"location" if lights == "point" else "direction": at})
    ma, md, ms = (ctx.real(k, (nm, 3), 0, 1) for k in ("ma", "md", "ms"))
    M = Materials(ambient_color=ma, diffuse_color=md, specular_color=ms, shininess=torch.tensor([2.0, 1.0])[:nm])
    T = torch.tensor([[0.25, -0.5, 5.0], [-0.5, 0.25, 3.0]])[:n]
    cam = FoVPerspectiveCameras(T=T)
    eye = -T
    pick = lambda x, b: x[b] if len(x) > 1 else x[0]

    def shade(b, p, nv, texel):
        """(ambient + diffuse) texture + specular at a point of mesh b"""
        light = pick(amb, b) * pick(ma, b)
        spec = torch.zeros(3)
        if lights != "ambient":
            d = pick(at, b) - p if lights == "point" else pick(at, b)
            light = light + pick(md, b) * lambert(ctx, nv, pick(dif, b), d)
            spec = pick(ms, b) * shine(ctx, p, nv, pick(spc, b), d, eye[b], int([2, 1][b if nm > 1 else 0]))
        return light * texel + spec

    return m, verts, feats, nrm, L, M, cam, shade


def fragments(ctx, n, free):
    """one row of two pixels per mesh, two layers for the first: a face of its mesh or nothing"""
    first, p2f = 0, []
    for i in range(n):
        k = len(FACES[i % 2])
        p2f.append([[[first + k - 1], [first if i else -1]]])
        first += k
    p2f = torch.tensor(p2f)
    w = ctx.real("w", tuple(p2f.shape) + (2,), 0, 1) if free else torch.tensor([0.25, 0.5]).expand(tuple(p2f.shape) + (2,)) - 0.125 * (p2f % 2)[..., None]
    bary = torch.cat((w, 1 - w.sum(-1, keepdim=True)), -1)
    return Fragments(pix_to_face=p2f, zbuf=None, bary_coords=bary, dists=None)


LIT = [(1, "ambient", 1, 1), (1, "directional", 1, 1), (1, "point", 1, 1), (2, "directional", 1, 1), (2, "directional", 2, 1), (2, "directional", 1, 2), (2, "directional", 2, 2), (2, "point", 2, 2), (2, "ambient", 2, 2)]


@case(params=[dict(n=n, lights=l, nl=a, nm=b, how=h) for n, l, a, b in LIT for h in ("phong", "flat", "gouraud")], bounds="one or two fixed meshes with fixed normals, one or two lights and materials with symbolic colours, two pixels per mesh with symbolic textures (symbolic barycentric coordinates for Gouraud shading and ambient light)", cpp=["face_areas_normals_forward"], **KW)
def shading(ctx, n, lights, nl, nm, how):
    m, verts, feats, nrm, L, M, cam, shade = scene(ctx, n, lights, nl, nm)
    fr = fragments(ctx, n, how == "gouraud" or lights == "ambient")
    if how == "gouraud":
        texel = None
    else:
        texel = ctx.real("t", tuple(fr.pix_to_face.shape) + (3,), 0, 1)
    f = dict(phong=phong_shading, flat=flat_shading).get(how)
    where = [(i, f) for i in range(n) for f in FACES[i % 2]]
    want = {}
    for b in range(n):
        for x in range(2):
            k = int(fr.pix_to_face[b, 0, x, 0])
            if k < 0:
                continue
            _, fc = where[k]
            w = fr.bary_coords[b, 0, x, 0]
            V, Nv, Fv = (torch.stack([q[b][i] for i in fc]) for q in (verts, nrm, feats))
            at = lambda q, w=w: (w[:, None] * q).sum(0)
            if how == "phong":
                want[b, x] = lambda b=b, x=x, V=V, Nv=Nv, at=at: shade(b, at(V), at(Nv), texel[b, 0, x, 0])
            elif how == "flat":
                want[b, x] = lambda b=b, x=x, V=V: shade(b, V.mean(0), cross(V[1] - V[0], V[2] - V[0]), texel[b, 0, x, 0])
            else:
                want[b, x] = lambda b=b, V=V, Nv=Nv, Fv=Fv, at=at: at(torch.stack([shade(b, V[i], Nv[i], Fv[i]) for i in range(3)]))
    got = gouraud_shading(m, fr, L, cam, M) if how == "gouraud" else f(m, fr, L, cam, M, texel)
    ctx.true("shape", tuple(got.shape) == tuple(fr.pix_to_face.shape) + (3,))
    for (b, x), ref in want.items():
        ctx.eq("shaded colour", got[b, 0, x, 0], ref(), tol=(1e-4, 1e-4))
