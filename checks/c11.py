"""C11: near-plane clipping and frustum culling of faces, and the way back to the original faces."""
import itertools

import torch
from symx.harness import case
from pytorch3d.renderer.mesh.clip import ClipFrustum, clip_faces, convert_clipped_rasterization_to_original_faces
from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes, rasterize_meshes_python
from pytorch3d.structures import Meshes
from checks.common import pixel_centres

C = dict(dtype="float32", eps0=True)


def to_world(fv, persp):
    """(...,3) points whose x, y are projected -> world points"""
    return torch.cat([fv[..., :2] * fv[..., 2:], fv[..., 2:]], -1) if persp else fv


def det3(m):
    a, b, c = m[0], m[1], m[2]
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def conversion(out, f):
    """3x3 matrix: columns are the barycentric coordinates of the vertices of output face f in its original face"""
    if out.faces_clipped_to_conversion_idx is None:
        return torch.eye(3)
    i = int(out.faces_clipped_to_conversion_idx[f])
    return torch.eye(3) if i < 0 else out.barycentric_conversion[i]


def original(out, f):
    return f if out.faces_clipped_to_unclipped_idx is None else int(out.faces_clipped_to_unclipped_idx[f])


def one_face(ctx, fv, out, clip, persp, probe):
    """all statements about the clipped version of a single face fv (3,3)"""
    behind = [bool(fv[k, 2] < clip) for k in range(3)]
    nb = sum(behind)
    n = out.face_verts.shape[0]
    ctx.true("number of output faces", n == {0: 1, 1: 2, 2: 1, 3: 0}[nb])
    ctx.true("face count", out.num_faces_per_mesh.tolist() == [n])
    ctx.true("first index", out.mesh_to_face_first_idx.tolist() == [0])
    if nb == 0:
        ctx.eq("a face in front of the plane is unchanged", out.face_verts[0], fv)
    w = to_world(fv, persp)
    inside = []
    dets = torch.zeros(())
    for f in range(n):
        ctx.true("original face", original(out, f) == 0)
        B = conversion(out, f)
        ctx.eq("barycentric columns sum to one", B.sum(0), torch.ones(3))
        ctx.le("barycentric coordinates are not negative", torch.zeros(9), B.reshape(-1))
        ctx.eq("the vertices are the stated points of the original face", to_world(out.face_verts[f], persp), B.T @ w)
        ctx.le("in front of the plane", clip.expand(3), out.face_verts[f, :, 2])
        d = det3(B)
        ctx.le("orientation is kept", ctx.const(0.0), d)
        dets = dets + d
        inside.append([det3(torch.stack([probe if j == k else B[:, j] for j in range(3)], 1)) for k in range(3)])
    if nb in (1, 2):
        # the vertex alone on its side cuts off the fraction s*t of the area
        k = behind.index(nb == 1)
        a, b, c = fv[k, 2], fv[(k + 1) % 3, 2], fv[(k + 2) % 3, 2]
        corner = (a - clip) / (a - b) * (a - clip) / (a - c)
        ctx.eq("the output faces have the area of the visible part", dets, corner if nb == 2 else 1 - corner)
        z = (probe * fv[:, 2]).sum()
        covered = torch.zeros((), dtype=torch.bool)
        for s in inside:
            covered = covered | ((s[0] >= 0) & (s[1] >= 0) & (s[2] >= 0))
        if ctx.fork(z > clip):
            ctx.true("every visible point of the face is covered", covered)
    if n == 2 and out.clipped_faces_neighbor_idx is not None:
        ctx.true("the halves know each other", out.clipped_faces_neighbor_idx.tolist() == [1, 0])
        ctx.true("the halves do not overlap", ~((torch.stack(inside[0]) > 0).all() & (torch.stack(inside[1]) > 0).all()))


@case(params=[dict(persp=p, pattern=b) for p in (False, True) for b in itertools.product((0, 1), repeat=3)], bounds="one face with nine symbolic coordinates, symbolic clip depth, every pattern of vertices behind the plane; a symbolic point of the face", **C)
def single(ctx, persp, pattern):
    fv = ctx.real("v", (1, 3, 3), -5, 5)
    clip = ctx.real("clip", (), 0.125, 2)
    for k in range(3):
        ctx.assume(fv[0, k, 2] < clip if pattern[k] else fv[0, k, 2] >= clip)
    q = ctx.real("q", (2,), 0, 1)
    ctx.assume(q.sum() <= 1)
    probe = torch.stack([q[0], q[1], 1 - q[0] - q[1]])
    out = clip_faces(fv, torch.tensor([0]), torch.tensor([1]), ClipFrustum(perspective_correct=persp, z_clip_value=clip, cull=False))
    one_face(ctx, fv[0], out, clip, persp, probe)


def numbers(counts):
    first = [sum(counts[:i]) for i in range(len(counts))]
    return torch.tensor(first), torch.tensor(counts)


LAYOUTS = [[3], [1, 2], [2, 0, 1], [0, 3], [0, 1, 0, 2], [2, 1, 0], [3, 0]]
ZS = {"front": (2.0, 3.0, 1.5), "behind": (-1.0, 0.25, 0.5), "one": (2.0, 0.25, 3.0), "two": (-2.0, 0.5, 3.0)}


@case(params=[dict(layout=l, persp=p) for l in range(len(LAYOUTS)) for p in (False, True)], bounds="three faces, each in any of the four cases, in batches with empty meshes anywhere; positions symbolic", **C)
def batches(ctx, layout, persp):
    counts = LAYOUTS[layout]
    fv = ctx.real("v", (3, 3, 2), -5, 5)
    kinds = [ctx.pick(f"case{i}", list(ZS)) for i in range(3)]
    z = torch.tensor([ZS[k] for k in kinds])
    fv = torch.cat([fv, z[..., None]], -1)
    first, num = numbers(counts)
    out = clip_faces(fv, first, num, ClipFrustum(perspective_correct=persp, z_clip_value=1.0, cull=False))
    exp, cnt = [], []
    i = 0
    for c in counts:
        k = 0
        for _ in range(c):
            m = {"front": 1, "behind": 0, "one": 2, "two": 1}[kinds[i]]
            exp += [i] * m
            k += m
            i += 1
        cnt.append(k)
    n = out.face_verts.shape[0]
    ctx.true("the output faces follow the order of the original ones", n == len(exp) and [original(out, f) for f in range(n)] == exp)
    ctx.true("counts per mesh", out.num_faces_per_mesh.tolist() == cnt)
    ctx.true("first faces", all(int(a) == sum(cnt[:j]) for j, a in enumerate(out.mesh_to_face_first_idx) if cnt[j]))
    w = to_world(fv, persp)
    for f in range(n):
        o = exp[f]
        B = conversion(out, f)
        ctx.eq("vertices are the stated points of their original face", to_world(out.face_verts[f], persp), B.T @ w[o])
        ctx.true("only visible parts", bool((out.face_verts[f, :, 2] >= 1).all()))
        if kinds[o] == "front":
            ctx.eq("unchanged", out.face_verts[f], fv[o])
        nb = -1 if out.clipped_faces_neighbor_idx is None else int(out.clipped_faces_neighbor_idx[f])
        other = [g for g in range(n) if exp[g] == o and g != f]
        ctx.true("neighbour", nb == (other[0] if other else -1))
    # back conversion of made-up fragments referring to every output face and to none
    p2f = torch.tensor([list(range(n)) + [-1]])[None, None]
    b = ctx.real("b", (1, 1, 1, n + 1, 3), -1, 1)
    pf, bb = convert_clipped_rasterization_to_original_faces(p2f, b, out)
    ctx.true("face indices", pf[0, 0, 0].tolist() == exp + [-1])
    for f in range(n):
        x = (b[0, 0, 0, f, :, None] * to_world(out.face_verts[f], persp)).sum(0)
        y = (bb[0, 0, 0, f, :, None] * w[exp[f]]).sum(0)
        ctx.eq("the converted barycentric coordinates describe the same 3D point", x, y)
    ctx.eq("empty fragments are kept", bb[0, 0, 0, n], b[0, 0, 0, n])


PLANES = ["left", "right", "top", "bottom", "znear", "zfar"]


@case(params=[dict(planes=p, k=k) for p in [(q,) for q in PLANES] + [("left", "right", "top", "bottom")] for k in range(3)], bounds="one face, coordinates along the culling axis of one vertex at a time symbolic plus the two others symbolic; plane position symbolic", **C)
def culling(ctx, planes, k):
    v = ctx.real("v", (1, 3, 3), -5, 5)
    # two vertices are free along every axis, and so is the third: the order of the vertices plays no role
    v = torch.roll(v, k, 1)
    pos = {p: ctx.real(p, (), 0.5, 3) * (-1 if p in ("left", "top") else 1) for p in planes}
    out = clip_faces(v, torch.tensor([0]), torch.tensor([1]), ClipFrustum(cull=True, **pos))
    outside = torch.zeros((), dtype=torch.bool)
    for p in planes:
        x = v[0, :, PLANES.index(p) // 2]
        outside = outside | ((x < pos[p]).all() if p in ("left", "top", "znear") else (x > pos[p]).all())
    if out.face_verts.shape[0] == 0:
        ctx.true("only faces outside one plane are removed", outside)
        ctx.true("face count", out.num_faces_per_mesh.tolist() == [0])
    else:
        ctx.true("faces outside one plane are removed", ~outside)
        ctx.eq("a face that is kept is unchanged", out.face_verts, v)
        ctx.true("face count", out.num_faces_per_mesh.tolist() == [1])


@case(params=[dict(n=n) for n in (1, 2)], bounds="without culling requested, and inside the frustum, nothing is removed", **C)
def no_culling(ctx, n):
    v = ctx.real("v", (n, 3, 3), -5, 5)
    f = dict(left=-1.0, right=1.0, top=-1.0, bottom=1.0, znear=0.0, zfar=2.0)
    out = clip_faces(v, torch.tensor([0]), torch.tensor([n]), ClipFrustum(cull=False, **f))
    ctx.eq("unchanged", out.face_verts, v)
    u = ctx.real("u", (n, 3, 3), 0, 1)
    out = clip_faces(u, torch.tensor([0]), torch.tensor([n]), ClipFrustum(cull=True, **f))
    ctx.eq("unchanged inside", out.face_verts, u)


@case(params=[dict(pattern=b) for b in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1))], bounds="perspective, one face crossing the near plane: culling never removes a face with a visible point inside the frustum", **C)
def culling_and_clipping(ctx, pattern):
    q = ctx.real("q", (2,), 0, 1)
    ctx.assume(q.sum() <= 1)
    lam = torch.stack([q[0], q[1], 1 - q[0] - q[1]])
    z = torch.tensor([[-0.5, 2.0][1 - b] for b in pattern])
    x = ctx.real("x", (3,), -5, 5)
    v = torch.stack([x, torch.zeros(3) + torch.tensor([0.25, -0.25, 0.5]), z], -1)  # projected x, y and depth
    w = to_world(v, True)
    p = (lam[:, None] * w).sum(0)
    ctx.assume(p[2] >= 0.25)
    ctx.assume((p[0] <= p[2]) & (p[0] >= -p[2]) & (p[1] <= p[2]) & (p[1] >= -p[2]))
    out = clip_faces(v[None], torch.tensor([0]), torch.tensor([1]), ClipFrustum(left=-1, right=1, top=-1, bottom=1, perspective_correct=True, z_clip_value=0.25, cull=True))
    ctx.true("a visible face is kept", out.face_verts.shape[0] > 0)


RC = dict(cpp=["rasterize_meshes"], feas_ms=500, **C)
# world triangles crossing or not crossing the plane z = 0.5
TRIS = [
    [[-1.5, -1.5, -0.75], [2.25, -1.0, 1.5], [0.5, 2.5, 2.0]],
    [[0.25, 1.5, 1.5], [-2.5, -1.25, 0.25], [1.75, -2.0, -1.0]],
    [[-1.0, 0.75, 2.0], [1.0, 1.0, 1.25], [0.25, -1.5, 0.75]],
]


@case(params=[dict(tri=t, vary=k, py=p, cull=c, depth=z, _case=dict(tier="thorough" if z else "quick")) for t in range(3) for k in range(3) for p in (False, True) for c in (False, True) for z in (False, True) if not (p and (t != 0 or k != 1)) and not (c and k != 1) and not (z and (t or c or p))], bounds="perspective rasterization with clipping of one face with one symbolic horizontal world coordinate (or vertex depth): pixels see exactly the visible part of the face", **RC)
def rasterized(ctx, tri, vary, py, cull, depth):
    w = torch.tensor(TRIS[tri])
    if depth:
        z = ctx.real("z", (), -2, 3)
        ctx.assume(((z > 0.0625) | (z < -0.0625)) & (z != 0.5))
    else:
        z = w[vary, 0] + ctx.real("dx", (), -2, 2)
    a = 2 if depth else 0
    col = torch.stack([z if i == vary else w[i, a] for i in range(3)])
    w = torch.cat([w[:, :a], col[:, None], w[:, a + 1:]], 1)
    v = torch.cat([w[:, :2] / w[:, 2:], w[:, 2:]], 1)
    size = (2, 3)
    meshes = Meshes([v], [torch.tensor([[0, 1, 2]])])
    kw = dict(image_size=size, blur_radius=0.0, faces_per_pixel=1, perspective_correct=True, z_clip_value=0.5, cull_to_frustum=cull)
    p2f, zb, bary, _ = (rasterize_meshes_python if py else rasterize_meshes)(meshes, **kw)
    pc = pixel_centres(*size)
    pieces = clip_faces(v[None], torch.tensor([0]), torch.tensor([1]), ClipFrustum(perspective_correct=True, z_clip_value=0.5, cull=False)).face_verts
    for y in range(size[0]):
        for x in range(size[1]):
            d = torch.stack([ctx.const(float(pc[y, x, 0])), ctx.const(float(pc[y, x, 1])), ctx.const(1.0)])
            lam = torch.stack([det3(torch.stack([d if j == k else w[j] for j in range(3)])) for k in range(3)])  # times det(w)
            D = det3(w)
            s = lam.sum()
            # the ray meets the plane of the face at depth D / s
            hit = (((lam > 0).all() & (D > 0)) | ((lam < 0).all() & (D < 0))) & (D / s > 0.5)
            miss = ((lam * D < 0).any()) | (D / s < 0.5)
            if int(p2f[0, y, x, 0]) >= 0:
                ctx.true("only the visible part is rasterized", ~miss)
                ctx.true("face", int(p2f[0, y, x, 0]) == 0)
                ctx.eq("the point seen has the depth of the face", zb[0, y, x, 0], D / s)
                ctx.eq("barycentric coordinates refer to the original face", bary[0, y, x, 0], lam / s)
            else:
                # pixels exactly on the border of a (split) face belong to none of its pieces
                for t in pieces:
                    for k in range(3):
                        p, q = t[k], t[(k + 1) % 3]
                        hit = hit & ((d[0] - p[0]) * (q[1] - p[1]) != (d[1] - p[1]) * (q[0] - p[0]))
                ctx.true("the visible part is rasterized", ~hit)


@case(params=[dict(K=k, py=p, blur=b) for k in (1, 2, 3) for p in (False, True) for b in (0.0, 0.5)], bounds="two faces with crossing depths, one of them at a symbolic horizontal position: a face split by the clipping plane fills at most one slot per pixel", **RC)
def no_duplicates(ctx, K, py, blur):
    dx = ctx.real("dx", (), -0.5, 0.5)
    w = torch.tensor([[[-1.5, -1.5, -0.75], [2.25, -1.0, 1.5], [0.5, 2.5, 2.0]], [[-2.0, 2.0, 2.5], [2.5, 2.0, 2.5], [0.0, -3.0, 0.25]]])
    v = torch.cat([w[..., :2] / w[..., 2:], w[..., 2:]], -1)
    v = torch.cat([v[:1] + torch.stack([dx, dx * 0, dx * 0]), v[1:]]).reshape(-1, 3)
    meshes = Meshes([v], [torch.arange(6).reshape(2, 3)])
    kw = dict(image_size=(2, 2), blur_radius=blur, faces_per_pixel=K, perspective_correct=True, clip_barycentric_coords=blur > 0, z_clip_value=0.5, cull_to_frustum=False)
    p2f, zb, bary, dist = (rasterize_meshes_python if py else rasterize_meshes)(meshes, **kw)
    for px in p2f.reshape(-1, K).tolist():
        got = [i for i in px if i >= 0]
        ctx.true("faces fill the slots from the front, each once", px == got + [-1] * (K - len(got)) and len(set(got)) == len(got) and all(i in (0, 1) for i in got))


@case(params=[dict(size=s, axis=a, py=p) for s in ((1, 3), (3, 1), (2, 2)) for a in (0, 1) for p in (False, True)], bounds="a triangle moving across the image: frustum culling does not change what is rasterized; square and non-square images", **RC)
def culling_invisible(ctx, size, axis, py):
    d = ctx.real("d", (), -4, 4)
    v = torch.tensor([[-0.5, -0.75, 1.0], [0.75, -0.25, 2.0], [0.25, 1.25, 3.0]])
    v = v + torch.stack([d if k == axis else d * 0 for k in range(3)])
    meshes = Meshes([v], [torch.tensor([[0, 1, 2]])])
    kw = dict(image_size=size, blur_radius=0.0, faces_per_pixel=1)
    f = rasterize_meshes_python if py else rasterize_meshes
    a = f(meshes, cull_to_frustum=True, **kw)
    b = f(meshes, cull_to_frustum=False, **kw)
    ctx.true("the same pixels see the face", a[0].tolist() == b[0].tolist())
    for x, y in zip(a[1:], b[1:]):
        ctx.eq("the same fragments", x, y)
