"""C20: attribute interpolation and texture sampling, also after indexing, extending, joining, ... textured meshes."""
import torch
from symx.harness import case
from pytorch3d.ops.interp_face_attrs import interpolate_face_attributes
from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.renderer.mesh.textures import TexturesAtlas, TexturesUV, TexturesVertex
from pytorch3d.structures import Meshes
from pytorch3d.structures.meshes import join_meshes_as_batch, join_meshes_as_scene
from checks.common import all_idx, tex2d

C = 2
KW = dict(dtype="float32")
FACES = {"A": [[0, 1, 2]], "B": [[0, 1, 2], [2, 1, 3]], "C": [[3, 0, 2], [1, 0, 3], [2, 1, 0]]}
NV = {"A": 3, "B": 4, "C": 4}
UVS = [[0.0, 1.0], [0.25, 0.5], [1.0, 0.75], [0.5, 0.0], [0.125, 0.25]]


# ---------------------------------------------------------------- references
def atlas2d(ctx, a, b):
    """(R, R, C) atlas of a face: cell of the first two barycentric coordinates, cells above the diagonal mirrored"""
    R = a.shape[0]
    cell = []
    for w in (b[0] * R, b[1] * R):
        i = 0
        while i < R - 1 and ctx.fork(w >= i + 1):
            i += 1
        cell.append(i)
    i, j = cell
    if ctx.fork(b[0] * R - i + b[1] * R - j > 1):
        i, j = R - 1 - i, R - 1 - j
    return a[j, i]


class Mesh:
    """one textured mesh, as plain data"""

    def __init__(self, ctx, name, kind, i=0, **kw):
        self.ctx, self.kind, self.kw = ctx, kind, kw
        self.name, self.nv = name, NV[name]
        self.faces = torch.tensor(FACES[name])
        nf = len(self.faces)
        if kind == "vertex":
            self.feats = ctx.real(f"f{i}", (self.nv, C))
        elif kind == "atlas":
            R = kw.get("R", 2)
            self.atlas = ctx.real(f"a{i}", (nf, R, R, C))
        else:
            size = kw.get("size", (2, 2))
            M = kw.get("M")
            self.map = ctx.real(f"m{i}", ((M,) if M else ()) + tuple(size) + (C,))
            self.mid = [(k + i + 1) % M for k in range(nf)] if M else None
            self.vuv = torch.tensor([UVS[(k + i) % 5] for k in range(5)]) if kw.get("uv", "fixed") == "fixed" else ctx.real(f"uv{i}", (5, 2), 0, 1)
            self.fuv = (self.faces + 1 + i) % 5

    def opts(self):
        return {k: self.kw[k] for k in ("align", "pad", "mode") if k in self.kw}

    def uv(self, f, b):
        return (b[:, None] * self.vuv[self.fuv[f]]).sum(0)

    def colour(self, f, b):
        if self.kind == "vertex":
            return (b[:, None] * self.feats[self.faces[f]]).sum(0)
        if self.kind == "atlas":
            return atlas2d(self.ctx, self.atlas[f], b)
        u, v = self.uv(f, b)
        img = self.map if self.mid is None else self.map[self.mid[f]]
        return tex2d(self.ctx, img, u, v, **self.opts())

    def corner(self, f):
        if self.kind == "vertex":
            return self.feats[self.faces[f]]
        if self.kind == "atlas":
            a = self.atlas[f]
            return torch.stack([a[0, -1], a[-1, 0], a[0, 0]])
        return torch.stack([self.colour(f, e) for e in torch.eye(3)])

    def sub(self, fids, vids):
        """submesh with these faces (the vertices they use, in order)"""
        m = Mesh.__new__(Mesh)
        m.__dict__.update(self.__dict__)
        pos = {v: k for k, v in enumerate(vids)}
        m.nv = len(vids)
        m.faces = torch.tensor([[pos[int(v)] for v in self.faces[f]] for f in fids], dtype=torch.int64).reshape(-1, 3)
        if self.kind == "vertex":
            m.feats = self.feats[vids]
        elif self.kind == "atlas":
            m.atlas = self.atlas[fids]
        else:
            m.fuv = self.fuv[fids]
        return m


def padded(ts, value=0):
    n = max(len(t) for t in ts)
    return torch.stack([torch.cat([t, torch.full((n - len(t),) + tuple(t.shape[1:]), value, dtype=t.dtype)]) for t in ts])


def build(ms, form):
    pack = (lambda ts, v=0: list(ts)) if form == "list" else padded
    kind = ms[0].kind
    if kind == "vertex":
        tex = TexturesVertex(pack([m.feats for m in ms]))
    elif kind == "atlas":
        tex = TexturesAtlas(pack([m.atlas for m in ms]))
    else:
        o = ms[0].opts()
        maps = [m.map for m in ms]
        kw = dict(padding_mode=o.get("pad", "border"), align_corners=o.get("align", True), sampling_mode=o.get("mode", "bilinear"))
        if ms[0].mid is not None:
            kw["maps_ids"] = pack([torch.tensor(m.mid) for m in ms])
        tex = TexturesUV(maps if form == "list" else torch.stack(maps), pack([m.fuv for m in ms], -1), pack([m.vuv for m in ms]), **kw)
    verts = [torch.arange(m.nv * 3, dtype=torch.float32).reshape(m.nv, 3) for m in ms]
    return Meshes(pack(verts), pack([m.faces for m in ms], -1), tex)


BARY = [[0.5, 0.25], [0.125, 0.75], [0.375, 0.0], [0.0625, 0.3125], [0.25, 0.625], [0.75, 0.125]]


def fragments(ctx, ms, K=3, free=True):
    """every face of every mesh once, some empty slots; arbitrary barycentric coordinates (sampling by cells: of one slot at a time)"""
    N = len(ms)
    p2f = torch.full((N, 1, 1, K), -1)
    off = 0
    for n, m in enumerate(ms):
        nf = len(m.faces)
        for k in range(nf):
            p2f[n, 0, 0, (k + n) % K] = off + nf - 1 - k
        off += nf
    if ms[0].kind == "vertex":
        t = ctx.real("bary", (N, 1, 1, K, 2), 0, 1)
        ctx.assume((t[..., 0] + t[..., 1] <= 1).all())
    else:
        t = torch.tensor([[BARY[(n * K + k) % 6] for k in range(K)] for n in range(N)])[:, None, None]
        if free:
            n, k = ctx.pick("slot", [(n, k) for n in range(N) for k in range(K) if p2f[n, 0, 0, k] >= 0])
            x = ctx.real("bary", (2,), 0, 1)
            ctx.assume(x[0] + x[1] <= 1)
            at = torch.zeros((N, 1, 1, K, 1), dtype=torch.bool)
            at[n, 0, 0, k] = True
            t = torch.where(at, x, t)
    bary = torch.stack([t[..., 0], t[..., 1], 1 - t[..., 0] - t[..., 1]], -1)
    return Fragments(pix_to_face=p2f, zbuf=None, bary_coords=bary, dists=None)


def same(ctx, meshes, ms, K=3, sample=True, free=False):
    """the batch shows exactly the textures of the described meshes"""
    ctx.true("batch size", len(meshes) == len(ms))
    ctx.true("faces per mesh", [len(f) for f in meshes.faces_list()] == [len(m.faces) for m in ms])
    want = torch.cat([torch.stack([m.corner(f) for f in range(len(m.faces))]) if len(m.faces) else torch.zeros(0, 3, C) for m in ms])
    kw = dict(faces_packed=meshes.faces_packed()) if ms[0].kind == "vertex" else {}
    ctx.eq("colours at the vertices of the faces", meshes.textures.faces_verts_textures_packed(**kw), want)
    if not sample:
        return
    fr = fragments(ctx, ms, K, free)
    out = meshes.sample_textures(fr)
    ctx.true("shape of the samples", tuple(out.shape) == (len(ms), 1, 1, K, C))
    off = 0
    for n, m in enumerate(ms):
        for k in range(K):
            f = int(fr.pix_to_face[n, 0, 0, k])
            if f >= 0:
                ctx.eq("sampled colour", out[n, 0, 0, k], m.colour(f - off, fr.bary_coords[n, 0, 0, k]))
            elif m.kind != "uv":
                ctx.eq("empty fragment", out[n, 0, 0, k], torch.zeros(C))
        off += len(m.faces)


# ---------------------------------------------------------------- checks
@case(params=[((1, 1, 1, 1), 2, 1), ((1, 1, 1, 3), 2, 2), ((2, 1, 2, 2), 3, 2), ((1, 2, 3, 1), 2, 3)], bounds="((N, H, W, K), faces, attribute size): every pattern of faces and empty slots, arbitrary barycentric weights and attributes", **KW)
def interpolate(ctx, shape, F, D):
    p2f = all_idx(ctx, (shape[0], shape[3], shape[1], shape[2]), F).permute(0, 2, 3, 1).contiguous()
    keep = p2f.clone()
    bary = ctx.real("b", shape + (3,), -2, 2)
    attr = ctx.real("a", (F, 3, D))
    out = interpolate_face_attributes(p2f, bary, attr)
    ctx.true("shape", tuple(out.shape) == shape + (D,))
    ctx.true("the fragments are not changed", torch.equal(p2f, keep))
    for n in range(shape[0]):
        for y in range(shape[1]):
            for x in range(shape[2]):
                for k in range(shape[3]):
                    p = (n, y, x, k)
                    f = int(p2f[p])
                    ctx.eq("barycentric combination, zero if empty", out[p], (bary[p][:, None] * attr[f]).sum(0) if f >= 0 else torch.zeros(D))


@case(params=[(align, pad, mode, size) for align in (True, False) for pad in ("border", "zeros", "reflection") for mode in ("bilinear", "nearest") for size in ((2, 3), (3, 1)) if size != (3, 1) or pad == "border"],
      bounds="(align_corners, padding, sampling mode, map size): one face with arbitrary uv inside [-0.25, 1.25]; exact ties between texels of nearest sampling excluded", **KW)
def uv_map(ctx, align, pad, mode, size):
    uv = ctx.real("uv", (3, 2), -0.25, 1.25)
    img = ctx.real("m", size + (C,))
    tex = TexturesUV([img], [torch.tensor([[0, 1, 2]])], [uv], align_corners=align, padding_mode=pad, sampling_mode=mode)
    fr = Fragments(pix_to_face=torch.tensor([[[[-1, 0]]]]), zbuf=None, bary_coords=torch.tensor([[[[[0.0, 0, 1], [0, 1, 0]]]]]), dists=None)
    out = tex.sample_textures(fr)
    ctx.eq("colour at the uv location", out[0, 0, 0, 1], tex2d(ctx, img, uv[1, 0], uv[1, 1], align, pad, mode))


@case(params=[1, 2, 3], bounds="resolution R of the atlas: one face, arbitrary barycentric coordinates of the triangle", **KW)
def atlas(ctx, R):
    a = ctx.real("a", (2, R, R, C))
    t = ctx.real("b", (2,), 0, 1)
    ctx.assume(t[0] + t[1] <= 1)
    b = torch.stack([t[0], t[1], 1 - t[0] - t[1]])
    out = TexturesAtlas([a]).sample_textures(Fragments(pix_to_face=torch.tensor([[[[1, -1, 0]]]]), zbuf=None, bary_coords=torch.stack([b, b, b])[None, None, None], dists=None))[0, 0, 0]
    ctx.eq("cell of the face", out[0], atlas2d(ctx, a[1], b))
    ctx.eq("empty slot", out[1], torch.zeros(C))
    ctx.eq("cell of the other face", out[2], atlas2d(ctx, a[0], b))


KINDS = [("vertex", {}), ("atlas", {}), ("uv", {}), ("uv", dict(align=False)), ("uv", dict(M=2)), ("uv", dict(M=3, align=False))]
BATCHES = ["A", "BA", "AB", "ACB"]
BOUNDS = "(texture type and options, batch of meshes with 1 to 3 faces, list or padded input): every face in some pixel, arbitrary texture values and barycentric coordinates"


def arg(k):
    return "".join(f" {a}={b}" for a, b in k[1].items())


@case(params=[(k, b, f) for k in KINDS + [("uv", dict(M=1)), ("uv", dict(M=4, align=False)), ("uv", dict(M=2, align=False, pad="zeros"))] for b in BATCHES for f in ("list", "padded") if b in ("A", "BA") or k in KINDS], bounds=BOUNDS, **KW)
def sample(ctx, k, b, form):
    ms = [Mesh(ctx, n, k[0], i, **k[1]) for i, n in enumerate(b)]
    same(ctx, build(ms, form), ms, free=True)


INDEX = {"int": lambda n: n - 1, "slice": lambda n: slice(1, None), "list": lambda n: [n - 1, 0], "bool": lambda n: torch.tensor([i != 1 for i in range(n)]), "long": lambda n: torch.tensor([1, 1, 0])}


@case(params=[(k, "ABC", f, i) for k in KINDS for f in ("list", "padded") for i in INDEX], bounds=BOUNDS + ", indexed by an int, slice, list, boolean and long tensor", **KW)
def index(ctx, k, b, form, how):
    ms = [Mesh(ctx, n, k[0], i, **k[1]) for i, n in enumerate(b)]
    ix = INDEX[how](len(ms))
    if isinstance(ix, int):
        want = [ms[ix]]
    elif isinstance(ix, slice):
        want = ms[ix]
    elif how == "bool":
        want = [m for m, keep in zip(ms, ix.tolist()) if keep]
    else:
        want = [ms[int(j)] for j in ix]
    same(ctx, build(ms, form)[ix], want, sample=how != "bool")


@case(params=[(k, "AB", f, op) for k in KINDS for f in ("list", "padded") for op in ("extend", "clone", "detach", "clone of an element", "twice")], bounds=BOUNDS, **KW)
def copies(ctx, k, b, form, op):
    ms = [Mesh(ctx, n, k[0], i, **k[1]) for i, n in enumerate(b)]
    m = build(ms, form)
    if op == "extend":
        same(ctx, m.extend(2), [ms[0], ms[0], ms[1], ms[1]], sample=False)
        # the texture alone extends the same way
        t = m.textures.extend(2)
        same(ctx, Meshes([x for x in m.verts_list() for _ in range(2)], [x for x in m.faces_list() for _ in range(2)], t), [ms[0], ms[0], ms[1], ms[1]])
    elif op == "clone of an element":
        t = m.textures[1].clone()
        same(ctx, Meshes([m.verts_list()[1]], [m.faces_list()[1]], t), [ms[1]])
    elif op == "twice":
        same(ctx, m.clone()[[1, 0, 1]].extend(1).detach(), [ms[1], ms[0], ms[1]])
    else:
        c = getattr(m, op)()
        same(ctx, c, ms)
        same(ctx, m, ms, sample=False)


@case(params=[(k, f, s) for k in KINDS if "M" not in k[1] for f in ("list", "padded") for s in ("several", "with empty")], bounds=BOUNDS + ", submeshes of the faces [2, 0] and [1] of a mesh and of the others", **KW)
def submeshes(ctx, k, form, sel):
    ms = [Mesh(ctx, n, k[0], i, **k[1]) for i, n in enumerate("CB")]
    pick = [[[2, 0], [1]], [[1]]] if sel == "several" else [[], [[1, 0], [0]]]
    sub = build(ms, form).submeshes([[torch.tensor(f) for f in fs] for fs in pick])
    want = []
    for m, fs in zip(ms, pick):
        for f in fs:
            want.append(m.sub(f, sorted({int(v) for i in f for v in m.faces[i]})))
    same(ctx, sub, want)


@case(params=[(k, f, s) for k in KINDS if "M" not in k[1] for f in ("list", "padded") for s in ("batch", "scene") if s == "batch" or k[0] != "uv"], bounds=BOUNDS + ", two batches joined to a batch or to one mesh", **KW)
def join(ctx, k, form, how):
    ms = [Mesh(ctx, n, k[0], i, **k[1]) for i, n in enumerate("ABC")]
    parts = [build(ms[:2], form), build(ms[2:], form)]
    if how == "batch":
        same(ctx, join_meshes_as_batch(parts), ms)
        same(ctx, parts[0], ms[:2], sample=False)
        return
    one = Mesh.__new__(Mesh)
    one.__dict__.update(ms[0].__dict__)
    offs, nv = [], 0
    for m in ms:
        offs.append(m.faces + nv)
        nv += m.nv
    one.faces, one.nv = torch.cat(offs), nv
    if k[0] == "vertex":
        one.feats = torch.cat([m.feats for m in ms])
    else:
        one.atlas = torch.cat([m.atlas for m in ms])
    same(ctx, join_meshes_as_scene(parts), [one], K=6)


@case(params=[(align, sizes) for align in (True, False) for sizes in (((2, 2), (3, 3)), ((3, 2), (2, 3)), ((2, 2), (2, 2)), ((2, 2), (1, 2)))], bounds="maps of different sizes in one list: the common size is the largest; colours at texel corners (uv 0 or 1) keep the value of the own map; every pixel equals the documented resampling", **KW)
def map_sizes(ctx, align, sizes):
    maps = [ctx.real(f"m{i}", s + (C,)) for i, s in enumerate(sizes)]
    uv = torch.tensor([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]])
    fuv = torch.tensor([[0, 1, 2], [2, 3, 1]])
    tex = TexturesUV(maps, [fuv] * 2, [uv] * 2, align_corners=align)
    H, W = max(s[0] for s in sizes), max(s[1] for s in sizes)
    pm = tex.maps_padded()
    ctx.true("common size", tuple(pm.shape) == (2, H, W, C))
    for i, (m, s) in enumerate(zip(maps, sizes)):
        for y in range(H):
            for x in range(W):
                u = (x / (W - 1) if W > 1 else 0.0) if align else (x + 0.5) / W
                v = 1 - ((y / (H - 1) if H > 1 else 0.0) if align else (y + 0.5) / H)
                ctx.eq("texel equals the map of the mesh there", pm[i, y, x], tex2d(ctx, m, torch.tensor(u, dtype=torch.float64), torch.tensor(v, dtype=torch.float64), align))
    got = tex.faces_verts_textures_packed()
    for i, m in enumerate(maps):
        for f in range(2):
            for c in range(3):
                u, v = uv[fuv[f][c]]
                ctx.eq("corner of the own map", got[2 * i + f, c], m[-1 if v == 0 else 0, -1 if u == 1 else 0])
