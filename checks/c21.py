"""C21: packing rectangles, and joining UV textured meshes into one scene."""
import torch
from symx.harness import case
from pytorch3d.renderer.mesh.textures import TexturesUV
from pytorch3d.renderer.mesh.utils import Rectangle, pack_rectangles, pack_unique_rectangles
from pytorch3d.structures import Meshes
from pytorch3d.structures.meshes import join_meshes_as_scene
from checks.common import tex2d

BIG = 4096


class Int:
    """an immutable (symbolic) integer: the packing works on plain Python integers"""

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        return x.t if isinstance(x, Int) else torch.tensor(x)

    def __add__(self, o):
        return Int(self.t + Int.of(o))

    __radd__ = __add__

    def __sub__(self, o):
        return Int(self.t - Int.of(o))

    def __rsub__(self, o):
        return Int(Int.of(o) - self.t)

    def __lt__(self, o):
        return bool(self.t < Int.of(o))

    def __le__(self, o):
        return bool(self.t <= Int.of(o))

    def __gt__(self, o):
        return bool(self.t > Int.of(o))

    def __ge__(self, o):
        return bool(self.t >= Int.of(o))

    def __eq__(self, o):
        return bool(self.t == Int.of(o))


def disjoint_and_inside(ctx, total, sizes, locs, shared=()):
    W, H = Int.of(total[0]), Int.of(total[1])
    box = []
    for (a, b), l in zip(sizes, locs):
        w, h = (b, a) if l.flipped else (a, b)
        x, y = Int.of(l.x), Int.of(l.y)
        ctx.true("inside the total size", (x >= 0) & (y >= 0) & (x + w <= W) & (y + h <= H))
        box.append((x, y, w, h))
    for i in range(len(box)):
        for j in range(i):
            if (j, i) in shared:
                continue
            (x, y, w, h), (u, v, s, t) = box[i], box[j]
            ctx.true("no overlap", (x + w <= u) | (u + s <= x) | (y + h <= v) | (v + t <= y))


def sizes(ctx, n, order=False, turned=None):
    out = [(ctx.integer(f"w{i}", (), 1, BIG), ctx.integer(f"h{i}", (), 1, BIG)) for i in range(n)]
    if order:  # rectangles listed from the largest to the smallest
        for i in range(n - 1):
            ctx.assume(max_(out[i]) > max_(out[i + 1]))
    if turned is not None:
        for i, (a, b) in enumerate(out):
            ctx.assume(a < b if (turned >> i) & 1 else a >= b)
    return out


def max_(s):
    return torch.where(s[0] >= s[1], s[0], s[1])


def P(n, order, turned, part=None, **kw):
    return dict(n=n, order=order, turned=turned, part=part, _case=kw)


@case(params=[P(2, False, None), P(3, False, None), P(3, True, None)] + [P(4, True, t) for t in (0, 5, 10, 15)] + [P(4, False, 0, tier="thorough", budget=400)] + [P(5, True, t, part, tier="quick" if (t, part) in ((0, 2), (0, 3)) else "thorough", budget=400) for t in (0, 21) for part in (0, 2, 3)],
      bounds="(number of rectangles, listed from the largest to the smallest, mask of those higher than wide, part: whether the third and fourth fit beside the second): every pair of sizes from 1 to 4096", dtype="float64")
def pack(ctx, n, order, turned, part):
    s = sizes(ctx, n, order, turned)
    if part is not None:
        room = max_(s[0]) - max_(s[1])
        for i, bit in ((2, part & 1), (3, part >> 1)):
            fits = max_(s[i]) <= room
            ctx.assume(fits if bit else ~fits)
    total, locs = pack_rectangles([(Int(a), Int(b)) for a, b in s])
    ctx.true("one place each", len(locs) == n and all(l.is_first for l in locs))
    disjoint_and_inside(ctx, total, s, locs)


@case(params=["aa", "ab", "aba", "aab", "abb", "aaa", "abab"], bounds="pattern of identical rectangles: every size from 1 to 4096", dtype="float64")
def unique(ctx, pat):
    ids = sorted(set(pat))
    s = dict(zip(ids, sizes(ctx, len(ids))))
    got = pack_unique_rectangles([Rectangle(Int(s[c][0]), Int(s[c][1]), ord(c)) for c in pat])
    ctx.true("one place each", len(got.locations) == len(pat))
    first = {}
    for i, c in enumerate(pat):
        l = got.locations[i]
        ctx.true("is_first marks the first of its kind", bool(l.is_first) == (c not in first))
        if c in first:
            o = got.locations[first[c]]
            ctx.true("identical rectangles share their place", (Int.of(l.x) == Int.of(o.x)) & (Int.of(l.y) == Int.of(o.y)))
            ctx.true("and orientation", bool(l.flipped) == bool(o.flipped))
        first.setdefault(c, i)
    disjoint_and_inside(ctx, got.total_size, [s[c] for c in pat], got.locations, {(i, j) for i in range(len(pat)) for j in range(len(pat)) if pat[i] == pat[j]})


SIZES = {"equal": [(2, 2), (2, 2)], "wide and high": [(2, 3), (3, 2)], "small last": [(3, 3), (1, 2)], "small first": [(1, 1), (2, 4)], "column": [(4, 1), (2, 2)], "three": [(2, 3), (4, 2), (1, 2)], "four": [(2, 2), (3, 1), (1, 3), (4, 4)]}
UVS = [[0.0, 1.0], [0.25, 0.5], [1.0, 0.75], [0.625, 0.0]]


def scene(ctx, maps, align, pad, mode, form, uvs):
    N = len(maps)
    faces = [torch.tensor([[0, 1, 2], [1, 3, 2]]) if i % 2 == 0 else torch.tensor([[2, 1, 0]]) for i in range(N)]
    fuv = [(f + i) % 4 for i, f in enumerate(faces)]
    verts = [torch.arange(12, dtype=torch.float32).reshape(4, 3) + i for i in range(N)]
    kw = dict(align_corners=align, padding_mode=pad, sampling_mode=mode)
    if form == "batch":
        m = Meshes(verts, faces, TexturesUV(list(maps), fuv, uvs, **kw))
    elif form == "list":
        m = [Meshes([v], [f], TexturesUV([x], [g], [u], **kw)) for v, f, x, g, u in zip(verts, faces, maps, fuv, uvs)]
    else:  # padded uv indices of different length
        pf = torch.full((N, 2, 3), -1)
        for i, g in enumerate(fuv):
            pf[i, : len(g)] = g
        m = Meshes(verts, faces, TexturesUV(torch.stack(list(maps)), pf, torch.stack(uvs), **kw))
    out = join_meshes_as_scene(m)
    ctx.true("one mesh with all faces", len(out) == 1 and len(out.faces_packed()) == sum(len(f) for f in faces))
    got = out.textures.faces_verts_textures_packed()
    k = 0
    for f, g, x, u in zip(faces, fuv, maps, uvs):
        for r in g:
            want = torch.stack([tex2d(ctx, x, u[i][0], u[i][1], align, pad, mode) for i in r])
            ctx.eq("colour of the own map at the vertex", got[k], want)
            k += 1


OPTS = [(True, "border", "bilinear"), (False, "border", "bilinear"), (True, "zeros", "bilinear"), (False, "zeros", "bilinear"), (True, "border", "nearest"), (False, "reflection", "nearest"), (False, "reflection", "bilinear")]


@case(params=[(s, f) + o for s in SIZES for f in ("batch", "list", "padded") for o in OPTS if f != "padded" or s == "equal" if f == "batch" or o in OPTS[:2] if len(SIZES[s]) < 3 or (f == "batch" and o in OPTS[:2])],
      bounds="(map sizes, how the meshes are given, align_corners, padding, sampling mode): one symbolic uv in [0, 1]^2 per scene (in each mesh in turn), the others fixed, all texels symbolic; exact ties of nearest sampling excluded", dtype="float32")
def join(ctx, size, form, align, pad, mode):
    maps = [ctx.real(f"m{i}", s + (2,)) for i, s in enumerate(SIZES[size])]
    uvs = [torch.tensor([[(a + 0.0625 * i) % 1.0625, b] for a, b in UVS]) if mode == "bilinear" else torch.tensor([[0.1 + 0.01 * i, 0.9], [0.3, 0.55], [0.97, 0.74], [0.62, 0.07]]) for i in range(len(maps))]
    which = ctx.pick("mesh", list(range(len(maps))))
    free = ctx.real("uv", (2,), 0, 1)
    uvs[which] = torch.cat([uvs[which][:1], free[None], uvs[which][2:]])
    scene(ctx, maps, align, pad, mode, form, uvs)


@case(params=[(p, a) for p in ("aa", "aba", "abb") for a in (True, False)], bounds="meshes sharing the same map object", dtype="float32")
def shared(ctx, pat, align):
    sz = {"a": (2, 3), "b": (3, 3)}
    maps = {c: ctx.real("m" + c, sz[c] + (2,)) for c in sorted(set(pat))}
    uvs = [torch.tensor([[(a + 0.0625 * i) % 1.0625, b] for a, b in UVS]) for i in range(len(pat))]
    free = ctx.real("uv", (2,), 0, 1)
    uvs[-1] = torch.cat([uvs[-1][:1], free[None], uvs[-1][2:]])
    scene(ctx, [maps[c] for c in pat], align, "border", "bilinear", "batch", uvs)
