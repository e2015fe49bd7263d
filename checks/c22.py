"""C22: marching cubes extracts a closed, correctly placed surface from every volume."""
import itertools

import torch
from symx.harness import case
from pytorch3d.ops.marching_cubes import marching_cubes, marching_cubes_naive

C = dict(cpp=["marching_cubes"], dtype="float32")
FN = {"native": marching_cubes, "naive": marching_cubes_naive}
D = 2.0**-5  # every voxel differs from the iso-level by at least this much, or (ties) equals it


def volume(ctx, name, shape, iso, inside=None, ties=()):
    """symbolic volume; inside: optional list of True/False/None per voxel (None: either side) or low/high for a fixed value
    ties: the voxels that may equal the iso-level (which counts as the upper side)"""
    n = torch.Size(shape).numel()
    v = ctx.real(name, (n,), -4, 4)
    out = []
    for i in range(n):
        s = None if inside is None else inside[i]
        if s in ("low", "high"):  # known value
            m = (1.0, 3.0)[i * i % 3 % 2]
            out.append(torch.tensor(iso - m if s == "low" else iso + m))
            continue
        out.append(v[i])
        lo, hi = v[i] <= iso - D, v[i] >= iso + D
        if i in ties:
            hi = hi | (v[i] == iso)
        ctx.assume(lo | hi if s is None else lo if s else hi)
    return torch.stack(out).reshape(shape)


def grid_edge(p, size):
    """the grid edge (axis, corner with the smaller coordinate) that a vertex lies strictly inside of; a grid point if on one"""
    c, free = [0, 0, 0], []
    for a in range(3):
        for k in range(size[a] - 1):
            if bool((p[a] > k + 2.0**-10) & (p[a] < k + 1 - 2.0**-10)):
                c[a] = k
                free.append(a)
                break
        else:
            c[a] = next((k for k in range(size[a]) if bool((p[a] - k).abs() <= 2.0**-10)), -1)
    return (None if not free else free[0] if len(free) == 1 else tuple(free)), tuple(c)


def cut_edges(vol, iso):
    """all grid edges (axis, corner) whose end points lie on different sides, and the interpolated position"""
    d, h, w = vol.shape
    low = {}
    for x, y, z in itertools.product(range(w), range(h), range(d)):
        low[x, y, z] = bool(vol[z, y, x] < iso)
    out = {}
    for c in low:
        for a in range(3):
            e = list(c)
            e[a] += 1
            e = tuple(e)
            if e in low and low[c] != low[e]:
                v0, v1 = vol[c[2], c[1], c[0]], vol[e[2], e[1], e[0]]
                p = [torch.tensor(float(k)) for k in c]
                p[a] = c[a] + (iso - v0) / (v1 - v0)
                out[a, c] = torch.stack([q if isinstance(q, torch.Tensor) else torch.tensor(q) for q in p])
    return low, out


def half_edges(faces):
    h = {}
    for f in faces:
        for i in range(3):
            e = (f[i], f[(i + 1) % 3])
            h[e] = h.get(e, 0) + 1
    return h


def on_face(e, size):
    """boundary planes (axis, side) of the volume that contain grid edge e"""
    a, c = e
    return {(b, s) for b in range(3) if b != a for s in (0, 1) if c[b] == (0, size[b] - 1)[s]}


def segments(low, size, axis, side):
    """directed segments (grid edge -> grid edge) in which the surface of any cell meets one of its faces.

    Depends on the four corner signs of that face alone, so the two cells sharing it agree; the direction is reversed for the
    cell on the other side.  Seen from outside of the cell, the lower side of the surface is on the left."""
    b, c = [a for a in range(3) if a != axis]
    fix = (0, size[axis] - 1)[side]

    def pt(i, j):
        p = [0, 0, 0]
        p[axis], p[b], p[c] = fix, i, j
        return tuple(p)

    # counterclockwise seen from outside: (b, c, axis) is right handed for axis 0 and 2
    ring = [(0, 0), (1, 0), (1, 1), (0, 1)]
    if (axis != 1) != (side == 1):
        ring = ring[::-1]
    ring = [pt(*q) for q in ring]
    out = []
    n = 4
    edge = lambda i: (next(a for a in range(3) if ring[i][a] != ring[(i + 1) % n][a]), min(ring[i], ring[(i + 1) % n]))
    # each maximal run of low corners is cut off by one segment (runs of low corners are separated)
    for i in range(n):
        if low[ring[i]] and not low[ring[i - 1]]:
            j = i
            while low[ring[(j + 1) % n]]:
                j += 1
            out.append((edge((i - 1) % n), edge(j % n)))
    return out


def surface(ctx, verts, faces, vol, iso):
    """checks the vertices; returns faces as triples of grid edges"""
    d, h, w = vol.shape
    low, cut = cut_edges(vol, iso)
    if not cut:
        ctx.true("no surface: no vertices, no faces", len(verts) == 0 and len(faces) == 0)
        return low, cut, []
    ctx.true("there is a surface", len(verts) > 0 and len(faces) > 0)
    key = [grid_edge(verts[i], (w, h, d)) for i in range(len(verts))]
    ctx.true("vertices sit on exactly the cut grid edges, one each", sorted(map(str, key)) == sorted(map(str, cut)))
    ctx.eq("vertices interpolate linearly", verts, torch.stack([cut[k] for k in key if k in cut]))
    f = faces.tolist()
    ctx.true("face indices in range", all(0 <= i < len(key) for t in f for i in t))
    ctx.true("faces have three corners", all(len(set(t)) == 3 for t in f))
    return low, cut, [tuple(key[i] for i in t) for t in f]


def run(ctx, impl, vol, iso, arg="same", local=False):
    v, f = FN[impl](vol[None], iso if arg == "same" else arg, return_local_coords=local)
    return v[0], f[0]


@case(params=[dict(impl=i, c=c, _case=dict(tier="thorough") if i == "naive" and c not in (1, 6, 12) else {}) for i in FN for c in range(16)], bounds="one cell, all 256 sign patterns, all voxel values at least 2^-5 from the iso-level", **C)
def cell(ctx, impl, c):
    iso = 0.25
    vol = volume(ctx, "v", (2, 2, 2), iso, [bool(c >> i & 1) for i in range(4)] + [None] * 4)
    v, f = run(ctx, impl, vol, iso)
    size = (2, 2, 2)
    low, cut, tri = surface(ctx, v, f, vol, iso)
    he = half_edges(tri)
    ctx.true("no mesh edge is used twice in the same direction", all(n == 1 for n in he.values()))
    want = sorted(s for a in range(3) for side in (0, 1) for s in segments(low, size, a, side))
    open_ = sorted(e for e in he if (e[1], e[0]) not in he)
    ctx.true("the surface of a cell ends exactly in the segments given by the signs on its faces", open_ == want)



def chain(edges):
    """directed edges with multiplicity, opposite ones cancelled, without edges between equal points"""
    h = {}
    for a, b in edges:
        if a != b:
            k, n = ((a, b), 1) if str(a) < str(b) else ((b, a), -1)
            h[k] = h.get(k, 0) + n
    return {k: n for k, n in h.items() if n}


def tied(ctx, v, f, vol, iso):
    """like surface() for volumes with voxels at the iso-level: vertices are identified by position"""
    d, h, w = vol.shape
    low, cut = cut_edges(vol, iso)
    pos = {k: grid_edge(cut[k], (w, h, d)) for k in cut}
    at = {pos[k]: cut[k] for k in cut}
    key = [grid_edge(v[i], (w, h, d)) for i in range(len(v))]
    ctx.true("vertices are points where grid edges are cut", all(k in at for k in key))
    if key:
        ctx.eq("vertices interpolate linearly", v, torch.stack([at[k] for k in key]))
    fl = f.tolist() if len(f) else []
    tri = [tuple(key[i] for i in t) for t in fl]
    ctx.true("no degenerate faces", all(len(set(t)) == 3 for t in tri))
    return low, pos, tri


TH = dict(tier="thorough", budget=500)
Q = [dict(impl=i, c=c, at=(4 + c % 4, 4 + (c // 4 + 1 + c) % 4)) for i in FN for c in range(16) if i == "native" and c % 2 == 0 or c in (1, 9, 14)]
FULL = [dict(impl=i, c=c, at=tuple(range(8)), _case=TH) for i in FN for c in range(16)]


@case(params=Q + FULL, bounds="one cell, voxel values at the iso-level (quick: one or two of the voxels, thorough: any) or at least 2^-5 from it", **C)
def tie(ctx, impl, c, at):
    iso = 0.25
    vol = volume(ctx, "v", (2, 2, 2), iso, [bool(c >> i & 1) for i in range(4)] + [None] * 4, ties=at)
    v, f = run(ctx, impl, vol, iso)
    low, pos, tri = tied(ctx, v, f, vol, iso)
    want = chain((pos[a], pos[b]) for x in range(3) for side in (0, 1) for a, b in segments(low, (2, 2, 2), x, side))
    got = chain((t[i], t[(i + 1) % 3]) for t in tri for i in range(3))
    ctx.true("the surface of a cell ends exactly in the segments given by the values on its faces", got == want)


def pattern(shape, seed, free):
    """fixed values on random sides, except for some free voxels"""
    n = torch.Size(shape).numel()
    x = (seed * 2654435761 + 12345) % 2**32
    out = []
    for i in range(n):
        x = (x * 1664525 + 1013904223) % 2**32
        out.append("low" if x >> 17 & 1 else "high")
    for i in range(free):
        out[(i * 7 + seed * 5) % n] = None
    return out


SH = [(2, 2, 3), (2, 3, 2), (3, 2, 2), (2, 3, 4), (4, 2, 3), (3, 3, 3), (3, 4, 2)]


@case(params=[dict(impl=i, shape=s, seed=k, _case=dict(tier="thorough", budget=400) if k > 2 or (i == "naive" and k) else {}) for i in FN for s in SH for k in range(5)],
      bounds="grids of up to 3x3x3 / 4x3x2 voxels, 3 to 5 symbolic voxel values on either side, the others from a fixed random pattern", **C)
def grid(ctx, impl, shape, seed):
    iso = -0.5
    vol = volume(ctx, "v", shape, iso, pattern(shape, seed, 5 if impl == "native" else 3))
    v, f = run(ctx, impl, vol, iso)
    size = shape[::-1]
    low, cut, tri = surface(ctx, v, f, vol, iso)
    he = half_edges(tri)
    ctx.true("no mesh edge is used twice in the same direction", all(n == 1 for n in he.values()))
    want = sorted(s for a in range(3) for side in (0, 1) for s in faces_of(low, size, a, side))
    ctx.true("the surface is closed up to the boundary of the volume", sorted(e for e in he if (e[1], e[0]) not in he) == want)


def faces_of(low, size, axis, side):
    """segments of all cells on one side of the volume"""
    out = []
    b, c = [a for a in range(3) if a != axis]
    fix = (0, size[axis] - 1)[side]
    for i in range(size[b] - 1):
        for j in range(size[c] - 1):
            off = [0, 0, 0]
            off[b], off[c], off[axis] = i, j, fix - side
            sub = {}
            for q in itertools.product((0, 1), repeat=3):
                sub[q] = low.get(tuple(x + o for x, o in zip(q, off)))
            out += [tuple((e[0], tuple(x + o for x, o in zip(e[1], off))) for e in s) for s in segments(sub, (2, 2, 2), axis, side)]
    return out


def grid_tie_vol(ctx, shape, seed, iso, n):
    pat = pattern(shape, seed, 3)
    return volume(ctx, "v", shape, iso, pat, ties=[i for i in range(len(pat)) if pat[i] is None])


@case(params=[dict(impl=i, shape=s, seed=k, _case=dict(tier="thorough", budget=400) if k > 0 or (i == "naive" and s[0] * s[1] * s[2] > 12) else {}) for i in FN for s in SH[:5] for k in range(3)],
      bounds="grids of up to 4x3x2 voxels, 3 symbolic voxel values, which may be at the iso-level", **C)
def grid_tie(ctx, impl, shape, seed):
    iso = 1.0
    vol = grid_tie_vol(ctx, shape, seed, iso, 2)
    v, f = run(ctx, impl, vol, iso)
    low, pos, tri = tied(ctx, v, f, vol, iso)
    want = chain((pos[a], pos[b]) for x in range(3) for side in (0, 1) for a, b in faces_of(low, shape[::-1], x, side))
    got = chain((t[i], t[(i + 1) % 3]) for t in tri for i in range(3))
    ctx.true("the surface is closed up to the boundary of the volume", got == want)


@case(params=[dict(impl=i, shape=s, part=k) for i in FN for s in ((2, 2, 2), (2, 3, 5)) for k in ("local", "default", "level", "batch") if k not in ("default", "level") or s == (2, 2, 2)],
      bounds="default iso-level, symbolic iso-level, local coordinates and batches", **C)
def options(ctx, impl, shape, part):
    n = torch.Size(shape).numel()
    size = shape[::-1]
    if part == "default":
        # the smallest and largest voxel are known, the rest is free
        hi, lo = ctx.real("hi", (), 1, 4), ctx.real("lo", (), -4, -1)
        iso = (hi + lo) / 2
        pat = pattern(shape, 3, 0)
        r = ctx.real("v", (n - 2,), -4, 4)
        for i in range(n - 2):
            ctx.assume((r[i] > lo) & (r[i] < iso - D) if pat[i] == "low" else (r[i] < hi) & (r[i] > iso + D))
        vol = torch.cat((lo[None], r[: n // 2], hi[None], r[n // 2 :])).reshape(shape)
        v, f = run(ctx, impl, vol, iso, arg=None)
        surface(ctx, v, f, vol, iso)
        return
    if part == "level":
        iso = ctx.real("iso", (), -2, 2)
        vol = volume(ctx, "v", shape, iso, [None, True] + [bool(i % 3) for i in range(n - 2)])
        v, f = run(ctx, impl, vol, iso, arg=iso.item())
        surface(ctx, v, f, vol, iso)
        return
    iso = 0.0
    if part == "local":
        vol = volume(ctx, "v", shape, iso, pattern(shape, 5, 2))
        v, f = run(ctx, impl, vol, iso, local=True)
        s = torch.tensor([float(k) for k in size])
        ctx.true("local coordinates within the unit cube", (v >= -1).all() & (v <= 1).all())
        surface(ctx, (v + 1) * (s - 1) / 2, f, vol, iso)
        return
    a = volume(ctx, "a", shape, iso, pattern(shape, 6, 1))
    b = volume(ctx, "b", shape, iso, [False] * n)
    c = volume(ctx, "c", shape, iso, pattern(shape, 7, 1))
    vols = torch.stack((a, b, c))
    v, f = FN[impl](vols, iso, return_local_coords=False)
    ctx.true("one surface per volume", len(v) == 3 and len(f) == 3)
    for i in range(3):
        surface(ctx, v[i], f[i], vols[i], iso)
