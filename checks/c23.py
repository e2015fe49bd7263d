"""C23: cubify returns exactly the boundary of the occupied voxels."""
import itertools
import torch
from symx.harness import case
from pytorch3d.ops import cubify

KW = dict(dtype="float32")
DIRS = [(0, 1), (0, -1), (1, 1), (1, -1), (2, 1), (2, -1)]


def unit(i, n, align):
    """position of corner i of an axis with n voxels"""
    if align == "topleft":
        return i * 2 / (n - 1) - 1
    if align == "center":
        return (i - 0.5) * 2 / (n - 1) - 1
    return i * 2 / n - 1


def corners(verts, size, align):
    """integer corner (x, y, z) of every vertex of the mesh"""
    D, H, W = size
    grids = [[unit(i, n, align) for i in range(n + 1)] for n in (W, H, D)]
    out = []
    for v in verts.tolist():
        idx = []
        for t, g in zip(v, grids):
            hit = [i for i, p in enumerate(g) if abs(float(t) - p) < 1e-5]
            idx.append(hit[0] if hit else None)
        out.append(tuple(idx))
    return out


def check_mesh(ctx, verts, faces, occ, size, align):
    """occ: {(z, y, x): bool}; returns the voxel of every face"""
    squares = {}
    for (z, y, x), o in occ.items():
        if not o:
            continue
        for axis, s in DIRS:
            nb = [x, y, z]
            nb[axis] += s
            if not occ.get((nb[2], nb[1], nb[0]), False):
                base = [x, y, z]
                base[axis] += 1 if s > 0 else 0
                squares[(axis, tuple(base), s)] = (z, y, x)
    cs = corners(verts, size, align) if len(verts) else []
    ctx.true("vertices lie on the corners given by the alignment", all(None not in c for c in cs))
    ctx.true("every position is used once", len(set(cs)) == len(cs))
    ctx.true("no unused vertex", {int(i) for f in faces.tolist() for i in f} == set(range(len(cs))))
    found, owner = {}, []
    ok = True
    for f in faces.tolist():
        p = [cs[i] for i in f]
        e1 = [b - a for a, b in zip(p[0], p[1])]
        e2 = [b - a for a, b in zip(p[0], p[2])]
        n = (e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0])
        ax = [a for a in range(3) if n[a]]
        lo = tuple(min(q[a] for q in p) for a in range(3))
        hi = tuple(max(q[a] for q in p) for a in range(3))
        if len(ax) != 1 or abs(n[ax[0]]) != 1 or max(b - a for a, b in zip(lo, hi)) != 1:
            ok = False
            continue
        key = (ax[0], lo, 1 if n[ax[0]] > 0 else -1)
        owner.append(squares.get(key))
        found.setdefault(key, []).append(frozenset(p))
    ctx.true("every face is half of a unit square", ok)
    ctx.true("exactly the squares of the boundary, facing outwards", set(found) == set(squares))
    whole = True
    for key, ts in found.items():
        # two halves: they share the diagonal and cover the four corners
        if len(ts) != 2 or len(ts[0] | ts[1]) != 4:
            whole = False
            continue
        a, b = ts[0] & ts[1]
        whole &= sum(abs(x - y) for x, y in zip(a, b)) == 2
    ctx.true("two triangles tile every square", whole)
    return owner


def run(ctx, vox, thresh, align, feats=None):
    N, D, H, W = vox.shape
    occ = [{p: bool(ctx.fork(vox[(n,) + p] >= thresh)) for p in itertools.product(range(D), range(H), range(W))} for n in range(N)]
    out = cubify(vox, thresh, align=align) if feats is None else cubify(vox, thresh, feats=feats, align=align)
    ctx.true("one mesh per grid", len(out) == N)
    vl, fl = out.verts_list(), out.faces_list()
    owners = []
    for n in range(N):
        if not any(occ[n].values()):
            ctx.true("an empty grid gives an empty mesh", len(vl[n]) == 0 and len(fl[n]) == 0)
            continue
        owners += [(n, o) for o in check_mesh(ctx, vl[n], fl[n], occ[n], (D, H, W), align)]
    if feats is not None and align == "center" and owners and all(o is not None for _, o in owners):
        at = out.textures.faces_verts_textures_packed()
        ctx.true("one colour per face", tuple(at.shape) == (len(owners), 3, feats.shape[1]))
        for k, (n, (z, y, x)) in enumerate(owners):
            ctx.eq("colour of the voxel of the face", at[k], feats[n, :, z, y, x].expand(3, -1))


@case(params=[dict(size=s, align=a, thresh=t, _case=dict(tier=tier, budget=600)) for s, a, t, tier in (
    [((1, 2, 2, 2), a, t, "quick") for a, t in (("topleft", 0.5), ("corner", -0.25), ("center", 0.5))]
    + [((2, 2, 2, 1), "corner", 0.5, "quick"), ((1, 1, 2, 3), "corner", 0.5, "quick"), ((1, 3, 1, 2), "corner", 0.5, "quick"), ((1, 1, 1, 1), "corner", 0.5, "quick"), ((2, 1, 1, 3), "corner", 0.25, "quick"), ((3, 1, 1, 2), "corner", 0.25, "quick")]
    + [((1, 2, 2, 3), "topleft", 0.5, "thorough"), ((1, 3, 2, 2), "center", 0.5, "thorough"), ((1, 2, 3, 2), "corner", 0.5, "thorough")])],
      bounds="(N, D, H, W), alignment, threshold: every occupancy (symbolic voxel values, values equal to the threshold included)", **KW)
def grid(ctx, size, align, thresh):
    run(ctx, ctx.real("v", size, -1, 1), thresh, align)


BACK = {"empty": lambda z, y, x: 0.0, "full": lambda z, y, x: 1.0, "checker": lambda z, y, x: float((x + y + z) % 2), "layer": lambda z, y, x: float(z == 1)}


@case(params=[(s, b, c, a) for s, b, c, a in itertools.product([(3, 3, 3), (2, 3, 4)], BACK, ("low", "high"), ("topleft", "center")) if (s == (3, 3, 3)) == (a == "topleft") == (c == "low")],
      bounds="(D, H, W), background pattern, free corner block, alignment: every occupancy of a 2x2x2 block inside a larger grid", **KW)
def block(ctx, size, back, corner, align):
    vox = torch.tensor([[[[BACK[back](z, y, x) for x in range(size[2])] for y in range(size[1])] for z in range(size[0])]])
    v = ctx.real("v", (2, 2, 2), 0, 1)
    o = [0, 0, 0] if corner == "low" else [n - 2 for n in size]
    out = vox.clone()
    out[0, o[0]:o[0] + 2, o[1]:o[1] + 2, o[2]:o[2] + 2] = v
    run(ctx, out, 0.5, align)


@case(params=[((1, 2, 2, 2), "center"), ((2, 2, 2, 2), "center"), ((1, 2, 2, 2), "topleft")], bounds="features of every voxel symbolic; up to 6 free voxels, all elements of the batch occupied or not", **KW)
def features(ctx, size, align):
    base = torch.zeros(size)
    base[0, 0, 0, 0] = 1.0
    vox = base.clone()
    v = ctx.real("v", (5,), 0, 1)
    vox[-1, 1] = v[:4].reshape(2, 2)
    vox[0, 0, 1, 1] = v[4]
    run(ctx, vox, 0.5, align, ctx.real("f", (size[0], 3) + tuple(size[1:])))
