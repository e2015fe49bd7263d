"""C32: points sampled from meshes lie on their surface."""
from contextlib import contextmanager
import torch
from symx.harness import case
from pytorch3d.ops import sample_points_from_meshes
from pytorch3d.renderer.mesh.textures import TexturesAtlas, TexturesVertex
from pytorch3d.structures import Meshes
from checks.common import FLOOR, cross, dot

KW = dict(dtype="float32", feas_ms=200, cpp=["face_areas_normals_forward", "packed_to_padded"])
TOPO = {
    "one": (3, [[0, 1, 2]]),
    "turned": (3, [[2, 1, 0]]),
    "two": (4, [[0, 1, 2], [2, 1, 3]]),
    "flat and full": (4, [[0, 1, 1], [3, 0, 2]]),
    "three": (5, [[4, 3, 2], [0, 0, 0], [0, 1, 2]]),
    "no faces": (2, []),
    "nothing": (0, []),
}
BASE = torch.tensor([[0.0, 0.0, 0.5], [2.0, 0.25, 0.0], [0.5, 1.75, -0.25], [1.5, 2.0, 1.25], [-1.0, 1.0, 2.0]])
# fixed positions give exact reference barycentric coordinates
BATCHES = [("one",), ("two",), ("flat and full",), ("three",), ("turned", "two"), ("nothing", "one"), ("one", "no faces", "two"), ("two", "nothing", "three"), ("one", "nothing")]


@contextmanager
def recorded():
    """the face indices drawn: hints at the face to compare with first"""
    out, old, fn = [], torch.Tensor.multinomial, torch.multinomial

    def rec(f):
        def g(*args, **kw):
            r = f(*args, **kw)
            out.append((r.clone(), args[0]))
            return r
        return g
    torch.Tensor.multinomial, torch.multinomial = rec(old), rec(fn)
    try:
        yield out
    finally:
        torch.Tensor.multinomial, torch.multinomial = old, fn


def build(ctx, batch, free):
    vs, fs = [], []
    for b, t in enumerate(batch):
        n, f = TOPO[t]
        v = BASE[:n] + 0.125 * b
        if free == b or free == "all":
            z = ctx.real(f"v{b}", (min(n, 1), 3), -4, 4)
            v = torch.cat([z, v[1:]])
        f = torch.tensor(f, dtype=torch.int64).reshape(-1, 3)
        for g in f.tolist():
            if len(set(g)) == 3:
                c = cross(v[g[1]] - v[g[0]], v[g[2]] - v[g[0]])
                ctx.assume(dot(c, c) >= FLOOR)
        vs.append(v), fs.append(f)
    return vs, fs


def plane(v, g):
    """(a function from points to height over the plane times twice the area and barycentric coordinates, normal, its squared length)"""
    a, e1, e2 = v[g[0]], v[g[1]] - v[g[0]], v[g[2]] - v[g[0]]
    c = cross(e1, e2)
    cc = dot(c, c)

    def at(p):
        d = p - a
        w1, w2 = dot(cross(d, e2), c) / cc, dot(cross(e1, d), c) / cc
        return dot(d, c), 1 - w1 - w2, w1, w2
    return at, c, cc


def close(a, b):
    d = a - b
    return ((d <= TOL) & (d >= -TOL)).all()


@case(params=[dict(batch=b, normals=n, textures=t, free=f) for b in BATCHES for n, t in ((False, None), (True, None), (False, "vertex"), (True, "vertex"), (True, "atlas")) for f in (0, len(b) - 1) if TOPO[b[f]][1] or f == 0],
      bounds="nine batches of up to three meshes with up to three faces (faces without area, meshes without faces or vertices included), one sample per mesh (two for one mesh), one symbolic vertex, every outcome of the draws", **KW)
def sample(ctx, batch, normals, textures, free):
    vs, fs = build(ctx, batch, free if TOPO[batch[free]][1] else None)
    tex = None
    if textures == "vertex":
        feats = [ctx.real(f"f{b}", (len(v), 2)) for b, v in enumerate(vs)]
        tex = TexturesVertex(feats)
    elif textures == "atlas":
        feats = [ctx.real(f"f{b}", (len(f), 1, 1, 2)) for b, f in enumerate(fs)]
        tex = TexturesAtlas(feats)
    m = Meshes(vs, fs, textures=tex)
    S = 2 if len(batch) == 1 and not textures else 1
    with recorded() as draws:
        out = sample_points_from_meshes(m, S, return_normals=normals, return_textures=bool(textures))
    valid = [b for b, f in enumerate(fs) if len(f)]
    hints = draws[0][0].tolist() if len(draws) == 1 and tuple(draws[0][0].shape) == (len(valid), S) else None
    out = list(out) if isinstance(out, tuple) else [out]
    ctx.true("results", len(out) == 1 + normals + bool(textures))
    pts = out.pop(0)
    nrm = out.pop(0) if normals else None
    tx = out.pop(0) if textures else None
    ctx.true("shape", tuple(pts.shape) == (len(batch), S, 3))
    if normals:
        ctx.true("shape of normals", tuple(nrm.shape) == (len(batch), S, 3))
    if textures:
        ctx.true("shape of textures", tuple(tx.shape) == (len(batch), S, 2))
    for b, (v, f) in enumerate(zip(vs, fs)):
        for s in range(S):
            p = pts[b, s]
            if len(f) == 0:
                for o in (pts, nrm, tx):
                    if o is not None:
                        ctx.eq("empty", o[b, s], torch.zeros(o.shape[-1]))
                continue
            order = [k for k, g in enumerate(f.tolist()) if len(set(g)) == 3]
            hint = hints[valid.index(b)][s] if hints else None
            ctx.true("faces without area are not drawn", hint is None or hint in order)
            found = False
            for k in sorted(order, key=lambda k: k != hint):
                g = f[k].tolist()
                at, c, cc = plane(v, g)
                h, w0, w1, w2 = at(p)
                cond = (h <= TOL) & (h >= -TOL) & (w0 >= -TOL) & (w1 >= -TOL) & (w2 >= -TOL)
                tex_k = w0 * feats[b][g[0]] + w1 * feats[b][g[1]] + w2 * feats[b][g[2]] if textures == "vertex" else feats[b][k, 0, 0] if textures == "atlas" else None
                if k != hint:
                    if normals:
                        cond = cond & close(nrm[b, s] * torch.sqrt(cc), c)
                    if textures:
                        cond = cond & close(tx[b, s], tex_k)
                if not ctx.fork(cond):
                    continue
                found = True
                if k == hint:
                    if normals:
                        ctx.eq("normal", nrm[b, s] * torch.sqrt(cc), c, tol=(1e-4, 1e-4))
                    if textures:
                        ctx.eq("texture", tx[b, s], tex_k, tol=(1e-4, 1e-4))
                break
            ctx.true("on a face with an area", found)


TOL = 1e-4


@case(params=[dict(batch=b) for b in BATCHES], bounds="nine batches of up to three meshes, one symbolic vertex in each", **KW)
def weights(ctx, batch):
    """the chances of the faces of a mesh are proportional to their areas"""
    vs, fs = build(ctx, batch, "all")
    with recorded() as draws:
        sample_points_from_meshes(Meshes(vs, fs), 1)
    used = [(v, f) for v, f in zip(vs, fs) if len(f)]
    ctx.true("drawn once", sum(w.shape[0] for _, w in draws) == len(used))
    rows = [w[i] for _, w in draws for i in range(w.shape[0])]
    for (v, f), row in zip(used, rows):
        area2 = [dot(c, c) if len(set(g)) == 3 else torch.zeros(()) for g in f.tolist() for c in [plane(v, g)[1]]] + [torch.zeros(())] * (row.shape[0] - len(f))
        ctx.true("a chance for every face", row.shape[0] >= len(f))
        ctx.le("not negative", torch.zeros(()), row)
        k = next(i for i, g in enumerate(f.tolist()) if len(set(g)) == 3)
        ctx.le("positive", torch.full((), 1e-6), row[k])
        for j in range(row.shape[0]):
            ctx.eq("proportional", row[j] ** 2 * area2[k], row[k] ** 2 * area2[j], tol=(1e-3, 1e-3))


@case(params=[dict(batch=b) for b in (("one",), ("turned",), ("two",), ("flat and full",))], bounds="one sample of one fixed mesh; every outcome of the draws (away from their lower end)", **KW)
def uniform(ctx, batch):
    """the map from the two uniform draws to the face preserves area (|dp/du x dp/dv| is the face's area), so points are spread uniformly"""
    vs, fs = build(ctx, batch, None)
    seen, old = [], torch.rand

    def rand(*args, **kw):
        r = old(*args, **kw).requires_grad_(True)
        seen.append(r)
        ctx.assume((r.detach() >= 0.0625).all())
        return r
    torch.rand = rand
    try:
        with recorded() as draws:
            p = sample_points_from_meshes(Meshes(vs, fs), 1)
    finally:
        torch.rand = old
    if len(seen) != 1 or seen[0].numel() != 2 or len(draws) != 1:
        ctx.true("other draws: not decided", True)
        return
    J = torch.stack([torch.autograd.grad(p[0, 0, i], seen[0], retain_graph=True)[0].reshape(2) for i in range(3)])
    c = cross(J[:, 0], J[:, 1])
    g = fs[0][int(draws[0][0].reshape(-1)[0])].tolist()
    cc = plane(vs[0], g)[2]
    # one to one on the triangle, or two to one from the square
    ctx.true("area preserved", close(4 * dot(c, c), cc) | close(dot(c, c), cc))


@case(params=["empty", "two empty", "textures"], bounds="rejections", **KW)
def rejects(ctx, what):
    v = ctx.real("v", (3, 3))
    f = torch.tensor([[0, 1, 2]])
    if what == "textures":
        m = Meshes([v], [f])
    else:
        m = Meshes([v] * (1 + (what != "empty")), [f[:0]] * (1 + (what != "empty")))
    try:
        sample_points_from_meshes(m, 2, return_textures=what == "textures")
        ctx.true("rejected", False)
    except ValueError:
        ctx.true("rejected", True)
