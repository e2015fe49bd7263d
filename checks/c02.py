"""C02: derived mesh geometry: definition and freshness after vertex updates."""
import torch
from symx.harness import case
from pytorch3d.ops import mesh_face_areas_normals
from pytorch3d.structures import Meshes
from checks.common import cross, dot

F2 = [[0, 1, 2], [2, 1, 3]]
LAY = {
    "uneven": [(4, F2), (3, [[0, 2, 1]])],
    "hole": [(3, [[0, 1, 2]]), (0, []), (4, [[3, 1, 0], [0, 2, 3]])],
    "isolated": [(2, []), (5, [[4, 1, 0], [0, 1, 2]])],
    "tetra": [(4, [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]])],
    "even": [(3, [[0, 1, 2]]), (3, [[2, 0, 1]])],
}
# faces of any orientation, repeated edges with both orientations, the same face twice
TOPO = dict(LAY, fan=[(5, [[2, 0, 1], [2, 3, 0], [0, 3, 4], [4, 1, 0]]), (3, [[1, 0, 2]])], twice=[(3, [[0, 1, 2], [1, 2, 0], [2, 1, 0]]), (4, [[3, 2, 1]])])
CPP = ["face_areas_normals_forward"]
I64 = torch.int64
BASE = [[0.0, 0, 0], [1, 0.25, 0], [0.5, 1.5, 0.5], [2, 1, -1], [-1, 0.5, 1]]


def build(ctx, lay, free="xyz", form="list"):
    model = []
    spec = LAY[lay] if lay in LAY else TOPO[lay]
    if form == "padded":
        V = max(s[0] for s in spec)
        spec = [(V, f) for _, f in spec]
    for i, (n, f) in enumerate(spec):
        cols = [ctx.real(f"{c}{i}", (n,), -4, 4) if c in free else ctx.const([b[k] for b in BASE[:n]]) for k, c in enumerate("xyz")]
        model.append((torch.stack(cols, -1), f))
    if form == "padded":
        Fm = max(len(f) for _, f in spec)
        ft = torch.full((len(spec), Fm, 3), -1, dtype=I64)
        for i, (_, f) in enumerate(spec):
            ft[i, : len(f)] = torch.tensor(f, dtype=I64).reshape(-1, 3)
        return Meshes(torch.stack([v for v, _ in model]), ft), model
    return Meshes([v.clone() for v, _ in model], [torch.tensor(f, dtype=I64).reshape(-1, 3) for _, f in model]), model


def norm(v):
    return dot(v, v).sqrt()


def reference(model):
    """face normals (unnormalised), vertex normals (unnormalised, area weighted)"""
    fn, vn = [], []
    for v, f in model:
        cr = [cross(v[b] - v[a], v[c] - v[a]) for a, b, c in f]
        fn += cr
        for k in range(len(v)):
            s = torch.zeros(3)
            for c, q in zip(cr, f):
                for j in q:
                    if j == k:
                        s = s + c
            vn.append((s, any(k in q for q in f)))
    return fn, vn


def assume_proper(ctx, model):
    fn, vn = reference(model)
    for c in fn:
        ctx.assume(dot(c, c) >= 1e-4)
    for s, used in vn:
        if used:
            ctx.assume(dot(s, s) >= 1e-4)
    return fn, vn


def geometry(ctx, m, model, tag="", ref=None):
    fn, vn = ref or reference(model)
    areas, normals = m.faces_areas_packed(), m.faces_normals_packed()
    vnorm = m.verts_normals_packed()
    nf, nv = [len(f) for _, f in model], [len(v) for v, _ in model]
    F, V = max(nf), max(nv)
    for i, c in enumerate(fn):
        ctx.eq(tag + "face area", areas[i], norm(c) / 2)
        ctx.eq(tag + "face normal", normals[i], c / norm(c))
    for i, (s, used) in enumerate(vn):
        ctx.eq(tag + "vertex normal", vnorm[i], s / norm(s) if used else torch.zeros(3))
    for what, packed, per in (("verts_normals", vnorm, nv), ("faces_normals", normals, nf)):
        ls, pd = getattr(m, what + "_list")(), getattr(m, what + "_padded")()
        a = 0
        for i, n in enumerate(per):
            ctx.eq(f"{tag}{what}_list", ls[i], packed[a: a + n])
            ctx.eq(f"{tag}{what}_padded", pd[i, :n], packed[a: a + n])
            ctx.eq(f"{tag}{what}_padded fill", pd[i, n:], torch.zeros(max(per) - n, 3))
            a += n


def topology(ctx, m, model, tag=""):
    want, owner, f2e = [], [], []
    off = 0
    for i, (v, f) in enumerate(model):
        es = sorted({tuple(sorted((q[a], q[b]))) for q in f for a, b in ((0, 1), (1, 2), (2, 0))})
        base = len(want)
        want += [(a + off, b + off) for a, b in es]
        owner += [i] * len(es)
        for q in f:
            f2e.append([base + es.index(tuple(sorted((q[(k + 1) % 3], q[(k + 2) % 3])))) for k in range(3)])
        off += len(v)
    edges = m.edges_packed().tolist()
    ctx.true(tag + "every edge exactly once, smaller index first, sorted", edges == [list(e) for e in want])
    ctx.true(tag + "edges_packed_to_mesh_idx", m.edges_packed_to_mesh_idx().tolist() == owner)
    ctx.true(tag + "faces_packed_to_edges_packed (edge opposite to the vertex)", m.faces_packed_to_edges_packed().tolist() == f2e)
    per = [owner.count(i) for i in range(len(model))]
    ctx.true(tag + "num_edges_per_mesh", m.num_edges_per_mesh().tolist() == per)
    ctx.true(tag + "mesh_to_edges_packed_first_idx", m.mesh_to_edges_packed_first_idx().tolist() == [sum(per[:i]) for i in range(len(per))])
    lap = m.laplacian_packed().to_dense()
    V = off
    deg = [sum(k in e for e in want) for k in range(V)]
    ref = [[-1.0 if i == j else (1.0 / deg[i] if (min(i, j), max(i, j)) in want else 0.0) for j in range(V)] for i in range(V)]
    ctx.eq(tag + "laplacian", lap, torch.tensor(ref).to(lap.dtype))


C = dict(cpp=CPP, dtype="float32", feas_ms=300)


@case(params=[(k,) for k in TOPO], bounds="connectivity does not depend on the positions: edges, maps, counts, Laplacian", **C)
def edges(ctx, lay):
    form = ctx.pick("form", ["list", "padded"])
    m, model = build(ctx, lay, "", form)
    ctx.pick("read", [lambda: 0, m.verts_padded, m.faces_packed])()
    topology(ctx, m, model)


@case(params=[(k, f) for k in ("uneven", "hole", "isolated") for f in ("list", "padded") if (k, f) != ("isolated", "padded")] + [("tetra", "list")], bounds="all vertex coordinates symbolic (face normals and vertex normal sums at least 0.01 long)", **C)
def definition(ctx, lay, form):
    m, model = build(ctx, lay, "xyz", form)
    geometry(ctx, m, model, ref=assume_proper(ctx, model))


@case(bounds="packed operator on arbitrary triangles (area at least 0.005)", **C)
def packed_operator(ctx):
    v = ctx.real("v", (4, 3), -4, 4)
    fs = [[0, 1, 2], [3, 1, 0]]
    cs = [cross(v[b] - v[a], v[c] - v[a]) for a, b, c in fs]
    for c in cs:
        ctx.assume(dot(c, c) >= 1e-4)
    a, n = mesh_face_areas_normals(v, torch.tensor(fs))
    for i, c in enumerate(cs):
        ctx.eq("area", a[i], norm(c) / 2)
        ctx.eq("normal", n[i], c / norm(c))


@case(bounds="degenerate faces (all vertices on a line): area zero, normal zero", validate=0, **C)
def degenerate(ctx):
    p, d = ctx.real("p", (3,)), ctx.real("d", (3,))
    t = ctx.real("t", (3,))
    v = torch.stack([p + t[k] * d for k in range(3)])
    a, n = mesh_face_areas_normals(v, torch.tensor([[0, 1, 2]]))
    ctx.eq("area", a, torch.zeros(1))
    ctx.eq("normal", n, torch.zeros(1, 3))


@case(params=[("uneven", "list"), ("uneven", "padded"), ("even", "list"), ("tetra", "list")], bounds="bounding boxes are attained bounds; coordinates symbolic along each axis", dtype="float32")
def bounding_boxes(ctx, lay, form):
    ax = ctx.pick("axis", ["x", "y", "z"])
    m, model = build(ctx, lay, ax, form)
    bb = m.get_bounding_boxes()
    ctx.true("shape", tuple(bb.shape) == (len(model), 3, 2))
    for i, (v, _) in enumerate(model):
        for k in range(3):
            for e, s in ((0, 1), (1, -1)):
                ctx.true("attained", torch.stack([bb[i, k, e] == x for x in v[:, k]]).any())
                for x in v[:, k]:
                    ctx.le("bound", bb[i, k, e] * s, x * s)


READS = {
    "nothing": lambda m: None,
    "areas": lambda m: m.faces_areas_packed(),
    "face normals": lambda m: m.faces_normals_padded(),
    "vertex normals": lambda m: m.verts_normals_packed(),
    "all": lambda m: (m.faces_areas_packed(), m.verts_normals_list(), m.edges_packed(), m.laplacian_packed(), m.verts_padded(), m.num_edges_per_mesh()),
}


def fresh(ctx):
    ctx.counter = getattr(ctx, "counter", 0) + 1
    return f"o{ctx.counter}"


def up_offset_(ctx, m, d):
    n = sum(len(v) for v, _ in d)
    o = ctx.real(fresh(ctx), (n, 1), -4, 4) * ctx.const([0.5, 0.0, 1.0])
    return lambda: m.offset_verts_(o), split_add(d, o)


def split_add(d, o):
    out, a = [], 0
    for v, f in d:
        out.append((v + o[a: a + len(v)], f))
        a += len(v)
    return out


def up_offset(ctx, m, d):
    n = sum(len(v) for v, _ in d)
    o = ctx.real(fresh(ctx), (n, 1), -4, 4) * ctx.const([0.0, 0.0, 1.0])
    return lambda: m.offset_verts(o), split_add(d, o)


def up_shift_(ctx, m, d):
    o = ctx.real(fresh(ctx), (3,), -4, 4)
    return lambda: m.offset_verts_(o), [(v + o, f) for v, f in d]


def up_scale_(ctx, m, d):
    s = ctx.real(fresh(ctx), (len(d),), 0.5, 2)
    if ctx.pick(fresh(ctx), [False, True]):
        s = -s
    return lambda: m.scale_verts_(s), [(v * s[i], f) for i, (v, f) in enumerate(d)]


def up_scale(ctx, m, d):
    s = ctx.real(fresh(ctx), (len(d),), 0.5, 2)
    return lambda: m.scale_verts(s), [(v * s[i], f) for i, (v, f) in enumerate(d)]


def up_padded(ctx, m, d):
    V = max(len(v) for v, _ in d)
    z = ctx.real(fresh(ctx), (len(d), V), -4, 4)
    rows, model = [], []
    for i, (v, f) in enumerate(d):
        n = len(v)
        p = torch.stack([ctx.const([1.5 * b[0] for b in BASE[:n]]), ctx.const([b[1] - b[0] for b in BASE[:n]]), z[i, :n]], -1)
        rows.append(torch.cat([p, torch.zeros(V - n, 3)]))
        model.append((p, f))
    return lambda: m.update_padded(torch.stack(rows)), model


def up_clone(ctx, m, d):
    return lambda: m.clone(), d


def up_index(ctx, m, d):
    ix = list(range(len(d)))[::-1]
    return lambda: m[ix], [d[i] for i in ix]


UPS = [up_offset_, up_offset, up_shift_, up_scale_, up_scale, up_padded, up_clone, up_index]


@case(params=[dict(lay=l, up=u) for l in ("uneven", "hole") for u in UPS], bounds="read, update, read: z coordinates and the update symbolic", weight=2, validate=2, **C)
def stale(ctx, lay, up):
    m, d = build(ctx, lay, "z", ctx.pick("form", ["list", "padded"]) if lay == "uneven" else "list")
    assume_proper(ctx, d)
    READS[ctx.pick("read", list(READS))](m)
    f, e = up(ctx, m, d)
    ref = assume_proper(ctx, e)
    r = f()
    geometry(ctx, r, e, ref=ref)
    topology(ctx, r, e)
    if r is not m and up not in (up_clone, up_index):
        geometry(ctx, m, d, "input unchanged: ", ref=assume_proper(ctx, d))


@case(params=[dict(up=a, up2=b, _case=dict(tier="quick" if b in (up_offset_, up_padded) and a is not b or a in (up_padded, up_scale_) and b in (up_shift_, up_scale_) else "thorough")) for a in UPS for b in UPS[:6]], bounds="read, update, read, update, read", weight=2, validate=2, **C)
def stale2(ctx, up, up2):
    m, d = build(ctx, "uneven", "z", "list")
    assume_proper(ctx, d)
    READS[ctx.pick("read", ["nothing", "all"])](m)
    f, e = up(ctx, m, d)
    assume_proper(ctx, e)
    r = f()
    READS[ctx.pick("read2", ["areas", "all"])](r)
    f, e2 = up2(ctx, r, e)
    ref = assume_proper(ctx, e2)
    r2 = f()
    geometry(ctx, r2, e2, ref=ref)
    topology(ctx, r2, e2)


@case(bounds="normals given at construction are used until the vertices change, then recomputed", **C)
def given_normals(ctx):
    v, n = ctx.real("v", (3, 1), -4, 4) * ctx.const([0.0, 0, 1]) + ctx.const(BASE[:3]), ctx.real("n", (3, 3))
    assume_proper(ctx, [(v, [[0, 1, 2]])])
    m = Meshes([v], [torch.tensor([[0, 1, 2]])], verts_normals=[n] if ctx.pick("form", [True, False]) else n[None])
    ctx.eq("given normals", m.verts_normals_packed(), n)
    ctx.eq("given normals (list)", m.verts_normals_list()[0], n)
    m2 = m.offset_verts(ctx.const([[0.0, 0, 1], [0, 0, 0], [0, 0, 0]]))
    d2 = [(v + ctx.const([[0.0, 0, 1], [0, 0, 0], [0, 0, 0]]), [[0, 1, 2]])]
    geometry(ctx, m2, d2, ref=assume_proper(ctx, d2))
    ctx.eq("given normals stay with the input", m.verts_normals_packed(), n)
