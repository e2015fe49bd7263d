"""C01: views of a batch of meshes after every bounded history of reads and operations."""
import torch
from symx.harness import case
from pytorch3d.structures import Meshes, join_meshes_as_batch, join_meshes_as_scene

# (vertices, faces) of each mesh
F2 = [[0, 1, 2], [2, 1, 3]]
LAY = {
    "uneven": [(4, F2), (3, [[0, 2, 1]])],
    "even": [(3, [[0, 1, 2]]), (3, [[2, 1, 0]])],
    "hole": [(3, [[0, 1, 2]]), (0, []), (4, F2)],
    "nofaces": [(2, []), (4, [[3, 1, 0], [0, 2, 3]])],
    "tail": [(3, [[1, 2, 0]]), (0, [])],
    "single": [(4, F2)],
}
I64 = torch.int64


def ft(f):
    return torch.tensor(f, dtype=I64).reshape(-1, 3)


def build(ctx, lay, form, name="v"):
    spec = LAY[lay]
    if form == "padded":  # every vertex row of a padded tensor counts as a vertex
        V, Fm = max(s[0] for s in spec), max(len(s[1]) for s in spec)
        v = ctx.real(name, (len(spec), V, 3))
        f = torch.full((len(spec), Fm, 3), -1, dtype=I64)
        for i, s in enumerate(spec):
            f[i, : len(s[1])] = ft(s[1])
        return Meshes(v.clone(), f), [(v[i], s[1]) for i, s in enumerate(spec)]
    model = [(ctx.real(f"{name}{i}", (s[0], 3)), s[1]) for i, s in enumerate(spec)]
    return Meshes([v.clone() for v, _ in model], [ft(f) for _, f in model]), model


def ints(name, ctx, got, want):
    ctx.eq(name, got.to(I64), torch.tensor(want, dtype=I64).reshape(got.shape if not want and got.numel() == 0 else (len(want),) + tuple(got.shape[1:])))


def view_checks(ctx, m, model, tag=""):
    N = len(model)
    nv = [len(v) for v, _ in model]
    nf = [len(f) for _, f in model]
    ctx.true(tag + "batch size", len(m) == N)
    vl, fl = m.verts_list(), m.faces_list()
    ctx.true(tag + "list sizes", [len(v) for v in vl] == nv and [len(f) for f in fl] == nf)
    for i in range(N):
        ctx.eq(tag + "verts_list", vl[i], model[i][0])
        ctx.eq(tag + "faces_list", fl[i], ft(model[i][1]))
        a, b = m.get_mesh_verts_faces(i)
        ctx.eq(tag + "get_mesh_verts_faces", a, model[i][0])
        ctx.eq(tag + "get_mesh_verts_faces (faces)", b, ft(model[i][1]))
    empty = not any(v and f for v, f in zip(nv, nf))
    ctx.true(tag + "isempty", bool(m.isempty()) == empty)
    if empty:  # a batch without any face: packed views are empty by design
        ctx.true(tag + "packed views of an empty batch", m.verts_packed().shape[0] == 0 and m.faces_packed().shape[0] == 0 and tuple(m.verts_padded().shape)[0] == N)
        return
    V, F = max(nv), max(nf)
    ints(tag + "num_verts_per_mesh", ctx, m.num_verts_per_mesh(), nv)
    ints(tag + "num_faces_per_mesh", ctx, m.num_faces_per_mesh(), nf)
    ctx.true(tag + "valid", m.valid.tolist() == [a > 0 and b > 0 for a, b in zip(nv, nf)])
    vp, fp = m.verts_packed(), m.faces_packed()
    ctx.eq(tag + "verts_packed", vp, torch.cat([v for v, _ in model]))
    off = [sum(nv[:i]) for i in range(N)]
    foff = [sum(nf[:i]) for i in range(N)]
    ctx.eq(tag + "faces_packed", fp, torch.cat([ft(f) + o for (_, f), o in zip(model, off)]))
    ints(tag + "verts_packed_to_mesh_idx", ctx, m.verts_packed_to_mesh_idx(), [i for i in range(N) for _ in range(nv[i])])
    ints(tag + "faces_packed_to_mesh_idx", ctx, m.faces_packed_to_mesh_idx(), [i for i in range(N) for _ in range(nf[i])])
    ints(tag + "mesh_to_verts_packed_first_idx", ctx, m.mesh_to_verts_packed_first_idx(), off)
    ints(tag + "mesh_to_faces_packed_first_idx", ctx, m.mesh_to_faces_packed_first_idx(), foff)
    vd, fd = m.verts_padded(), m.faces_padded()
    ctx.true(tag + "padded shapes", tuple(vd.shape) == (N, V, 3) and tuple(fd.shape) == (N, F, 3))
    for i in range(N):
        ctx.eq(tag + "verts_padded", vd[i, : nv[i]], model[i][0])
        ctx.eq(tag + "verts_padded fill", vd[i, nv[i]:], torch.zeros(V - nv[i], 3, dtype=torch.float64))
        ctx.eq(tag + "faces_padded", fd[i], torch.cat([ft(model[i][1]), torch.full((F - nf[i], 3), -1, dtype=I64)]))
    ints(tag + "verts_padded_to_packed_idx", ctx, m.verts_padded_to_packed_idx(), [i * V + j for i in range(N) for j in range(nv[i])])
    ctx.eq(tag + "verts_packed from padded", vd.reshape(-1, 3)[m.verts_padded_to_packed_idx()], vp)


READS = {
    "nothing": lambda m: None,
    "packed": lambda m: m.verts_packed(),
    "padded": lambda m: m.verts_padded(),
    "list": lambda m: m.verts_list(),
    "packed+padded": lambda m: (m.faces_packed(), m.faces_padded()),
    "index": lambda m: (m.verts_padded_to_packed_idx(), m.edges_packed(), m.verts_padded()),
}


def names(model, ctx):
    ctx.counter = getattr(ctx, "counter", 0) + 1
    return f"o{ctx.counter}"


# ---- operations: (ctx, mesh, model) -> (result, model of the result, in_place)
def op_none(ctx, m, d):
    return m, d, True


def op_clone(ctx, m, d):
    return m.clone(), d, False


def op_detach(ctx, m, d):
    return m.detach(), d, False


def op_copy(ctx, m, d):
    return m.to("cpu", copy=True), d, False


def total(d):
    return sum(len(v) for v, _ in d)


def off(d, o):
    out, a = [], 0
    for v, f in d:
        out.append((v + (o if o.dim() == 1 else o[a: a + len(v)]), f))
        a += len(v)
    return out


def op_offset_(ctx, m, d):
    o = ctx.real(names(d, ctx), (total(d), 3))
    r = m.offset_verts_(o)
    ctx.true("in-place operations return the same object", r is m)
    return m, off(d, o), True


def op_shift_(ctx, m, d):
    o = ctx.real(names(d, ctx), (3,))
    m.offset_verts_(o)
    return m, off(d, o), True


def op_offset(ctx, m, d):
    o = ctx.real(names(d, ctx), (total(d), 3))
    return m.offset_verts(o), off(d, o), False


def op_scale_(ctx, m, d):
    s = ctx.real(names(d, ctx), (len(d),))
    m.scale_verts_(s)
    return m, [(v * s[i], f) for i, (v, f) in enumerate(d)], True


def op_scale_num(ctx, m, d):
    return m.scale_verts(2.5), [(v * 2.5, f) for v, f in d], False


def op_scale(ctx, m, d):
    s = ctx.real(names(d, ctx), (len(d),))
    return m.scale_verts(s), [(v * s[i], f) for i, (v, f) in enumerate(d)], False


def op_update_padded(ctx, m, d):
    V = max(len(v) for v, _ in d)
    o = ctx.real(names(d, ctx), (len(d), V, 3))
    rows = torch.stack([torch.cat([o[i, : len(v)], torch.zeros(V - len(v), 3, dtype=o.dtype)]) for i, (v, _) in enumerate(d)])
    return m.update_padded(rows), [(o[i, : len(v)], f) for i, (v, f) in enumerate(d)], False


def op_extend(ctx, m, d):
    return m.extend(2), [x for x in d for _ in range(2)], False


def op_int(ctx, m, d):
    i = ctx.pick(names(d, ctx), list(range(-1, len(d))))
    return m[i], [d[i]], False


def op_slice(ctx, m, d):
    s = ctx.pick(names(d, ctx), [slice(0, 1), slice(1, None), slice(None, None, -1) if False else slice(None), slice(-1, None)])
    if not d[s]:
        ctx.prune()
    return m[s], d[s], False


def op_list(ctx, m, d):
    n = len(d)
    s = ctx.pick(names(d, ctx), [[n - 1, 0], [0, 0], list(range(n))])
    return m[s], [d[i] for i in s], False


def op_mask(ctx, m, d):
    n = len(d)
    s = [bool(ctx.pick(names(d, ctx), [True, False])) for _ in range(n)]
    if not any(s):
        ctx.prune()
    return m[torch.tensor(s)], [x for x, k in zip(d, s) if k], False


def op_long(ctx, m, d):
    n = len(d)
    s = ctx.pick(names(d, ctx), [[n - 1], [n - 1, 0, n - 1]])
    return m[torch.tensor(s)], [d[i] for i in s], False


def op_split(ctx, m, d):
    n = len(d)
    k = ctx.pick(names(d, ctx), list(range(n + 1)))
    parts = m.split([k, n - k])
    ctx.true("number of parts", len(parts) == 2)
    for p, q in zip(parts, (d[:k], d[k:])):
        if q:
            view_checks(ctx, p, q, "split: ")
    return (parts[0], d[:k], False) if k else (parts[1], d[k:], False)


def sub(v, f, ids):
    used = sorted({i for k in ids for i in f[k]})
    return (v[torch.tensor(used, dtype=I64)], [[used.index(i) for i in f[k]] for k in ids])


def op_submeshes(ctx, m, d):
    sel = []
    for v, f in d:
        n = len(f)
        opts = [[]] + ([[[0]], [[n - 1], list(range(n))[::-1]]] if n else [])
        sel.append(ctx.pick(names(d, ctx), opts))
    if not any(sel):
        ctx.prune()
    r = m.submeshes([[torch.tensor(i, dtype=I64) for i in s] for s in sel])
    return r, [sub(v, f, ids) for (v, f), s in zip(d, sel) for ids in s], False


def op_join_batch(ctx, m, d):
    m2, d2 = build(ctx, "uneven", "list", names(d, ctx))
    return join_meshes_as_batch([m, m2, m]), d + d2 + d, False


def op_join_scene(ctx, m, d):
    offs = [sum(len(v) for v, _ in d[:i]) for i in range(len(d))]
    r = join_meshes_as_scene(m if ctx.pick(names(d, ctx), [True, False]) else [m])
    return r, [(torch.cat([v for v, _ in d]), [[i + o for i in q] for (_, f), o in zip(d, offs) for q in f])], False


OPS = [op_none, op_clone, op_detach, op_copy, op_offset_, op_shift_, op_offset, op_scale_, op_scale_num, op_scale, op_update_padded, op_extend, op_int, op_slice, op_list, op_mask, op_long, op_split, op_submeshes, op_join_batch, op_join_scene]
FORMS = ["list", "padded"]


@case(params=[(op,) for op in OPS], bounds="one operation after every kind of read on every layout and construction form; all views of result and input compared with a model", weight=2, validate=2)
def one(ctx, op):
    form = ctx.pick("form", FORMS)
    lay = ctx.pick("layout", list(LAY))
    m, d = build(ctx, lay, form)
    before = ctx.pick("read", list(READS))
    READS[before](m)
    r, e, inplace = op(ctx, m, d)
    view_checks(ctx, r, e)
    if not inplace:
        view_checks(ctx, m, d, "input unchanged: ")
        ctx.true("a new object is returned", r is not m or (op is op_join_scene and len(d) == 1))


SECOND = [op_offset_, op_scale_, op_update_padded, op_list, op_extend]


@case(params=[dict(op=op, op2=o2, _case=dict(tier="quick" if k < 2 or op in (op_update_padded, op_offset_) else "thorough")) for op in OPS[1:] for k, o2 in enumerate(SECOND)], bounds="two operations with a read before each, uneven layouts; an update of the result does not change the input", weight=3, validate=2)
def two(ctx, op, op2):
    form = ctx.pick("form", FORMS)
    lay = ctx.pick("layout", ["uneven", "hole"])
    reads = ["nothing", "packed", "packed+padded"]
    m, d = build(ctx, lay, form)
    READS[ctx.pick("read", reads)](m)
    r, e, inplace = op(ctx, m, d)
    if not any(len(v) and f for v, f in e):
        ctx.prune()  # operations on batches without any face are outside the claim
    READS[ctx.pick("read2", reads)](r)
    r2, e2, inplace2 = op2(ctx, r, e)
    view_checks(ctx, r2, e2)
    if not inplace2:
        view_checks(ctx, r, e, "second input unchanged: ")
    if not inplace:
        view_checks(ctx, m, d, "first input unchanged: ")


@case(bounds="lists of batches without faces or vertices, and the empty list")
def empty(ctx):
    k = ctx.pick("k", [0, 1, 2])
    m = Meshes([torch.zeros(0, 3)] * k, [torch.zeros(0, 3, dtype=I64)] * k)
    READS[ctx.pick("read", ["nothing", "packed", "padded"])](m)
    ctx.true("empty", len(m) == k and bool(m.isempty()))
    ctx.true("packed", tuple(m.verts_packed().shape) == (0, 3) and tuple(m.faces_packed().shape) == (0, 3))
    ctx.true("padded", tuple(m.verts_padded().shape) == (k, 0, 3) and tuple(m.faces_padded().shape) == (k, 0, 3))
    ctx.true("edges", m.edges_packed().shape[0] == 0)
    c = m.clone()
    ctx.true("clone", len(c) == k and bool(c.isempty()))
    if k:
        m2, d2 = build(ctx, "uneven", "list")
        j = join_meshes_as_batch([m, m2])
        view_checks(ctx, j, [(torch.zeros(0, 3, dtype=torch.float64), [])] * k + d2)


@case(bounds="padded faces: -1 padding rows given in lists are dropped; padding in the middle of a padded tensor is rejected")
def padding_rows(ctx):
    v = ctx.real("v", (4, 3))
    m = Meshes([v], [torch.tensor([[0, 1, 2], [-1, -1, -1], [1, 2, 3], [-1, -1, -1]])])
    view_checks(ctx, m, [(v, [[0, 1, 2], [1, 2, 3]])])
    try:
        Meshes(v[None], torch.tensor([[[0, 1, 2], [-1, -1, -1], [1, 2, 3]]]))
        ctx.true("padding in the middle is rejected", False)
    except ValueError:
        pass
