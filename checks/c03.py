"""C03: views of a batch of point clouds after every bounded history of reads and operations."""
import numpy as np
import torch
from symx.harness import case
from pytorch3d.structures import Pointclouds, join_pointclouds_as_batch, join_pointclouds_as_scene

LAY = {"uneven": (3, 1), "even": (2, 2), "hole": (1, 0, 3), "tail": (2, 0), "single": (2,)}
I64 = torch.int64
D = torch.float64
PARTS = {"points": (), "normals": ("n",), "features": ("f",), "both": ("n", "f")}


def build(ctx, sizes, form, parts, name="p"):
    """model: one dict per cloud with keys p, n, f"""
    N = len(sizes)
    if form == "padded":
        sizes = (max(sizes),) * N
    w = {"p": 3, "n": 3, "f": 2}
    model = [{} for _ in sizes]
    args = {}
    for k in ("p",) + PARTS[parts]:
        if form == "padded":
            t = ctx.real(name + k, (N, max(sizes), w[k]))
            args[k] = t.clone()
            for i in range(N):
                model[i][k] = t[i]
        else:
            for i, s in enumerate(sizes):
                model[i][k] = ctx.real(f"{name}{k}{i}", (s, w[k]))
            args[k] = [m[k].clone() for m in model]
    return Pointclouds(args["p"], normals=args.get("n"), features=args.get("f")), model


def ints(name, ctx, got, want):
    ctx.eq(name, got.to(I64), torch.tensor(want, dtype=I64))


def view_checks(ctx, m, d, tag="", normals_features=True):
    N = len(d)
    sz = [len(c["p"]) for c in d]
    P = max(sz)
    ctx.true(tag + "batch size", len(m) == N)
    ctx.true(tag + "isempty", bool(m.isempty()) == (P == 0))
    ints(tag + "num_points_per_cloud", ctx, m.num_points_per_cloud(), sz)
    ctx.true(tag + "valid", m.valid.tolist() == [s > 0 for s in sz])
    if P == 0:
        ctx.true(tag + "empty batch", m.points_packed().shape[0] == 0 and tuple(m.points_padded().shape) == (N, 0, 3))
        return
    first = [sum(sz[:i]) for i in range(N)]
    ints(tag + "packed_to_cloud_idx", ctx, m.packed_to_cloud_idx(), [i for i in range(N) for _ in range(sz[i])])
    ints(tag + "cloud_to_packed_first_idx", ctx, m.cloud_to_packed_first_idx(), first)
    ints(tag + "padded_to_packed_idx", ctx, m.padded_to_packed_idx(), [i * P + j for i in range(N) for j in range(sz[i])])
    for k, nm in (("p", "points"), ("n", "normals"), ("f", "features")):
        ls, pk, pd = (getattr(m, f"{nm}_{v}")() for v in ("list", "packed", "padded"))
        if any(k in c for c in d):
            w = next(c[k].shape[1] for c in d if k in c)
            ctx.true(f"{tag}{nm} views present", ls is not None and pk is not None and pd is not None)
            ctx.true(f"{tag}{nm} shapes", len(ls) == N and tuple(pd.shape) == (N, P, w) and tuple(pk.shape) == (sum(sz), w))
            for i in range(N):
                ctx.eq(f"{tag}{nm}_list", ls[i], d[i][k])
                ctx.eq(f"{tag}{nm}_padded", pd[i, : sz[i]], d[i][k])
                ctx.eq(f"{tag}{nm}_padded fill", pd[i, sz[i]:], torch.zeros(P - sz[i], w, dtype=D))
            ctx.eq(f"{tag}{nm}_packed", pk, torch.cat([c[k] for c in d]))
        else:
            ctx.true(f"{tag}{nm} absent", ls is None and pk is None and pd is None)
    for i in range(N):
        for a, k in zip(m.get_cloud(i), "pnf"):
            ctx.eq(tag + "get_cloud", a, d[i].get(k))


READS = {
    "nothing": lambda m: None,
    "packed": lambda m: m.points_packed(),
    "padded": lambda m: m.points_padded(),
    "list": lambda m: (m.points_list(), m.normals_list(), m.features_list()),
    "all": lambda m: (m.points_packed(), m.points_padded(), m.padded_to_packed_idx(), m.features_list()),
}


def fresh(ctx):
    ctx.counter = getattr(ctx, "counter", 0) + 1
    return f"o{ctx.counter}"


def upd(d, fn):
    return [dict(c, p=fn(i, c["p"])) for i, c in enumerate(d)]


def op_none(ctx, m, d):
    return m, d, True


def op_clone(ctx, m, d):
    return m.clone(), d, False


def op_detach(ctx, m, d):
    return m.detach(), d, False


def op_copy(ctx, m, d):
    return m.to("cpu", copy=True), d, False


def offs(ctx, d, o):
    a, out = 0, []
    for c in d:
        out.append(dict(c, p=c["p"] + (o if o.dim() == 1 else o[a: a + len(c["p"])])))
        a += len(c["p"])
    return out


def op_offset_(ctx, m, d):
    o = ctx.real(fresh(ctx), (sum(len(c["p"]) for c in d), 3))
    ctx.true("in-place operations return the same object", m.offset_(o) is m)
    return m, offs(ctx, d, o), True


def op_shift(ctx, m, d):
    o = ctx.real(fresh(ctx), (3,))
    return m.offset(o), offs(ctx, d, o), False


def op_scale_(ctx, m, d):
    s = ctx.real(fresh(ctx), (len(d),))
    m.scale_(s)
    return m, upd(d, lambda i, p: p * s[i]), True


def op_scale(ctx, m, d):
    return m.scale(0.5), upd(d, lambda i, p: p * 0.5), False


def padded_rows(ctx, d, k, w):
    P = max(len(c["p"]) for c in d)
    o = ctx.real(fresh(ctx), (len(d), P, w))
    z = torch.stack([torch.cat([o[i, : len(c["p"])], torch.zeros(P - len(c["p"]), w, dtype=D)]) for i, c in enumerate(d)])
    return z, [o[i, : len(c["p"])] for i, c in enumerate(d)]


def op_update_padded(ctx, m, d):
    new = {"p": padded_rows(ctx, d, "p", 3)}
    if ctx.pick(fresh(ctx), [False, True]):
        new["n"] = padded_rows(ctx, d, "n", 3)
    w = next((c["f"].shape[1] for c in d if "f" in c), 2)
    if ctx.pick(fresh(ctx), [False, True]):
        new["f"] = padded_rows(ctx, d, "f", w)
    r = m.update_padded(*(new[k][0] if k in new else None for k in "pnf"))
    return r, [dict(c, **{k: v[1][i] for k, v in new.items()}) for i, c in enumerate(d)], False


def op_extend(ctx, m, d):
    return m.extend(2), [c for c in d for _ in range(2)], False


def op_int(ctx, m, d):
    i = ctx.pick(fresh(ctx), list(range(-1, len(d))))
    return m[i], [d[i]], False


def op_slice(ctx, m, d):
    s = ctx.pick(fresh(ctx), [slice(0, 1), slice(1, None), slice(None), slice(None, None, 2)])
    if not d[s]:
        ctx.prune()
    return m[s], d[s], False


def op_list(ctx, m, d):
    n = len(d)
    s = ctx.pick(fresh(ctx), [[n - 1, 0], [0, 0], list(range(n))])
    return m[s], [d[i] for i in s], False


def op_mask(ctx, m, d):
    s = [bool(ctx.pick(fresh(ctx), [True, False])) for _ in d]
    if not any(s):
        ctx.prune()
    return m[torch.tensor(s)], [x for x, k in zip(d, s) if k], False


def op_long(ctx, m, d):
    n = len(d)
    s = ctx.pick(fresh(ctx), [[n - 1], [n - 1, 0, n - 1]])
    return m[torch.tensor(s)], [d[i] for i in s], False


def op_split(ctx, m, d):
    k = ctx.pick(fresh(ctx), list(range(1, len(d) + 1)))
    a, b = m.split([k, len(d) - k])
    if k < len(d):
        view_checks(ctx, b, d[k:], "split: ")
    return a, d[:k], False


def op_subsample(ctx, m, d):
    few = sum(len(c["p"]) for c in d) > 4
    lim = ctx.pick(fresh(ctx), [2] if few else [1, 2, list(range(1, len(d) + 1)), 5])
    drawn = []

    def choice(n, size, replace=True):
        ctx.true("draws are without replacement and within the cloud", not replace and size <= n)
        rest, out = list(range(int(n))), []
        for _ in range(int(size)):
            out.append(rest.pop(ctx.pick(fresh(ctx), list(range(len(rest))))))
        drawn.append(out)
        return np.array(out, dtype=np.int64)

    keep = np.random.choice
    np.random.choice = choice
    try:
        r = m.subsample(lim)
    finally:
        np.random.choice = keep
    out, lims = [], lim if isinstance(lim, list) else [lim] * len(d)
    for c, k in zip(d, lims):
        ix = drawn.pop(0) if len(c["p"]) > k else list(range(len(c["p"])))
        ctx.true("at most the requested number of distinct points", len(ix) == min(k, len(c["p"])) and len(set(ix)) == len(ix))
        out.append({a: v[torch.tensor(ix, dtype=I64)] for a, v in c.items()})
    return r, out, r is m


def op_join_batch(ctx, m, d):
    has = [k for k in "nf" if any(k in c for c in d)]
    name = {(): "points", ("n",): "normals", ("f",): "features", ("n", "f"): "both"}[tuple(has)]
    m2, d2 = build(ctx, (1, 2), "list", name, fresh(ctx))
    return join_pointclouds_as_batch([m, m2, m]), d + d2 + d, False


def op_join_scene(ctx, m, d):
    r = join_pointclouds_as_scene(m if ctx.pick(fresh(ctx), [True, False]) else [m])
    keys = [k for k in "pnf" if any(k in c for c in d)]
    return r, [{k: torch.cat([c[k] for c in d]) for k in keys}], len(d) == 1


OPS = [op_none, op_clone, op_detach, op_copy, op_offset_, op_shift, op_scale_, op_scale, op_update_padded, op_extend, op_int, op_slice, op_list, op_mask, op_long, op_split, op_subsample, op_join_batch, op_join_scene]


@case(params=[(op,) for op in OPS], bounds="one operation after every kind of read on every layout, construction form and set of attributes", weight=2, validate=2)
def one(ctx, op):
    form = ctx.pick("form", ["list", "padded"])
    lay = ctx.pick("layout", list(LAY))
    parts = ctx.pick("parts", list(PARTS) if op in (op_none, op_update_padded, op_clone) else ["points", "both"])
    if op is op_subsample and form == "padded" and lay in ("uneven", "hole"):
        ctx.prune()
    m, d = build(ctx, LAY[lay], form, parts)
    READS[ctx.pick("read", list(READS) if op is not op_subsample else ["nothing", "all"])](m)
    r, e, inplace = op(ctx, m, d)
    view_checks(ctx, r, e)
    if not inplace:
        view_checks(ctx, m, d, "input unchanged: ")
        ctx.true("a new object is returned", r is not m)


SECOND = [op_offset_, op_scale_, op_update_padded, op_list, op_subsample]


@case(params=[dict(op=op, op2=o2, _case=dict(tier="quick" if k < 3 and op is not op_subsample else "thorough")) for op in OPS[1:] for k, o2 in enumerate(SECOND)], bounds="two operations with a read before each; an update of the result does not change the input", weight=3, validate=2)
def two(ctx, op, op2):
    form = ctx.pick("form", ["list", "padded"])
    lay = ctx.pick("layout", ["uneven", "hole"])
    parts = ctx.pick("parts", ["both"])
    reads = ["nothing", "packed", "all"] if ctx.case.tier == "thorough" else ["nothing", "all"]
    m, d = build(ctx, LAY[lay], form, parts)
    READS[ctx.pick("read", reads)](m)
    r, e, inplace = op(ctx, m, d)
    if not any(len(c["p"]) for c in e):
        ctx.prune()
    READS[ctx.pick("read2", reads)](r)
    r2, e2, inplace2 = op2(ctx, r, e)
    view_checks(ctx, r2, e2)
    if not inplace2:
        view_checks(ctx, r, e, "second input unchanged: ")
    if not inplace:
        view_checks(ctx, m, d, "first input unchanged: ")


@case(params=[("uneven",), ("even",), ("single",)], bounds="bounding boxes are the exact minima and maxima; box test marks exactly the inside points (one box or one per cloud)")
def boxes(ctx, lay):
    m, d = build(ctx, LAY[lay], ctx.pick("form", ["list", "padded"]), "points")
    bb = m.get_bounding_boxes()
    ctx.true("shape", tuple(bb.shape) == (len(d), 3, 2))
    for i, c in enumerate(d):
        for k in range(3):
            col = c["p"][:, k]
            for v, s in ((bb[i, k, 0], 1), (bb[i, k, 1], -1)):
                ctx.true("attained", torch.stack([v == x for x in col]).any())
                for x in col:
                    ctx.le("bound", v * s, x * s)


@case(params=[("uneven", "one"), ("uneven", "flat"), ("uneven", "each"), ("hole", "each"), ("even", "each")], bounds="points and boxes symbolic along each axis in turn")
def inside(ctx, lay, kind):
    ax = ctx.pick("axis", [0, 1, 2])
    N = len(LAY[lay])
    pts, model = [], []
    for i, s in enumerate(LAY[lay]):
        v = ctx.real(f"p{i}", (s,), -5, 5)
        p = torch.cat([torch.full((s, ax), 0.5, dtype=D), v[:, None], torch.full((s, 2 - ax), 0.5, dtype=D)], 1)
        pts.append(p)
        model += [(v[j], i) for j in range(s)]
    nb = N if kind == "each" else 1
    lo, hi = ctx.real("lo", (nb,), -5, 5), ctx.real("hi", (nb,), -5, 5)
    ctx.assume(lo <= hi)
    box = torch.zeros(nb, 2, 3, dtype=D)
    box[:, 1] = 1
    box = torch.stack([torch.stack([torch.stack([(lo, hi)[e][n] if k == ax else box[n, e, k] for k in range(3)]) for e in range(2)]) for n in range(nb)])
    out = Pointclouds(pts).inside_box(box[0] if kind == "flat" else box)
    ctx.true("shape", tuple(out.shape) == (len(model),))
    for r, (x, i) in enumerate(model):
        b = i if kind == "each" else 0
        ctx.eq("inside", out[r], (x >= lo[b]) & (x <= hi[b]))


@case(bounds="batches without any point, and the empty list")
def empty(ctx):
    k = ctx.pick("k", [0, 1, 2])
    m = Pointclouds([torch.zeros(0, 3)] * k)
    READS[ctx.pick("read", ["nothing", "packed", "padded"])](m)
    ctx.true("empty", len(m) == k and bool(m.isempty()))
    ctx.true("packed", tuple(m.points_packed().shape) == (0, 3))
    ctx.true("padded", tuple(m.points_padded().shape) == (k, 0, 3))
    ctx.true("clone", len(m.clone()) == k)
    m2, d2 = build(ctx, (2, 1), "list", "points")
    view_checks(ctx, join_pointclouds_as_batch([m, m2]), [dict(p=torch.zeros(0, 3, dtype=D))] * k + d2)


@case(bounds="features or normals given as None or in a different shape for empty clouds")
def odd_empty(ctx):
    p = ctx.real("p", (2, 3))
    f = ctx.real("f", (2, 2))
    bad = ctx.pick("bad", [None, torch.zeros(0), torch.zeros(0, 2)])
    m = Pointclouds([p, torch.zeros(0, 3)], features=[f, bad])
    view_checks(ctx, m, [dict(p=p, f=f), dict(p=torch.zeros(0, 3, dtype=D), f=torch.zeros(0, 2, dtype=D))])
