"""C46: multi-view pooling samples the right views and aggregates them by their masked statistics."""
import itertools
import torch
from symx.harness import case
from pytorch3d.implicitron.models.view_pooler.feature_aggregator import (
    AngleWeightedIdentityFeatureAggregator, AngleWeightedReductionFeatureAggregator, IdentityFeatureAggregator,
    ReductionFeatureAggregator, ReductionFunction)
from pytorch3d.implicitron.models.view_pooler.view_pooler import ViewPooler
from pytorch3d.implicitron.models.view_pooler.view_sampler import ViewSampler, cameras_points_cartesian_product
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.ops import wmean
from pytorch3d.renderer.cameras import PerspectiveCameras
from checks.common import tex2d

KW = dict(dtype="float32", feas_ms=200)
AVG, STD, STD_AVG, MAX = ReductionFunction.AVG, ReductionFunction.STD, ReductionFunction.STD_AVG, ReductionFunction.MAX
ROT = torch.tensor([[[1.0, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.6, 0, 0.8], [0, 1, 0], [-0.8, 0, 0.6]], [[1.0, 0, 0], [0, 0.8, -0.6], [0, 0.6, 0.8]]])
TR = torch.tensor([[0.25, -0.5, 3.0], [-0.25, 0.5, 4.0], [0.5, 0.0, 3.5]])
FOCAL = torch.tensor([[1.0, 1.5], [2.0, 1.25], [1.5, 1.0]])
PP = torch.tensor([[0.0, 0.125], [0.25, 0.0], [-0.125, 0.25]])


def make(cls, **kw):
    expand_args_fields(cls)
    return cls(**kw)


def cameras(n):
    return PerspectiveCameras(R=ROT[:n], T=TR[:n], focal_length=FOCAL[:n], principal_point=PP[:n])


def project(v, p):
    """NDC position of a world point in view v (points in front)"""
    q = p @ ROT[v] + TR[v]
    return FOCAL[v] * q[:2] / q[2] + PP[v]


def lookup(ctx, image, ndc, mode="bilinear"):
    """(C,H,W) image at an NDC position: +x left, +y up, the shorter side spans [-1, 1]"""
    H, W = image.shape[1:]
    s = min(H, W)
    return tex2d(ctx, image.permute(1, 2, 0), (1 - ndc[0] * s / W) / 2, (1 + ndc[1] * s / H) / 2, False, "zeros", mode)


PTS = torch.tensor([[[0.25, 0.5, 0.125], [-0.5, 0.25, 0.5]], [[0.125, -0.25, 0.25], [0.5, 0.5, -0.25]]])


@case(params=[dict(B=b, V=v, masked=m, free=f, size=s) for b, v, f in [(1, 2, (0, 1)), (2, 2, (1, 0)), (2, 3, (0, 0)), (2, 1, (1, 1))] for m in (False, True) for s in ((2, 3), (3, 2))], **KW)
def sampler(ctx, B, V, masked, free, size):
    """features of views of the same sequence at the projections; the features and masks of the other views are zero"""
    feats = {"a": ctx.real("a", (V, 2) + size), "b": ctx.real("b", (V, 1, 2, 2))}
    masks = ctx.real("mask", (V, 1) + size, 0, 1)
    axis = 0 if size[0] == 2 else 1
    z = ctx.real("p", (), -1.5, 1.5)
    pts = PTS[:B].clone() if not ctx.symbolic else PTS[:B] + 0 * z
    pts[free[0], free[1], axis] = z
    sp = [0] + [ctx.pick(f"sp{b}", (0, 1)) for b in range(1, B)]
    sc = [ctx.pick(f"sc{v}", (0, 1)) for v in range(V)]
    kind = ("list", "tensor", "names")[V - 1]
    conv = {"list": list, "tensor": torch.tensor, "names": lambda x: [("first", "second")[i] for i in x]}[kind]
    out, m = make(ViewSampler, masked_sampling=masked)(pts=pts, seq_id_pts=conv(sp), camera=cameras(V), seq_id_camera=conv(sc), feats=feats, masks=masks)
    for k, f in feats.items():
        ctx.true("shape", tuple(out[k].shape) == (B, V, 2, f.shape[1]))
    ctx.true("mask shape", tuple(m.shape) == (B, V, 2, 1))
    for b in range(B):
        for v in range(V):
            for i in range(2):
                if sp[b] != sc[v]:
                    ctx.eq("no feature of another sequence", torch.cat([out[k][b, v, i] for k in feats] + [m[b, v, i]]), torch.zeros(4))
                    continue
                if (b, i) != free and (b, v, i) != (0, 0, 0):
                    continue
                at = project(v, pts[b, i])
                for k, f in feats.items():
                    ctx.eq("feature at the projection", out[k][b, v, i], lookup(ctx, f[v], at), tol=(1e-4, 1e-4))
                ctx.eq("mask at the projection", m[b, v, i], lookup(ctx, masks[v], at) if masked else torch.ones(1), tol=(1e-4, 1e-4))


@case(**KW)
def sampler_needs_masks(ctx):
    a = ctx.real("a", (1, 1, 2, 2))
    try:
        make(ViewSampler, masked_sampling=True)(pts=PTS[:1], seq_id_pts=[0], camera=cameras(1), seq_id_camera=[0], feats={"a": a}, masks=None)
        refused = False
    except ValueError:
        refused = True
    ctx.true("masked sampling without masks is refused", refused)


@case(params=[dict(V=v, B=b, extra=e) for v, b, e in [(1, 1, ()), (2, 3, (2,)), (3, 2, (1, 2))]], **KW)
def product(ctx, V, B, extra):
    pts = ctx.real("p", (B,) + extra + (3,))
    cam, rep = cameras_points_cartesian_product(cameras(V), pts)
    ctx.true("counts", len(cam.R) == V * B and len(rep) == V * B)
    for v in range(V):
        for b in range(B):
            ctx.eq("camera", cam.R[v * B + b], ROT[v])
            ctx.eq("points", rep[v * B + b], pts[b])


def mean(x, w, floor):
    """x: list over views of vectors, w: list of weights"""
    return sum(a * c for a, c in zip(w, x)) / floor(sum(w), 1e-2)


def stats(ctx, x, w, fns):
    """documented statistics over views with weights w, zero when no view has weight"""
    floor = lambda v, e: v if ctx.fork(v > e) else torch.tensor(e)
    n = len(x[0])
    if not any(ctx.fork(v > 1e-4) for v in w):
        return torch.zeros(sum(1 if f is STD_AVG else n for f in fns))
    mu = mean(x, w, floor)
    sd = None
    if STD in fns or STD_AVG in fns:
        var = mean([(c - mu) ** 2 for c in x], w, floor)
        sd = torch.stack([floor(v, 1e-4).sqrt() for v in var])
    res = {AVG: mu, STD: sd, STD_AVG: None if sd is None else sd.mean()[None]}
    if MAX in fns:
        best = []
        for d in range(n):
            top = None
            for c, v in zip(x, w):  # weights are 0 or 1 here
                if ctx.fork(v > 0.5) and (top is None or ctx.fork(c[d] > top)):
                    top = c[d]
            best.append(top)
        res[MAX] = torch.stack(best)
    return torch.cat([res[f] for f in (AVG, STD, STD_AVG, MAX) if f in fns])


FNS = {"avg": (AVG,), "std": (STD,), "avg-std": (AVG, STD), "std_avg": (STD_AVG,), "avg-std_avg": (AVG, STD_AVG), "max": (MAX,), "avg-max": (MAX, AVG)}


def excluded(x, w, B, V, target, mask):
    """the documented exclusion of the target view (view b of element b)"""
    x, w = [list(r) for r in x], [list(r) for r in w]
    for b in range(B):
        if mask:
            x[b][b] = x[b][b] * 0
        if target:
            w[b][b] = w[b][b] * 0
    return x, w


@case(params=[dict(fn=f, B=b, V=v, target=t, mask=m, cat=c) for f in FNS for b, v, t, m, c in [(1, 2, False, False, True), (2, 3, True, True, True), (1, 3, True, False, False), (2, 2, False, True, True)]],
      budget=60, **KW)
def reduction(ctx, fn, B, V, target, mask, cat):
    fns = FNS[fn]
    dims = {"a": 1, "b": 1} if "std_avg" not in fn and (B, V) != (2, 3) else {"a": 2 if B * V < 6 else 1}
    feats = {k: ctx.real(k, (B, V, 1, d), -2, 2) for k, d in dims.items()}
    w = ctx.integer("w", (B, V, 1, 1), 0, 1).float() if MAX in fns or "std" in fn else ctx.real("w", (B, V, 1, 1), 0, 1)
    agg = make(ReductionFeatureAggregator, reduction_functions=fns, exclude_target_view=target, exclude_target_view_mask_features=mask, concatenate_output=cat)
    out = agg(feats, w)
    ctx.true("aggregated size", agg.get_aggregated_feature_dim(sum(dims.values())) == sum(1 if f is STD_AVG else sum(dims.values()) for f in fns))
    got = torch.cat([out[k] for k in feats], -1) if not cat else out
    for b in range(B):
        want = []
        for k in feats:
            X, Wt = excluded([[feats[k][i, v, 0] for v in range(V)] for i in range(B)], [[w[i, v, 0, 0] for v in range(V)] for i in range(B)], B, V, target, mask)
            want.append(stats(ctx, X[b], Wt[b], fns))
        want = torch.cat(want)
        ctx.true("shape", tuple(got.shape) == (B, 1, 1, len(want)))
        ctx.eq("masked statistics", got[b, 0, 0], want, tol=(1e-4, 1e-4))


@case(params=[dict(mask=m, cat=c, B=b, V=v) for m in (True, False) for c in (True, False) for b, v in [(1, 2), (2, 3)]], **KW)
def identity(ctx, mask, cat, B, V):
    feats = {"a": ctx.real("a", (B, V, 2, 1)), "b": ctx.real("b", (B, V, 2, 2))}
    agg = make(IdentityFeatureAggregator, exclude_target_view_mask_features=mask, concatenate_output=cat)
    out = agg(feats, torch.ones(B, V, 2, 1))
    got = out if cat else torch.cat([out["a"], out["b"]], -1)
    ctx.true("aggregated size", agg.get_aggregated_feature_dim(3) == 3)
    for b in range(B):
        for v in range(V):
            for i in range(2):
                w = torch.cat([feats["a"][b, v, i], feats["b"][b, v, i]])
                ctx.eq("view", got[b, v, i], w * 0 if mask and b == v else w)


def angle_weight(v, b, p, low, gamma):
    """cosine between the rays of view v and of the target view b to the point, mapped to [0, 1]"""
    d = [p + TR[j] @ ROT[j].T for j in (v, b)]
    cos = (d[0] * d[1]).sum() / (torch.sqrt((d[0] * d[0]).sum()) * torch.sqrt((d[1] * d[1]).sum()))
    return (cos * 0.5 + 0.5 + low) ** gamma


@case(params=[dict(B=b, V=v, target=t, low=low, gamma=g, axis=a) for b, v, t, low, g, a in
              [(1, 2, False, 0.1, 1, 0), (1, 2, True, 0.25, 2, 1), (2, 2, False, 0.5, 1, 2), (2, 3, True, 0.1, 2, 0), (1, 3, False, 0.1, 3, 1)]], **KW)
def angle_identity(ctx, B, V, target, low, gamma, axis):
    """features times the documented weight of the angle between the rays"""
    f, w = ctx.real("f", (B, V, 1, 1)), ctx.real("w", (B, V, 1, 1), 0, 1)
    z = ctx.real("p", (), -1, 1)
    pts = PTS[:B, :1] + 0 * z
    pts[B - 1, 0, axis] = z
    agg = make(AngleWeightedIdentityFeatureAggregator, exclude_target_view=target, exclude_target_view_mask_features=False,
               weight_by_ray_angle_gamma=float(gamma), min_ray_angle_weight=low)
    out = agg({"f": f}, w, cameras(V), pts)
    for b in range(B):
        for v in range(V):
            want = f[b, v, 0] * w[b, v, 0] * (0.0 if target and v == b else angle_weight(v, b, pts[b, 0], low, gamma))
            ctx.eq("weighted view", out[b, v, 0], want, tol=(1e-4, 1e-4))


@case(params=[dict(B=b, V=v, target=t, fn=fn) for b, v, t, fn in [(1, 2, False, "avg"), (2, 3, True, "avg"), (1, 3, True, "avg"), (2, 2, False, "avg")]], **KW)
def angle_reduction(ctx, B, V, target, fn):
    """statistics with the weights of the angle (points fixed)"""
    f = ctx.real("f", (B, V, 2, 1), -2, 2)
    w = ctx.integer("w", (B, V, 1, 1), 0, 1).float().expand(B, V, 2, 1)
    agg = make(AngleWeightedReductionFeatureAggregator, reduction_functions=FNS[fn], exclude_target_view=target, exclude_target_view_mask_features=False)
    out = agg({"f": f}, w, cameras(V), PTS[:B])
    for b in range(B):
        for i in range(2):
            wt = [w[b, v, i, 0] * (0.0 if target and v == b else angle_weight(v, b, PTS[b, i], 0.1, 1)) for v in range(V)]
            ctx.eq("weighted statistics", out[b, 0, i], stats(ctx, [f[b, v, i] for v in range(V)], wt, FNS[fn]), tol=(1e-4, 1e-4))


@case(params=[dict(need=n, cls=c) for n in ("camera", "pts") for c in ("reduction", "identity")], **KW)
def angle_needs(ctx, need, cls):
    f = ctx.real("f", (1, 2, 1, 1))
    agg = make(AngleWeightedReductionFeatureAggregator if cls == "reduction" else AngleWeightedIdentityFeatureAggregator)
    try:
        agg({"f": f}, torch.ones(1, 2, 1, 1), None if need == "camera" else cameras(2), None if need == "pts" else PTS[:1, :1])
        refused = False
    except ValueError:
        refused = True
    ctx.true("missing argument is refused", refused)


@case(params=[dict(cls=c) for c in ("ReductionFeatureAggregator", "IdentityFeatureAggregator", "AngleWeightedIdentityFeatureAggregator")], **KW)
def pooler(ctx, cls):
    """the pooler aggregates what the sampler returns, for views of the points' own sequence"""
    B, V = 1, 3
    feats = {"a": ctx.real("a", (V, 1, 2, 2), -2, 2)}
    sc = [0] + [ctx.pick(f"sc{v}", (0, 1)) for v in range(1, V)]
    args = {f"feature_aggregator_{cls}_args": dict(reduction_functions=(AVG,)) if cls.startswith("Red") else {}}
    p = make(ViewPooler, feature_aggregator_class_type=cls, **args)
    out = p(pts=PTS[:1], seq_id_pts=[0], camera=cameras(V), seq_id_camera=sc, feats=feats, masks=None)
    ctx.true("aggregation flag", p.has_aggregation() == cls.startswith("Red"))
    for i in range(2):
        x = [lookup(ctx, feats["a"][v], project(v, PTS[0, i])) for v in range(V)]
        use = [v for v in range(1, V) if sc[v] == 0]
        if cls.startswith("Red"):
            want = sum(x[v] for v in use) / len(use) if use else torch.zeros(1)
            ctx.eq("mean over the source views", out[0, 0, i], want, tol=(1e-4, 1e-4))
        else:
            for v in range(V):
                s = angle_weight(v, 0, PTS[0, i], 0.1, 1) if cls.startswith("Angle") else 1.0
                ctx.eq("view", out[0, v, i], x[v] * s if v in use else torch.zeros(1), tol=(1e-4, 1e-4))


@case(params=[dict(shape=s, dim=d, keep=k, w=w) for s, d in [((3, 2), -2), ((2, 3, 1), -2), ((2, 2, 1), (-3, -2)), ((2, 3, 1), 0)] for k in (True, False) for w in ("full", "none", "broadcast") if w != "broadcast" or (len(s), d) == (3, -2)], **KW)
def weighted_mean(ctx, shape, dim, keep, w):
    x = ctx.real("x", shape)
    wt = None if w == "none" else ctx.real("w", shape[:-1] if w == "full" else (1,) + shape[1:-1], 0, 4)
    out = wmean(x, wt, dim=dim, keepdim=keep)
    dims = tuple(d % len(shape) for d in ((dim,) if isinstance(dim, int) else dim))
    rest = [d for d in range(len(shape)) if d not in dims]
    ctx.true("shape", list(out.shape) == [1 if d in dims else n for d, n in enumerate(shape) if keep or d not in dims])
    got = out.reshape([shape[d] for d in rest]) if rest else out.reshape(())
    full = torch.ones(shape[:-1]) if wt is None else wt.expand(shape[:-1])
    for at in itertools.product(*[range(shape[d]) for d in rest]):
        num, den, own = 0.0, 0.0, itertools.product(*[range(shape[d]) for d in dims])
        for o in own:
            idx = [0] * len(shape)
            for d, i in list(zip(rest, at)) + list(zip(dims, o)):
                idx[d] = i
            num, den = num + full[tuple(idx[:-1])] * x[tuple(idx)], den + full[tuple(idx[:-1])]
        if ctx.fork(den > 1e-9):
            ctx.eq("weighted mean", got[at], num / den)
        else:
            ctx.eq("floor", got[at], num / 1e-9, tol=(1e-4, 1e-4))
