"""C15: chamfer distance."""
import itertools

import torch
from symx.harness import case
from pytorch3d.loss import chamfer_distance
from pytorch3d.structures import Pointclouds
from checks.common import dist_table

CPP = ["knn_points_idx"]


def ref(x, y, lx, ly, w, norm, nx=None, ny=None, abs_cosine=True):
    """per point terms of one direction, (N, P1) distances and cosine terms, by definition"""
    N, P, _ = x.shape
    d = dist_table(x, y, norm)
    D, C = [], []
    for n in range(N):
        for i in range(P):
            if i >= lx[n]:
                D.append(torch.zeros(()))
                C.append(torch.zeros(()))
                continue
            row = d[n, i, :ly[n]]
            D.append(row.min() * w[n])
            if nx is not None:
                best, cos = row[0], None
                for j in range(ly[n]):
                    a, b = nx[n, i], ny[n, j]
                    c = (a * b).sum() / ((a * a).sum().sqrt() * (b * b).sum().sqrt())
                    c = 1 - (c.abs() if abs_cosine else c)
                    if cos is None:
                        cos = c
                    else:
                        cos = torch.where(row[j] < best, c, cos)
                        best = torch.where(row[j] < best, row[j], best)
                C.append(cos * w[n])
    return torch.stack(D).reshape(N, P), (torch.stack(C).reshape(N, P) if nx is not None else None)


def reduce_(t, lens, w, pr, br):
    if pr is None:
        return t
    r = torch.stack([t[n, :].max() if pr == "max" else t[n].sum() / (max(lens[n], 1) if pr == "mean" else 1) for n in range(len(t))])
    return r


def batch(t, w, br):
    if br is None:
        return t
    t = t.sum()
    return t / (len(w) if w is None else w.sum()) if br == "mean" else t


def run(ctx, x, y, lx, ly, w, pr, br, norm, single, nx=None, ny=None, ab=True, got=None):
    kw = dict(x_lengths=torch.tensor(lx), y_lengths=torch.tensor(ly), x_normals=nx, y_normals=ny, weights=w, batch_reduction=br, point_reduction=pr, norm=norm,
              single_directional=single, abs_cosine=ab)
    loss, ln = got if got is not None else chamfer_distance(x, y, **kw)
    wt = torch.ones(len(lx)) if w is None else w
    a, ca = ref(x, y, lx, ly, wt, norm, nx, ny, ab)
    b, cb = ref(y, x, ly, lx, wt, norm, ny, nx, ab)
    div = torch.full((), float(len(lx))) if w is None else w.sum()

    def fin(p, q):
        if pr is None:
            return p if single else (p, q)
        p, q = reduce_(p, lx, wt, pr, br), reduce_(q, ly, wt, pr, br)
        t = p if single else (torch.maximum(p, q) if pr == "max" else p + q)
        if br is None:
            return t
        return t.sum() / div if br == "mean" else t.sum()

    want = fin(a, b)
    if isinstance(want, tuple):
        for k in range(2):
            ctx.eq("per-point terms", loss[k], want[k])
    else:
        ctx.eq("distance", loss, want)
        if pr is not None:
            ctx.le("non-negative", torch.zeros(loss.shape), loss)
    if nx is None:
        ctx.true("no normal term", ln is None)
    else:
        wn = fin(ca, cb)
        if isinstance(wn, tuple):
            for k in range(2):
                ctx.eq("per-point normal terms", ln[k], wn[k])
        else:
            ctx.eq("normal term", ln, wn)


RED = [("mean", "mean"), ("sum", "mean"), ("mean", "sum"), ("sum", "sum"), (None, "mean"), (None, "sum"), (None, None), ("mean", "max"), ("sum", "max"), (None, "max")]


@case(params=[r + (s,) for r in RED for s in (False, True)], cpp=CPP, dtype="float32", bounds="two clouds with 2,1 against 1,2 points in 1D, symbolic points and weights")
def reductions(ctx, br, pr, single):
    x, y = ctx.real("x", (2, 2, 1)), ctx.real("y", (2, 2, 1))
    w = ctx.real("w", (2,), 0, 4)
    ctx.assume(w.sum() > 0)
    if pr is None and br is not None:
        br = None
    run(ctx, x, y, (2, 1), (1, 2), w, pr, br, 2, single)


@case(params=[(1,), (2,)], cpp=CPP, dtype="float32", bounds="one cloud with 2 against 2 points in 2D, no weights, both norms")
def plain(ctx, norm):
    x, y = ctx.real("x", (1, 2, 2)), ctx.real("y", (1, 2, 2))
    run(ctx, x, y, (2,), (2,), None, "mean", "mean", norm, False)
    a, b = chamfer_distance(x, y, norm=norm)[0], chamfer_distance(y, x, norm=norm)[0]
    ctx.eq("symmetric", a, b)


@case(params=[(1,), (2,)], cpp=CPP, dtype="float32", bounds="identical clouds with two points in 2D")
def identical(ctx, norm):
    x = ctx.real("x", (1, 2, 2))
    ctx.eq("zero for identical clouds", chamfer_distance(x, x.clone(), norm=norm)[0], 0.0)


@case(params=[("mean", "mean", False, True), ("sum", "sum", False, False), (None, "mean", True, True), (None, None, False, False), (None, None, True, True)],
      cpp=CPP, dtype="float32", bounds="normals: clouds with 2,1 against 1,2 points in 1D, symbolic 2D normals away from zero")
def normals(ctx, br, pr, single, ab):
    x, y = ctx.real("x", (2, 2, 1)), ctx.real("y", (2, 2, 1))
    nx, ny = ctx.real("nx", (2, 2, 2), -2, 2), ctx.real("ny", (2, 2, 2), -2, 2)
    ctx.assume((nx * nx).sum(-1) >= 0.01)
    ctx.assume((ny * ny).sum(-1) >= 0.01)
    w = ctx.real("w", (2,), 0.5, 4) if br == "mean" else None
    run(ctx, x, y, (2, 1), (1, 2), w, pr, br, 2, single, nx, ny, ab)


@case(params=[(False,), (True,)], cpp=CPP, dtype="float32", bounds="point cloud objects of sizes 2,1 against 1,2 with normals")
def clouds(ctx, single):
    x, y = ctx.real("x", (2, 2, 3)), ctx.real("y", (2, 2, 3))
    lx, ly = (2, 1), (1, 1)
    px = Pointclouds([x[0, :2], x[1, :1]])
    py = Pointclouds([y[0, :1], y[1, :1]])
    got = chamfer_distance(px, py, single_directional=single)
    xp = torch.stack([x[0], torch.stack([x[1, 0], torch.zeros(3)])])
    run(ctx, xp, y[:, :1], lx, ly, None, "mean", "mean", 2, single, got=got)


@case(params=[((0, 2), (1, 2)), ((2, 1), (2, 0))], cpp=CPP, dtype="float32", bounds="empty clouds in the batch")
def empty_clouds(ctx, lx, ly):
    x, y = ctx.real("x", (2, 2, 1)), ctx.real("y", (2, 2, 1))
    got = chamfer_distance(x, y, torch.tensor(lx), torch.tensor(ly), point_reduction="mean", batch_reduction=None)[0]
    t = []
    for n in range(2):
        if lx[n] == 0 or ly[n] == 0:
            t.append(torch.zeros(()))
        else:
            d = dist_table(x[n:n + 1, :lx[n]], y[n:n + 1, :ly[n]])[0]
            t.append(d.min(1).values.sum() / lx[n] + d.min(0).values.sum() / ly[n])
    ctx.eq("an empty cloud contributes nothing", got, torch.stack(t))


@case(cpp=CPP, dtype="float32", bounds="one cloud of one point: zero weights")
def zero_weights(ctx):
    x, y = ctx.real("x", (2, 1, 1)), ctx.real("y", (2, 1, 1))
    ctx.eq("all weights zero", chamfer_distance(x, y, weights=torch.zeros(2))[0], 0.0)
