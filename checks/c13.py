"""C13: k nearest neighbours, ball query, gathering."""
import torch
from symx.harness import case
from pytorch3d.ops import ball_query, knn_gather, knn_points
from pytorch3d.ops.utils import masked_gather
from checks.common import dist_table

KNN = ["knn_points_idx", "knn_points_backward"]
BQ = ["ball_query"]


def check_knn(ctx, p1, p2, l1, l2, K, norm, out, sorted_=True, tag=""):
    N, P1, D = p1.shape
    P2 = p2.shape[1]
    d = dist_table(p1, p2, norm)
    ctx.true(tag + "shape", tuple(out.dists.shape) == (N, P1, K) and tuple(out.idx.shape) == (N, P1, K))
    for n in range(N):
        a, b = (P1 if l1 is None else int(l1[n])), (P2 if l2 is None else int(l2[n]))
        for i in range(P1):
            kk = min(K, b) if i < a else 0
            idx = [int(j) for j in out.idx[n, i]]
            ctx.eq(tag + "padding of distances", out.dists[n, i, kk:], torch.zeros(K - kk))
            ctx.true(tag + "padding of indices", all(j == 0 for j in idx[kk:]))
            ctx.true(tag + "indices are valid and distinct", all(0 <= j < b for j in idx[:kk]) and len(set(idx[:kk])) == kk)
            if kk:
                ctx.eq(tag + "distances are those of the returned neighbours", out.dists[n, i, :kk], d[n, i, idx[:kk]])
            for k in range(1, kk):
                if sorted_:
                    ctx.le(tag + "non-decreasing distances", out.dists[n, i, k - 1], out.dists[n, i, k])
            for j in range(b):
                if kk and j not in idx[:kk]:
                    for k in range(kk):
                        ctx.le(tag + "no nearer point is missed", d[n, i, idx[k]], d[n, i, j])
            if out.knn is not None:
                for k in range(K):
                    want = p2[n, idx[k]] if k < b else torch.zeros(D)
                    ctx.eq(tag + "gathered neighbours", out.knn[n, i, k], want)


L = torch.tensor


@case(params=[(2, 1, 3, 2, 1), (2, 1, 3, 2, 2), (1, 1, 4, 2, 2), (1, 2, 3, 2, 2), (2, 1, 2, 3, 4), (3, 1, 3, 3, 2), (1, 2, 2, 1, 1)], cpp=KNN, dtype="float32",
      bounds="(dimension, queries, targets, K, norm): all coordinates symbolic, one cloud")
def knn(ctx, D, P1, P2, K, norm):
    norm = 1 if norm == 1 else 2
    p1, p2 = ctx.real("p1", (1, P1, D)), ctx.real("p2", (1, P2, D))
    check_knn(ctx, p1, p2, None, None, K, norm, knn_points(p1, p2, norm=norm, K=K, return_nn=True))


@case(params=[(1, 4, 3), (2, 4, 2)], cpp=KNN, dtype="float32", tier="thorough", budget=300, bounds="more targets, one query")
def knn_deep(ctx, D, P2, K):
    p1, p2 = ctx.real("p1", (1, 1, D)), ctx.real("p2", (1, P2, D))
    check_knn(ctx, p1, p2, None, None, K, 2, knn_points(p1, p2, K=K, return_nn=True))


@case(params=[((2, 1), (1, 3), 2), ((1, 2), (3, 2), 3), ((1, 0), (0, 3), 2), ((2, 1), (3, 1), 1), ((1, 1), (2, 1), 3), ((1, 1), (4, 1), 3)], cpp=KNN, dtype="float32",
      bounds="two clouds of different lengths (zero included), K up to 3")
def knn_lengths(ctx, l1, l2, K):
    P1, P2 = max(l1), max(l2)
    p1, p2 = ctx.real("p1", (2, P1, 1)), ctx.real("p2", (2, P2, 1))
    out = knn_points(p1, p2, L(l1), L(l2), K=K, return_nn=True)
    check_knn(ctx, p1, p2, l1, l2, K, 2, out)


@case(params=[((1, 1), (3, 2), 2)], cpp=KNN, dtype="float32", bounds="unsorted results, two clouds; lengths are symbolic integers")
def knn_unsorted(ctx, l1, l2, K):
    p1, p2 = ctx.real("p1", (2, 2, 1)), ctx.real("p2", (2, 3, 1))
    out = knn_points(p1, p2, L(l1), L(l2), K=K, return_nn=True, return_sorted=False)
    check_knn(ctx, p1, p2, l1, l2, K, 2, out, sorted_=False)


@case(params=[(1,), (2,), (3,)], dtype="float32", bounds="symbolic features and in-range symbolic indices; target lengths from 0 to 3", index_mode="ite")
def gather(ctx, K):
    x = ctx.real("x", (2, 3, 2))
    ln = [ctx.pick("l0", [0, 2, 3]), ctx.pick("l1", [1, 3])]
    idx = ctx.integer("i", (2, 2, K), 0, 2)
    out = knn_gather(x, idx, L(ln))
    out0 = knn_gather(x, idx)
    for n in range(2):
        for l in range(2):
            for k in range(K):
                want = sum(torch.where(idx[n, l, k] == j, x[n, j], torch.zeros(2)) for j in range(3))
                ctx.eq("features at the index, zero beyond the length", out[n, l, k], want if k < ln[n] else torch.zeros(2))
                ctx.eq("features at the index, no lengths", out0[n, l, k], want)


@case(params=[(2,), (3,)], dtype="float32", bounds="symbolic indices including -1", index_mode="ite")
def gather_masked(ctx, nd):
    x = ctx.real("x", (2, 3, 2))
    shp = (2, 2) if nd == 2 else (2, 1, 2)
    idx = ctx.integer("i", shp, -1, 2)
    keep = idx.clone()
    out = masked_gather(x, idx)
    ctx.eq("indices are not modified", idx, keep)
    o, q = out.reshape(2, 2, 2), idx.reshape(2, 2)
    for n in range(2):
        for l in range(2):
            want = sum(torch.where(q[n, l] == j, x[n, j], torch.zeros(2)) for j in range(3))
            ctx.eq("features at the index, zero where the index is -1", o[n, l], want)


def check_ball(ctx, p1, p2, l1, l2, K, r, out):
    N, P1, D = p1.shape
    P2 = p2.shape[1]
    d = dist_table(p1, p2, 2)
    for n in range(N):
        a, b = (P1 if l1 is None else int(l1[n])), (P2 if l2 is None else int(l2[n]))
        for i in range(P1):
            idx = [int(j) for j in out.idx[n, i]]
            got = [j for j in idx if j >= 0]
            c = len(got)
            ctx.true("slots fill from the front, index order, valid", idx[:c] == got and got == sorted(set(got)) and all(j < b for j in got) and all(j == -1 for j in idx[c:]) and (i < a or c == 0))
            ctx.eq("padded distances", out.dists[n, i, c:], torch.zeros(K - c))
            if c:
                ctx.eq("true squared distances", out.dists[n, i, :c], d[n, i, got])
                ctx.true("inside the radius", d[n, i, got] < r * r)
            if i < a:
                for j in range(b):
                    if j not in got and (c < K or j < got[-1]):
                        ctx.true("first points inside the radius are not missed", d[n, i, j] >= r * r)
            if out.knn is not None:
                for k in range(K):
                    ctx.eq("gathered points", out.knn[n, i, k], p2[n, idx[k]] if idx[k] >= 0 else torch.zeros(D))


@case(params=[(2, 1, 3, 2, False), (2, 1, 3, 2, True), (1, 2, 2, 2, True), (3, 1, 2, 1, True), (3, 1, 2, 3, False), (1, 1, 4, 2, False)], cpp=BQ, dtype="float32",
      bounds="(dimension, queries, targets, K, skip outside cube): symbolic coordinates, radius 1")
def ball(ctx, D, P1, P2, K, skip):
    p1, p2 = ctx.real("p1", (1, P1, D), -1, 1), ctx.real("p2", (1, P2, D), -1, 1)
    check_ball(ctx, p1, p2, None, None, K, 1.0, ball_query(p1, p2, K=K, radius=1.0, skip_points_outside_cube=skip))


@case(params=[((2, 1), (1, 3), 2, False), ((1, 0), (3, 2), 2, True), ((1, 1), (0, 2), 1, False)], cpp=BQ, dtype="float32",
      bounds="two clouds of different lengths, radius 0.5")
def ball_lengths(ctx, l1, l2, K, skip):
    P1, P2 = max(l1), max(l2)
    p1, p2 = ctx.real("p1", (2, P1, 1), -1, 1), ctx.real("p2", (2, P2, 1), -1, 1)
    out = ball_query(p1, p2, L(l1), L(l2), K=K, radius=0.5, skip_points_outside_cube=skip)
    check_ball(ctx, p1, p2, l1, l2, K, 0.5, out)
