"""C14: farthest point sampling (native operator and Python reference)."""
import importlib

import torch
from symx.harness import case
from pytorch3d.ops import sample_farthest_points as fps
from pytorch3d.ops.sample_farthest_points import sample_farthest_points_naive as naive
from checks.common import dist_table

mod = importlib.import_module("pytorch3d.ops.sample_farthest_points")
CPP = ["sample_farthest_points"]


def check(ctx, x, lengths, K, out, start=None):
    pts, idx = out
    N, P, D = x.shape
    Ks = [K] * N if isinstance(K, int) else list(K)
    d = dist_table(x, x)
    ctx.true("shape", tuple(idx.shape) == (N, max(Ks)) and tuple(pts.shape) == (N, max(Ks), D))
    for n in range(N):
        ln = P if lengths is None else lengths[n]
        k = min(Ks[n], ln)
        ix = [int(i) for i in idx[n]]
        ctx.true("number of samples, padding", all(0 <= i < ln for i in ix[:k]) and all(i == -1 for i in ix[k:]))
        if k and start is None:
            ctx.true("starts at index zero", ix[0] == 0)
        elif k:
            ctx.true("starts at the drawn index", ix[0] == start[n])
        for j in range(1, k):
            far = torch.stack([d[n, p, ix[:j]].min() for p in range(ln)])
            for p in range(ln):
                ctx.le("each sample is farthest from the ones before", far[p], far[ix[j]])
            if ix[j] in ix[:j]:
                ctx.eq("an index repeats only when every point coincides with a selected one", far, torch.zeros(ln))
        for j in range(max(Ks)):
            ctx.eq("selected points", pts[n, j], x[n, ix[j]] if j < k else torch.zeros(D))


@case(params=[(1, 3, 3), (1, 4, 3), (2, 3, 2), (2, 3, 3), (3, 3, 2), (1, 3, 5)], cpp=CPP, dtype="float32", bounds="(dimension, points, K): one cloud, all coordinates symbolic")
def native(ctx, D, P, K):
    x = ctx.real("x", (1, P, D), -9, 9)
    check(ctx, x, None, K, fps(x, K=K))


@case(params=[(1, 3, 3), (1, 4, 3), (2, 3, 2), (2, 3, 3), (3, 3, 2), (1, 3, 5)], dtype="float32", bounds="same, Python implementation")
def python(ctx, D, P, K):
    x = ctx.real("x", (1, P, D), -9, 9)
    check(ctx, x, None, K, naive(x, K=K))


LENS = [((3, 2), (2, 3)), ((1, 3), (3, 2)), ((3, 3), (1, 2)), ((2, 3), 3), ((0, 2), 2), ((2, 2), (0, 2)), ((3, 1, 2), 2)]


@case(params=LENS, cpp=CPP, dtype="float32", bounds="batches with per-cloud lengths and K (zero included)")
def native_lengths(ctx, lengths, K):
    x = ctx.real("x", (len(lengths), max(lengths), 1), -9, 9)
    check(ctx, x, lengths, K, fps(x, torch.tensor(lengths), K=K if isinstance(K, int) else list(K)))


@case(params=LENS, dtype="float32", bounds="same, Python implementation")
def python_lengths(ctx, lengths, K):
    x = ctx.real("x", (len(lengths), max(lengths), 1), -9, 9)
    check(ctx, x, lengths, K, naive(x, torch.tensor(lengths), K=K if isinstance(K, int) else torch.tensor(K)))


@case(params=[(None,), ((3, 2),)], cpp=CPP, dtype="float32", bounds="every random start")
def native_random_start(ctx, lengths):
    x = ctx.real("x", (2, 3, 1), -9, 9)
    out = fps(x, None if lengths is None else torch.tensor(lengths), K=2, random_start_point=True)
    check(ctx, x, lengths, 2, out, start=[int(i) for i in out[1][:, 0]])


@case(params=[((3, 2),)], dtype="float32", bounds="every random start")
def python_random_start(ctx, lengths):
    x = ctx.real("x", (2, 3, 1), -9, 9)
    st, keep = [], mod.randint

    def draw(a, b):
        st.append(ctx.pick(f"start{len(st)}", list(range(int(a), int(b) + 1))))
        return st[-1]

    mod.randint = draw
    try:
        out = naive(x, torch.tensor(lengths), K=2, random_start_point=True)
    finally:
        mod.randint = keep
    check(ctx, x, lengths, 2, out, start=st)
