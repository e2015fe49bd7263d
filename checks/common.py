"""reference formulas shared by the checks (written from the documentation, never from the implementation)"""
from contextlib import contextmanager

import torch
from symx import cxx


def dist_table(p1, p2, norm=2):
    """(N, P1, P2) squared L2 (or L1) distances"""
    d = p1[:, :, None] - p2[:, None]
    return d.abs().sum(-1) if norm == 1 else (d * d).sum(-1)


def dot(a, b):
    return (a * b).sum(-1)


def cross(a, b):
    return torch.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2], a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], -1)


def segment_dist2(p, a, b):
    """squared distance of p to the segment ab (any dimension)"""
    d = b - a
    l2 = dot(d, d)
    t = dot(p - a, d)
    inner = dot(p - a, p - a) - t * t / l2
    return torch.where(t <= 0, dot(p - a, p - a), torch.where(t >= l2, dot(p - b, p - b), inner))


def triangle_dist2(p, a, b, c):
    """squared distance of p to the triangle abc in 3D"""
    n = cross(b - a, c - a)
    nn = dot(n, n)
    inside = (dot(cross(b - a, p - a), n) >= 0) & (dot(cross(c - b, p - b), n) >= 0) & (dot(cross(a - c, p - c), n) >= 0)
    h = dot(p - a, n)
    edge = torch.minimum(torch.minimum(segment_dist2(p, a, b), segment_dist2(p, a, c)), segment_dist2(p, b, c))
    return torch.where(inside, h * h / nn, edge)


def pixel_centres(H, W):
    """(H, W, 2) NDC (x, y) of the pixel centres: +x left, +y up, the short side spans [-1, 1]"""
    s = min(H, W)
    ys = [(H - 1 - 2 * i) / s for i in range(H)]
    xs = [(W - 1 - 2 * j) / s for j in range(W)]
    return torch.tensor([[[x, y] for x in xs] for y in ys], dtype=torch.float64)


@contextmanager
def threads(ctx, n):
    """run native kernels with n threads (symbolically: the number the kernel is told)"""
    old = torch.get_num_threads()
    if ctx.symbolic:
        cxx.THREADS = n
    else:
        torch.set_num_threads(n)
    try:
        yield
    finally:
        cxx.THREADS = 1
        if not ctx.symbolic:
            torch.set_num_threads(old)


def edge(p, a, b):
    return (p[0] - a[0]) * (b[1] - a[1]) - (p[1] - a[1]) * (b[0] - a[0])


def fragment(tri, p, blur, persp, clip, cull):
    """reference for one face (3,3) at pixel centre p: (covered, depth, bary, signed distance, area, perspective denominator)"""
    a, b, c = tri[0], tri[1], tri[2]
    area = edge(c, a, b)
    w = torch.stack([edge(p, b, c), edge(p, c, a), edge(p, a, b)])
    z = tri[:, 2]
    den = area
    if persp:
        w = torch.stack([w[0] * z[1] * z[2], w[1] * z[0] * z[2], w[2] * z[0] * z[1]])
        den = w.sum()
    w = w / den
    inside = (w > 0).all()
    if clip:
        w = w.clamp(min=0)
        w = w / w.sum()
    depth = (w * z).sum()
    q = p.to(tri.dtype)
    d = torch.minimum(torch.minimum(segment_dist2(q, a[:2], b[:2]), segment_dist2(q, a[:2], c[:2])), segment_dist2(q, b[:2], c[:2]))
    cov = (area != 0) & (z >= 0).all() & (depth >= 0) & (inside | (d < blur))
    if cull:
        cov = cov & (area > 0)
    return cov, depth, w, torch.where(inside, -d, d)


FLOOR = 1e-4  # documented lower bound of the normaliser


def compose_weights(op, alphas, idx):
    """list of weights of the slots of one pixel (alphas (K,), idx list)"""
    out, trans, tot = [], 1.0, 0.0
    for a, i in zip(alphas, idx):
        if i < 0:
            out.append(a * 0)
            continue
        out.append(a * trans if op.__name__ == "alpha_composite" else a)
        if op.__name__ == "alpha_composite":
            trans = trans * (1 - a)
        tot = tot + a
    if op.__name__ == "norm_weighted_sum" and any(i >= 0 for i in idx):
        tot = torch.where(tot < FLOOR, torch.full_like(tot, FLOOR), tot)
        out = [w / tot for w in out]
    return out


def compose(op, idx, alphas, feats):
    """(N, C, H, W)"""
    N, K, H, W = alphas.shape
    imgs = []
    for n in range(N):
        for y in range(H):
            for x in range(W):
                ix = [int(i) for i in idx[n, :, y, x]]
                w = compose_weights(op, [alphas[n, k, y, x] for k in range(K)], ix)
                acc = torch.zeros(feats.shape[0])
                for wk, i in zip(w, ix):
                    if i >= 0:
                        acc = acc + wk * feats[:, i]
                imgs.append(acc)
    return torch.stack(imgs).reshape(N, H, W, -1).permute(0, 3, 1, 2) if imgs else torch.zeros(N, feats.shape[0], H, W)


def all_idx(ctx, shape, P):
    """every index pattern of one pixel, the same pattern shifted for the other pixels"""
    N, K, H, W = shape
    pat = [ctx.pick(f"i{k}", list(range(-1, P))) for k in range(K)]
    out = torch.zeros(shape, dtype=torch.int64)
    c = 0
    for n in range(N):
        for y in range(H):
            for x in range(W):
                for k in range(K):
                    out[n, k, y, x] = (pat[(k + c) % K] + 1 + c) % (P + 1) - 1
                c += 1
    return out


def location(p, grid, align):
    """voxel coordinates (x, y, z) of local points (P,3); grid is (D,H,W)"""
    g = torch.tensor([grid[2], grid[1], grid[0]], dtype=p.dtype)
    return (p + 1) * 0.5 * (g - 1) if align else (p + 1) * 0.5 * g - 0.5


def votes(loc, grid, mode, n_cells):
    """(P, D, H, W) weight each point gives to each voxel of the padded volume"""
    D, H, W = n_cells
    out = []
    for p in range(loc.shape[0]):
        ax = []
        for a, g, n in ((2, grid[0], D), (1, grid[1], H), (0, grid[2], W)):
            d = (loc[p, a] - torch.arange(n, dtype=loc.dtype)).abs()
            w = (1 - d).clamp(min=0) if mode == "trilinear" else torch.where(d < 0.5, torch.ones_like(d), torch.zeros_like(d))
            ax.append(torch.where(torch.arange(n) < g, w, torch.zeros_like(w)))
        out.append(ax[0][:, None, None] * ax[1][None, :, None] * ax[2][None, None, :])
    return torch.stack(out) if out else torch.zeros((0,) + tuple(n_cells))


def tex2d(ctx, img, u, v, align=True, pad="border", mode="bilinear"):
    """colour of an (H, W, C) map at (u, v): u runs along the columns, v up the rows"""
    H, W = img.shape[:2]

    def axis(t, n):
        """list of (index, weight) on the way"""
        c = t * (n - 1) if align else t * n - 0.5
        if pad == "reflection":
            lo, hi = (0.0, n - 1.0) if align else (-0.5, n - 0.5)
            if ctx.fork(c < lo):
                c = 2 * lo - c
            elif ctx.fork(c > hi):
                c = 2 * hi - c
        if pad != "zeros":
            if ctx.fork(c <= 0):
                return [(0, 1.0)]
            if ctx.fork(c >= n - 1):
                return [(n - 1, 1.0)]
        for i in range(-2, n + 1):
            if mode == "nearest":
                if ctx.fork((c > i - 0.5) & (c < i + 0.5)):
                    return [(i, 1.0)]
            elif ctx.fork((c >= i) & (c < i + 1)):
                return [(i, i + 1 - c), (i + 1, c - i)]
        ctx.prune()  # an exact tie between two texels, or a location further out than the bounds

    out = torch.zeros(img.shape[-1])
    ax, ay = axis(u, W), axis(1 - v, H)
    for i, a in ay:
        for j, b in ax:
            if 0 <= i < H and 0 <= j < W:
                out = out + a * b * img[i, j]
    return out
