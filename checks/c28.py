"""C28: ray marching and importance sampling along rays."""
import math

import torch
from symx.harness import case
from pytorch3d import _C
from pytorch3d.renderer import AbsorptionOnlyRaymarcher, EmissionAbsorptionRaymarcher
from pytorch3d.renderer.implicit.sample_pdf import sample_pdf, sample_pdf_python
from checks.common import threads

C = dict(dtype="float32")
CPP = dict(cpp=["sample_pdf"], dtype="float32")
SH = [(1,), (2,), (4,), (2, 3), (1, 2, 2)]


@case(params=[(s, sh) for s in SH for sh in (1, 2, 3) if sh <= s[-1]], bounds="(ray batch and points per ray, surface thickness): densities, features and eps symbolic", **C)
def emission_absorption(ctx, shape, shift):
    d = ctx.real("d", shape + (1,), 0, 1)
    f = ctx.real("f", shape + (2,), -5, 5)
    n = shape[-1]
    eps = ctx.pick("eps", [0.0, 0.125])
    out = EmissionAbsorptionRaymarcher(surface_thickness=shift)(d, f, eps=eps)
    ctx.true("shape", tuple(out.shape) == shape[:-1] + (3,))
    trans, cum = [], torch.ones(shape[:-1])
    for k in range(n):  # transmittance before point k, shifted by the surface thickness
        trans.append(cum)
        cum = cum * (1 + eps - d[..., k, 0])
    # point k sees the absorption of all points up to k - shift
    w = [torch.ones(shape[:-1]) if k < shift else (trans[k - shift] * (1 + eps - d[..., k - shift, 0])) for k in range(n)]
    w = [d[..., k, 0] * w[k] for k in range(n)]
    ctx.eq("features", out[..., :2], sum(w[k][..., None] * f[..., k, :] for k in range(n)))
    op = 1.0
    for k in range(n):
        op = op * (1 - d[..., k, 0])
    ctx.eq("opacity", out[..., 2], 1 - op)
    ctx.le("opacity in [0,1]", torch.zeros(shape[:-1]), out[..., 2])
    ctx.le("opacity in [0,1]", out[..., 2], torch.ones(shape[:-1]))


@case(params=[dict(shape=s) for s in SH], bounds="points per ray and ray batch; with eps = 0 and thickness one the weights are the transmittance-weighted densities", **C)
def weights(ctx, shape):
    n = shape[-1]
    d = ctx.real("d", shape + (1,), 0, 1)
    f = torch.eye(n).expand(shape + (n,))  # unit features read off the weights
    out = EmissionAbsorptionRaymarcher()(d, f, eps=0.0)
    w = out[..., :n]
    ctx.le("weights are not negative", torch.zeros(shape), w)
    ctx.eq("weights sum to the opacity", w.sum(-1), out[..., n])
    ctx.eq("absorption-only marching gives the same opacity", AbsorptionOnlyRaymarcher()(d)[..., 0], out[..., n])


@case(params=[dict(shape=s) for s in SH], bounds="points per ray and ray batch", **C)
def default_eps(ctx, shape):
    """the default regularisation changes the weights by less than the float resolution"""
    n = shape[-1]
    d = ctx.real("d", shape + (1,), 0, 1)
    out = EmissionAbsorptionRaymarcher()(d, torch.eye(n).expand(shape + (n,)))
    ref = EmissionAbsorptionRaymarcher()(d, torch.eye(n).expand(shape + (n,)), eps=0.0)
    ctx.le("weights", (out - ref).abs(), torch.full_like(out, 1e-6))


# ---------------------------------------------------------------- importance sampling
def with_rand(u, fn, ctx):
    keep = torch.rand

    def draw(size, *a, **k):
        ctx.true("draws as many numbers as samples", tuple(size) == tuple(u.shape))
        return u.clone()

    torch.rand = draw
    try:
        return fn()
    finally:
        torch.rand = keep


def increasing(ctx, name, n):
    """n + 1 bin edges"""
    w = ctx.real(name, (n,), 0.01, 4)
    e = [ctx.real(name + "0", (), -5, 5)]
    for k in range(n):
        e.append(e[-1] + w[k])
    return torch.stack(e)


def inverse_cdf(ctx, bins, w, u, s, eps):
    """s is the place where the piecewise-linear cumulative distribution with bin masses w reaches u * total"""
    n = w.shape[0]
    U = u * (w.sum() + eps)
    ctx.le("sample lies inside the bins", bins[0], s)
    ctx.le("sample lies inside the bins", s, bins[n])
    c = torch.zeros(())
    for k in range(n):
        inside = (U >= c) & (U <= c + w[k]) & (w[k] > eps)
        # cdf(s) = U, written without the division
        strict = (U > c) & (U < c + w[k]) & (w[k] > eps)
        ctx.eq_if("the cumulative mass at the sample is the quantile", strict, (s - bins[k]) * w[k], (U - c) * (bins[k + 1] - bins[k]))
        ctx.implies("the sample lies in the bin that holds the quantile", strict, (s >= bins[k]) & (s <= bins[k + 1]))
        c = c + w[k]
    ctx.eq_if("quantiles beyond the total mass give the last edge", U > c, s, bins[n])


@case(params=[(n, m) for n in (1, 2, 3) for m in (1, 2)], bounds="(bins, samples): one set of increasing bins with symbolic edges, weights and uniform draws", **CPP)
def native(ctx, n, m):
    bins = increasing(ctx, "b", n)
    w = ctx.real("w", (n,), 0, 4)
    u = ctx.real("u", (1, m), 0, 1)
    s = with_rand(u, lambda: sample_pdf(bins[None], w[None], m, eps=1e-5), ctx)
    ctx.true("shape", tuple(s.shape) == (1, m))
    for j in range(m):
        inverse_cdf(ctx, bins, w, u[0, j], s[0, j], 1e-5)
    if m == 2:
        ctx.implies("samples are ordered like the draws", (u[0, 0] <= u[0, 1]) & (w > 1e-5).all(), s[0, 0] <= s[0, 1])


@case(params=[(n, m) for n in (1, 2, 3) for m in (1, 2)], bounds="same for the Python implementation (weights regularised by eps)", **CPP)
def python(ctx, n, m):
    bins = increasing(ctx, "b", n)
    w = ctx.real("w", (n,), 0.01, 4)
    u = ctx.real("u", (1, m), 0, 1, strict=True)
    s = with_rand(u, lambda: sample_pdf_python(bins[None], w[None], m, eps=1e-5), ctx)
    ctx.true("shape", tuple(s.shape) == (1, m))
    v = w + 1e-5
    for j in range(m):
        # bins whose share is below eps are snapped to their start, which the bounds on w exclude
        inverse_cdf(ctx, bins, v, u[0, j], s[0, j], 0.0)
    if m == 2:
        ctx.implies("samples are ordered like the draws", u[0, 0] <= u[0, 1], s[0, 0] <= s[0, 1])


@case(params=[(n, m) for n in (1, 2, 3) for m in (1, 2)], bounds="(bins, samples): without the regularising eps both implementations return the same samples", **CPP)
def agree(ctx, n, m):
    bins = increasing(ctx, "b", n)
    w = ctx.real("w", (n,), 0.01, 4)
    u = ctx.real("u", (1, m), 0, 1, strict=True)
    a = with_rand(u, lambda: sample_pdf(bins[None], w[None], m, eps=0.0), ctx)
    b = with_rand(u, lambda: sample_pdf_python(bins[None], w[None], m, eps=0.0), ctx)
    ctx.eq("samples", a, b)


@case(params=[(f, m) for f in (sample_pdf, sample_pdf_python) for m in (1, 2, 3, 5)], bounds="(implementation, samples): deterministic sampling, two bins", **CPP)
def deterministic(ctx, f, m):
    bins = increasing(ctx, "b", 2)
    w = ctx.real("w", (2,), 0.25, 4)
    eps = 0.0 if f is sample_pdf else 1e-5
    s = f(bins[None], w[None], m, det=True, eps=eps)
    w = w + eps  # the Python version adds eps to every weight
    ctx.true("shape", tuple(s.shape) == (1, m))
    for j in range(m):
        u = torch.tensor(j / (m - 1) if m > 1 else 0.0)
        inverse_cdf(ctx, bins, w, u, s[0, j], 0.0)
        if j == 0:
            ctx.eq("first sample is the first edge", s[0, 0], bins[0])
        elif j == m - 1:
            ctx.eq("last sample is the last edge", s[0, j], bins[2])


@case(params=[(n, t, k) for n in (1, 2, 3, 4, 5, 6, 7, 9) for t in (1, 2, 3, 4, 8) for k in (1, 2)], bounds="(batch elements, threads, samples): every batch element gets its own samples and nothing outside the output is written", **CPP)
def native_batch(ctx, n, t, k):
    pad = 3
    bins = torch.arange(2.0).expand(n + pad, 2) + torch.arange(0.0, n + pad)[:, None]
    w = torch.ones(n + pad, 1)
    u = ctx.real("u", (n + pad, k), 0, 1)
    out = u.clone()
    with threads(ctx, t):
        _C.sample_pdf(bins[:n].clone() if ctx.symbolic else bins[:n], w[:n].clone() if ctx.symbolic else w[:n], out[:n], 0.0)
    for i in range(n + pad):
        ctx.eq("rows of the batch are replaced by their samples" if i < n else "rows outside the batch are untouched", out[i], u[i] + i if i < n else u[i])


@case(params=[(f, s) for f in (sample_pdf, sample_pdf_python) for s in ((2,), (1, 2), (2, 1), ())], bounds="leading batch shapes; each element equals its own call", **CPP)
def batch_shapes(ctx, f, shape):
    k = 1
    for x in shape:
        k *= x
    bins = torch.arange(3.0).expand(shape + (3,)) * ctx.const(0.5)
    w = ctx.real("w", shape + (2,), 0.25, 4)
    u = ctx.real("u", shape + (1,), 0, 1, strict=True)
    out = with_rand(u, lambda: f(bins, w, 1, eps=0.0), ctx)
    ctx.true("shape", tuple(out.shape) == shape + (1,))
    for i in range(k):
        one = with_rand(u.reshape(k, 1)[i:i + 1], lambda: f(bins.reshape(k, 3)[i:i + 1], w.reshape(k, 2)[i:i + 1], 1, eps=0.0), ctx)
        ctx.eq("batch element", out.reshape(k, 1)[i], one[0])
