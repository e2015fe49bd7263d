"""C34: harmonic embedding and the linear layer with a repeated input."""
import torch
from symx.harness import case
from pytorch3d.common.linear_with_repeat import LinearWithRepeat
from pytorch3d.renderer.implicit.harmonic_embedding import HarmonicEmbedding

KW = dict(dtype="float32")


def frequencies(n, omega, log):
    if log:
        f = [2.0 ** i for i in range(n)]
    else:
        f = [1.0 + (2.0 ** (n - 1) - 1.0) * i / (n - 1) for i in range(n)] if n > 1 else [1.0] * n
    return [omega * x for x in f]


@case(params=[dict(n=n, omega=o, log=l, app=a, shape=s, cov=c) for n in (1, 2, 3, 5) for o in (1.0, 0.5) for l in (True, False) for a in (True, False) for s in ((1,), (2, 3), (1, 2, 2), (0, 3)) for c in (False, True) if n <= 3 or (s == (1,) and not c)],
      bounds="one to five frequencies, inputs of one to three dimensions with up to three coordinates, symbolic values and variances", **KW)
def embedding(ctx, n, omega, log, app, shape, cov):
    """sines then cosines of every coordinate times every frequency, then the input"""
    h = HarmonicEmbedding(n, omega, log, app)
    x = ctx.real("x", shape, -4, 4)
    var = ctx.real("var", shape, 0, 4) if cov else None
    got = h(x, diag_cov=var) if cov else h(x)
    D = shape[-1]
    f = frequencies(n, omega, log)
    size = D * (2 * n + (1 if app else 0))
    ctx.true("declared size", h.get_output_dim(D) == size == HarmonicEmbedding.get_output_dim_static(D, n, app))
    ctx.true("shape", tuple(got.shape) == shape[:-1] + (size,))
    g, X = got.reshape(-1, size), x.reshape(-1, D)
    V = var.reshape(-1, D) if cov else None
    for r in range(X.shape[0]):
        k = 0
        for fn in (torch.sin, torch.cos):
            for d in range(D):
                for w in f:
                    want = fn(w * X[r, d])
                    if cov:
                        want = want * torch.exp(-0.5 * w * w * V[r, d])
                    ctx.eq("harmonic", g[r, k], want, tol=(1e-4, 1e-4))
                    k += 1
        if app:
            ctx.eq("input", g[r, k:], X[r])


@case(params=[dict(lead=l, n1=a, n2=b, out=o, bias=c) for l in ((2,), (1, 2), (2, 3), (0, 2), (2, 2, 1)) for a, b, o in ((1, 1, 1), (2, 3, 2), (3, 1, 2)) for c in (True, False)],
      bounds="up to three leading dimensions, up to three features of each input; symbolic weights, inputs and incoming gradients", **KW)
def linear(ctx, lead, n1, n2, out, bias):
    """equal to a linear layer on the concatenation with the repeated second input, gradients included"""
    m = LinearWithRepeat(n1 + n2, out, bias=bias)
    ctx.true("parameters", tuple(m.weight.shape) == (out, n1 + n2) and (m.bias is None) == (not bias))
    w, b = ctx.real("w", (out, n1 + n2), -2, 2, grad=True), ctx.real("b", (out,), -2, 2, grad=True)
    for p, v in (("weight", w), ("bias", b if bias else None)):
        delattr(m, p)
        setattr(m, p, v)
    x, y = ctx.real("x", lead + (n1,), -4, 4, grad=True), ctx.real("y", lead[:-1] + (n2,), -4, 4, grad=True)
    got = m((x, y))
    ctx.true("shape", tuple(got.shape) == lead + (out,))
    both = torch.cat((x, y.unsqueeze(-2).expand(*lead, n2)), -1)
    want = (both[..., None, :] * w).sum(-1)
    if bias:
        want = want + b
    ctx.eq("output", got, want, tol=(1e-4, 1e-4))
    ins = [x, y, w] + ([b] if bias else [])
    if 0 in lead or len(lead) == 1:
        return
    g = ctx.real("g", lead + (out,), -2, 2)
    for a, c in zip(torch.autograd.grad((got * g).sum(), ins), torch.autograd.grad((want * g).sum(), ins)):
        ctx.eq("gradient", a, c, tol=(1e-4, 1e-4))
