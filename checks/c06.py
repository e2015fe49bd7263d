"""C06: exponential and logarithm maps of SO(3) and SE(3), inverse cosine with linear extrapolation."""
import math

import torch
from checks.common import cross
from symx.harness import case
from pytorch3d.transforms import acos_linear_extrapolation, se3_exp_map, se3_log_map, so3_exp_map, so3_log_map, so3_relative_angle, so3_rotation_angle, Transform3d
from pytorch3d.transforms import so3
from pytorch3d.transforms.so3 import hat, hat_inv

C = dict(dtype="float64")
# float() of a symbolic tensor: a symbolic number
so3.float = lambda x: x.item() if isinstance(x, torch.Tensor) else float(x)


def K(v):
    x, y, z = v.unbind(-1)
    o = torch.zeros_like(x)
    return torch.stack([o, -z, y, z, o, -x, -y, x, o], -1).reshape(v.shape[:-1] + (3, 3))


def rodrigues(v):
    a = v.norm(dim=-1)[..., None, None]
    k = K(v) / a
    return torch.eye(3) + torch.sin(a) * k + (1 - torch.cos(a)) * (k @ k)


@case(params=[1, 2], bounds="arbitrary vectors", **C)
def hats(ctx, n):
    v, w = ctx.real("v", (n, 3)), ctx.real("w", (n, 3))
    h = hat(v)
    ctx.eq("hat is the cross product matrix", (h @ w[..., None])[..., 0], cross(v, w))
    ctx.eq("inverse", hat_inv(h), v)
    ctx.eq("hat of hat_inv", hat(hat_inv(K(w))), K(w))


@case(params=[dict(where=w) for w in ((0, 0), (1, 2), (2, 0))], bounds="arbitrary skew matrices with one entry off by more than 2e-5", expect_raise=None, **C)
def hat_rejects(ctx, where):
    h = K(ctx.real("v", (2, 3), -4, 4))
    d = ctx.real("d", (), -4, 4)
    ctx.assume((d > 2e-5) | (d < -2e-5))
    h[1, where[0], where[1]] += d
    try:
        hat_inv(h)
        ok = False
    except ValueError:
        ok = True
    ctx.true("matrices that are not skew-symmetric are rejected", ok)


def vec(ctx, name, n, lo=0.01, hi=6.28):
    v = ctx.real(name, (n, 3), -4, 4)
    q = (v * v).sum(-1)
    ctx.assume((q > lo * lo) & (q < hi * hi))
    return v


@case(params=[dict(n=1, eps=1e-4), dict(n=2, eps=1e-4), dict(n=1, eps=0.25)], bounds="arbitrary vectors with norm between 0.01 and 2 pi", **C)
def so3_exp(ctx, n, eps):
    v = vec(ctx, "v", n)
    R = so3_exp_map(v, eps)
    ctx.eq("rotation about the vector by its norm", R, rodrigues(v))
    ctx.eq("orthonormal", R @ R.transpose(1, 2), torch.eye(3).expand(n, 3, 3))
    ctx.eq("keeps the axis", (R @ v[..., None])[..., 0], v)
    ctx.eq("the opposite vector gives the inverse", so3_exp_map(-v, eps), R.transpose(1, 2))
    c = so3_rotation_angle(R, cos_angle=True)
    ctx.eq("cosine of the angle", c, torch.cos(v.norm(dim=-1)))


@case(bounds="zero vector inside a batch", **C)
def so3_exp_zero(ctx):
    v = torch.cat((torch.zeros(1, 3), vec(ctx, "v", 1)))
    R = so3_exp_map(v)
    ctx.eq("identity for the zero vector", R[0], torch.eye(3))
    ctx.eq("others are unaffected", R[1], rodrigues(v)[1])


AXES = {"x": (1.0, 0.0, 0.0), "y": (0.0, 1.0, 0.0), "z": (0.0, 0.0, 1.0), "-z": (0.0, 0.0, -1.0), "xy": (0.6, 0.8, 0.0), "zx": (-0.8, 0.0, 0.6), "g": (3.0, 4.0, 12.0)}


def axis(name):
    a = torch.tensor([AXES[name]])
    return a / 13 if name == "g" else a


def about(ctx, name, lo=0.02):
    """rotation about a fixed axis by a symbolic angle in (0, pi): (R, sin, cos, cosine and sine of half the angle)"""
    h = ctx.unit("cs", 2, (1,))
    ch, sh = h[:, 0], h[:, 1]
    ctx.assume((sh > lo) & (ch > lo))
    c, s = 1 - 2 * sh * sh, 2 * sh * ch
    k = K(axis(name))
    return torch.eye(3) + s[:, None, None] * k + (1 - c)[:, None, None] * (k @ k), s, c, h


@case(params=list(AXES), bounds="rotations about seven fixed axes by an arbitrary angle in (0.02, pi - 0.02)", **C)
def so3_log(ctx, ax):
    R, s, c, h = about(ctx, ax)
    v = so3_log_map(R)
    ctx.eq("the logarithm is parallel to the axis", cross(v, axis(ax)), torch.zeros(1, 3))
    ctx.true("and points along it", (v * axis(ax)).sum(-1) > 0)
    n = (v * axis(ax)).sum(-1)
    ctx.eq("its norm is the angle (cosine)", torch.cos(n / 2), h[:, 0])
    ctx.eq("its norm is the angle (sine)", torch.sin(n / 2), h[:, 1])
    ctx.eq("the exponential inverts the logarithm", so3_exp_map(v), R)


@case(params=[dict(n=1, eps=1e-4), dict(n=2, eps=1e-4), dict(n=1, eps=0.0004)], bounds="arbitrary 6-vectors with rotation norm between 0.02 and 2 pi", prove_ms=20000, **C)
def se3_exp(ctx, n, eps):
    v = vec(ctx, "v", n, 0.03)
    t = ctx.real("t", (n, 3), -5, 5)
    M = se3_exp_map(torch.cat((t, v), 1), eps)
    R = M[:, :3, :3].transpose(1, 2)
    ctx.eq("rotation part", R, rodrigues(v))
    ctx.eq("last column", M[:, :, 3], torch.tensor([0.0, 0.0, 0.0, 1.0]).expand(n, 4))
    T = M[:, 3, :3]
    # V is the left Jacobian: it keeps the axis and  hat(v) V = R - 1
    ctx.eq("translation: component orthogonal to the axis", cross(v, T), ((rodrigues(v) - torch.eye(3)) @ t[..., None])[..., 0])
    ctx.eq("translation: component along the axis", (v * T).sum(-1), (v * t).sum(-1))


@case(params=[dict(eps=e) for e in (1e-4, 0.25)], bounds="zero or small rotation: norm below the threshold", **C)
def se3_exp_small(ctx, eps):
    t = ctx.real("t", (2, 3), -5, 5)
    M = se3_exp_map(torch.cat((t, torch.zeros(2, 3)), 1), eps)
    ctx.eq("pure translation", M, torch.cat((torch.cat((torch.eye(3).expand(2, 3, 3), t[:, None]), 1), torch.tensor([0.0, 0, 0, 1])[None, :, None].expand(2, 4, 1)), 2))
    ctx.eq("and back", se3_log_map(M, eps), torch.cat((t, torch.zeros(2, 3)), 1))


@case(params=[dict(ax=a, eps=e) for a in AXES for e in (1e-4, 0.25) if e == 1e-4 or a in "xyz"], bounds="rotations about seven fixed axes by an arbitrary angle in (0.02, pi - 0.02), arbitrary translations; clipping thresholds below and above the angle", prove_ms=20000, **C)
def se3_log(ctx, ax, eps):
    R, s, c, h = about(ctx, ax)
    T = ctx.real("T", (1, 3), -5, 5)
    M = torch.cat((torch.cat((R.transpose(1, 2), T[:, None]), 1), torch.tensor([0.0, 0, 0, 1])[None, :, None]), 2)
    w = se3_log_map(M, eps)
    ctx.eq("rotation part", w[:, 3:], so3_log_map(R))
    ctx.eq("the exponential inverts the logarithm", se3_exp_map(w, eps), M)
    ctx.eq("Transform3d.get_se3_log", Transform3d(matrix=M).get_se3_log(eps), w)


@case(params=[dict(k=k) for k in range(3)], bounds="matrices with a non-zero entry above 1e-5 in the last column", **C)
def se3_log_rejects(ctx, k):
    M = torch.eye(4).repeat(2, 1, 1)
    d = ctx.real("d", (), -4, 4)
    ctx.assume((d > 1e-5) | (d < -1e-5))
    M[1, k, 3] = d
    try:
        se3_log_map(M)
        ok = False
    except ValueError:
        ok = True
    ctx.true("matrices that are not rigid are rejected", ok)


@case(params=[1, 2], bounds="arbitrary pairs of matrices with entries in [-1, 1]", **C)
def relative(ctx, n):
    # only the trace matters, so any matrices will do
    A, B = ctx.real("a", (n, 3, 3), -1, 1), ctx.real("b", (n, 3, 3), -1, 1)
    if n == 2:
        A, B = torch.cat((A[:1], torch.eye(3)[None])), torch.cat((B[:1], torch.diag(torch.tensor([1.0, -1.0, -1.0]))[None]))
    big = 1000.0  # trace check out of the way: see trace_rejected
    c = so3_relative_angle(A, B, cos_angle=True, eps=big)
    ctx.eq("cosine of the angle of A B^T", c, ((A @ B.transpose(1, 2)).diagonal(dim1=1, dim2=2).sum(-1) - 1) / 2)
    ctx.eq("symmetric", so3_relative_angle(B, A, cos_angle=True, eps=big), c)
    ctx.eq("invariant", so3_rotation_angle(A @ B.transpose(1, 2), cos_angle=True, eps=big), c)


@case(params=[dict(bound=b) for b in (1e-4, 0.125, 0.0)], bounds="arbitrary rotations about an axis, clamp bounds 0, 1e-4 and 1/8", **C)
def rotation_angle(ctx, bound):
    R, s, c, _ = about(ctx, "xy")
    a = so3_rotation_angle(R, cos_bound=bound)
    if bound == 0:
        ctx.eq("arccos", a, torch.acos(c))
    else:
        ctx.eq("arccos with linear extrapolation", a, acos_linear_extrapolation(c, (-1 + bound, 1 - bound)))


@case(params=[dict(low=lo, d=d) for lo in (True, False) for d in (1, 2)], bounds="traces outside the valid range by more than the tolerance", **C)
def trace_rejected(ctx, low, d):
    x = ctx.real("x", (2, 3, 3), -4, 4)
    t = x[1].diagonal().sum()
    ctx.assume(t < -1 - 2e-4 if low else t > 3 + 2e-4)
    try:
        so3_rotation_angle(x) if d == 1 else so3_relative_angle(x, torch.eye(3).expand(2, 3, 3))
        ok = False
    except ValueError:
        ok = True
    ctx.true("rejected", ok)


@case(params=[dict(b=b) for b in ((-0.5, 0.75), (-0.9999, 0.9999), (0.0, 0.25), (-0.875, -0.125))], bounds="arbitrary real arguments, four pairs of bounds", **C)
def acos_extrapolation(ctx, b):
    x = ctx.real("x", (2,), -3, 3, grad=True)
    y = acos_linear_extrapolation(x, b)
    (g,) = torch.autograd.grad(y.sum(), x)
    with torch.no_grad():
        for i in range(2):
            v = x[i].detach()
            for lo, hi, e in ((-9.0, b[0], b[0]), (b[1], 9.0, b[1])):
                sl = -1 / math.sqrt(1 - e * e)
                ctx.implies("linear outside of the bounds", (v <= hi) & (v >= lo), ((y[i] - (math.acos(e) + sl * (v - e))).abs() < 1e-9) & ((g[i] - sl).abs() < 1e-9))
            if bool((v > b[0]) & (v < b[1])):
                ctx.eq("arccos inside", y[i], torch.acos(v))
                ctx.eq("slope inside", g[i] * torch.sqrt(1 - v * v), torch.tensor(-1.0))
