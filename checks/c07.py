"""C07: Transform3d composes, inverts and applies transforms correctly."""
import itertools

import torch
from symx.harness import case
from pytorch3d.transforms import Rotate, RotateAxisAngle, Scale, Transform3d, Translate

C = dict(dtype="float64")
F = torch.float64


def part(ctx, kind, name, n):
    """(transform, its documented 4x4 matrices)"""
    eye = torch.eye(4, dtype=F).expand(n, 4, 4).clone()
    if kind == "T":
        x = ctx.real(name, (n, 3), -4, 4)
        eye[:, 3, :3] = x
        return Translate(x, dtype=F), eye
    if kind == "S":
        x = ctx.real(name, (n, 3), -4, 4)
        ctx.assume(x != 0)
        for i in range(3):
            eye[:, i, i] = x[:, i]
        return Scale(x, dtype=F), eye
    if kind == "R":
        R, _ = ctx.rotation(name, (n,))
        eye[:, :3, :3] = R
        return Rotate(R, dtype=F), eye
    if kind in ("X", "Y", "Z"):
        a = ctx.real(name, (n,), -7, 7)
        c, s = torch.cos(a), torch.sin(a)
        i, j = {"X": (1, 2), "Y": (2, 0), "Z": (0, 1)}[kind]
        # row vectors, counterclockwise: e_i -> cos e_i + sin e_j
        eye[:, i, i], eye[:, i, j], eye[:, j, i], eye[:, j, j] = c, s, -s, c
        return RotateAxisAngle(a, axis=kind, degrees=False, dtype=F), eye
    m = ctx.real(name, (n, 4, 4), -2, 2)
    if kind == "A":
        m = torch.cat((m[..., :3], torch.eye(4, dtype=F)[None, :, 3:].expand(n, 4, 1)), -1)
    if kind == "a":  # affine with a triangular linear part (cheap to invert)
        m = torch.cat((torch.cat((torch.tril(m[:, :3, :3]), m[:, 3:, :3]), 1), torch.eye(4, dtype=F)[None, :, 3:].expand(n, 4, 1)), -1)
    return Transform3d(matrix=m), m


def hom(p, m):
    """row-vector application of batched 4x4 matrices with homogeneous division"""
    q = torch.cat((p, torch.ones_like(p[..., :1])), -1) @ m
    return q[..., :3] / q[..., 3:]


def build(ctx, kinds, sizes):
    ps = [part(ctx, k, f"{k}{i}", n) for i, (k, n) in enumerate(zip(kinds, sizes))]
    return [t for t, _ in ps], [m for _, m in ps]


def product(ms):
    r = ms[0]
    for m in ms[1:]:
        r = r @ m
    return r


CH = ["T", "S", "R", "X", "Y", "Z", "A", "M", "TS", "ST", "RT", "TR", "SR", "XT", "AT", "TA", "MT", "aa", "TSR", "RTX", "SAT", "ZSY", "TTT", "RMT", "TXTS", "AASA"]
SZ = {1: [(1,), (2,)], 2: [(1, 1), (1, 2), (2, 1), (2, 2)], 3: [(1, 1, 1), (2, 1, 2), (1, 3, 1)], 4: [(1, 1, 2, 1), (2, 2, 2, 2)]}
CHAINS = [dict(kinds=k, sizes=s) for k in CH for s in SZ[len(k)]]


@case(params=CHAINS, bounds="chains of up to four transforms, batch sizes 1 to 3, all parameters and points symbolic", **C)
def compose(ctx, kinds, sizes):
    ts, ms = build(ctx, kinds, sizes)
    t = ts[0].compose(*ts[1:])
    u = ts[0]
    for x in ts[1:]:
        u = u.compose(x)
    n = max(sizes)
    want = product(ms).expand(n, 4, 4)
    ctx.eq("the composed matrix is the product", t.get_matrix(), want)
    ctx.eq("pairwise composition", u.get_matrix(), want)
    ctx.true("length", len(t) == n)
    p = ctx.real("p", (n, 1, 3), -3, 3)
    h = torch.cat((p, torch.ones_like(p[..., :1])), -1)
    for m in ms:
        h = h @ m
        ctx.assume(h[..., 3] != 0)
    q = p
    for x in ts:
        q = x.transform_points(q)
    got = t.transform_points(p)
    ctx.eq("applies its parts in order", got, h[..., :3] / h[..., 3:])
    if "M" not in kinds:
        ctx.eq("the same as applying one after the other", got, q)
    ctx.eq("nested composition", u.transform_points(p), got)
    for x, m in zip(ts, ms):
        ctx.eq("parts are unchanged", x.get_matrix(), m)
    v = ts[0].clone()
    ctx.eq("no stored transforms added", v.get_matrix(), ms[0])


NORMAL = ["T", "S", "R", "X", "Z", "a", "A", "ST", "TR", "SR", "aT", "aR", "TSX", "aSa"]


@case(params=[dict(kinds=k, sizes=s) for k in NORMAL for s in SZ[len(k)][:2]], bounds="chains of up to three transforms with an invertible linear part; normals and tangents symbolic", prove_ms=20000, **C)
def normals(ctx, kinds, sizes):
    ts, ms = build(ctx, kinds, sizes)
    n = max(sizes)
    for m, k in zip(ms, kinds):
        if k in "aA":
            ctx.assume(torch.det(m[:, :3, :3]) != 0)
    m = product(ms).expand(n, 4, 4)
    t = ts[0].compose(*ts[1:]) if len(ts) > 1 else ts[0]
    x = ctx.real("n", (n, 1, 3), -2, 2)
    v = ctx.real("v", (n, 1, 3), -2, 2)
    y = t.transform_normals(x)
    w = v @ m[:, :3, :3]
    ctx.eq("transformed normals pair with transformed tangents like the originals", (y * w).sum(-1), (x * v).sum(-1))
    if kinds in ("R", "X", "Z", "TR"):
        ctx.eq("rotations rotate normals", y, x @ m[:, :3, :3])
    z = t.transform_normals(x[:, 0])
    one = n == 1
    ctx.true("shape for unbatched normals", tuple(z.shape) == ((1, 3) if one else (n, n, 3)))


INV = ["T", "S", "R", "X", "a", "A", "TS", "RT", "SR", "XT", "aT", "Sa", "TSR", "RTS", "TXT", "aST", "TSRT"]


@case(params=[dict(kinds=k, sizes=s, whole=w) for k in INV for s in SZ[len(k)] for w in (False, True) if len(k) == 1 or s == SZ[len(k)][0] or not w], bounds="chains of up to four invertible transforms, both calling forms", prove_ms=20000, **C)
def inverse(ctx, kinds, sizes, whole):
    ts, ms = build(ctx, kinds, sizes)
    n = max(sizes)
    for m, k in zip(ms, kinds):
        if k in "aA":
            ctx.assume(torch.det(m[:, :3, :3]) != 0)
    m = product(ms).expand(n, 4, 4)
    t = ts[0].compose(*ts[1:]) if len(ts) > 1 else ts[0]
    i = t.inverse(invert_composed=whole)
    im = i.get_matrix()
    ctx.true("length", len(i) == n)
    I = torch.eye(4, dtype=F).expand(n, 4, 4)
    ctx.eq("inverse on the right", m @ im, I)
    p = ctx.real("p", (n, 1, 3), -3, 3)
    ctx.eq("undoes the transform on points", i.transform_points(hom(p, m)), p)
    ctx.eq("the transform is unchanged", t.get_matrix(), m)
    for x, mm in zip(ts, ms):
        ctx.eq("parts are unchanged", x.get_matrix(), mm)
    if len(kinds) < 3:
        ctx.eq("inverting twice", i.inverse().get_matrix(), m)
        # composing with the inverse
        ctx.eq("composed with its inverse", t.compose(i).get_matrix(), I)


IDX = {"int": 1, "neg": -1, "list": [2, 0], "repeat": [1, 1, 0, 2], "slice": slice(1, None), "step": slice(0, 3, 2), "bool": [True, False, True], "long": [0, 2, 1], "neglong": [-1, -3]}


@case(params=[dict(kind=k, ix=i, dt=d) for k in ("T", "S", "R", "X", "A", "M", "TS", "SRT") for i in IDX for d in ("f64",)] + [dict(kind=k, ix=i, dt="f32") for k in ("T", "S", "R", "X", "M") for i in ("int", "bool")],
      bounds="every documented index form on batches of 3, single and composed transforms, both dtypes", **C)
def index(ctx, kind, ix, dt):
    global F
    F = torch.float64 if dt == "f64" else torch.float32
    try:
        if F == torch.float32:
            real = ctx.real
            ctx.real = lambda *a, **k: real(*a, **k).to(F)
        sizes = (3,) * len(kind) if len(kind) < 3 else (1, 3, 3)
        if F == torch.float32 and kind == "R":
            t = Rotate(ctx.rotation("R", (3,))[0].to(F), dtype=F)
            m = t.get_matrix()
            ts = [t]
        else:
            ts, ms = build(ctx, kind, sizes)
            m = product(ms)
        t = ts[0].compose(*ts[1:]) if len(ts) > 1 else ts[0]
        i = IDX[ix]
        if ix == "bool":
            i = torch.tensor(i)
        if ix in ("long", "neglong"):
            i = torch.tensor(i)
        s = t[i]
        want = m[[i] if isinstance(i, int) else i]
        ctx.true("a transform", isinstance(s, Transform3d))
        ctx.true("length", len(s) == len(want))
        ctx.eq("the selected matrices", s.get_matrix(), want)
        ctx.true("keeps the dtype", s.dtype == t.dtype and s.get_matrix().dtype == t.get_matrix().dtype)
        if kind != "M":
            p = ctx.real("p", (len(want), 1, 3), -2, 2)
            ctx.eq("acts like the selected transforms", s.transform_points(p), hom(p, want))
            if kind in "TSRX" and dt == "f64":
                ctx.eq("and inverts like them", s.get_matrix() @ s.inverse().get_matrix(), torch.eye(4, dtype=F).expand(len(want), 4, 4))
        ctx.eq("unchanged by indexing", t.get_matrix(), m)
    finally:
        F = torch.float64


@case(params=[dict(kinds=k, sizes=s) for k in ("TS", "RA", "MT", "XSR", "TTM") for s in ((1, 1, 1), (2, 1, 3), (3, 2, 1))], bounds="stacks of up to three transforms (also composed ones) with batch sizes 1 to 3", **C)
def stack(ctx, kinds, sizes):
    ts, ms = build(ctx, kinds, sizes)
    extra = ts[0].translate(1.0, 2.0, 3.0)
    em = ms[0].clone()
    em = em @ Translate(1.0, 2.0, 3.0, dtype=F).get_matrix()
    s = ts[0].stack(*ts[1:], extra)
    ctx.eq("stacked in order", s.get_matrix(), torch.cat(ms + [em]))
    ctx.eq("stacking onto a composed transform", extra.stack(ts[0]).get_matrix(), torch.cat((em, ms[0])))
    for t, m in zip(ts + [extra], ms + [em]):
        ctx.eq("unchanged", t.get_matrix(), m)
    ctx.true("length", len(s) == sum(len(m) for m in ms) + len(em))


@case(params=[dict(kinds=k, how=h) for k in ("T", "S", "M", "TS", "RAT") for h in ("clone", "copy", "to", "cpu", "f32")], bounds="clones and moves of single and composed transforms, which are then written to", **C)
def copies(ctx, kinds, how):
    ts, ms = build(ctx, kinds, (2, 1, 2)[: len(kinds)])
    t = ts[0].compose(*ts[1:]) if len(ts) > 1 else ts[0]
    m = product(ms)
    c = {"clone": lambda: t.clone(), "copy": lambda: t.to("cpu", copy=True), "to": lambda: t.to("cpu"), "cpu": lambda: t.cpu(), "f32": lambda: t.to("cpu", dtype=torch.float32)}[how]()
    ctx.eq("the same transform", c.get_matrix(), m)
    ctx.true("dtype", c.dtype == (torch.float32 if how == "f32" else F) and c.get_matrix().dtype == c.dtype)
    if how in ("to", "cpu"):
        ctx.true("no copy needed", c is t)
        return
    # a clone shares nothing with the original
    c._matrix.mul_(0)
    for x in c._transforms:
        x._matrix.mul_(0)
    ctx.eq("writing to the copy leaves the original alone", t.get_matrix(), m)
    for x, mm in zip(ts, ms):
        ctx.eq("and its parts", x.get_matrix(), mm)


@case(params=[dict(cls=c, form=f) for c in ("Translate", "Scale") for f in ("N3", "scalars", "tensors", "mixed", "vectors", "single", "single1")] + [dict(cls="RotateAxisAngle", form=f) for f in ("float", "tensor", "batch", "degrees", "lower")] + [dict(cls="Rotate", form=f) for f in ("one", "batch")],
      bounds="every documented parameter form", **C)
def forms(ctx, cls, form):
    a, b = ctx.real("a", (), 0.5, 3), ctx.real("b", (2,), 0.5, 3)
    p = ctx.real("p", (1, 2, 3), -2, 2)
    if cls in ("Translate", "Scale"):
        K = Translate if cls == "Translate" else Scale
        if form.startswith("single"):
            if cls == "Translate":
                return ctx.true("not documented", True)
            args = (a,) if form == "single" else (b,)
            want = a.expand(1, 3) if form == "single" else b[:, None].expand(2, 3)
        elif form == "N3":
            x = ctx.real("x", (2, 3), 0.5, 3)
            args, want = (x,), x
        elif form == "scalars":
            args, want = (1.5, 2.0, -0.5), torch.tensor([[1.5, 2.0, -0.5]], dtype=F)
        elif form == "tensors":
            c = ctx.real("c", (2,), 1, 2)
            args, want = (a, c[0], c[1]), torch.stack((a, c[0], c[1]))[None]
        elif form == "mixed":
            args, want = (1.5, b, a), torch.stack((torch.full((2,), 1.5, dtype=F), b, a.expand(2)), -1)
        else:
            c = ctx.real("c", (2,), 1, 2)
            args, want = (b, c, b[:1]), torch.stack((b, c, b[:1].expand(2)), -1)
        for t in (K(*args, dtype=F), getattr(Transform3d(dtype=F), cls.lower())(*args)):
            ctx.eq("acts componentwise", t.transform_points(p), p + want[:, None] if cls == "Translate" else p * want[:, None])
        return
    if cls == "Rotate":
        R, _ = ctx.rotation("R", () if form == "one" else (2,))
        for t in (Rotate(R, dtype=F), Transform3d(dtype=F).rotate(R)):
            ctx.eq("multiplies row vectors with the matrix", t.transform_points(p), p @ R)
        return
    deg = form == "degrees"
    ang = {"float": 0.5, "tensor": a, "batch": b, "degrees": b, "lower": a}[form]
    rad = torch.as_tensor(ang, dtype=F) * (torch.pi / 180 if deg else 1)
    if deg:
        rad = ang / 180.0 * torch.pi
    c, s = torch.cos(rad).reshape(-1, 1), torch.sin(rad).reshape(-1, 1)
    for k, ax in enumerate("XYZ"):
        if form == "lower":
            ax = ax.lower()
        i, j = (k + 1) % 3, (k + 2) % 3
        q = list(p.unbind(-1))
        w = [None] * 3
        w[k] = q[k].expand(c.shape[0], 2)
        w[i] = c * q[i] - s * q[j]
        w[j] = s * q[i] + c * q[j]
        for t in (RotateAxisAngle(ang, axis=ax, degrees=deg, dtype=F), Transform3d(dtype=F).rotate_axis_angle(ang, axis=ax, degrees=deg)):
            ctx.eq("rotates counterclockwise about the axis", t.transform_points(p), torch.stack(w, -1))


@case(params=[dict(n=n, shape=s) for n in (1, 2) for s in ((2, 3), (1, 2, 3), (2, 2, 3))] + [dict(n=1, shape=(3, 1, 3))], bounds="every documented combination of transform and point batch", **C)
def shapes(ctx, n, shape):
    t, m = part(ctx, "A", "A", n)
    p = ctx.real("p", shape, -2, 2)
    before = p.clone()
    q = t.transform_points(p)
    P = p if p.dim() == 3 else p[None]
    N = max(n, P.shape[0])
    want = hom(P.expand(N, -1, -1), m.expand(N, 4, 4))
    if N == 1 and p.dim() == 2:
        want = want[0]
    ctx.eq("points", q, want)
    ctx.eq("the argument is left alone", p, before)
    ctx.assume(torch.det(m[:, :3, :3]) != 0)
    nn = t.transform_normals(p)
    ctx.true("shape of normals", nn.shape == want.shape)
    ctx.eq("the argument is left alone", p, before)


@case(params=[dict(n=n) for n in (1, 2)], bounds="projective matrices, symbolic clamp", **C)
def clamped(ctx, n):
    t, m = part(ctx, "M", "M", n)
    p = ctx.real("p", (n, 1, 3), -2, 2)
    e = 0.125
    q = t.transform_points(p, eps=e)
    h = torch.cat((p, torch.ones_like(p[..., :1])), -1) @ m
    w = h[..., 3:]
    d = torch.where(w >= e, w, torch.where(w <= -e, w, torch.where(w < 0, torch.full_like(w, -e), torch.full_like(w, e))))
    ctx.eq("the divisor is clamped away from zero", q, h[..., :3] / d)
