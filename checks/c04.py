"""C04: list / packed / padded conversions and the packed<->padded operators."""
import torch
from symx.harness import case
from pytorch3d.ops.packed_to_padded import packed_to_padded, padded_to_packed
from pytorch3d.structures import utils as U

CPP = ["packed_to_padded", "padded_to_packed"]
N3 = [0, 1, 2, 3]


def lengths(ctx, n, hi=3):
    return [ctx.pick(f"len{i}", list(range(hi + 1))) for i in range(n)]


def make(ctx, lens, tail=(2,), name="x"):
    return [ctx.real(f"{name}{i}", (l,) + tail) for i, l in enumerate(lens)]


def same_list(ctx, name, got, want):
    ctx.true(name + ": number of elements", len(got) == len(want))
    for a, b in zip(got, want):
        ctx.eq(name, a, b)


@case(params=[(1, 3), (2, 3), (3, 3), (4, 2)], bounds="(elements, largest length): every combination of lengths, zero included; all values symbolic")
def packed(ctx, n, hi):
    lens = lengths(ctx, n, hi)
    x = make(ctx, lens)
    pk, num, first, owner = U.list_to_packed(x)
    rows = [(i, j) for i in range(n) for j in range(lens[i])]
    ctx.true("number of rows", tuple(pk.shape) == (len(rows), 2))
    for r, (i, j) in enumerate(rows):
        ctx.eq("row content", pk[r], x[i][j])
    ctx.eq("owner of each row", owner, torch.tensor([i for i, _ in rows], dtype=torch.int64))
    ctx.eq("sizes", num, torch.tensor(lens))
    ctx.eq("first indices", first, torch.tensor([sum(lens[:i]) for i in range(n)]))
    same_list(ctx, "packed_to_list", U.packed_to_list(pk, lens), x)


@case(params=[(1, 3, 0.0), (2, 3, -1.0), (3, 3, 7.5), (3, 2, 0.0)], bounds="every combination of lengths with at least one non-empty element, symbolic pad value")
def padded(ctx, n, hi, val):
    lens = lengths(ctx, n, hi)
    if not any(lens):
        ctx.prune()
    x = make(ctx, lens)
    pd = U.list_to_padded(x, pad_value=val)
    ctx.true("shape", tuple(pd.shape) == (n, max(lens), 2))
    for i in range(n):
        ctx.eq("valid entries", pd[i, : lens[i]], x[i])
        ctx.eq("padding", pd[i, lens[i]:], torch.full((max(lens) - lens[i], 2), val, dtype=torch.float64))
    same_list(ctx, "padded_to_list", U.padded_to_list(pd, lens), x)
    same_list(ctx, "padded_to_list with full sizes", U.padded_to_list(pd, [(l, 2) for l in lens]), x)
    same_list(ctx, "padded_to_list without sizes", U.padded_to_list(pd), list(pd.unbind(0)))
    pp = U.padded_to_packed(pd, split_size=lens)
    ctx.eq("padded_to_packed with sizes", pp, torch.cat(x, 0))
    ctx.eq("padded_to_packed without sizes keeps every row", U.padded_to_packed(pd), pd.reshape(-1, 2))


@case(params=[(2, 2), (3, 2)], bounds="pad size larger than every element, all-empty lists and flat empty elements included")
def padded_size(ctx, n, hi):
    lens = lengths(ctx, n, hi)
    x = make(ctx, lens)
    x = [torch.zeros(0, dtype=torch.float64) if (l == 0 and ctx.pick(f"flat{i}", [False, any(lens)])) else v for i, (l, v) in enumerate(zip(lens, x))]
    extra = ctx.pick("extra", [0, 1, 2])
    pd = U.list_to_padded(x, (max(lens) + extra, 3), pad_value=2.0)
    ctx.true("shape", tuple(pd.shape) == (n, max(lens) + extra, 3))
    for i in range(n):
        ctx.eq("valid entries", pd[i, : lens[i], :2], x[i].reshape(lens[i], 2))
        ctx.eq("padding rows", pd[i, lens[i]:], torch.full((max(lens) + extra - lens[i], 3), 2.0, dtype=torch.float64))
        ctx.eq("padding columns", pd[i, :, 2:], torch.full((max(lens) + extra, 1), 2.0, dtype=torch.float64))


@case(params=[(1,), (2,)], bounds="elements with different sizes in two dimensions and scalars per row")
def padded_ragged(ctx, n):
    shapes = [ctx.pick(f"s{i}", [(1, 1), (2, 1), (1, 3), (2, 2), (0, 2)]) for i in range(n)]
    if all(s[0] == 0 for s in shapes):
        ctx.prune()
    x = [ctx.real(f"x{i}", s) for i, s in enumerate(shapes)]
    pd = U.list_to_padded(x, pad_value=-3.0)
    h = max(s[0] for s in shapes)
    w = max(s[1] for s in shapes if s[0])
    ctx.true("shape", tuple(pd.shape) == (n, h, w))
    for i, (a, b) in enumerate(shapes):
        if a:
            ctx.eq("valid entries", pd[i, :a, :b], x[i])
            ctx.eq("padding columns", pd[i, :a, b:], torch.full((a, w - b), -3.0, dtype=torch.float64))
        ctx.eq("padding rows", pd[i, a:], torch.full((h - a, w), -3.0, dtype=torch.float64))
    same_list(ctx, "back", [p for p, s in zip(U.padded_to_list(pd, shapes), shapes) if s[0]], [y for y, s in zip(x, shapes) if s[0]])
    e = [ctx.real(f"e{i}", (2, 2)) for i in range(n)]
    ctx.eq("equal sizes", U.list_to_padded(e, equisized=True), torch.stack(e))
    v = [ctx.real(f"v{i}", (i + 1,)) for i in range(n)]
    pv = U.list_to_padded(v)
    for i in range(n):
        ctx.eq("scalars per row", pv[i], torch.cat([v[i], torch.zeros(n - i - 1, dtype=torch.float64)]))


@case(params=[(2, 2)], bounds="padding recognised by its value (rows equal to the pad value are dropped)", max_paths=20000)
def padded_by_value(ctx, n, m):
    x = ctx.real("x", (n, m, 2), -2, 2)
    out = U.padded_to_packed(x, pad_value=0.0)
    flat = x.reshape(-1, 2)
    keep = [r for r in range(n * m) if ctx.fork((flat[r] != 0).any())]
    ctx.true("number of rows", tuple(out.shape) == (len(keep), 2))
    for k, r in enumerate(keep):
        ctx.eq("rows kept", out[k], flat[r])


@case(params=[(1, 3, ()), (2, 3, (2,)), (3, 2, ()), (3, 3, (2,)), (2, 2, (2, 2))], cpp=CPP, dtype="float32", bounds="(elements, largest length, row shape): forward, adjoint gradients and round trip of both operators")
def operators(ctx, n, hi, tail):
    lens = lengths(ctx, n, hi)
    P, M = sum(lens), max(lens)
    first = torch.tensor([sum(lens[:i]) for i in range(n)])
    x = ctx.real("x", (P,) + tail, grad=True)
    y = packed_to_padded(x, first, M)
    ctx.true("shape", tuple(y.shape) == (n, M) + tail)
    rows = [(i, j) for i in range(n) for j in range(lens[i])]
    for i in range(n):
        a = int(first[i])
        ctx.eq("valid rows", y[i, : lens[i]], x[a: a + lens[i]])
        ctx.eq("rest is zero", y[i, lens[i]:], torch.zeros((M - lens[i],) + tail))
    if P:
        g = ctx.real("g", (n, M) + tail)
        (gx,) = torch.autograd.grad(y, x, g)
        for r, (i, j) in enumerate(rows):
            ctx.eq("gradient of packed_to_padded", gx[r], g[i, j])
    z = ctx.real("z", (n, M) + tail, grad=True)
    w = padded_to_packed(z, first, P)
    ctx.true("shape of packed", tuple(w.shape) == (P,) + tail)
    for r, (i, j) in enumerate(rows):
        ctx.eq("packed rows", w[r], z[i, j])
    if P:
        h = ctx.real("h", (P,) + tail)
        (gz,) = torch.autograd.grad(w, z, h)
        for i in range(n):
            a = int(first[i])
            ctx.eq("gradient of padded_to_packed", gz[i, : lens[i]], h[a: a + lens[i]])
            ctx.eq("padding gets no gradient", gz[i, lens[i]:], torch.zeros((M - lens[i],) + tail))
        ctx.eq("round trip", padded_to_packed(packed_to_padded(x, first, M), first, P), x)


@case(params=[(2, 2)], cpp=CPP, dtype="float32", bounds="larger padding than the longest element; the packed dimension at each position")
def operators_dim(ctx, n, hi):
    lens = lengths(ctx, n, hi)
    P = sum(lens)
    first = torch.tensor([sum(lens[:i]) for i in range(n)])
    M = max(lens) + ctx.pick("extra", [0, 2])
    x = ctx.real("x", (P, 2))
    y = packed_to_padded(x, first, M)
    for i in range(n):
        a = int(first[i])
        ctx.eq("valid rows", y[i, : lens[i]], x[a: a + lens[i]])
        ctx.eq("rest is zero", y[i, lens[i]:], torch.zeros((M - lens[i], 2)))
    dim = ctx.pick("dim", [1, 2, 3, -1])
    z = ctx.real("z", {1: (n, M, 2, 3), 2: (n, 2, M, 3), 3: (n, 2, 3, M), -1: (n, 2, 3, M)}[dim])
    w = padded_to_packed(z, first, P, max_size_dim=dim)
    zz = z.movedim(dim, 1)
    ctx.true("shape", tuple(w.shape) == (P, 2, 3))
    r = 0
    for i in range(n):
        for j in range(lens[i]):
            ctx.eq("packed rows", w[r], zz[i, j])
            r += 1
