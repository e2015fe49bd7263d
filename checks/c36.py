"""C36: batched property containers broadcast, index, set, gather and clone faithfully."""
import torch
from symx.harness import case
from pytorch3d.renderer.cameras import FoVOrthographicCameras, FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras
from pytorch3d.renderer.lighting import AmbientLights, DirectionalLights, PointLights
from pytorch3d.renderer.materials import Materials
from pytorch3d.renderer.utils import TensorProperties, convert_to_tensors_and_broadcast

KW = dict(dtype="float32")


class Plain(TensorProperties):
    def __init__(self, device="cpu", **kw):
        super().__init__(device=device, **kw)

    def clone(self):
        return super().clone(Plain(device=self.device))


# properties of each class: name -> shape of one element
CLASSES = {
    "plain": (Plain, {"x": (), "y": (2,), "z": (2, 2)}),
    "directional": (DirectionalLights, {"ambient_color": (3,), "diffuse_color": (3,), "specular_color": (3,), "direction": (3,)}),
    "point": (PointLights, {"ambient_color": (3,), "diffuse_color": (3,), "specular_color": (3,), "location": (3,)}),
    "ambient": (AmbientLights, {"ambient_color": (3,)}),
    "materials": (Materials, {"ambient_color": (3,), "diffuse_color": (3,), "specular_color": (3,), "shininess": ()}),
    "fov": (FoVPerspectiveCameras, {"R": (3, 3), "T": (3,), "znear": (), "zfar": (), "fov": (), "aspect_ratio": ()}),
    "ortho": (FoVOrthographicCameras, {"R": (3, 3), "T": (3,), "max_y": (), "min_x": (), "scale_xyz": (3,)}),
    "perspective": (PerspectiveCameras, {"R": (3, 3), "T": (3,), "focal_length": (2,), "principal_point": (2,)}),
    "orthographic": (OrthographicCameras, {"R": (3, 3), "T": (3,), "focal_length": (2,), "principal_point": (2,)}),
}
# which arguments have the full batch size: all, only the first, only the last, none
SPREAD = {"all": lambda i, n: True, "first": lambda i, n: i == 0, "last": lambda i, n: i == n - 1, "none": lambda i, n: False}


def make(ctx, kind, n, spread):
    """the object, the values given and the value every element must have"""
    cls, props = CLASSES[kind]
    given = {}
    for i, (k, s) in enumerate(props.items()):
        size = n if SPREAD[spread](i, len(props)) else 1
        given[k] = ctx.real(k, (size,) + s, 0, 2)
    o = cls(**given)
    size = max(v.shape[0] for v in given.values())
    want = {k: [v[b if v.shape[0] > 1 else 0].clone() for b in range(size)] for k, v in given.items()}
    return o, size, want


def compare(ctx, what, o, want):
    for k, vals in want.items():
        v = getattr(o, k)
        ctx.true(what + " size", v.shape[0] == len(vals))
        for b, w in enumerate(vals):
            ctx.true(what + " shape", v[b].shape == w.shape)
            ctx.eq(what, v[b], w, tol=(0, 0))


GRID = [dict(kind=k, n=n, spread=s) for k in CLASSES for n, s in ((1, "none"), (2, "all"), (3, "first"), (2, "last"))]


@case(params=GRID, bounds="nine classes, batches of one to three, all properties symbolic", **KW)
def construct(ctx, kind, n, spread):
    o, size, want = make(ctx, kind, n, spread)
    ctx.true("length", len(o) == size)
    ctx.true("empty", o.isempty() is False)
    compare(ctx, "value", o, want)


@case(params=GRID, bounds="nine classes, batches of one to three, all properties symbolic; the clone and the original are then overwritten in place", **KW)
def clone(ctx, kind, n, spread):
    o, size, want = make(ctx, kind, n, spread)
    c = o.clone()
    ctx.true("class", type(c) is type(o))
    ctx.true("length", len(c) == size)
    compare(ctx, "clone", c, want)
    for k in want:
        if spread == "all":
            getattr(c, k)[0] = 7.0
    compare(ctx, "original", o, want)
    c = o.clone()
    for k in want:
        if spread == "all":
            getattr(o, k)[-1] = 9.0
    compare(ctx, "clone after a change", c, want)


LIT = ["plain", "directional", "point", "ambient", "materials"]
INDEX = {"0": 0, "1": 1, "-1": -1, "0:2": slice(0, 2), "1:": slice(1, None), "::2": slice(None, None, 2), ":": slice(None)}


@case(params=[dict(kind=k, n=n, spread=s, index=i) for k in LIT for n, s in ((2, "all"), (3, "first"), (3, "last")) for i in INDEX],
      bounds="five classes, batches of two and three, seven indices", **KW)
def get(ctx, kind, n, spread, index):
    o, size, want = make(ctx, kind, n, spread)
    idx = INDEX[index]
    for k, vals in want.items():
        got = getattr(o[idx], k)
        if isinstance(idx, int):
            ctx.eq("element", got, vals[idx], tol=(0, 0))
        else:
            sel = vals[idx]
            ctx.true("number of elements", got.shape[0] == len(sel))
            for b, w in enumerate(sel):
                ctx.eq("element of slice", got[b], w, tol=(0, 0))
    compare(ctx, "unchanged", o, want)


@case(params=[dict(kind=k, n=n, spread=s, index=i, how=h) for k in LIT for n, s in ((2, "all"), (3, "first"), (3, "last")) for i in INDEX for h in ("tensor", "number")],
      bounds="five classes, batches of two and three, seven indices; every property set once, to symbolic tensors or a number", **KW)
def set_element(ctx, kind, n, spread, index, how):
    """exactly the selected elements take the new value; a clone made before keeps the old ones"""
    o, size, want = make(ctx, kind, n, spread)
    idx = INDEX[index]
    before = o.clone()
    now = {k: list(v) for k, v in want.items()}
    chosen = [idx % size] if isinstance(idx, int) else list(range(size))[idx]
    for k, vals in want.items():
        if how == "number":
            setattr(o[idx], k, 5.0)
            for b in chosen:
                now[k][b] = torch.full(vals[b].shape, 5.0)
        else:
            shape = tuple(vals[0].shape)
            # elements with several axes are set with a leading axis of one
            single = isinstance(idx, int) and len(shape) < 2
            v = ctx.real("v" + k, shape if single else (len(chosen),) + shape, 0, 2)
            setattr(o[idx], k, v)
            for j, b in enumerate(chosen):
                now[k][b] = v if single else v[j]
        compare(ctx, "after set", o, now)
    compare(ctx, "clone made before", before, want)


@case(params=[dict(kind=k, n=n, spread=s, b=b) for k in CLASSES for n, s in ((2, "all"), (3, "first"), (1, "none")) for b in (1, 2, 4)],
      bounds="nine classes, batches of one to three, one to four requested positions with symbolic batch indices", **KW)
def gather(ctx, kind, n, spread, b):
    o, size, want = make(ctx, kind, n, spread)
    idx = ctx.integer("idx", (b,), 0, size - 1)
    got = o.gather_props(idx)
    ctx.true("same object", got is o)
    for k, vals in want.items():
        v = getattr(o, k)
        if size == 1:
            # one element: every position reads it by broadcasting
            ctx.true("size", v.shape[0] in (1, b))
            for j in range(v.shape[0]):
                ctx.eq("value", v[j], vals[0], tol=(0, 0))
            continue
        ctx.true("size", tuple(v.shape) == (b,) + tuple(vals[0].shape))
        for j in range(b):
            w = vals[0]
            for e in range(1, size):
                w = torch.where(idx[j] == e, vals[e], w)
            ctx.eq("value", v[j], w, tol=(0, 0))


FORMS = ("number", "list", "tuple", "scalar tensor", "one", "full", "matrix", "one matrix")


@case(params=[dict(forms=f, n=n) for f in [(a, b) for a in FORMS for b in FORMS] + [("number", "full", "one matrix"), ("list", "matrix", "scalar tensor")] for n in (1, 3)],
      bounds="pairs and triples of eight kinds of argument, batch sizes one and three", **KW)
def broadcast(ctx, forms, n):
    """numbers, lists, tensors: each becomes one value per element, sizes other than 1 and the batch size are rejected"""
    args, vals, sizes = [], [], []
    for i, f in enumerate(forms):
        if f == "number":
            args.append(2.5), vals.append([torch.tensor(2.5)])
        elif f in ("list", "tuple"):
            x = [0.5 + j for j in range(n)]
            args.append(x if f == "list" else tuple(x)), vals.append([torch.tensor(a) for a in x])
        elif f == "scalar tensor":
            x = ctx.real("a%d" % i, (), -2, 2)
            args.append(x), vals.append([x])
        else:
            x = ctx.real("a%d" % i, ((1 if f.startswith("one") else n),) + ((2, 2) if "matrix" in f else ()), -2, 2)
            args.append(x), vals.append([x[j] for j in range(x.shape[0])])
    N = max(len(v) for v in vals)
    out = convert_to_tensors_and_broadcast(*args)
    ctx.true("number of results", len(out) == len(args))
    for o, v in zip(out, vals):
        ctx.true("batch", tuple(o.shape) == (N,) + tuple(v[0].shape))
        for b in range(N):
            ctx.eq("value", o[b], v[b if len(v) > 1 else 0], tol=(0, 0))
    try:
        convert_to_tensors_and_broadcast(*args, torch.zeros(N + 1 if N > 1 else 2), torch.zeros(5))
        ctx.true("sizes 2 and 5 rejected", False)
    except ValueError:
        pass
