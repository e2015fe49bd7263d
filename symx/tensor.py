"""Symbolic tensors: a torch.Tensor subclass whose elements are term ids (payload `p`, int64, same geometry).

Works below autograd via __torch_dispatch__; data movement is performed by the real ATen op on the payload."""
import functools
import math
from contextlib import nullcontext
from fractions import Fraction as F

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map, tree_unflatten

from . import explore as E
from . import terms as T
from .explore import PathEnd, Unsupported

aten = torch.ops.aten
UNINIT = T.var("__uninit__", "R")


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, p, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls, p.size(), strides=p.stride(), storage_offset=p.storage_offset(), dtype=dtype, device="cpu",
            requires_grad=requires_grad)
        r.p = p
        return r

    def __init__(self, *a, **k):
        pass

    def __repr__(self):
        return f"SymTensor({tuple(self.shape)}, {self.dtype})"

    def __format__(self, spec):
        if self.dim() == 0:
            t = int(self.p.item())
            if T.is_const(t):
                return format(float(T.cval(t)), spec)
        return repr(self)

    def tolist(self):
        return to_plain(self).tolist()

    def numpy(self, force=False):
        return to_plain(self).numpy()

    def item(self):
        if self.numel() == 1 and self.dtype.is_floating_point and not T.is_const(int(self.p.reshape(-1)[0].item())):
            # a symbolic Python number: a 0-dim tensor, which supports the same arithmetic and comparisons
            r = SymTensor(self.p.reshape(()).clone(), self.dtype)
            r.number = True
            return r
        return _item(self)

    def __deepcopy__(self, memo):
        r = SymTensor(self.p.clone(), self.dtype, self.requires_grad)
        memo[id(self)] = r
        return r

    def __reduce_ex__(self, proto):
        raise Unsupported("pickling a symbolic tensor")

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def is_sym(x):
    return isinstance(x, SymTensor)


def num_id(v, dtype):
    """scalar -> id for an element of dtype"""
    if dtype == torch.bool:
        return T.TRUE if v else T.FALSE
    if isinstance(v, (bool, int)):
        return T.const(int(v))
    if isinstance(v, F):
        return T.const(v)
    return T.fconst(float(v), dtype == torch.float32)


def lift(x, dtype=None):
    """plain tensor -> payload"""
    if is_sym(x):
        return x.p
    x = x.detach()
    if x.numel() == 0:
        return torch.zeros(x.shape, dtype=torch.int64)
    if x.dtype == torch.bool:
        return torch.where(x, T.TRUE, T.FALSE)
    vals = x.reshape(-1).tolist()
    single = x.dtype == torch.float32
    isint = not x.dtype.is_floating_point
    memo = {}
    out = []
    for v in vals:
        r = memo.get(v) if v == v else None
        if r is None:
            r = T.const(v) if isint else T.fconst(v, single)
            memo[v] = r
        out.append(r)
    return torch.tensor(out, dtype=torch.int64).reshape(x.shape)


def sym(x, dtype=None):
    """plain -> SymTensor"""
    if is_sym(x):
        return x
    return SymTensor(lift(x), dtype or x.dtype)


def wrap(p, dtype):
    return SymTensor(p, dtype)


def from_ids(ids, shape, dtype):
    return SymTensor(torch.tensor(ids, dtype=torch.int64).reshape(shape), dtype)


def ids_of(x):
    return lift(x).reshape(-1).tolist()


def to_plain(x):
    """concretise (forks the path); float elements must be constants"""
    if not is_sym(x):
        return x
    ids = x.p.reshape(-1).tolist()
    memo = {}
    out = []
    for t in ids:
        r = memo.get(t)
        if r is None:
            r = _concrete(t, x.dtype)
            memo[t] = r
        out.append(r)
    r = torch.tensor(out, dtype=x.dtype)
    if is_sym(r):  # created under the mode that makes float tensors symbolic
        with torch.utils._python_dispatch._disable_current_modes():
            r = torch.tensor(out, dtype=x.dtype)
    return r.reshape(x.shape)


def _concrete(t, dtype):
    ctx = E.CUR
    if dtype == torch.bool:
        if T.SORT[t] != "B":
            t = T.to_bool(t)
        if t in (T.TRUE, T.FALSE):
            return t == T.TRUE
        if ctx is None:
            raise Unsupported("symbolic boolean outside of an exploration")
        return ctx.branch(t)
    if T.SORT[t] == "B":
        return int(_concrete(t, torch.bool))
    if T.is_const(t):
        v = T.cval(t)
        if dtype.is_floating_point:
            if abs(v) >= T.BIG:
                return math.inf if v > 0 else -math.inf
            return float(v)
        return int(v)
    if not dtype.is_floating_point:
        if ctx is None:
            raise Unsupported("symbolic int outside of an exploration")
        return ctx.choose_int(t)
    raise Unsupported(f"concretising a symbolic float: {T.show(t, 3)[:120]}")


def _item(x):
    if x.numel() != 1:
        raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % x.numel())
    return _concrete(int(x.p.reshape(-1)[0].item()), x.dtype)


# ------------------------------------------------------------------------- helpers
def bcast(*xs):
    ps = [x for x in xs]
    return torch.broadcast_tensors(*ps)


def ew(fn, *ps):
    """elementwise fn over payloads (broadcast)"""
    if len(ps) > 1:
        ps = torch.broadcast_tensors(*ps)
    shape = ps[0].shape
    if ps[0].numel() == 0:
        return torch.zeros(shape, dtype=torch.int64)
    memo = {}
    out = []
    if len(ps) == 1:
        for a in ps[0].reshape(-1).tolist():
            r = memo.get(a)
            if r is None:
                r = memo[a] = fn(a)
            out.append(r)
    else:
        for k in zip(*[p.reshape(-1).tolist() for p in ps]):
            r = memo.get(k)
            if r is None:
                r = memo[k] = fn(*k)
            out.append(r)
    return torch.tensor(out, dtype=torch.int64).reshape(shape)


def P(x, dtype):
    """payload of a tensor or scalar operand, converted to dtype domain (numeric)"""
    if isinstance(x, torch.Tensor):
        p = lift(x)
        if x.dtype == torch.bool and dtype != torch.bool:
            p = ew(T.to_num, p)
        return p
    return torch.tensor(num_id(x, dtype if dtype != torch.bool else (torch.bool if isinstance(x, bool) else dtype)))


def rt(*xs):
    """result dtype"""
    d = None
    if len(xs) == 1:
        return xs[0].dtype
    # torch.result_type only takes two operands
    a = xs[0]
    for b in xs[1:]:
        d = torch.result_type(_meta(a), _meta(b))
        a = torch.empty([1] * (isinstance(a, torch.Tensor) and a.dim() > 0 or isinstance(b, torch.Tensor) and b.dim() > 0), dtype=d)
    return d


_metac = {}


def _meta(a):
    if isinstance(a, torch.Tensor):
        k = (a.dim() > 0, a.dtype)
        r = _metac.get(k)
        if r is None:
            r = _metac[k] = torch.empty([1] * (a.dim() > 0), dtype=a.dtype)
        return r
    return a


def fdt(d):
    return d if d.is_floating_point else torch.get_default_dtype()


HANDLERS = {}
INPLACE_OF = {}


def h(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


# ------------------------------------------------------------------------- data movement
MOVE = set(
    """view _unsafe_view _reshape_alias reshape expand select slice transpose t permute squeeze unsqueeze as_strided alias detach clone
    cat stack hstack unbind split split_with_sizes unsafe_split unsafe_chunk chunk index_select gather take flip roll repeat unfold diagonal narrow
    slice_scatter select_scatter diagonal_scatter as_strided_scatter masked_select contiguous lift_fresh lift lift_fresh_copy resolve_conj resolve_neg view_copy expand_copy
    movedim swapaxes rot90 squeeze_ unsqueeze_ transpose_ t_ detach_ unbind_copy reflection_pad1d reflection_pad2d replication_pad1d replication_pad2d replication_pad3d
    pixel_shuffle pixel_unshuffle im2col channel_shuffle ravel flatten unflatten repeat_interleave split_copy split_with_sizes_copy permute_copy
    _conj positive resize_ real fliplr flipud block_diag_ view_as_real_""".split())


def concretise_index(x):
    if is_sym(x) and x.dtype in (torch.bool, torch.uint8, torch.int64, torch.int32, torch.int16):
        return to_plain(x)
    return x


def move(func, args, kwargs):
    """run a data-movement op on payloads"""
    dtypes = []

    def un(x):
        if is_sym(x):
            dtypes.append(x.dtype)
            return x.p
        return x

    name = func._schema.name.split("::")[1]
    # cat / stack of mixed plain and symbolic
    if name in ("cat", "stack", "hstack"):
        ts = args[0]
        dt = ts[0].dtype
        for x in ts[1:]:
            if x.dtype != dt:
                dt = torch.promote_types(dt, x.dtype)
        ps = [convert_payload(lift(x), x.dtype, dt) for x in ts]
        return wrap(func(ps, *args[1:], **kwargs), dt)
    first = args[0]
    rest = tuple(tree_map(concretise_index, a) for a in args[1:])
    if name in ("slice_scatter", "select_scatter", "diagonal_scatter", "as_strided_scatter"):
        dt = first.dtype
        a = (lift(first), convert_payload(lift(args[1]), args[1].dtype, dt)) + tuple(args[2:])
        return wrap(func(*a, **kwargs), dt)
    if not is_sym(first):
        # only the index was symbolic
        return func(first, *rest, **{k: concretise_index(v) for k, v in kwargs.items()})
    out = func(first.p, *rest, **{k: concretise_index(v) for k, v in kwargs.items()})
    dt = first.dtype
    return tree_map(lambda o: wrap(o, dt) if isinstance(o, torch.Tensor) else o, out)


def convert_payload(p, src, dst):
    if src == dst:
        return p
    if dst == torch.bool:
        return ew(T.to_bool, p)
    if src == torch.bool:
        return ew(T.to_num, p)
    if src.is_floating_point and not dst.is_floating_point:
        return ew(T.trunc, p)
    if dst == torch.uint8 and not src.is_floating_point:
        return p
    return p


# ------------------------------------------------------------------------- random stubs
class Draws:
    """names random draws so that they can be replayed"""

    def __init__(self):
        self.n = 0
        self.log = []

    def next(self, kind):
        self.n += 1
        return f"rng{self.n}:{kind}"


def draws():
    c = E.CUR
    if c is None:
        raise Unsupported("random draw outside of an exploration")
    if not hasattr(c, "draws"):
        c.draws = Draws()
    return c, c.draws


def nondet(kind, shape, dtype, lo=None, hi=None, hi_strict=True):
    c, d = draws()
    nm = d.next(kind)
    n = int(np.prod(shape)) if len(shape) else 1
    fl = dtype.is_floating_point
    ids = []
    for i in range(n):
        v = c._newvar(f"{nm}[{i}]", "R" if fl else "I", c._sampler(lo, (hi - (0 if fl else 1)) if hi is not None else None, "R" if fl else "I"))
        ids.append(v)
        if lo is not None:
            c.assume_id(T.le(T.const(F(lo)), v))
        if hi is not None:
            c.assume_id((T.lt if hi_strict else T.le)(v, T.const(F(hi))))
    c.rng_log = getattr(c, "rng_log", []) + [(nm, ids)]
    return from_ids(ids, tuple(shape), dtype)


# ------------------------------------------------------------------------- dispatch
FACTORY = {"zeros", "ones", "full", "empty", "eye", "arange", "linspace", "logspace", "scalar_tensor", "zeros_like", "ones_like", "full_like",
           "empty_like", "new_zeros", "new_ones", "new_full", "new_empty", "empty_strided", "new_empty_strided", "tril_indices", "triu_indices"}
RANDOM = {"rand", "randn", "rand_like", "randn_like", "randint", "randint_like", "randperm", "multinomial", "uniform_", "normal_", "bernoulli", "bernoulli_", "random_", "normal", "poisson", "exponential_"}


def opname(func):
    return func._schema.name.split("::")[1]


def any_sym(args, kwargs):
    for a in tree_flatten((args, kwargs))[0]:
        if isinstance(a, SymTensor):
            return True
    return False


DECOMP = None
COVER = {}


def decomp_table():
    global DECOMP
    if DECOMP is None:
        from torch._decomp import decomposition_table

        DECOMP = decomposition_table
    return DECOMP


def dispatch(func, args, kwargs, mode=None):
    name = opname(func)
    COVER[name] = COVER.get(name, 0) + 1
    ov = func._overloadname
    hd = HANDLERS.get(f"{name}.{ov}") or HANDLERS.get(name)
    if hd is not None:
        r = hd(func, args, kwargs)
        if r is not NotImplemented:
            return r
    if name in MOVE:
        return move(func, args, kwargs)
    # in-place variant of a functional op
    if name.endswith("_") and not name.endswith("__"):
        base = name[:-1]
        hd = HANDLERS.get(f"{base}.{ov}") or HANDLERS.get(base)
        if hd is not None:
            dst = args[0]
            r = hd(func, args, kwargs)
            if r is not NotImplemented:
                return write_back(dst, r)
    if "out" in kwargs or name.endswith(".out"):
        raise Unsupported(f"out= variant {func}")
    with mode if mode is not None else nullcontext():
        d = func.decompose(*args, **kwargs)
        if d is not NotImplemented:
            return d
        dt = decomp_table().get(func)
        if dt is not None:
            return dt(*args, **kwargs)
    raise Unsupported(f"op {func}")


def write_back(dst, val):
    p = lift(val) if isinstance(val, torch.Tensor) else torch.tensor(num_id(val, dst.dtype))
    if isinstance(val, torch.Tensor):
        p = convert_payload(p, val.dtype, dst.dtype)
    if is_sym(dst):
        dst.p.copy_(p)
        return dst
    # plain destination: only possible when the value can be concretised
    v = to_plain(wrap(p, dst.dtype))
    with torch.no_grad():
        torch.ops.aten.copy_.default(dst, v)
    return dst


_torch_tensor = torch.tensor


def _tensor_from_data(data, *args, **kwargs):
    """torch.tensor over nested lists that hold symbolic elements (torch would ask each for its value)"""

    def has(x):
        return any(has(y) for y in x) if isinstance(x, (list, tuple)) else is_sym(x)

    if not has(data):
        return _torch_tensor(data, *args, **kwargs)
    dtype = kwargs.get("dtype")

    def build(x):
        if isinstance(x, (list, tuple)):
            return torch.stack([build(y) for y in x])
        if isinstance(x, torch.Tensor):
            return x.detach()
        return _torch_tensor(x, dtype=dtype or torch.get_default_dtype())

    r = build(data)
    r = r.to(dtype) if dtype is not None else r
    return r.requires_grad_(True) if kwargs.get("requires_grad") else r


class SymMode(TorchDispatchMode):
    """active during symbolic execution: float factories give symbolic tensors, random draws are nondeterministic"""

    def __enter__(self):
        torch.tensor = _tensor_from_data
        return super().__enter__()

    def __exit__(self, *a):
        torch.tensor = _torch_tensor
        return super().__exit__(*a)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = opname(func)
        if name in RANDOM:
            return random_op(name, func, args, kwargs)
        if any_sym(args, kwargs):
            return dispatch(func, args, kwargs, self)
        # no symbolic argument
        if name in ("lift_fresh", "_to_copy", "clone", "detach", "lift_fresh_copy") or name in FACTORY:
            out = func(*args, **kwargs)
            if isinstance(out, torch.Tensor) and out.dtype.is_floating_point and out.device.type == "cpu":
                if name in ("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided"):
                    return wrap(torch.full_like(out, UNINIT, dtype=torch.int64), out.dtype)
                return sym(out)
            return out
        if name in CONCRETE_FLOAT_OK or name.split("_")[0] in ("sparse",):
            return func(*args, **kwargs)
        # float arithmetic on plain tensors would round: lift float inputs
        fl = [a for a in tree_flatten((args, kwargs))[0] if isinstance(a, torch.Tensor) and a.dtype.is_floating_point and not a.is_sparse]
        if fl and name not in MOVE and name not in ("_local_scalar_dense", "is_nonzero"):
            if name.endswith("_") or name in ("copy_", "fill_", "zero_", "index_put_"):
                return func(*args, **kwargs)
            a2, k2 = tree_map(lambda x: sym(x) if isinstance(x, torch.Tensor) and x.dtype.is_floating_point and not x.is_sparse else x, (args, kwargs))
            return dispatch(func, a2, k2, self)
        return func(*args, **kwargs)


CONCRETE_FLOAT_OK = {"copy_", "fill_", "zero_", "equal", "isfinite", "any", "all", "set_", "_has_compatible_shallow_copy_type"}


def random_op(name, func, args, kwargs):
    c = E.CUR
    hook = getattr(c, "random_hook", None) if c is not None else None
    if hook is not None:
        r = hook(name, func, args, kwargs)
        if r is not NotImplemented:
            return r
    dtype = kwargs.get("dtype") or torch.get_default_dtype()
    if name == "rand":
        return nondet("rand", args[0], dtype, 0, 1)
    if name == "randn":
        return nondet("randn", args[0], dtype)
    if name == "rand_like":
        return nondet("rand", args[0].shape, kwargs.get("dtype") or args[0].dtype, 0, 1)
    if name == "randn_like":
        return nondet("randn", args[0].shape, kwargs.get("dtype") or args[0].dtype)
    if name == "uniform_":
        lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
        hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
        r = nondet("rand", args[0].shape, args[0].dtype, lo, hi)
        return write_back(args[0], r)
    if name == "normal_":
        r = nondet("randn", args[0].shape, args[0].dtype)
        if len(args) > 1 or kwargs:
            mean = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
            std = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
            r = r * std + mean
        return write_back(args[0], r)
    if name == "randint":
        if func._overloadname.startswith("low"):
            lo, hi, shape = args[0], args[1], args[2]
        else:
            lo, hi, shape = 0, args[0], args[1]
        return to_plain(nondet("randint", shape, torch.int64, lo, hi))
    if name == "randint_like":
        lo, hi = (args[1], args[2]) if len(args) > 2 else (0, args[1])
        return to_plain(nondet("randint", args[0].shape, torch.int64, lo, hi))
    if name == "randperm":
        n = args[0]
        r = nondet("randperm", (n,), torch.int64, 0, n)
        ids = ids_of(r)
        left = list(range(n))
        out = []
        for i in range(n):
            for j in range(i):
                c.assume_id(T.ne(ids[i], ids[j]))
            out.append(c.choose_int(ids[i]))
        return torch.tensor(out)
    if name == "multinomial":
        w, n = args[0], args[1]
        repl = args[2] if len(args) > 2 else kwargs.get("replacement", False)
        m = w.shape[-1]
        wp = lift(w).reshape(-1, m).tolist()
        out = []
        for row in wp:
            r = nondet("multinomial", (n,), torch.int64, 0, m)
            ids = ids_of(r)
            o = []
            if n > m and not repl:
                raise RuntimeError("cannot sample n_sample > prob_dist.size(-1) samples without replacement")
            for i in range(n):
                if not repl:
                    for j in range(i):
                        c.assume_id(T.ne(ids[i], ids[j]))
                k = c.choose_int(ids[i])
                # without replacement, categories of weight zero come last, in any order
                rest = [T.lt(T.ZERO, w) for j, w in enumerate(row) if j not in o] if not repl else []
                ok = T.lt(T.ZERO, row[k])
                c.assume_id(T.or_(ok, T.not_(functools.reduce(T.or_, rest))) if rest else ok)
                o.append(k)
            out.append(o)
        return torch.tensor(out, dtype=torch.int64).reshape(tuple(w.shape[:-1]) + (n,))
    raise Unsupported(f"random op {name}")


from . import ops  # noqa: E402,F401  (registers the handlers)
