"""Handlers for ATen ops on symbolic tensors."""
import math
from fractions import Fraction as F

import torch
from torch.utils._pytree import tree_map

from . import explore as E
from . import terms as T
from .tensor import (HANDLERS, P, SymTensor, UNINIT, Unsupported, concretise_index, convert_payload, dispatch, ew, fdt, from_ids, h, ids_of, is_sym,
                     lift, move, num_id, rt, sym, to_plain, wrap, write_back, _item)

HALF = T.const(F(1, 2))


@h("linspace")
def linspace(func, args, kwargs):
    a, b, n = args[:3]
    if not (is_sym(a) or is_sym(b)):
        return NotImplemented
    dt = kwargs.get("dtype") or torch.get_default_dtype()
    val = lambda x: ids_of(x)[0] if isinstance(x, torch.Tensor) else num_id(x, dt)
    a, b = val(a), val(b)
    step = lambda i: T.const(F(i, n - 1)) if n > 1 else T.ZERO
    return from_ids([T.add(a, T.mul(step(i), T.sub(b, a))) for i in range(n)], (n,), dt)


def decided(r):
    """a selection whose condition is decided on the current path"""
    while T.OP[r] == "ite" and E.CUR is not None:
        k = E.CUR.known(T.ARG[r][0])
        if k is None:
            break
        r = T.ARG[r][1 if k else 2]
    return r


def pmax(a, b):
    return decided(T.max_(a, b))


def pmin(a, b):
    return decided(T.min_(a, b))


# ------------------------------------------------------------------ elementwise
def unary(name, fn, to_float=True):
    @h(name)
    def f(func, args, kwargs):
        x = args[0]
        dt = fdt(x.dtype) if to_float else x.dtype
        p = lift(x)
        if x.dtype == torch.bool:
            p = ew(T.to_num, p)
        return wrap(ew(fn, p), dt)


def tan(a):
    return T.div(T.sin(a), T.cos(a))


def tanh(a):
    return T.ZERO if a == T.ZERO else T.fun("tanh", a)


unary("sqrt", T.sqrt)
unary("rsqrt", lambda a: T.inv(T.sqrt(a)))
unary("exp", T.exp)
unary("log", T.log)
unary("log1p", lambda a: T.log(T.add(T.ONE, a)))
unary("expm1", lambda a: T.sub(T.exp(a), T.ONE))
LN2 = T.fconst(math.log(2))
unary("log2", lambda a: T.div(T.log(a), LN2))
unary("log10", lambda a: T.div(T.log(a), T.fconst(math.log(10))))
unary("exp2", lambda a: T.exp(T.mul(a, LN2)))
unary("sin", T.sin)
unary("cos", T.cos)
unary("tan", tan)


acos = T.acos


PI = T.fconst(math.pi)
unary("acos", acos)
unary("asin", lambda a: T.sub(T.scale(PI, F(1, 2)), acos(a)))
unary("atan", lambda a: T.atan2(a, T.ONE))


def sinc(a):
    pa = T.mul(PI, a)
    return T.ite(T.eq0(a), T.ONE, T.div(T.sin(pa), pa))


unary("sinc", sinc)
unary("tanh", tanh)
unary("sinh", lambda a: T.scale(T.sub(T.exp(a), T.exp(T.neg(a))), F(1, 2)))
unary("cosh", lambda a: T.scale(T.add(T.exp(a), T.exp(T.neg(a))), F(1, 2)))
unary("erf", lambda a: T.fun("erf", a))
unary("sigmoid", T.sigmoid)
unary("reciprocal", T.inv)
unary("neg", T.neg, False)
unary("abs", T.abs_, False)
unary("floor", T.floor, False)
unary("ceil", T.ceil, False)
unary("trunc", T.trunc, False)
unary("round", T.round_half_even, False)
unary("frac", lambda a: T.sub(a, T.trunc(a)), False)
unary("sign", T.sgn, False)
unary("sgn", T.sgn, False)
unary("relu", lambda a: pmax(a, T.ZERO), False)
unary("square", lambda a: T.mul(a, a), False)


@h("round.decimals")
def _round_dec(func, args, kwargs):
    d = kwargs.get("decimals", 0)
    k = F(10) ** d
    return wrap(ew(lambda a: T.scale(T.round_half_even(T.scale(a, k)), 1 / k), lift(args[0])), args[0].dtype)


@h("silu")
def _silu(func, args, kwargs):
    return wrap(ew(lambda a: T.mul(a, T.sigmoid(a)), lift(args[0])), args[0].dtype)


@h("softplus")
def _softplus(func, args, kwargs):
    beta = args[1] if len(args) > 1 else 1
    th = args[2] if len(args) > 2 else 20
    b = T.fconst(beta)

    def f(a):
        ba = T.mul(a, b)
        return T.ite(T.lt(T.fconst(th), ba), a, T.div(T.log(T.add(T.ONE, T.exp(ba))), b))

    return wrap(ew(f, lift(args[0])), args[0].dtype)


@h("isnan", "isinf")
def _isnan(func, args, kwargs):
    if func._schema.name.endswith("isinf"):
        big = T.const(T.BIG)
        return wrap(ew(lambda a: T.TRUE if a in (big, T.neg(big)) else T.FALSE, lift(args[0])), torch.bool)
    nan = T.special("nan")
    return wrap(ew(lambda a: T.TRUE if nan in T.variables(a) else T.FALSE, lift(args[0])), torch.bool)


@h("isfinite")
def _isfinite(func, args, kwargs):
    nan, big = T.special("nan"), T.const(T.BIG)
    return wrap(ew(lambda a: T.FALSE if a in (big, T.neg(big)) or nan in T.variables(a) else T.TRUE, lift(args[0])), torch.bool)


@h("nan_to_num")
def _n2n(func, args, kwargs):
    return wrap(lift(args[0]).clone(), args[0].dtype)


def binary(name, fn, bool_out=False, int_div=False):
    @h(name)
    def f(func, args, kwargs):
        a, b = args[0], args[1]
        dt = rt(a, b)
        if int_div:
            dt = fdt(dt)
        alpha = kwargs.get("alpha", 1)
        cd = dt if dt != torch.bool else torch.int64
        pa, pb = P(a, cd), P(b, cd)
        if alpha != 1:
            k = num_id(alpha, cd)
            pb = ew(lambda x: T.mul(x, k), pb)
        return wrap(ew(fn, pa, pb), torch.bool if bool_out else dt)


binary("add", T.add)
binary("sub", T.sub)
binary("mul", T.mul)
binary("maximum", pmax)
binary("minimum", pmin)
binary("fmax", pmax)
binary("fmin", pmin)
binary("atan2", T.atan2)
binary("hypot", lambda a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b))))
binary("lt", T.lt, True)
binary("le", T.le, True)
binary("gt", T.gt, True)
binary("ge", T.ge, True)
binary("floor_divide", lambda a, b: T.floor(T.div(a, b)))


@h("eq", "ne")
def _eq(func, args, kwargs):
    a, b = args[0], args[1]
    dt = rt(a, b)
    neg = func._schema.name.endswith("ne")
    if dt == torch.bool:
        pa, pb = P(a, torch.bool), P(b, torch.bool)
    else:
        pa, pb = P(a, dt), P(b, dt)
    return wrap(ew(T.ne if neg else T.eq, pa, pb), torch.bool)


@h("add.Tensor", "add.Scalar")
def _add(func, args, kwargs):
    a, b = args[0], args[1]
    dt = rt(a, b)
    if dt == torch.bool:
        return wrap(ew(T.or_, lift(a), P(b, torch.bool)), dt)
    return HANDLERS["add"](func, args, kwargs)


@h("mul.Tensor", "mul.Scalar")
def _mul(func, args, kwargs):
    a, b = args[0], args[1]
    dt = rt(a, b)
    if dt == torch.bool:
        return wrap(ew(T.and_, lift(a), P(b, torch.bool)), dt)
    # bool * float : gate
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and (a.dtype == torch.bool) != (b.dtype == torch.bool):
        if b.dtype == torch.bool:
            a, b = b, a
        return wrap(ew(lambda c, x: T.ite(c, x, T.ZERO), lift(a), lift(b)), dt)
    return HANDLERS["mul"](func, args, kwargs)


@h("rsub")
def _rsub(func, args, kwargs):
    a, b = args[0], args[1]
    alpha = args[2] if len(args) > 2 else kwargs.get("alpha", 1)
    dt = rt(a, b)
    k = num_id(alpha, dt)
    return wrap(ew(lambda x, y: T.sub(y, T.mul(k, x)), P(a, dt), P(b, dt)), dt)


@h("div", "true_divide", "divide")
def _div(func, args, kwargs):
    a, b = args[0], args[1]
    rm = kwargs.get("rounding_mode")
    if rm is None and len(args) > 2:
        rm = args[2]
    dt = rt(a, b)
    if rm is None:
        dt = fdt(dt)
        return wrap(ew(T.div, P(a, dt), P(b, dt)), dt)
    f = T.floor if rm == "floor" else T.trunc
    return wrap(ew(lambda x, y: f(T.div(x, y)), P(a, dt), P(b, dt)), dt)


@h("remainder")
def _rem(func, args, kwargs):
    a, b = args[0], args[1]
    dt = rt(a, b)
    return wrap(ew(lambda x, y: T.sub(x, T.mul(y, T.floor(T.div(x, y)))), P(a, dt), P(b, dt)), dt)


@h("fmod")
def _fmod(func, args, kwargs):
    a, b = args[0], args[1]
    dt = rt(a, b)
    return wrap(ew(lambda x, y: T.sub(x, T.mul(y, T.trunc(T.div(x, y)))), P(a, dt), P(b, dt)), dt)


def _pow2(a, b):
    if T.is_const(b):
        v = T.cval(b)
        if v.denominator == 1 and abs(v) <= 64:
            return T.powi(a, int(v))
        if v.denominator == 2 and abs(v) <= 32:
            return T.powi(T.sqrt(a), int(v * 2))
    if T.is_const(a) and T.cval(a) == 2:
        return T.exp(T.mul(b, LN2))
    return T.fun("pow", a, b)


@h("pow", "float_power")
def _pow(func, args, kwargs):
    a, b = args[0], args[1]
    dt = rt(a, b)
    return wrap(ew(_pow2, P(a, dt), P(b, dt)), dt)


@h("copysign")
def _copysign(func, args, kwargs):
    a, b = args
    dt = fdt(rt(a, b))
    return wrap(ew(lambda x, y: T.ite(T.lt0(y), T.neg(T.abs_(x)), T.abs_(x)), P(a, dt), P(b, dt)), dt)


@h("lerp")
def _lerp(func, args, kwargs):
    a, b, w = args
    dt = a.dtype
    return wrap(ew(lambda x, y, z: T.add(x, T.mul(z, T.sub(y, x))), P(a, dt), P(b, dt), P(w, dt)), dt)


@h("addcmul")
def _addcmul(func, args, kwargs):
    k = num_id(kwargs.get("value", 1), args[0].dtype)
    dt = args[0].dtype
    return wrap(ew(lambda a, b, c: T.add(a, T.mul(k, T.mul(b, c))), *[P(x, dt) for x in args[:3]]), dt)


@h("addcdiv")
def _addcdiv(func, args, kwargs):
    k = num_id(kwargs.get("value", 1), args[0].dtype)
    dt = args[0].dtype
    return wrap(ew(lambda a, b, c: T.add(a, T.mul(k, T.div(b, c))), *[P(x, dt) for x in args[:3]]), dt)


@h("where.self", "where.ScalarSelf", "where.ScalarOther", "where.Scalar")
def _where(func, args, kwargs):
    c, a, b = args
    dt = rt(a, b)
    return wrap(ew(T.ite, ew(T.to_bool, lift(c)), P(a, dt), P(b, dt)), dt)


@h("clamp", "clip", "clamp.Tensor", "clamp_min", "clamp_max", "hardtanh")
def _clamp(func, args, kwargs):
    x = args[0]
    nm = func._schema.name.split("::")[1].rstrip("_")
    lo = kwargs.get("min", args[1] if len(args) > 1 else None)
    hi = kwargs.get("max", args[2] if len(args) > 2 else None)
    if nm == "clamp_max":
        lo, hi = None, kwargs.get("max", args[1] if len(args) > 1 else None)
    dt = x.dtype
    for b in (lo, hi):
        if b is not None:
            dt = rt(x, b) if isinstance(b, torch.Tensor) or not (isinstance(b, float) and not dt.is_floating_point) else torch.get_default_dtype()
    p = P(x, dt)
    if lo is not None:
        p = ew(pmax, p, P(lo, dt))
    if hi is not None:
        p = ew(pmin, p, P(hi, dt))
    return wrap(p, dt)


@h("leaky_relu")
def _leaky(func, args, kwargs):
    s = num_id(args[1] if len(args) > 1 else 0.01, args[0].dtype)
    return wrap(ew(lambda a: T.ite(T.lt0(a), T.mul(s, a), a), lift(args[0])), args[0].dtype)


@h("threshold_backward")
def _thrb(func, args, kwargs):
    g, x, th = args
    k = num_id(th, x.dtype)
    return wrap(ew(lambda a, b: T.ite(T.le(b, k), T.ZERO, a), lift(g), lift(x)), x.dtype)


def logical(name, fn, n=2):
    @h(name)
    def f(func, args, kwargs):
        ps = []
        for a in args[:n]:
            if isinstance(a, torch.Tensor):
                ps.append(ew(T.to_bool, lift(a)))
            else:
                ps.append(torch.tensor(T.TRUE if a else T.FALSE))
        return wrap(ew(fn, *ps), torch.bool)


logical("logical_and", T.and_)
logical("logical_or", T.or_)
logical("logical_xor", T.xor)
logical("logical_not", T.not_, 1)


def bitwise(name, fn):
    @h(name)
    def f(func, args, kwargs):
        for a in args:
            if isinstance(a, torch.Tensor) and a.dtype != torch.bool:
                args = tuple(to_plain(x) if isinstance(x, torch.Tensor) else x for x in args)
                return func(*args, **kwargs)
        return wrap(ew(fn, *[P(a, torch.bool) for a in args]), torch.bool)


bitwise("bitwise_and", T.and_)
bitwise("bitwise_or", T.or_)
bitwise("bitwise_xor", T.xor)
bitwise("bitwise_not", T.not_)
for _a, _b in (("__and__", "bitwise_and"), ("__or__", "bitwise_or"), ("__xor__", "bitwise_xor"), ("__iand__", "bitwise_and"), ("__ior__", "bitwise_or")):
    HANDLERS[_a] = HANDLERS[_b]


@h("__iand__", "__ior__")
def _iand(func, args, kwargs):
    r = HANDLERS["bitwise_and" if "iand" in func._schema.name else "bitwise_or"](func, args, kwargs)
    return write_back(args[0], r)


# ------------------------------------------------------------------ conversion, factories, fills
@h("_to_copy")
def _to_copy(func, args, kwargs):
    x = args[0]
    dt = kwargs.get("dtype") or x.dtype
    p = convert_payload(x.p, x.dtype, dt).clone()
    return wrap(p, dt)


@h("to", "type_as")
def _to(func, args, kwargs):
    return NotImplemented


@h("_local_scalar_dense", "item")
def _lsd(func, args, kwargs):
    return _item(args[0])


@h("is_nonzero")
def _isnz(func, args, kwargs):
    return bool(_item(args[0]))


@h("equal")
def _equal(func, args, kwargs):
    a, b = args
    if a.shape != b.shape:
        return False
    c = T.and_(*ew(T.eq, lift(a), lift(b)).reshape(-1).tolist()) if a.numel() else T.TRUE
    return E.CUR.branch(c) if c not in (T.TRUE, T.FALSE) else c == T.TRUE


@h("allclose")
def _allclose(func, args, kwargs):
    a, b = args[0], args[1]
    rtol = args[2] if len(args) > 2 else kwargs.get("rtol", 1e-5)
    atol = args[3] if len(args) > 3 else kwargs.get("atol", 1e-8)
    if a.numel() == 0:
        return True
    c = ((a - b).abs() <= atol + rtol * b.abs()).all()
    return bool(c)


@h("zeros_like", "ones_like", "full_like", "empty_like", "new_zeros", "new_ones", "new_full", "new_empty", "new_empty_strided", "rand_like_")
def _like(func, args, kwargs):
    nm = func._schema.name.split("::")[1]
    x = args[0]
    dt = kwargs.get("dtype") or x.dtype
    shape = x.shape if nm.endswith("_like") else args[1]
    if nm.startswith("new_full"):
        v = args[2]
    elif nm == "full_like":
        v = args[1]
    elif "ones" in nm:
        v = 1
    else:
        v = 0
    if isinstance(v, torch.Tensor):
        v = v.item()
    if not dt.is_floating_point:
        return torch.full(tuple(shape), v, dtype=dt)
    idv = UNINIT if "empty" in nm else num_id(v, dt)
    if nm.endswith("_like") and x.dim():
        p = torch.empty_like(x.p)
        p.fill_(idv)
    else:
        p = torch.full(tuple(shape), idv, dtype=torch.int64)
    return wrap(p, dt)


@h("fill_")
def _fill(func, args, kwargs):
    x, v = args
    if isinstance(v, torch.Tensor):
        return write_back(x, v)
    if not is_sym(x):
        return func(x, v)
    x.p.fill_(num_id(v, x.dtype))
    return x


@h("fill")
def _fillf(func, args, kwargs):
    x, v = args
    vid = lift(v) if isinstance(v, torch.Tensor) else torch.tensor(num_id(v, x.dtype))
    return wrap(vid.expand(x.shape).clone(), x.dtype)


@h("zero_")
def _zero(func, args, kwargs):
    x = args[0]
    x.p.fill_(num_id(0, x.dtype))
    return x


@h("copy_")
def _copy(func, args, kwargs):
    return write_back(args[0], args[1])


@h("copy")
def _copyf(func, args, kwargs):
    x, s = args[0], args[1]
    return wrap(convert_payload(lift(s), s.dtype, x.dtype).expand(x.shape).clone(), x.dtype)


@h("set_", "resize_as_")
def _set(func, args, kwargs):
    raise Unsupported(str(func))


@h("masked_fill")
def _mfill(func, args, kwargs):
    x, m, v = args
    vid = lift(v) if isinstance(v, torch.Tensor) else torch.tensor(num_id(v, x.dtype))
    return wrap(ew(T.ite, lift(m), vid, lift(x)), x.dtype)


@h("masked_fill_")
def _mfill_(func, args, kwargs):
    return write_back(args[0], _mfill(func, args, kwargs))


@h("constant_pad_nd")
def _cpad(func, args, kwargs):
    x, pad = args[0], args[1]
    v = args[2] if len(args) > 2 else kwargs.get("value", 0)
    return wrap(func(x.p, pad, num_id(v, x.dtype)), x.dtype)


@h("tril", "triu")
def _tri(func, args, kwargs):
    x = args[0]
    m = func(torch.ones(x.shape, dtype=torch.int64), *args[1:], **kwargs).bool()
    return wrap(torch.where(m, lift(x), num_id(0, x.dtype)), x.dtype)


@h("diag_embed")
def _diag_embed(func, args, kwargs):
    x = args[0]
    m = func(torch.ones(x.shape, dtype=torch.int64), *args[1:], **kwargs).bool()
    return wrap(torch.where(m, func(lift(x), *args[1:], **kwargs), num_id(0, x.dtype)), x.dtype)


# ------------------------------------------------------------------ indexing
def _single_mask(indices):
    """the only index is a boolean mask in leading position"""
    return len(indices) == 1 and indices[0] is not None and indices[0].dtype == torch.bool


@h("index")
def _index(func, args, kwargs):
    x, idx = args[0], list(args[1])
    if any(is_sym(i) and i.dtype != torch.bool for i in idx if i is not None) and getattr(E.CUR, "index_mode", "fork") == "ite":
        r = _index_ite(x, idx)
        if r is not None:
            return r
    idx = [concretise_index(i) if i is not None else None for i in idx]
    if not is_sym(x):
        return func(x, idx)
    return wrap(func(x.p, idx), x.dtype)


def _index_ite(x, idx):
    """gather with symbolic integer indices as nested ite over all positions"""
    if any(i is None or i.dtype == torch.bool for i in idx):
        return None
    k = len(idx)
    px = lift(x)
    tail = px.shape[k:]
    ips = torch.broadcast_tensors(*[lift(i) for i in idx])
    oshape = ips[0].shape
    flat = [p.reshape(-1).tolist() for p in ips]
    src = px.reshape(tuple(px.shape[:k]) + (-1,))
    out = []
    for pos in zip(*flat):
        opts = [[((), T.TRUE)]]
        combos = [((), T.TRUE)]
        for d, t in enumerate(pos):
            n = px.shape[d]
            if T.is_const(t):
                v = int(T.cval(t))
                cand = [(v % n if v < 0 else v, T.TRUE)]
            else:
                cand = [(v, T.eq(t, T.const(v))) for v in range(n)]
            combos = [(c + (v,), T.and_(g, g2)) for c, g in combos for v, g2 in cand if T.and_(g, g2) != T.FALSE]
        rows = [(src[c].tolist(), g) for c, g in combos]
        res = list(rows[-1][0])
        for vals, g in rows[:-1]:
            res = [T.ite(g, a, b) for a, b in zip(vals, res)]
        out.append(res)
    return wrap(torch.tensor(out, dtype=torch.int64).reshape(tuple(oshape) + tuple(tail)), x.dtype)


@h("index_put_", "index_put", "_index_put_impl_", "_unsafe_index_put")
def _index_put(func, args, kwargs):
    x, idx, v = args[0], list(args[1]), args[2]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    inplace = func._schema.name.endswith("_")
    if not acc and _single_mask(idx) and is_sym(idx[0]) and v.numel() == 1 and is_sym(x):
        m = idx[0].p
        m = m.reshape(tuple(m.shape) + (1,) * (x.dim() - m.dim()))
        pv = convert_payload(lift(v), v.dtype, x.dtype).reshape(())
        r = ew(T.ite, m, pv, x.p)
        if inplace:
            x.p.copy_(r)
            return x
        return wrap(r, x.dtype)
    idx = [concretise_index(i) if i is not None else None for i in idx]
    if not is_sym(x):
        if is_sym(v):
            v = to_plain(v.to(x.dtype) if v.dtype != x.dtype else v)
        if inplace:
            return torch.ops.aten.index_put_.default(x, idx, v, acc)
        return torch.ops.aten.index_put.default(x, idx, v, acc)
    pv = convert_payload(lift(v), v.dtype, x.dtype)
    p = x.p if inplace else x.p.clone()
    if not acc:
        torch.ops.aten.index_put_.default(p, idx, pv, False)
    else:
        lin = torch.arange(p.numel()).reshape(p.shape)[tuple(slice(None) if i is None else i for i in idx)] if not any(i is None for i in idx) else torch.ops.aten.index.Tensor(torch.arange(p.numel()).reshape(p.shape), idx)
        pv = pv.expand(lin.shape)
        flat = p.reshape(-1).tolist()
        acc_ = {}
        for j, t in zip(lin.reshape(-1).tolist(), pv.reshape(-1).tolist()):
            acc_.setdefault(j, []).append(t)
        for j, ts in acc_.items():
            flat[j] = T.add_many([flat[j]] + ts)
        p.copy_(torch.tensor(flat, dtype=torch.int64).reshape(p.shape))
    return x if inplace else wrap(p, x.dtype)


@h("scatter.src", "scatter_.src", "scatter.value", "scatter_.value", "scatter_add", "scatter_add_", "scatter_reduce", "scatter_reduce_", "scatter.reduce", "scatter_.reduce")
def _scatter(func, args, kwargs):
    nm = func._schema.name.split("::")[1]
    x, dim, idx, src = args[0], args[1], concretise_index(args[2]), args[3]
    inplace = nm.endswith("_")
    red = args[4] if len(args) > 4 else kwargs.get("reduce")
    if "add" in nm:
        red = "sum"
    if not is_sym(x) and not is_sym(src) and not inplace:
        return func(x, dim, idx, src, *args[4:], **kwargs)
    if not is_sym(x):
        if inplace:
            s = to_plain(src) if isinstance(src, torch.Tensor) else src
            return func(x, dim, idx, s, *args[4:], **kwargs)
        x = sym(x)
    p = x.p if inplace else x.p.clone()
    ps = convert_payload(lift(src), src.dtype, x.dtype) if isinstance(src, torch.Tensor) else torch.full(idx.shape, num_id(src, x.dtype), dtype=torch.int64)
    ps = ps[tuple(slice(0, s) for s in idx.shape)] if ps.dim() else ps
    if red is None:
        p.scatter_(dim, idx, ps)
    else:
        fns = {"sum": T.add, "add": T.add, "prod": T.mul, "multiply": T.mul, "amax": T.max_, "amin": T.min_}
        if red not in fns:
            raise Unsupported(f"scatter reduce {red}")
        fn = fns[red]
        lin = torch.arange(p.numel()).reshape(p.shape)
        tgt = torch.gather(lin, dim, idx).reshape(-1).tolist() if idx.numel() else []
        # gather requires idx within other dims
        flat = p.reshape(-1).tolist()
        seen = set()
        inc = kwargs.get("include_self", True)
        for j, t in zip(tgt, ps.reshape(-1).tolist()):
            if not inc and j not in seen:
                flat[j] = t
            else:
                flat[j] = fn(flat[j], t)
            seen.add(j)
        p.copy_(torch.tensor(flat, dtype=torch.int64).reshape(p.shape))
    return x if inplace else wrap(p, x.dtype)


@h("index_add", "index_add_")
def _index_add(func, args, kwargs):
    x, dim, idx, src = args[0], args[1], concretise_index(args[2]), args[3]
    alpha = kwargs.get("alpha", 1)
    inplace = func._schema.name.endswith("_")
    if not is_sym(x):
        if inplace:
            return func(x, dim, idx, to_plain(src), alpha=alpha)
        x = sym(x)
    p = x.p if inplace else x.p.clone()
    a = num_id(alpha, x.dtype)
    pt = p.movedim(dim, 0) if p.dim() else p.reshape(1)
    st = lift(src).movedim(dim, 0) if p.dim() else lift(src).reshape(-1)
    for k, j in enumerate(idx.reshape(-1).tolist()):
        pt[j] = ew(lambda u, v: T.add(u, T.mul(a, v)), pt[j].clone(), st[k])
    return x if inplace else wrap(p, x.dtype)


@h("index_copy", "index_copy_")
def _index_copy(func, args, kwargs):
    x, dim, idx, src = args[0], args[1], concretise_index(args[2]), args[3]
    inplace = func._schema.name.endswith("_")
    x = sym(x)
    p = x.p if inplace else x.p.clone()
    p.index_copy_(dim, idx, lift(src))
    return x if inplace else wrap(p, x.dtype)


@h("index_fill", "index_fill_")
def _index_fill(func, args, kwargs):
    x, dim, idx, v = args[0], args[1], concretise_index(args[2]), args[3]
    inplace = func._schema.name.endswith("_")
    x = sym(x)
    p = x.p if inplace else x.p.clone()
    p.index_fill_(dim, idx, num_id(v, x.dtype) if not isinstance(v, torch.Tensor) else int(lift(v)))
    return x if inplace else wrap(p, x.dtype)


@h("gather")
def _gather(func, args, kwargs):
    x, dim, idx = args[0], args[1], args[2]
    if is_sym(idx) and getattr(E.CUR, "index_mode", "fork") == "ite" and x.dim():
        dim = dim % x.dim()
        px, pi = lift(x), idx.p
        n = px.shape[dim]
        pm = px.movedim(dim, -1)
        im = pi.movedim(dim, -1)
        pm = pm[tuple(slice(0, s) for s in im.shape[:-1])]
        rows = pm.reshape(-1, n).tolist()
        irows = im.reshape(len(rows), -1).tolist()
        out = []
        for r, ir in zip(rows, irows):
            o = []
            for t in ir:
                if T.is_const(t):
                    o.append(r[int(T.cval(t))])
                else:
                    v = r[n - 1]
                    for k in range(n - 2, -1, -1):
                        v = T.ite(T.eq(t, T.const(k)), r[k], v)
                    o.append(v)
            out.append(o)
        res = torch.tensor(out, dtype=torch.int64).reshape(im.shape).movedim(-1, dim)
        return wrap(res.contiguous(), x.dtype)
    idx = concretise_index(idx)
    if not is_sym(x):
        return func(x, dim, idx)
    return wrap(func(x.p, dim, idx), x.dtype)


@h("take_along_dim_")
def _tad(func, args, kwargs):
    return NotImplemented


@h("nonzero")
def _nonzero(func, args, kwargs):
    x = args[0]
    p = wrap(ew(T.to_bool, lift(x)), torch.bool)
    return torch.nonzero(to_plain(p))


@h("masked_scatter", "masked_scatter_")
def _mscatter(func, args, kwargs):
    x, m, s = args
    m = concretise_index(m)
    inplace = func._schema.name.endswith("_")
    x2 = sym(x)
    p = x2.p if inplace and is_sym(x) else x2.p.clone()
    p.masked_scatter_(m, lift(s))
    return x if inplace and is_sym(x) else wrap(p, x2.dtype)


@h("masked_select")
def _mselect(func, args, kwargs):
    x, m = args
    m = concretise_index(m)
    return wrap(torch.masked_select(lift(x), m), x.dtype)


@h("repeat_interleave.self_Tensor")
def _ri(func, args, kwargs):
    x, r = args[0], to_plain(args[1])
    dim = args[2] if len(args) > 2 else kwargs.get("dim")
    return wrap(torch.repeat_interleave(lift(x), r, dim=dim), x.dtype)


@h("repeat_interleave.Tensor")
def _ri2(func, args, kwargs):
    return torch.repeat_interleave(to_plain(args[0]))


@h("select_backward")
def _selb(func, args, kwargs):
    g, sizes, dim, index = args
    p = torch.full(tuple(sizes), T.ZERO, dtype=torch.int64)
    p.select(dim, index).copy_(lift(g))
    return wrap(p, g.dtype)


@h("slice_backward")
def _slb(func, args, kwargs):
    g, sizes, dim, st, en, step = args
    p = torch.full(tuple(sizes), T.ZERO, dtype=torch.int64)
    torch.ops.aten.slice.Tensor(p, dim, st, en, step).copy_(lift(g))
    return wrap(p, g.dtype)


@h("embedding")
def _emb(func, args, kwargs):
    w, idx = args[0], concretise_index(args[1])
    return wrap(lift(w)[idx], w.dtype)


@h("value_selecting_reduction_backward")
def _vsrb(func, args, kwargs):
    grad, dim, idx, sizes, keepdim = args
    dt = grad.dtype
    if not keepdim and len(sizes) > 0:
        grad, idx = grad.unsqueeze(dim), idx.unsqueeze(dim)
    pi, pg = lift(idx), lift(grad)
    n = sizes[dim]
    outs = [ew(lambda i, g: T.ite(T.eq(i, T.const(k)), g, T.ZERO), pi, pg) for k in range(n)]
    return wrap(torch.cat(outs, dim), dt)


# ------------------------------------------------------------------ reductions
def red(p, dim, keepdim, fn, empty=None):
    """reduce payload over dims with fn(list)->id"""
    nd = p.dim()
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        dims = list(range(nd))
    elif isinstance(dim, int):
        dims = [dim % max(nd, 1)]
    else:
        dims = [d % max(nd, 1) for d in dim]
    if nd == 0:
        return torch.tensor(fn([int(p)]))
    keep = [d for d in range(nd) if d not in dims]
    q = p.permute(keep + dims)
    ks = [p.shape[d] for d in keep]
    n = 1
    for d in dims:
        n *= p.shape[d]
    m = 1
    for k in ks:
        m *= k
    if m == 0:
        out = torch.zeros(ks, dtype=torch.int64)
    elif n == 0:
        if empty is None:
            raise RuntimeError("reduction of an empty dimension without identity")
        out = torch.full(ks, empty, dtype=torch.int64)
    else:
        out = torch.tensor([fn(r) for r in q.reshape(m, n).tolist()], dtype=torch.int64).reshape(ks)
    if keepdim:
        for d in sorted(dims):
            out = out.unsqueeze(d)
    return out


def _rargs(func, args, kwargs):
    s = func._schema
    d = {}
    for a, v in zip([x.name for x in s.arguments], args):
        d[a] = v
    d.update(kwargs)
    return d


def numeric(x):
    p = lift(x)
    return ew(T.to_num, p) if x.dtype == torch.bool else p


@h("sum", "nansum")
def _sum(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    x = args[0]
    dt = a.get("dtype") or (torch.int64 if not x.dtype.is_floating_point else x.dtype)
    return wrap(red(numeric(x), a.get("dim"), a.get("keepdim", False), T.add_many, T.ZERO), dt)


@h("mean")
def _mean(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    x = args[0]
    return wrap(red(numeric(x), a.get("dim"), a.get("keepdim", False), lambda r: T.scale(T.add_many(r), F(1, len(r))), T.special("nan")), fdt(x.dtype))


def _prodl(r):
    o = T.ONE
    for t in r:
        o = T.mul(o, t)
    return o


@h("prod")
def _prod(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    x = args[0]
    dt = a.get("dtype") or (torch.int64 if not x.dtype.is_floating_point else x.dtype)
    return wrap(red(numeric(x), a.get("dim"), a.get("keepdim", False), _prodl, T.ONE), dt)


def _maxl(r):
    o = r[0]
    for t in r[1:]:
        o = T.max_(o, t)
    return o


def _minl(r):
    o = r[0]
    for t in r[1:]:
        o = T.min_(o, t)
    return o


def _argl(r, better):
    """(value, index term) first best"""
    v, i = r[0], T.ZERO
    for k in range(1, len(r)):
        c = better(r[k], v)
        v, i = T.ite(c, r[k], v), T.ite(c, T.const(k), i)
    return v, i


@h("amax", "amin")
def _amax(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    f = _maxl if func._schema.name.endswith("max") else _minl
    return wrap(red(numeric(args[0]), a.get("dim"), a.get("keepdim", False), f), args[0].dtype)


@h("aminmax")
def _aminmax(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    p = numeric(args[0])
    return (wrap(red(p, a.get("dim"), a.get("keepdim", False), _minl), args[0].dtype), wrap(red(p, a.get("dim"), a.get("keepdim", False), _maxl), args[0].dtype))


@h("max", "min")
def _max(func, args, kwargs):
    nm = func._schema.name.split("::")[1]
    ov = func._overloadname
    if ov == "other":
        return HANDLERS["maximum" if nm == "max" else "minimum"](func, args, kwargs)
    x = args[0]
    p = numeric(x)
    if ov in ("default", ""):
        return wrap(red(p, None, False, _maxl if nm == "max" else _minl), x.dtype)
    a = _rargs(func, args, kwargs)
    better = T.gt if nm == "max" else T.lt
    fn = lambda r: _argl(r, better)
    v = red(p, a["dim"], a.get("keepdim", False), lambda r: fn(r)[0])
    i = red(p, a["dim"], a.get("keepdim", False), lambda r: fn(r)[1])
    it = wrap(i, torch.int64)
    return torch.return_types.max((wrap(v, x.dtype), it)) if nm == "max" else torch.return_types.min((wrap(v, x.dtype), it))


@h("argmax", "argmin")
def _argmax(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    better = T.gt if func._schema.name.endswith("max") else T.lt
    p = numeric(args[0])
    if a.get("dim") is None:
        p = p.reshape(-1)
        r = red(p, 0, False, lambda r: _argl(r, better)[1])
        return wrap(r, torch.int64)
    return wrap(red(p, a["dim"], a.get("keepdim", False), lambda r: _argl(r, better)[1]), torch.int64)


@h("any", "all")
def _any(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    isany = func._schema.name.endswith("any")
    f = T.or_ if isany else T.and_
    p = ew(T.to_bool, lift(args[0]))
    return wrap(red(p, a.get("dim"), a.get("keepdim", False), lambda r: f(*r), T.FALSE if isany else T.TRUE), torch.bool)


@h("cumsum", "cumprod")
def _cum(func, args, kwargs):
    x, dim = args[0], args[1]
    f = T.add if func._schema.name.endswith("sum") else T.mul
    p = numeric(x)
    if p.dim() == 0 or p.numel() == 0:
        return wrap(p.clone(), x.dtype)
    q = p.movedim(dim, -1)
    rows = q.reshape(-1, q.shape[-1]).tolist()
    out = []
    for r in rows:
        o, acc = [], None
        for t in r:
            acc = t if acc is None else f(acc, t)
            o.append(acc)
        out.append(o)
    dt = x.dtype if x.dtype.is_floating_point else torch.int64
    return wrap(torch.tensor(out, dtype=torch.int64).reshape(q.shape).movedim(-1, dim).contiguous(), dt)


@h("cummax", "cummin")
def _cummax(func, args, kwargs):
    raise Unsupported(str(func))


def _varl(r, corr):
    n = len(r)
    m = T.scale(T.add_many(r), F(1, n))
    s = T.add_many([T.mul(T.sub(t, m), T.sub(t, m)) for t in r])
    return T.scale(s, F(1, n - corr)) if n - corr > 0 else T.special("nan")


@h("var", "std", "var.correction", "std.correction")
def _var(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    corr = a.get("correction", 1 if a.get("unbiased", True) else 0)
    corr = 1 if corr is None else int(corr)
    sq = func._schema.name.endswith("std")
    f = (lambda r: T.sqrt(_varl(r, corr))) if sq else (lambda r: _varl(r, corr))
    return wrap(red(numeric(args[0]), a.get("dim"), a.get("keepdim", False), f), args[0].dtype)


def _norml(r, o):
    if o == 2:
        return T.sqrt(T.add_many([T.mul(t, t) for t in r]))
    if o == 1:
        return T.add_many([T.abs_(t) for t in r])
    if o == math.inf:
        return _maxl([T.abs_(t) for t in r])
    if o == -math.inf:
        return _minl([T.abs_(t) for t in r])
    raise Unsupported(f"norm {o}")


@h("linalg_vector_norm", "norm")
def _norm(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    o = a.get("ord", a.get("p", 2))
    o = 2 if o is None else float(o)
    return wrap(red(numeric(args[0]), a.get("dim"), a.get("keepdim", False), lambda r: _norml(r, o), T.ZERO), args[0].dtype)


@h("logsumexp")
def _lse(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    return wrap(red(numeric(args[0]), a.get("dim"), a.get("keepdim", False), lambda r: T.log(T.add_many([T.exp(t) for t in r]))), args[0].dtype)


@h("_softmax", "softmax")
def _softmax(func, args, kwargs):
    x, dim = args[0], args[1]
    p = lift(x)
    e = ew(T.exp, p)
    s = red(e, dim, True, T.add_many)
    return wrap(ew(T.div, e, s), x.dtype)


@h("count_nonzero")
def _cnz(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    p = ew(lambda t: T.to_num(T.to_bool(t)), lift(args[0]))
    return wrap(red(p, a.get("dim"), False, T.add_many, T.ZERO), torch.int64)


# ------------------------------------------------------------------ sorting (forks)
def _less(a, b):
    c = T.lt(a, b)
    if c in (T.TRUE, T.FALSE):
        return c == T.TRUE
    return E.CUR.branch(c)


def sort_ids(r, descending=False):
    """stable insertion sort by forking; returns index order"""
    order = []
    for i in range(len(r)):
        j = len(order)
        while j > 0:
            a, b = r[i], r[order[j - 1]]
            if (_less(b, a) if descending else _less(a, b)):
                j -= 1
            else:
                break
        order.insert(j, i)
    return order


@h("sort", "argsort", "msort")
def _sort(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    x = args[0]
    dim, desc = a.get("dim", -1), a.get("descending", False)
    p = numeric(x)
    nm = func._schema.name.split("::")[1]
    if p.dim() == 0:
        v, i = p.clone(), torch.zeros((), dtype=torch.int64)
    else:
        q = p.movedim(dim, -1)
        rows = q.reshape(-1, q.shape[-1]).tolist() if q.numel() else []
        ords = [sort_ids(r, desc) for r in rows]
        v = torch.tensor([[r[k] for k in o] for r, o in zip(rows, ords)], dtype=torch.int64).reshape(q.shape).movedim(-1, dim).contiguous()
        i = torch.tensor(ords, dtype=torch.int64).reshape(q.shape).movedim(-1, dim).contiguous()
    if nm == "argsort":
        return i
    return wrap(v, x.dtype), i


@h("topk")
def _topk(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    x, k = args[0], args[1]
    dim, largest = a.get("dim", -1), a.get("largest", True)
    q = numeric(x).movedim(dim, -1)
    rows = q.reshape(-1, q.shape[-1]).tolist()
    ords = [sort_ids(r, largest)[:k] for r in rows]
    sh = tuple(q.shape[:-1]) + (k,)
    v = torch.tensor([[r[j] for j in o] for r, o in zip(rows, ords)], dtype=torch.int64).reshape(sh).movedim(-1, dim).contiguous()
    i = torch.tensor(ords, dtype=torch.int64).reshape(sh).movedim(-1, dim).contiguous()
    return wrap(v, x.dtype), i


@h("median")
def _median(func, args, kwargs):
    if func._overloadname not in ("default", ""):
        raise Unsupported(str(func))
    r = ids_of(args[0])
    o = sort_ids(r)
    return from_ids([r[o[(len(r) - 1) // 2]]], (), args[0].dtype)


@h("searchsorted.Tensor")
def _searchsorted(func, args, kwargs):
    seq, v = args[0], args[1]
    right = kwargs.get("right", False) or kwargs.get("side") == "right"
    ps, pv = lift(seq), lift(v)
    if ps.dim() == 1:
        rows = [ps.tolist()] * (pv.numel() // max(pv.shape[-1] if pv.dim() else 1, 1))
    else:
        rows = ps.reshape(-1, ps.shape[-1]).tolist()
    vr = pv.reshape(len(rows), -1).tolist()
    f = T.le if right else T.lt
    out = [[T.add_many([T.to_num(f(s, t)) for s in r]) for t in q] for r, q in zip(rows, vr)]
    return wrap(torch.tensor(out, dtype=torch.int64).reshape(pv.shape), torch.int64)


@h("unique_dim", "_unique2", "unique_consecutive", "bincount", "unique_dim_consecutive", "histc")
def _uniq(func, args, kwargs):
    return func(*[to_plain(a) if isinstance(a, torch.Tensor) else a for a in args], **kwargs)


# ------------------------------------------------------------------ linear algebra
def _dot(u, v):
    return T.add_many([T.mul(a, b) for a, b in zip(u, v) if a != T.ZERO and b != T.ZERO])


def matmul_p(a, b):
    """(B,n,k) x (B,k,m)"""
    B, n, k = a.shape
    m = b.shape[2]
    if B * n * m == 0:
        return torch.zeros((B, n, m), dtype=torch.int64)
    if k == 0:
        return torch.full((B, n, m), T.ZERO, dtype=torch.int64)
    al, bl = a.tolist(), b.transpose(1, 2).tolist()
    return torch.tensor([[[_dot(r, c) for c in bl[i]] for r in al[i]] for i in range(B)], dtype=torch.int64)


@h("bmm")
def _bmm(func, args, kwargs):
    a, b = args
    if a.shape[2] != b.shape[1] or a.shape[0] != b.shape[0]:
        raise RuntimeError("bmm shape mismatch %s %s" % (tuple(a.shape), tuple(b.shape)))
    return wrap(matmul_p(lift(a), lift(b)), a.dtype)


@h("mm")
def _mm(func, args, kwargs):
    a, b = args
    if isinstance(a, torch.Tensor) and a.is_sparse:
        return _sparse_mm(a, b)
    if a.shape[1] != b.shape[0]:
        raise RuntimeError("mm shape mismatch %s %s" % (tuple(a.shape), tuple(b.shape)))
    return wrap(matmul_p(lift(a)[None], lift(b)[None])[0], a.dtype)


@h("mv")
def _mv(func, args, kwargs):
    a, b = args
    return wrap(matmul_p(lift(a)[None], lift(b)[None, :, None])[0, :, 0], a.dtype)


@h("dot", "vdot")
def _dot_h(func, args, kwargs):
    a, b = args
    return from_ids([_dot(ids_of(a), ids_of(b))], (), a.dtype)


@h("addmm")
def _addmm(func, args, kwargs):
    c, a, b = args
    be, al = num_id(kwargs.get("beta", 1), a.dtype), num_id(kwargs.get("alpha", 1), a.dtype)
    m = matmul_p(lift(a)[None], lift(b)[None])[0]
    return wrap(ew(lambda x, y: T.add(T.mul(be, x), T.mul(al, y)), lift(c), m), a.dtype)


@h("baddbmm", "addbmm")
def _baddbmm(func, args, kwargs):
    c, a, b = args
    if func._schema.name.endswith("addbmm") and not func._schema.name.endswith("baddbmm"):
        raise Unsupported("addbmm")
    be, al = num_id(kwargs.get("beta", 1), a.dtype), num_id(kwargs.get("alpha", 1), a.dtype)
    m = matmul_p(lift(a), lift(b))
    return wrap(ew(lambda x, y: T.add(T.mul(be, x), T.mul(al, y)), lift(c), m), a.dtype)


def det_ids(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return T.sub(T.mul(m[0][0], m[1][1]), T.mul(m[0][1], m[1][0]))
    r = T.ZERO
    for j in range(n):
        if m[0][j] == T.ZERO:
            continue
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = T.mul(m[0][j], det_ids(minor))
        r = T.add(r, t if j % 2 == 0 else T.neg(t))
    return r


def inv_ids(m):
    n = len(m)
    d = T.inv(det_ids(m)) if n > 1 else T.inv(m[0][0])
    if n == 1:
        return [[d]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
            c = det_ids(minor)
            if (i + j) % 2:
                c = T.neg(c)
            out[j][i] = T.mul(c, d)
    return out


def _batched(x, k=2):
    p = lift(x)
    return p.reshape((-1,) + tuple(p.shape[p.dim() - k:])).tolist(), p.shape


@h("linalg_inv_ex", "inverse", "linalg_inv")
def _inv(func, args, kwargs):
    x = args[0]
    ms, shape = _batched(x)
    if shape[-1] > 4:
        raise Unsupported("inverse larger than 4x4")
    r = wrap(torch.tensor([inv_ids(m) for m in ms], dtype=torch.int64).reshape(shape), x.dtype)
    if func._schema.name.endswith("_ex"):
        return r, torch.zeros(tuple(shape[:-2]), dtype=torch.int32)
    return r


@h("_linalg_det", "det", "linalg_det")
def _det(func, args, kwargs):
    x = args[0]
    ms, shape = _batched(x)
    r = wrap(torch.tensor([det_ids(m) for m in ms], dtype=torch.int64).reshape(shape[:-2]), x.dtype)
    if func._schema.name.endswith("_linalg_det"):
        return r, x, torch.zeros(tuple(shape[:-1]), dtype=torch.int32)
    return r


@h("linalg_solve", "_linalg_solve_ex", "linalg_solve_ex")
def _solve(func, args, kwargs):
    A, B = args[0], args[1]
    left = kwargs.get("left", True)
    if not left:
        raise Unsupported("solve left=False")
    ms, shape = _batched(A)
    vec = B.dim() == A.dim() - 1
    Bp = lift(B)
    if vec:
        Bp = Bp.unsqueeze(-1)
    ai = torch.tensor([inv_ids(m) for m in ms], dtype=torch.int64)
    bp = Bp.expand(tuple(shape[:-2]) + tuple(Bp.shape[-2:])).reshape((-1,) + tuple(Bp.shape[-2:]))
    r = matmul_p(ai, bp).reshape(tuple(shape[:-2]) + tuple(Bp.shape[-2:]))
    if vec:
        r = r.squeeze(-1)
    w = wrap(r, A.dtype)
    if func._schema.name.endswith("_linalg_solve_ex"):  # result, LU, pivots, info (the LU factors only serve the backward)
        return w, torch.zeros(tuple(shape), dtype=A.dtype), torch.zeros(tuple(shape[:-1]), dtype=torch.int32), torch.zeros(tuple(shape[:-2]), dtype=torch.int32)
    if func._schema.name.endswith("_ex"):
        return w, torch.zeros(tuple(shape[:-2]), dtype=torch.int32)
    return w


@h("linalg_cross", "cross")
def _cross(func, args, kwargs):
    a, b = args[0], args[1]
    dim = args[2] if len(args) > 2 else kwargs.get("dim", -1)
    if dim is None:
        dim = [i for i, s in enumerate(a.shape) if s == 3][0]
    pa, pb = torch.broadcast_tensors(lift(a), lift(b))
    a0, a1, a2 = pa.unbind(dim)
    b0, b1, b2 = pb.unbind(dim)
    c = lambda p, q, r, s: ew(lambda x, y, z, w: T.sub(T.mul(x, y), T.mul(z, w)), p, q, r, s)
    return wrap(torch.stack([c(a1, b2, a2, b1), c(a2, b0, a0, b2), c(a0, b1, a1, b0)], dim), a.dtype)


@h("_cdist_forward", "cdist")
def _cdist(func, args, kwargs):
    a, b = args[0], args[1]
    pw = args[2] if len(args) > 2 else 2.0
    pa, pb = lift(a), lift(b)
    d = ew(T.sub, pa.unsqueeze(-2), pb.unsqueeze(-3))
    return wrap(red(d, -1, False, lambda r: _norml(r, pw)), a.dtype)


@h("_linalg_svd", "linalg_svd", "svd")
def _svd(func, args, kwargs):
    hook = getattr(E.CUR, "svd_hook", None)
    if hook is None:
        raise Unsupported("svd")
    return hook(func, args, kwargs)


@h("_linalg_eigh", "linalg_eigh")
def _eigh(func, args, kwargs):
    hook = getattr(E.CUR, "eigh_hook", None)
    if hook is None:
        raise Unsupported("eigh")
    return hook(func, args, kwargs)


# ------------------------------------------------------------------ sparse (coo) as a python object
class SymSparse:
    pass


def _sparse_mm(a, b):
    raise Unsupported("sparse mm")


# ------------------------------------------------------------------ convolution / pooling
@h("convolution")
def _conv(func, args, kwargs):
    x, w, bias, stride, padding, dilation, transposed, outpad, groups = args
    if transposed:
        raise Unsupported("transposed convolution")
    nd = x.dim() - 2
    ex = lambda v: list(v) * nd if len(v) == 1 else list(v)
    stride, padding, dilation = ex(stride), ex(padding), ex(dilation)
    px, pw = lift(x), lift(w)
    if any(padding):
        pad = []
        for q in reversed(padding):
            pad += [q, q]
        px = torch.nn.functional.pad(px, pad, value=T.ZERO)
    N, C = px.shape[:2]
    O = pw.shape[0]
    ks = list(pw.shape[2:])
    osz = [(px.shape[2 + i] - dilation[i] * (ks[i] - 1) - 1) // stride[i] + 1 for i in range(nd)]
    import itertools

    cg, og = C // groups, O // groups
    out = torch.empty([N, O] + osz, dtype=torch.int64)
    xl, wl = px.numpy(), pw.numpy()
    koff = list(itertools.product(*[range(k) for k in ks]))
    for pos in itertools.product(*[range(s) for s in osz]):
        for n in range(N):
            for o in range(O):
                g = o // og
                ts = []
                for c in range(cg):
                    for k in koff:
                        wv = int(wl[(o, c) + k])
                        if wv == T.ZERO:
                            continue
                        xv = int(xl[(n, g * cg + c) + tuple(pos[i] * stride[i] + k[i] * dilation[i] for i in range(nd))])
                        ts.append(T.mul(wv, xv))
                if bias is not None:
                    ts.append(int(lift(bias)[o]))
                out[(n, o) + pos] = T.add_many(ts)
    return wrap(out, x.dtype)


@h("avg_pool1d", "avg_pool2d", "avg_pool3d", "max_pool2d_with_indices", "max_pool3d_with_indices")
def _pool(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    nm = func._schema.name.split("::")[1]
    nd = 3 if "3d" in nm else (2 if "2d" in nm else 1)
    x = args[0]
    ex = lambda v: list(v) * nd if len(v) == 1 else list(v)
    ks = ex(a["kernel_size"])
    st = ex(a["stride"]) if a.get("stride") else ks
    pd = ex(a.get("padding") or [0])
    isavg = nm.startswith("avg")
    p = lift(x)
    if any(pd):
        pad = []
        for q in reversed(pd):
            pad += [q, q]
        p = torch.nn.functional.pad(p, pad, value=T.ZERO if isavg else T.const(-T.BIG))
    for i in range(nd):
        p = p.unfold(x.dim() - nd + i, ks[i], st[i])
    f = (lambda r: T.scale(T.add_many(r), F(1, len(r)))) if isavg else _maxl
    r = wrap(red(p, list(range(p.dim() - nd, p.dim())), False, f), x.dtype)
    if isavg:
        return r
    return r, torch.zeros(r.shape, dtype=torch.int64)


@h("im2col")
def _im2col(func, args, kwargs):
    a = _rargs(func, args, kwargs)
    x, ks, dl, pd, st = args[0], a["kernel_size"], a["dilation"], a["padding"], a["stride"]
    if list(dl) != [1, 1]:
        raise Unsupported("im2col with dilation")
    p = lift(x)
    batched = p.dim() == 4
    if not batched:
        p = p[None]
    p = torch.nn.functional.pad(p, [pd[1], pd[1], pd[0], pd[0]], value=T.ZERO)
    p = p.unfold(2, ks[0], st[0]).unfold(3, ks[1], st[1])  # (N, C, H', W', kh, kw)
    N, C = p.shape[:2]
    p = p.permute(0, 1, 4, 5, 2, 3).reshape(N, C * ks[0] * ks[1], -1)
    return wrap(p if batched else p[0], x.dtype)


# ------------------------------------------------------------------ grid sampling
def _gs_coord(x, size, align):
    s = T.const(size)
    if align:
        return T.mul(T.scale(T.add(x, T.ONE), F(1, 2)), T.const(size - 1))
    return T.scale(T.sub(T.mul(T.add(x, T.ONE), s), T.ONE), F(1, 2))


def _reflect(x, lo2, hi2):
    if lo2 == hi2:
        return T.ZERO
    lo, span = T.const(F(lo2, 2)), T.const(F(hi2 - lo2, 2))
    x = T.abs_(T.sub(x, lo))
    flips = T.floor(T.div(x, span))
    extra = T.sub(x, T.mul(flips, span))
    even = T.eq(T.sub(flips, T.scale(T.floor(T.scale(flips, F(1, 2))), F(2))), T.ZERO)
    return T.ite(even, T.add(extra, lo), T.add(T.sub(span, extra), lo))


def grid_sample_ids(px, pg, mode, padding, align):
    """px (N,C,*spatial) payload, pg (N,*out,nd): returns payload (N,C,*out). piecewise: weights as hat functions"""
    import itertools

    nd = px.dim() - 2
    N, C = px.shape[:2]
    sizes = list(px.shape[2:])
    outsh = list(pg.shape[1:-1])
    gl = pg.reshape(N, -1, nd).tolist()
    xl = px.reshape(N, C, -1).tolist()
    res = []
    memo = {}

    def axis_weights(t, size):
        k = (t, size)
        if k in memo:
            return memo[k]
        c = _gs_coord(t, size, align)
        if padding == 1:
            c = T.min_(T.max_(c, T.ZERO), T.const(size - 1))
        elif padding == 2:
            c = _reflect(c, 0, 2 * (size - 1)) if align else _reflect(c, -1, 2 * size - 1)
            c = T.min_(T.max_(c, T.ZERO), T.const(size - 1))
        ws = []
        if mode == 1:
            rc = T.round_half_even(c)
            for i in range(size):
                ws.append(T.ite(T.eq(rc, T.const(i)), T.ONE, T.ZERO))
        else:
            for i in range(size):
                d = T.sub(c, T.const(i))
                # hat: max(0, 1-|d|)
                w = T.ite(T.lt0(d), T.add(T.ONE, d), T.sub(T.ONE, d))
                ws.append(T.max_(T.ZERO, w))
        memo[k] = ws
        return ws

    for n in range(N):
        chans = [[] for _ in range(C)]
        for g in gl[n]:
            # g = (x, y[, z]); spatial order is reversed
            ws = [axis_weights(g[nd - 1 - d], sizes[d]) for d in range(nd)]
            combos = []
            for flat, pos in enumerate(itertools.product(*[range(s) for s in sizes])):
                w = T.ONE
                for d in range(nd):
                    w = T.mul(w, ws[d][pos[d]])
                    if w == T.ZERO:
                        break
                if w != T.ZERO:
                    combos.append((flat, w))
            for c in range(C):
                row = xl[n][c]
                chans[c].append(T.add_many([T.mul(w, row[f]) for f, w in combos]))
        res.append(chans)
    return torch.tensor(res, dtype=torch.int64).reshape([N, C] + outsh)


@h("grid_sampler_2d", "grid_sampler_3d", "grid_sampler")
def _grid(func, args, kwargs):
    x, g, mode, pad, align = args
    if mode not in (0, 1):
        raise Unsupported("bicubic grid_sample")
    if x.shape[0] != g.shape[0]:
        raise RuntimeError("grid_sampler batch mismatch")
    return wrap(grid_sample_ids(lift(x), lift(g), mode, pad, align), x.dtype)


@h("upsample_bilinear2d", "upsample_nearest2d", "upsample_nearest2d.vec", "upsample_bilinear2d.vec", "upsample_trilinear3d", "upsample_nearest3d", "upsample_nearest1d", "upsample_linear1d")
def _upsample(func, args, kwargs):
    """linear in the input: get the matrix from the real op on unit vectors"""
    x = args[0]
    nd = x.dim() - 2
    n = 1
    for s in x.shape[2:]:
        n *= s
    eye = torch.eye(n, dtype=torch.float64).reshape([n, 1] + list(x.shape[2:]))
    m = func(eye, *args[1:], **kwargs)
    osh = m.shape[2:]
    M = m.reshape(n, -1).T.tolist()  # out x in
    Mi = [[(j, T.const(F(v).limit_denominator(10**6))) for j, v in enumerate(r) if abs(v) > 1e-12] for r in M]
    rows = lift(x).reshape(-1, n).tolist()
    out = [[T.add_many([T.mul(w, r[j]) for j, w in mi]) for mi in Mi] for r in rows]
    return wrap(torch.tensor(out, dtype=torch.int64).reshape(list(x.shape[:2]) + list(osh)), x.dtype)


# ------------------------------------------------------------------------- sparse COO matrices are represented densely
@h("_sparse_coo_tensor_with_dims_and_tensors", "_sparse_coo_tensor_unsafe")
def _sparse_coo(func, args, kwargs):
    if "unsafe" in func._schema.name:
        idx, val, size = args[0], args[1], args[2]
    else:
        size, idx, val = args[2], args[3], args[4]
    idx = concretise_index(idx)
    val = val if is_sym(val) else sym(val)
    p = torch.full(tuple(size), T.ZERO, dtype=torch.int64)
    k = idx.shape[0]
    for j in range(idx.shape[1]):
        at = tuple(int(i) for i in idx[:, j])
        if any(i < 0 or i >= s for i, s in zip(at, size)):
            raise RuntimeError("sparse index out of range")
        if p.dim() == k:
            p[at] = T.add(int(p[at]), int(val.p[j]))
        else:
            q = p[at].reshape(-1)
            s = val.p[j].reshape(-1)
            p[at] = torch.tensor([T.add(int(a), int(b)) for a, b in zip(q, s)]).reshape(p[at].shape)
    return wrap(p, val.dtype)


@h("_sparse_sum.dim", "_sparse_sum")
def _sparse_sum(func, args, kwargs):
    dims = args[1] if len(args) > 1 else None
    return args[0].sum() if dims is None else args[0].sum(dims)


@h("_validate_sparse_coo_tensor_args")
def _sparse_ok(func, args, kwargs):
    return None


@h("to_sparse", "_to_sparse", "to_sparse.sparse_dim", "_to_sparse.sparse_dim", "_to_dense", "coalesce", "_coalesce")
def _same_dense(func, args, kwargs):
    return args[0]


@h("_sparse_mm", "sspaddmm")
def _sparse_mm(func, args, kwargs):
    return args[0] @ args[1]
