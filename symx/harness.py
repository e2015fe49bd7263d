"""Case registry and the context handed to harness functions, in symbolic and in concrete (replay) mode."""
import math
import os
import sys
import time
from fractions import Fraction as F

import numpy as np
import torch

from . import explore as E
from . import terms as T
from .explore import PathEnd, Unsupported  # noqa: F401

CASES = []
REPO = os.environ.get("PT3D_REPO", "/repo")


class Case:
    def __init__(self, name, fn, kw):
        self.name, self.fn = name, fn
        self.dtype = kw.pop("dtype", "float64")
        self.cpp = kw.pop("cpp", False)
        self.budget = kw.pop("budget", 120)
        self.tier = kw.pop("tier", "quick")
        self.bounds = kw.pop("bounds", "")
        self.max_paths = kw.pop("max_paths", 5000)
        self.prove_ms = kw.pop("prove_ms", 10000)
        self.feas_ms = kw.pop("feas_ms", 2000)
        self.max_splits = kw.pop("max_splits", 400)
        self.validate = kw.pop("validate", 3)
        self.tol = kw.pop("tol", None)
        self.expect_raise = kw.pop("expect_raise", None)
        self.known = kw.pop("known", None)
        self.weight = kw.pop("weight", 1)
        self.opts = kw


def case(name=None, **kw):
    """register a harness; `params` expands into one case per parameter tuple/dict"""
    params = kw.pop("params", None)

    def deco(fn):
        base = name or fn.__name__
        if params is None:
            CASES.append(Case(base, fn, dict(kw)))
        else:
            for p in params:
                k = dict(kw)
                if isinstance(p, dict):
                    q = dict(p)
                    extra = q.pop("_case", {})
                    k.update(extra)
                    args, kws = (), q
                    label = ",".join(f"{a}={_lab(b)}" for a, b in q.items())
                else:
                    if not isinstance(p, tuple):
                        p = (p,)
                    args, kws = p, {}
                    label = ",".join(_lab(b) for b in p)
                CASES.append(Case(f"{base}[{label}]", (lambda ctx, a=args, kk=kws: fn(ctx, *a, **kk)), k))
        return fn

    return deco


def _lab(b):
    if callable(b) and hasattr(b, "__name__"):
        return b.__name__
    return str(b).replace(" ", "")


# ============================================================================ shared helpers
def _numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class Sym:
    """symbolic harness context (wraps the path context)"""

    symbolic = True

    def __init__(self, p, case):
        self.p = p
        self.case = case
        self.dtype = getattr(torch, case.dtype)
        self.obs = []  # (name, list of ids)
        self.reached = 0
        p.harness = self
        T.EPS0 = case.opts.get("eps0", False)
        for k, v in case.opts.items():
            setattr(p, k, v)

    # ---------------------------------------------------------------- inputs
    def real(self, name, shape=(), lo=None, hi=None, strict=False, grad=False, dtype=None):
        from .tensor import from_ids

        if isinstance(shape, int):
            shape = (shape,)
        ids = self.p.real_ids(name, _numel(shape), lo, hi, strict)
        t = from_ids(ids, tuple(shape), dtype or self.dtype)
        if grad:
            t.requires_grad_(True)
        return t

    def integer(self, name, shape=(), lo=0, hi=1):
        """symbolic integers (inclusive range)"""
        from .tensor import from_ids

        if isinstance(shape, int):
            shape = (shape,)
        ids = self.p.real_ids(name, _numel(shape), lo, hi, sort="I")
        return from_ids(ids, tuple(shape), torch.int64)

    def boolean(self, name, shape=()):
        from .tensor import from_ids

        if isinstance(shape, int):
            shape = (shape,)
        ids = [self.p._newvar(f"{name}[{i}]", "B", self.p._sampler(0, 1, "B")) for i in range(_numel(shape))]
        return from_ids(ids, tuple(shape), torch.bool)

    def pick(self, name, options):
        return self.p.pick(name, options)

    def unit(self, name, n, extra_shape=()):
        """unit vectors (..., n): n free reals with sum of squares == 1 (sampled on the sphere)"""
        from .tensor import from_ids

        m = _numel(extra_shape)
        ids = []
        for j in range(m):
            row = self.p.real_ids(f"{name}.{j}", n, -1, 1)
            vals = self.p.rng.randn(n, E.NS)
            vals = vals / np.linalg.norm(vals, axis=0)
            for v, x in zip(row, vals):
                self.p.env[v] = x
            self.p.memo = {}
            self._exact(T.eq(T.add_many([T.mul(a, a) for a in row]), T.ONE))
            ids += row
        return from_ids(ids, tuple(extra_shape) + (n,), self.dtype)

    def _exact(self, c):
        """assume an equation that the samples satisfy up to rounding"""
        al = self.p.alive.copy()
        self.p.assume_id(c)
        self.p.alive = al

    def rotation(self, name, extra_shape=()):
        """arbitrary rotation matrices, parameterised by unit quaternions: returns (R, q)"""
        q = self.unit(name, 4, extra_shape)
        w, x, y, z = q.unbind(-1)
        R = torch.stack([
            1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
            2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
            2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1).reshape(tuple(extra_shape) + (3, 3))
        return R, q

    def const(self, data, dtype=None):
        return torch.tensor(data, dtype=dtype or self.dtype)

    # ---------------------------------------------------------------- assumptions and checks
    def _bools(self, c):
        from .tensor import ids_of, is_sym

        if isinstance(c, (bool, np.bool_)):
            return [T.TRUE if c else T.FALSE]
        if isinstance(c, torch.Tensor):
            return [T.to_bool(i) for i in ids_of(c)]
        return [int(c)]

    def assume(self, c):
        for b in self._bools(c):
            self.p.assume_id(b)

    def assume_eq(self, a, b):
        """assume equality of reals (sample points are kept)"""
        for x in self._bools(a == b):
            self._exact(x)

    def decide(self, name, goal, detail=None):
        self.reached += 1
        self.p.ex.decide(self.p, name, goal, detail)

    def true(self, name, c):
        for i, b in enumerate(self._bools(c)):
            self.decide(name, b)
        if isinstance(c, torch.Tensor) and c.numel() == 0:
            self.reached += 1

    def _pair(self, name, a, b):
        a = a if isinstance(a, torch.Tensor) else torch.as_tensor(a)
        b = b if isinstance(b, torch.Tensor) else torch.as_tensor(b)
        if a.shape != b.shape:
            if b.dim() == 0 or b.numel() == 1:
                b = b.reshape((1,) * a.dim()).expand(a.shape) if a.dim() else b.reshape(())
            else:
                self.p.ex.decide(self.p, name + ":shape", T.FALSE, f"shape {tuple(a.shape)} expected {tuple(b.shape)}")
                raise PathEnd("shape")
        return a, b

    def eq(self, name, a, b, tol=None):
        from .tensor import ids_of

        if a is None or b is None:
            self.decide(name, T.TRUE if a is b else T.FALSE, "None mismatch")
            return
        a, b = self._pair(name, a, b)
        ia, ib = ids_of(a), ids_of(b)
        self.obs.append((name, ia))
        if a.dtype == torch.bool or b.dtype == torch.bool:
            ia = [T.to_bool(x) for x in ia]
            ib = [T.to_bool(x) for x in ib]
        for x, y in dict.fromkeys(zip(ia, ib)):
            self.decide(name, T.eq(x, y), f"{T.show(x, 3)[:150]}  ==  {T.show(y, 3)[:150]}")
        if not ia:
            self.reached += 1

    def le(self, name, a, b, strict=False):
        from .tensor import ids_of

        a = a if isinstance(a, torch.Tensor) else torch.as_tensor(a, dtype=self.dtype)
        b = b if isinstance(b, torch.Tensor) else torch.as_tensor(b, dtype=self.dtype)
        a, b = torch.broadcast_tensors(a, b)
        for x, y in dict.fromkeys(zip(ids_of(a), ids_of(b))):
            self.decide(name, (T.lt if strict else T.le)(x, y), f"{T.show(x, 3)[:150]}  <=  {T.show(y, 3)[:150]}")
        if not a.numel():
            self.reached += 1

    def implies(self, name, c, d):
        for x, y in zip(self._bools(c), self._bools(d)):
            self.decide(name, T.implies(x, y))

    def eq_if(self, name, c, a, b, tol=None):
        """a == b wherever c"""
        from .tensor import ids_of

        a, b = self._pair(name, a, b)
        c = c if isinstance(c, torch.Tensor) else torch.as_tensor(c)
        c = c.expand(a.shape)
        for g, x, y in dict.fromkeys(zip(self._bools(c), ids_of(a), ids_of(b))):
            self.decide(name, T.implies(g, T.eq(x, y)), f"{T.show(g, 2)[:80]} => {T.show(x, 3)[:150]}  ==  {T.show(y, 3)[:150]}")

    def observe(self, name, a):
        from .tensor import ids_of

        self.obs.append((name, ids_of(a)))

    def fork(self, c):
        """python bool from a symbolic condition (forks)"""
        (b,) = self._bools(c)
        if b in (T.TRUE, T.FALSE):
            return b == T.TRUE
        return self.p.branch(b)

    def prune(self):
        raise PathEnd("pruned by the harness")

    def known_none(self):
        return None


class ConcreteFail(Exception):
    pass


class Conc:
    """concrete context: inputs from a model, checks with a floating point tolerance"""

    symbolic = False

    def __init__(self, case, model, seed=1):
        self.case = case
        self.model = model
        self.dtype = getattr(torch, case.dtype)
        self.fails = []
        self.obs = []
        self.missing = []
        self.rng = np.random.RandomState(seed)
        f32 = case.dtype == "float32"
        self.rtol, self.atol = case.tol or ((2e-3, 2e-4) if f32 else (1e-6, 1e-7))

    def _val(self, name, lo, hi):
        if name in self.model:
            return float(self.model[name])
        self.missing.append(name)
        a = -3.0 if lo is None else float(lo)
        b = 3.0 if hi is None else float(hi)
        return self.rng.rand() * (b - a) + a

    def real(self, name, shape=(), lo=None, hi=None, strict=False, grad=False, dtype=None):
        if isinstance(shape, int):
            shape = (shape,)
        vals = [self._val(f"{name}[{i}]", lo, hi) for i in range(_numel(shape))]
        t = torch.tensor(vals, dtype=dtype or self.dtype).reshape(tuple(shape))
        if grad:
            t.requires_grad_(True)
        return t

    def integer(self, name, shape=(), lo=0, hi=1):
        if isinstance(shape, int):
            shape = (shape,)
        vals = [int(self.model.get(f"{name}[{i}]", lo)) for i in range(_numel(shape))]
        return torch.tensor(vals, dtype=torch.int64).reshape(tuple(shape))

    def boolean(self, name, shape=()):
        if isinstance(shape, int):
            shape = (shape,)
        vals = [bool(self.model.get(f"{name}[{i}]", False)) for i in range(_numel(shape))]
        return torch.tensor(vals, dtype=torch.bool).reshape(tuple(shape))

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.model.get(f"pick:{name}", 0))]

    def unit(self, name, n, extra_shape=()):
        rows = []
        for j in range(_numel(extra_shape)):
            v = self.real(f"{name}.{j}", n)
            rows.append(v / v.norm())
        return torch.stack(rows).reshape(tuple(extra_shape) + (n,)) if rows else torch.zeros(tuple(extra_shape) + (n,), dtype=self.dtype)

    rotation = Sym.rotation
    const = Sym.const

    def assume(self, c):
        if isinstance(c, torch.Tensor):
            c = bool(c.all())
        if not c:
            raise PathEnd("assumption does not hold on the replayed input")

    def assume_eq(self, a, b):
        if not torch.allclose(torch.as_tensor(a, dtype=self.dtype), torch.as_tensor(b, dtype=self.dtype), rtol=1e-3, atol=1e-4):
            raise PathEnd("assumption does not hold on the replayed input")

    def fail(self, name, detail):
        self.fails.append((name, detail))

    def true(self, name, c):
        ok = bool(c.all()) if isinstance(c, torch.Tensor) else bool(c)
        if not ok:
            self.fail(name, "condition is false")

    def _t(self, x):
        return x.detach() if isinstance(x, torch.Tensor) else torch.as_tensor(x)

    def eq(self, name, a, b, tol=None):
        if a is None or b is None:
            if a is not b:
                self.fail(name, "None mismatch")
            return
        a, b = self._t(a), self._t(b)
        if a.shape != b.shape and not (b.numel() == 1):
            self.fail(name + ":shape", f"shape {tuple(a.shape)} expected {tuple(b.shape)}")
            raise PathEnd("shape")
        self.obs.append((name, a.reshape(-1).tolist()))
        rt, at = tol or (self.rtol, self.atol)
        x, y = a.to(torch.float64), b.to(torch.float64)
        if y.numel() == 1 and y.shape != x.shape:
            y = y.reshape(()).expand(x.shape)
        ok = (x == y) | ((x - y).abs() <= at + rt * torch.maximum(y.abs(), torch.ones_like(y) * 0))
        if not bool(ok.all()):
            i = int((~ok).reshape(-1).nonzero()[0])
            self.fail(name, f"element {i}: {x.reshape(-1)[i].item()!r} expected {y.reshape(-1)[i].item()!r}")

    def le(self, name, a, b, strict=False):
        a, b = self._t(a).to(torch.float64), self._t(b).to(torch.float64)
        ok = a <= b + self.atol + self.rtol * b.abs()
        if not bool(ok.all()):
            self.fail(name, f"{a.reshape(-1)[:4].tolist()} not <= {b.reshape(-1)[:4].tolist()}")

    def implies(self, name, c, d):
        c = torch.as_tensor(c)
        d = torch.as_tensor(d)
        if not bool((~c | d).all()):
            self.fail(name, "implication is false")

    def eq_if(self, name, c, a, b, tol=None):
        a, b = self._t(a), self._t(b)
        b = b if b.shape == a.shape else b.reshape(()).expand(a.shape)
        c = torch.as_tensor(c).expand(a.shape)
        if bool(c.any()):
            self.eq(name, a[c], b[c], tol)
            self.obs.pop()

    def observe(self, name, a):
        self.obs.append((name, self._t(a).reshape(-1).tolist()))

    def decide(self, name, goal, detail=None):
        if not goal:
            self.fail(name, detail or "")

    def fork(self, c):
        return bool(c)

    def prune(self):
        raise PathEnd("pruned by the harness")
