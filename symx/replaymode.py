"""Concrete replay of random draws: same naming (draw order) as the nondeterministic stubs of the symbolic run."""
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

RANDOM = {"rand", "randn", "rand_like", "randn_like", "randint", "randint_like", "randperm", "multinomial", "uniform_", "normal_"}


class ReplayMode(TorchDispatchMode):
    def __init__(self, model):
        super().__init__()
        self.model = model
        self.n = 0
        self.hook = None

    def draw(self, kind, shape, dtype, lo=None, hi=None):
        self.n += 1
        n = int(np.prod(tuple(shape))) if len(shape) else 1
        vals = []
        for i in range(n):
            k = f"rng{self.n}:{kind}[{i}]"
            if k in self.model:
                vals.append(self.model[k])
            else:
                vals.append(float(lo if lo is not None else 0.0))
        t = torch.tensor(vals, dtype=torch.float64)
        return t.to(dtype).reshape(tuple(shape))

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        if name not in RANDOM:
            return func(*args, **kwargs)
        dtype = kwargs.get("dtype") or torch.get_default_dtype()
        if name == "rand":
            return self.draw("rand", args[0], dtype, 0)
        if name == "randn":
            return self.draw("randn", args[0], dtype)
        if name == "rand_like":
            return self.draw("rand", args[0].shape, kwargs.get("dtype") or args[0].dtype, 0)
        if name == "randn_like":
            return self.draw("randn", args[0].shape, kwargs.get("dtype") or args[0].dtype)
        if name == "uniform_":
            lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
            args[0].copy_(self.draw("rand", args[0].shape, args[0].dtype, lo))
            return args[0]
        if name == "normal_":
            r = self.draw("randn", args[0].shape, args[0].dtype)
            mean = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
            std = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
            args[0].copy_(r * std + mean)
            return args[0]
        if name == "randint":
            if func._overloadname.startswith("low"):
                lo, shape = args[0], args[2]
            else:
                lo, shape = 0, args[1]
            return self.draw("randint", shape, torch.int64, lo)
        if name == "randint_like":
            lo = args[1] if len(args) > 2 else 0
            return self.draw("randint", args[0].shape, torch.int64, lo)
        if name == "randperm":
            return self.draw("randperm", (args[0],), torch.int64, 0)
        if name == "multinomial":
            w, n = args[0], args[1]
            rows = w.reshape(-1, w.shape[-1]).shape[0]
            out = [self.draw("multinomial", (n,), torch.int64, 0) for _ in range(rows)]
            return torch.stack(out).reshape(tuple(w.shape[:-1]) + (n,))
        return func(*args, **kwargs)


def make(model):
    return ReplayMode(model)
