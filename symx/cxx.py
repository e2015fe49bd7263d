"""Compiles the CPU kernels of /repo/pytorch3d/csrc over symbolic scalars (shim/) and exposes them like pytorch3d._C.

The C++ sources are used unmodified: `float`/`double` are replaced by a term-id scalar whose operators build terms, comparisons
converted to bool fork the path, tensors are a small stand-in for ATen with bounds-checked accessors."""
import ctypes
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import torch

from . import explore as E
from . import terms as T
from .tensor import SymTensor, is_sym, lift

REPO = os.environ.get("PT3D_REPO", "/repo")
CSRC = os.path.join(REPO, "pytorch3d", "csrc")
SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim")
DT = {torch.float32: 0, torch.int64: 1, torch.int32: 2, torch.bool: 3, torch.uint8: 4, torch.float64: 5, torch.int16: 6}
TD = {v: k for k, v in DT.items()}
CT = {0: ctypes.c_int64, 1: ctypes.c_int64, 2: ctypes.c_int32, 3: ctypes.c_uint8, 4: ctypes.c_uint8, 5: ctypes.c_int64, 6: ctypes.c_int16}
MT = {0: torch.int64, 1: torch.int64, 2: torch.int32, 3: torch.uint8, 4: torch.uint8, 5: torch.int64, 6: torch.int16}

_built = {}  # dir -> lib
_info = {"sources": [], "seconds": 0.0}
_scratch = None
_pending = None


class CxxBuildError(Exception):
    pass


def bindings():
    """python name -> C++ function, from the module definition"""
    src = open(os.path.join(CSRC, "ext.cpp")).read()
    src = re.sub(r"//[^\n]*", "", src)
    src = re.sub(r"#ifdef\s+WITH_CUDA.*?#endif", "", src, flags=re.S)
    return {n: f for n, f in re.findall(r"m\.def\(\s*\"(\w+)\"\s*,\s*&?\s*(?:\w+::)*(\w+)\s*[,)]", src)}


def find_unit(func):
    """directory of csrc whose header declares the bound function"""
    src = open(os.path.join(CSRC, "ext.cpp")).read()
    heads = [h for h in re.findall(r'#include "([^"]+)"', src) if "pulsar" not in h]
    for h in heads:
        p = os.path.join(CSRC, h)
        if os.path.exists(p) and re.search(r"\b%s\s*\(" % func, open(p).read()):
            return os.path.dirname(h), h
    return None, None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="symx_cxx_")
    return _scratch


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode and "-c" in cmd and "-DSYM_NO_INT" not in cmd:
        # `cond ? 0 : x` is ambiguous while reals convert to int implicitly
        return _run([cmd[0], "-DSYM_NO_INT", *cmd[1:]])
    if r.returncode:
        raise CxxBuildError(" ".join(cmd[-3:]) + "\n" + "\n".join(x for x in r.stderr.split("\n") if "error" in x)[:2000])


_TOK = re.compile(r"""(//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|\#\s*include[^\n]*)|((?<![\w.])(?:\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)[fF]?(?![\w.]))""", re.S)


def translate(src):
    """floating point literals become symbolic-scalar literals; constexpr scalars become const"""

    def r(m):
        if m.group(1) is not None:
            return m.group(1)
        t = m.group(2)
        return t[:-1] + ("_sf" if "." in t or "e" in t.lower() else "_sf") if t[-1] in "fF" else t + "_sd"

    src = _TOK.sub(r, src)
    return re.sub(r"\bconstexpr\s+(?=(?:static\s+|const\s+)*(?:float|double)\b)", "const ", src)


def mirror():
    """translated copy of the C++ sources"""
    dst = os.path.join(scratch(), "csrc")
    if os.path.exists(dst):
        return dst
    for root, dirs, files in os.walk(CSRC):
        if "pulsar" in dirs:
            dirs.remove("pulsar")
        rel = os.path.relpath(root, CSRC)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            if f.endswith((".h", ".hpp", ".cpp", ".cc", ".inl")):
                open(os.path.join(dst, rel, f), "w").write(translate(open(os.path.join(root, f)).read()))
    return dst


FLAGS = ["-std=c++17", "-O1", "-fPIC", "-w", "-fpermissive", "-DSYMX"]


def prebuild(names):
    """compile every unit needed for the named bindings; the libraries are loaded lazily (in the worker)"""
    t0 = time.time()
    b = bindings()
    units = {}
    for n in names:
        if n not in b:
            continue
        d, h = find_unit(b[n])
        if d is not None:
            units.setdefault(d, h)
    todo = [d for d in units if d not in _built]
    if not todo:
        return
    s = scratch()
    pch = os.path.join(s, "symshim.h")
    if not os.path.exists(pch + ".gch"):
        shutil.copy(os.path.join(SHIM, "symshim.h"), pch)
        _run(["g++", *FLAGS, "-x", "c++-header", pch, "-o", pch + ".gch"])
    mir = mirror()
    inc = ["-include", pch, "-I", SHIM, "-I", mir]
    jobs = []
    objs = {}
    for d in todo:
        o = objs.setdefault(d, [])
        heads = []
        for n, f in b.items():
            dd, h = find_unit(f)
            if dd == d and h not in heads:
                heads.append(h)
        wrap = '#include "utils/pytorch3d_cutils.h"\n' if os.path.exists(os.path.join(CSRC, "utils", "pytorch3d_cutils.h")) else ""
        wrap += "".join(f'#include "{h}"\n' for h in heads)
        for n, f in b.items():
            dd, h = find_unit(f)
            if dd == d:
                wrap += f'extern "C" int bind_{n}() {{ return sym_call(&{f}); }}\n'
        wrap += open(os.path.join(SHIM, "runtime.cpp")).read()
        wf = os.path.join(s, d.replace("/", "_") + "_wrap.cpp")
        open(wf, "w").write(wrap)
        srcs = [wf] + sorted(glob.glob(os.path.join(mir, d, "*.cpp"))) + sorted(glob.glob(os.path.join(mir, "utils", "*.cpp")))
        for i, f in enumerate(srcs):
            of = os.path.join(s, f"{d.replace('/', '_')}_{i}.o")
            o.append(of)
            jobs.append(["g++", *FLAGS, *inc, "-I", os.path.join(mir, d), "-c", f, "-o", of])
            if i:
                _info["sources"].append(os.path.relpath(f, mir))
    errs = []
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(_run, j) for j in jobs]:
            try:
                f.result()
            except CxxBuildError as e:
                errs.append(str(e))
    if errs:
        raise CxxBuildError("; ".join(errs)[:4000])
    for d in todo:
        so = os.path.join(s, d.replace("/", "_") + ".so")
        _run(["g++", "-shared", *objs[d], "-o", so, "-Wl,-Bsymbolic"])
        _built[d] = so
    _info["seconds"] += time.time() - t0


def info():
    return {"libs": sorted(_built), "cpp_sources_compiled_symbolically": sorted(set(_info["sources"])), "cpp_build_s": round(_info["seconds"], 1)} if _info["sources"] else {}


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


# ------------------------------------------------------------------------------------------------ callbacks
_exc = None


def _guard(f, bad):
    def g(*a):
        global _exc
        if _exc is not None:
            return bad
        try:
            return f(*a)
        except BaseException as e:  # noqa
            _exc = e
            return bad

    return g


def _pow(a, b):
    if T.is_const(b):
        k = T.cval(b)
        if k.denominator == 1 and abs(k) <= 16:
            return T.powi(a, int(k))
        if k == T.cval(T.const(1)) / 2:
            return T.sqrt(a)
    return T.fun("pow", a, b)


OPS = {
    0: T.add, 1: T.sub, 2: T.mul, 3: T.div, 4: lambda a, b: T.neg(a), 5: T.min_, 6: T.max_, 7: lambda a, b: T.abs_(a), 8: lambda a, b: T.sqrt(a),
    9: lambda a, b: T.exp(a), 10: lambda a, b: T.log(a), 11: _pow, 12: lambda a, b: T.sin(a), 13: lambda a, b: T.cos(a), 14: lambda a, b: T.acos(a), 15: T.atan2,
    16: T.lt, 17: T.le, 18: T.eq, 19: T.ne, 20: lambda a, b: T.and_(a, b), 21: lambda a, b: T.or_(a, b), 22: lambda a, b: T.not_(a),
    23: lambda a, b: T.floor(a), 24: lambda a, b: T.ceil(a), 25: lambda a, b: T.trunc(a), 26: lambda a, b: _lround(a),
}


def _lround(a):
    h = T.const(T.F(1, 2)) if hasattr(T, "F") else T.inv(T.const(2))
    return T.ite(T.ge(a, T.ZERO), T.floor(T.add(a, h)), T.neg(T.floor(T.add(T.neg(a), h))))


def _cb_const(v, single):
    return T.fconst(v, bool(single)) if v != int(v) or abs(v) > 1e15 else T.const(int(v))


def _cb_const_safe(v, single):
    if v != v or v in (float("inf"), float("-inf")):
        return T.fconst(v, bool(single))
    return _cb_const(v, single)


def _eps0(a):
    return T.ZERO if a >= 0 and T.is_const(a) and 0 < abs(T.cval(a)) <= T.EPSMAX else a


def _cb_op(code, a, b):
    if T.EPS0:
        a, b = _eps0(a), _eps0(b)
    return OPS[code](a, b)


def _cb_branch(c):
    if c == T.TRUE:
        return 1
    if c == T.FALSE:
        return 0
    return 1 if E.CUR.branch(c) else 0


def _cb_toint(t, mode, err):
    x = {0: T.trunc, 1: T.floor, 2: T.ceil, 3: _lround}[mode](t)
    return E.CUR.choose_int(x)


_fresh = 0


def _cb_fresh(kind):
    global _fresh
    _fresh += 1
    return T.var(f"__garbage{_fresh}", "R")


CONST_F = ctypes.CFUNCTYPE(ctypes.c_int64, ctypes.c_double, ctypes.c_int)
OP_F = ctypes.CFUNCTYPE(ctypes.c_int64, ctypes.c_int, ctypes.c_int64, ctypes.c_int64)
BR_F = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int64)
TI_F = ctypes.CFUNCTYPE(ctypes.c_int64, ctypes.c_int64, ctypes.c_int, ctypes.POINTER(ctypes.c_int))
FR_F = ctypes.CFUNCTYPE(ctypes.c_int64, ctypes.c_int)


class CB(ctypes.Structure):
    _fields_ = [("constant", CONST_F), ("op", OP_F), ("branch", BR_F), ("toint", TI_F), ("fresh", FR_F)]


def _ti(t, mode, err):
    global _exc
    if _exc is None:
        try:
            return _cb_toint(t, mode, err)
        except BaseException as e:  # noqa
            _exc = e
    err[0] = 1
    return 0


_cbs = CB(CONST_F(_guard(_cb_const_safe, T.ZERO)), OP_F(_guard(_cb_op, -1)), BR_F(_guard(_cb_branch, 2)), TI_F(_ti), FR_F(_guard(_cb_fresh, T.ZERO)))
_loaded = {}
THREADS = 1
OOB = 0


def _lib(d):
    lib = _loaded.get(d)
    if lib is None:
        if d not in _built:
            raise E.Unsupported(f"kernel unit {d} was not prebuilt")
        lib = ctypes.CDLL(_built[d], mode=os.RTLD_LAZY | getattr(os, "RTLD_LOCAL", 0))
        lib.sym_arg_tensor.restype = ctypes.c_void_p
        lib.sym_arg_data.restype = ctypes.c_void_p
        lib.sym_res_data.restype = ctypes.c_void_p
        lib.sym_res_size.restype = ctypes.c_int64
        lib.sym_error.restype = ctypes.c_char_p
        lib.sym_arg_int.argtypes = [ctypes.c_int64]
        lib.sym_arg_real.argtypes = [ctypes.c_int64]
        lib.sym_arg_tensor.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_int64), ctypes.c_int, ctypes.POINTER(ctypes.c_int64), ctypes.c_int64]
        lib.sym_init(ctypes.byref(_cbs))
        _loaded[d] = lib
    return lib


def _payload(x):
    """raw storage values of a tensor argument (term ids for reals, concrete values for integers)"""
    if x.dtype.is_floating_point:
        return lift(x)
    if is_sym(x):
        from .tensor import to_plain

        return to_plain(x)
    return x


def _push(lib, a, tens):
    if getattr(a, "number", False):  # symbolic Python number (SymTensor.item)
        lib.sym_arg_real(int(a.p))
        len_args[0] += 1
    elif isinstance(a, torch.Tensor):
        dt = DT.get(a.dtype)
        if dt is None:
            raise E.Unsupported(f"dtype {a.dtype} passed to a kernel")
        pl = _payload(a).detach()
        if pl.dtype != MT[dt]:
            pl = pl.to(MT[dt])
        sizes = (ctypes.c_int64 * max(1, pl.dim()))(*pl.shape)
        contig = pl.is_contiguous()
        if contig:
            flat = pl.reshape(-1)
            span, strides = flat.numel(), None
            st = (ctypes.c_int64 * max(1, pl.dim()))(*([0] * max(1, pl.dim())))
        else:
            span = 1 + sum((n - 1) * s for n, s in zip(pl.shape, pl.stride())) if pl.numel() else 0
            flat = torch.as_strided(pl, (span,), (1,), pl.storage_offset()).clone()
            st = (ctypes.c_int64 * pl.dim())(*pl.stride())
        ptr = lib.sym_arg_tensor(dt, pl.dim(), sizes, 1 if contig else 0, st, span)
        flat = flat.contiguous()
        if flat.numel():
            ctypes.memmove(ptr, flat.data_ptr(), flat.numel() * flat.element_size())
        tens.append((len_args[0], a, flat.clone(), contig, tuple(pl.shape), tuple(pl.stride())))
        len_args[0] += 1
    elif isinstance(a, bool):
        lib.sym_arg_int(int(a))
        len_args[0] += 1
    elif isinstance(a, int):
        lib.sym_arg_int(a)
        len_args[0] += 1
    elif isinstance(a, float):
        lib.sym_arg_real(_cb_const_safe(a, 0))
        len_args[0] += 1
    elif isinstance(a, (tuple, list)):
        for x in a:
            _push(lib, x, tens)
    elif a is None:
        raise TypeError("incompatible function arguments: None")
    else:
        try:
            import numpy as np

            if isinstance(a, np.integer):
                return _push(lib, int(a), tens)
            if isinstance(a, np.floating):
                return _push(lib, float(a), tens)
        except ImportError:
            pass
        raise TypeError(f"incompatible function arguments: {type(a)}")


len_args = [0]


def _fetch(ptr, n, mt):
    out = torch.empty(n, dtype=mt)
    if n:
        ctypes.memmove(out.data_ptr(), ptr, n * out.element_size())
    return out


def call(name, d, args):
    global _exc, OOB
    lib = _lib(d)
    from torch.utils._python_dispatch import _disable_current_modes

    with _disable_current_modes():
        lib.sym_args_clear()
        lib.sym_threads(THREADS)
        len_args[0] = 0
        tens = []
        for a in args:
            _push(lib, a, tens)
        _exc = None
        rc = getattr(lib, f"bind_{name}")()
        OOB += lib.sym_oob()
        if rc < 0:
            if rc == -1:
                e, _exc = _exc, None
                raise e if e is not None else RuntimeError("aborted")
            _exc = None
            raise (IndexError if rc == -3 else RuntimeError)(lib.sym_error().decode(errors="replace"))
        # arguments modified in place
        for i, a, before, contig, shape, stride in tens:
            after = _fetch(lib.sym_arg_data(i), before.numel(), before.dtype)
            if not torch.equal(after, before):
                v = after.reshape(shape) if contig else torch.as_strided(after, shape, stride)
                if is_sym(a):
                    a.p.copy_(v)
                elif a.dtype.is_floating_point:
                    raise E.Unsupported("a kernel writes into a concrete tensor")
                else:
                    a.copy_(v.to(a.dtype))
        res = []
        for i in range(lib.sym_nres()):
            dt = lib.sym_res_dtype(i)
            shape = [lib.sym_res_size(i, k) for k in range(lib.sym_res_dim(i))]
            n = 1
            for s in shape:
                n *= s
            v = _fetch(lib.sym_res_data(i), n, MT[dt]).reshape(shape)
            if TD[dt].is_floating_point:
                res.append(SymTensor(v, TD[dt]))
            else:
                res.append(v.to(TD[dt]))
    if rc == 0:
        return None
    return res[0] if rc == 1 else tuple(res)


def function(name):
    b = bindings()
    if name not in b:
        raise AttributeError(f"module 'pytorch3d._C' has no attribute {name!r}")
    d, _ = find_unit(b[name])

    def f(*args, **kwargs):
        if kwargs:
            raise TypeError("keyword arguments to a kernel")
        return call(name, d, args)

    f.__name__ = name
    return f
