"""Stand-in for pytorch3d._C during symbolic runs: functions of the real C++ sources compiled over symbolic scalars (cxx.py)."""
import sys
import types

# attributes of the pulsar module read at import time; no claim depends on them
PULSAR = {"EPS": 1e-4, "MAX_FLOAT": 3.4e38, "MAX_INT": 2147483647, "MAX_UINT": 4294967295, "MAX_USHORT": 65535, "PULSAR_MAX_GRAD_SPHERES": 128, "PulsarRenderer": None}


def install():
    import pytorch3d  # noqa

    m = types.ModuleType("pytorch3d._C")

    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in PULSAR:
            return PULSAR[name]
        from . import cxx

        return cxx.function(name)

    m.__getattr__ = __getattr__
    sys.modules["pytorch3d._C"] = m
    pytorch3d._C = m


def prebuild(names):
    from . import cxx

    cxx.prebuild(sorted(set(names)))


def info():
    if "symx.cxx" in sys.modules:
        return sys.modules["symx.cxx"].info()
    return {}
