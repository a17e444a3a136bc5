"""A stand-in for CuPy: arrays in a "device memory" of their own.

There is no GPU here and no CuPy, so engine="cupy" runs against this module.  It keeps the rules of CuPy the engine's
users depend on: a device array never turns into a NumPy array by itself, host and device arrays do not mix in
one operation, NumPy functions and ufuncs applied to device arrays run on the device and give device arrays (also
reductions: 0-dimensional ones), pickling copies, and MPI accepts device buffers (CUDA-aware MPI).  The numbers are
computed by NumPy, so that the CPU engine is the exact reference.  Where CuPy's rule is unknown it is lenient."""
import sys
import types

import numpy as np

from . import core

_MIX = {"take", "put", "take_along_axis"}
_CREATE = {"array", "asarray", "asanyarray", "ascontiguousarray", "asfortranarray"}
# keyword arguments of NumPy that CuPy's functions do not have
_NOKW = {"max": {"initial", "where"}, "min": {"initial", "where"}, "amax": {"initial", "where"},
         "amin": {"initial", "where"}, "sum": {"initial", "where"}, "prod": {"initial", "where"}}


def _host(a):
    return a._h if isinstance(a, ndarray) else a


def _is_host(a):
    return isinstance(a, np.ndarray) and a.ndim > 0


def _unwrap(o, strict=True):
    if isinstance(o, ndarray):
        return o._h
    if strict and _is_host(o):
        raise TypeError(f"Unsupported type {type(o)}")
    if type(o) in (list, tuple):
        return type(o)(_unwrap(v, strict) for v in o)
    if type(o) is dict:
        return {k: _unwrap(v, strict) for k, v in o.items()}
    return o


def _wrap(o):
    if isinstance(o, (np.ndarray, np.generic)):
        return ndarray(np.asarray(o))
    if type(o) in (list, tuple):
        return type(o)(_wrap(v) for v in o)
    if isinstance(o, tuple) and hasattr(o, "_fields"):
        return type(o)(*[_wrap(v) for v in o])
    return o


def _kw_ok(name, kw):
    bad = [k for k in kw if k in _NOKW.get(name, ()) and kw[k] is not np._NoValue]
    if bad:
        raise TypeError(f"{name}() got an unexpected keyword argument {bad[0]!r}")


def _from_host(a):
    return ndarray(np.array(a, copy=True))


class ndarray:
    __slots__ = ("_h",)
    __hash__ = None

    def __init__(self, h, dtype=None):
        if not isinstance(h, np.ndarray):       # cupy.ndarray(shape, dtype)
            h = core._real_empty(h, dtype or float)
        self._h = h

    # -- NumPy protocols
    def __array__(self, *a, **kw):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy "
                        "array explicitly.")

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        out = kw.pop("out", None)
        if out is not None:
            if any(_is_host(o) for o in out):
                raise TypeError("out must be a device array")
        _kw_ok("sum" if method == "reduce" else "", kw)
        kw = _unwrap(kw)
        if out is not None:
            kw["out"] = tuple(_host(o) for o in out)
        r = getattr(ufunc, method)(*[_unwrap(a) for a in args], **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return _wrap(r)

    def __array_function__(self, func, types, args, kw):
        name = func.__name__
        _kw_ok(name, kw)
        strict = name not in _MIX
        return _wrap(func(*[_unwrap(a, strict) for a in args], **_unwrap(kw, strict)))

    # -- attributes and methods
    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(np.ndarray, name) or name in ("data", "ctypes", "base", "flat", "tofile"):
            raise AttributeError(f"'ndarray' object has no attribute {name!r}")
        v = getattr(self._h, name)
        if callable(v):
            def method(*a, **kw):
                _kw_ok(name, kw)
                out = kw.get("out")
                r = v(*[_unwrap(x) for x in a], **_unwrap(kw))
                if out is not None:
                    return out
                return r if name in ("item", "tolist", "tobytes") else _wrap(r)
            return method
        return _wrap(v) if name in ("T", "real", "imag") else v

    @property
    def shape(self):
        return self._h.shape

    @shape.setter
    def shape(self, s):
        self._h.shape = s

    @property
    def real(self):
        return ndarray(self._h.real)

    @real.setter
    def real(self, v):
        self._h.real = _unwrap(v)

    @property
    def imag(self):
        return ndarray(self._h.imag)

    @imag.setter
    def imag(self, v):
        self._h.imag = _unwrap(v)

    @property
    def device(self):
        return "<CUDA Device 0>"

    def get(self, *a, **kw):
        return np.array(self._h, copy=True)

    def set(self, a, *_, **__):
        self._h[...] = a

    def __len__(self):
        return len(self._h)

    def __iter__(self):
        return (_wrap(v) for v in self._h)

    def __getitem__(self, i):
        return _wrap(self._h[_unwrap(i, False)])

    def __setitem__(self, i, v):
        if _is_host(v):
            raise TypeError(f"Unsupported type {type(v)}")
        self._h[_unwrap(i, False)] = _unwrap(v)

    def __bool__(self):
        return bool(self._h)

    def __int__(self):
        return int(self._h)

    def __float__(self):
        return float(self._h)

    def __complex__(self):
        return complex(self._h)

    def __index__(self):
        return self._h.__index__()

    def __repr__(self):
        return repr(self._h)

    def __str__(self):
        return str(self._h)

    def __format__(self, spec):
        return format(self._h[()] if self._h.ndim == 0 else self._h, spec)

    def __copy__(self):
        return _from_host(self._h)

    def __deepcopy__(self, memo):
        return _from_host(self._h)

    def __reduce__(self):
        return (_from_host, (np.array(self._h, copy=True),))


def _bin(name, uf):
    def op(self, other):
        return uf(self, other)

    def rop(self, other):
        return uf(other, self)

    def iop(self, other):
        return uf(self, other, out=(self,))
    setattr(ndarray, f"__{name}__", op)
    setattr(ndarray, f"__r{name}__", rop)
    setattr(ndarray, f"__i{name}__", iop)


for _n, _u in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.true_divide),
               ("floordiv", np.floor_divide), ("mod", np.remainder), ("pow", np.power), ("matmul", np.matmul),
               ("and", np.bitwise_and), ("or", np.bitwise_or), ("xor", np.bitwise_xor)):
    _bin(_n, _u)
for _n, _u in (("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal),
               ("eq", np.equal), ("ne", np.not_equal)):
    setattr(ndarray, f"__{_n}__", (lambda u: lambda self, o: u(self, o))(_u))
for _n, _u in (("neg", np.negative), ("pos", np.positive), ("abs", np.absolute), ("invert", np.invert)):
    setattr(ndarray, f"__{_n}__", (lambda u: lambda self: u(self))(_u))


class _Mod(types.ModuleType):
    """functions of a NumPy-like module, giving device arrays"""

    def __init__(self, name, like=None):
        super().__init__(name)
        self.__dict__["_like"] = like
        self.__path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if self._like is None:
            return types.SimpleNamespace()
        if not hasattr(self._like, name):
            raise AttributeError(f"module {self.__name__!r} has no attribute {name!r}")
        v = getattr(self._like, name)
        if isinstance(v, types.ModuleType):
            v = _Mod(f"{self.__name__}.{name}", v)
        elif callable(v) and not isinstance(v, type):
            f, strict = v, name not in _CREATE

            def v(*a, **kw):
                _kw_ok(name, kw)
                out = kw.get("out")
                g = getattr(np, name, f) if name in ("empty", "empty_like") else f
                r = g(*[_unwrap(x, strict) for x in a], **_unwrap(kw, strict))
                return out if out is not None else _wrap(r)
            v.__name__ = name
        self.__dict__[name] = v
        return v


def get_array_module(*args):
    return sys.modules["cupy"] if any(isinstance(a, ndarray) for a in args) else np


def asnumpy(a, *_, **__):
    return np.array(_host(a), copy=True)


def array(a, *args, **kw):
    return ndarray(np.array(_unwrap(a, False), *args, **dict(kw, copy=True)))


_done = False


def installed():
    return _done


def install():
    """must precede the first import of pylops"""
    global _done
    if _done:
        return
    if "pylops" in sys.modules:
        raise core.HarnessError("pylops was imported without the stand-in for CuPy")
    import importlib.machinery
    import scipy.fft
    import scipy.linalg
    import scipy.signal
    import scipy.sparse
    import scipy.special
    m = _Mod("cupy", np)
    m.ndarray = ndarray
    m.get_array_module, m.asnumpy, m.array = get_array_module, asnumpy, array
    m.cuda = types.SimpleNamespace(Device=lambda *a, **kw: types.SimpleNamespace(use=lambda: None))
    mods = {"cupy": m, "cupyx": _Mod("cupyx"), "cupyx.scipy": _Mod("cupyx.scipy")}
    for s in (scipy.fft, scipy.linalg, scipy.signal, scipy.sparse, scipy.special):
        mods["cupyx." + s.__name__] = _Mod("cupyx." + s.__name__, s)
    for k, v in mods.items():
        v.__spec__ = importlib.machinery.ModuleSpec(k, None, is_package=True)
        if "." in k:
            setattr(mods[k.rpartition(".")[0]], k.rpartition(".")[2], v)
    sys.modules.update(mods)
    _done = True
