"""Gives every simulated rank its own freshly executed copy of pylops_mpi (from /repo's working tree), bound to
its own simulated mpi4py.  Only compiled code objects are shared; no module state survives a run and none is
shared between ranks.  Byte code is compiled from source every time a process starts (no .pyc is read)."""
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PREFIX = ("pylops_mpi", "mpi4py", "matplotlib")

_code = {}
_src_seen = {}


def ours(name):
    return name.split(".", 1)[0] in PREFIX


def code_for(path):
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        c = _code[path] = compile(src, path, "exec", dont_inherit=True)
    return c


class _Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if _Loader.mods is not None:
            _Loader.mods[module.__name__] = module
        exec(code_for(self.path), module.__dict__)

    mods = None

    def get_source(self, name):
        return open(self.path).read()


_specs = {}


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if not ours(name):
            return None
        if name.split(".", 1)[0] != "pylops_mpi":
            raise ModuleNotFoundError(f"No module named {name!r} (simulated environment)", name=name)
        base = os.path.join(REPO, *name.split("."))
        hit = _specs.get(name)
        if hit is None:
            if os.path.isfile(os.path.join(base, "__init__.py")):
                hit = (os.path.join(base, "__init__.py"), True)
            elif os.path.isfile(base + ".py"):
                hit = (base + ".py", False)
            else:
                hit = ()
            _specs[name] = hit
        if not hit:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        spec = importlib.machinery.ModuleSpec(name, _Loader(*hit), origin=hit[0], is_package=hit[1])
        if hit[1]:
            spec.submodule_search_locations = [os.path.dirname(hit[0])]
        spec.has_location = True
        return spec


_finder = _Finder()


def install():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    for k in list(sys.modules):
        if ours(k):
            del sys.modules[k]


class Switcher:
    """swaps the rank-private modules in and out of sys.modules"""

    def __init__(self):
        self.active = None

    def activate(self, rs):
        mods = rs.mods
        if self.active is mods:
            return
        sys.modules.update(mods)
        self.active = _Loader.mods = mods

    def deactivate(self):
        mods = self.active
        if mods is None:
            return
        sm = sys.modules
        for k in mods:
            sm.pop(k, None)
        self.active = _Loader.mods = None


# ---- drawing stand-in: records what is asked to be drawn


class Recorder:
    """any drawing call is accepted and recorded as (path, args, kwargs)"""

    def __init__(self, log, path):
        object.__setattr__(self, "_log", log)
        object.__setattr__(self, "_path", path)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Recorder(self._log, f"{self._path}.{name}")

    def __call__(self, *a, **kw):
        import numpy as np
        self._log.append((self._path, tuple(np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in a),
                          dict(kw)))
        return Recorder(self._log, self._path + "()")

    def __iter__(self):
        return iter(())

    def __getitem__(self, i):
        return Recorder(self._log, f"{self._path}[{i}]")

    def __setattr__(self, k, v):
        self._log.append((f"{self._path}.{k}=", (v,), {}))


class PltStub(types.ModuleType):
    def __init__(self, log):
        super().__init__("matplotlib.pyplot")
        self.__dict__["_log"] = log

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Recorder(self._log, "plt." + name)

    def subplots(self, nrows=1, ncols=1, **kw):
        import numpy as np
        log = self._log
        log.append(("plt.subplots", (nrows, ncols), kw))
        fig = Recorder(log, "fig")
        if nrows * ncols == 1 and kw.get("squeeze", True):
            return fig, Recorder(log, "ax[0]")
        axs = np.empty(nrows * ncols, dtype=object)
        for i in range(nrows * ncols):
            axs[i] = Recorder(log, f"ax[{i}]")
        return fig, axs


def mpl_modules(log):
    top = types.ModuleType("matplotlib")
    top.__path__ = []
    plt = PltStub(log)
    top.pyplot = plt
    return {"matplotlib": top, "matplotlib.pyplot": plt}


def preload():
    """import everything heavy that is shared by all ranks (it holds no pylops_mpi state)"""
    import numpy  # noqa
    import scipy.sparse.linalg  # noqa
    import scipy.sparse._sputils  # noqa
    import scipy.sparse.linalg._interface  # noqa
    import numpy.core.multiarray  # noqa
    import pylops  # noqa
    import pylops.waveeqprocessing.mdd  # noqa
    import pylops.signalprocessing  # noqa
    import pylops.optimization.basesolver  # noqa
