"""Builds and runs one simulated MPI job."""
import gc
import logging
import sys
import types

import numpy as np

from . import core, loader, mpi
from . import gpu as gpus
from .core import CheckFailed, HarnessError, World

_ready = False


def prepare(gpu=False):
    global _ready
    if gpu:
        gpus.install()
    if not _ready:
        # messages the code under test logs are nobody's business here
        logging.getLogger().addHandler(logging.NullHandler())
        loader.preload()
        loader.install()
        _ready = True


class Ctx:
    """what a rank's program sees"""

    def __init__(self, world, rs):
        self.world, self.rs = world, rs
        self.rank, self.size = rs.id, world.n
        self.plotlog = []
        self.recs = []

    # filled by start()
    MPI = pm = comm = None

    def fail(self, cls, msg):
        raise CheckFailed(cls, msg)

    def memo(self, key, fn):
        """oracle values: pure functions of the case, shared by the ranks to save time"""
        d = self.world.shared
        if key not in d:
            d[key] = fn()
        return d[key]

    def rec(self, name, value):
        self.recs.append((name, value))


def make_world(case, keep_log=False, forced=None, step_cap=60000, wall_cap=60.0):
    prepare(case.get("gpu"))
    w = World(case["n"], case.get("sched"), case.get("faults"), forced, step_cap, keep_log, wall_cap)
    w.gpu = bool(case.get("gpu"))
    sw = loader.Switcher()
    sw.deactivate()
    wg = mpi.CommShared(w, range(w.n), "MPI_COMM_WORLD")
    ctxs = []
    for rs in w.ranks:
        sg = mpi.CommShared(w, [rs.id], "MPI_COMM_SELF")
        rs.live_comms = 0
        ctx = Ctx(w, rs)
        rs.mods = mpi.make_module(types.ModuleType, w, rs, wg, sg)
        rs.mods.update(loader.mpl_modules(ctx.plotlog))
        w.current = rs
        sw.activate(rs)
        try:
            import pylops_mpi
            import pylops_mpi.optimization.cls_basic
            import pylops_mpi.plotting.plotting
            import pylops_mpi.utils.dottest
        finally:
            sw.deactivate()
            w.current = None
        ctx.pm = pylops_mpi
        ctx.MPI = rs.mods["mpi4py.MPI"]
        ctx.comm = ctx.MPI.COMM_WORLD
        ctx.mods = rs.mods
        ctxs.append(ctx)
        del pylops_mpi
    w.step_cap = step_cap
    return w, ctxs, sw


def run_world(case, main, **kw):
    w, ctxs, sw = make_world(case, **kw)
    w.run(main, ctxs, sw)
    if w.harness_error:
        raise HarnessError(w.harness_error)
    w.ctxs = ctxs
    return w
