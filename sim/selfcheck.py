"""The simulator on programs of plain MPI calls (no pylops_mpi): runs repeat exactly under one seed, correct programs
are unaffected by the seed, wrong ones are detected, and races that MPI allows do happen."""
import numpy as np

from . import world as W


def prog(ctx):
    c, MPI = ctx.comm, ctx.MPI
    r, n = c.rank, c.size
    out = [c.allreduce(r + 1), c.bcast({"a": r}, root=1), c.allgather(r * r)]
    a = np.full(3, float(r))
    b = np.zeros(3)
    req = c.Isend(a, dest=(r + 1) % n, tag=5)
    c.Recv(b, source=(r - 1) % n, tag=5)
    req.Wait()
    out.append(b.tolist())
    s = c.Split(r % 2, -r)
    out.append((s.rank, s.size, s.allreduce(r)))
    g = np.zeros(n)
    c.Allgather(np.array([r * 1.0]), g)
    out.append(g.tolist())
    ctx.rec("out", out)


def run(main, seed, n=4, faults=(), **sched):
    sched = {"seed": seed, "strategy": "uniform", "rdv": 0.5, "early": 0.5, "late": 0.3, "red": "random",
             "poison": "nan", **sched}
    return W.run_world({"n": n, "sched": sched, "faults": list(faults)}, main, keep_log=True)


def once(seed):
    w = run(prog, seed)
    assert not w.violations, w.violations
    return w.h, [c.recs for c in w.ctxs]


# ---- wrong programs: each must be reported, whatever the seed

def recv_cycle(ctx):
    c = ctx.comm
    c.recv(source=(c.rank + 1) % c.size)
    c.send(0, dest=(c.rank - 1) % c.size)


def send_ring(ctx):
    """correct only when the messages are buffered"""
    c = ctx.comm
    c.send(c.rank, dest=(c.rank + 1) % c.size)
    c.recv(source=(c.rank - 1) % c.size)


def skipper(ctx):
    if ctx.rank != 2:
        ctx.comm.Barrier()


def other_order(ctx):
    c = ctx.comm
    if c.rank:
        c.bcast(1, root=0)
        c.allreduce(1)
    else:
        c.allreduce(1)
        c.bcast(1, root=0)


def other_root(ctx):
    ctx.comm.bcast(1, root=0 if ctx.rank else 1)


def other_op(ctx):
    c, MPI = ctx.comm, ctx.MPI
    c.allreduce(1.0, op=MPI.MAX if c.rank else MPI.SUM)


def ends_early(ctx):
    c = ctx.comm
    if c.rank == 1:
        return
    c.send(0, dest=(c.rank + 1) % c.size)
    c.recv(source=(c.rank - 1) % c.size)


def unreceived(ctx):
    c = ctx.comm
    if c.rank == 0:
        c.send(np.zeros(2), dest=1)
    c.Barrier()


def pending(ctx):
    c = ctx.comm
    b = np.zeros(1)
    if c.rank == 0:
        c.Irecv(b, source=1, tag=9)
    c.Barrier()


def unfreed(ctx):
    ctx.comm.Dup()


def freed(ctx):
    d = ctx.comm.Dup()
    d.Free()
    ctx.rec("live", ctx.rs.live_comms)


# ---- refused calls

def truncated(ctx):
    c, MPI = ctx.comm, ctx.MPI
    if c.rank == 0:
        c.Send(np.arange(3.0), dest=1)
    elif c.rank == 1:
        try:
            c.Recv(np.zeros(2), source=0)
            ctx.rec("r", "accepted")
        except MPI.Exception as e:
            ctx.rec("r", "refused")


def after_free(ctx):
    d = ctx.comm.Dup()
    d.Free()
    try:
        d.allreduce(1)
        ctx.rec("r", "accepted")
    except ctx.MPI.Exception:
        ctx.rec("r", "refused")


# ---- the less usual calls: persistent, matched-probe and non-blocking collective ones, handles, groups

def unusual(ctx):
    c, MPI, r, n = ctx.comm, ctx.MPI, ctx.comm.rank, ctx.comm.size
    # persistent ring, three times
    out, inn = np.zeros(2), np.zeros(2)
    ps = [c.Send_init(out, dest=(r + 1) % n, tag=5), c.Recv_init(inn, source=(r - 1) % n, tag=5)]
    for k in range(3):
        out[:] = 10 * k + r
        MPI.Prequest.Startall(ps)
        MPI.Request.Waitall(ps)
        assert (inn == 10 * k + (r - 1) % n).all()
    for p in ps:
        p.Free()
    # matched probe
    if r == 0:
        st = MPI.Status()
        got = {}
        for _ in range(n - 1):
            m = c.mprobe(tag=6, status=st)
            got[st.Get_source()] = m.recv()
        assert got == {i: ("x", i) for i in range(1, n)}
    else:
        c.send(("x", r), dest=0, tag=6)
    # isendrecv
    inn[:] = -1
    c.Isendrecv(np.full(2, float(r)), (r + 1) % n, 7, inn, (r - 1) % n, 7).Wait()
    assert (inn == (r - 1) % n).all()
    # non-blocking collectives
    g = np.zeros(n, int)
    q = [c.Iallgatherv(np.array([r]), [g, ([1] * n, list(range(n)))])]
    h = np.zeros(1, int)
    q.append(c.Iscatter(np.arange(n) * 2 if r == 1 else None, h, root=1))
    a = np.zeros(n, int)
    q.append(c.Ialltoall(np.arange(n) + 100 * r, a))
    x = np.zeros(1, int)
    q.append(c.Iscan(np.array([r]), x))
    MPI.Request.Waitall(q)
    assert list(g) == list(range(n)) and h[0] == 2 * r and list(a) == [100 * i + r for i in range(n)]
    assert x[0] == r * (r + 1) // 2
    # handles are local and used again
    assert MPI.COMM_WORLD.py2f() == 0
    d = c.Split(r % 2 if r else MPI.UNDEFINED, 0)
    e = c.Dup()
    h1 = e.py2f()
    e.Free()
    e = c.Dup()
    assert e.py2f() == h1
    ctx.rec("h", h1)
    e.Free()
    if d:
        d.Free()
    gr = c.Get_group()
    assert MPI.Group.Union(gr.Incl([0]), gr.Range_incl([(1, n - 1, 1)])).size == n
    assert MPI.Group.Difference(gr, gr.Incl([0])).size == n - 1
    ctx.rec("r", "done")
    assert ctx.rs.live_comms == 0 and ctx.rs.live_reqs == 0


# ---- what MPI leaves open, and what it does not

def wildcard(ctx):
    c = ctx.comm
    if c.rank == 0:
        ctx.rec("r", tuple(c.recv() for _ in range(c.size - 1)))
    else:
        c.send(c.rank, dest=0)


def same_tag(ctx):
    c = ctx.comm
    if c.rank == 0:
        rs = [c.isend(i, dest=1, tag=3) for i in range(5)]
        for q in rs:
            q.wait()
    elif c.rank == 1:
        ctx.rec("r", tuple(c.recv(source=0, tag=3) for _ in range(5)))


def assoc(ctx):
    x = np.array([[1e16, 1.0, -1e16, 1.0, 3.0][ctx.rank]])
    y = np.zeros(1)
    ctx.comm.Allreduce(x, y)
    ctx.rec("r", float(y[0]))


def early_read(ctx):
    """the buffer of a pending send is changed: either value may arrive"""
    c = ctx.comm
    if c.rank == 0:
        a = np.array([1.0])
        q = c.Isend(a, dest=1)
        a[0] = 2.0
        q.Wait()
    elif c.rank == 1:
        b = np.zeros(1)
        c.Recv(b, source=0)
        ctx.rec("r", float(b[0]))


def recs(w, name="r"):
    return tuple(v for c in w.ctxs for k, v in c.recs if k == name)


def classes(w):
    return {v[0] for v in w.violations}


def main():
    W.prepare()
    hs = set()
    ref = None
    for seed in range(20):
        a, b = once(seed), once(seed)
        assert a == b, f"seed {seed} is not repeatable"
        ref = ref or a[1]
        assert a[1] == ref, f"seed {seed} changes the results of a deterministic program: {a[1]} and {ref}"
        hs.add(a[0])
    for seed in range(10):
        for p, cls in ((recv_cycle, "deadlock"), (skipper, "deadlock"), (ends_early, "deadlock"),
                       (other_order, "collective-mismatch"), (other_root, "collective-mismatch"),
                       (other_op, "collective-mismatch")):
            got = classes(run(p, seed))
            assert got and got <= {cls, "deadlock"}, f"{p.__name__}, seed {seed}: {got} instead of {cls}"
        assert "deadlock" in classes(run(send_ring, seed, rdv=1.0)), "rendezvous sends do not block"
        assert not classes(run(send_ring, seed, rdv=0.0)), "buffered sends block"
        w = run(unreceived, seed, rdv=0.0)
        assert not w.violations and w.leftovers(), "a message nobody received goes unnoticed"
        w = run(pending, seed)
        assert w.ranks[0].live_reqs == 1 and w.ranks[1].live_reqs == 0, "a pending request goes unnoticed"
        w = run(unfreed, seed)
        assert all(rs.live_comms == 1 for rs in w.ranks), "a communicator never freed goes unnoticed"
        assert set(recs(run(freed, seed), "live")) == {0}
        assert recs(run(truncated, seed)) == ("refused",), "a truncated message is accepted"
        assert set(recs(run(after_free, seed))) == {"refused"}, "a freed communicator works"
        assert recs(run(same_tag, seed)) == ((0, 1, 2, 3, 4),), "messages overtake each other"
        w = run(unusual, seed, rdv=0.5)
        assert not classes(w) and recs(w) == ("done",) * 4 and len(set(recs(w, "h"))) == 2, (classes(w), recs(w), recs(w, "h"))
        w = run(prog, seed, faults=[{"kind": "coll_err", "at": 3, "error": "mpi"}])
        assert w.fired.get("collective_error"), "a planned failure does not happen"
    for p, least in ((wildcard, 4), (assoc, 2), (early_read, 2)):
        seen = {recs(run(p, seed, n=5 if p is assoc else 4, rdv=0.5)) for seed in range(60)}
        assert len(seen) >= least, f"{p.__name__}: only {seen} ever happens"
        if p is assoc:
            assert all(len(set(x)) == 1 for x in seen), "ranks get different sums"
    print(f"simulator self-test passed: 20 seeds repeatable, {len(hs)} distinct executions; wrong programs detected; "
          "races MPI allows seen")
    return 0
