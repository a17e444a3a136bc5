"""Source of properties.jsonl (python3 tools/mkprops.py rewrites it)."""
import json, os
DA = "pylops_mpi/DistributedArray.py"
LO = "pylops_mpi/LinearOperator.py"
SLO = "pylops_mpi/StackedLinearOperator.py"
BD = "pylops_mpi/basicoperators/BlockDiag.py"
VS = "pylops_mpi/basicoperators/VStack.py"
HS = "pylops_mpi/basicoperators/HStack.py"
FD = "pylops_mpi/basicoperators/FirstDerivative.py"
SD = "pylops_mpi/basicoperators/SecondDerivative.py"
GR = "pylops_mpi/basicoperators/Gradient.py"
LA = "pylops_mpi/basicoperators/Laplacian.py"
F1 = "pylops_mpi/signalprocessing/Fredholm1.py"
MD = "pylops_mpi/waveeqprocessing/MDC.py"
CL = "pylops_mpi/optimization/cls_basic.py"
CB = "pylops_mpi/optimization/basic.py"
DE = "pylops_mpi/utils/decorators.py"
DT = "pylops_mpi/utils/dottest.py"
PL = "pylops_mpi/plotting/plotting.py"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "Scattering and gathering a global array is lossless",
  "Distributing a global array and gathering it again returns that array, bit for bit, on every process, whatever the number of processes, shape, distribution axis, dtype, kind of partition and user-given local shapes. Each process holds exactly the contiguous block its position implies, the blocks tile the global array in rank order without gap or overlap, and every process sees the same list of local shapes. With no local shapes given, block sizes along the distribution axis differ by at most one.",
  ["inputs", "configurations", "schedules"],
  "all global shapes (1-3 D), axes, dtypes, partitions, explicit local shapes (zero-sized blocks included), communicator sizes and message schedules",
  "Tests use a few shapes on 3 ranks of one real MPI schedule; uneven tails, more ranks than rows, zero-sized blocks and explicit shapes are barely sampled.",
  [DA], [("local_split", DA), ("DistributedArray.__init__ / to_dist / asarray / local_shapes", DA)],
  ["DistributedArray.asarray()", "local_array", "local_shapes"])
p("C02", "A broadcast array is the same on every rank and rank 0 wins",
  "Every assignment into a broadcast-partitioned array leaves all processes of its communicator with the content the communicator's rank 0 assigned, even when processes assign different values, at any index expression. After any sequence of assignments, in-place updates and arithmetic on such arrays, the local copies are bitwise identical on all processes. An unsafe-broadcast array keeps what each process assigned and such an assignment needs no other process.",
  ["histories", "schedules", "inputs"],
  "all sequences of assignments (scalars, slices, fancy indices, per-rank differing values) and arithmetic, all communicator sizes, all delivery orders",
  "Tests assign equal values on all ranks; divergence and partial-index assignment, and bugs that need one rank to lag, are not sampled.",
  [DA], [("DistributedArray.__setitem__ (bcast from root)", DA)], ["local_array on each rank"])
p("C03", "Array arithmetic refines NumPy and preserves the layout",
  "Sum, difference, product, negation, scalar scaling, in-place addition and subtraction, conjugation, copying, zeroing and flattening of distributed arrays give, after gathering, exactly what NumPy gives on the gathered operands (flattening: the flattened local blocks in rank order). The result keeps its operand's partition, distribution axis, local shapes, mask, communicator and dtype (another dtype only where it could not hold the values, such as a real array times a complex number), so it can be combined with the operands again. This holds for every chain of such operations.",
  ["programs", "inputs", "configurations"],
  "all operation sequences over arrays of equal layout and any dtypes, every partition, axis, explicit local shapes, mask, dtype and communicator size",
  "Tests check single operations on default layouts at 3 ranks; chains, uneven layouts, masks, sub-communicators and layout metadata of results are not checked.",
  [DA], [("__neg__, add, iadd, multiply, conj, copy, zeros_like, ravel", DA)],
  ["asarray()", "local_shapes", "mask", "partition", "axis", "base_comm", "dtype"])
p("C04", "Dot products and norms equal NumPy's and agree on every rank",
  "The dot product and every supported norm (orders 0, 1, 2, other integers, plus and minus infinity, of the flattened array or along the distribution axis) equal NumPy's on the gathered array up to floating-point rounding, for every partition and layout, including layouts in which some processes hold no element. Every process obtains the same number, bit for bit. The call always completes on all processes.",
  ["inputs", "configurations", "schedules"],
  "all arrays, orders, axes, partitions, layouts (empty blocks included), dtypes, communicator sizes, reduction orders and schedules",
  "Tests use arrays with non-empty blocks on 3 ranks and one reduction order; empty blocks, identical-on-all-ranks and arbitrary association of the reduction are not exercised.",
  [DA], [("dot, norm, _compute_vector_norm, _allreduce_subcomm", DA)], ["dot()", "norm()"])
p("C05", "Masked reductions stay inside their group and masks are inherited",
  "On a masked array, dot product and norm return on each process the value computed from the blocks of its own group only, and complete without the participation of processes outside that group. Arrays derived from a masked array (arithmetic, copies, conjugates, zero-filled twins, flattened versions, masked block-diagonal operator outputs) carry the same mask. Combining arrays whose masks differ is refused with an error on every process.",
  ["inputs", "schedules", "configurations"],
  "all assignments of ranks to groups, layouts, operation chains, and all interleavings of groups that progress independently",
  "Tests use one fixed mask at each rank count with all groups in lock step; independence of a group from others' progress and mask inheritance across derived arrays are schedule- and history-quantified.",
  [DA, BD], [("mask / sub_comm split", DA), ("_check_mask", DA), ("BlockDiag mask", BD)], ["dot()", "norm()", "mask"],
  state=[("_mask/_sub_comm", "group of ranks reductions run in", DA)])
p("C06", "Ghost cells are exactly the neighbours' boundary cells",
  "Requesting ghost cells returns on each process its own block extended by exactly the requested number of the previous process's last cells and the next process's first cells along the distribution axis, in order, also when processes ask for different numbers, and leaves the array itself unchanged. At the ends of the process chain nothing is added. If some neighbour does not own enough cells, every process gets an error and none blocks.",
  ["inputs", "schedules", "configurations"],
  "all layouts, axes, per-rank requests (zero and None included), message sizes either side of the eager limit, delivery orders and communicator sizes",
  "Tests request equal small counts with eager messages; heterogeneous requests, rendezvous sends, delayed or reordered deliveries and insufficient neighbours are not sampled.",
  [DA], [("add_ghost_cells", DA)], ["return value of add_ghost_cells"])
p("C07", "Operations never modify or alias their operands",
  "Arithmetic, reductions, copies, conjugation, flattening, ghost-cell requests, operator applications and solver runs leave every operand (arrays, right-hand side, initial guess, kernel) bitwise unchanged, in-place operations excepted for their target. Writing into a result afterwards never changes an operand, and writing into an operand never changes an earlier result.",
  ["programs", "histories", "configurations"],
  "all operations and chains of them, followed by arbitrary writes into results or operands, on all layouts and communicator sizes",
  "Unit tests compare results once and discard operands; aliasing shows only in multi-step histories.",
  [DA, LO, SLO, BD, VS, FD, SD, F1, CL], [("fresh DistributedArray per result", DA), ("x0.copy()/y - Op x in solver setup", CL)],
  ["operand local arrays before/after"])
p("C08", "Operator results do not depend on how the input is laid out",
  "Applying an operator, forward or adjoint, that accepts a scattered vector to the same global vector in different layouts (any local sizes, zero-sized blocks included) gives the same gathered result. A layout that would need data from beyond a neighbouring process is refused with an error on every process, never answered wrongly and never blocking.",
  ["inputs", "configurations", "schedules"],
  "all input layouts of block-diagonal, stacked and derivative operators' model and data vectors, all sizes and schedules",
  "Tests feed operators the layout they prefer; redistribution paths with uneven layouts are hardly executed.",
  [DE, BD, VS, HS, FD, SD], [("reshaped decorator (redistribution through ghost cells)", DE)], ["matvec/rmatvec outputs"])
p("C09", "Distributed first and second derivatives equal the serial ones",
  "The distributed first and second derivative operators, forward and adjoint, for every kind, order, edge setting, sampling, dimensionality and dtype, give the result of the serial PyLops operator along the first axis, for every number of processes and row split. When a block is too small for the stencil, every process gets an error instead; no configuration yields a silently different value or a hang.",
  ["inputs", "configurations", "schedules"],
  "all dims, kinds, orders, edge flags, samplings, dtypes, communicator sizes (down to one row per rank) and schedules",
  "Tests use dims much larger than the number of ranks, at 3 ranks; small blocks next to stencil width and edge handling at block borders are not covered.",
  [FD, SD, DE, DA], [("stencil routines with ghost cells", FD), ("stencil routines with ghost cells", SD)], ["matvec/rmatvec outputs"])
p("C10", "Distributed gradient and Laplacian equal the serial ones",
  "The distributed gradient returns, component by component, the serial gradient of the global array, and the Laplacian the serial Laplacian with the given axes, weights, samplings and edge treatment; their adjoints equal the serial adjoints. This holds for every dimensionality, axis subset and order, and number of processes.",
  ["inputs", "configurations", "schedules"],
  "all dims, axes tuples, weights, samplings, edge flags, kinds, communicator sizes and schedules",
  "Tests cover a few dims at 3 ranks with the rows evenly split and no schedule variation.",
  [GR, LA, BD, VS, FD, SD], [("stack of per-axis operators", GR), ("weighted sum of per-axis operators", LA)], ["matvec/rmatvec outputs"])
p("C11", "Block and stacked operators equal the assembled global matrix",
  "Block-diagonal, vertical-stack and horizontal-stack operators built from each process's local operators act, forward and adjoint, as the dense matrix assembled from all processes' blocks in rank order, whatever the number and sizes of blocks per process, and report that matrix's shape. Stacks of distributed operators act as the corresponding dense block matrices on stacked vectors.",
  ["inputs", "configurations", "schedules"],
  "all distributions of block counts and sizes over ranks, dtypes, partitions accepted by each operator, reduction orders and schedules",
  "Tests give every rank one or two equally-shaped blocks; heterogeneous per-rank blocks and reduction orders are not sampled.",
  [BD, VS, HS, SLO], [("local block loops plus allgather/allreduce of shapes and partial sums", BD), ("allreduce of adjoint partial sums", VS)],
  ["matvec/rmatvec outputs", "shape"])
p("C12", "Every operator's adjoint is its true adjoint and dottest says so",
  "For every distributed operator and composition of operators, the inner product of the forward image of u with v equals that of u with the adjoint image of v, on every process, up to rounding. The dot-test utility reports success on all processes for such operators and reports failure on all processes for an operator whose forward and adjoint do not match.",
  ["inputs", "programs", "configurations"],
  "all operators and composites, vectors, layouts, dtypes, communicator sizes and schedules",
  "Tests run dottest on a handful of fixed operators; its failing verdict and rank agreement are not tested.",
  [DT, BD, VS, HS, FD, SD, GR, LA, F1, MD, LO, SLO], [("dottest", DT), ("rmatvec of each operator", LO)], ["dottest() result", "matvec/rmatvec"])
p("C13", "Operator algebra equals matrix algebra",
  "Adjoint, transpose, conjugate, sum, difference, product, scaling, negation and non-negative integer power of distributed and stacked operators act, forward and adjoint, as the same expression of the matrices they represent, with the matching shape. This holds for every expression nesting, also for operands of different dtypes as long as no complex vector has to pass through a real operator (which casts it, as in PyLops).",
  ["programs", "inputs", "configurations"],
  "all expression trees over distributed operators, complex and real scalars, communicator sizes and schedules",
  "Tests check each wrapper once at depth one; nesting (e.g. adjoint of a scaled product) and stacked variants of power and difference are not covered.",
  [LO, SLO], [("_Adjoint/_Transposed/_Conj/_Sum/_Product/_Scaled/_Power operators", LO), ("stacked counterparts", SLO)], ["matvec/rmatvec", "shape"])
p("C14", "The distributed Fredholm operator equals the serial one",
  "The distributed Fredholm integral, forward and adjoint, with the kernel's slices spread unevenly over processes, gives on every process the serial operator's result on the whole kernel, for every combination of its storage and multiplication options. A distribution it does not support is refused with an error on every process.",
  ["inputs", "configurations", "schedules"],
  "all splits of slices over ranks, kernel sizes, nz, saveGt/usematmul options, dtypes and schedules",
  "Tests use one split per option; uneven splits and the refusal path on all ranks are not tested.",
  [F1], [("slice bookkeeping islstart/islend and allgather", F1)], ["matvec/rmatvec outputs", "constructor errors"])
p("C15", "Distributed multi-dimensional convolution equals the serial one",
  "Multi-dimensional convolution with the kernel's frequencies distributed over processes gives, forward and adjoint, on every process, the serial operator's result with the whole kernel, for every combination of its options. Repeated applications and several operators alive together do not disturb each other.",
  ["inputs", "configurations", "histories"],
  "all kernel sizes, frequency splits, one/two-sided time axes, options, repeated use and schedules",
  "Tests use few sizes, a single application and one split.",
  [MD, F1, LO], [("operator chain F^H I^H G I F", MD)], ["matvec/rmatvec outputs"])
p("C16", "Distributed CG solves as the serial algorithm does",
  "For Hermitian positive-definite distributed or stacked operators, conjugate gradient returns on every process the iterate, iteration count and residual history the serial algorithm produces on the gathered problem up to rounding, and converges to the solution of the system within the dimension's number of iterations for well-conditioned problems. The reported residual history is the true residual norm of the successive iterates, and all processes stop at the same iteration.",
  ["inputs", "histories", "schedules", "configurations"],
  "all systems, starting points, tolerances, iteration limits, layouts, communicator sizes, reduction orders and schedules",
  "Tests run CG on fixed systems from zero and compare the final x only.",
  [CL, CB], [("CG.setup/step/run", CL)], ["x", "iiter", "cost"])
p("C17", "Distributed CGLS solves damped least squares",
  "CGLS on distributed or stacked operators follows the serial algorithm on the gathered problem up to rounding and converges to the minimiser of the documented damped least-squares functional from any starting point and for any damping. The residual norms it reports are those of the returned solution, and its stopping reason (1 when the tolerance was reached, 2 otherwise) is equal on all processes.",
  ["inputs", "histories", "schedules", "configurations"],
  "all operators, data, dampings, starting points, tolerances, layouts, reduction orders and schedules",
  "Tests start at zero (or undamped) and look at x only; damping with a non-zero start and the reported norms are not tested.",
  [CL, CB], [("CGLS.setup/step/run/finalize", CL)], ["x", "istop", "iiter", "r1norm", "r2norm", "cost"])
p("C18", "Solvers step, resume and call back in lock step",
  "Driving a solver one step at a time, running it in several instalments, or solving in one call give bitwise the same iterates and history. After every iteration, and only then, the callback runs once on every process with the current iterate, and a solver object can be set up again and reused as if new. The solver never returns more iterations than the limit and stops on all processes at once when the tolerance is reached.",
  ["histories", "schedules", "programs"],
  "all splits of the iteration count into setup/step/run calls, repeated set-ups, callbacks (collective ones included) and schedules",
  "Tests call the one-shot functions; stepping, resuming, reuse and collective callbacks are not tested.",
  [CL, CB], [("setup/step/run/finalize state machine", CL)], ["callback arguments", "iiter", "cost"],
  state=[("kold, r/c/s/q, iiter, cost", "solver state between calls", CL)])
p("C19", "No operation deadlocks or leaves messages behind",
  "Every public operation called collectively completes on all processes under every message timing MPI allows: sends that block until received, arbitrary delays, a stalled process, collectives that some processes leave early. No two processes ever disagree on which collective comes next, and no message or request is left unmatched afterwards, so consecutive operations never receive each other's data.",
  ["schedules", "fault_sequences", "programs"],
  "all interleavings, eager/rendezvous decisions, delays and stalls over sequences of all public operations, all communicator sizes",
  "One run under one MPI library shows one timing; small messages are always eager there and mask send-ordering bugs.",
  [DA, DE, LO, BD, VS, F1, CL, DT, PL], [("ordering of send/recv and collectives", DA)], ["progress of each rank", "message queues at the end"])
p("C20", "Results do not depend on timing, stale memory or earlier work",
  "With the order of floating-point reductions held fixed, a program using the library gives bitwise the same results on every process under any interleaving, message delay, process stall, content of freshly allocated memory, clock behaviour and earlier unrelated use of the library in the same process.",
  ["schedules", "fault_sequences", "histories"],
  "all pairs of schedules and fault sequences (delays, stalls, poisoned allocations, clock jumps) of the same program",
  "A test observes one schedule per run and clean memory; it cannot compare schedules.",
  [DA, DE, FD, SD, BD, VS, F1, CL], [("deterministic matching of sends and receives, full initialisation of results", DA)], ["bitwise results per rank"])
p("C21", "A failed operation changes nothing and can be retried",
  "When communication fails with an error on all participating processes at any point of an operation, or a local operator or callback raises on all processes, the error reaches the caller on every process, the operands keep their values (the target of an in-place operation excepted), and nothing is left in flight. Repeating the operation once the fault is gone gives the correct result.",
  ["fault_sequences", "crash_points", "schedules"],
  "every collective call of every operation as the fault point, user-operator exceptions, then retry, under all schedules",
  "Real MPI runs in the test suite never fail, so no error path after a started operation is executed.",
  [DA, DE, LO, BD, VS, F1, CL], [("results built in fresh arrays; no partial update before communication ends", DA)], ["raised exceptions", "operands", "retry result"])
p("C22", "A crashed rank never makes survivors return a wrong result",
  "If a process dies at any communication call, every value the surviving processes obtain from completed operations is the correct one and operations that needed the dead process end in an error for them, never in a made-up result. When failures are reported to the survivors, each of them terminates.",
  ["crash_points", "fault_sequences", "schedules"],
  "all crash instants of any rank in programs over all operations, with failure reported early or late to each survivor",
  "Unit tests never kill a rank.",
  [DA, DE, LO, BD, VS, F1, CL], [("errors of MPI calls propagate", DA)], ["results recorded by survivors", "raised exceptions"])
p("C23", "Invalid input is refused by all ranks alike",
  "Documented misuse - mismatching partitions, shapes, masks or stack sizes, local shapes that do not add up, dimension mismatches, unsupported kinds, orders, norms or partitions, incompatible operators - raises the documented kind of error on every process, even when only one process's share is wrong. No process hangs or gets a result, and the library and communicator remain usable afterwards.",
  ["inputs", "schedules", "configurations"],
  "all invalid calls including those invalid on a single rank only, communicator sizes and schedules",
  "Tests use pytest.raises on all ranks with symmetric mistakes; a rank-local rejection would hang the suite and is not tested.",
  [DA, LO, SLO, BD, VS, HS, F1, MD, FD, SD, LA, CL, PL], [("_check_local_shapes, _check_partition_shape, _check_mask", DA), ("shape checks in matvec/rmatvec", LO)], ["exceptions per rank"])
p("C24", "Work on a sub-communicator involves only that communicator",
  "Arrays, operators and solvers created on a communicator other than the world one compute the same results as on a world of that size, communicate only among its members, and their results live on that communicator. Disjoint groups of processes can use the library concurrently, each at its own pace and on different problems, without influencing each other.",
  ["configurations", "schedules", "programs"],
  "all partitions of the world into groups (reordered ranks included), different programs per group and all interleavings between groups",
  "No test uses a communicator other than the world one.",
  [DA, LO, SLO, DE, BD, VS, HS, FD, SD, GR, LA, F1, MD, CL, DT, PL], [("base_comm parameter", DA)], ["results per group", "communicators used"],
  state=[("base_comm", "communicator an array or operator lives on", DA)])
p("C25", "Logging and clocks never influence solver results",
  "Solver results, iteration counts and communication are the same with and without progress display, for every display interval and with the clock jumping forwards or backwards. Displaying progress never fails or blocks on any process, prints on one process only, shows the requested iterations with their own first model value and residual norms, the tolerance, count and elapsed time of the run, and works for real, complex and stacked vectors of differing sizes.",
  ["configurations", "fault_sequences", "inputs"],
  "all display settings, iteration intervals, array kinds and clock jumps, all schedules",
  "Tests discard output and never jump the clock; the rank-0-only printing path with stacked vectors is not compared with silent runs.",
  [CL, CB], [("_print_setup/_print_step/_print_finalize guarded by rank 0", CL)], ["stdout per rank", "results"])
p("C26", "Stacked arrays behave as the concatenation of their parts",
  "Arithmetic, dot products, norms, conjugation, copying and gathering of stacked distributed arrays give NumPy's result on the concatenation of the flattened components, for any number and mixture of component layouts. Results keep each component's layout, and stacks of different composition are refused on every process.",
  ["inputs", "programs", "configurations"],
  "all stacks of arrays with differing sizes, partitions, axes and masks, all operation chains, orders of norm, sizes and schedules",
  "Tests stack two equal vectors; mixed partitions, chains and layout of results are not covered.",
  [DA], [("StackedDistributedArray", DA)], ["asarray()", "dot()", "norm()", "components' metadata"])
p("C27", "Communicators and requests in use stay bounded",
  "Repeating any operation or iterating a solver does not accumulate communicators, pending requests or messages: after any number of repetitions the library holds no more MPI objects than after the first. Long-running programs therefore never exhaust the MPI library's communicator contexts.",
  ["histories", "configurations"],
  "all repetition counts of all operations and solvers, masked and unmasked arrays",
  "Tests are short-lived processes; exhaustion needs tens of thousands of repetitions.",
  [DA, CL], [("communicator split per masked array", DA)], ["live communicators per rank"])
p("C28", "Plotting helpers are safe to call collectively",
  "Called on all processes, the plotting helpers complete on every process, draw on rank 0 only, draw there the gathered global data, its true ownership map and every rank's local block, and leave the array unchanged, for every layout they accept. Arrays they do not accept are refused on every process.",
  ["configurations", "schedules", "inputs"],
  "all two-dimensional layouts, axes, communicator sizes and schedules",
  "Tests do not execute the plotting helpers on more than a smoke level and never check what is drawn.",
  [PL], [("plot_distributed_array, plot_local_arrays", PL)], ["calls into the drawing library (recorded by a stand-in)"])
p("C29", "GPU-backed arrays give the same results as CPU-backed ones",
  "Arrays and operators using the GPU engine give, element for element up to rounding, the results of the CPU engine, and keep their data on the engine they were created with.",
  ["configurations", "inputs"],
  "all operations with engine cupy versus numpy",
  "Needs a GPU; the tests skip it.",
  [DA, LO, SLO, SD, CL],
  [("engine parameter and get_module", DA)], ["engine and memory (host or device) of every array, on every rank"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
