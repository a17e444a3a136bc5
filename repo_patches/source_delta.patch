From 39c88d562af194bf82aba87a50deb7586bbaceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 01/26] fix: DistributedArray.zeros_like keeps the mask

---
 pylops_mpi/DistributedArray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 431ddb6..0307825 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -545,6 +545,7 @@ class DistributedArray:
                                partition=self.partition,
                                axis=self.axis,
                                local_shapes=self.local_shapes,
+                               mask=self.mask,
                                engine=self.engine,
                                dtype=self.dtype)
         arr[:] = 0.
-- 
2.43.0


From 927edc1e01c81b5f3f33112526ba0eab850aec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 02/26] fix: dot and norm of broadcast arrays stay on their
 communicator

---
 pylops_mpi/DistributedArray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 0307825..ef1a08c 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -488,9 +488,9 @@ class DistributedArray:
         self._check_mask(dist_array)
 
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
-        y = DistributedArray.to_dist(x=dist_array.local_array) \
+        y = DistributedArray.to_dist(x=dist_array.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else dist_array
         # Flatten the local arrays and calculate dot product
         return self._allreduce_subcomm(np.dot(x.local_array.flatten(), y.local_array.flatten()))
@@ -563,7 +563,7 @@ class DistributedArray:
             Axis along which vector norm needs to be computed. Defaults to ``-1``
         """
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
         if axis == -1:
             # Flatten the local arrays and calculate norm
-- 
2.43.0


From 25deadb29a174c8741635f836c552c771345db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 03/26] fix: ravel and stacked conj/copy keep the communicator

---
 pylops_mpi/DistributedArray.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index ef1a08c..ed64b6c 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -617,6 +617,7 @@ class DistributedArray:
         """
         local_shapes = [(np.prod(local_shape, axis=-1), ) for local_shape in self.local_shapes]
         arr = DistributedArray(global_shape=np.prod(self.global_shape),
+                               base_comm=self.base_comm,
                                local_shapes=local_shapes,
                                mask=self.mask,
                                partition=self.partition,
@@ -840,13 +841,15 @@ class StackedDistributedArray:
     def conj(self):
         """Distributed conj() method
         """
-        ConjArray = StackedDistributedArray([distarray.conj() for distarray in self.distarrays])
+        ConjArray = StackedDistributedArray([distarray.conj() for distarray in self.distarrays],
+                                            base_comm=self.base_comm)
         return ConjArray
 
     def copy(self):
         """Creates a copy of the DistributedArray
         """
-        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays])
+        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays],
+                                      base_comm=self.base_comm)
         return arr
 
     def __repr__(self):
-- 
2.43.0


From c97912d32ce368c000ee07ed8d3396c45e63e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 04/26] fix: norm of order +-inf with an empty local array

---
 pylops_mpi/DistributedArray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index ed64b6c..82bc3dc 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -523,12 +523,12 @@ class DistributedArray:
             recv_buf = self._allreduce_subcomm(np.count_nonzero(local_array, axis=axis).astype(np.float64))
         elif ord == np.inf:
             # Calculate max followed by max reduction
-            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array).astype(np.float64), axis=axis, initial=0.),
                                                recv_buf, op=MPI.MAX)
             recv_buf = np.squeeze(recv_buf, axis=axis)
         elif ord == -np.inf:
             # Calculate min followed by min reduction
-            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array).astype(np.float64), axis=axis, initial=np.inf),
                                                recv_buf, op=MPI.MIN)
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
-- 
2.43.0


From 615d77484f6c042873c1c4036dd53212975dca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 05/26] fix: add_ghost_cells refuses too many cells on every
 rank

---
 pylops_mpi/DistributedArray.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 82bc3dc..f38413c 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -628,6 +628,18 @@ class DistributedArray:
         arr[:] = x
         return arr
 
+    def _check_ghost_cells(self, cells, ranks):
+        """Check that each of the given ranks holds the number of cells requested from it
+        """
+        local_shapes = self.local_shapes
+        for ncells, rank in zip(cells, ranks):
+            if ncells > local_shapes[rank][self.axis]:
+                raise ValueError(f"Local Shape at rank={rank} along axis={self.axis} "
+                                 f"should be > {ncells}: dim({self.axis}) "
+                                 f"{local_shapes[rank][self.axis]} < {ncells}; "
+                                 f"to achieve this use NUM_PROCESSES <= "
+                                 f"{max(1, self.global_shape[self.axis] // ncells)}")
+
     def add_ghost_cells(self, cells_front: Optional[int] = None,
                         cells_back: Optional[int] = None):
         """Add ghost cells to the DistributedArray along the axis
@@ -651,31 +663,23 @@ class DistributedArray:
         ghosted_array = self.local_array.copy()
         if cells_front is not None:
             total_cells_front = self.base_comm.allgather(cells_front) + [0]
+            # All ranks must agree on whether every rank has enough cells to send
+            self._check_ghost_cells(total_cells_front[1:-1], range(self.size - 1))
             # Read cells_front which needs to be sent to rank + 1(cells_front for rank + 1)
             cells_front = total_cells_front[self.rank + 1]
             if self.rank != 0:
                 ghosted_array = np.concatenate([self.base_comm.recv(source=self.rank - 1, tag=1), ghosted_array],
                                                axis=self.axis)
             if self.rank != self.size - 1:
-                if cells_front > self.local_shape[self.axis]:
-                    raise ValueError(f"Local Shape at rank={self.rank} along axis={self.axis} "
-                                     f"should be > {cells_front}: dim({self.axis}) "
-                                     f"{self.local_shape[self.axis]} < {cells_front}; "
-                                     f"to achieve this use NUM_PROCESSES <= "
-                                     f"{max(1, self.global_shape[self.axis] // cells_front)}")
                 self.base_comm.send(np.take(self.local_array, np.arange(-cells_front, 0), axis=self.axis),
                                     dest=self.rank + 1, tag=1)
         if cells_back is not None:
             total_cells_back = self.base_comm.allgather(cells_back) + [0]
+            # All ranks must agree on whether every rank has enough cells to send
+            self._check_ghost_cells(total_cells_back[:-2], range(1, self.size))
             # Read cells_back which needs to be sent to rank - 1(cells_back for rank - 1)
             cells_back = total_cells_back[self.rank - 1]
             if self.rank != 0:
-                if cells_back > self.local_shape[self.axis]:
-                    raise ValueError(f"Local Shape at rank={self.rank} along axis={self.axis} "
-                                     f"should be > {cells_back}: dim({self.axis}) "
-                                     f"{self.local_shape[self.axis]} < {cells_back}; "
-                                     f"to achieve this use NUM_PROCESSES <= "
-                                     f"{max(1, self.global_shape[self.axis] // cells_back)}")
                 self.base_comm.send(np.take(self.local_array, np.arange(cells_back), axis=self.axis),
                                     dest=self.rank - 1, tag=0)
             if self.rank != self.size - 1:
-- 
2.43.0


From f3a16409e526383c708afabbe508e2ad7f943dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 06/26] fix: array operations refuse mismatching local shapes
 on every rank

---
 pylops_mpi/DistributedArray.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index f38413c..f2080b0 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -355,28 +355,32 @@ class DistributedArray:
 
     def _check_local_shapes(self, local_shapes):
         """Check if the local shapes align with the global shape"""
+        # The shapes of all ranks are checked, so that all ranks agree on the outcome
         if local_shapes:
             if len(local_shapes) != self.base_comm.size:
                 raise ValueError(f"Length of local shapes is not equal to number of processes; "
                                  f"{len(local_shapes)} != {self.size}")
             # Check if local shape == global shape
-            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] and local_shapes[self.rank] != self.global_shape:
-                raise ValueError(f"Local shape is not equal to global shape at rank = {self.rank};"
-                                 f"{local_shapes[self.rank]} != {self.global_shape}")
+            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
+                for rank, local_shape in enumerate(local_shapes):
+                    if local_shape != self.global_shape:
+                        raise ValueError(f"Local shape is not equal to global shape at rank = {rank};"
+                                         f"{local_shape} != {self.global_shape}")
             elif self.partition is Partition.SCATTER:
-                local_shape = local_shapes[self.rank]
                 # Check if local shape sum up to global shape and other dimensions align with global shape
-                if self._allreduce(local_shape[self.axis]) != self.global_shape[self.axis] or \
-                        not np.array_equal(np.delete(local_shape, self.axis), np.delete(self.global_shape, self.axis)):
+                if any(len(local_shape) != self.ndim for local_shape in local_shapes) or \
+                        sum(local_shape[self.axis] for local_shape in local_shapes) != self.global_shape[self.axis] or \
+                        any(not np.array_equal(np.delete(local_shape, self.axis), np.delete(self.global_shape, self.axis))
+                            for local_shape in local_shapes):
                     raise ValueError(f"Local shapes don't align with the global shape;"
                                      f"{local_shapes} != {self.global_shape}")
 
-    def _check_partition_shape(self, dist_array):
-        """Check Partition and Local Shape of the Array
+    def _check_partition_shape(self, dist_array, comm):
+        """Check Partition and Local Shape of the Array, with the same outcome on all ranks of comm
         """
         if self.partition != dist_array.partition:
             raise ValueError("Partition of both the arrays must be same")
-        if self.local_shape != dist_array.local_shape:
+        if comm.allreduce(self.local_shape != dist_array.local_shape, op=MPI.MAX):
             raise ValueError(f"Local Array Shape Mismatch - "
                              f"{self.local_shape} != {dist_array.local_shape}")
 
@@ -437,7 +441,7 @@ class DistributedArray:
     def add(self, dist_array):
         """Distributed Addition of arrays
         """
-        self._check_partition_shape(dist_array)
+        self._check_partition_shape(dist_array, self.base_comm)
         self._check_mask(dist_array)
         SumArray = DistributedArray(global_shape=self.global_shape,
                                     base_comm=self.base_comm,
@@ -453,7 +457,7 @@ class DistributedArray:
     def iadd(self, dist_array):
         """Distributed In-place Addition of arrays
         """
-        self._check_partition_shape(dist_array)
+        self._check_partition_shape(dist_array, self.sub_comm)
         self._check_mask(dist_array)
         self[:] = self.local_array + dist_array.local_array
         return self
@@ -462,7 +466,7 @@ class DistributedArray:
         """Distributed Element-wise multiplication
         """
         if isinstance(dist_array, DistributedArray):
-            self._check_partition_shape(dist_array)
+            self._check_partition_shape(dist_array, self.base_comm)
             self._check_mask(dist_array)
 
         ProductArray = DistributedArray(global_shape=self.global_shape,
@@ -484,7 +488,7 @@ class DistributedArray:
     def dot(self, dist_array):
         """Distributed Dot Product
         """
-        self._check_partition_shape(dist_array)
+        self._check_partition_shape(dist_array, self.sub_comm)
         self._check_mask(dist_array)
 
         # Convert to Partition.SCATTER if Partition.BROADCAST
-- 
2.43.0


From 75b69376bd11115065c3edb540a8f9fca9c51735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 07/26] fix: composed operators keep the communicator of their
 operands

---
 pylops_mpi/LinearOperator.py        | 12 ++++++------
 pylops_mpi/StackedLinearOperator.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index a7bc9be..05cee1b 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -240,7 +240,7 @@ class _AdjointLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.A.rmatvec(x)
@@ -256,7 +256,7 @@ class _TransposedLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
@@ -281,7 +281,7 @@ class _ProductLinearOperator(MPILinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -305,7 +305,7 @@ class _ScaledLinearOperator(MPILinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
@@ -388,7 +388,7 @@ class _ConjLinearOperator(MPILinearOperator):
         if not isinstance(A, MPILinearOperator):
             raise TypeError('A must be a MPILinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 2133954..a448e8b 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -230,7 +230,7 @@ class _AdjointStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         return self.A.rmatvec(x)
@@ -246,7 +246,7 @@ class _TransposedStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
@@ -276,7 +276,7 @@ class _ProductStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -300,7 +300,7 @@ class _ScaledStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         y = self.args[0].matvec(x)
@@ -331,7 +331,7 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
@@ -384,7 +384,7 @@ class _ConjLinearOperator(MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator):
             raise TypeError('A must be a MPIStackedLinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
-- 
2.43.0


From fd1d877bb579a1900aba05ca2f32bd1a9b095fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 08/26] fix: operators return arrays on their own communicator

---
 pylops_mpi/basicoperators/BlockDiag.py        |  8 ++++----
 pylops_mpi/basicoperators/FirstDerivative.py  | 20 +++++++++----------
 pylops_mpi/basicoperators/SecondDerivative.py | 17 ++++++++--------
 pylops_mpi/basicoperators/VStack.py           |  6 +++---
 pylops_mpi/signalprocessing/Fredholm1.py      |  4 ++--
 pylops_mpi/utils/decorators.py                |  1 +
 6 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index 2851110..e4510c4 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -121,7 +121,7 @@ class MPIBlockDiag(MPILinearOperator):
     @reshaped(forward=True, stacking=True)
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
+        y = DistributedArray(global_shape=self.shape[0], base_comm=self.base_comm, local_shapes=self.local_shapes_n,
                              mask=self.mask, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -133,7 +133,7 @@ class MPIBlockDiag(MPILinearOperator):
     @reshaped(forward=False, stacking=True)
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=self.shape[1], local_shapes=self.local_shapes_m,
+        y = DistributedArray(global_shape=self.shape[1], base_comm=self.base_comm, local_shapes=self.local_shapes_m,
                              mask=self.mask, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -178,10 +178,10 @@ class MPIStackedBlockDiag(MPIStackedLinearOperator):
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.matvec(xx))
-        return StackedDistributedArray(y1)
+        return StackedDistributedArray(y1, base_comm=self.base_comm)
 
     def _rmatvec(self, x: StackedDistributedArray) -> StackedDistributedArray:
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.rmatvec(xx))
-        return StackedDistributedArray(y1)
+        return StackedDistributedArray(y1, base_comm=self.base_comm)
diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 5adbe28..2fa1797 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -129,19 +129,19 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hrmatvec(x)
 
     @reshaped
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=1)
         y_forward = ghosted_x[1:] - ghosted_x[:-1]
@@ -153,7 +153,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         if self.rank == self.size - 1:
@@ -171,7 +171,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1)
         y_backward = ghosted_x[1:] - ghosted_x[:-1]
@@ -183,7 +183,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=1)
@@ -201,7 +201,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = 0.5 * (ghosted_x[2:] - ghosted_x[:-2])
@@ -221,7 +221,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
 
@@ -249,7 +249,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2, cells_back=2)
         y_centered = (
@@ -276,7 +276,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=4)
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 6c4fb96..0cbfa67 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -112,19 +112,19 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hrmatvec(x)
 
     @reshaped
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=2)
         y_forward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -136,7 +136,8 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
+                             axis=x.axis, dtype=self.dtype)
         y[:] = 0
         if self.rank == self.size - 1:
             y[:-2] += x[:-2]
@@ -162,7 +163,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2)
         y_backward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -174,7 +175,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
@@ -201,7 +202,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -221,7 +222,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index f869a9a..90b2a52 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -121,7 +121,7 @@ class MPIVStack(MPILinearOperator):
         if x.partition not in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
-        y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
+        y = DistributedArray(global_shape=self.shape[0], base_comm=self.base_comm, local_shapes=self.local_shapes_n,
                              engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -132,7 +132,7 @@ class MPIVStack(MPILinearOperator):
     @reshaped(forward=False, stacking=True)
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
+        y = DistributedArray(global_shape=self.shape[1], base_comm=self.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -184,7 +184,7 @@ class MPIStackedVStack(MPIStackedLinearOperator):
         y1 = []
         for oper in self.ops:
             y1.append(oper.matvec(x))
-        y = StackedDistributedArray(y1)
+        y = StackedDistributedArray(y1, base_comm=self.base_comm)
         return y
 
     def _rmatvec(self, x: StackedDistributedArray) -> DistributedArray:
diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 3b8a9ef..85e5c31 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -111,7 +111,7 @@ class MPIFredholm1(MPILinearOperator):
         if x.partition not in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
-        y = DistributedArray(global_shape=self.shape[0], partition=Partition.BROADCAST,
+        y = DistributedArray(global_shape=self.shape[0], base_comm=self.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dims).squeeze()
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
@@ -133,7 +133,7 @@ class MPIFredholm1(MPILinearOperator):
         if x.partition not in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
-        y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
+        y = DistributedArray(global_shape=self.shape[1], base_comm=self.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dimsd).squeeze()
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
diff --git a/pylops_mpi/utils/decorators.py b/pylops_mpi/utils/decorators.py
index 457b559..b4a869d 100644
--- a/pylops_mpi/utils/decorators.py
+++ b/pylops_mpi/utils/decorators.py
@@ -54,6 +54,7 @@ def reshaped(
                 local_shapes = None
                 global_shape = getattr(self, "dims")
             arr = DistributedArray(global_shape=global_shape,
+                                   base_comm=x.base_comm,
                                    local_shapes=local_shapes, axis=0,
                                    engine=x.engine, dtype=x.dtype)
             arr_local_shapes = np.asarray(arr.base_comm.allgather(np.prod(arr.local_shape)))
-- 
2.43.0


From 0c148175960a5a10470c43e50036daf6f72e10d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 09/26] fix: operators build their parts on their own
 communicator

---
 pylops_mpi/basicoperators/Gradient.py  | 6 +++---
 pylops_mpi/basicoperators/Laplacian.py | 6 ++++--
 pylops_mpi/waveeqprocessing/MDC.py     | 8 ++++----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pylops_mpi/basicoperators/Gradient.py b/pylops_mpi/basicoperators/Gradient.py
index 89fd5af..551970c 100644
--- a/pylops_mpi/basicoperators/Gradient.py
+++ b/pylops_mpi/basicoperators/Gradient.py
@@ -103,7 +103,7 @@ class MPIGradient(MPIStackedLinearOperator):
         grad_ops = []
         Op1 = MPIFirstDerivative(dims=self.dims, sampling=self.sampling[0],
                                  kind=self.kind, edge=self.edge,
-                                 dtype=self.dtype)
+                                 base_comm=self.base_comm, dtype=self.dtype)
         grad_ops.append(Op1)
         for iax in range(1, ndims):
             diag = MPIBlockDiag([
@@ -114,6 +114,6 @@ class MPIGradient(MPIStackedLinearOperator):
                     edge=self.edge,
                     kind=self.kind,
                     dtype=self.dtype)
-            ])
+            ], base_comm=self.base_comm)
             grad_ops.append(diag)
-        return MPIStackedVStack(ops=grad_ops)
+        return MPIStackedVStack(ops=grad_ops, base_comm=self.base_comm)
diff --git a/pylops_mpi/basicoperators/Laplacian.py b/pylops_mpi/basicoperators/Laplacian.py
index 7cc482e..1107685 100644
--- a/pylops_mpi/basicoperators/Laplacian.py
+++ b/pylops_mpi/basicoperators/Laplacian.py
@@ -101,6 +101,7 @@ class MPILaplacian(MPILinearOperator):
                                                          sampling=self.sampling[0],
                                                          kind=self.kind,
                                                          edge=self.edge,
+                                                         base_comm=self.base_comm,
                                                          dtype=self.dtype)
         else:
             l2op = self.weights[0] * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
@@ -108,17 +109,18 @@ class MPILaplacian(MPILinearOperator):
                                                                         sampling=self.sampling[0],
                                                                         kind=self.kind,
                                                                         edge=self.edge,
-                                                                        dtype=self.dtype)])
+                                                                        dtype=self.dtype)], base_comm=self.base_comm)
         for ax, samp, weight in zip(self.axes[1:], self.sampling[1:], self.weights[1:]):
             if ax == 0:
                 l2op += weight * MPISecondDerivative(dims=self.dims,
                                                      sampling=samp,
                                                      edge=self.edge,
+                                                     base_comm=self.base_comm,
                                                      dtype=self.dtype)
             else:
                 l2op += weight * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
                                                                     axis=ax,
                                                                     sampling=samp,
                                                                     edge=self.edge,
-                                                                    dtype=self.dtype)])
+                                                                    dtype=self.dtype)], base_comm=self.base_comm)
         return l2op
diff --git a/pylops_mpi/waveeqprocessing/MDC.py b/pylops_mpi/waveeqprocessing/MDC.py
index 18980bf..b87622f 100644
--- a/pylops_mpi/waveeqprocessing/MDC.py
+++ b/pylops_mpi/waveeqprocessing/MDC.py
@@ -53,15 +53,15 @@ def _MDC(G, nt, nv, nfmax, dt=1., dr=1., twosided=True,
         logging.warning('nfmax set equal to ceil[(nt+1)/2=%d]' % nfmax)
 
     Fop = MPILinearOperator(_FFT(dims=(nt, nr, nv), axis=0, real=True,
-                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT))
+                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT), base_comm=base_comm)
     F1op = MPILinearOperator(_FFT(dims=(nt, ns, nv), axis=0, real=True,
-                                  ifftshift_before=False, dtype=rdtype, **args_FFT1))
+                                  ifftshift_before=False, dtype=rdtype, **args_FFT1), base_comm=base_comm)
 
     # create Identity operator to extract only relevant frequencies
     Iop = MPILinearOperator(_Identity(N=nfmax * nr * nv, M=nfft * nr * nv,
-                                      inplace=True, dtype=dtype, **args_Identity))
+                                      inplace=True, dtype=dtype, **args_Identity), base_comm=base_comm)
     I1op = MPILinearOperator(_Identity(N=nfmax * ns * nv, M=nfft * ns * nv,
-                                       inplace=True, dtype=dtype, **args_Identity1))
+                                       inplace=True, dtype=dtype, **args_Identity1), base_comm=base_comm)
     F1opH = F1op.H
     I1opH = I1op.H
 
-- 
2.43.0


From 96fe20ba0da009ddafd3943688926372eb61a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 10/26] fix: sum and difference of stacked operators of
 different kinds

---
 pylops_mpi/StackedLinearOperator.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index a448e8b..370ee17 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -326,8 +326,6 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
     def __init__(self, A: MPIStackedLinearOperator, B: MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator) or not isinstance(B, MPIStackedLinearOperator):
             raise ValueError('both operands have to be a MPIStackedLinearOperator')
-        if type(A) != type(B):  # noqa: E721
-            raise ValueError(f'both operands have to be of same type, {A} != {B}')
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-- 
2.43.0


From c8fa16061b08d088418f93dd92352e925377dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 11/26] fix: powers of stacked operators and powers whose
 layout or dtype changes

---
 pylops_mpi/LinearOperator.py        | 2 +-
 pylops_mpi/StackedLinearOperator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index 05cee1b..ff1a91e 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -370,7 +370,7 @@ class _PowerLinearOperator(MPILinearOperator):
     def _power(self, fun: Callable, x: DistributedArray) -> DistributedArray:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res).local_array
+            res = fun(res)
         return res
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 370ee17..8f6969c 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -364,7 +364,7 @@ class _PowerLinearOperator(MPIStackedLinearOperator):
     def _power(self, fun: Callable, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res)[:]
+            res = fun(res)
         return res
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
-- 
2.43.0


From 302449245c2fd7592f5780bdfbf8d432840ce330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 12/26] fix: MPIFredholm1 refuses unsupported splits on every
 rank

---
 pylops_mpi/signalprocessing/Fredholm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 85e5c31..35733d3 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -87,7 +87,7 @@ class MPIFredholm1(MPILinearOperator):
         self.nz = nz
         self.nsl, self.nx, self.ny = G.shape
         self.nsls = base_comm.allgather(self.nsl)
-        if base_comm.Get_rank() == 0 and 1 in self.nsls:
+        if 1 in self.nsls:
             raise NotImplementedError(f'All ranks must have at least 2 or more '
                                       f'elements in the first dimension: '
                                       f'local split is instead {self.nsls}...')
-- 
2.43.0


From 5144a3756e098b5b87f043854be0feaa75165f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 13/26] fix: derivatives refuse blocks smaller than the stencil
 on every rank

---
 pylops_mpi/basicoperators/FirstDerivative.py  | 15 +++++++++++++++
 pylops_mpi/basicoperators/SecondDerivative.py | 11 +++++++++++
 2 files changed, 26 insertions(+)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 2fa1797..12b3ab6 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -126,6 +126,12 @@ class MPIFirstDerivative(MPILinearOperator):
                 "'kind' must be 'forward', 'centered', or 'backward'"
             )
 
+    def _check_block_size(self, nrows: int) -> None:
+        # blocks of the redistributed array: the smallest one is owned by the last rank
+        if self.dims[0] // self.size < nrows:
+            raise ValueError(f"every rank needs at least {nrows} row(s) along the first axis; "
+                             f"dims={self.dims} over {self.size} ranks")
+
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
@@ -152,6 +158,7 @@ class MPIFirstDerivative(MPILinearOperator):
 
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
+        self._check_block_size(1)
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
@@ -200,6 +207,8 @@ class MPIFirstDerivative(MPILinearOperator):
 
     @reshaped
     def _matvec_centered3(self, x: DistributedArray) -> DistributedArray:
+        if self.edge:
+            self._check_block_size(2)
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
@@ -220,6 +229,8 @@ class MPIFirstDerivative(MPILinearOperator):
 
     @reshaped
     def _rmatvec_centered3(self, x: DistributedArray) -> DistributedArray:
+        if self.edge:
+            self._check_block_size(2)
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
@@ -248,6 +259,8 @@ class MPIFirstDerivative(MPILinearOperator):
 
     @reshaped
     def _matvec_centered5(self, x: DistributedArray) -> DistributedArray:
+        if self.edge:
+            self._check_block_size(3)
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
@@ -275,6 +288,8 @@ class MPIFirstDerivative(MPILinearOperator):
 
     @reshaped
     def _rmatvec_centered5(self, x: DistributedArray) -> DistributedArray:
+        if self.edge:
+            self._check_block_size(3)
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 0cbfa67..fe1d6a6 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -109,6 +109,12 @@ class MPISecondDerivative(MPILinearOperator):
                 "'kind' must be 'forward', 'centered' or 'backward'"
             )
 
+    def _check_block_size(self, nrows: int) -> None:
+        # blocks of the redistributed array: the smallest one is owned by the last rank
+        if self.dims[0] // self.size < nrows:
+            raise ValueError(f"every rank needs at least {nrows} row(s) along the first axis; "
+                             f"dims={self.dims} over {self.size} ranks")
+
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
@@ -135,6 +141,7 @@ class MPISecondDerivative(MPILinearOperator):
 
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
+        self._check_block_size(2)
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, dtype=self.dtype)
@@ -201,6 +208,8 @@ class MPISecondDerivative(MPILinearOperator):
 
     @reshaped
     def _matvec_centered(self, x: DistributedArray) -> DistributedArray:
+        if self.edge:
+            self._check_block_size(3)
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
@@ -221,6 +230,8 @@ class MPISecondDerivative(MPILinearOperator):
 
     @reshaped
     def _rmatvec_centered(self, x: DistributedArray) -> DistributedArray:
+        if self.edge:
+            self._check_block_size(3)
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
-- 
2.43.0


From da7faf1f6c6b4c3aac9a18bb9eb323e99fb1866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 14/26] fix: CGLS damps the initial guess with the square of
 damp

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index db7349a..cf250f5 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -337,7 +337,7 @@ class CGLS(Solver):
 
         x = x0.copy()
         self.s = self.y - self.Op.matvec(x)
-        damped_x = x * damp
+        damped_x = x * self.damp
         r = self.Op.rmatvec(self.s) - damped_x
         self.rank = x.rank
         self.c = r.copy()
@@ -348,7 +348,7 @@ class CGLS(Solver):
         self.cost = []
         self.cost1 = []
         self.cost.append(float(self.s.norm()))
-        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + damp * np.abs(x.dot(x.conj())))))
+        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + self.damp * np.abs(x.dot(x.conj())))))
         self.iiter = 0
 
         # print setup
-- 
2.43.0


From 819971851d7a6bf9b28bf5cd1ffe31d2e2e19ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 15/26] fix: CGLS reports the residual norm as r1norm

---
 pylops_mpi/optimization/cls_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index cf250f5..34a1884 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -454,7 +454,7 @@ class CGLS(Solver):
         self.telapsed = self.tend - self.tstart
         # reason for termination
         self.istop = 1 if self.kold < self.tol else 2
-        self.r1norm = self.kold
+        self.r1norm = self.cost[self.iiter]
         self.r2norm = self.cost1[self.iiter]
         if show and self.rank == 0:
             self._print_finalize(nbar=65)
-- 
2.43.0


From ac2647f386f60aa5c5ff3efb13e364f1a398b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 16/26] fix: solver logs of stacked vectors with parts of
 different sizes

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index 34a1884..ad1d417 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -98,7 +98,7 @@ class CG(Solver):
 
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
@@ -354,7 +354,7 @@ class CGLS(Solver):
         # print setup
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
-- 
2.43.0


From f0226b7ffcf13e6b5cfeba09ac1917cab7e569e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 17/26] fix: solver logs when rank 0 owns no element

---
 pylops_mpi/optimization/cls_basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index ad1d417..6d0207d 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -46,7 +46,8 @@ class CG(Solver):
     def _print_step(self, x: Union[DistributedArray, StackedDistributedArray]) -> None:
         if isinstance(x, StackedDistributedArray):
             x = x.distarrays[0]
-        strx = f"{x[0]:1.2e}        " if np.iscomplexobj(x.local_array) else f"{x[0]:11.4e}        "
+        x0 = x[0] if x.local_array.size else np.nan
+        strx = f"{x0:1.2e}        " if np.iscomplexobj(x.local_array) else f"{x0:11.4e}        "
         msg = f"{self.iiter:6g}        " + strx + f"{self.cost[self.iiter]:11.4e}"
         print(msg)
         sys.stdout.flush()
@@ -289,7 +290,8 @@ class CGLS(Solver):
     def _print_step(self, x: Union[DistributedArray, StackedDistributedArray]) -> None:
         if isinstance(x, StackedDistributedArray):
             x = x.distarrays[0]
-        strx = f"{x[0]:1.2e}   " if np.iscomplexobj(x.local_array) else f"{x[0]:11.4e}        "
+        x0 = x[0] if x.local_array.size else np.nan
+        strx = f"{x0:1.2e}   " if np.iscomplexobj(x.local_array) else f"{x0:11.4e}        "
         msg = (
             f"{self.iiter:6g}       "
             + strx
-- 
2.43.0


From 8155080e58669b2231031a1597f5f34ebf2f4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 18/26] fix: error raised for operators applied to
 multi-dimensional arrays

---
 pylops_mpi/LinearOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index ff1a91e..4dc351a 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -146,7 +146,7 @@ class MPILinearOperator:
                 return self.matvec(x)
             else:
                 raise ValueError('expected 1-d DistributedArray, got %r'
-                                 % x.global_shape)
+                                 % (x.global_shape,))
 
     def adjoint(self):
         """Adjoint MPI LinearOperator
-- 
2.43.0


From 31eaca3f4ba2e6f885f4a33061b9e16eaab12612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 19/26] fix: masked arrays share one sub-communicator per mask

---
 pylops_mpi/DistributedArray.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index f2080b0..3da6bad 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -57,6 +57,22 @@ def local_split(global_shape: Tuple, base_comm: MPI.Comm,
     return tuple(local_shape)
 
 
+# Sub-communicators of masked arrays, cached on their base communicator
+_SUB_COMMS = MPI.Comm.Create_keyval()
+
+
+def _split_comm(base_comm: MPI.Comm, mask: List[Integral]) -> MPI.Comm:
+    """Sub-communicator of the ranks with the same mask as this rank. It is
+    created once per mask, and shared by all the arrays with that mask."""
+    sub_comms = base_comm.Get_attr(_SUB_COMMS)
+    if sub_comms is None:
+        sub_comms = {}
+        base_comm.Set_attr(_SUB_COMMS, sub_comms)
+    if tuple(mask) not in sub_comms:
+        sub_comms[tuple(mask)] = base_comm.Split(color=mask[base_comm.rank], key=base_comm.rank)
+    return sub_comms[tuple(mask)]
+
+
 class DistributedArray:
     r"""Distributed Numpy Arrays
 
@@ -117,7 +133,7 @@ class DistributedArray:
         self._partition = partition
         self._axis = axis
         self._mask = mask
-        self._sub_comm = base_comm if mask is None else base_comm.Split(color=mask[base_comm.rank], key=base_comm.rank)
+        self._sub_comm = base_comm if mask is None else _split_comm(base_comm, mask)
 
         local_shapes = local_shapes if local_shapes is None else [_value_or_sized_to_tuple(local_shape) for local_shape in local_shapes]
         self._check_local_shapes(local_shapes)
-- 
2.43.0


From 2e9643cd31f459c66b7394116931b2e9d9fc6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 20/26] fix: stacked operators refuse multi-dimensional stacked
 arrays

---
 pylops_mpi/StackedLinearOperator.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 8f6969c..e66b44f 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -133,10 +133,8 @@ class MPIStackedLinearOperator(ABC):
         else:
             if x is None or (isinstance(x, DistributedArray) and x.ndim == 1):
                 return self.matvec(x)
-            elif isinstance(x, StackedDistributedArray):
-                ndims = np.unique([dis.ndim for dis in x.distarrays])
-                if len(ndims) == 1 and ndims[0] == 1:
-                    return self.matvec(x)
+            elif isinstance(x, StackedDistributedArray) and all(dis.ndim == 1 for dis in x.distarrays):
+                return self.matvec(x)
             else:
                 raise ValueError('expected 1-d DistributedArray or StackedDistributedArray')
 
-- 
2.43.0


From a41565c89cf78013e81e356366e200148bb7bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 21/26] fix: adjoint of the forward second derivative keeps the
 engine of its input

---
 pylops_mpi/basicoperators/SecondDerivative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index fe1d6a6..3be3f2f 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -144,7 +144,7 @@ class MPISecondDerivative(MPILinearOperator):
         self._check_block_size(2)
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
-                             axis=x.axis, dtype=self.dtype)
+                             axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         if self.rank == self.size - 1:
             y[:-2] += x[:-2]
-- 
2.43.0


From a7a7f3718d9beb74aca899c8e746bd31804d158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 22/26] fix: infinity norms of arrays of the GPU engine

---
 pylops_mpi/DistributedArray.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 3da6bad..dda09d8 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -515,6 +515,15 @@ class DistributedArray:
         # Flatten the local arrays and calculate dot product
         return self._allreduce_subcomm(np.dot(x.local_array.flatten(), y.local_array.flatten()))
 
+    def _pad_empty(self, local_array: NDArray, axis: int, value: float):
+        """Replace a local array without elements along axis by one neutral element of a reduction
+        """
+        if local_array.shape[axis] > 0:
+            return local_array
+        shape = list(local_array.shape)
+        shape[axis] = 1
+        return get_module(self.engine).full(shape, value)
+
     def _compute_vector_norm(self, local_array: NDArray,
                              axis: int, ord: Optional[int] = None):
         """Compute Vector norm using MPI
@@ -543,12 +552,14 @@ class DistributedArray:
             recv_buf = self._allreduce_subcomm(np.count_nonzero(local_array, axis=axis).astype(np.float64))
         elif ord == np.inf:
             # Calculate max followed by max reduction
-            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array).astype(np.float64), axis=axis, initial=0.),
+            abs_array = self._pad_empty(np.abs(local_array), axis, 0.)
+            recv_buf = self._allreduce_subcomm(np.max(abs_array, axis=axis).astype(np.float64),
                                                recv_buf, op=MPI.MAX)
             recv_buf = np.squeeze(recv_buf, axis=axis)
         elif ord == -np.inf:
             # Calculate min followed by min reduction
-            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array).astype(np.float64), axis=axis, initial=np.inf),
+            abs_array = self._pad_empty(np.abs(local_array), axis, np.inf)
+            recv_buf = self._allreduce_subcomm(np.min(abs_array, axis=axis).astype(np.float64),
                                                recv_buf, op=MPI.MIN)
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
-- 
2.43.0


From 816090bafa6e4ede724ea9a34a40d5bb9e9d4233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 23/26] fix: sums and products of arrays keep the imaginary
 part of complex operands

---
 pylops_mpi/DistributedArray.py | 38 +++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index dda09d8..648ad8d 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -454,20 +454,27 @@ class DistributedArray:
     def __rmul__(self, x):
         return self.multiply(x)
 
+    def _result_dtype(self, dtype: DTypeLike):
+        """dtype of the result of an operation: that of the DistributedArray, unless
+        it is of another kind (e.g., the imaginary part of complex values would be lost)
+        """
+        return self.dtype if np.can_cast(dtype, self.dtype, casting="same_kind") else dtype
+
     def add(self, dist_array):
         """Distributed Addition of arrays
         """
         self._check_partition_shape(dist_array, self.base_comm)
         self._check_mask(dist_array)
+        sum_local = self.local_array + dist_array.local_array
         SumArray = DistributedArray(global_shape=self.global_shape,
                                     base_comm=self.base_comm,
-                                    dtype=self.dtype,
+                                    dtype=self._result_dtype(sum_local.dtype),
                                     partition=self.partition,
                                     local_shapes=self.local_shapes,
                                     mask=self.mask,
                                     engine=self.engine,
                                     axis=self.axis)
-        SumArray[:] = self.local_array + dist_array.local_array
+        SumArray[:] = sum_local
         return SumArray
 
     def iadd(self, dist_array):
@@ -484,21 +491,21 @@ class DistributedArray:
         if isinstance(dist_array, DistributedArray):
             self._check_partition_shape(dist_array, self.base_comm)
             self._check_mask(dist_array)
+            # multiply two DistributedArray
+            product_local = self.local_array * dist_array.local_array
+        else:
+            # multiply with scalar
+            product_local = self.local_array * dist_array
 
         ProductArray = DistributedArray(global_shape=self.global_shape,
                                         base_comm=self.base_comm,
-                                        dtype=self.dtype,
+                                        dtype=self._result_dtype(product_local.dtype),
                                         partition=self.partition,
                                         local_shapes=self.local_shapes,
                                         mask=self.mask,
                                         engine=self.engine,
                                         axis=self.axis)
-        if isinstance(dist_array, DistributedArray):
-            # multiply two DistributedArray
-            ProductArray[:] = self.local_array * dist_array.local_array
-        else:
-            # multiply with scalar
-            ProductArray[:] = self.local_array * dist_array
+        ProductArray[:] = product_local
         return ProductArray
 
     def dot(self, dist_array):
@@ -808,9 +815,8 @@ class StackedDistributedArray:
 
         """
         self._check_stacked_size(stacked_array)
-        SumArray = self.copy()
-        for iarr in range(self.narrays):
-            SumArray[iarr][:] = (self[iarr] + stacked_array[iarr])[:]
+        SumArray = StackedDistributedArray([self[iarr] + stacked_array[iarr] for iarr in range(self.narrays)],
+                                           base_comm=self.base_comm)
         return SumArray
 
     def iadd(self, stacked_array):
@@ -826,16 +832,14 @@ class StackedDistributedArray:
         """
         if isinstance(stacked_array, StackedDistributedArray):
             self._check_stacked_size(stacked_array)
-        ProductArray = self.copy()
 
         if isinstance(stacked_array, StackedDistributedArray):
             # multiply two DistributedArray
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array[iarr])[:]
+            products = [self[iarr] * stacked_array[iarr] for iarr in range(self.narrays)]
         else:
             # multiply with scalar
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array)[:]
+            products = [self[iarr] * stacked_array for iarr in range(self.narrays)]
+        ProductArray = StackedDistributedArray(products, base_comm=self.base_comm)
         return ProductArray
 
     def dot(self, stacked_array):
-- 
2.43.0


From 6a72c250ffd264b7ee35eef720251ef9fd8ce0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 24/26] fix: operators scaled by complex numbers, or that
 return their input, when applied

---
 pylops_mpi/LinearOperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index 4dc351a..ddc549c 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -310,13 +310,13 @@ class _ScaledLinearOperator(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
         if y is not None:
-            y[:] *= self.args[1]
+            y = y * self.args[1]
         return y
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].rmatvec(x)
         if y is not None:
-            y[:] *= np.conj(self.args[1])
+            y = y * np.conj(self.args[1])
         return y
 
     def _adjoint(self) -> MPILinearOperator:
-- 
2.43.0


From 19525e861257f607bedc43b4fb4350c37adeabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 25/26] fix: dtype of sums of operators with different dtypes

---
 pylops_mpi/LinearOperator.py        | 2 +-
 pylops_mpi/StackedLinearOperator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index ddc549c..2dd9655 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index e66b44f..4a527bd 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -327,7 +327,7 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
-- 
2.43.0


From b91851e742be34737db3bc52f21a1d1492695c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 26/26] fix: dot product of stacked arrays of the GPU engine
 with real and complex parts

---
 pylops_mpi/DistributedArray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 648ad8d..129881e 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -848,7 +848,7 @@ class StackedDistributedArray:
         self._check_stacked_size(stacked_array)
         dotprod = 0.
         for iarr in range(self.narrays):
-            dotprod += self[iarr].dot(stacked_array[iarr])
+            dotprod = dotprod + self[iarr].dot(stacked_array[iarr])
         return dotprod
 
     def norm(self, ord: Optional[int] = None):
-- 
2.43.0

