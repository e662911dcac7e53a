From 1d64002a40815d49cd02bb91ee3ae6cfccc22150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 01/67] fix: transpile the gates that follow an identity gate

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 046500b..f14d2ce 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -940,7 +940,7 @@ def instructions_to_jcz(instrs: Iterable[InstructionType]) -> Iterator[instructi
             case InstructionKind.J | InstructionKind.CZ | InstructionKind.M:
                 yield instr
             case InstructionKind.I:
-                return
+                continue
             case InstructionKind.H:
                 yield instruction.J(instr.target, 0)
             case InstructionKind.S:
-- 
2.43.0


From 5ff9aa602dcbb1d851ce61d02881a33b99b92e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 02/67] fix: transpile circuits that measure a swapped qubit

---
 graphix/transpiler.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index f14d2ce..d00ddb4 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1009,13 +1009,10 @@ class TranspileSwapsResult:
 
     def extract_output_node_indices(self) -> tuple[int, ...]:
         """Return for each output node, sorted in the order of the original circuit, the index of the corresponding output node in the order of the swapped circuit."""
-        reduced_index = {}
-        reduced_counter = 0
-        for index, output in enumerate(self.outputs):
-            if output.kind == OutputKind.Qubit:
-                reduced_index[index] = reduced_counter
-                reduced_counter += 1
-        return tuple(reduced_index[index] for index in self.extract_outputs(OutputKind.Qubit))
+        indices = self.extract_outputs(OutputKind.Qubit)
+        # The output nodes of the swapped circuit are the qubits that it leaves unmeasured, in increasing order.
+        reduced_index = {index: reduced for reduced, index in enumerate(sorted(indices))}
+        return tuple(reduced_index[index] for index in indices)
 
     def swap_output_nodes(self, output_nodes: Sequence[Node]) -> tuple[Node, ...]:
         """Reorder the output nodes of a pattern obtained from a swapped circuit to restore the qubit ordering of the original circuit."""
-- 
2.43.0


From e073401098a3805aa6318cd44c55e9ed845921b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 03/67] fix: keep classical outputs in the order of the gates
 when swaps are eliminated

---
 graphix/transpiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index d00ddb4..c15205b 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1020,7 +1020,8 @@ class TranspileSwapsResult:
 
     def swap_classical_outputs(self, classical_outputs: Sequence[Node]) -> tuple[int, ...]:
         """Reorder the classical outpus of a pattern obtained from a swapped circuit to restore the output ordering of the original circuit."""
-        return tuple(classical_outputs[index] for index in self.extract_outputs(OutputKind.Bit))
+        # ``OutputIndex.index`` numbers the measurements in the order of the gates.
+        return tuple(classical_outputs[index] for index in sorted(self.extract_outputs(OutputKind.Bit)))
 
 
 class OutputKind(Enum):
-- 
2.43.0


From e3340333a13a5a21dc869347675317325f6d8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 04/67] fix: report circuits with parameterized J gates as
 parameterized

---
 graphix/transpiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index c15205b..0419a79 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -700,7 +700,13 @@ class Circuit(InplaceParameterizable):
         """
         for instr in self.instruction:
             match instr.kind:
-                case InstructionKind.RZZ | InstructionKind.RX | InstructionKind.RY | InstructionKind.RZ:
+                case (
+                    InstructionKind.RZZ
+                    | InstructionKind.RX
+                    | InstructionKind.RY
+                    | InstructionKind.RZ
+                    | InstructionKind.J
+                ):
                     if not isinstance(instr.angle, SupportsFloat):
                         return True
         return False
-- 
2.43.0


From 6d9b1df7585aff7a7f52f25a20d12a148eeb9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 05/67] fix: do not modify other patterns when shifting signals
 with the mc method

---
 graphix/pattern.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6597aab..058eb9f 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -655,6 +655,8 @@ class Pattern(InplaceParameterizable):
             case "direct":
                 return self.shift_signals_direct()
             case "mc":
+                # The commands are modified below and may be shared with other patterns.
+                self.__seq = [copy.copy(cmd) for cmd in self.__seq]
                 signal_dict = self.signals()
                 target = self._find_op_to_be_moved(CommandKind.S, rev=True)
                 while target is not None:
@@ -846,7 +848,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert x.kind == CommandKind.X
         if s.node in x.domain:
-            x.domain ^= s.domain
+            x.domain = x.domain ^ s.domain
         self._commute_with_following(target)
 
     def _commute_zs(self, target: int) -> None:
@@ -863,7 +865,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert z.kind == CommandKind.Z
         if s.node in z.domain:
-            z.domain ^= s.domain
+            z.domain = z.domain ^ s.domain
         self._commute_with_following(target)
 
     def _commute_ms(self, target: int) -> None:
@@ -880,9 +882,9 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert m.kind == CommandKind.M
         if s.node in m.s_domain:
-            m.s_domain ^= s.domain
+            m.s_domain = m.s_domain ^ s.domain
         if s.node in m.t_domain:
-            m.t_domain ^= s.domain
+            m.t_domain = m.t_domain ^ s.domain
         self._commute_with_following(target)
 
     def _commute_ss(self, target: int) -> None:
@@ -899,7 +901,7 @@ class Pattern(InplaceParameterizable):
         assert s1.kind == CommandKind.S
         assert s2.kind == CommandKind.S
         if s1.node in s2.domain:
-            s2.domain ^= s1.domain
+            s2.domain = s2.domain ^ s1.domain
         self._commute_with_following(target)
 
     def _commute_with_following(self, target: int) -> None:
-- 
2.43.0


From 3f009b58aab1ad74307a81f1d05f7a10eee69ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 06/67] fix: return the same signals from both signal-shifting
 methods

---
 graphix/pattern.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 058eb9f..5b89da4 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -657,7 +657,12 @@ class Pattern(InplaceParameterizable):
             case "mc":
                 # The commands are modified below and may be shared with other patterns.
                 self.__seq = [copy.copy(cmd) for cmd in self.__seq]
-                signal_dict = self.signals()
+                # As in the direct method, express every signal in terms of the outcomes of the shifted pattern.
+                signal_dict: dict[int, set[int]] = {}
+                for node, signal in self.signals().items():
+                    signal_dict[node] = set(signal)
+                    for pred in signal & signal_dict.keys():
+                        signal_dict[node] ^= signal_dict[pred]
                 target = self._find_op_to_be_moved(CommandKind.S, rev=True)
                 while target is not None:
                     if target == len(self.__seq) - 1:
@@ -2053,9 +2058,9 @@ def shift_outcomes(outcomes: Mapping[int, Outcome], signal_dict: Mapping[int, Ab
     (measurements) while leaving the quantum state invariant.
 
     This method updates the given ``outcomes`` by swapping the
-    measurements affected by signals. This can be used either to
-    transform the results into measurements observed in the unshifted
-    pattern, or vice versa.
+    measurements affected by signals, to transform the results
+    observed in the shifted pattern into the results that the
+    unshifted pattern gives in the same branch.
 
     Parameters
     ----------
-- 
2.43.0


From e962fdeabd18dcf6b359213fa4db754fc348c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 07/67] fix: count input nodes in Pattern.space_list

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 5b89da4..9616c10 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1381,7 +1381,7 @@ class Pattern(InplaceParameterizable):
         N_list : list
             time evolution of 'space' at each 'N' and 'M' commands of pattern.
         """
-        nodes = 0
+        nodes = len(self.__input_nodes)
         n_list = []
         for cmd in self.__seq:
             match cmd.kind:
-- 
2.43.0


From fb5473731e72c76994eb8d5d5503f543821c4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 08/67] fix: find the connected nodes of patterns that end with
 entanglement commands

---
 graphix/pattern.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 9616c10..a6c2fec 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1279,15 +1279,14 @@ class Pattern(InplaceParameterizable):
         node_list = []
         ind = self._find_op_to_be_moved(CommandKind.E)
         if ind is not None:  # end -> 'node' is isolated
-            cmd = self.__seq[ind]
-            while cmd.kind == CommandKind.E:
+            for cmd in self.__seq[ind:]:
+                if cmd.kind != CommandKind.E:
+                    break
                 if cmd.nodes[0] == node:
                     if cmd.nodes[1] not in prepared:
                         node_list.append(cmd.nodes[1])
                 elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
                     node_list.append(cmd.nodes[0])
-                ind += 1
-                cmd = self.__seq[ind]
         return node_list
 
     def correction_commands(self) -> list[command.X | command.Z]:
-- 
2.43.0


From bcfc655c389fa470537eb16c5ab28a8c10f0593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 09/67] fix: pass the random generator to the default branch
 selector

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a8b6a75..a871395 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -131,7 +131,7 @@ class FixedBranchSelector(BranchSelector, Generic[_T]):
         if result is None:
             if self.default is None:
                 raise ValueError(f"Unexpected measurement of qubit {qubit}.")
-            return self.default.measure(qubit, f_expectation0)
+            return self.default.measure(qubit, f_expectation0, rng, stacklevel=stacklevel + 1)
         return result
 
 
-- 
2.43.0


From 995cbe5e28bee6f3fafcde3eae0424a7ce5158b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 10/67] fix: update the node count when commands are removed in
 place

---
 graphix/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index a6c2fec..2c7446a 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1929,6 +1929,7 @@ class Pattern(InplaceParameterizable):
             return pattern
         self.__seq = pattern.__seq
         self.__output_nodes = pattern.__output_nodes
+        self.__n_node = pattern.__n_node
         return self
 
     def remove_local_clifford_commands(self, *, copy: bool = False) -> Pattern:
@@ -1959,6 +1960,7 @@ class Pattern(InplaceParameterizable):
             return new_pattern
         self.__seq = new_pattern.__seq
         self.__output_nodes = new_pattern.__output_nodes
+        self.__n_node = new_pattern.__n_node
         return self
 
 
-- 
2.43.0


From eae17c167625e9f2e29ddb69c2d765f0c72212c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 11/67] fix: reject statevectors whose length is not a power of
 two when nqubit is given

---
 graphix/sim/statevec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 0cb4eac..6611e38 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -187,9 +187,9 @@ class Statevector(DenseState):
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
         elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)):
             inferred_nqubit = length.bit_length() - 1
+            if length & (length - 1):
+                raise ValueError(f"Length of input data is not a power of two: {length}.")
             if nqubit is None:
-                if length & (length - 1):
-                    raise ValueError(f"Length of input data is not a power of two: {length}.")
                 nqubit = inferred_nqubit
             elif nqubit != inferred_nqubit:
                 raise ValueError(f"Mismatch between nqubit and inferred nqubit: {nqubit} != {inferred_nqubit}.")
-- 
2.43.0


From 146c0ce45f6458b5bcb1cff951c954c1abcebc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 12/67] fix: check the bounds of swapped qubits in Statevector

---
 graphix/sim/statevec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 6611e38..1aac6de 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -503,6 +503,8 @@ class Statevector(DenseState):
         qubits : tuple[int, int]
             (control, target) qubit indices.
         """
+        for qubit in qubits:
+            self._check_bounds(qubit)
         _swap_jit(self._psi, self.nqubit, *qubits)
 
     def tensor(self, other: Statevector) -> None:
-- 
2.43.0


From f1a87a7dbdbe1c84c7babdd89e85e52a2f1c518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 13/67] fix: do not normalize the density matrix whose
 expectation value is taken

---
 graphix/sim/density_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index ad42a0e..4a621e9 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -278,7 +278,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         if op.shape != (2, 2):
             raise ValueError("op must be 2x2 matrix.")
 
-        st1 = _copy.copy(self)
+        # `normalize` works in place on the array: do not share it with `self`.
+        st1 = DensityMatrix(self)
         st1.normalize()
 
         nqubit = self.nqubit
-- 
2.43.0


From edf3308892abb23704e6dfa8557297f9b5dde0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 14/67] fix: store numerical density matrices as complex arrays

---
 graphix/sim/density_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 4a621e9..8ce9f65 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -103,6 +103,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                     raise ValueError("Cannot interpret the provided density matrix as a qubit operator.")
                 check_size_consistency(self.rho)
                 if self.rho.dtype != np.object_:
+                    self.rho = self.rho.astype(np.complex128, copy=False)
                     if not lv.is_unit_trace(self.rho):
                         raise ValueError("Density matrix must have unit trace.")
                     if not lv.is_psd(self.rho):
-- 
2.43.0


From 3ba68d7dd9d9260ba32d1499da7dd68da64e1dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 15/67] fix: tolerate rounding errors in DensityMatrix.fidelity

---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 8ce9f65..b0ccc15 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -408,7 +408,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         result = vdot(statevec.psi, matmul(self.rho, statevec.psi))
         if isinstance(result, Expression):
             return result
-        assert math.isclose(result.imag, 0)
+        assert math.isclose(result.imag, 0, abs_tol=1e-8)
         return result.real
 
     def flatten(self) -> Matrix:
-- 
2.43.0


From 2de2b1096860ad515f441a69b441888f96a3075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 16/67] fix: compose empty patterns and open graphs

---
 graphix/opengraph.py | 2 +-
 graphix/pattern.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/opengraph.py b/graphix/opengraph.py
index a896a92..21afe60 100644
--- a/graphix/opengraph.py
+++ b/graphix/opengraph.py
@@ -711,7 +711,7 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
             if vm is not None and (uc := self.output_cliffords.get(u)) is not None:
                 measurements_other[v] = vm.clifford(uc)
 
-        shift = max((*self.graph.nodes, *mapping.values())) + 1
+        shift = max((*self.graph.nodes, *mapping.values()), default=-1) + 1
 
         mapping_sequential = {
             node: i for i, node in enumerate(sorted(other.graph.nodes - mapping.keys()), start=shift)
diff --git a/graphix/pattern.py b/graphix/pattern.py
index 2c7446a..6c57c48 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -358,7 +358,7 @@ class Pattern(InplaceParameterizable):
                 stacklevel=2,
             )
 
-        shift = max((*nodes_p1, *mapping.values())) + 1
+        shift = max((*nodes_p1, *mapping.values()), default=-1) + 1
         mapping_complete = other.node_mapping(mapping, start=shift)
         other = other.reindex(mapping_complete, copy=True)
 
-- 
2.43.0


From 150e12a818c5fdd32680281956edeaf2fb437680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 17/67] fix: reject RZZ gates whose qubits coincide

---
 graphix/transpiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 0419a79..1a23bda 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -378,6 +378,7 @@ class Circuit(InplaceParameterizable):
         """
         assert control in self.active_qubits
         assert target in self.active_qubits
+        assert control != target
         self.instruction.append(instruction.RZZ(control=control, target=target, angle=angle))
 
     def ccx(self, control1: int, control2: int, target: int) -> None:
-- 
2.43.0


From 3e63f24f831dbd327a19783877c73ee5f74f0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 18/67] fix: keep the constant when the variable cancels in a
 sum of expressions

---
 graphix/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/parameter.py b/graphix/parameter.py
index 891986f..647609a 100644
--- a/graphix/parameter.py
+++ b/graphix/parameter.py
@@ -202,7 +202,7 @@ class AffineExpression(Expression):
                 raise PlaceholderOperationError
             a = self.a + other.a
             if a == 0:
-                return 0
+                return self.b + other.b
             return AffineExpression(a=a, x=self.x, b=self.b + other.b)
         return NotImplemented
 
-- 
2.43.0


From 26b4e70c1d15606d0fe7a7106961ed767c1aa58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 19/67] fix: use the probabilities of the Pauli channel

---
 graphix/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index d807814..99e8eb2 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -212,10 +212,10 @@ def pauli_channel(px: float, py: float, pz: float) -> KrausChannel:
     p_i = 1 - px - py - pz
     return KrausChannel(
         [
-            KrausData(np.sqrt(1 - p_i), Ops.I),
-            KrausData(np.sqrt(px / 3.0), Ops.X),
-            KrausData(np.sqrt(py / 3.0), Ops.Y),
-            KrausData(np.sqrt(pz / 3.0), Ops.Z),
+            KrausData(np.sqrt(p_i), Ops.I),
+            KrausData(np.sqrt(px), Ops.X),
+            KrausData(np.sqrt(py), Ops.Y),
+            KrausData(np.sqrt(pz), Ops.Z),
         ]
     )
 
-- 
2.43.0


From 6744a4b1865df1269ff578b6fe8ed8baaa240f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 20/67] fix: extract fusion networks of dense graphs when GHZ
 clusters are bounded

---
 graphix/extraction.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index eea0dc3..1f6e449 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -129,18 +129,19 @@ def graph_to_fusion_network(
                     resource_list.append(create_resource_graph(nodes))
 
         # If a cycle exists in the graph, extract one 3-qubit ghz cluster from the cycle.
-        for v, va in adjdict.items():
-            if len(va) == 2:
-                neighbors = list(va.keys())
-                nodes = [v, *neighbors]
-                del adjdict[neighbors[0]][v]
-                del adjdict[neighbors[1]][v]
-                del va[neighbors[0]]
-                del va[neighbors[1]]
-                number_of_edges -= 2
-
-                resource_list.append(create_resource_graph(nodes, root=v))
-                break
+        # Nodes with more than two neighbors can remain if the size of GHZ clusters is bounded.
+        root = min((v for v, va in adjdict.items() if len(va) >= 2), key=lambda v: len(adjdict[v]), default=None)
+        if root is not None:
+            va = adjdict[root]
+            neighbors = list(va.keys())[:2]
+            nodes = [root, *neighbors]
+            del adjdict[neighbors[0]][root]
+            del adjdict[neighbors[1]][root]
+            del va[neighbors[0]]
+            del va[neighbors[1]]
+            number_of_edges -= 2
+
+            resource_list.append(create_resource_graph(nodes, root=root))
     return resource_list
 
 
-- 
2.43.0


From ca003dafb08493f62735bf41c2e07b5b16b7e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 21/67] fix: pass the random generator to the input noise of
 composed models

---
 graphix/noise_models/noise_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index 94b2237..b350965 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,7 +150,7 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
-        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, stacklevel=stacklevel + 1)]
+        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)]
 
     @override
     def command(
-- 
2.43.0


From b0aa9a2f45b28c2853875d8ed49f538d61200e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 22/67] fix: accept the empty measurement order of corrections
 without measured nodes

---
 graphix/flow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 1cea8c4..d388117 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -389,6 +389,9 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
             print("The input total measurement order contains duplicates.")
             return False
 
+        if not non_outputs_set:
+            return True
+
         shift = 1 if self.og.output_nodes else 0
         measured_layers = list(reversed(self.partial_order_layers[shift:]))
 
-- 
2.43.0


From 62c03716f5f43638c21667671da978b001b74225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 23/67] fix: minimize the space of patterns with nodes that are
 not prepared in |+>

---
 graphix/space_minimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/space_minimization.py b/graphix/space_minimization.py
index 35e7bdd..1e3e922 100644
--- a/graphix/space_minimization.py
+++ b/graphix/space_minimization.py
@@ -193,7 +193,8 @@ class SpaceMinimizationHeuristics:
         """
         try:
             cf = pattern.to_xzcorrections().downcast_bloch().to_causalflow()
-        except (TypeError, FlowError):
+        except (TypeError, FlowError, ValueError):
+            # `ValueError` is raised if some nodes are not prepared in the |+⟩ state.
             return None
         else:
             meas_order = tuple(chain(*reversed(cf.partial_order_layers[1:])))
-- 
2.43.0


From 4873eb85523efa287c15c2f51712100ec217ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 24/67] fix: keep all the measurements when parallelizing
 patterns without outputs

---
 graphix/pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6c57c48..da82270 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1166,7 +1166,8 @@ class Pattern(InplaceParameterizable):
             optimal measurement order for parallel computing
         """
         partial_order_layers = self.partial_order_layers()
-        return list(itertools.chain(*reversed(partial_order_layers[1:])))
+        shift = 1 if self.__output_nodes else 0  # Output nodes (if any) are in the first layer
+        return list(itertools.chain(*reversed(partial_order_layers[shift:])))
 
     def sort_measurement_commands(self, meas_order: list[int]) -> list[command.M]:
         """Convert measurement order to sequence of measurement commands.
-- 
2.43.0


From 9a7b47f6541eeb46a1d9ab5d1b5d2ea4c6291b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 25/67] fix: do not remove nodes that are not prepared in |+>
 with Pauli measurements

---
 graphix/remove_pauli_measurements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 71decac..d8df36f 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -36,6 +36,7 @@ from graphix.command import Command
 from graphix.fundamentals import Axis, Sign
 from graphix.measurements import PauliMeasurement
 from graphix.optimization import StandardizedPattern
+from graphix.states import BasicStates
 
 if TYPE_CHECKING:
     from collections.abc import Iterable, Mapping
@@ -239,7 +240,7 @@ class _RemovePauliMeasurements:
     Nodes are given with the indexing of the original pattern: use ``node_map`` to retrieve the index in the graph."""
 
     input_node_set: set[Node]
-    """Set of input nodes: inputs nodes are never pivoted, therefore their indexing is preserved."""
+    """Set of nodes whose initial state is not |+⟩ (in particular, input nodes): these nodes are never pivoted, therefore their indexing is preserved."""
 
     output_node_set: set[Node]
     """Set of output nodes, using the new indexing."""
@@ -266,7 +267,10 @@ class _RemovePauliMeasurements:
             self.node_specs[node].clifford = clifford
         self.measurements = cut.measurements
         self.pauli_measurements = {axis: set() for axis in Axis}
-        self.input_node_set = set(cut.original_pattern.input_nodes)
+        # The removal rules only apply to nodes prepared in |+⟩: nodes prepared in another state are handled as inputs.
+        self.input_node_set = set(cut.original_pattern.input_nodes).union(
+            cmd_n.node for cmd_n in cut.original_pattern.n_list if cmd_n.state != BasicStates.PLUS
+        )
         self.output_node_set = set(cut.original_pattern.output_nodes)
         for cmd_m in self.cut.pauli_measurements:
             if not isinstance(cmd_m.measurement, PauliMeasurement):  # pragma: no cover
-- 
2.43.0


From 3db8f38ff49fe398f47b95cc7d9aab9ecf5de824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 26/67] fix: remove identity Clifford commands from patterns

---
 graphix/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index a571218..26d3345 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -641,8 +641,10 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
                 # - The set of input nodes is {0}.
                 # - The output node is the highest-indexed node.
                 new_pattern.extend(clifford_pattern.reindex(lambda node: cmd_node if node == 0 else node + max_node))  # noqa: B023
-                max_node += output_node
-                mapping[cmd.node] = max_node
+                # The identity pattern has a single node, which keeps its index.
+                if output_node != 0:
+                    max_node += output_node
+                    mapping[cmd.node] = max_node
             case _:
                 new_cmd = cmd.reindex(reindex)
                 new_pattern.add(new_cmd)
-- 
2.43.0


From 0d4f88e4db0abd5f0f5bcbdd3450507118c9f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 27/67] fix: return a new pattern when Clifford commands are
 removed from empty patterns

---
 graphix/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index 26d3345..34547ca 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -619,7 +619,7 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
 
     nodes = pattern.nodes()
     if not nodes:
-        return pattern
+        return pattern.copy()
     max_node = max(nodes)
     new_pattern = Pattern(input_nodes=pattern.input_nodes)
     mapping: dict[Node, Node] = {}
-- 
2.43.0


From a993168a231fdb58ac556a2251628a3e8a651750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 28/67] fix: do not reconstruct Pauli flows that correct input
 nodes

---
 graphix/flow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index d388117..0088e0d 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -1485,6 +1485,9 @@ def _solve_pauli_correction_set(
     if self_fixed_in and node not in non_inputs:
         return None  # ``node`` must correct itself but is an input node.
 
+    if not x_corr <= non_inputs:
+        return None  # Correction sets cannot contain input nodes.
+
     # Free variables of the GF(2) system: the X/Y-measured, non-input nodes that are not in the
     # future of ``node`` (the "anachronical" candidates, plus ``node`` itself when it qualifies).
     nonfuture_others = nodes - future - {node}
-- 
2.43.0


From 41b013383921331d08cadb918e8d0c4e6f709a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 29/67] fix: sign of the Clifford map of extracted circuits for
 Pauli-measured inputs

---
 graphix/circ_ext/extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 5d5fa14..f191f24 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -551,7 +551,8 @@ def extraction_ps_from_corrected_node(flow: PauliFlow[Measurement], node: Node)
     negative_sign ^= bool(len(inter_c_odd_set) // 2 % 2)
 
     # One phase flip per node in the graph state stabilizer that is absorbed from a Pauli measurement with angle π.
-    for n in c_set | odd_c_set:
+    # The measurement of the corrected node itself anticommutes with the stabilizer: it is not absorbed.
+    for n in (c_set | odd_c_set) - {node}:
         meas = og.measurements.get(n, None)
         if isinstance(meas, PauliMeasurement):
             negative_sign ^= meas.sign == Sign.MINUS
-- 
2.43.0


From 6bedb5eebeaaba4b3eb1a943b8b101e38e89ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 30/67] fix: do not modify single states a statevector is built
 from

---
 graphix/sim/statevec.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 1aac6de..7d6a540 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -179,9 +179,13 @@ class Statevector(DenseState):
                     raise TypeError("Data should be an homogeneous sequence of states.")
                 return s.to_statevector_numpy()
 
-            psi = functools.reduce(
-                lambda m0, m1: np.kron(m0, m1).astype(np.complex128, copy=False),
-                (state_to_statevector(s) for s in input_list),
+            # The copy matters if there is a single state: ``psi`` is modified in place afterwards.
+            psi = np.array(
+                functools.reduce(
+                    lambda m0, m1: np.kron(m0, m1).astype(np.complex128, copy=False),
+                    (state_to_statevector(s) for s in input_list),
+                ),
+                dtype=np.complex128,
             )
 
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
-- 
2.43.0


From d666eeba5b322b402ead860f58866852a843e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 31/67] fix: build density matrices from iterators

---
 graphix/sim/density_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index b0ccc15..d28e9f6 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -109,6 +109,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                     if not lv.is_psd(self.rho):
                         raise ValueError("Density matrix must be positive semi-definite.")
                 return
+            # `data` may be an iterator, which is exhausted by now.
+            data = input_list
         statevec = Statevector(data, nqubit)
         # NOTE this works since np.outer flattens the inputs!
         self.rho = outer(statevec.psi, statevec.psi.conj())
-- 
2.43.0


From 35cc8633f61f7ffe860b110743053d9489f99445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 32/67] fix: refuse to remove a qubit from a 0-norm density
 matrix

---
 graphix/sim/density_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index d28e9f6..6fd901f 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -372,6 +372,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def remove_qubit(self, qubit: int) -> None:
         """Remove a qubit."""
         self.ptrace(qubit)
+        if self.rho.dtype != np.object_ and abs(np.trace(self.rho)) <= 1e-10:
+            raise RuntimeError(f"Attempted to remove qubit {qubit} from 0-norm density matrix.")
         self.normalize()
 
     def ptrace(self, qargs: Collection[int] | int) -> None:
-- 
2.43.0


From 7e1e7af6918a8096c345eff5b8f0138e96d3a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 33/67] fix: accept density matrices whose eigenvalues have
 rounding errors

---
 graphix/sim/density_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 6fd901f..86b2384 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -106,7 +106,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                     self.rho = self.rho.astype(np.complex128, copy=False)
                     if not lv.is_unit_trace(self.rho):
                         raise ValueError("Density matrix must have unit trace.")
-                    if not lv.is_psd(self.rho):
+                    # Same absolute tolerance as for the trace: rounding errors easily exceed 1e-15.
+                    if not lv.is_psd(self.rho, tol=1e-8):
                         raise ValueError("Density matrix must be positive semi-definite.")
                 return
             # `data` may be an iterator, which is exhausted by now.
-- 
2.43.0


From 201cc555bfb5e05a0a11da7cfd194214086f67d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 34/67] fix: accept arrays as states of the qubits of a tensor
 network

---
 graphix/sim/tensornet.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index c9f4b3b..6263df4 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -112,6 +112,13 @@ class MBQCTensorNet(TensorNetwork):
         ind = gen_str()
         tag = str(index)
         match state:
+            # Arrays should come first: comparing an array with a string is not a boolean.
+            case np.ndarray():
+                if state.shape != (2,):
+                    raise ValueError("state must be 2-element np.ndarray")
+                if not np.isclose(np.linalg.norm(state), 1):
+                    raise ValueError("state must be normalized")
+                vec = state
             case "plus":
                 vec = BasicStates.PLUS.to_statevector_numpy()
             case "minus":
@@ -125,13 +132,7 @@ class MBQCTensorNet(TensorNetwork):
             case "iminus":
                 vec = BasicStates.MINUS_I.to_statevector_numpy()
             case _:
-                if isinstance(state, str):
-                    raise TypeError(f"Unknown state: {state}")
-                if state.shape != (2,):
-                    raise ValueError("state must be 2-element np.ndarray")
-                if not np.isclose(np.linalg.norm(state), 1):
-                    raise ValueError("state must be normalized")
-                vec = state
+                raise TypeError(f"Unknown state: {state}")
         tsr = Tensor(vec, [ind], [tag, "Open"])
         self.add_tensor(tsr)
         self._dangling[tag] = ind
@@ -180,15 +181,16 @@ class MBQCTensorNet(TensorNetwork):
             # `states` is of type `PrepareState`, a type alias for
             # `str | npt.NDArray[np.complex128]`. To distinguish
             # between the two cases, we just need to check whether
-            # an element is a character or a complex number.
-            if len(states_list) == 0 or isinstance(states_list[0], SupportsComplex):
+            # an element is a number (arrays are instances of `SupportsComplex`,
+            # and real NumPy scalars are only instances of `SupportsFloat`).
+            if len(states_list) == 0 or not isinstance(states_list[0], (str, np.ndarray)):
                 states_iter = [np.array(states_list)] * len(indices)
             else:
 
                 def get_prepare_state(item: PrepareState | SupportsComplex) -> PrepareState:
-                    if isinstance(item, SupportsComplex):
-                        raise TypeError("Unexpected complex")
-                    return item
+                    if isinstance(item, (str, np.ndarray)):
+                        return item
+                    raise TypeError("Unexpected complex")
 
                 states_iter = [get_prepare_state(item) for item in states_list]
         for ind, state in zip(indices, states_iter, strict=True):
-- 
2.43.0


From 7d3e9d3f124a1d3931fabbbac4e9f07d5a47ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 35/67] fix: make copies of tensor networks independent of the
 original

---
 graphix/sim/tensornet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 6263df4..1a60977 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -70,7 +70,7 @@ class MBQCTensorNet(TensorNetwork):
         if ts is None:
             ts = []
         super().__init__(ts=ts, virtual=virtual)
-        self._dangling = ts._dangling if isinstance(ts, MBQCTensorNet) else {}
+        self._dangling = dict(ts._dangling) if isinstance(ts, MBQCTensorNet) else {}
         self.default_output_nodes = None if default_output_nodes is None else list(default_output_nodes)
         # prepare the graph state if graph_nodes and graph_edges are given
         if graph_nodes is not None and graph_edges is not None:
@@ -540,7 +540,9 @@ class MBQCTensorNet(TensorNetwork):
         """
         if deep:
             return deepcopy(self)
-        return self.__class__(branch_selector=self.__branch_selector, ts=self)
+        return self.__class__(
+            branch_selector=self.__branch_selector, default_output_nodes=self.default_output_nodes, ts=self
+        )
 
 
 def _decompose_cz() -> list[npt.NDArray[np.complex128]]:
-- 
2.43.0


From d343a7f4c8196465272e5e1809301c5085e2684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 36/67] fix: measure isolated nodes of tensor networks with the
 probabilities of their basis

---
 graphix/sim/tensornet.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 1a60977..55326db 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -763,9 +763,15 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         measurement : Measurement
             measure plane and angle
         """
+        bloch = measurement.to_bloch()
+        if isinstance(bloch.angle, Expression):
+            raise TypeError("Parameterized pattern unsupported.")
+        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
         if node in self._isolated_nodes:
-            vector: npt.NDArray[np.complex128] = self.state.open_tensor(node)
-            probs = (np.abs(vector) ** 2).astype(np.float64)
+            # All the tensors of an isolated node form a connected component with a single dangling index.
+            vector = self.state.select([str(node)]).contract(output_inds=[self.state._dangling[str(node)]]).data
+            vecs = [vec, Ops.from_axis(bloch.plane.orth) @ vec]
+            probs = np.array([np.abs(np.vdot(v, vector)) ** 2 for v in vecs], dtype=np.float64)
             probs /= np.sum(probs)
             result: Outcome = self.branch_selector.measure(node, lambda: probs[0], rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
@@ -774,10 +780,6 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
             result = self.branch_selector.measure(node, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
             buffer = 2**0.5
-        bloch = measurement.to_bloch()
-        if isinstance(bloch.angle, Expression):
-            raise TypeError("Parameterized pattern unsupported.")
-        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
         if result:
             vec = Ops.from_axis(bloch.plane.orth) @ vec
         proj_vec = vec * buffer
-- 
2.43.0


From 99e69876d790da683e42f42bbe327d5221a94397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 37/67] fix: keep the operators of Kraus channels immutable

---
 graphix/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index 99e8eb2..275ee6d 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -2,7 +2,6 @@
 
 from __future__ import annotations
 
-import copy
 import typing
 from typing import TYPE_CHECKING, SupportsIndex, TypeVar
 
@@ -113,7 +112,8 @@ class KrausChannel:
         ValueError
             If kraus_data is empty.
         """
-        kraus_data = [copy.deepcopy(kdata) for kdata in kraus_data]
+        # The elements are immutable: no copy is needed (and copied arrays would be writeable).
+        kraus_data = list(kraus_data)
 
         if not kraus_data:
             raise ValueError("Cannot instantiate the channel with empty data.")
-- 
2.43.0


From 4901d22d7ae162d4e4de8a6cfdd91804e71eea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 38/67] fix: do not modify the list of input noise returned by
 the noise model

---
 graphix/simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/simulator.py b/graphix/simulator.py
index 93c142b..a89d7a6 100644
--- a/graphix/simulator.py
+++ b/graphix/simulator.py
@@ -437,8 +437,10 @@ class PatternSimulator(Generic[_StateT_co]):
         if self.noise_model is None:
             pattern: Iterable[CommandOrNoise] = self.pattern
         else:
-            pattern = self.noise_model.input_nodes(self.pattern.input_nodes, rng=rng) if input_state is not None else []
-            pattern.extend(self.noise_model.transpile(self.pattern, rng=rng))
+            input_noise = (
+                self.noise_model.input_nodes(self.pattern.input_nodes, rng=rng) if input_state is not None else []
+            )
+            pattern = [*input_noise, *self.noise_model.transpile(self.pattern, rng=rng)]
 
         # We check runnability first to provide clearer error messages and
         # to catch these errors before starting the simulation.
-- 
2.43.0


From 88921d83243b1c98eae5cb466536d2f6b8bff94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 39/67] fix: consult the branch selector once per measurement
 of a tensor network

---
 graphix/sim/tensornet.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 55326db..514288d 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -230,15 +230,18 @@ class MBQCTensorNet(TensorNetwork):
             measurement result.
         """
         if bypass_probability_calculation:
-            result = (
-                outcome
-                if outcome is not None
-                else self.__branch_selector.measure(index, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
-            )
-            # Basis state to be projected
+            result: Outcome
             if isinstance(basis, np.ndarray):
                 if outcome is not None:
                     raise Warning("Measurement outcome is chosen but the basis state was given.")
+                # Projecting onto a given state is not a choice between two outcomes.
+                result = 0
+            elif outcome is not None:
+                result = outcome
+            else:
+                result = self.__branch_selector.measure(index, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
+            # Basis state to be projected
+            if isinstance(basis, np.ndarray):
                 proj_vec = basis
             elif basis == "Z" and result == 0:
                 proj_vec = BasicStates.ZERO.to_statevector_numpy()
-- 
2.43.0


From d4af5e9a6d2cc066317b9c98725614de845d74b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 40/67] fix: substitute parameters in density matrices whose
 entries have different types

---
 graphix/sim/density_matrix.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 86b2384..7b2fef7 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -32,8 +32,10 @@ from graphix.sim.statevec import Statevector, _check_permutation
 from graphix.states import BasicStates, State
 
 if TYPE_CHECKING:
-    from collections.abc import Mapping, Sequence
-    from typing import SupportsComplex, SupportsFloat
+    from collections.abc import Callable, Mapping, Sequence
+    from typing import Any, SupportsComplex, SupportsFloat
+
+    import numpy.typing as npt
 
     from graphix.noise_models.noise_model import Noise
     from graphix.parameter import ExpressionOrSupportsFloat, Parameter
@@ -475,7 +477,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameter(
         self, variable: Parameter, substitute: ExpressionOrSupportsFloat, *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameter(value, variable, substitute))(self.rho)
+        rho = _map_entries(lambda value: with_parameter(value, variable, substitute), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -487,7 +489,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameters(
         self, assignment: Mapping[Parameter, ExpressionOrSupportsFloat], *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameters(value, assignment))(self.rho)
+        rho = _map_entries(lambda value: with_parameters(value, assignment), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -496,6 +498,15 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         return self
 
 
+def _map_entries(f: Callable[[Any], Any], rho: Matrix) -> Matrix:
+    """Apply a substitution to every entry of a matrix, which becomes numerical if no expression remains."""
+    # Without `otypes`, all the entries would be converted to the type of the first one.
+    result: npt.NDArray[np.object_] = np.vectorize(f, otypes=[np.object_])(rho)
+    if any(isinstance(value, Expression) for value in result.flat):
+        return result
+    return result.astype(np.complex128)
+
+
 @dataclass(frozen=True)
 class DensityMatrixBackend(DenseStateBackend[DensityMatrix]):
     """MBQC simulator with density matrix method."""
-- 
2.43.0


From b08607b799d3c6b99a81d41d285bc0ffeb637179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 41/67] fix: keep track of measured qubits in rewritten
 circuits

---
 graphix/transpiler.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 1a23bda..6764e87 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -660,14 +660,12 @@ class Circuit(InplaceParameterizable):
         Self
             The rewritten circuit. Equal to ``self`` if ``copy`` is ``False``.
         """
-        if copy:
-            result = Circuit(self.width)
-            for instr in self.instruction:
-                result.instruction.append(instr.visit(visitor, copy=True))
-            return result
-        for instr in self.instruction:
-            instr.visit(visitor, copy=False)
-        return self
+        result = Circuit(self.width) if copy else self
+        result.instruction[:] = [instr.visit(visitor, copy=copy) for instr in self.instruction]
+        # The qubits that have been measured cannot be used any more.
+        measured = {instr.target for instr in result.instruction if instr.kind == InstructionKind.M}
+        result.active_qubits = set(range(self.width)) - measured
+        return result
 
     def apply_angle(self, f: Callable[[ParameterizedAngle], ParameterizedAngle], *, copy: bool = False) -> Circuit:
         """Apply ``f`` to all angles that occur in the circuit.
@@ -1112,6 +1110,7 @@ def transpile_swaps(circuit: Circuit, *, copy: bool = False) -> TranspileSwapsRe
             new_circuit.add(instr.visit(visitor, copy=copy))
     if not copy:
         circuit.instruction = new_circuit.instruction
+        circuit.active_qubits = new_circuit.active_qubits
         new_circuit = circuit
     return TranspileSwapsResult(new_circuit, tuple(visitor.outputs))
 
-- 
2.43.0


From f12ce69da34a8074f6ef8ec7689f3de6125122d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 42/67] fix: set the attributes of graph-state nodes however
 they are added

---
 graphix/graphsim.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 8e91292..93009a3 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -50,6 +50,11 @@ class GraphState(Graph):
 
     nodes: functools.cached_property[Mapping[int, MBQCGraphNode]]  # type: ignore[assignment]
 
+    @staticmethod
+    def node_attr_dict_factory() -> MBQCGraphNode:  # type: ignore[override]
+        """Return the attributes of a new node, including the nodes that are added with their edges."""
+        return MBQCGraphNode(sign=False, hollow=False, loop=False)
+
     def __init__(
         self,
         nodes: Iterable[int] | None = None,
@@ -85,7 +90,11 @@ class GraphState(Graph):
         nodes_for_adding = list(nodes_for_adding)
         super().add_nodes_from(nodes_for_adding, **attr)  # type: ignore[arg-type]
         for data in nodes_for_adding:
-            u, mp = data if isinstance(data, tuple) else (data, MBQCGraphNode(sign=False, hollow=False, loop=False))
+            if isinstance(data, tuple):
+                u, mp = data
+            else:
+                u, mp = data, self.node_attr_dict_factory()
+                mp.update((k, attr[k]) for k in mp if k in attr)  # type: ignore[misc]
             for k, v_ in mp.items():
                 dst = self.nodes[u]
                 v = bool(v_)
-- 
2.43.0


From 841b180e10612828bbba130f47e71893d700200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 43/67] fix: accept identity vertex operators in
 GraphState.apply_vops

---
 graphix/graphsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 93009a3..f0ea2f4 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -141,6 +141,8 @@ class GraphState(Graph):
         for node, vop in vops.items():
             for lc in reversed(vop.hsz):
                 match lc:
+                    case Clifford.I:
+                        pass
                     case Clifford.Z:
                         self.z(node)
                     case Clifford.H:
-- 
2.43.0


From 8c7730e36d78a8190ff82446e877d881acf8a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 44/67] fix: sign of the neighbours when applying S to hollow
 nodes with a loop

---
 graphix/graphsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index f0ea2f4..15c4fca 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -259,6 +259,9 @@ class GraphState(Graph):
                 self.local_complement(node)
                 for i in self.neighbors(node):
                     self.advance(i)
+                if not self.nodes[node]["sign"]:
+                    for i in self.neighbors(node):
+                        self.flip_sign(i)
             else:
                 self.local_complement(node)
                 for i in self.neighbors(node):
-- 
2.43.0


From 4862c50f6649020303fbd8a0c077856d5271c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 45/67] fix: honour the choice of Z measurements on isolated
 nodes that can be filled

---
 graphix/graphsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 15c4fca..46782ee 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -474,7 +474,8 @@ class GraphState(Graph):
         if choice:
             for i in self.neighbors(node):
                 self.flip_sign(i)
-        result = choice if not isolated else outcome(self.nodes[node]["sign"])
+        # the outcome is only determined if the node could not be filled
+        result = outcome(self.nodes[node]["sign"]) if isolated == 1 else choice
         self.remove_node(node)
         return result
 
-- 
2.43.0


From 54662ca7613d7a470d2c8375096680b542782783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 46/67] fix: use RZZ gates in every layer of rand_gate, for any
 iterable of pairs

---
 graphix/random_objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index c966c4a..05b5aa9 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -311,9 +311,13 @@ def rand_gate(
         The generated random circuit.
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
+    pairs = list(pairs)
     circuit = Circuit(nqubits)
     _first_rotation(circuit, nqubits, rng)
-    _entangler(circuit, pairs)
+    if use_rzz:
+        _entangler_rzz(circuit, pairs, rng)
+    else:
+        _entangler(circuit, pairs)
     for _ in range(depth - 1):
         _mid_rotation(circuit, nqubits, rng)
         if use_rzz:
-- 
2.43.0


From 1324d1e1437a1b8493066b57965d05809e09dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 47/67] fix: use all the parameters given to rand_circuit as an
 iterator

---
 graphix/random_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index 05b5aa9..6a2b243 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -416,10 +416,11 @@ def rand_circuit(
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
     circuit = Circuit(nqubits)
+    parameters = () if parameters is None else tuple(parameters)
     parametric_gate_choice = (
         functools.partial(rotation, angle=parameter)
         for rotation in (circuit.rx, circuit.ry, circuit.rz)
-        for parameter in parameters or []
+        for parameter in parameters
     )
     gate_choice: tuple[Callable[[int], None], ...] = (
         functools.partial(circuit.ry, angle=ANGLE_PI / 4),
-- 
2.43.0


From e6e475686d12cdc6193c835b6edfe735bad383a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 48/67] fix: parenthesize all the sums printed before a ket

---
 graphix/pretty_print.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 8054fba..0209474 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import enum
 import math
+import re
 import string
 from contextvars import ContextVar
 from enum import Enum
@@ -809,7 +810,9 @@ def _ket_str(ket: str, output: OutputFormat) -> str:
 
 def _needs_parentheses(coefficient: str) -> bool:
     """Whether a coefficient is a sum and must be parenthesized before a ket."""
-    return " + " in coefficient or " - " in coefficient
+    # Decimal sums have no spaces around their sign, which follows a digit
+    # (unlike leading signs and the signs of exponents).
+    return " + " in coefficient or " - " in coefficient or re.search(r"\d[+-]", coefficient) is not None
 
 
 def _factor_uniform_magnitude(
@@ -852,12 +855,12 @@ def _factor_uniform_magnitude(
         phase = complex_to_str(
             value / radius, output, max_denominator=max_denominator, atol=atol, rtol=rtol, precision=precision
         )
-        # A per-component phase is unit-modulus, so it is rendered as 1, -1, ±i, an
-        # exponential, or a decimal — never a parenthesizable sum.
         if phase == "1":
             term = ket
         elif phase == "-1":
             term = f"-{ket}"
+        elif _needs_parentheses(phase):
+            term = f"({phase}){ket}"
         else:
             term = f"{phase}{ket}"
         if index == 0:
-- 
2.43.0


From 6a946d1e41b44c484fd3585b3c7bd1e47dadabdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 49/67] fix: count the commands that are not printed when the
 limit is 0

---
 graphix/pretty_print.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 0209474..04a1179 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -316,12 +316,12 @@ def pattern_to_str(
     truncated = limit is not None and len(command_list) > limit
     # Note: The redundant test `limit is not None` is required for mypy
     # to narrow the type of `limit` in the then-branch.
-    short_command_list = command_list[: limit - 1] if limit is not None and truncated else command_list
+    short_command_list = command_list[: max(limit - 1, 0)] if limit is not None and truncated else command_list
     result = separator.join(command_to_str(command, output) for command in short_command_list)
     if output == OutputFormat.LaTeX:
         result = f"\\({result}\\)"
     if limit is not None and truncated:
-        return f"{result}...({len(command_list) - limit + 1} more commands)"
+        return f"{result}...({len(command_list) - len(short_command_list)} more commands)"
     return result
 
 
-- 
2.43.0


From 4cb085e75d0975d0d601e01c16b3c52dbe5c8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 50/67] fix: interpolate the nodes in the messages of
 XZCorrectionsOrderError

---
 graphix/flow/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/flow/exceptions.py b/graphix/flow/exceptions.py
index a297880..f8c1f1b 100644
--- a/graphix/flow/exceptions.py
+++ b/graphix/flow/exceptions.py
@@ -280,9 +280,9 @@ class XZCorrectionsOrderError(XZCorrectionsError):
         """Explain the error."""
         match self.reason:
             case XZCorrectionsOrderErrorReason.X:
-                return "The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case XZCorrectionsOrderErrorReason.Z:
-                return "The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case _:
                 assert_never(self.reason)
 
-- 
2.43.0


From 24692d50194afdf9e0aa5f1032d083acd56f3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 51/67] fix: extract linear clusters that do not meet
 themselves when GHZ clusters are bounded

---
 graphix/extraction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index 1f6e449..03a8b2c 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -113,9 +113,13 @@ def graph_to_fusion_network(
             if len(va) == 1:
                 n = v
                 nodes = [n]
-                while len(adjdict[n]) > 0 and len(nodes) < max_lin:
-                    n2, _ = adjdict[n].popitem()
+                while len(nodes) < max_lin:
+                    # The edges that lead back to the cluster are left for other clusters.
+                    n2 = next((u for u in reversed(adjdict[n]) if u not in nodes), None)
+                    if n2 is None:
+                        break
                     nodes.append(n2)
+                    del adjdict[n][n2]
                     del adjdict[n2][n]
                     number_of_edges -= 1
                     n = n2
-- 
2.43.0


From 7fa5bde9a4da86d97fefe0198f5b36c5fb3f78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 52/67] fix: keep the source of edges and arrows between nodes
 drawn close to each other

---
 graphix/visualization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 10ae8f0..31e9644 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -1063,9 +1063,11 @@ def _check_path(path: Iterable[_Point], target_node_pos: _Point | None = None) -
             acute = False
     new_path: list[_Point] = path.tolist()
     if target_node_pos is not None:
-        for point in new_path[:-1]:
-            if np.linalg.norm(np.array(point) - np.array(target_node_pos)) < 0.2:
-                new_path.remove(point)
+        new_path[1:-1] = [
+            point
+            for point in new_path[1:-1]
+            if np.linalg.norm(np.array(point) - np.array(target_node_pos)) >= 0.2
+        ]
     return new_path
 
 
-- 
2.43.0


From ff93083d9d1a575ff2fb15eb6fcd9a6c60caf492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 53/67] fix: leave room for the axes beside the legend of
 narrow drawings

---
 graphix/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 31e9644..04ff5e5 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -643,7 +643,8 @@ class GraphVisualizer:
 
         width, height = fig.get_size_inches()
         fig.set_size_inches(width + legend_width, max(height, legend_height), forward=True)
-        fig.subplots_adjust(right=width / (width + legend_width))
+        right = width / (width + legend_width)
+        fig.subplots_adjust(left=min(fig.subplotpars.left, right / 2), right=right)
 
 
 @singledispatch
-- 
2.43.0


From f355aa7542202ba5a4ab5d5e50da6ef7650de431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 54/67] fix: do not draw the node labels when node_labels is
 False

---
 graphix/visualization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 04ff5e5..b9b18b0 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -413,6 +413,9 @@ class GraphVisualizer:
                 fc = PAULI_NODE_FC
             plt.scatter(*self.pos[node], edgecolor=ec, facecolor=fc, s=350, zorder=2, marker=marker)
 
+        if self.options.node_labels is False:
+            return
+
         labels = dict(self.options.node_labels) if isinstance(self.options.node_labels, Mapping) else None
         fontsize = NODE_LABEL_FS
         if max(self.og.graph.nodes(), default=0) >= 100:
-- 
2.43.0


From 4286654c691e7808e57d59be6027b6bdbc760a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 55/67] fix: report the warning of Pattern.draw at its call
 site

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index da82270..bf7dad6 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1560,7 +1560,7 @@ class Pattern(InplaceParameterizable):
                             except FlowError:
                                 warn(
                                     "The pattern is not consistent with a flow. An attempt to be extract the flow from the underlying open graph will be made.",
-                                    stacklevel=stacklevel,
+                                    stacklevel=stacklevel + 1,
                                 )
                     if flow is None:
                         og = self.to_opengraph()
-- 
2.43.0


From 633eb37e857ca9141ee2f54eed66d97a74244864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 56/67] fix: do not report isolated Pauli measurements as
 non-Pauli

---
 graphix/remove_pauli_measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index d8df36f..9be7b3b 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -501,7 +501,7 @@ class _RemovePauliMeasurements:
         # modified while enumerating isolated nodes.
         for node in list(nx.isolates(self.graph)):
             if node not in self.input_node_set and node not in self.output_node_set:
-                if node not in self.pauli_measurements:
+                if self.node_specs[node].pauli_measurement is None:
                     warn("Non-Pauli measurement on an isolated node was removed.", stacklevel=stacklevel + 1)
                 self._remove_node(node)
 
-- 
2.43.0


From d7a721020657cb67b93ec9df78093e33f671f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 57/67] fix: show the sign of node 0 in drawings of decorated
 graph states

---
 graphix/graphsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 46782ee..c2c84a0 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -492,7 +492,7 @@ class GraphState(Graph):
         nqubit = len(self.nodes)
         nodes = list(self.nodes)
         edges: list[tuple[int, int]] = list(self.edges)
-        labels = {i: i for i in iter(self.nodes)}
+        labels = {i: str(i) for i in iter(self.nodes)}
         colors = [fill_color for _ in range(nqubit)]
         for i in range(nqubit):
             if self.nodes[nodes[i]]["loop"]:
@@ -500,7 +500,7 @@ class GraphState(Graph):
             if self.nodes[nodes[i]]["hollow"]:
                 colors[i] = "white"
             if self.nodes[nodes[i]]["sign"]:
-                labels[nodes[i]] = -1 * labels[nodes[i]]
+                labels[nodes[i]] = f"-{labels[nodes[i]]}"
         g: nx.Graph[int] = nx.Graph()
         g.add_nodes_from(nodes)
         g.add_edges_from(edges)
-- 
2.43.0


From 9b743362eeb2bfe619f43fab6377004d7527a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 58/67] fix: tensor symbolic and numerical density matrices
 without changing the argument

---
 graphix/sim/density_matrix.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 7b2fef7..19b288b 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -312,9 +312,11 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         """
         if not isinstance(other, DensityMatrix):
             other = DensityMatrix(other)
-        if self.rho.dtype == np.object_ and other.rho.dtype != np.object_:
-            other.rho = other.rho.astype(np.object_, copy=False)  # pragma: nocover
-        self.rho = kron(self.rho, other.rho)
+        rho, other_rho = self.rho, other.rho
+        if np.object_ in {rho.dtype.type, other_rho.dtype.type}:
+            rho = rho.astype(np.object_, copy=False)
+            other_rho = other_rho.astype(np.object_, copy=False)
+        self.rho = kron(rho, other_rho)
 
     def cnot(self, edge: tuple[int, int]) -> None:
         """Apply CNOT gate to density matrix.
-- 
2.43.0


From 4e9b06868c6b0bdf3721b58a7f3ff1d9be7e729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 59/67] fix: compute the fidelity of symbolic density matrices

---
 graphix/sim/density_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 19b288b..e11ea1c 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -414,7 +414,9 @@ class DensityMatrix(DenseState, InplaceParameterizable):
             statevec : numpy array
                 statevector (flattened numpy array) to compare with
         """
-        result = vdot(statevec.psi, matmul(self.rho, statevec.psi))
+        # The statevector is numerical even if the density matrix is symbolic.
+        psi = statevec.psi.astype(self.rho.dtype, copy=False)
+        result = vdot(psi, matmul(self.rho, psi))
         if isinstance(result, Expression):
             return result
         assert math.isclose(result.imag, 0, abs_tol=1e-8)
-- 
2.43.0


From e5832ba492969d39fac8d79165ae87796b6b3c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 60/67] fix: refuse matrices given as statevectors

---
 graphix/sim/statevec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 7d6a540..d3ab695 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -189,7 +189,8 @@ class Statevector(DenseState):
             )
 
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
-        elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)):
+        # Numpy rows are instances of `SupportsComplex` too: a matrix is not a statevector.
+        elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)) and np.ndim(input_list[0]) == 0:
             inferred_nqubit = length.bit_length() - 1
             if length & (length - 1):
                 raise ValueError(f"Length of input data is not a power of two: {length}.")
-- 
2.43.0


From 00ce51345a333b66c90cc36dbadf3496b9bf77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:01 +0000
Subject: [PATCH 61/67] fix: compare measurements of integer angles with the
 tolerance

---
 graphix/measurements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/measurements.py b/graphix/measurements.py
index 1615559..4eb7669 100644
--- a/graphix/measurements.py
+++ b/graphix/measurements.py
@@ -9,6 +9,7 @@ from typing import (
     TYPE_CHECKING,
     ClassVar,
     Literal,
+    SupportsFloat,
 )
 
 # override introduced in Python 3.12
@@ -301,7 +302,7 @@ class BlochMeasurement(AbstractPlanarMeasurement, Measurement):
             return False
         return (
             math.isclose(self.angle, other.angle, rel_tol=rel_tol, abs_tol=abs_tol)
-            if isinstance(self.angle, float) and isinstance(other.angle, float)
+            if isinstance(self.angle, SupportsFloat) and isinstance(other.angle, SupportsFloat)
             else self.angle == other.angle
         ) and self.plane == other.plane
 
-- 
2.43.0


From e18b6657d6af0726943fb8f68d5bee6d508093c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:35 +0000
Subject: [PATCH 62/67] fix: report warnings of noise models at the call site
 of simulate_pattern

---
 graphix/simulator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphix/simulator.py b/graphix/simulator.py
index a89d7a6..b443e04 100644
--- a/graphix/simulator.py
+++ b/graphix/simulator.py
@@ -438,9 +438,14 @@ class PatternSimulator(Generic[_StateT_co]):
             pattern: Iterable[CommandOrNoise] = self.pattern
         else:
             input_noise = (
-                self.noise_model.input_nodes(self.pattern.input_nodes, rng=rng) if input_state is not None else []
+                self.noise_model.input_nodes(self.pattern.input_nodes, rng=rng, stacklevel=stacklevel + 1)
+                if input_state is not None
+                else []
             )
-            pattern = [*input_noise, *self.noise_model.transpile(self.pattern, rng=rng)]
+            pattern = [
+                *input_noise,
+                *self.noise_model.transpile(self.pattern, rng=rng, stacklevel=stacklevel + 1),
+            ]
 
         # We check runnability first to provide clearer error messages and
         # to catch these errors before starting the simulation.
-- 
2.43.0


From bcad881d983527918e1c81671ba8155478e3f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:35 +0000
Subject: [PATCH 63/67] fix: name the deprecated strategy in the warning of the
 tensor network backend

---
 graphix/sim/tensornet.py | 9 +++++++--
 graphix/simulator.py     | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 514288d..0585460 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -619,6 +619,9 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
     input_state : preparation for input states (only BasicStates.PLUS is supported for tensor networks yet),
     branch_selector: :class:`graphix.branch_selector.BranchSelector`, optional
         Branch selector to be used for measurements.
+    stacklevel : int, optional
+        Stack level to use for warnings. Defaults to 1, meaning that warnings
+        are reported at the call site of the constructor.
     """
 
     def __init__(
@@ -627,6 +630,8 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         graph_prep: str = "auto",
         input_state: Data | None = None,
         branch_selector: BranchSelector | None = None,
+        *,
+        stacklevel: int = 1,
     ) -> None:
         """Construct a tensor network backend."""
         if input_state is None:
@@ -640,11 +645,11 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
             case "parallel" | "sequential":
                 pass
             case "opt":
-                graph_prep = "parallel"
                 warnings.warn(
                     f"graph preparation strategy '{graph_prep}' is deprecated and will be replaced by 'parallel'",
-                    stacklevel=1,
+                    stacklevel=stacklevel + 1,
                 )
+                graph_prep = "parallel"
             case "auto":
                 max_degree = pattern.max_degree()
                 # "parallel" does not support non standard pattern
diff --git a/graphix/simulator.py b/graphix/simulator.py
index b443e04..41dda6c 100644
--- a/graphix/simulator.py
+++ b/graphix/simulator.py
@@ -568,7 +568,9 @@ def _initialize_backend(
         if options.symbolic:
             raise ValueError("`symbolic` cannot be specified for tensor network backend.")
         graph_prep = "auto" if options.graph_prep is None else options.graph_prep
-        return TensorNetworkBackend(pattern, branch_selector=branch_selector, graph_prep=graph_prep)
+        return TensorNetworkBackend(
+            pattern, branch_selector=branch_selector, graph_prep=graph_prep, stacklevel=stacklevel + 1
+        )
     if options.graph_prep is not None:
         raise ValueError("`graph_prep` can only be specified for tensor network backend.")
     match backend:
-- 
2.43.0


From c038f8c45fc5b2d6f4fe28f23af00d8646e38f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:35 +0000
Subject: [PATCH 64/67] fix: do not warn about the ancillary open graph when
 extracting a circuit

---
 graphix/circ_ext/extraction.py |  5 +++--
 graphix/opengraph.py           | 11 ++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index f191f24..e494c11 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -676,8 +676,9 @@ def clifford_x_map_from_focused_flow(flow: PauliFlow[Measurement]) -> tuple[Paul
     og = flow.og
     og_extended, ancillary_inputs_map = extend_input(og)
 
-    # Here it's crucial to not infer Pauli measurements to avoid converting measurements inadvertently.
-    flow_extended = og_extended.to_pauliflow()
+    # Here it's crucial to not infer Pauli measurements to avoid converting measurements inadvertently,
+    # and the user should not be warned about it.
+    flow_extended = og_extended._to_pauliflow()
 
     # `flow_extended` is guaranteed to be focused if `flow` is focused.
     # This function assumes that `flow` is focused and does not check it.
diff --git a/graphix/opengraph.py b/graphix/opengraph.py
index 21afe60..8e03f13 100644
--- a/graphix/opengraph.py
+++ b/graphix/opengraph.py
@@ -455,7 +455,12 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
         --------
         :func:`OpenGraph.to_pauliflow_or_none`, :func:`OpenGraph.infer_pauli_measurements`
         """
-        pf = self.to_pauliflow_or_none(stacklevel=stacklevel + 1)
+        self._warn_non_inferred_pauli_measurements(stacklevel=stacklevel + 1)
+        return self._to_pauliflow()
+
+    def _to_pauliflow(self: OpenGraph[_AM_co]) -> PauliFlow[_AM_co]:
+        """Extract a Pauli flow as :meth:`to_pauliflow`, without warning about non-inferred Pauli measurements."""
+        pf = self._to_pauliflow_or_none()
         if pf is None:
             raise OpenGraphError("The open graph does not have a Pauli flow.")
         return pf
@@ -565,6 +570,10 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
         'p(0) = {1}, p(1) = {2}; {0, 1} < {2}'
         """
         self._warn_non_inferred_pauli_measurements(stacklevel=stacklevel + 1)
+        return self._to_pauliflow_or_none()
+
+    def _to_pauliflow_or_none(self: OpenGraph[_AM_co]) -> PauliFlow[_AM_co] | None:
+        """Extract a Pauli flow as :meth:`to_pauliflow_or_none`, without warning about non-inferred Pauli measurements."""
         aog = AlgebraicOpenGraph(self)
         correction_matrix = compute_correction_matrix(aog)
         if correction_matrix is None:
-- 
2.43.0


From c64d017e1cb3fa89a76435675747d1fba10bfe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:28 +0000
Subject: [PATCH 65/67] fix: a visitor that fails leaves the circuit unchanged

---
 graphix/transpiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 6764e87..0c61d5a 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -661,7 +661,9 @@ class Circuit(InplaceParameterizable):
             The rewritten circuit. Equal to ``self`` if ``copy`` is ``False``.
         """
         result = Circuit(self.width) if copy else self
-        result.instruction[:] = [instr.visit(visitor, copy=copy) for instr in self.instruction]
+        # The instructions are rewritten on the side, so that the
+        # circuit remains unchanged if ``visitor`` raises an exception.
+        result.instruction[:] = [instr.visit(visitor, copy=True) for instr in self.instruction]
         # The qubits that have been measured cannot be used any more.
         measured = {instr.target for instr in result.instruction if instr.kind == InstructionKind.M}
         result.active_qubits = set(range(self.width)) - measured
-- 
2.43.0


From fd97a21f4c47a879f299b7ae6637f688c47dad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:28 +0000
Subject: [PATCH 66/67] fix: refuse invalid node attributes before adding nodes
 to a graph state

---
 graphix/graphsim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index c2c84a0..b597ecf 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -88,6 +88,11 @@ class GraphState(Graph):
     ) -> None:
         """Wrap `networkx.Graph.add_nodes_from` to initialize MBQCGraphNode attributes."""
         nodes_for_adding = list(nodes_for_adding)
+        for data in nodes_for_adding:
+            # Refuse before anything is added to the graph.
+            if isinstance(data, tuple) and not self.node_attr_dict_factory().keys() >= data[1].keys():
+                msg = "Invalid node attribute."
+                raise ValueError(msg)
         super().add_nodes_from(nodes_for_adding, **attr)  # type: ignore[arg-type]
         for data in nodes_for_adding:
             if isinstance(data, tuple):
-- 
2.43.0


From 678a050708e7558b973ab825adf967d6c6960dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:37 +0000
Subject: [PATCH 67/67] fix: leave the circuit unchanged when swaps cannot be
 transpiled

---
 graphix/transpiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 0c61d5a..b142332 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1105,11 +1105,11 @@ def transpile_swaps(circuit: Circuit, *, copy: bool = False) -> TranspileSwapsRe
             visitor.outputs[u], visitor.outputs[v] = visitor.outputs[v], visitor.outputs[u]
         elif instr.kind == InstructionKind.M:
             old_target = instr.target
-            new_circuit.add(instr.visit(visitor, copy=copy))
+            new_circuit.add(instr.visit(visitor, copy=True))
             visitor.outputs[old_target] = OutputIndex(OutputKind.Bit, measurement_index)
             measurement_index += 1
         else:
-            new_circuit.add(instr.visit(visitor, copy=copy))
+            new_circuit.add(instr.visit(visitor, copy=True))
     if not copy:
         circuit.instruction = new_circuit.instruction
         circuit.active_qubits = new_circuit.active_qubits
-- 
2.43.0

