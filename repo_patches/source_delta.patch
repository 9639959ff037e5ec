From 61e883d144113d4d6e732a6aef58f3d14b7df9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 01/60] fix: keep transpiling after an identity gate

instructions_to_jcz returned on the first I instruction, so every gate
after an identity gate was silently dropped from the transpiled pattern.
---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 046500b..f14d2ce 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -940,7 +940,7 @@ def instructions_to_jcz(instrs: Iterable[InstructionType]) -> Iterator[instructi
             case InstructionKind.J | InstructionKind.CZ | InstructionKind.M:
                 yield instr
             case InstructionKind.I:
-                return
+                continue
             case InstructionKind.H:
                 yield instruction.J(instr.target, 0)
             case InstructionKind.S:
-- 
2.43.0


From 3f80d6d30170ebfbd55749f97f373df9d9de9f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 02/60] fix: index output nodes by swapped qubit when
 measurements follow swaps

The position of an output node in the swapped circuit was computed from
the qubits of the original circuit, which raised KeyError or permuted the
outputs wrongly when a swapped qubit is measured.
---
 graphix/transpiler.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index f14d2ce..b45701e 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1009,13 +1009,9 @@ class TranspileSwapsResult:
 
     def extract_output_node_indices(self) -> tuple[int, ...]:
         """Return for each output node, sorted in the order of the original circuit, the index of the corresponding output node in the order of the swapped circuit."""
-        reduced_index = {}
-        reduced_counter = 0
-        for index, output in enumerate(self.outputs):
-            if output.kind == OutputKind.Qubit:
-                reduced_index[index] = reduced_counter
-                reduced_counter += 1
-        return tuple(reduced_index[index] for index in self.extract_outputs(OutputKind.Qubit))
+        outputs = self.extract_outputs(OutputKind.Qubit)
+        reduced_index = {index: counter for counter, index in enumerate(sorted(outputs))}
+        return tuple(reduced_index[index] for index in outputs)
 
     def swap_output_nodes(self, output_nodes: Sequence[Node]) -> tuple[Node, ...]:
         """Reorder the output nodes of a pattern obtained from a swapped circuit to restore the qubit ordering of the original circuit."""
-- 
2.43.0


From bd251e550bc212d9eeccd7f9b465b575c061734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 03/60] fix: report classical outputs in the order of the gates

With transpile_swaps=True (the default), classical outputs were permuted
into qubit order, contrary to the documentation and to
Circuit.simulate().classical_measures.
---
 graphix/transpiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index b45701e..d070dc6 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -514,8 +514,8 @@ class Circuit(InplaceParameterizable):
         swap = _transpile_swaps(self, copy=True)
         result = swap.circuit.transpile_to_causalflow().to_pattern()
         result.pattern.reorder_output_nodes(swap.swap_output_nodes(result.pattern.output_nodes))
-        classical_outputs = swap.swap_classical_outputs(result.classical_outputs)
-        return TranspiledPattern(result.pattern, classical_outputs)
+        # Removing swaps preserves the order of the measurement gates.
+        return TranspiledPattern(result.pattern, result.classical_outputs)
 
     @overload
     def simulate(
-- 
2.43.0


From d40d381691887d64604c3e21f2ffdc48e099a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 04/60] fix: keep the live qubits up to date when removing
 swaps in place

---
 graphix/transpiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index d070dc6..8a1f28a 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1103,6 +1103,7 @@ def transpile_swaps(circuit: Circuit, *, copy: bool = False) -> TranspileSwapsRe
             new_circuit.add(instr.visit(visitor, copy=copy))
     if not copy:
         circuit.instruction = new_circuit.instruction
+        circuit.active_qubits = new_circuit.active_qubits
         new_circuit = circuit
     return TranspileSwapsResult(new_circuit, tuple(visitor.outputs))
 
-- 
2.43.0


From 5dca19b9c8ff701a6cc76e533991349deed40b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 05/60] fix: copy the live qubits along with a visited circuit

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 8a1f28a..106f7fe 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -662,7 +662,7 @@ class Circuit(InplaceParameterizable):
         if copy:
             result = Circuit(self.width)
             for instr in self.instruction:
-                result.instruction.append(instr.visit(visitor, copy=True))
+                result.add(instr.visit(visitor, copy=True))
             return result
         for instr in self.instruction:
             instr.visit(visitor, copy=False)
-- 
2.43.0


From 14d10e1b15911b1828ad82fe35d993c9ff373c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 06/60] fix: shift signals with method mc on private commands

---
 graphix/pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6597aab..a82c5ee 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -655,6 +655,10 @@ class Pattern(InplaceParameterizable):
             case "direct":
                 return self.shift_signals_direct()
             case "mc":
+                # The commutations below modify domains in place: work on
+                # fresh commands, since the current ones may be shared with
+                # other patterns.
+                self.__seq = [cmd.reindex(lambda node: node) for cmd in self.__seq]
                 signal_dict = self.signals()
                 target = self._find_op_to_be_moved(CommandKind.S, rev=True)
                 while target is not None:
-- 
2.43.0


From 9f2be62c9a0b6f0d20c9170d9007530fc6caaf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 07/60] fix: keep nodes prepared in other states than |+> when
 removing Pauli measurements

---
 graphix/remove_pauli_measurements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 71decac..d39dc1d 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -36,6 +36,7 @@ from graphix.command import Command
 from graphix.fundamentals import Axis, Sign
 from graphix.measurements import PauliMeasurement
 from graphix.optimization import StandardizedPattern
+from graphix.states import BasicStates
 
 if TYPE_CHECKING:
     from collections.abc import Iterable, Mapping
@@ -239,7 +240,7 @@ class _RemovePauliMeasurements:
     Nodes are given with the indexing of the original pattern: use ``node_map`` to retrieve the index in the graph."""
 
     input_node_set: set[Node]
-    """Set of input nodes: inputs nodes are never pivoted, therefore their indexing is preserved."""
+    """Set of input nodes and of nodes that are not prepared in |+⟩: these nodes are never pivoted, therefore their indexing is preserved."""
 
     output_node_set: set[Node]
     """Set of output nodes, using the new indexing."""
@@ -266,7 +267,10 @@ class _RemovePauliMeasurements:
             self.node_specs[node].clifford = clifford
         self.measurements = cut.measurements
         self.pauli_measurements = {axis: set() for axis in Axis}
-        self.input_node_set = set(cut.original_pattern.input_nodes)
+        # Like input nodes, nodes that are not prepared in |+⟩ cannot be pivoted nor removed.
+        self.input_node_set = set(cut.original_pattern.input_nodes).union(
+            cmd_n.node for cmd_n in cut.original_pattern.n_list if cmd_n.state != BasicStates.PLUS
+        )
         self.output_node_set = set(cut.original_pattern.output_nodes)
         for cmd_m in self.cut.pauli_measurements:
             if not isinstance(cmd_m.measurement, PauliMeasurement):  # pragma: no cover
-- 
2.43.0


From 174c6fa92c34d72f2760d62902ab44a2579ff1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 08/60] fix: parallelize patterns without output nodes

---
 graphix/pattern.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index a82c5ee..fd5929e 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1163,7 +1163,10 @@ class Pattern(InplaceParameterizable):
             optimal measurement order for parallel computing
         """
         partial_order_layers = self.partial_order_layers()
-        return list(itertools.chain(*reversed(partial_order_layers[1:])))
+        if self.__output_nodes:
+            # The first layer contains the output nodes
+            partial_order_layers = partial_order_layers[1:]
+        return list(itertools.chain(*reversed(partial_order_layers)))
 
     def sort_measurement_commands(self, meas_order: list[int]) -> list[command.M]:
         """Convert measurement order to sequence of measurement commands.
-- 
2.43.0


From 0862a020d5044c174118e613334d0e1b3d52175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 09/60] fix: minimize space of patterns preparing other states
 than |+>

---
 graphix/space_minimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/space_minimization.py b/graphix/space_minimization.py
index 35e7bdd..d647838 100644
--- a/graphix/space_minimization.py
+++ b/graphix/space_minimization.py
@@ -193,7 +193,8 @@ class SpaceMinimizationHeuristics:
         """
         try:
             cf = pattern.to_xzcorrections().downcast_bloch().to_causalflow()
-        except (TypeError, FlowError):
+        except (TypeError, ValueError, FlowError):
+            # `ValueError` is raised if a node is not prepared in the |+⟩ state.
             return None
         else:
             meas_order = tuple(chain(*reversed(cf.partial_order_layers[1:])))
-- 
2.43.0


From 7cd1c65b2980766b116afa4d12175937fc3e27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 10/60] fix: remove identity Clifford commands without renaming
 their node

---
 graphix/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index a571218..0ba52a0 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -641,8 +641,10 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
                 # - The set of input nodes is {0}.
                 # - The output node is the highest-indexed node.
                 new_pattern.extend(clifford_pattern.reindex(lambda node: cmd_node if node == 0 else node + max_node))  # noqa: B023
-                max_node += output_node
-                mapping[cmd.node] = max_node
+                # The pattern of the identity has a single node: there is nothing to rename.
+                if output_node != 0:
+                    max_node += output_node
+                    mapping[cmd.node] = max_node
             case _:
                 new_cmd = cmd.reindex(reindex)
                 new_pattern.add(new_cmd)
-- 
2.43.0


From 7aff8e4683c5bb092c1641955aafdc2736fbb0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 11/60] fix: list the connected nodes of patterns ending with
 an entanglement

---
 graphix/pattern.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index fd5929e..7c6d1fe 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1279,15 +1279,14 @@ class Pattern(InplaceParameterizable):
         node_list = []
         ind = self._find_op_to_be_moved(CommandKind.E)
         if ind is not None:  # end -> 'node' is isolated
-            cmd = self.__seq[ind]
-            while cmd.kind == CommandKind.E:
+            for cmd in self.__seq[ind:]:
+                if cmd.kind != CommandKind.E:
+                    break
                 if cmd.nodes[0] == node:
                     if cmd.nodes[1] not in prepared:
                         node_list.append(cmd.nodes[1])
                 elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
                     node_list.append(cmd.nodes[0])
-                ind += 1
-                cmd = self.__seq[ind]
         return node_list
 
     def correction_commands(self) -> list[command.X | command.Z]:
-- 
2.43.0


From a66b2a3f24614e262e83dce8b7dcda76e2500302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 12/60] fix: count input nodes in the space list

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 7c6d1fe..c69f5ba 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1380,7 +1380,7 @@ class Pattern(InplaceParameterizable):
         N_list : list
             time evolution of 'space' at each 'N' and 'M' commands of pattern.
         """
-        nodes = 0
+        nodes = len(self.__input_nodes)
         n_list = []
         for cmd in self.__seq:
             match cmd.kind:
-- 
2.43.0


From 93c8910ada2de07eebece9f6b9c7b3f282a6b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 13/60] fix: update the node count when nodes are removed or
 added in place

---
 graphix/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index c69f5ba..5f1799f 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1929,6 +1929,7 @@ class Pattern(InplaceParameterizable):
             return pattern
         self.__seq = pattern.__seq
         self.__output_nodes = pattern.__output_nodes
+        self.__n_node = pattern.__n_node
         return self
 
     def remove_local_clifford_commands(self, *, copy: bool = False) -> Pattern:
@@ -1959,6 +1960,7 @@ class Pattern(InplaceParameterizable):
             return new_pattern
         self.__seq = new_pattern.__seq
         self.__output_nodes = new_pattern.__output_nodes
+        self.__n_node = new_pattern.__n_node
         return self
 
 
-- 
2.43.0


From f861cb23dc6f49af1763b82cbed5f732337fd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 14/60] fix: compose with an empty pattern

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 5f1799f..6213d7e 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -358,7 +358,7 @@ class Pattern(InplaceParameterizable):
                 stacklevel=2,
             )
 
-        shift = max((*nodes_p1, *mapping.values())) + 1
+        shift = max((*nodes_p1, *mapping.values()), default=-1) + 1
         mapping_complete = other.node_mapping(mapping, start=shift)
         other = other.reindex(mapping_complete, copy=True)
 
-- 
2.43.0


From d61361c376189e1ad3e23c66b722741cd37902d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 15/60] fix: copy empty patterns when removing local Clifford
 commands

---
 graphix/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index 0ba52a0..46480c7 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -619,7 +619,7 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
 
     nodes = pattern.nodes()
     if not nodes:
-        return pattern
+        return pattern.copy()
     max_node = max(nodes)
     new_pattern = Pattern(input_nodes=pattern.input_nodes)
     mapping: dict[Node, Node] = {}
-- 
2.43.0


From 11d1de2df9c13a0d547c29605b140e5db729a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 16/60] fix: hand the generator to composed noise models on
 input nodes

---
 graphix/noise_models/noise_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index 94b2237..b350965 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,7 +150,7 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
-        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, stacklevel=stacklevel + 1)]
+        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)]
 
     @override
     def command(
-- 
2.43.0


From e3aea0745a1040cf0c84a7b95a89af2f9249955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 17/60] fix: hand the generator to the default of fixed branch
 selectors

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a8b6a75..9489319 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -131,7 +131,7 @@ class FixedBranchSelector(BranchSelector, Generic[_T]):
         if result is None:
             if self.default is None:
                 raise ValueError(f"Unexpected measurement of qubit {qubit}.")
-            return self.default.measure(qubit, f_expectation0)
+            return self.default.measure(qubit, f_expectation0, rng=rng, stacklevel=stacklevel + 1)
         return result
 
 
-- 
2.43.0


From 69a4cce2d9fd81f67e6b52c62e5287ebfb92f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 18/60] fix: store numeric density matrices as complex matrices

---
 graphix/sim/density_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index ad42a0e..5d6ca77 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -103,6 +103,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                     raise ValueError("Cannot interpret the provided density matrix as a qubit operator.")
                 check_size_consistency(self.rho)
                 if self.rho.dtype != np.object_:
+                    self.rho = self.rho.astype(np.complex128, copy=False)
                     if not lv.is_unit_trace(self.rho):
                         raise ValueError("Density matrix must have unit trace.")
                     if not lv.is_psd(self.rho):
-- 
2.43.0


From 469b61b34bd241556f484216ce7beca2839b9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 19/60] fix: keep density matrices numeric when evolving by
 real operators

---
 graphix/sim/base_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/base_backend.py b/graphix/sim/base_backend.py
index 8189364..4d19210 100644
--- a/graphix/sim/base_backend.py
+++ b/graphix/sim/base_backend.py
@@ -64,7 +64,7 @@ def tensordot(op: Matrix, psi: Matrix, axes: tuple[int | Sequence[int], int | Se
     Matrix
         The result of the tensor contraction with the same type as `psi`.
     """
-    if psi.dtype == np.complex128 and op.dtype == np.complex128:
+    if psi.dtype != np.object_ and op.dtype != np.object_:
         psi_c = psi.astype(np.complex128, copy=False)
         op_c = op.astype(np.complex128, copy=False)
         return np.tensordot(op_c, psi_c, axes).astype(np.complex128)
-- 
2.43.0


From 559e706c088a593da415b67e72040dc51bf63ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 20/60] fix: leave the density matrix unchanged when computing
 an expectation value

---
 graphix/sim/density_matrix.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 5d6ca77..4828cdc 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -354,16 +354,14 @@ class DensityMatrix(DenseState, InplaceParameterizable):
 
     def normalize(self) -> None:
         """Normalize density matrix."""
-        # Note that the following calls to `astype` are guaranteed to
-        # return the original NumPy array itself, since `copy=False` and
-        # the `dtype` matches. This is important because the array is
-        # then modified in place.
+        # The array is not modified in place because it can be shared
+        # with a shallow copy (see `expectation_single`).
         if self.rho.dtype == np.object_:
             rho_o = self.rho.astype(np.object_, copy=False)
-            rho_o /= np.trace(rho_o)
+            self.rho = rho_o / np.trace(rho_o)
         else:
             rho_c = self.rho.astype(np.complex128, copy=False)
-            rho_c /= np.trace(rho_c)
+            self.rho = rho_c / np.trace(rho_c)
 
     @override
     def remove_qubit(self, qubit: int) -> None:
-- 
2.43.0


From 45774884931cbbf5b771dd259c149df325243c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 21/60] fix: tolerate rounding errors in the fidelity of
 density matrices

---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 4828cdc..5c41487 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -405,7 +405,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         result = vdot(statevec.psi, matmul(self.rho, statevec.psi))
         if isinstance(result, Expression):
             return result
-        assert math.isclose(result.imag, 0)
+        assert math.isclose(result.imag, 0, abs_tol=1e-10)
         return result.real
 
     def flatten(self) -> Matrix:
-- 
2.43.0


From 3c9e5796edefdedfba66f2b077aeebe8f09eb3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 22/60] fix: check the bounds of swapped qubits

---
 graphix/sim/statevec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 0cb4eac..b75b55a 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -503,6 +503,8 @@ class Statevector(DenseState):
         qubits : tuple[int, int]
             (control, target) qubit indices.
         """
+        for qubit in qubits:
+            self._check_bounds(qubit)
         _swap_jit(self._psi, self.nqubit, *qubits)
 
     def tensor(self, other: Statevector) -> None:
-- 
2.43.0


From f19caaeb39b5f99bf04fc37b2f1e2b13f694056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 23/60] fix: reject single-qubit operators of the wrong shape
 in state vectors

---
 graphix/sim/statevec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index b75b55a..0283970 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -1208,6 +1208,9 @@ def _cast_op(op: Matrix) -> npt.NDArray[np.complex128]:
         raise TypeError(
             "Statevector backend does not support symbolic operators. Consider using backend in `graphix-symbolic` plugin."
         )
+    # There is no bounds checking in Numba.
+    if op.shape != (2, 2):
+        raise ValueError("op must be 2*2 matrix.")
     # By default, the numba signature c16[:,:] assumes a writeable array.
     # Arrays obtained from, e.g., `graphix.clifford.Clifford.H.matrix` or
     # `graphix.ops.Ops.X` are not writtable and therefore do not match the
-- 
2.43.0


From 4b3626ffc67a28eed420b27969594caa1fa1fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 24/60] fix: reject repeated target qubits when evolving state
 vectors

---
 graphix/sim/statevec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 0283970..7a63eba 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -377,6 +377,8 @@ class Statevector(DenseState):
         implementation.
         """
         nq = len(qubits)
+        if len(set(qubits)) != nq:
+            raise ValueError("A repeated target qubit index is not possible.")
         # treat op as a tensor with nq output + nq input legs
         op_t = op.reshape((2,) * (nq * 2)).astype(np.complex128, copy=False)
         psi_t = self.flatten().reshape((2,) * self.nqubit).astype(np.complex128, copy=False)
-- 
2.43.0


From dde9112e909b186407dcec0d6bb51063211c5c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 25/60] fix: reject amplitudes that do not form a vector of
 2**n numbers

---
 graphix/sim/statevec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 7a63eba..517522d 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -187,13 +187,15 @@ class Statevector(DenseState):
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
         elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)):
             inferred_nqubit = length.bit_length() - 1
+            if length & (length - 1):
+                raise ValueError(f"Length of input data is not a power of two: {length}.")
             if nqubit is None:
-                if length & (length - 1):
-                    raise ValueError(f"Length of input data is not a power of two: {length}.")
                 nqubit = inferred_nqubit
             elif nqubit != inferred_nqubit:
                 raise ValueError(f"Mismatch between nqubit and inferred nqubit: {nqubit} != {inferred_nqubit}.")
             psi = np.array(input_list, dtype=np.complex128)
+            if psi.ndim != 1:
+                raise ValueError(f"Input data should be one-dimensional, got shape {psi.shape}.")
             if not np.isclose(np.linalg.norm(psi), 1.0):
                 raise ValueError("Input state is not normalized.")
 
-- 
2.43.0


From b83096885ff62565802449f2521aab29363808a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 26/60] fix: do not lose the states of an iterator given to a
 density matrix

---
 graphix/sim/density_matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 5c41487..e399ffd 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -109,7 +109,10 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                     if not lv.is_psd(self.rho):
                         raise ValueError("Density matrix must be positive semi-definite.")
                 return
-        statevec = Statevector(data, nqubit)
+            # `data` may be an iterator, which is exhausted by now.
+            statevec = Statevector(input_list, nqubit)  # type: ignore[arg-type]
+        else:
+            statevec = Statevector(data, nqubit)
         # NOTE this works since np.outer flattens the inputs!
         self.rho = outer(statevec.psi, statevec.psi.conj())
 
-- 
2.43.0


From 94f7d9ee1b1a2eb6997bcdacf557ec63f1601715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 27/60] fix: let MatGF2 copy data when it cannot be avoided

---
 graphix/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/_linalg.py b/graphix/_linalg.py
index 11f509b..5943233 100644
--- a/graphix/_linalg.py
+++ b/graphix/_linalg.py
@@ -30,7 +30,8 @@ class MatGF2(npt.NDArray[np.uint8]):
         -------
             MatGF2
         """
-        arr = np.array(data, dtype=np.uint8, copy=copy)
+        # `copy=False` raises an error in NumPy 2 when a copy is necessary.
+        arr = np.array(data, dtype=np.uint8, copy=True if copy else None)
         return super().__new__(
             cls, shape=arr.shape, dtype=arr.dtype, buffer=arr, strides=arr.strides
         )  # `strides=arr.strides` allows to preserve the memory layout of the original data.
-- 
2.43.0


From 3624a656adc0e6c886441a0c29b16d4b1c670be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 28/60] fix: eliminate in place in matrices that are not
 contiguous

---
 graphix/_linalg.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/graphix/_linalg.py b/graphix/_linalg.py
index 5943233..7589d3e 100644
--- a/graphix/_linalg.py
+++ b/graphix/_linalg.py
@@ -152,7 +152,11 @@ class MatGF2(npt.NDArray[np.uint8]):
         ncols_value = self.shape[1] if ncols is None else ncols
         mat_ref = MatGF2(self) if copy else self
 
-        return MatGF2(_elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=False), copy=False)
+        result = _elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=False)
+        if not copy and not self.flags.c_contiguous:
+            # `np.ascontiguousarray` made a copy.
+            self[...] = result
+        return MatGF2(result, copy=False)
 
     def row_reduction(self, ncols: int | None = None, copy: bool = True) -> MatGF2:
         """Return row-reduced echelon form (RREF) by performing Gaussian elimination.
@@ -173,7 +177,11 @@ class MatGF2(npt.NDArray[np.uint8]):
         ncols_value = self.shape[1] if ncols is None else ncols
         mat_ref = self.copy() if copy else self
 
-        return MatGF2(_elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=True), copy=False)
+        result = _elimination_jit(np.ascontiguousarray(mat_ref), ncols=ncols_value, full_reduce=True)
+        if not copy and not self.flags.c_contiguous:
+            # `np.ascontiguousarray` made a copy.
+            self[...] = result
+        return MatGF2(result, copy=False)
 
 
 def solve_f2_linear_system(mat: MatGF2, b: MatGF2) -> MatGF2:
-- 
2.43.0


From 0bbe21197eceb9c9d55d0262b4e69d410e3c958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 29/60] fix: format the message of XZCorrectionsOrderError

---
 graphix/flow/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/flow/exceptions.py b/graphix/flow/exceptions.py
index a297880..f8c1f1b 100644
--- a/graphix/flow/exceptions.py
+++ b/graphix/flow/exceptions.py
@@ -280,9 +280,9 @@ class XZCorrectionsOrderError(XZCorrectionsError):
         """Explain the error."""
         match self.reason:
             case XZCorrectionsOrderErrorReason.X:
-                return "The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case XZCorrectionsOrderErrorReason.Z:
-                return "The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case _:
                 assert_never(self.reason)
 
-- 
2.43.0


From d0eacba67955bec27847f52de0622d17cdd0e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 30/60] fix: do not describe an empty causal-flow correction
 set as having several elements

---
 graphix/flow/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/flow/exceptions.py b/graphix/flow/exceptions.py
index f8c1f1b..ba8d809 100644
--- a/graphix/flow/exceptions.py
+++ b/graphix/flow/exceptions.py
@@ -18,7 +18,7 @@ class FlowPropositionErrorReason(Enum):
     """Describe the reason of a `FlowPropositionError` exception."""
 
     C0 = enum.auto()
-    """A correction set in a causal flow has more than one element."""
+    """A correction set in a causal flow does not have exactly one element."""
 
     C1 = enum.auto()
     """Causal flow (C1). A node and its corrector must be neighbors."""
@@ -162,7 +162,7 @@ class FlowPropositionError(FlowError):
         error_help = f"Error found at c({self.node}) = {self.correction_set}."
         match self.reason:
             case FlowPropositionErrorReason.C0:
-                return f"Correction set c({self.node}) = {self.correction_set} has more than one element."
+                return f"{self.reason.name}: correction set c({self.node}) = {self.correction_set} does not have exactly one element."
             case FlowPropositionErrorReason.C1:
                 return f"{self.reason.name}: a node and its corrector must be neighbors. {error_help}"
             case FlowPropositionErrorReason.G3 | FlowPropositionErrorReason.P4:
-- 
2.43.0


From 8f339c1601f636839d8bfbf5bb0446c74cf6d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 31/60] fix: reject XZ-corrections on unknown nodes in
 check_well_formed

---
 graphix/flow/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 1cea8c4..ae1e2a1 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -417,6 +417,7 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         -----
         A correct ``XZCorrections`` instance verifies the following properties:
             - Keys of the correction dictionaries are measured nodes, i.e., a subset of :math:`O^c`.
+            - Values of the correction dictionaries are nodes of the open graph.
             - Corrections respect the partial order.
             - The first layer of the partial order contains all the output nodes if there are any.
             - The partial order contains all the nodes (without duplicates) and it does not have empty layers.
@@ -434,6 +435,9 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         if not oc_set.issuperset(self.x_corrections.keys() | self.z_corrections.keys()):
             raise XZCorrectionsGenericError(XZCorrectionsGenericErrorReason.IncorrectKeys)
 
+        if not set().union(*self.x_corrections.values(), *self.z_corrections.values()).issubset(self.og.graph.nodes):
+            raise XZCorrectionsGenericError(XZCorrectionsGenericErrorReason.IncorrectValues)
+
         first_layer = self.partial_order_layers[0]
 
         # Unlike for flows, XZCorrections can be well defined on open graphs without outputs
-- 
2.43.0


From 7ac5d86177adf473140681e036633c919c4d0900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 32/60] fix: XZCorrections.is_compatible failed when no node is
 measured

---
 graphix/flow/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index ae1e2a1..77eaf2d 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -394,14 +394,12 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
 
         i = 0
         n_measured_layers = len(measured_layers)
-        layer = measured_layers[0]
 
         for node in total_measurement_order:
-            while node not in layer:
+            while i < n_measured_layers and node not in measured_layers[i]:
                 i += 1
-                if i == n_measured_layers:
-                    return False
-                layer = measured_layers[i]
+            if i == n_measured_layers:
+                return False
 
         return True
 
-- 
2.43.0


From 18fa20a0e712723beb9de1e9e5cdb9e916b1bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 33/60] fix: to_pauliflow returned correction sets containing
 input nodes

---
 graphix/flow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 77eaf2d..47e42db 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -1479,6 +1479,9 @@ def _solve_pauli_correction_set(
     z_corr = set(xz.z_corrections.get(node, ()))
     label = labels[node]
 
+    if not x_corr <= non_inputs:
+        return None  # The image of a correction function does not contain input nodes.
+
     # Self-membership in the correction set, dictated by the local proposition (P4-P9).
     self_fixed_in = label in {Plane.XZ, Plane.YZ, Axis.Z}
     if self_fixed_in and node not in non_inputs:
-- 
2.43.0


From 3a7164061cdd6e0827dafe693d70da7c542e1078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 34/60] fix: OpenGraph.compose failed when self is the empty
 open graph

---
 graphix/opengraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/opengraph.py b/graphix/opengraph.py
index a896a92..21afe60 100644
--- a/graphix/opengraph.py
+++ b/graphix/opengraph.py
@@ -711,7 +711,7 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
             if vm is not None and (uc := self.output_cliffords.get(u)) is not None:
                 measurements_other[v] = vm.clifford(uc)
 
-        shift = max((*self.graph.nodes, *mapping.values())) + 1
+        shift = max((*self.graph.nodes, *mapping.values()), default=-1) + 1
 
         mapping_sequential = {
             node: i for i, node in enumerate(sorted(other.graph.nodes - mapping.keys()), start=shift)
-- 
2.43.0


From c11532438a344b400a2bb8a1116135256a798156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 35/60] fix: extract circuits from open graphs without inputs
 and outputs

max() and np.vstack() failed on the empty sequences.
---
 graphix/circ_ext/extraction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 5d5fa14..c935a0b 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -505,6 +505,9 @@ class CliffordMap:
                 f"Isometries are not supported yet: # of inputs ({len(self.input_nodes)}) must be equal to the # of outputs ({len(self.output_nodes)})."
             )
 
+        if n == 0:
+            return MatGF2(np.zeros((0, 1), dtype=np.uint8))
+
         return MatGF2(np.vstack([ps.to_tableau() for psmap in (self.x_map, self.z_map) for ps in psmap]))
 
 
@@ -595,7 +598,7 @@ def extend_input(og: OpenGraph[Measurement]) -> tuple[OpenGraph[Measurement], di
     This operation preserves the Pauli flow.
     """
     ancillary_inputs_map: dict[int, int] = {}
-    fresh_node = max(og.graph.nodes) + 1
+    fresh_node = max(og.graph.nodes, default=-1) + 1
     graph = og.graph.copy()
     input_nodes = list(og.input_nodes)
     new_input_nodes: list[int] = []
-- 
2.43.0


From 6d01db4db8087f53e7a4296f702bc6bd8b9bdc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 36/60] fix: sign of the image of Z for inputs with a negative
 Pauli measurement

The extracted Clifford map flipped the sign of the image of Z_i once too
often when input i is measured with the negative sign of a Pauli axis.
---
 graphix/circ_ext/extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index c935a0b..831378d 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -554,7 +554,8 @@ def extraction_ps_from_corrected_node(flow: PauliFlow[Measurement], node: Node)
     negative_sign ^= bool(len(inter_c_odd_set) // 2 % 2)
 
     # One phase flip per node in the graph state stabilizer that is absorbed from a Pauli measurement with angle π.
-    for n in c_set | odd_c_set:
+    # The operator on the corrected node itself is not absorbed.
+    for n in (c_set | odd_c_set) - {node}:
         meas = og.measurements.get(n, None)
         if isinstance(meas, PauliMeasurement):
             negative_sign ^= meas.sign == Sign.MINUS
-- 
2.43.0


From 64d6f1019c6621e3042d42da7c0a9f798316d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 37/60] fix: documented formula of Pauli exponentials

The angle of an exponential is half the measurement angle and the ladder
pass compiles exp(i alpha P); the docstring halved the angle once more.
---
 graphix/circ_ext/extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 831378d..718edb7 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -287,7 +287,7 @@ class PauliExponential:
 
     .. math::
 
-        U(\alpha) = \exp \left(i \frac{\alpha}{2} P\right),
+        U(\alpha) = \exp \left(i \alpha P\right),
 
     where :math:`\alpha` is a real-valued angle and :math:`P` is a Pauli string.
 
-- 
2.43.0


From c331d62855ceab9745ce7754d6e226027f2596f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 38/60] fix: copies of tensor networks shared the dangling
 indices of the original

Evolving a copy corrupted the original (and conversely), and the copy
lost the default output nodes.
---
 graphix/sim/tensornet.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index c9f4b3b..ada4af1 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -43,6 +43,7 @@ class MBQCTensorNet(TensorNetwork):
     """Tensor Network Simulator interface for MBQC patterns, using quimb.tensor.core.TensorNetwork."""
 
     _dangling: dict[str, str]
+    default_output_nodes: list[int] | None
 
     def __init__(
         self,
@@ -70,7 +71,12 @@ class MBQCTensorNet(TensorNetwork):
         if ts is None:
             ts = []
         super().__init__(ts=ts, virtual=virtual)
-        self._dangling = ts._dangling if isinstance(ts, MBQCTensorNet) else {}
+        if isinstance(ts, MBQCTensorNet):
+            self._dangling = dict(ts._dangling)
+            if default_output_nodes is None:
+                default_output_nodes = ts.default_output_nodes
+        else:
+            self._dangling = {}
         self.default_output_nodes = None if default_output_nodes is None else list(default_output_nodes)
         # prepare the graph state if graph_nodes and graph_edges are given
         if graph_nodes is not None and graph_edges is not None:
-- 
2.43.0


From f7a8ba36a31347c8bc1c4107bd108ef4c5c2c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 39/60] fix: outcome probabilities of isolated nodes in the
 tensor-network backend

The probabilities were those of a measurement in the computational basis,
whatever the measurement, so that impossible outcomes were drawn.
---
 graphix/sim/tensornet.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index ada4af1..67cd556 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -765,21 +765,18 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         measurement : Measurement
             measure plane and angle
         """
-        if node in self._isolated_nodes:
-            vector: npt.NDArray[np.complex128] = self.state.open_tensor(node)
-            probs = (np.abs(vector) ** 2).astype(np.float64)
-            probs /= np.sum(probs)
-            result: Outcome = self.branch_selector.measure(node, lambda: probs[0], rng=rng, stacklevel=stacklevel + 1)
-            self.results[node] = result
-            buffer = 1 / probs[result] ** 0.5
-        else:
-            result = self.branch_selector.measure(node, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
-            self.results[node] = result
-            buffer = 2**0.5
         bloch = measurement.to_bloch()
         if isinstance(bloch.angle, Expression):
             raise TypeError("Parameterized pattern unsupported.")
         vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
+        prob0 = 0.5
+        if node in self._isolated_nodes:
+            projector = np.outer(vec, vec.conj())
+            prob0 = float(np.clip(np.real(self.state.expectation_value(projector, [0], [node])), 0, 1))
+        result = self.branch_selector.measure(node, lambda: prob0, rng=rng, stacklevel=stacklevel + 1)
+        self.results[node] = result
+        prob = 1 - prob0 if result else prob0
+        buffer = 1 / prob**0.5 if prob > 0 else 1
         if result:
             vec = Ops.from_axis(bloch.plane.orth) @ vec
         proj_vec = vec * buffer
-- 
2.43.0


From f1cf39fadeef0bdc05e1e4eab448370ee8c48970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 40/60] fix: the tensor-network backend asked the branch
 selector twice per measurement

The second answer was ignored, but it consumed randomness and advanced
selectors that keep a state.
---
 graphix/sim/tensornet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 67cd556..c70b827 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -260,6 +260,11 @@ class MBQCTensorNet(TensorNetwork):
                 raise ValueError("Invalid measurement basis.")
         else:
             raise NotImplementedError("Measurement probability calculation not implemented.")
+        self._project(index, proj_vec)
+        return result
+
+    def _project(self, index: int, proj_vec: npt.NDArray[np.complex128]) -> None:
+        """Project a node on the given (not necessarily normalized) vector."""
         old_ind = self._dangling[str(index)]
         proj_ts = Tensor(proj_vec, [old_ind], [str(index), "M", "Close", "ancilla"]).H
         # add the tensor to the network
@@ -267,7 +272,6 @@ class MBQCTensorNet(TensorNetwork):
         tensor = self.tensor_map[tid[0]]
         tensor.retag({"Open": "Close"}, inplace=True)
         self.add_tensor(proj_ts)
-        return result
 
     def prepare_graph_state(self, nodes: Iterable[int], edges: Iterable[tuple[int, int]]) -> None:
         """Prepare the graph state without directly applying CZ gates.
@@ -780,7 +784,7 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         if result:
             vec = Ops.from_axis(bloch.plane.orth) @ vec
         proj_vec = vec * buffer
-        self.state.measure_single(node, basis=proj_vec, rng=rng, stacklevel=stacklevel + 1)
+        self.state._project(node, proj_vec)
         return result
 
     @override
-- 
2.43.0


From 8d18fd749ebfb643548c88b5f4b14062099dc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 41/60] fix: adding a qubit in a given state vector to a tensor
 network

Matching an array against the names of states raised ValueError.
---
 graphix/sim/tensornet.py | 41 ++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index c70b827..6c9a180 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -117,27 +117,28 @@ class MBQCTensorNet(TensorNetwork):
         """
         ind = gen_str()
         tag = str(index)
-        match state:
-            case "plus":
-                vec = BasicStates.PLUS.to_statevector_numpy()
-            case "minus":
-                vec = BasicStates.MINUS.to_statevector_numpy()
-            case "zero":
-                vec = BasicStates.ZERO.to_statevector_numpy()
-            case "one":
-                vec = BasicStates.ONE.to_statevector_numpy()
-            case "iplus":
-                vec = BasicStates.PLUS_I.to_statevector_numpy()
-            case "iminus":
-                vec = BasicStates.MINUS_I.to_statevector_numpy()
-            case _:
-                if isinstance(state, str):
+        if isinstance(state, str):
+            match state:
+                case "plus":
+                    vec = BasicStates.PLUS.to_statevector_numpy()
+                case "minus":
+                    vec = BasicStates.MINUS.to_statevector_numpy()
+                case "zero":
+                    vec = BasicStates.ZERO.to_statevector_numpy()
+                case "one":
+                    vec = BasicStates.ONE.to_statevector_numpy()
+                case "iplus":
+                    vec = BasicStates.PLUS_I.to_statevector_numpy()
+                case "iminus":
+                    vec = BasicStates.MINUS_I.to_statevector_numpy()
+                case _:
                     raise TypeError(f"Unknown state: {state}")
-                if state.shape != (2,):
-                    raise ValueError("state must be 2-element np.ndarray")
-                if not np.isclose(np.linalg.norm(state), 1):
-                    raise ValueError("state must be normalized")
-                vec = state
+        else:
+            if state.shape != (2,):
+                raise ValueError("state must be 2-element np.ndarray")
+            if not np.isclose(np.linalg.norm(state), 1):
+                raise ValueError("state must be normalized")
+            vec = state
         tsr = Tensor(vec, [ind], [tag, "Open"])
         self.add_tensor(tsr)
         self._dangling[tag] = ind
-- 
2.43.0


From 083038fdfe7e4ca8888e9ab24803bf54fd320129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 42/60] fix: adding qubits in a list of state vectors to a
 tensor network

---
 graphix/sim/tensornet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 6c9a180..97afc2e 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -187,13 +187,16 @@ class MBQCTensorNet(TensorNetwork):
             # `states` is of type `PrepareState`, a type alias for
             # `str | npt.NDArray[np.complex128]`. To distinguish
             # between the two cases, we just need to check whether
-            # an element is a character or a complex number.
-            if len(states_list) == 0 or isinstance(states_list[0], SupportsComplex):
+            # an element is a state (string or array) or a complex number.
+            # Arrays should be checked explicitly since they implement `__complex__`.
+            if len(states_list) == 0 or (
+                isinstance(states_list[0], SupportsComplex) and not isinstance(states_list[0], np.ndarray)
+            ):
                 states_iter = [np.array(states_list)] * len(indices)
             else:
 
                 def get_prepare_state(item: PrepareState | SupportsComplex) -> PrepareState:
-                    if isinstance(item, SupportsComplex):
+                    if isinstance(item, SupportsComplex) and not isinstance(item, np.ndarray):
                         raise TypeError("Unexpected complex")
                     return item
 
-- 
2.43.0


From 8f6b93d4663f8f57441ebf6f4786aaaf2dea499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 43/60] fix: Kraus coefficients of pauli_channel

---
 graphix/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index d807814..99e8eb2 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -212,10 +212,10 @@ def pauli_channel(px: float, py: float, pz: float) -> KrausChannel:
     p_i = 1 - px - py - pz
     return KrausChannel(
         [
-            KrausData(np.sqrt(1 - p_i), Ops.I),
-            KrausData(np.sqrt(px / 3.0), Ops.X),
-            KrausData(np.sqrt(py / 3.0), Ops.Y),
-            KrausData(np.sqrt(pz / 3.0), Ops.Z),
+            KrausData(np.sqrt(p_i), Ops.I),
+            KrausData(np.sqrt(px), Ops.X),
+            KrausData(np.sqrt(py), Ops.Y),
+            KrausData(np.sqrt(pz), Ops.Z),
         ]
     )
 
-- 
2.43.0


From e0a11999ee4bbce29228055acb00ec80b5038d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 44/60] fix: documented action of KrausChannel

---
 graphix/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index 99e8eb2..5063083 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -81,7 +81,7 @@ class KrausChannel:
     r"""Quantum channel class in the Kraus representation.
 
     Defined by Kraus operators :math:`K_i` with scalar prefactors :code:`coef`) :math:`c_i`,
-    where the channel act on density matrix as :math:`\rho'  = \sum_i K_i^\dagger \rho K_i`.
+    where the channel act on density matrix as :math:`\rho'  = \sum_i K_i \rho K_i^\dagger`.
     The data should satisfy :math:`\sum K_i^\dagger K_i = I`.
     """
 
-- 
2.43.0


From 6b88d1879c6dcc9cafd4dbcaa6504791c6df8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 45/60] fix: identity vops rejected by GraphState.apply_vops

---
 graphix/graphsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 8e91292..a77171c 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -138,6 +138,8 @@ class GraphState(Graph):
                         self.h(node)
                     case Clifford.S:
                         self.s(node)
+                    case Clifford.I:
+                        pass
                     case _:
                         raise RuntimeError
 
-- 
2.43.0


From b82bbc40d02ad76e54ecb28b814d03de754597de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 46/60] fix: choice ignored when measuring isolated nodes of a
 graph state in the Z basis

---
 graphix/graphsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index a77171c..b2f6794 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -462,7 +462,8 @@ class GraphState(Graph):
         if choice:
             for i in self.neighbors(node):
                 self.flip_sign(i)
-        result = choice if not isolated else outcome(self.nodes[node]["sign"])
+        # the outcome is determined only for isolated hollow nodes (without loop)
+        result = outcome(self.nodes[node]["sign"]) if isolated == 1 else choice
         self.remove_node(node)
         return result
 
-- 
2.43.0


From d1e9d9c49fdd69fc603736d1b338f754db42e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:29 +0000
Subject: [PATCH 47/60] fix: attributes of nodes added to a graph state with
 keyword arguments or by adding edges

---
 graphix/graphsim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index b2f6794..1d62328 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -75,6 +75,11 @@ class GraphState(Graph):
         if vops is not None:
             self.apply_vops(vops)
 
+    @staticmethod
+    def node_attr_dict_factory() -> dict[str, Any]:
+        """Return the attributes of a new node, including nodes that `networkx` creates when adding edges."""
+        return {"sign": False, "hollow": False, "loop": False}
+
     @typing_extensions.override
     def add_nodes_from(  # pyright: ignore[reportIncompatibleMethodOverride]
         self,
@@ -85,7 +90,9 @@ class GraphState(Graph):
         nodes_for_adding = list(nodes_for_adding)
         super().add_nodes_from(nodes_for_adding, **attr)  # type: ignore[arg-type]
         for data in nodes_for_adding:
-            u, mp = data if isinstance(data, tuple) else (data, MBQCGraphNode(sign=False, hollow=False, loop=False))
+            if not isinstance(data, tuple):
+                continue
+            u, mp = data
             for k, v_ in mp.items():
                 dst = self.nodes[u]
                 v = bool(v_)
-- 
2.43.0


From c166fe77c325d1797403156ef696dbff2b392b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 48/60] fix: S on hollow nodes with a loop in graph states

---
 graphix/graphsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 1d62328..bb39b8b 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -257,6 +257,9 @@ class GraphState(Graph):
                 self.local_complement(node)
                 for i in self.neighbors(node):
                     self.advance(i)
+                if not self.nodes[node]["sign"]:
+                    for i in self.neighbors(node):
+                        self.flip_sign(i)
             else:
                 self.local_complement(node)
                 for i in self.neighbors(node):
-- 
2.43.0


From 024d211575155123d008e2e3ca6340e281bbe837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 49/60] fix: parenthesise decimal and factored complex
 amplitudes before kets

---
 graphix/pretty_print.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 8054fba..76c8921 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import enum
 import math
+import re
 import string
 from contextvars import ContextVar
 from enum import Enum
@@ -809,7 +810,8 @@ def _ket_str(ket: str, output: OutputFormat) -> str:
 
 def _needs_parentheses(coefficient: str) -> bool:
     """Whether a coefficient is a sum and must be parenthesized before a ket."""
-    return " + " in coefficient or " - " in coefficient
+    # The decimal fallback prints sums without spaces, e.g. ``0.6+0.8i``.
+    return re.search(r" [+-] |(?<=\d)[+-]", coefficient) is not None
 
 
 def _factor_uniform_magnitude(
@@ -853,11 +855,13 @@ def _factor_uniform_magnitude(
             value / radius, output, max_denominator=max_denominator, atol=atol, rtol=rtol, precision=precision
         )
         # A per-component phase is unit-modulus, so it is rendered as 1, -1, ±i, an
-        # exponential, or a decimal — never a parenthesizable sum.
+        # exponential, or, e.g. for ``0.6 + 0.8j``, a sum.
         if phase == "1":
             term = ket
         elif phase == "-1":
             term = f"-{ket}"
+        elif _needs_parentheses(phase):
+            term = f"({phase}){ket}"
         else:
             term = f"{phase}{ket}"
         if index == 0:
-- 
2.43.0


From f21bf580dfb4f9af9591567da1fbd7a89aae8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 50/60] fix: print no command when the limit of pattern_to_str
 is 0

---
 graphix/pretty_print.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 76c8921..a6c0937 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -316,12 +316,12 @@ def pattern_to_str(
     truncated = limit is not None and len(command_list) > limit
     # Note: The redundant test `limit is not None` is required for mypy
     # to narrow the type of `limit` in the then-branch.
-    short_command_list = command_list[: limit - 1] if limit is not None and truncated else command_list
+    short_command_list = command_list[: max(limit - 1, 0)] if limit is not None and truncated else command_list
     result = separator.join(command_to_str(command, output) for command in short_command_list)
     if output == OutputFormat.LaTeX:
         result = f"\\({result}\\)"
-    if limit is not None and truncated:
-        return f"{result}...({len(command_list) - limit + 1} more commands)"
+    if truncated:
+        return f"{result}...({len(command_list) - len(short_command_list)} more commands)"
     return result
 
 
-- 
2.43.0


From 11b4abd8af0873d3cdd59359f451bc749a4bb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 51/60] fix: keep the constant when the slopes of a sum of
 affine expressions cancel

---
 graphix/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/parameter.py b/graphix/parameter.py
index 891986f..647609a 100644
--- a/graphix/parameter.py
+++ b/graphix/parameter.py
@@ -202,7 +202,7 @@ class AffineExpression(Expression):
                 raise PlaceholderOperationError
             a = self.a + other.a
             if a == 0:
-                return 0
+                return self.b + other.b
             return AffineExpression(a=a, x=self.x, b=self.b + other.b)
         return NotImplemented
 
-- 
2.43.0


From 16108353884fc1fad6d50a43f5079385784ea226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 52/60] fix: take J instructions into account in
 Circuit.is_parameterized

---
 graphix/transpiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 106f7fe..2bb8ed6 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -700,7 +700,13 @@ class Circuit(InplaceParameterizable):
         """
         for instr in self.instruction:
             match instr.kind:
-                case InstructionKind.RZZ | InstructionKind.RX | InstructionKind.RY | InstructionKind.RZ:
+                case (
+                    InstructionKind.RZZ
+                    | InstructionKind.RX
+                    | InstructionKind.RY
+                    | InstructionKind.RZ
+                    | InstructionKind.J
+                ):
                     if not isinstance(instr.angle, SupportsFloat):
                         return True
         return False
-- 
2.43.0


From 323b5c2ff45961d0291cab605a08c295f08b1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 53/60] fix: choose the type of substituted density matrices
 from all their entries

---
 graphix/sim/density_matrix.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index e399ffd..dd69ea2 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -32,8 +32,8 @@ from graphix.sim.statevec import Statevector, _check_permutation
 from graphix.states import BasicStates, State
 
 if TYPE_CHECKING:
-    from collections.abc import Mapping, Sequence
-    from typing import SupportsComplex, SupportsFloat
+    from collections.abc import Callable, Mapping, Sequence
+    from typing import Any, SupportsComplex, SupportsFloat
 
     from graphix.noise_models.noise_model import Noise
     from graphix.parameter import ExpressionOrSupportsFloat, Parameter
@@ -470,7 +470,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameter(
         self, variable: Parameter, substitute: ExpressionOrSupportsFloat, *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameter(value, variable, substitute))(self.rho)
+        rho = _map_entries(lambda value: with_parameter(value, variable, substitute), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -482,7 +482,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameters(
         self, assignment: Mapping[Parameter, ExpressionOrSupportsFloat], *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameters(value, assignment))(self.rho)
+        rho = _map_entries(lambda value: with_parameters(value, assignment), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -491,6 +491,16 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         return self
 
 
+def _map_entries(f: Callable[[Any], Any], rho: Matrix) -> Matrix:
+    """Apply `f` to every entry of `rho`; the result is numeric if it contains no expression."""
+    result = np.empty(rho.shape, dtype=np.object_)
+    for index, value in np.ndenumerate(rho):
+        result[index] = f(value)
+    if any(isinstance(value, Expression) for value in result.flat):
+        return result
+    return result.astype(np.complex128)
+
+
 @dataclass(frozen=True)
 class DensityMatrixBackend(DenseStateBackend[DensityMatrix]):
     """MBQC simulator with density matrix method."""
-- 
2.43.0


From b9aed91804c108eba6165d0210cebe1727811d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 54/60] fix: respect size limits and terminate in
 graph_to_fusion_network

---
 graphix/extraction.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index eea0dc3..4f5e2c2 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -72,15 +72,18 @@ def graph_to_fusion_network(
     phasedict : dict
         Dictionary of phases for each node.
     max_ghz:
-        Maximum size of ghz clusters
+        Maximum size of ghz clusters, at least 2
     max_lin:
-        Maximum size of linear clusters
+        Maximum size of linear clusters, at least 2
 
     Returns
     -------
     list
         List of :class:`ResourceGraph` objects.
     """
+    if max_ghz < 2 or max_lin < 2:
+        raise ValueError("The maximum sizes of clusters must be at least 2.")
+
     adjdict = {k: dict(copy.deepcopy(v)) for k, v in graph.adjacency()}
 
     number_of_edges = graph.number_of_edges()
@@ -98,7 +101,8 @@ def graph_to_fusion_network(
     # Find GHZ graphs in the graph and remove their edges from the graph.
     # All nodes that have more than 2 edges become the roots of the GHZ clusters.
     for v, _ in sorted(neighbors_list, key=operator.itemgetter(1), reverse=True):
-        if len(adjdict[v]) > 2:
+        # If the size of the clusters is limited, several clusters may be needed for the same root.
+        while len(adjdict[v]) > 2:
             nodes = [v]
             while len(adjdict[v]) > 0 and len(nodes) < max_ghz:
                 n, _ = adjdict[v].popitem()
@@ -121,23 +125,23 @@ def graph_to_fusion_network(
                     n = n2
 
                 # We define any cluster whose size is smaller than 4, a GHZ cluster
-                if len(nodes) == 3:
+                if len(nodes) == 3 and max_ghz >= 3:
                     resource_list.append(create_resource_graph([nodes[1], nodes[0], nodes[2]], root=nodes[1]))
                 elif len(nodes) == 2:
                     resource_list.append(create_resource_graph(nodes, root=nodes[0]))
                 else:
                     resource_list.append(create_resource_graph(nodes))
 
-        # If a cycle exists in the graph, extract one 3-qubit ghz cluster from the cycle.
+        # If a cycle exists in the graph, extract one 3-qubit ghz cluster from the cycle
+        # (or a 2-qubit one if larger clusters are not allowed).
         for v, va in adjdict.items():
             if len(va) == 2:
-                neighbors = list(va.keys())
+                neighbors = list(va.keys()) if max_ghz >= 3 else list(va.keys())[:1]
                 nodes = [v, *neighbors]
-                del adjdict[neighbors[0]][v]
-                del adjdict[neighbors[1]][v]
-                del va[neighbors[0]]
-                del va[neighbors[1]]
-                number_of_edges -= 2
+                for neighbor in neighbors:
+                    del adjdict[neighbor][v]
+                    del va[neighbor]
+                    number_of_edges -= 1
 
                 resource_list.append(create_resource_graph(nodes, root=v))
                 break
-- 
2.43.0


From bb573e87c19236e77fd77c129a7ff98b1b929eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 55/60] fix: use RZZ gates in every layer of rand_gate when
 requested, and accept iterators of pairs

---
 graphix/random_objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index c966c4a..10b9da8 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -312,8 +312,12 @@ def rand_gate(
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
     circuit = Circuit(nqubits)
+    pairs = list(pairs)
     _first_rotation(circuit, nqubits, rng)
-    _entangler(circuit, pairs)
+    if use_rzz:
+        _entangler_rzz(circuit, pairs, rng)
+    else:
+        _entangler(circuit, pairs)
     for _ in range(depth - 1):
         _mid_rotation(circuit, nqubits, rng)
         if use_rzz:
-- 
2.43.0


From d1f85391d1abd53ae79cfb1eb3f9fe880f640db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 56/60] fix: draw no node label when node_labels is False

---
 graphix/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 10ae8f0..e464bbb 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -413,6 +413,8 @@ class GraphVisualizer:
                 fc = PAULI_NODE_FC
             plt.scatter(*self.pos[node], edgecolor=ec, facecolor=fc, s=350, zorder=2, marker=marker)
 
+        if self.options.node_labels is False:
+            return
         labels = dict(self.options.node_labels) if isinstance(self.options.node_labels, Mapping) else None
         fontsize = NODE_LABEL_FS
         if max(self.og.graph.nodes(), default=0) >= 100:
-- 
2.43.0


From ffc815639e75617663703faabfbf98d87d15410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 57/60] fix: keep the first point of drawn paths when nodes are
 close

---
 graphix/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index e464bbb..45d4316 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -1065,7 +1065,7 @@ def _check_path(path: Iterable[_Point], target_node_pos: _Point | None = None) -
             acute = False
     new_path: list[_Point] = path.tolist()
     if target_node_pos is not None:
-        for point in new_path[:-1]:
+        for point in new_path[1:-1]:
             if np.linalg.norm(np.array(point) - np.array(target_node_pos)) < 0.2:
                 new_path.remove(point)
     return new_path
-- 
2.43.0


From e401d6bf7a3257ac834cf32a4c1161ef74b34668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 58/60] fix: keep the end points of drawn paths when a control
 point coincides with one

---
 graphix/visualization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 45d4316..5f05ab4 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -1065,9 +1065,10 @@ def _check_path(path: Iterable[_Point], target_node_pos: _Point | None = None) -
             acute = False
     new_path: list[_Point] = path.tolist()
     if target_node_pos is not None:
-        for point in new_path[1:-1]:
-            if np.linalg.norm(np.array(point) - np.array(target_node_pos)) < 0.2:
-                new_path.remove(point)
+        # The end points are kept, even if an intermediate point coincides with one of them.
+        new_path[1:-1] = [
+            point for point in new_path[1:-1] if np.linalg.norm(np.array(point) - np.array(target_node_pos)) >= 0.2
+        ]
     return new_path
 
 
-- 
2.43.0


From 521cefa5ed985f4c6d4d01efe1bc0f9b9a3f8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 59/60] fix: report the flow warning of Pattern.draw at the
 call site

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6213d7e..4834916 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1559,7 +1559,7 @@ class Pattern(InplaceParameterizable):
                             except FlowError:
                                 warn(
                                     "The pattern is not consistent with a flow. An attempt to be extract the flow from the underlying open graph will be made.",
-                                    stacklevel=stacklevel,
+                                    stacklevel=stacklevel + 1,
                                 )
                     if flow is None:
                         og = self.to_opengraph()
-- 
2.43.0


From a1037bfb7a04c71a6d22a8959a5f27f97ec82713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 60/60] fix: name the deprecated graph preparation strategy in
 its warning

---
 graphix/sim/tensornet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 97afc2e..a5cead8 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -647,11 +647,11 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
             case "parallel" | "sequential":
                 pass
             case "opt":
-                graph_prep = "parallel"
                 warnings.warn(
                     f"graph preparation strategy '{graph_prep}' is deprecated and will be replaced by 'parallel'",
                     stacklevel=1,
                 )
+                graph_prep = "parallel"
             case "auto":
                 max_degree = pattern.max_degree()
                 # "parallel" does not support non standard pattern
-- 
2.43.0

