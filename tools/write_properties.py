"""Writes /verif/properties.jsonl (kept as a script so that the file stays easy to edit)."""
import json, pathlib

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m} for n, m in state],
                          "observe_at": observe}})

prop("C01", "Transpiled patterns implement the circuit on every branch",
     "For every circuit over the supported gate set, the measurement pattern produced by transpilation implements, on every measurement branch and for every input state (including inputs entangled with other systems), the same linear map as the product of the gate matrices, up to a global phase. This holds with SWAP gates compiled away or kept, and for the pattern obtained through the intermediate causal flow; all branches are equally likely.",
     ["programs", "inputs", "histories"], "all circuits (any width, gate order, angle, repeated/commuting gates, identity and SWAP gates), all input states, all measurement outcomes",
     "Tests simulate a few seeded random circuits on one random branch with |+> inputs and check fidelity; gate interactions, identity gates, every outcome branch and non-separable inputs are not enumerated.",
     ["graphix/transpiler.py", "graphix/instruction.py", "graphix/ops.py", "graphix/flow/core.py", "graphix/optimization.py"],
     [("J-CZ decomposition of every gate", "transpiler.instructions_to_jcz and decompose_*"), ("construction of graph and causal flow", "transpiler.Circuit.transpile_to_causalflow"), ("swap elimination", "transpiler.transpile_swaps"), ("flow to pattern", "flow.core.XZCorrections.to_pattern")],
     ["Circuit.transpile(...).pattern commands", "branch maps of the pattern"])

prop("C02", "Circuit measurements survive transpilation with the right outcomes",
     "For every circuit that measures some of its qubits, the transpiled pattern reproduces, for every combination of circuit measurement outcomes, the same unnormalised post-measurement state of the remaining qubits, in the same qubit order. The reported classical outputs name, in program order of the measurements, the pattern nodes whose outcomes are the circuit's outcomes.",
     ["programs", "inputs", "histories"], "all circuits with measurements in X, Y or Z at any place, mixed with SWAPs and other gates; all outcomes",
     "Tests check a couple of fixed circuits with measurements; ordering of several measurements interleaved with swaps and signs of Y/X-basis outcomes is sampled only at few points.",
     ["graphix/transpiler.py", "graphix/instruction.py"],
     [("classical outputs bookkeeping", "transpiler.TranspiledFlow / TranspiledPattern.classical_outputs"), ("swap-aware output order", "transpiler.TranspileSwapsResult.swap_classical_outputs")],
     ["Circuit.transpile().classical_outputs", "pattern branch maps", "Circuit.simulate classical_measures"])

prop("C03", "Circuit simulation and circuit rewrites keep the circuit's meaning",
     "Simulating a circuit yields the state obtained by multiplying the documented gate matrices, for every input state, and measured qubits follow the Born rule with the reported outcomes. Every circuit-to-circuit rewrite (swap removal, measurements to the Z axis, J to RZ and H, gate decompositions, angle mapping) preserves that meaning, and out-of-place rewrites leave their argument unchanged.",
     ["programs", "inputs"], "all circuits over the gate set, all input states, all rewrites and their compositions",
     "Tests exercise each gate on a handful of seeds; they do not combine rewrites, measured qubits and arbitrary inputs, nor check the untouched original.",
     ["graphix/transpiler.py", "graphix/instruction.py", "graphix/ops.py"],
     [("gate application", "transpiler.Circuit.simulate"), ("visitors", "transpiler.Circuit.visit / instruction visit methods"), ("decompositions", "transpiler.decompose_rzz/ccx/cnot/swap/y/rx/ry/rz")],
     ["Circuit.simulate(...).statevec", "Circuit.instruction", "Circuit.width"])

prop("C04", "Standardization preserves every branch and yields standard form",
     "Standardizing any runnable pattern gives a runnable pattern in standard form (preparations, entanglements, measurements, then corrections and local Cliffords) that, for every assignment of measurement outcomes and every input, yields exactly the same output state and the same outcome probability as the original. Input and output nodes and their order are unchanged.",
     ["programs", "inputs", "histories"], "all runnable patterns, deterministic or not, including Clifford commands, all planes and axes, arbitrary domains and arbitrary preparation states; all outcome assignments",
     "Tests standardize transpiled random circuits and compare one random branch; patterns with Clifford commands before measurements, domains shared across commands and non-deterministic patterns are barely reached.",
     ["graphix/optimization.py", "graphix/pattern.py", "graphix/command.py", "graphix/clifford.py"],
     [("commutation rules", "optimization.StandardizedPattern.from_pattern"), ("Clifford through domains", "clifford.Clifford.commute_domains, command.M.clifford")],
     ["Pattern.standardize", "optimization.standardize", "Pattern.is_standard"])

prop("C05", "Signal shifting only relabels outcomes, as reported",
     "Shifting signals, with either method, gives a pattern in which the shifted domains are gone from measurements and whose behaviour on every branch equals that of the original pattern on the branch obtained by translating outcomes through the returned signal dictionary. Translating outcomes with the dictionary is consistent with simulation in both directions, and node sets, inputs and outputs are unchanged.",
     ["programs", "inputs", "histories"], "all runnable patterns with arbitrary X and Z domains in every plane, both methods, all outcome assignments",
     "Tests compare final states of deterministic patterns on one branch; the outcome translation is checked on few branches and the matrix-commutation method less still.",
     ["graphix/pattern.py", "graphix/command.py"],
     [("direct shifting", "pattern.Pattern.shift_signals_direct"), ("commutation-based shifting", "pattern.Pattern._commute_*"), ("outcome translation", "pattern.shift_outcomes, pattern.extract_signal")],
     ["Pattern.shift_signals", "pattern.shift_outcomes"])

prop("C06", "Pauli pushing and Pauli-measurement removal preserve the computation",
     "Pushing Pauli measurements to the front, and eliminating them, preserves the computation: the rewritten pattern implements the same map on every remaining branch up to phase and normalisation whenever the original pattern is deterministic, and the pushed Pauli measurements no longer depend on any outcome of a non-Pauli measurement. After elimination no Pauli measurement that the procedure promises to remove is left, and inputs and outputs keep their order.",
     ["programs", "inputs", "histories"], "all deterministic runnable patterns mixing Pauli and non-Pauli measurements, any inputs, any preparation state; all branches",
     "Tests use transpiled random circuits plus a few hand-written graphs and one branch each; local-complementation and pivot cases at inputs, outputs and isolated nodes need many shapes.",
     ["graphix/remove_pauli_measurements.py", "graphix/optimization.py", "graphix/pattern.py"],
     [("pushing", "remove_pauli_measurements.PauliPushingCut.from_standardizedpattern"), ("graph rewriting", "remove_pauli_measurements._RemovePauliMeasurements")],
     ["Pattern.perform_pauli_pushing", "Pattern.remove_pauli_measurements"])

prop("C07", "Space minimisation and parallelisation preserve meaning and never cost space",
     "Reordering a pattern to minimise space, with any of the built-in heuristics, or to parallelise it preserves every branch (state and probability) and keeps the pattern runnable with the same nodes, inputs and outputs. Minimising space never increases the maximum number of simultaneously active qubits, and the figure reported by a heuristic is the one the resulting pattern has.",
     ["programs", "configurations", "histories"], "all runnable patterns (with or without flow, outputs, inputs), all heuristic selections, all outcome assignments",
     "Tests check the state on one branch and the resulting maximum space on a few circuits; patterns without outputs or without causal flow and the reported figure are rarely exercised.",
     ["graphix/space_minimization.py", "graphix/optimization.py", "graphix/pattern.py"],
     [("heuristics", "space_minimization.SpaceMinimizationHeuristics"), ("lazy activation", "space_minimization.standardized_to_space_optimal_pattern"), ("parallelisation", "pattern.Pattern.parallelize_pattern")],
     ["Pattern.minimize_space", "Pattern.parallelize_pattern", "Pattern.max_space"])

prop("C08", "Local rewrites of commands and domains preserve every branch",
     "Removing local Clifford commands, removing useless domains, splitting domains to single nodes, and converting between Pauli and angle measurements each preserve the meaning of any runnable pattern, branch by branch, and establish their stated postcondition. Clifford removal only renames output nodes, keeping their order.",
     ["programs", "inputs", "histories"], "all runnable patterns with Clifford commands, Pauli-angle measurements and arbitrary domains; all outcome assignments",
     "Tests apply each rewrite to transpiled random circuits and compare one branch; unusual planes, repeated Cliffords, inputs that are outputs and angle wrap-around are hit by chance only.",
     ["graphix/optimization.py", "graphix/pattern.py", "graphix/measurements.py"],
     [("Clifford removal", "optimization.remove_local_clifford_commands"), ("domain rewrites", "optimization.remove_useless_domains, optimization.single_qubit_domains"), ("measurement conversion", "Pattern.infer_pauli_measurements, Pattern.to_bloch")],
     ["pattern commands after the rewrite", "branch maps"])

prop("C09", "Any sequence of pattern passes preserves the computation",
     "Applying any sequence of optimisation passes, in any order and repeated any number of times, to a deterministic pattern leaves it runnable and implementing the same map on every branch. In-place and copying variants agree, and no operation on a copy, a composed pattern or a derived object changes the pattern it came from.",
     ["histories", "programs"], "all finite sequences of passes over all deterministic patterns; interleavings of operations on a pattern and on its copies",
     "Tests run one or two passes in a fixed order; interactions between passes and aliasing between copies need histories.",
     ["graphix/pattern.py", "graphix/optimization.py", "graphix/remove_pauli_measurements.py", "graphix/space_minimization.py"],
     [("all passes", "Pattern methods"), ("copying", "Pattern.copy / Pattern.compose / Pattern.map")],
     ["pattern commands, results, inputs, outputs after each step"])

prop("C10", "Pattern composition and renaming follow their algebra",
     "Composing two patterns along a mapping from outputs of the first to inputs of the second gives a pattern implementing the composed map (identified wires connected, the others in parallel) with inputs and outputs as documented, for both output-order options; incompatible mappings are rejected. Renaming nodes, reordering inputs or outputs and replacing measurements act only on what they name.",
     ["programs", "inputs", "configurations"], "all pairs of patterns and all partial mappings (valid and invalid), all outcome assignments",
     "Tests cover a handful of hand-written mappings and errors; clashes between names, and partial overlap are combinatorial.",
     ["graphix/pattern.py"],
     [("composition", "pattern.Pattern.compose, pattern.Pattern.node_mapping"), ("renaming", "pattern.Pattern.reindex"), ("reordering", "Pattern.reorder_output_nodes / reorder_input_nodes")],
     ["Pattern.compose result", "Pattern.reindex result"])

prop("C11", "The runnability check accepts exactly the runnable patterns",
     "A pattern passes the runnability check exactly when no command acts on a node that is not yet prepared or already measured, no node is prepared twice, and no domain refers to an outcome not available at that point; otherwise an error naming an offending command and reason is raised. A pattern that passes runs in the simulator without structural errors on every branch.",
     ["programs"], "all command sequences over small node sets, valid or with any kind of defect",
     "Tests contain one hand-written example per error reason; combinations and false rejections are not enumerated.",
     ["graphix/pattern.py", "graphix/simulator.py"],
     [("checker", "pattern.Pattern.check_runnability"), ("use before running", "simulator.PatternSimulator.run")],
     ["Pattern.check_runnability", "RunnabilityError"])

prop("C12", "Structural queries describe the pattern they are asked about",
     "The node count, node set, space profile, maximum space, maximum degree, isolated nodes, neighbours, measurement, correction and Clifford listings, and the resource graph of a pattern are those defined by its command sequence, on every pattern, after every edit. Queries do not change the pattern's meaning, and editing keeps inputs, outputs and counts consistent.",
     ["programs", "histories"], "all runnable patterns and edit sequences (construction, add, extend, clear, replace, passes)",
     "Tests compare a few figures on fixed circuits; each query must agree with its definition for all command sequences.",
     ["graphix/pattern.py", "graphix/optimization.py", "graphix/space_minimization.py"],
     [("queries", "Pattern.max_space, space_list, max_degree, isolated_nodes, connected_nodes, nodes, n_node, to_opengraph, ..."), ("bookkeeping on edit", "Pattern.add, extend, clear, replace")],
     ["values of the queries"])

prop("C13", "Pattern simulation follows quantum mechanics on every branch",
     "Running a pattern on the state-vector backend for any prescribed outcomes gives the output state defined by its commands, and outcomes drawn at random follow the Born rule, for every input state given in any accepted form and with measurement results supplied in advance. Reported results cover exactly the measured nodes.",
     ["programs", "inputs", "histories"], "all runnable patterns, all outcome prescriptions, all forms of input data, all branch selectors",
     "Tests compare random circuits with their unitary on one branch; arbitrary patterns and probabilities are never compared with an independent model.",
     ["graphix/simulator.py", "graphix/sim/statevec.py", "graphix/sim/base_backend.py", "graphix/branch_selector.py"],
     [("command loop", "simulator.PatternSimulator.run"), ("measurement", "sim.base_backend.DenseStateBackend.measure"), ("outcome choice", "branch_selector")],
     ["Pattern.simulate output", "measure_method.results", "probabilities handed to the branch selector"])

prop("C14", "Seeded randomness is reproducible and respected",
     "Every randomised operation that accepts a random generator (simulation on any backend, with noise or not, with any branch selector, random circuits and objects, direct backend measurement) depends only on its arguments and that generator: the same seed gives the same result and the global generator is neither needed nor consulted. Prescribed branches override randomness exactly on the nodes they prescribe. This holds as well for operations run in several threads at once, and each thread has a default generator of its own, which it keeps.",
     ["programs", "inputs", "configurations", "schedules"], "all stochastic entry points and all seeds, alone or in concurrent threads",
     "Tests rely on seeds implicitly; a call that drops the generator still passes them because outputs are branch-independent.",
     ["graphix/branch_selector.py", "graphix/simulator.py", "graphix/noise_models/noise_model.py", "graphix/random_objects.py", "graphix/graphsim.py", "graphix/rng.py"],
     [("generator threading", "rng.ensure_rng and rng= keyword everywhere")],
     ["results of two runs with equal seeds", "warnings about missing generator"])

prop("C15", "State-vector operations equal the textbook linear algebra",
     "After any sequence of state-vector operations (adding nodes, entangling, evolving by one- or many-qubit operators, swapping, permuting, projecting, removing, tensoring) the state equals that of a naive dense reference, with qubits in the documented order, and expectation values, fidelities, closeness and dictionary views are those of the reference state. Invalid indices, shapes and permutations are rejected and leave the state as it was.",
     ["histories", "inputs"], "all finite sequences of operations on up to several qubits, plus sizes that cross the capacity-growth and parallel-kernel thresholds",
     "Tests call each operation on fixed small states; memory reuse after growth or removal, index arithmetic at high qubits and sequences of operations are not explored.",
     ["graphix/sim/statevec.py", "graphix/sim/base_backend.py"],
     [("bit-level kernels", "sim.statevec.*_jit"), ("capacity management", "sim.statevec.Statevector.ensure_capacity")],
     ["Statevector.psi / flatten", "expectation_single, expectation_value, fidelity, to_dict"])

prop("C16", "Density-matrix operations equal the textbook linear algebra",
     "After any sequence of density-matrix operations (adding nodes, unitaries, projections, partial traces, channels, swaps, permutations, tensor products) the state equals that of a naive dense reference and stays Hermitian, positive and (after normalisation) of unit trace; expectation values and fidelities agree with the reference, and queries leave the state unchanged.",
     ["histories", "inputs"], "all finite sequences of operations on a few qubits, pure and mixed initial data in every accepted form",
     "Tests call each operation on a few random matrices; order conventions of multi-qubit operators, partial traces over subsets and complex states are sampled thinly.",
     ["graphix/sim/density_matrix.py", "graphix/sim/base_backend.py", "graphix/linalg_validations.py"],
     [("tensor contractions", "sim.density_matrix.DensityMatrix"), ("validation", "linalg_validations")],
     ["DensityMatrix.rho", "fidelity, expectation_single, ptrace"])

prop("C17", "The simulation backends agree with each other",
     "For any pattern the backends support, simulation with the state-vector, density-matrix and tensor-network backends on the same branch gives the same state, and all three draw outcomes with the same probabilities (the tensor-network backend for patterns whose measurements of entangled nodes have uniform outcomes). Tensor-network views (amplitudes, state vector, norm, expectation values, evolution, reordered output nodes and copies) agree with the dense state.",
     ["programs", "histories", "configurations"], "all runnable patterns, all branches, all graph-preparation modes of the tensor network",
     "Tests compare a few circuits; isolated nodes, non-default input, mixed preparation modes and evolving copies are not systematically reached.",
     ["graphix/sim/tensornet.py", "graphix/sim/density_matrix.py", "graphix/sim/statevec.py"],
     [("tensor network", "sim.tensornet.MBQCTensorNet, TensorNetworkBackend")],
     ["states returned by Pattern.simulate", "MBQCTensorNet queries"])

prop("C18", "Noise channels and noisy simulation are physical and as documented",
     "Every built-in channel is completely positive and trace preserving, equals its documented formula for every probability, and invalid Kraus data are rejected while valid data are accepted. Noisy simulation with any built-in or composed noise model equals the reference in which the documented channels are inserted at the documented places, including classical readout flips, and zero noise equals noiseless simulation.",
     ["programs", "inputs", "configurations"], "all probabilities in [0,1], all noise-model parameter combinations and compositions, all small patterns and branches",
     "Tests check a few patterns (Hadamard, Rz) against closed formulas; parameter combinations, composition order and per-command placement are not enumerated.",
     ["graphix/channels.py", "graphix/noise_models/depolarising.py", "graphix/noise_models/amplitude_damping.py", "graphix/noise_models/noise_model.py", "graphix/simulator.py"],
     [("channels", "channels.*_channel, channels.KrausChannel"), ("noise placement", "noise_models.*.command, simulator.PatternSimulator.run")],
     ["KrausChannel operators", "density matrix after Pattern.simulate with a noise model"])

prop("C19", "Flow finding is sound, complete and maximally delayed",
     "For every open graph, the search for a causal flow, generalised flow or Pauli flow returns a correction function satisfying the published definition whenever one exists, and reports its absence only if none exists. The partial order returned is consistent with the correction function and has the minimal possible depth among flows of that kind.",
     ["inputs"], "all open graphs (any graph, inputs, outputs, measurement planes and axes)",
     "Tests have a table of a few dozen graphs; the algebraic algorithm's elimination steps depend on shapes that only enumeration or search meets.",
     ["graphix/flow/_find_gpflow.py", "graphix/flow/_find_cflow.py", "graphix/flow/core.py", "graphix/opengraph.py", "graphix/_linalg.py"],
     [("algebraic flow finding", "flow._find_gpflow.compute_correction_matrix"), ("causal flow finding", "flow._find_cflow.find_cflow")],
     ["OpenGraph.to_causalflow_or_none, to_gflow_or_none, to_pauliflow_or_none and the raising variants"])

prop("C20", "Well-formedness checks decide the flow definitions exactly",
     "Verification of a causal flow, generalised flow, Pauli flow or set of corrections accepts it exactly when the correction function and partial order satisfy the published conditions on that open graph. Otherwise it raises an error that describes a condition really violated.",
     ["inputs"], "all open graphs with arbitrary correction functions and layerings, right or wrong (in particular one-edit mutants of right ones)",
     "Tests list one example per error; near-miss flows for every condition, plane and axis are not covered.",
     ["graphix/flow/core.py", "graphix/flow/exceptions.py"],
     [("checkers", "flow.core.PauliFlow/GFlow/CausalFlow/XZCorrections.check_well_formed")],
     ["is_well_formed / check_well_formed outcome and error reason"])

prop("C21", "A flow yields a deterministic pattern for the open graph",
     "For every open graph with a flow, the corrections and pattern derived from it are runnable, all outcome branches are equally likely and implement the same map, and that map is the one defined by the open graph with every measurement giving its first outcome. This holds for every total measurement order compatible with the flow, incompatible orders are rejected, and the compatibility test is exact.",
     ["inputs", "histories", "schedules"], "all open graphs with flow, all measurement angles, all compatible and incompatible total orders, all branches and inputs",
     "Tests check determinism on random branches of listed graphs; the schedule dimension and Pauli-flow corner cases are only sampled.",
     ["graphix/flow/core.py", "graphix/opengraph.py"],
     [("corrections", "flow.core.*.to_xzcorrections"), ("pattern", "flow.core.XZCorrections.to_pattern"), ("orders", "XZCorrections.is_compatible, generate_total_measurement_order")],
     ["OpenGraph.to_pattern and XZCorrections.to_pattern branch maps"])

prop("C22", "Extracting graphs, corrections and flows from patterns is faithful",
     "From a runnable pattern one recovers an open graph and corrections whose own pattern has the same branch behaviour, and a causal flow or gflow is recovered whenever the pattern's corrections come from such a flow, any recovered flow being well formed and inducing the same corrections. Going from a flow to a pattern and back gives an equivalent flow and the same open graph.",
     ["programs", "inputs"], "all runnable patterns, deterministic or not; all flows",
     "Tests round-trip a list of graphs; corrections that do not come from any flow, and Pauli flows reconstructed from corrections, are sampled at few points.",
     ["graphix/pattern.py", "graphix/optimization.py", "graphix/flow/core.py"],
     [("extraction", "Pattern.to_opengraph, to_xzcorrections, to_causalflow, to_gflow, to_pauliflow"), ("reconstruction", "XZCorrections.to_causalflow/to_gflow/to_pauliflow")],
     ["recovered objects"])

prop("C23", "Open-graph operations respect graph semantics",
     "Composing open graphs along a mapping connects the identified nodes and keeps the others apart, with inputs, outputs, measurements and returned node mapping as documented, and corresponds to composing the maps they define (when no edge is shared and Cliffords on merged outputs are diagonal); invalid mappings are rejected. Equality up to tolerance, structural equality, (odd) neighbourhoods, measurement mapping and Pauli inference are those of their definitions, and construction rejects inconsistent graphs.",
     ["inputs"], "all pairs of open graphs and partial mappings, all node subsets, all tolerances",
     "Tests have a handful of compositions and comparisons.",
     ["graphix/opengraph.py"],
     [("composition", "opengraph.OpenGraph.compose"), ("comparison", "OpenGraph.isclose, is_equal_structurally"), ("neighbourhoods", "OpenGraph.neighbors, odd_neighbors")],
     ["OpenGraph fields"])

prop("C24", "Circuits extracted from flows implement the pattern's map",
     "For every open graph with Pauli flow whose numbers of inputs and outputs match, the extracted circuit implements the unitary of the deterministic pattern of that open graph up to global phase, using only the qubits of the open graph and mapping them in order. Converting a circuit to an open graph and extracting a circuit again preserves the unitary.",
     ["inputs", "programs"], "all open graphs with Pauli flow and equally many inputs and outputs, all angles",
     "Tests use a table of graphs and random circuits and compare one branch.",
     ["graphix/circ_ext/extraction.py", "graphix/circ_ext/compilation.py", "graphix/flow/core.py", "graphix/opengraph.py"],
     [("extraction", "circ_ext.extraction"), ("compilation passes", "circ_ext.compilation")],
     ["OpenGraph.to_circuit / PauliFlow.extract_circuit results"])

prop("C25", "Extraction data structures follow Pauli and Clifford algebra",
     "Pauli strings extracted from a focused flow, Pauli-exponential sequences and Clifford maps follow the algebra they represent: conversions to tableaux and back lose nothing, compiled circuits implement exactly the exponentials and Clifford map they were given, and focusing tests are exact. Invalid combinations are rejected.",
     ["inputs"], "all Pauli strings, signs, angles, Clifford maps on a few qubits, all flows",
     "Tests compile a few hand-written exponentials and Clifford maps.",
     ["graphix/circ_ext/extraction.py", "graphix/circ_ext/compilation.py", "graphix/flow/core.py"],
     [("Pauli exponentials", "circ_ext.extraction.PauliExponential*, circ_ext.compilation.pexp_ladder_pass"), ("Clifford maps", "circ_ext.extraction.CliffordMap, circ_ext.compilation.cm_berg_pass")],
     ["compiled circuits", "tableaux"])

prop("C26", "Clifford, Pauli and unit tables agree with the matrices",
     "Products, inverses, conjugations, measurement updates, domain commutation and decompositions of the single-qubit Clifford group, and products, eigenstates and iteration of signed Paulis, agree with 2x2 matrices for all elements, Clifford multiplication up to global phase. Recognising a Clifford from a matrix succeeds exactly on Clifford matrices up to a scalar factor, and sign and complex-unit arithmetic agree with complex numbers.",
     ["inputs"], "all group elements and pairs, all domain pairs, arbitrary matrices near and far from Cliffords, arbitrary scalars",
     "Tests check several tables, but not every derived operation on all combinations nor rejection of arbitrary matrices.",
     ["graphix/clifford.py", "graphix/pauli.py", "graphix/_db.py", "graphix/fundamentals.py", "graphix/ops.py"],
     [("tables", "_db"), ("operations", "clifford.Clifford, pauli.Pauli, fundamentals.Sign, fundamentals.ComplexUnit")],
     ["values of the operations"])

prop("C27", "Measurement descriptions denote the right projectors",
     "Every way to describe a measurement (plane and angle, axis and sign, plane geometry, conversions between the two, angle units, applying a Clifford) denotes the projector it should: conversions keep the projectors, applying a Clifford equals conjugating the projector, closeness holds exactly when the projectors agree within tolerance as documented, and conversion to a Pauli succeeds exactly at Pauli angles. Preparation states and rotation matrices follow the same conventions.",
     ["inputs"], "all planes, angles (any real, including negative, huge and near-Pauli ones), signs, Cliffords, tolerances",
     "Tests parametrize over a few angles; wrap-around and tolerance edges are not explored.",
     ["graphix/measurements.py", "graphix/fundamentals.py", "graphix/states.py", "graphix/ops.py", "graphix/command.py"],
     [("conversions", "measurements.BlochMeasurement, PauliMeasurement"), ("geometry", "fundamentals.Plane, Axis, angle_to_rad, rad_to_angle"), ("states", "states.PlanarState")],
     ["projectors computed from the descriptions"])

prop("C28", "Graph-state simulation tracks the true quantum state",
     "After any sequence of graph-state operations (adding nodes and edges, H, S, Z, local complementation, vertex-operator changes, measurements with chosen or random outcomes) the described state equals the state obtained by applying the same operations to a dense state vector, up to phase, and each measurement result has non-zero probability in that state. Equivalent graphs returned represent the same state.",
     ["histories"], "all finite operation sequences on small graph states, all measurement choices",
     "Tests apply a few operations to fixed graphs; hollow/looped/signed node combinations and isolated nodes appear only after particular histories.",
     ["graphix/graphsim.py"],
     [("vertex-operator bookkeeping", "graphsim.GraphState")],
     ["GraphState.to_statevector", "measure_x/y/z results"])

prop("C29", "GF(2) linear algebra is exact",
     "Matrix product, row reduction, rank, null space, right inverse, and solving of systems over GF(2) satisfy their defining equations for every matrix shape and content, report non-existence exactly when there is none, and leave their inputs unchanged unless asked to work in place.",
     ["inputs"], "all binary matrices and right-hand sides, including empty, rank-deficient, wide and tall ones",
     "Tests use a table and a few random matrices.",
     ["graphix/_linalg.py"],
     [("elimination", "_linalg.MatGF2, _linalg.solve_f2_linear_system")],
     ["results of the operations"])

prop("C30", "OpenQASM 3 export preserves the program",
     "Exporting a circuit to OpenQASM 3 and reading the text back (with the repository's own importer or an independent interpreter) yields a circuit with the same action. Exporting a pattern yields a program whose execution implements the pattern on every branch, including corrections, domains and Clifford commands; what cannot be expressed is rejected.",
     ["programs", "inputs", "histories"], "all circuits and patterns the exporter accepts, all angles",
     "Tests round-trip a few random circuits and run a few patterns in a simulator.",
     ["graphix/qasm3_exporter.py"],
     [("emission", "qasm3_exporter.circuit_to_qasm3, pattern_to_qasm3")],
     ["exported text"])

prop("C31", "Printed forms denote the printed object",
     "The evaluable representation of patterns, circuits, commands, instructions, measurements and states rebuilds an equal object, and the human-readable forms (ASCII, LaTeX, Unicode) of angles, complex numbers, amplitudes, density matrices, commands, flows and corrections denote the object's exact content within the stated tolerance: no term lost, no value misrepresented, in every output format. Truncation limits are respected. (The short form of a preparation or Clifford command in a pattern shows its node, not its state or matrix.)",
     ["inputs", "programs"], "all objects and all formatting options",
     "Tests compare a few fixed strings; recognising fractions, roots and phases has wide numeric input space.",
     ["graphix/pretty_print.py", "graphix/repr_mixins.py"],
     [("formatters", "pretty_print.*"), ("evaluable repr", "repr_mixins")],
     ["returned strings"])

prop("C32", "Substituting parameters commutes with everything",
     "Building, transpiling, optimising, composing or simulating a parameterised circuit or pattern and then substituting numbers for its parameters gives the same result as substituting first; partial and simultaneous substitutions agree with real arithmetic on the affine expressions involved. Substitution leaves the original unchanged unless done in place, and an object reports being parameterised exactly when a placeholder remains.",
     ["programs", "inputs", "histories"], "all expressions built from placeholders and numbers, all parameterised circuits and patterns, all substitution orders",
     "Tests check a few circuits with one or two parameters at seeded values.",
     ["graphix/parameter.py", "graphix/transpiler.py", "graphix/pattern.py", "graphix/measurements.py"],
     [("affine expressions", "parameter.AffineExpression, Placeholder"), ("substitution", "with_parameter(s), replace_parameter(s) on every class")],
     ["substituted objects", "is_parameterized"])

prop("C33", "Random objects are valid samples of what they name",
     "Every random-object generator returns a valid member of its class for every dimension, rank, density and seed it accepts: unitary, Hermitian, trace-one positive density matrix, trace-preserving channel, normalised state, circuit of the requested width over valid gates. Requested sizes, ranks and signatures are met exactly, and the values drawn follow the documented distributions.",
     ["inputs", "configurations"], "all parameters accepted by the generators, all seeds",
     "Tests draw a few samples per generator.",
     ["graphix/random_objects.py", "graphix/channels.py"],
     [("generators", "random_objects.*")],
     ["returned objects"])

prop("C34", "Decomposition into fusion clusters is faithful",
     "Decomposing a graph state into GHZ and linear resource clusters uses only clusters within the requested size limits (of two nodes or more), covers every edge exactly once and every node, and fusing the clusters on the reported nodes gives back the original graph. The procedure ends on every graph and leaves its argument unchanged.",
     ["inputs", "configurations"], "all graphs, all size limits",
     "Tests check three fixed graphs.",
     ["graphix/extraction.py"],
     [("decomposition", "extraction.graph_to_fusion_network, create_resource_graph"), ("fusion nodes", "extraction.fusion_nodes")],
     ["returned resource graphs"])

prop("C35", "Drawings show the pattern's graph and order faithfully",
     "Layouts computed for drawing assign every node one position, no two nodes the same one, and respect the measurement order (a node is not left of one it depends on); edges and arrows routed for drawing connect exactly the pairs in the graph and flow, and those drawn straight pass through no other node. The finished figure shows every node, label, edge, arrow and layer once, as the options ask. Drawing does not modify the object drawn.",
     ["inputs", "configurations"], "all open graphs with and without flows or corrections, all drawing options",
     "Tests compare a few reference pictures.",
     ["graphix/visualization.py"],
     [("layout and routing", "visualization.GraphVisualizer.from_opengraph, from_flow, from_xzcorrections"), ("drawing", "visualization.GraphVisualizer.visualize, Pattern.draw")],
     ["positions and paths", "drawn artists"])

prop("C36", "State data given in any accepted form denote that state",
     "Initialising a state vector or density matrix from any accepted form (single state, sequence of states, amplitudes, matrix, another state object) with or without an explicit qubit count gives exactly the denoted state in the documented qubit order, without aliasing the caller's data. Data that denote no valid state of the requested size are rejected.",
     ["inputs"], "all accepted forms, sizes and normalised or unnormalised values, including the empty register",
     "Tests check a few constructors and errors.",
     ["graphix/sim/statevec.py", "graphix/sim/density_matrix.py", "graphix/sim/data.py", "graphix/states.py"],
     [("constructors", "sim.statevec.Statevector.__init__, sim.density_matrix.DensityMatrix.__init__")],
     ["resulting amplitudes or errors"])

prop("C37", "Chains of conversions between representations preserve the computation",
     "A computation may be converted freely among circuit, OpenQASM text, pattern, standardized pattern, open graph, causal, generalised or Pauli flow, and corrections, rewritten within each, composed with and extended by further operations, in any order and as often as one likes: after every accepted step the object denotes the same linear map (with the extensions appended) up to phase, on every outcome branch. Objects left behind are unchanged.",
     ["histories", "inputs"], "all histories of conversions and rewrites accepted by the library, from all circuits, deterministic patterns and open graphs with flow",
     "Tests convert once, from freshly built objects, and compare one input on one branch.",
     ["graphix/pattern.py", "graphix/transpiler.py", "graphix/opengraph.py", "graphix/flow/core.py", "graphix/optimization.py", "graphix/circ_ext/extraction.py", "graphix/qasm3_exporter.py"],
     [("conversions", "Circuit.transpile, Pattern.to_opengraph, OpenGraph.to_*flow, PauliFlow.to_xzcorrections, XZCorrections.to_pattern, PauliFlow.extract_circuit"), ("rewrites", "Pattern passes, StandardizedPattern methods")],
     ["linear map of the object at hand"])

prop("C38", "Requests change only their target and answer the same when repeated",
     "A query, a conversion or a copying variant of a rewrite, on any object of the library, changes none of the objects in existence (neither its target nor its arguments nor any object obtained earlier from them, such as copies and converted forms) and gives the same answer when repeated at once (with equal seeds). A modification changes its target only (Pattern.signals and Pattern.connected_nodes, which rewrite the pattern in place, count as modifications). Containers passed to constructors, and containers handed out by queries, may be modified by the caller without effect on the objects.",
     ["histories", "inputs"], "all histories of requests on pools of objects derived from one another",
     "Tests use each object once; sharing shows only when an object is modified after another one was derived from it.",
     ["graphix/pattern.py", "graphix/transpiler.py", "graphix/optimization.py", "graphix/opengraph.py", "graphix/flow/core.py", "graphix/graphsim.py", "graphix/sim", "graphix/_linalg.py", "graphix/channels.py", "graphix/simulator.py"],
     [("requests", "public methods of all classes"), ("constructors", "Pattern, Circuit, Statevector, DensityMatrix, GraphState, KrausChannel")],
     ["readings of all objects before and after each request", "answers"])

prop("C39", "Requests outside their domain are refused and change nothing",
     "A request whose arguments miss their documented domain is refused with an exception and leaves its target and arguments as they were, so that a history of requests has the outcome of its legal requests alone; legal requests are accepted. This holds for operations on states (targets out of range or repeated, operators, channels and data of the wrong size or norm, invalid permutations), for gates on circuits (unknown, repeated or measured qubits), for patterns (orders that are no permutations, inconsistent mappings, any pass, conversion or simulation of a pattern that cannot run, incomplete branch prescriptions), for the construction and composition of open graphs, graph-state operations, Kraus operators and channels, matrix products, and mutually exclusive simulator options.",
     ["histories", "inputs", "configurations"], "all histories mixing legal and illegal requests on states, circuits, patterns, graphs, channels and simulators",
     "Tests try a few wrong calls one at a time on fresh objects, and do not look at the object afterwards.",
     ["graphix/sim/statevec.py", "graphix/sim/density_matrix.py", "graphix/transpiler.py", "graphix/pattern.py", "graphix/opengraph.py", "graphix/graphsim.py", "graphix/channels.py", "graphix/simulator.py", "graphix/_linalg.py"],
     [("validation", "every public method which validates its arguments")],
     ["exceptions", "readings of the objects after a refusal"])

prop("C40", "Warnings are issued exactly when they apply and point at the caller",
     "A request which has to draw at random without having been given a generator says so (a measurement decided by a random branch selector, a noise model flipping outcomes, random objects), and a request given a generator, or nothing to draw, does not and passes that very generator to every component. Simulating by density matrices without a noise model, asking for Pauli flow or Pauli pushing while some measurements are given by an angle along an axis (not after inference, nor for parameters), naming non-Pauli nodes in leave_nodes, composing Clifford commands before E commands, an ineffective preserve_mapping, drawing a pattern that follows no flow and asking for a deprecated preparation each give their warning, and nothing else does. Every warning is reported at the call site, or as many frames above it as the stack level asks for.",
     ["inputs", "configurations"], "all requests that may warn, all selectors, noise models, backends and stack levels",
     "Tests silence warnings or check a handful for their presence; the line they point at and their absence elsewhere is not looked at.",
     ["graphix/rng.py", "graphix/branch_selector.py", "graphix/simulator.py", "graphix/noise_models/", "graphix/random_objects.py", "graphix/opengraph.py", "graphix/optimization.py", "graphix/remove_pauli_measurements.py", "graphix/pattern.py", "graphix/sim/base_backend.py", "graphix/sim/tensornet.py"],
     [("caller-visible warnings", "warnings.warn and the stacklevel parameters")],
     ["recorded warnings", "generators received by components"])

prop("C41", "Equality agrees with descriptions; duplicates behave as their originals",
     "Measurements, states, commands, instructions, patterns, expressions, Pauli strings, exponentials and resource graphs compare equal (==, != and, for measurements, hash) exactly when what they describe is the same: node or qubit, angle and plane, domains as sets, order of inputs and outputs, identity of parameters; comparing with another kind of object gives False. An object obtained by any history of requests and duplicated by Pattern.copy, copy.deepcopy, pickle or copy.copy reads the same as its original, gives the same answers to the same requests up to the order of sets, ends alike after the same modifications, and neither is changed when the other is; a simulation backend duplicated between two commands and continued yields the same outcomes and state as its original.",
     ["inputs", "histories"], "all objects of these kinds, all histories before and after duplication",
     "Tests compare a few objects and hardly ever duplicate one; a comparison by identity, a field left out of a comparison or a shared container is unnoticed.",
     ["graphix/command.py", "graphix/measurements.py", "graphix/states.py", "graphix/instruction.py", "graphix/pattern.py", "graphix/parameter.py", "graphix/extraction.py", "graphix/optimization.py", "graphix/remove_pauli_measurements.py", "graphix/sim/base_backend.py", "graphix/circ_ext/extraction.py"],
     [("value semantics", "dataclass comparisons, __eq__, copy methods")],
     ["equal duplicates", "no shared state"])

prop("C42", "Answers depend on arguments and seeds only, not on the process",
     "The same history of requests on equal objects with equal seeds gives the same answers (patterns, circuits, graphs, flows, corrections, extracted circuits, texts, states, random results, final generator states) in any process: whatever the hash seed, locale, time zone and working directory, and whatever the library was used for before in that process (other objects, other histories, refused requests, draws from the default or the global generators).",
     ["histories", "configurations"], "all histories of requests, all hash seeds and environments, all earlier uses of the library",
     "Tests run in one process with fresh objects and compare with constants or within one run; caches, module-level state and iteration over hashed sets stay unnoticed.",
     ["graphix/pattern.py", "graphix/optimization.py", "graphix/opengraph.py", "graphix/flow/", "graphix/circ_ext/", "graphix/clifford.py", "graphix/graphsim.py", "graphix/rng.py", "graphix/random_objects.py", "graphix/pretty_print.py", "graphix/qasm3_exporter.py"],
     [("determinism", "every public request"), ("module-level state", "graphix/_db.py, graphix/rng.py, singletons and caches")],
     ["answers in two processes"])

prop("C43", "Clifford computations on many qubits keep their stabilizers",
     "Through every transpilation, pattern pass, composition, renaming, conversion to open graphs, flows and corrections and back, and circuit extraction, a Clifford computation keeps the stabilizer group of its map (inputs entangled with reference qubits), on every branch of its measurements and at any size: also on tens of qubits and hundreds of nodes, where no dense simulation can follow.",
     ["inputs", "histories", "sizes"], "all Clifford circuits, all chains of transformations, all branches, any number of qubits",
     "Tests simulate densely and so stay below ten qubits; limits, orders and indices that only go wrong on many nodes are never reached.",
     ["graphix/transpiler.py", "graphix/pattern.py", "graphix/optimization.py", "graphix/remove_pauli_measurements.py", "graphix/space_minimization.py", "graphix/opengraph.py", "graphix/flow/", "graphix/circ_ext/"],
     [("meaning at scale", "transpile, passes, flows, extraction")],
     ["stabilizers of the map"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
with out.open("w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
