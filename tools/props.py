# fmt: off
MON = "runtime monitoring: differential oracle over recorded command sequences"

prop("P01", "A transpiled circuit implements its unitary in every outcome branch",
 "For every measurement-free circuit over the supported gate set, with any angles and any qubit order, the transpiled pattern has one input and one output per wire and, for every input state and every possible assignment of measurement outcomes, outputs the circuit's unitary applied to the input (up to global phase) with all outcome branches equally likely. This holds with and without SWAP elimination and after standardisation, signal shifting, Pauli-measurement pushing/removal, local-Clifford removal and space minimisation. Simulating the circuit directly gives the same state.",
 "inputs programs histories", "all circuits, all input states, all outcome branches, all optimisation pipelines",
 "Tests sample a few seeded random circuits on |+> inputs and one random branch each; a byproduct error that shows in one branch, on one gate combination or for one angle class goes unseen.",
 "transpiler.py pattern.py optimization.py instruction.py", [("Circuit.transpile: gate decomposition to J/CZ, causal flow, XZ-corrections", "transpiler.py"), ("Circuit.simulate", "transpiler.py")],
 MON, "Exhaustive over single gates on 3 wires; sampled circuits (<=6 wires), branches (<=16 each) and pipelines; the reference map is for all inputs at once.", ["Circuit.transpile", "Pattern.simulate", "Circuit.simulate"])

prop("P02", "Measured circuits keep their joint outcome and state behaviour",
 "For every circuit with X/Y/Z measurements anywhere, the transpiled pattern reproduces, for each assignment of the circuit's outcomes, the circuit's own unnormalised output state, and the reported classical outputs list exactly one pattern node per measurement, in the order the measurements were applied. Rewriting the circuit (eliminating SWAPs, rewriting J gates, rewriting measurements to the Z axis) and optimising the pattern preserve this, with outcomes recovered through the documented signal and shift records. The circuit simulator reports outcomes in the same order.",
 "inputs programs histories", "all circuits with mid-circuit measurements and swaps, all joint outcomes, all input states",
 "Tests measure one or two fixed qubits; order of classical outputs, measured-then-swapped wires and outcome re-labelling depend on the whole program and on the branch.",
 "transpiler.py pattern.py remove_pauli_measurements.py", [("Circuit.transpile classical outputs", "transpiler.py"), ("transpile_swaps", "transpiler.py"), ("shift_outcomes", "pattern.py")],
 MON, "Sampled circuits (<=4 wires, <=4 measurements): every joint outcome assignment, auxiliary branches sampled.", ["Circuit.transpile().classical_outputs", "Circuit.simulate().classical_measures"])

prop("P04", "Standardising a pattern preserves every branch and yields the standard form",
 "For every runnable pattern (any interleaving of commands, any domains, planes, prepared states, repeated edges, Cliffords), standardisation returns a pattern with commands in the order N, E, M, corrections, Cliffords that has the same inputs, outputs and measured nodes and implements the same map for every assignment of outcomes. It refuses only when a Clifford that does not commute with CZ up to Paulis precedes an entanglement. is_standard reports exactly whether a command sequence has this form.",
 "inputs programs", "all runnable command sequences, all outcome branches, all input states",
 "Tests standardise a handful of transpiled circuits and random patterns and compare one random branch on |+> inputs; a domain pushed to the wrong side only shows in particular branches.",
 "optimization.py pattern.py command.py clifford.py", [("StandardizedPattern.from_pattern", "optimization.py"), ("Pattern.standardize / is_standard", "pattern.py")],
 MON, "Sampled patterns up to 9 nodes; branches exhaustive up to 16 per pattern, sampled beyond.", ["Pattern.standardize", "Pattern.is_standard"])

prop("P05", "Signal shifting relates the two patterns' outcomes exactly",
 "For every runnable pattern, shift_signals (direct and mc methods) removes the shiftable dependency of every measurement, keeps the measured nodes, inputs and outputs, and returns signals such that the shifted pattern with outcomes r implements the same map as the original with outcomes shift_outcomes(r, signals), for every r. Both methods give the same pattern and the same signals, and shifting a second time finds nothing.",
 "inputs programs histories", "all runnable patterns, all outcome assignments, both methods",
 "Tests compare the final state on a few circuits for random outcomes; wrong signals only change re-labelled outcomes, or states in branches where an odd number of shifted nodes yields one.",
 "pattern.py", [("Pattern.shift_signals / shift_signals_direct", "pattern.py"), ("shift_outcomes", "pattern.py"), ("extract_signal", "pattern.py")],
 MON, "Sampled patterns up to 10 nodes; branches sampled beyond 12.", ["Pattern.shift_signals", "shift_outcomes"])

prop("P06", "Pauli pushing and Pauli-measurement removal preserve the computation",
 "For every runnable pattern, perform_pauli_pushing moves the Pauli measurements (except leave_nodes) first with empty domains and preserves every branch under the documented outcome relabelling. remove_pauli_measurements leaves no non-input Y/Z measurement and no X measurement with an internal or a non-input output neighbour (none at all for patterns with flow); it preserves every branch of deterministic patterns and the zero branch of the others, also when nodes are prepared in states other than |+>; a measurement that is not Pauli only disappears with a warning.",
 "inputs programs", "all runnable patterns with signed Pauli measurements, all branches",
 "Tests remove Paulis from a few fixed patterns; the graph rewriting (local complementation, pivoting, label swapping) has sign and neighbourhood cases that only particular graphs reach.",
 "remove_pauli_measurements.py optimization.py pattern.py clifford.py", [("PauliPushingCut", "remove_pauli_measurements.py"), ("remove_pauli_measurements", "remove_pauli_measurements.py")],
 MON, "Sampled patterns up to 10 nodes and transpiled circuits; for non-deterministic patterns the zero branch only, as documented.", ["Pattern.perform_pauli_pushing", "Pattern.remove_pauli_measurements"])

prop("P07", "Space minimisation and reordering preserve meaning and never cost more qubits",
 "For every runnable pattern, minimize_space (with any of the provided heuristics), to_space_optimal_pattern and parallelize_pattern keep every branch map and every measurement and respect all dependencies. max_space and space_list equal the number of qubits alive at each step; the default minimisation never increases it; the pattern built for a fixed measurement order needs the fewest qubits possible for that order, and the order reported as known optimal is optimal among all valid orders. parallelize_pattern follows layers as few as the dependency depth.",
 "inputs programs", "all runnable patterns, all measurement orders, all branches",
 "Tests check the space of a few named circuits; a lost measurement, a violated dependency or a worse order needs particular graphs and domains.",
 "space_minimization.py pattern.py optimization.py", [("minimize_space and heuristics", "space_minimization.py"), ("standardized_to_space_optimal_pattern", "space_minimization.py"), ("Pattern.parallelize_pattern", "pattern.py")],
 MON, "Sampled patterns up to 9 nodes; optimality by enumeration for up to 6 measurements; peak qubit count also observed in the running backend.", ["Pattern.minimize_space", "Pattern.max_space", "Pattern.parallelize_pattern"])

prop("P08", "Local-Clifford removal and domain rewrites preserve the computation",
 "For every runnable pattern, remove_local_clifford_commands returns a pattern without Clifford commands that realises the same channel, with uniformly random auxiliary outcomes; remove_useless_domains and single_qubit_domains return patterns with the same measurements and the same map in every branch, where respectively no useless Pauli domain and no domain of more than one node is left. None of them changes its argument.",
 "inputs programs", "all runnable patterns with Cliffords and multi-node domains, all branches",
 "Tests rewrite a few patterns; label allocation, reindexed domains and each of the 24 Cliffords at each position are not covered.",
 "optimization.py clifford.py pattern.py", [("remove_local_clifford_commands", "optimization.py"), ("remove_useless_domains / single_qubit_domains", "optimization.py"), ("Clifford.to_opengraph", "clifford.py")],
 MON, "All 24 Cliffords at 4 positions; sampled patterns; channels compared up to 11 measurements.", ["Pattern.remove_local_clifford_commands", "remove_useless_domains", "single_qubit_domains"])

prop("P09", "Pattern composition and reindexing mean what they document",
 "For all pairs of patterns and all valid partial mappings, compose returns the pattern whose branch maps are the composition of the two patterns' branch maps along the merged wires, with inputs, outputs and labels in the documented order (also with preserve_mapping and empty patterns), and a complete injective mapping extending the given one; mappings that break the documented requirements are refused. reindex and node_mapping rename nodes injectively without changing any branch. Arguments are never modified.",
 "inputs programs histories", "all pairs of patterns, all mappings, all outcome branches",
 "Tests compose a handful of hand-written patterns; output-order and label-collision errors depend on both patterns and the mapping.",
 "pattern.py command.py", [("Pattern.compose", "pattern.py"), ("Pattern.reindex / node_mapping", "pattern.py")],
 MON, "Sampled pairs up to 6 nodes each; 10 branches per composition.", ["Pattern.compose", "Pattern.reindex", "Pattern.node_mapping"])

prop("P10", "Pattern operations change only their target, and metadata stays true",
 "In every history of copies, in-place operations, copying operations, compositions and substitutions over patterns derived from each other, each operation changes at most its target: no other pattern's commands, inputs, outputs or node count change. In-place and copying forms give equal results, copying forms return a new object, and n_node, nodes, output_nodes, max_space, space_list, measurement_commands, max_degree, isolated_nodes and connected_nodes always agree with the commands.",
 "histories programs", "all histories of operations over related patterns",
 "Tests apply one operation to one fresh pattern; aliasing of commands or domain sets and stale counters need a history of operations on related patterns.",
 "pattern.py command.py optimization.py parameter.py", [("Pattern.copy and every in-place transform", "pattern.py"), ("Pattern metadata accessors", "pattern.py")],
 "runtime monitoring: online invariant monitor over random operation histories (model-based)", "Sampled histories of 4-14 operations over pools of up to 7 patterns.", ["Pattern.copy", "Pattern.n_node", "Pattern.space_list"])

prop("P11", "The runnability check is exact and cannot be bypassed",
 "check_runnability accepts a command sequence exactly when it can be executed in order (every node prepared once and not before use, nothing acts on a measured node, every domain only reads earlier outcomes), and otherwise reports the first offending command with a matching node and reason. Every transformation refuses a pattern that is not runnable instead of turning it into a runnable one.",
 "inputs programs", "all command sequences",
 "Tests check one example per error; wrong state tracking (e.g. a node re-activated after measurement) needs unusual command orders.",
 "pattern.py optimization.py", [("Pattern.check_runnability", "pattern.py"), ("StandardizedPattern.from_pattern, shift_signals", "optimization.py")],
 "runtime monitoring: differential oracle (independent liveness interpreter)", "Sampled mutated patterns and short command words.", ["Pattern.check_runnability"])

prop("P12", "Every flow found satisfies its definition, is focused and as shallow as possible",
 "For every open graph, whatever labels and measurements it has, the causal flow, gflow or Pauli flow that the finders return satisfies every clause of its definition (C0-C3, G1-G5, P1-P9), has a partial order that covers the graph with the outputs first, and uses as few layers as any such flow can. Gflows and Pauli flows are focused. Flow finding does not modify the open graph, and every transpiled circuit's open graph has one.",
 "inputs", "all labelled open graphs",
 "Tests check a few named open graphs against stored flows; one wrong bit in the GF(2) algebra or in the layering shows only for particular graphs, label mixes and input/output counts.",
 "flow/_find_cflow.py flow/_find_gpflow.py flow/_partial_order.py flow/core.py opengraph.py", [("find_cflow", "flow/_find_cflow.py"), ("compute_correction_matrix / compute_partial_order_layers", "flow/_find_gpflow.py"), ("is_focused", "flow/core.py")],
 MON.replace("recorded command sequences", "returned flows (independent definition checker)"), "Sampled open graphs (up to 30 nodes) with an exact definition checker; minimal depth by enumeration up to 12 non-inputs.", ["OpenGraph.to_causalflow", "OpenGraph.to_gflow", "OpenGraph.to_pauliflow"])

prop("P13", "Flow finding is complete and the kinds of flow are nested",
 "For every open graph, a causal flow, gflow or Pauli flow is reported exactly when one exists: none is missed and none is invented. An open graph with a causal flow has a gflow, one with a gflow has a Pauli flow, and reading Pauli angles as axes never loses a flow. The raising and the optional finders agree.",
 "inputs", "all labelled open graphs",
 "Tests hold about twenty graphs with known answers; existence is a global property of graph, labels and inputs, so only exhaustive small cases and planted flows can question it.",
 "flow/_find_cflow.py flow/_find_gpflow.py opengraph.py _linalg.py", [("find_cflow", "flow/_find_cflow.py"), ("compute_correction_matrix", "flow/_find_gpflow.py"), ("_compute_p_matrix", "flow/_find_gpflow.py")],
 MON.replace("recorded command sequences", "finder verdicts (exhaustive enumeration / planted flows)"), "Exhaustive on all labelled open graphs with <= 3 nodes and all XY ones with 4 (thorough); sampled up to 12 nodes against enumeration; planted flows up to 40 nodes.", ["OpenGraph.to_causalflow_or_none", "OpenGraph.to_gflow_or_none", "OpenGraph.to_pauliflow_or_none"])

prop("P14", "Well-formedness checks accept exactly the well-formed flows and corrections",
 "For every flow object (causal, gflow, Pauli) and every XZ-corrections object, including arbitrarily damaged ones, check_well_formed and is_well_formed accept exactly those satisfying the definition, and the reported proposition, node and layer are really at fault; is_focused is exact. Corrections built from mappings are refused exactly when keys, targets or loops are wrong, and otherwise get a minimal order with uncorrected nodes last. is_compatible accepts exactly the measurement orders that follow the layers, and to_pattern emits exactly the graph, measurements and corrections in that order.",
 "inputs histories", "all flow and correction objects, well formed or not; all total orders",
 "Tests hold one hand-made counterexample per error; combinations of damage and borderline orders are not covered.",
 "flow/core.py flow/exceptions.py", [("PauliFlow/GFlow/CausalFlow.check_well_formed", "flow/core.py"), ("XZCorrections.check_well_formed / from_measured_nodes_mapping / is_compatible / to_pattern", "flow/core.py")],
 MON.replace("recorded command sequences", "verdicts on mutated flow objects"), "Sampled objects up to 12 nodes with up to 3 mutations, judged by independent definitions.", ["check_well_formed", "is_well_formed", "XZCorrections.from_measured_nodes_mapping", "XZCorrections.is_compatible", "XZCorrections.to_pattern"])

prop("P15", "Flows, corrections, patterns and open graphs convert without loss",
 "For every flow, the induced XZ-corrections are p(u) and Odd(p(u)) restricted to the future; the pattern built from them has the same open graph, and extracting corrections and flow from that pattern gives them back. For every pattern with |+> preparations, extracting XZ-corrections and regenerating a pattern keeps every branch, and its layers respect its dependencies with minimal depth. A Pauli flow is reconstructed from corrections exactly when a compatible one exists, and then it is well formed and induces those corrections.",
 "inputs programs", "all flows, corrections and runnable patterns",
 "Tests round-trip a few named patterns and compare states on one branch; anachronical corrections and unusual domains are rare in them.",
 "flow/core.py optimization.py pattern.py opengraph.py", [("to_xzcorrections / to_pauliflow / to_gflow / to_causalflow", "flow/core.py"), ("StandardizedPattern.to_xzcorrections / to_opengraph / partial_order_layers", "optimization.py")],
 MON, "Sampled flows up to 13 nodes, patterns up to 9; reconstruction existence enumerated up to 9 non-inputs; branches sampled (<= 8).", ["Pattern.to_xzcorrections", "XZCorrections.to_pauliflow", "Pattern.partial_order_layers"])

prop("P03", "Patterns generated from flows are uniformly deterministic",
 "For every open graph with a causal flow, gflow or Pauli flow, in any plane or signed axis and with Cliffords on outputs, and for every measurement order compatible with the flow, the generated pattern implements the same linear map (up to phase) with the same probability in every outcome branch: the map obtained by projecting the graph state on the outcome-0 eigenstates, which is proportional to an isometry. OpenGraph.to_pattern answers exactly when a Pauli flow exists, and inferring Pauli measurements or converting to Bloch form does not change the computation.",
 "inputs schedules", "all open graphs with flow, all compatible measurement orders, all outcome branches, all input states",
 "Tests compare a few random branches of named patterns; a missing correction in one branch, plane or sign combination is not visible there.",
 "flow/core.py opengraph.py", [("PauliFlow/GFlow/CausalFlow.to_xzcorrections", "flow/core.py"), ("XZCorrections.to_pattern", "flow/core.py"), ("OpenGraph.to_pattern", "opengraph.py")],
 MON, "Sampled open graphs up to 13 nodes, up to 24 branches each, reference map for all inputs at once.", ["OpenGraph.to_pattern", "XZCorrections.to_pattern", "Pattern.simulate"])

prop("P16", "Open graphs validate, compare and compose as documented",
 "An open graph is accepted exactly when its inputs and outputs are distinct nodes, exactly the non-outputs are measured and Cliffords sit on outputs. compose merges the two graphs by the documented rules for nodes, edges, ordered inputs and outputs, measurements and Cliffords, refuses exactly the invalid mappings, returns a complete injective mapping with fresh labels, and leaves its arguments unchanged; merging outputs with inputs composes the represented linear maps. isclose and is_equal_structurally detect every single difference, and neighbors and odd_neighbors follow their set definitions.",
 "inputs programs", "all open graphs and all (partial) mappings",
 "Tests compose a few hand-written graphs; empty graphs, nodes that are input and output at once, Cliffords on merged outputs and order of ports are not covered.",
 "opengraph.py clifford.py", [("OpenGraph.__post_init__", "opengraph.py"), ("OpenGraph.compose", "opengraph.py"), ("OpenGraph.isclose / is_equal_structurally", "opengraph.py")],
 MON.replace("recorded command sequences", "returned open graphs (documented set rules, linear maps)"), "Sampled open graphs up to 8 nodes and random mappings, valid or broken.", ["OpenGraph.compose", "OpenGraph.__init__", "OpenGraph.isclose"])

prop("P17", "Circuit extraction implements the open graph",
 "For every open graph with Pauli flow and measurement angles, the extracted Clifford map and Pauli exponentials, in any order compatible with the layers, compose to the open graph's linear map (also when there are more outputs than inputs), exponentials in one layer commute, and Pauli measurements give no rotation. With as many outputs as inputs the extracted circuit is the same unitary up to phase, so circuit to pattern to open graph to circuit preserves the unitary. Open graphs without flow, with Clifford decorations or with unfocused flows are refused.",
 "inputs programs", "all open graphs with flow, all planes, signed axes, orders",
 "Tests extract about thirty graphs; signs depend on edges inside correction sets, Y counts, planes and signs of absorbed Pauli measurements.",
 "circ_ext/extraction.py circ_ext/compilation.py flow/core.py opengraph.py", [("extraction_ps_from_corrected_node", "circ_ext/extraction.py"), ("CliffordMap.from_focused_flow / extend_input", "circ_ext/extraction.py"), ("PauliFlow.extract_circuit", "flow/core.py")],
 MON.replace("recorded command sequences", "extraction results (dense linear maps)"), "Sampled open graphs up to 13 nodes and transpiled circuits.", ["PauliFlow.extract_circuit", "ExtractionResult.to_circuit", "OpenGraph.to_circuit"])

prop("P18", "Clifford maps and Pauli exponentials compile to the right circuits",
 "For every Clifford map, the synthesised circuit maps every X and Z generator to the prescribed signed Pauli string; for every DAG of Pauli exponentials, the ladder circuit equals the product of the exponentials in layer order, appended to the given circuit; an extraction result compiles to the Clifford followed by the exponentials, also through custom passes. Pauli strings, their text and their tableaux convert into each other without loss, and malformed ones are refused.",
 "inputs programs", "all Clifford maps, Pauli exponential DAGs and Pauli strings",
 "Tests synthesise a few maps; signs and pivot choices depend on the whole tableau.",
 "circ_ext/compilation.py circ_ext/extraction.py", [("cm_berg_pass", "circ_ext/compilation.py"), ("pexp_ladder_pass", "circ_ext/compilation.py"), ("PauliString.from_str/from_tableau/to_tableau", "circ_ext/extraction.py")],
 MON.replace("recorded command sequences", "synthesised circuits (independent stabilizer tableau, dense matrices)"), "Sampled maps up to 24 qubits (dense up to 4), DAGs up to 5 exponentials; all words of length <= 3 on two qubits.", ["cm_berg_pass", "pexp_ladder_pass", "PauliString"])

prop("P19", "Statevector operations equal their dense definitions, in bounds, at any size",
 "For every history of statevector operations (creating states in every accepted form, adding nodes, tensor product, CZ, single- and multi-qubit operators, swap, permutation, expectation values, projective removal of a qubit), the amplitudes equal those of the textbook linear algebra, with qubit 0 most significant, whatever the capacity, the number of qubits and the number of threads. No kernel reads or writes out of bounds, no operation changes its arguments or data the user still holds, copies are independent, invalid indices and inconsistent sizes are refused, and the backend keeps each node attached to its qubit.",
 "histories inputs schedules", "all operation histories, capacities, sizes and thread counts",
 "Tests apply one operation to a small fresh state; the in-place compaction after projections, capacity reuse and multi-threaded kernels only matter in long or large histories.",
 "sim/statevec.py sim/base_backend.py sim/density_matrix.py", [("Statevector", "sim/statevec.py"), ("DenseStateBackend", "sim/base_backend.py")],
 MON.replace("recorded command sequences", "operation histories (dense shadow model)") + "; kernels also compiled with bounds checking (memory sanitizer) and run with 1-4 threads", "Sampled histories up to 25 operations on 6 qubits, 16-18 qubits for the parallel path.", ["Statevector", "StatevectorBackend"])

prop("P20", "Density-matrix operations equal their dense definitions and stay physical",
 "For every history of density-matrix operations (creating states in every accepted form, tensor product, CZ, CNOT, swap, permutation, single- and multi-qubit operators, Kraus channels on any ordered qubits, expectation values, projections, partial traces, fidelity), the matrix equals that of the textbook linear algebra and stays Hermitian, positive and of unit trace. No operation changes its arguments or data the user holds; invalid indices, operators, sizes and unphysical matrices are refused without changing the state; valid ones, including matrices computed by the library, are accepted; impossible projections raise an error.",
 "histories inputs", "all operation histories",
 "Tests apply one operation to a small fresh state; qubit ordering on rows and columns and mixed states after noise only show in longer histories.",
 "sim/density_matrix.py sim/base_backend.py linalg_validations.py", [("DensityMatrix", "sim/density_matrix.py"), ("DenseStateBackend", "sim/base_backend.py"), ("is_psd / is_unit_trace / is_qubitop", "linalg_validations.py")],
 MON.replace("recorded command sequences", "operation histories (dense shadow model, physicality invariants)"), "Sampled histories up to 18 operations on up to 5 qubits.", ["DensityMatrix", "DensityMatrixBackend"])

prop("P21", "Channels and noise elements are the documented trace-preserving maps",
 "Every channel constructor (dephasing, depolarising, Pauli, two-qubit depolarising and its tensor version, amplitude damping, two-qubit amplitude damping) and noise element is, for every probability in [0, 1] and any ordered target qubits, the map of its documented formula and trace preserving; probabilities outside [0, 1] are refused, also on reassignment. Kraus channels accept exactly non-empty, homogeneous, normalised data and stay immutable. Noise models attach their documented noise after preparation, entanglement and corrections (with the correction's domain) and before measurement, flip outcomes with the given probability, and compose in order.",
 "inputs", "all probabilities, Kraus data, commands and model compositions",
 "Tests check operator lists at one probability; a wrong coefficient, a swapped qubit order in two-qubit noise or a non-normalised edge case needs other probabilities and states.",
 "channels.py noise_models/noise_model.py noise_models/depolarising.py noise_models/amplitude_damping.py utils.py", [("channel constructors, KrausChannel", "channels.py"), ("DepolarisingNoiseModel.command / confuse_result", "noise_models/depolarising.py"), ("AmplitudeDampingNoiseModel.command", "noise_models/amplitude_damping.py"), ("ComposeNoiseModel", "noise_models/noise_model.py"), ("Probability", "utils.py")],
 MON.replace("recorded command sequences", "channels' superoperators and models' answers (documented formulas)"), "Sampled probabilities, all basis operators per channel; flip rates with Chernoff bounds (error < 1e-11).", ["KrausChannel", "Noise.to_krauschannel", "NoiseModel.command", "DensityMatrix.apply_channel"])

prop("P22", "Noisy simulation follows the noise model exactly",
 "For every runnable pattern, noise model (built-in, composed or user-defined, with conditional noise) and input (pure, mixed, or already in the backend), the density matrix, the probability of every outcome and the recorded outcomes are those of running the commands with the model's noise in place: noise hits the stated nodes, conditional noise follows the recorded outcomes, the true outcome selects the post-measurement state while the possibly flipped one is recorded and drives later corrections, and inputs already in the backend get no input noise. Simulation changes neither pattern nor model.",
 "inputs programs histories", "all runnable patterns, noise models, inputs and outcome histories",
 "Tests compare a few small patterns with hand-computed matrices for one error source at a time; combinations of noise sources, flipped outcomes and adaptive commands are not covered.",
 "simulator.py noise_models/noise_model.py noise_models/depolarising.py noise_models/amplitude_damping.py sim/density_matrix.py sim/base_backend.py", [("PatternSimulator.run", "simulator.py"), ("MeasureMethod.measure", "simulator.py"), ("DenseStateBackend.apply_noise", "sim/base_backend.py")],
 MON.replace("recorded command sequences", "recorded outcome histories (independent noisy interpreter); monitors in branch selector and noise model"), "Sampled patterns up to 6 nodes and 5 live qubits, up to 3 composed models.", ["Pattern.simulate", "PatternSimulator.run"])

prop("P23", "All backends agree, whatever the input form and however they are driven",
 "For every runnable pattern and forced outcomes, the state-vector, density-matrix and (for patterns with flow and |+> inputs, with every graph preparation) tensor-network simulations give the same output state in the order of the output nodes, whatever the form of the input (one state, a list, an iterator, amplitudes, matrices, state objects), also on a backend the user made, filled beforehand or left by a previous pattern. User-defined prepare and measure methods are called exactly once per command, in order, and obeyed. Meaningless options and wrong numbers of qubits are refused; the pattern is never modified.",
 "inputs programs histories", "all runnable patterns, outcomes, inputs, backends and resumption points",
 "Tests compare backends on transpiled circuits with |+> inputs; resumed backends, reordered outputs, unusual input forms and adaptive user methods appear in none.",
 "simulator.py pattern.py sim/base_backend.py sim/statevec.py sim/density_matrix.py sim/tensornet.py sim/_backend_factory.py", [("PatternSimulator", "simulator.py"), ("DefaultMeasureMethod", "simulator.py"), ("TensorNetworkBackend", "sim/tensornet.py")],
 MON.replace("recorded command sequences", "recorded outcomes and calls (reference interpreter)"), "Sampled patterns up to 6 commands-deep nodes for dense backends, 26 nodes for the tensor network.", ["Pattern.simulate", "PatternSimulator.run"])

prop("P24", "Outcomes follow the Born rule, the branch selector and the given seed",
 "For every runnable pattern and measured circuit, the simulator asks the branch selector exactly once per measurement, in order, announcing the true probability of outcome 0 (1/2 on the tensor network unless the node is isolated), and records the answer. With random selection the joint frequencies follow the Born rule (uniform with pr_calc=False); fixed and constant selectors are obeyed, with the documented fallback and refusal. Given a generator, outcomes and output state depend on it only and no other randomness is used; without one, a per-thread default is used with a warning.",
 "inputs histories schedules", "all patterns, circuits, selectors, noise models, generators",
 "Tests force outcomes or run a few seeds; biased, correlated or irreproducible outcomes and double draws leave every single run plausible.",
 "branch_selector.py rng.py simulator.py transpiler.py sim/base_backend.py sim/tensornet.py noise_models/depolarising.py noise_models/amplitude_damping.py noise_models/noise_model.py", [("RandomBranchSelector / FixedBranchSelector", "branch_selector.py"), ("DenseStateBackend.measure", "sim/base_backend.py"), ("ensure_rng", "rng.py"), ("Circuit.simulate", "transpiler.py")],
 MON.replace("recorded command sequences", "questions recorded in the branch selector (reference probabilities)") + "; Chernoff-bounded frequency monitors; tripwire on other random sources", "Exact announced probabilities on every run; frequencies over 100-2000 draws, error < 1e-11.", ["Pattern.simulate", "Circuit.simulate", "BranchSelector.measure"])

prop("P25", "Single-qubit Clifford, Pauli and measurement algebra is exact",
 "For all 24 Cliffords, products, inverses, decompositions (H/S/Z, OpenQASM), conjugation of Paulis, commutation of X/Z domains, and open graphs agree with their 2x2 matrices up to phase, and a matrix is recognised as a Clifford exactly when it is one up to a factor. For every measurement (any plane, axis, sign, angle, symbolic or not), applying a Clifford first, conversions between Pauli and Bloch form, tolerance tests and negation describe the same observable; angles in [0, 2) stay there. Paulis, signs, units, axes, planes, basic states and rotation matrices follow their definitions; shared matrices cannot be modified.",
 "inputs", "all Cliffords, Paulis, measurements, matrices and angles",
 "Tests cover tables partially and planes at a few angles; one wrong entry or sign only affects some Clifford, plane and quadrant.",
 "clifford.py _db.py measurements.py fundamentals.py pauli.py ops.py states.py", [("Clifford", "clifford.py"), ("BlochMeasurement.clifford / to_pauli_or_none", "measurements.py"), ("Plane.polar", "fundamentals.py"), ("Pauli.__matmul__", "pauli.py")],
 MON.replace("recorded command sequences", "returned values (dense 2x2 matrices)"), "Exhaustive over Cliffords, Paulis, units; sampled angles, words and matrices.", ["Clifford", "Measurement.clifford", "Pauli", "Plane", "Ops"])

prop("P26", "Substituting parameters commutes with every transformation",
 "For every circuit, pattern, open graph, flow, correction structure and density matrix with symbolic angles or entries, substituting values (all at once, one by one, in place, on a copy, through renamed or swapped parameters) replaces exactly the parameter's occurrences by the expression's value and changes nothing else; transforming then substituting equals substituting then transforming, and implements the same map; is_parameterized is true exactly while a symbolic angle remains. Affine expressions compute exactly; other operations on placeholders are refused, as is simulating them; symbolic simulation with trigonometric expressions, and operations on symbolic density matrices, agree with the numeric ones.",
 "inputs programs", "all expressions, assignments and parameterised objects",
 "Tests substitute in a few patterns; parameters that cancel, partial and parallel substitution, mixed matrices and transformations in between are not covered.",
 "parameter.py measurements.py pattern.py transpiler.py instruction.py opengraph.py flow/core.py sim/density_matrix.py", [("AffineExpression", "parameter.py"), ("with_parameter(s)", "parameter.py"), ("Circuit.visit", "transpiler.py"), ("Pattern.replace_parameter(s)", "pattern.py"), ("DensityMatrix.replace_parameter(s)", "sim/density_matrix.py")],
 MON.replace("recorded command sequences", "instantiated objects (numeric evaluation, reference interpreter)"), "Sampled objects up to 7 nodes, 3 parameters, sequences of 4 transformations each.", ["Parameterizable.with_parameter", "Pattern.replace_parameter", "Circuit.replace_parameter"])

prop("P27", "Exported OpenQASM 3 programs implement the circuit or pattern they come from",
 "For every circuit and runnable pattern with |0> or |+> preparations, the exported OpenQASM 3 text is a valid program (declared qubits and bits, conditions on bits already set, one measurement per measured node or qubit) which, read with the meaning of stdgates.inc, gives for every outcome the state and probability of the circuit or pattern, with every measurement recorded in the bit of its node and angles exact up to rounding. What has no equivalent (symbolic angles, other states, J gates or X/Y measurements when rewriting is off) is refused; exporting changes nothing, and single_qubit_domains gives an equivalent pattern without multi-qubit domains.",
 "inputs programs", "all circuits, patterns, input states and angles",
 "Tests compare a few strings, or random circuits through external parsers that ignore measurements on other axes, domains with several nodes, |0> preparations and patterns without flow.",
 "qasm3_exporter.py optimization.py pretty_print.py clifford.py", [("circuit_to_qasm3 / instruction_to_qasm3", "qasm3_exporter.py"), ("pattern_to_qasm3 / command_to_qasm3_lines", "qasm3_exporter.py"), ("single_qubit_domains", "optimization.py"), ("angle_to_str", "pretty_print.py")],
 MON.replace("recorded command sequences", "exported programs (independent OpenQASM 3 interpreter)"), "Sampled circuits up to 4 qubits and patterns up to 11 nodes, up to 6 branches each.", ["circuit_to_qasm3", "pattern_to_qasm3", "Pattern.to_qasm3"])

prop("P28", "The graph-state simulator represents the stabilizer state it stands for",
 "For every decorated graph (hollow, loop, sign on any node, any graph, any labels, however built) and every history of local Cliffords, equivalence rules E1/E2, fillings, and X, Y, Z measurements, the GraphState represents the state obtained by applying those gates and projections to the initial state: gates and measurements act as their matrices, rules and fillings change the representation only, a measurement returns the requested outcome when it is random and the certain one otherwise, then removes the node. to_statevector and extract_vops agree with the representation, copies are independent, refused calls change nothing.",
 "histories inputs", "all decorated graphs and operation histories",
 "Tests follow one six-node graph through a few operations; the branch taken depends on all three decorations of the node and its neighbours.",
 "graphsim.py", [("GraphState.h/s/z/apply_vops", "graphsim.py"), ("equivalent_graph_e1/e2/fill_node", "graphsim.py"), ("measure_x/y/z", "graphsim.py"), ("to_statevector / extract_vops", "graphsim.py")],
 MON.replace("recorded command sequences", "operation histories (dense stabilizer states)"), "All decorations of all three-node graphs over the two tiers; sampled histories up to 8 nodes and 25 operations.", ["GraphState"])

prop("P29", "GF(2) linear algebra is exact for every matrix shape, layout and thread count",
 "For every matrix over GF(2) (empty, wide, tall, rank deficient, in any memory layout), elimination gives a (reduced) row echelon form with the same row space, the rank is right, a right inverse is returned exactly when one exists, the null space is a basis of the kernel, products are products modulo 2 whatever the number of threads, and solvable systems in row echelon form are solved. Arguments are left alone unless in-place operation is asked for, no kernel accesses memory out of bounds, and shapes that do not match are refused.",
 "inputs schedules", "all matrices over GF(2), memory layouts and thread counts",
 "Tests use a dozen fixed matrices plus random full-rank ones; flow finding on larger graphs exercises shapes, ranks and layouts they do not contain.",
 "_linalg.py", [("MatGF2", "_linalg.py"), ("solve_f2_linear_system", "_linalg.py"), ("_elimination_jit / _mat_mul_jit", "_linalg.py")],
 MON.replace("recorded command sequences", "returned matrices (integer bit-row elimination)") + "; kernels also compiled with bounds checking and run with 1-4 threads", "All 3x3 matrices; sampled up to 12x14, up to 300x300 for threads.", ["MatGF2", "solve_f2_linear_system"])

prop("P30", "Random objects are valid, as requested, and determined by the generator",
 "For every dimension, rank, depth, flag, list or one-shot iterator of pairs or parameters, the generators of random objects return what they promise: Hermitian matrices, Haar-distributed unitaries, density matrices of at most the rank asked for, complex Gaussian matrices of the given deviation, trace-preserving channels with the number of independent (Pauli) operators asked for, normalised vectors, and circuits made of exactly the documented layers, gates, pairs and parameters. The result depends on the generator given and on no other randomness; without one, a warning says so. Impossible ranks and dimensions are refused.",
 "inputs", "all arguments and generators",
 "Tests draw a few objects of each kind; biased draws, parameters that disappear, degenerate ranks or hidden global randomness leave each single object plausible.",
 "random_objects.py rng.py", [("rand_unit / rand_dm / rand_herm", "random_objects.py"), ("rand_channel_kraus / rand_pauli_channel_kraus", "random_objects.py"), ("rand_circuit / rand_gate", "random_objects.py"), ("ensure_rng", "rng.py")],
 MON.replace("recorded command sequences", "returned objects (definitions, Hoeffding-bounded moments)") + "; tripwire on other random sources", "Dimensions up to 8, circuits up to 6 qubits; moments over 3000 draws, error < 1e-11.", ["random_objects"])

prop("P31", "Printed text means what it represents",
 "For every complex number, angle, statevector, density matrix, command, pattern, flow and correction structure, in ASCII, Unicode and LaTeX and with every option, the printed text read with the usual notation is the value: amplitudes within the announced precision on the right kets, simple values in closed form, every node, domain, plane, angle, correction set and layer in order, truncation announcing exactly what is missing. The default format is that of the context. repr of commands, patterns, circuits without angles, measurements, Cliffords, Paulis and states evaluates back to an equal object; errors name their reason, node and sets. Printing changes nothing.",
 "inputs", "all printable values, formats and options",
 "Tests pin a few dozen strings and otherwise only check that printing does not raise; signs and sums are lost for values outside the samples.",
 "pretty_print.py repr_mixins.py pattern.py sim/statevec.py sim/density_matrix.py flow/exceptions.py instruction.py measurements.py clifford.py circ_ext/extraction.py", [("complex_to_str / statevec_to_str", "pretty_print.py"), ("command_to_str / pattern_to_str", "pretty_print.py"), ("flow_to_str / xzcorr_to_str", "pretty_print.py"), ("DataclassReprMixin.__repr__", "repr_mixins.py"), ("FlowError.__str__", "flow/exceptions.py")],
 MON.replace("recorded command sequences", "printed text (independent reader of the notation; eval of reprs)"), "Sampled: numbers below 10^4, states up to 3 qubits, patterns up to 7 nodes or random circuits.", ["complex_to_str", "Statevector.draw", "Pattern.to_ascii/to_unicode/to_latex", "PauliFlow.to_ascii", "repr"])

prop("P34", "Tensor networks represent the state their operations produce",
 "For every history of operations on an MBQC tensor network (nodes added in any accepted form, graph states, operators on one or several qubits decomposed or not, CZ gates, projections with given or selected outcomes, shallow and deep copies), coefficients, amplitudes, statevector, norm, expectation values (on any qubits, in any order, other nodes traced out) and open tensors are those of the state obtained by applying the operations to vectors; copies are independent. Both preparation strategies give the state of the pattern for the outcomes selected, each measurement being asked once, isolated nodes with their exact probabilities. Unknown or malformed states, bases, strategies and missing output nodes are refused without effect.",
 "histories inputs", "all operation histories and queries",
 "Tests compare a dozen circuits on three qubits; index bookkeeping depends on the order of operations, permuted qubits and copies.",
 "sim/tensornet.py", [("MBQCTensorNet.evolve / evolve_single / measure_single", "sim/tensornet.py"), ("MBQCTensorNet.expectation_value / basis_coefficient / norm", "sim/tensornet.py"), ("MBQCTensorNet.copy", "sim/tensornet.py"), ("TensorNetworkBackend.measure / entangle_nodes", "sim/tensornet.py")],
 MON.replace("recorded command sequences", "operation histories (dense vectors)"), "Sampled histories up to 14 operations, 5 open qubits.", ["MBQCTensorNet", "Pattern.simulate(backend='tensornetwork')"])

prop("P32", "Fusion networks decompose every graph into valid clusters",
 "For every graph (any labels, density, insertion order; GraphState or networkx) and every bound on the sizes of GHZ (>= 3) and linear (>= 2) clusters, graph_to_fusion_network terminates and returns clusters whose edges partition the edges of the graph and whose nodes are exactly its nodes. GHZ clusters are stars around their root, linear clusters are simple paths of at least four nodes, no cluster exceeds its bound, and only isolated nodes form clusters without edges. fusion_nodes gives exactly the nodes two different clusters share, in either order. The graph is not modified, and objects that are not clusters are refused.",
 "inputs", "all graphs and cluster-size bounds",
 "Tests decompose a handful of stars, lines and small circuits with the default bounds; revisited nodes, lost edges and endless loops need dense graphs or bounded clusters.",
 "extraction.py graphsim.py", [("graph_to_fusion_network", "extraction.py"), ("create_resource_graph / fusion_nodes", "extraction.py"), ("ResourceGraph", "extraction.py")],
 MON.replace("recorded command sequences", "returned clusters (edge-partition conservation)"), "All graphs with 4 and 5 nodes; sampled graphs up to 42 nodes with random bounds.", ["graph_to_fusion_network", "fusion_nodes"])

prop("P33", "Drawings show exactly the object they are drawn from",
 "For every open graph, causal, generalised or Pauli flow, set of XZ-corrections, pattern (with each annotation) and decorated graph state (its loops, signs and filled nodes), and all options and node distances, the figure read back is the object: one marker per node, all at distinct places, in the columns of their layers, squares for inputs, filled as outputs, Pauli-measured or other nodes; each edge once between its ends; each correction once as an arrow from measured to corrected node in the colour of its kind; labels, planes, Cliffords and layer numbers beside what they name; a legend of the kinds present; at unit distance no straight line passes over a node it does not join. Figures are saved or shown as asked and drawing changes nothing; patterns without flow are refused, or drawn from their graph with a warning.",
 "inputs", "all drawable objects, options and node distances",
 "Tests compare a dozen figures with stored images, or only check that drawing does not raise; lost edges, swapped colours or labels show only for other graphs, distances and options.",
 "visualization.py pattern.py flow/core.py opengraph.py", [("GraphState.draw", "graphsim.py"), ("GraphVisualizer", "visualization.py"), ("_find_bezier_path / _check_path", "visualization.py"), ("Pattern.draw", "pattern.py")],
 MON.replace("recorded command sequences", "drawn artists (figure read back)"), "Sampled: graphs up to 12 nodes, flows and patterns up to about 40 nodes, random options.", ["OpenGraph.draw", "PauliFlow.draw", "XZCorrections.draw", "Pattern.draw"])

prop("P35", "Measurement descriptions convert without changing what is measured",
 "For every measurement, command, pattern, standardised pattern, open graph and XZ-correction, inferring Pauli measurements turns a Bloch measurement into the signed Pauli measurement it describes exactly when its angle is within the given relative and absolute tolerance of a multiple of pi/2, and into nothing else; conversion to Bloch descriptions (and in-place variants) keeps the observable measured, downcasts accept exactly objects without Pauli measurements, and map/apply call the function once per measurement, in order. Nodes, domains, edges, order, Cliffords, corrections and the original object are kept.",
 "inputs", "all measurements, tolerances and containers",
 "Tests convert angles exactly at multiples of pi/2 or far from them; the sign, the plane, the tolerance and what is kept beside the measurement vary independently.",
 "measurements.py command.py pattern.py optimization.py opengraph.py flow/core.py", [("Measurement.to_pauli_or_bloch / to_bloch / downcast_bloch", "measurements.py"), ("Pattern.infer_pauli_measurements / to_bloch / map / apply", "pattern.py"), ("StandardizedPattern.to_bloch / map", "optimization.py"), ("OpenGraph.infer_pauli_measurements / to_bloch / map", "opengraph.py"), ("XZCorrections.to_bloch / downcast_bloch", "flow/core.py")],
 MON.replace("recorded command sequences", "converted objects (Bloch vectors, branch maps)"), "Sampled objects up to 10 nodes, angles at 1e-1 to 1e-13 from Pauli angles, random tolerances.", ["infer_pauli_measurements", "to_bloch", "downcast_bloch", "map"])

prop("P36", "Circuits hold exactly the executable instructions they were given",
 "For every history of circuit operations (gate methods, add, extend, construction from instructions, visitors, parameter substitution, SWAP elimination in place or on copies, rewriting, transpilation, simulation, export), a circuit accepts an instruction exactly when its qubits are distinct, exist and are not measured, keeps instructions in order with their operands, axes and angles, knows which qubits are still active, and shows visitors every qubit, angle and axis. An operation on one circuit (or a refused one) never changes another circuit or objects the caller passed.",
 "histories inputs", "all histories of operations over any number of circuits",
 "Tests build circuits once and transpile them; aliasing between copies, stale sets of active qubits and operands swapped by one visitor only show in later operations.",
 "transpiler.py instruction.py", [("Circuit.add / extend / gate methods", "transpiler.py"), ("Circuit.visit / apply_angle / replace_parameter(s)", "transpiler.py"), ("transpile_swaps", "transpiler.py"), ("Instruction.visit", "instruction.py")],
 MON.replace("recorded command sequences", "histories of operations (list of plain tuples, compared after every operation)"), "Sampled histories of up to 28 operations over up to 6 circuits of 1-4 qubits.", ["Circuit", "InstructionVisitor", "transpile_swaps"])

prop("P37", "Results depend on nothing but the arguments and the generator",
 "For every program built from the library (transpilation, every rewriting pass, flow finding and extraction, simulation with and without noise, random objects, graph states, fusion, text and QASM export), the result of each step is the same when the program is run again, in any order after other programs, interleaved with others step by step or in concurrent threads, and in processes with other hash seeds and numbers of numba threads: texts, labels, orders and outcomes exactly, amplitudes to rounding. No module keeps state that one computation leaves for another.",
 "histories schedules inputs", "all programs, orders, interleavings and interpreter seeds",
 "Tests run each computation once, in one thread, in a fixed order and mostly under one hash seed; leaked or shared state needs a second computation that meets the first one.",
 "pattern.py transpiler.py optimization.py remove_pauli_measurements.py space_minimization.py flow/_find_gpflow.py sim/base_backend.py simulator.py random_objects.py", [("module-level caches and counters (all modules)", "pattern.py"), ("iteration over sets and dictionaries (all modules)", "opengraph.py"), ("ensure_rng", "rng.py")],
 MON.replace("recorded command sequences", "step logs of whole programs, sequential against repeated, interleaved, multi-threaded and multi-process runs"), "Sampled programs up to 3 qubits or 9 nodes; 2-5 threads switching every 1-100 microseconds; 1 to 4 numba threads.", ["the whole public API"])

prop("P38", "Warnings are issued exactly when due, at the line of the caller",
 "For every pattern, open graph, circuit and call, directly or through wrappers with any stack level, each warning of the library (Pauli angles that are not inferred, nodes that cannot be left, measurements lost by a removal, compositions that may not standardise or cannot keep outputs in place, density matrices without noise, use of the default generator, deprecated strategies) is issued exactly when its condition holds, once per operation, at the line the stack level names, also by noise models and selectors of the user; nothing else is reported. A warning turned into an error leaves every object as it was.",
 "inputs histories", "all objects, operations, stack levels and warning filters",
 "Tests check a few warnings for their text; the condition, number and line of a warning depend on the object, the call path and the stack level, and an interruption can leave an object half changed.",
 "pattern.py opengraph.py optimization.py remove_pauli_measurements.py simulator.py rng.py sim/tensornet.py circ_ext/extraction.py", [("_warn_non_inferred_pauli_measurements", "opengraph.py"), ("stacklevel of every function that can warn", "simulator.py"), ("ensure_rng", "rng.py"), ("Pattern.compose warnings", "pattern.py")],
 MON.replace("recorded command sequences", "recorded warnings (text, file, line) and object snapshots around interrupted operations"), "Sampled objects up to 6 nodes; stack levels 1-5; every warning of the library.", ["warnings issued by the public API"])
prop("P39", "A call that fails changes nothing",
 "For every operation of patterns, circuits, instructions, commands, open graphs, flows, corrections, graph states, dense states, backends and simulators: when the call is refused (wrong index, shape, type, order, mapping, strategy, damaged object), when code of the user that it calls (visitor, mapping, branch selector, measure or prepare method, noise model) raises, or when an operation that only reads is interrupted at any line, every object involved is left as it was. The exception of the user comes out itself, and the same call made again without the fault gives the result it would have given. A simulation ended by a fault leaves a backend with as many nodes as qubits and a normalised state.",
 "inputs faults histories", "all objects and operations, every kind of refusal, every call of the user's code, sampled interruption lines",
 "Tests check that a wrong call raises, not what it left behind; partial changes depend on the point of failure in a sequence of updates.",
 "pattern.py transpiler.py opengraph.py graphsim.py sim/base_backend.py sim/statevec.py sim/density_matrix.py simulator.py flow/core.py optimization.py", [("Circuit.visit", "transpiler.py"), ("transpile_swaps", "transpiler.py"), ("GraphState.add_node", "graphsim.py"), ("PatternSimulator.run", "simulator.py"), ("DenseStateBackend", "sim/base_backend.py"), ("Pattern methods that check before changing", "pattern.py")],
 MON.replace("recorded command sequences", "deep fingerprints of every object before and after each failing call"), "Sampled objects up to 7 nodes; calls that add several items may keep the earlier ones; projection onto an impossible outcome excluded.", ["failing calls of the public API"])
