"""Writes /verif/properties.jsonl (kept as code so that the list is easy to edit)."""
import json, os
R = "src/python/zquantum/core/"
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith("steps") else R + f for f in files],
            state=[dict(name=a, meaning=b, where=R + c) for a, b, c in state],
            mechanism=[dict(name=a, where=(b if b.startswith("steps") else R + b)) for a, b in mechanism],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A circuit's unitary and its step-by-step action agree with its gates",
  "For every circuit of gates, the circuit's unitary equals the ordered product of the gates' matrices, each embedded on the qubits it lists (qubit 0 is the most significant bit of a basis-state index; a gate's first listed qubit is the most significant one of its matrix) in the circuit's full register. Applying the operations one after another to any numeric or symbolic state vector gives the same vector as that unitary. For a circuit with unbound symbols the symbolic unitary, evaluated at any values, equals the unitary of the circuit bound to those values.",
  ["inputs", "programs"], "all circuits over built-in, controlled, daggered and custom gates, any qubit order, idle qubits, numeric and symbolic parameters, any initial state",
  "Tests compare a handful of small fixed circuits; qubit permutations, non-adjacent and reversed multi-qubit operands, wide gates and mixed symbolic circuits are an unbounded space.",
  ["circuits/_circuit.py", "circuits/_gates.py", "circuits/_unitary_tools.py", "circuits/_wavefunction_operations.py"],
  [("Circuit.to_unitary", "circuits/_circuit.py"), ("GateOperation.lifted_matrix / apply", "circuits/_gates.py"), ("_lift_matrix_numpy / _lift_matrix_sympy", "circuits/_unitary_tools.py"), ("MultiPhaseOperation.apply", "circuits/_wavefunction_operations.py")],
  ["return of to_unitary", "return of operation.apply"])

p("C02", "Every gate and gate modifier has its defining unitary matrix",
  "For all real parameter values each built-in gate's matrix is unitary and equals its textbook definition. The dagger of any gate is its conjugate transpose, the controlled version of any gate is the identity except for the gate's own matrix on the subspace where all controls are one, and arbitrary nestings of dagger and control keep parameters, qubit count and matrix consistent. Two gates compare equal only if they have the same structure and parameters (within floating tolerance), and then they have the same matrix.",
  ["inputs", "programs"], "all built-in and custom gates, all parameter values, all nestings of dagger/control",
  "Tests check each gate at a few angles and shallow nesting; the guarantee is for every angle and every nesting.",
  ["circuits/_gates.py", "circuits/_builtin_gates.py", "circuits/_matrices.py"],
  [("gate matrices", "circuits/_matrices.py"), ("ControlledGate, Dagger, MatrixFactoryGate", "circuits/_gates.py"), ("builtin_gate_by_name", "circuits/_builtin_gates.py")],
  ["gate.matrix", "gate.dagger", "gate.controlled(n)", "gate == other"])

p("C03", "Binding and replacing parameters is exact, simultaneous substitution",
  "Binding a map of symbols in a gate, operation or circuit substitutes all of them simultaneously in every parameter expression, leaves unmapped symbols and numeric parameters untouched, ignores symbols that do not occur, and never changes the original object. The matrix of the bound object equals the original's matrix with the same substitution, the free symbols afterwards are exactly those that still occur, and binding in several steps equals binding at once. Replacing parameters installs exactly the new parameters, in order, through any nesting of modifiers.",
  ["inputs", "histories"], "all parameter expressions, all symbol maps (partial, extra, symbol-to-symbol, swapped), all bind sequences, built-in, custom, controlled, daggered gates and multi-phase operations",
  "Tests bind one or two symbols to numbers; partial binding, renaming and swapping of symbols and custom-gate parameter order are not sampled.",
  ["circuits/_operations.py", "circuits/_gates.py", "circuits/_circuit.py", "circuits/_wavefunction_operations.py"],
  [("sub_symbols, get_free_symbols", "circuits/_operations.py"), ("bind / replace_params", "circuits/_gates.py"), ("CustomGateMatrixFactory.__call__", "circuits/_gates.py"), ("Circuit.bind, Circuit.free_symbols", "circuits/_circuit.py")],
  ["bind / replace_params results", "free_symbols", "matrix"])

p("C04", "Composing, splitting and extending circuits conserves operations",
  "Adding circuits or operations yields exactly the concatenated operation sequence on a register as wide as needed, and leaves the operands unchanged; an explicitly given register size is kept. Splitting a circuit by any predicate yields chunks whose concatenation is the original sequence, with constant predicate value per chunk, alternating values and the original register size. Layer, gate-to-qubits, ancilla and random-circuit helpers add exactly the requested gates on the requested qubits; circuits are equal exactly when register size and operations agree; generated connectivity layers use disjoint qubit groups that together use every connection equally often (once for a chain, twice for the two sycamore pattern families).",
  ["inputs", "programs", "histories"], "all circuits, operands, predicates, register sizes, grid sizes",
  "Tests use fixed examples; conservation over arbitrary sequences of compositions, empty circuits, and arbitrary predicates or grid shapes is not reached.",
  ["circuits/_circuit.py", "circuits/_generators.py", "circuits/_testing.py", "circuits/layouts.py"],
  [("Circuit.__add__, Circuit.__eq__, split_circuit", "circuits/_circuit.py"), ("create_layer_of_gates, apply_gate_to_qubits, add_ancilla_register", "circuits/_generators.py"), ("build_circuit_layers_and_connectivity", "circuits/layouts.py")],
  ["operations and n_qubits of results and operands", "layers and connectivity"])

p("C05", "Serialized circuits load back as equal circuits",
  "Any circuit or list of circuits made of built-in, controlled, daggered and custom gates, with numeric or symbolic parameters (plain symbols named by an identifier or an indexed identifier like x[3]), can be converted to a JSON-compatible document (in memory, by file name or open handle) and loaded back as an equal circuit. The loaded circuit has the same register size, operation order, qubit order, parameters, free symbols and unitary. Conflicting custom definitions under one name and documents with a foreign schema are rejected rather than silently misread.",
  ["inputs", "programs"], "all circuits over the gate vocabulary, all nestings, symbol names and expressions, circuit sets",
  "Tests round-trip a fixed list of circuits; custom gates inside modifiers, several symbolic parameters and unusual symbol names are not covered.",
  ["circuits/_serde.py", "circuits/_circuit.py"],
  [("to_dict / circuit_from_dict / circuitset_from_dict", "circuits/_serde.py"), ("save_circuit, load_circuit, save_circuitset, load_circuitset", "circuits/_serde.py"), ("collect_custom_gate_definitions", "circuits/_circuit.py")],
  ["documents written and circuits loaded"])

p("C06", "Symbolic expression translation preserves value and structure",
  "Translating a symbolic parameter expression from the sympy form to the neutral expression form and back yields an expression that evaluates to the same number for every assignment of its symbols, with the same set of symbols. This holds for sums, differences, products, quotients, powers, negations, rational and floating numbers and supported functions in any nesting. The natural orderings of symbols are total orders by numeric suffix (respectively reversed-lexicographic by suffix), independent of input order.",
  ["inputs"], "all expressions over the supported operators and numbers, all symbol assignments, all symbol lists",
  "Tests enumerate a small table of expressions; nested and degenerate forms (negated products, reciprocals, powers of sums) are unbounded.",
  ["circuits/symbolic/expressions.py", "circuits/symbolic/sympy_expressions.py", "circuits/symbolic/translations.py", "circuits/symbolic/_sorting.py"],
  [("expression_from_sympy", "circuits/symbolic/sympy_expressions.py"), ("translate_expression, SYMPY_DIALECT", "circuits/symbolic/translations.py"), ("natural_key, natural_key_revlex", "circuits/symbolic/_sorting.py")],
  ["translated expressions", "sort keys"])

p("C07", "Decomposing a circuit preserves its unitary up to global phase",
  "Decomposing any circuit with any sequence of decomposition rules produces a circuit on the same register whose unitary equals the original's up to one global phase. Operations no rule applies to are kept unchanged and in order, and rules are applied one after another, each to the output of the previous. The U3-to-rotations rule holds for all angles, numeric or symbolic, including controlled versions of the gate it rewrites.",
  ["inputs", "programs"], "all circuits, all rule lists, all angles, controlled variants, idle qubits",
  "Tests decompose single gates at few angles; controlled gates inside larger circuits, where a dropped phase becomes relative, are barely sampled.",
  ["decompositions/_decomposition.py", "decompositions/_zquantum_decompositions.py", "decompositions/__init__.py"],
  [("decompose_operations", "decompositions/_decomposition.py"), ("decompose_zquantum_circuit, U3GateToRotation", "decompositions/_zquantum_decompositions.py")],
  ["decomposed circuits' operations, register size and unitary"])

p("C08", "A wavefunction is always a normalised state of 2^n amplitudes",
  "Every wavefunction object that can be observed has a power-of-two number of amplitudes and unit total probability when fully numeric (at most one for the numeric part when symbols remain), whatever sequence of constructions, item and slice assignments and bindings led to it. An assignment or construction that would break this is rejected and leaves the object exactly as it was. Bound wavefunctions, outcome probabilities, zero, Dicke, loaded and bit-reversed states equal their definitions: basis index bits and sampled bit tuples list qubit 0 first, while the keys of the outcome-probability dictionary list the qubits from last to first.",
  ["inputs", "histories"], "all amplitude vectors, all sequences of set/bind/read operations, numeric and symbolic, numpy and sympy storage",
  "Tests check single assignments; invariance over histories with rejected writes, slices and partial bindings is not covered.",
  ["wavefunction.py", "utils.py"],
  [("Wavefunction", "wavefunction.py"), ("flip_wavefunction, flip_amplitudes, sample_from_wavefunction", "wavefunction.py")],
  ["amplitudes, get_probabilities, get_outcome_probs after each operation"],
  [("amplitude vector", "the state; must stay normalised", "wavefunction.py")])

p("C09", "Simulators return the state, probabilities and samples the circuit defines",
  "For every circuit and initial state, a simulator's wavefunction is the circuit's unitary applied to the initial state, exact expectation values equal the quadratic form of the operator in that state, and distributions equal the squared amplitudes. Sampled measurements have exactly the requested number of shots, one bit per qubit in qubit order, only outcomes of non-zero probability, and frequencies consistent with the probabilities. Equal seeds and equal call sequences give equal samples; splitting a circuit into native and non-native parts does not change the result.",
  ["inputs", "programs", "configurations"], "all circuits, initial states, operators, sample counts, seeds, and choices of natively supported operations",
  "Tests use a few fixed circuits and statistical tolerances on one outcome; the agreement must hold for all circuits and splits.",
  ["symbolic_simulator.py", "interfaces/backend.py", "wavefunction.py"],
  [("SymbolicSimulator", "symbolic_simulator.py"), ("QuantumSimulator.get_wavefunction, get_exact_expectation_values, get_measurement_outcome_distribution, run_circuit_and_measure", "interfaces/backend.py"), ("sample_from_wavefunction", "wavefunction.py")],
  ["simulator return values"])

p("C10", "Backends run every circuit exactly once and account for every job and shot",
  "Running a set of circuits on a backend returns one measurement result per circuit, in order, each with at least the requested number of shots for that circuit (exactly, for the library's simulators), however the set is split into batches of any size. The circuit and job counters increase by exactly the number of circuits and batches executed. A measurement-tracking wrapper returns exactly what the wrapped backend returned and records every measurement or distribution call once, with counts summing to the shots taken.",
  ["histories", "inputs", "configurations"], "all sequences of calls, circuit lists, per-circuit shot lists, batch sizes, and wrapped backends",
  "Tests use one or two batch sizes and short call sequences; conservation must hold for all list lengths, batch boundaries and call histories.",
  ["interfaces/backend.py", "trackers.py", "interfaces/mock_objects.py"],
  [("QuantumBackend.run_circuit_and_measure / run_circuitset_and_measure", "interfaces/backend.py"), ("MeasurementTrackingBackend", "trackers.py")],
  ["calls seen by the wrapped backend", "counters", "tracking file"],
  [("number_of_circuits_run / number_of_jobs_run", "counters", "interfaces/backend.py"), ("raw_data", "tracked calls", "trackers.py")])

p("C11", "Measurement statistics are faithful to the recorded bitstrings",
  "Counts, distributions, expectation values, correlations and covariances computed from any recorded bitstrings equal their textbook values on that list: counts sum to the shots, probabilities to one, and building from counts, adding counts or saving and loading loses and invents nothing. Each Pauli-Z product's value is the average parity of its qubits, term order follows the operator, coefficients are applied, estimator covariances are (with or without Bessel correction) the sample covariances divided by the shot count. Parity tallies add up to the shots per term and agree with the expectation values; operators that are not diagonal are rejected.",
  ["inputs", "histories"], "all bitstring multisets, all diagonal operators (constant, repeated, many-qubit terms), any number of shots",
  "Tests check a few hand-made bitstring lists with two or three qubits.",
  ["measurement.py"],
  [("Measurements", "measurement.py"), ("ExpectationValues, Parities", "measurement.py"), ("expectation_values_to_real, concatenate_expectation_values, get_expectation_values_from_parities, get_parities_from_measurements, check_parity, check_parity_of_vector, get_expectation_value_from_frequencies", "measurement.py")],
  ["returned statistics and files"])

p("C12", "Sampling and rounding a distribution conserve the number of samples",
  "Representing a distribution by a requested number of measurements, or drawing that many samples from a distribution, yields exactly that many bitstrings for every number and distribution, all of them outcomes of the distribution. The deterministic representation's counts differ from the ideal probability-times-shots values by less than one per outcome plus the correction needed to reach the exact total. Equal seeds give equal results.",
  ["inputs"], "all distributions, all sample counts, all seeds",
  "Tests sample a few distributions and counts where rounding is benign; the rounding correction is data-dependent.",
  ["measurement.py", "utils.py", "wavefunction.py"],
  [("Measurements.get_measurements_representing_distribution", "measurement.py"), ("sample_from_probability_distribution, scale_and_discretize, hf_rdm", "utils.py"), ("sample_from_wavefunction", "wavefunction.py")],
  ["returned bitstrings and integer lists"])

p("C13", "Outcome distributions stay normalised and their distances are true distances",
  "A measurement-outcome distribution accepts only non-negative, equally long outcomes and, unless told otherwise, sums to one after construction whatever the input weights, without changing the relative weights. The provided distances between two distributions over the same qubits equal their definitions and do not depend on insertion order; for binary outcomes MMD is non-negative, symmetric and zero for equal distributions. Saved normalised distributions and sets of distributions load back equal.",
  ["inputs", "histories"], "all distributions and pairs of distributions, parameters of the distances, files",
  "Tests compare a few hand-computed pairs; invariants over all pairs, disjoint supports, and multi-digit outcomes are not covered.",
  ["distribution/_measurement_outcome_distribution.py", "distribution/MMD.py", "distribution/clipped_negative_log_likelihood.py", "distribution/jensen_shannon_divergence.py", "bitstring_distribution.py"],
  [("MeasurementOutcomeDistribution and helpers", "distribution/_measurement_outcome_distribution.py"), ("compute_mmd", "distribution/MMD.py"), ("compute_clipped_negative_log_likelihood", "distribution/clipped_negative_log_likelihood.py"), ("compute_jensen_shannon_divergence", "distribution/jensen_shannon_divergence.py")],
  ["distribution_dict, distance values, files"])

p("C14", "Preparing estimation tasks conserves operators, circuits and shots",
  "Grouping, individual splitting and basis-change (context selection) of estimation tasks preserve the total operator: summed over the resulting tasks of each original task, the expectation in the prepared state is unchanged, every group is qubit-wise co-measurable, and after basis change every operator is diagonal. Shot allocation gives every task an integer number of shots; the uniform rule gives every task the given number, the proportional rule distributes exactly the given total in proportion to coefficient weight or expected variance (where some task has any). Tasks needing no measurement are separated so that original positions are kept, and neither the input tasks nor the prior expectation values are modified.",
  ["inputs", "programs"], "all lists of estimation tasks, operators with constants, repeated and zero coefficients, circuits, shot budgets and priors",
  "Tests use a few short operators; conservation over arbitrary operators, groupings and budgets is not covered.",
  ["estimation/_estimation.py", "hamiltonian.py"],
  [("group_greedily, group_individually, perform_context_selection, allocate_shots_uniformly, allocate_shots_proportionally, split_estimation_tasks_to_measure", "estimation/_estimation.py"), ("get_context_selection_circuit_for_group", "estimation/_estimation.py")],
  ["estimation tasks before and after"])

p("C15", "Estimators return one correct expectation-value list per task, in task order",
  "For every list of estimation tasks, estimating returns exactly one result per task in the given order, whatever mix of constant, unmeasured and measured tasks it holds. Exact estimation equals the term-by-term expectation of the operator in the prepared state; estimation by averaging equals the coefficient-weighted average parities of exactly the samples the backend returned for that task, including constants. Evaluating parameterised circuits with a symbol map per task, or one map for all, gives one task per task with exactly those symbols substituted.",
  ["inputs", "histories"], "all task lists, operators, circuits and shot counts",
  "Tests estimate fixed short lists; interleavings of task kinds and multi-term order are not sampled.",
  ["estimation/_estimation.py", "interfaces/estimation.py", "interfaces/estimator_contract.py"],
  [("estimate_expectation_values_by_averaging, calculate_exact_expectation_values, evaluate_estimation_circuits, evaluate_non_measured_estimation_tasks", "estimation/_estimation.py")],
  ["ExpectationValues lists; samples given by the backend"])

p("C16", "Cost functions evaluate the operator at the intended parameters",
  "The value of a ground-state or ansatz-based cost function at any parameter vector is the expectation of the target operator in the state prepared with those parameters assigned to the circuit's symbols in the declared order (by default name order for circuits, natural order for ansatze), fixed parameters first and seeded parameter noise reproducible; its precision is the root of the summed covariances. The result does not depend on what was evaluated before, and neither evaluation nor gradient changes the caller's parameters or the circuit. Finite-difference gradients equal the defined difference quotients, and changing an ansatz property is reflected in its next circuit.",
  ["inputs", "histories", "configurations"], "all parameterised circuits and ansatze, parameter vectors, fixed parameters, noise settings, evaluation histories",
  "Tests evaluate a few vectors on one circuit; order of more than ten symbols, fixed/noisy combinations and histories are not covered.",
  ["cost_function.py", "gradients.py", "interfaces/ansatz.py", "interfaces/ansatz_utils.py", "interfaces/cost_function.py", "utils.py"],
  [("get_ground_state_cost_function, AnsatzBasedCostFunction, create_cost_function, substitution_based_estimation_tasks_factory, expectation_value_estimation_tasks_factory", "cost_function.py"), ("fix_parameters, add_normal_noise, add_noise", "cost_function.py"), ("finite_differences_gradient", "gradients.py"), ("Ansatz, ansatz_property, invalidates_parametrized_circuit, DynamicProperty", "interfaces/ansatz_utils.py")],
  ["cost values, gradients, circuits submitted to the backend, caller's arrays"])

p("C17", "Recording wrappers are transparent and log every selected call exactly once",
  "A recorded function returns exactly what the original returns, passes its arguments unchanged and keeps its gradient, and its history holds exactly the calls selected by the save condition, in call order, each with its call number, the argument and value at the time of the call and the artifacts stored during it; a call forcing an artifact is always kept, a call that raises passes its exception on and is not recorded. Recorders composed with other wrappers, copied or used for many calls keep counting correctly, and later mutation of the caller's argument or returned array does not change the history. Save conditions, function augmentations and the optimizers' history collection act exactly as described.",
  ["histories"], "all call sequences, artifact patterns, save conditions, wrapped callables with and without gradient",
  "Tests run short sequences of one kind; exactly-once over arbitrary histories, nested wrappers and failing calls is not covered.",
  ["history/recorder.py", "history/save_conditions.py", "history/example_save_conditions.py", "cost_function_augmentations.py", "interfaces/optimizer.py", "interfaces/functions.py"],
  [("recorder, recorder_with_artifacts, Recorder, ArtifactRecorder", "history/recorder.py"), ("every_nth, always, has_improved...", "history/save_conditions.py"), ("augmentations", "cost_function_augmentations.py"), ("Optimizer.minimize", "interfaces/optimizer.py")],
  ["history entries, return values, gradients"],
  [("history", "list of recorded entries", "history/recorder.py"), ("predicate and call counter", "which calls are stored", "history/recorder.py")])

p("C18", "Time-evolution circuits implement the defined product of exponentials",
  "The evolution circuit of a single Pauli term, for any coefficient and time, is the exponential of minus i times time times the term, up to the phase of the constant term. For a sum of terms it is the first-order product formula: the term exponentials for time over order, in term order, repeated order times, exact when the terms commute; symbolic times evaluate to the same. The derivative circuits with their factors, combined by the stated rule, give the derivative of any expectation with respect to time.",
  ["inputs", "programs"], "all Hermitian operators, times (numeric, symbolic), Trotter orders, states",
  "Tests check a few terms and one Trotter order; the identity is over all operators, orders and times.",
  ["evolution.py"],
  [("time_evolution, time_evolution_for_term, time_evolution_derivatives, generate_circuit_sequence", "evolution.py")],
  ["unitaries of returned circuits, derivative factors"])

p("C19", "Operator arithmetic is the algebra of the represented matrices",
  "For qubit, fermion and Ising operators, sums, differences, products, scalar multiples and quotients, powers, negation, commutators, Hermitian conjugation (qubit and fermion operators) and parsing from or printing to text (of operators with terms and numeric coefficients) correspond exactly to the same operation on the matrices the operators represent, with numeric or symbolic coefficients. Operators that compare equal represent the same operator and equal representations compare equal, independent of term order and within the stated tolerance. Non-in-place arithmetic never changes its operands, in-place arithmetic changes only the left one, and compression or renormalisation change only what they say.",
  ["inputs", "histories"], "all operators, all sequences of in-place and out-of-place operations, all coefficient types",
  "Tests exercise chosen pairs; homomorphism and non-aliasing must hold over all operand pairs and operation histories.",
  ["openfermion/ops/operators/symbolic_operator.py", "openfermion/ops/operators/qubit_operator.py", "openfermion/ops/operators/fermion_operator.py", "openfermion/ops/operators/ising_operator.py", "openfermion/utils/operator_utils.py", "openfermion/utils/commutators.py"],
  [("SymbolicOperator and subclasses", "openfermion/ops/operators/symbolic_operator.py"), ("hermitian_conjugated, is_hermitian, count_qubits", "openfermion/utils/operator_utils.py"), ("commutator, anticommutator, double_commutator", "openfermion/utils/commutators.py")],
  ["terms of results and operands after each operation"])

p("C20", "Fermion-to-qubit transforms and normal ordering preserve the operator",
  "The Jordan-Wigner and Bravyi-Kitaev transforms of fermion operators preserve sums, products and Hermitian conjugation, hence the anticommutation relations and spectrum, and Jordan-Wigner agrees with the defining matrices; transforming a Hermitian interaction operator directly equals transforming its expansion. The reverse Jordan-Wigner transform inverts the forward one. Normal ordering and chemist ordering leave the represented operator unchanged and give a unique form; mode reordering and its reverse are relabelings.",
  ["inputs", "programs"], "all fermion, qubit and interaction operators, register sizes",
  "Tests transform small fixed operators; the homomorphism is over all operators and register sizes.",
  ["openfermion/transforms/opconversions/jordan_wigner.py", "openfermion/transforms/opconversions/bravyi_kitaev.py", "openfermion/transforms/opconversions/reverse_jordan_wigner.py", "openfermion/transforms/opconversions/term_reordering.py", "openfermion/utils/indexing.py"],
  [("jordan_wigner", "openfermion/transforms/opconversions/jordan_wigner.py"), ("bravyi_kitaev", "openfermion/transforms/opconversions/bravyi_kitaev.py"), ("reverse_jordan_wigner", "openfermion/transforms/opconversions/reverse_jordan_wigner.py"), ("normal_ordered, chemist_ordered, reorder", "openfermion/transforms/opconversions/term_reordering.py")],
  ["returned operators' matrices"])

p("C21", "Tensor forms of fermionic operators agree with their operator form",
  "Converting between tensor (interaction operator, polynomial tensor) and symbolic fermion form preserves the operator; tensor arithmetic, projection and rotation of the orbital basis equal the same operation on the operator, with operands untouched by non-in-place operations. Reduced density matrices built from a state give, for every one- and two-body observable, the same expectation as the state itself. Active-space reduction, frozen orbitals and removal of inactive orbitals give exactly the operator's action in the space where core orbitals are filled and the rest empty.",
  ["inputs", "histories"], "all tensors with the required symmetries, rotations, index sets and states",
  "Tests use fixed small molecules; agreement over all tensors and index subsets is not covered.",
  ["openfermion/ops/representations/interaction_operator.py", "openfermion/ops/representations/polynomial_tensor.py", "openfermion/ops/representations/interaction_rdm.py", "openfermion/transforms/repconversions/conversions.py", "openfermion/transforms/repconversions/operator_tapering.py", "openfermion/zapata_utils/_utils.py", "openfermion/measurements/get_interaction_rdm.py", "openfermion/chem/reduced_hamiltonian.py"],
  [("InteractionOperator, PolynomialTensor, InteractionRDM", "openfermion/ops/representations/polynomial_tensor.py"), ("get_interaction_operator, freeze_orbitals", "openfermion/transforms/repconversions/conversions.py"), ("remove_inactive_orbitals, get_ground_state_rdm_from_qubit_op", "openfermion/zapata_utils/_utils.py")],
  ["matrices and expectation values of results"])

p("C22", "Hamiltonian grouping, shot planning and RDM evaluation are consistent",
  "Greedy grouping partitions an operator's terms into qubit-wise co-measurable groups whose sum is the operator, for sorted and unsorted input. The shot estimates per group equal the defining variance formula for the given or worst-case expectation values. Expectation values from reduced density matrices equal the per-term expectations of the state, in the documented term order, and mode reordering of an interaction operator is an exact relabeling that preserves its spectrum.",
  ["inputs"], "all qubit operators, groupings, expectation values, RDMs and orderings",
  "Tests use two or three Hamiltonians.",
  ["hamiltonian.py"],
  [("group_comeasureable_terms_greedy, is_comeasureable, estimate_nmeas_for_frames, compute_group_variances, get_expectation_values_from_rdms, reorder_fermionic_modes", "hamiltonian.py")],
  ["groups, variances, shot numbers, expectation values"])

p("C23", "Qubit-operator utilities preserve the represented operator",
  "Expanding a matrix in Pauli products and building a matrix from an operator are inverse to each other; reversing qubit order twice is the identity and once equals the bit-reversed matrix; conversion between operator kinds and to or from dictionaries is lossless. Splitting into diagonal and remaining part adds up to the original, with the diagonal part diagonal. Evaluating an operator from expectation values is the weighted sum, particle-number operators count particles, and sparse matrices, ground states and expectation values equal dense linear algebra.",
  ["inputs"], "all matrices and operators up to the register sizes explored",
  "Tests check a few operators on one or two qubits.",
  ["openfermion/zapata_utils/_utils.py", "openfermion/linalg/sparse_tools.py"],
  [("get_qubitop_from_matrix, reverse_qubit_order, get_diagonal_component, change_operator_type, evaluate_qubit_operator, get_fermion_number_operator, get_polynomial_tensor, hf_rdm, create_circuits_from_qubit_operator, get_expectation_value", "openfermion/zapata_utils/_utils.py"), ("qubit_operator_sparse, jordan_wigner_sparse, get_number_preserving_sparse_operator, jw_get_ground_state_at_particle_number, expectation, eigenspectrum", "openfermion/linalg/sparse_tools.py")],
  ["matrices of results"])

p("C24", "Every saved artifact loads back with the same content",
  "Arrays, lists, dictionaries, value estimates, expectation values, parities, measurements, wavefunctions, operators and operator sets, interaction operators and RDMs, optimisation results, parameter grids, layouts, noise models and timing data that are saved to a file load back with the same content, through a file name or an open handle where both are accepted. Saving does not modify the object saved, and numeric types, complex parts, shapes, empty and optional fields, and order survive.",
  ["inputs"], "all artifact contents",
  "Tests save and load one typical object each.",
  ["serialization.py", "utils.py", "measurement.py", "openfermion/zapata_utils/_io.py", "openfermion/utils/operator_utils.py", "circuits/layouts.py", "interfaces/ansatz_utils.py"],
  [("OrquestraEncoder, OrquestraDecoder, save/load helpers", "serialization.py"), ("ValueEstimate, save/load helpers, convert_array_to_dict, convert_dict_to_array", "utils.py"), ("operator IO", "openfermion/zapata_utils/_io.py"), ("save_operator, load_operator", "openfermion/utils/operator_utils.py")],
  ["files and loaded objects"])

p("C25", "Generated graphs have the requested structure and are reproducible",
  "Every graph generator returns a graph with exactly the requested nodes and structure (degree, cliques, ladder, barbell, edge probability limits) whose edges carry weights drawn from the given sampler; generation from specifications equals the direct call, and equal seeds give equal graphs. Graph comparison calls graphs with the same nodes and edges in the same order equal, and graphs whose node or edge sequences differ at some position different. Saved graphs load back with the same nodes, edges and weights.",
  ["inputs"], "all sizes, degrees, probabilities, samplers and seeds",
  "Tests use a few sizes and seeds; comparison of unequal graphs is barely sampled.",
  ["graph.py"],
  [("generate_* , sampler functions, compare_graphs, save_graph, load_graph, generate_graph_from_specs", "graph.py")],
  ["graphs returned, compared and loaded"])

p("C26", "Workflow steps write the result the library computes from their inputs",
  "Each workflow step, given inputs as objects, files or specification strings, writes output files that load to exactly the result of the corresponding library computation on those inputs. The input objects and files are not altered.",
  ["inputs", "configurations"], "all step functions, inputs in every accepted form",
  "Several steps have no test at all; others are run once with one input form.",
  ["steps/circuit.py", "steps/evaluation.py", "steps/graph.py", "steps/measure.py", "steps/operators.py", "steps/optimize.py", "steps/transforms.py", "steps/utils.py"],
  [("step functions", "steps/measure.py"), ("step functions", "steps/operators.py"), ("step functions", "steps/circuit.py"), ("step functions", "steps/optimize.py")],
  ["files written by the steps"])

p("C27", "Model Hamiltonians and cluster generators equal their defining sums",
  "Fermi-Hubbard models of any grid size, with or without spin, periodicity and particle-hole symmetry, equal the defining sum over sites and bonds with every bond counted once. Unitary coupled-cluster generators are anti-Hermitian for real amplitudes, conserve particle number and spin, and equal the defining sum of excitations for the given amplitudes. Number and interaction operators, and the spin-orbital integrals, active-space Hamiltonians and reduced Hamiltonians of real or complex integrals, equal their definitions. Molecular data saved to a file loads back with the same content, whichever of its fields were computed.",
  ["inputs"], "all grid sizes, couplings, amplitude vectors, orbital and electron counts",
  "Tests compare a few literal small models.",
  ["openfermion/hamiltonians/hubbard.py", "openfermion/hamiltonians/general_hubbard.py", "openfermion/hamiltonians/special_operators.py", "openfermion/circuits/unitary_cc.py", "openfermion/chem/molecular_data.py", "openfermion/chem/reduced_hamiltonian.py"],
  [("fermi_hubbard", "openfermion/hamiltonians/hubbard.py"), ("uccsd_generator, uccsd_singlet_generator", "openfermion/circuits/unitary_cc.py"), ("spinorb_from_spatial, MolecularData", "openfermion/chem/molecular_data.py"), ("make_reduced_hamiltonian", "openfermion/chem/reduced_hamiltonian.py")],
  ["terms and matrices of the returned operators"])

p("C28", "Bit, integer and matrix utilities equal their mathematical definitions",
  "Conversions between integers, bit lists and bitstrings are inverse to each other for every width and order, and refuse numbers that do not fit; identity, unitarity and equality-up-to-phase tests accept exactly the matrices that satisfy them to within the tolerance; ordered bitstring lists enumerate each bitstring once in the stated order. Sampling from a distribution and scaling values to integers conserve the requested total. Value estimates, symbol maps, object factories and translated calls return what was asked for without changing their arguments, and random generators return objects of the requested kind and size, deterministic under every seed.",
  ["inputs"], "all integers, widths, matrices, specs and seeds",
  "Tests check single values.",
  ["utils.py", "testing/_initialize.py", "openfermion/testing/testing_utils.py", "circuits/_testing.py", "wip/compatibility_tools.py"],
  [("dec2bin, bin2dec, convert_bitstrings_to_tuples, convert_tuples_to_bitstrings, get_ordered_list_of_bitstrings, is_identity, is_unitary, compare_unitary, ValueEstimate, create_symbols_map, create_object, get_func_from_specs, sample_from_probability_distribution, scale_and_discretize", "utils.py"), ("compatible_with_old_type", "wip/compatibility_tools.py"), ("create_random_qubitop, create_random_wavefunction", "testing/_initialize.py")],
  ["return values"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
