#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
B = "blueqat/"
NP, NB, BB = B+"backends/numpy_backend.py", B+"backends/_numba_backend_impl.py", B+"backends/backendbase.py"
CI, GA, VQ, WQ = B+"circuit.py", B+"gate.py", B+"vqe.py", B+"wq.py"

p("C01", "Re-running a circuit equals running it fresh, whatever its history",
  "For every history of gate additions, runs (any shots/returns options; a backend named or passed as an object that other circuits also use), cache warm-ups, copies, concatenations, daggers and pickling, running a circuit gives the state vector, and from the same random stream the shot counts, that a newly built circuit with the same operations gives. Results handed out earlier are never changed by later calls, and modifying a returned result never affects later runs.",
  ["histories", "configurations"], "all interleaved histories over several circuits and backend objects, with and without aborted runs and process restarts in between",
  "Tests warm the cache once and append once (test_caching_then_expand, test_cache_then_append); the cached prefix, its length and its owner depend on the whole history.",
  [NP, NB, BB, CI],
  [("prefix cache of the simulator backends", NP+": run, _NumPyBackendContext.prepare"), ("backend ownership and copying", CI+": Circuit.copy, dagger, run; "+BB+": Backend.copy")],
  [("cached state", "state vector after the cached gates, and which gates those are", NP)],
  ["Circuit.run", "Circuit.make_cache", "Circuit.copy", "Circuit.dagger"])
p("C02", "A failed or interrupted call leaves the circuit intact and re-runnable",
  "If running, warming up, exporting or copying a circuit is cut short at any instant by an exception (interrupt, memory exhaustion, a failing user-defined gate or backend), the circuit keeps its operations and qubit count, and the next run gives exactly what a never-interrupted circuit gives. A gate application rejected because of bad arguments (wrong index type or parameter count) leaves the circuit exactly as it was.",
  ["crash_points", "fault_sequences"], "every instant of execution at which an exception can surface, and every sequence of such failures",
  "No test interrupts a run; a test can only pick a handful of instants, the cache is updated at many.",
  [NP, NB, CI, BB, GA],
  [("cache publication", NP+": run"), ("gate application", CI+": _GateWrapper.__getitem__")],
  [("cached state", "must be consistent at every instant", NP)], ["Circuit.run after a failed call"])
p("C03", "Concurrent runs in several threads do not disturb each other",
  "When several threads run circuits at the same time - different circuits, copies of one circuit, circuits sharing one backend object, or one circuit object that nobody is modifying - every run returns the result it would return alone, in every interleaving. Sampled runs return one entry per shot with only outcomes that circuit can produce.",
  ["schedules"], "all interleavings of the threads' steps",
  "The tests are single threaded.",
  [NP, NB, BB, CI],
  [("per-run context", NP+": _NumPyBackendContext"), ("cache snapshot/publication", NP+": run")],
  [("cached state", "shared by runs of one backend object", NP)], ["Circuit.run in threads"])
p("C04", "Measurement and reset follow the Born rule along every random trajectory",
  "For every circuit mixing gates, mid-circuit measurements and resets and every stream of random numbers, each shot's final state and measured bits form an outcome that quantum mechanics allows, the state being the normalised post-measurement (post-reset) state. Over many shots the joint outcome frequencies follow the Born probabilities.",
  ["schedules", "programs"], "all circuits with measurement/reset and all random-number streams",
  "Tests sample five tiny circuits with 3-sigma bounds; joint mid-circuit statistics and collapsed states are hardly touched.",
  [NP, NB], [("projection and renormalisation", NP+": gate_measure, gate_reset")],
  [("classical register", "last measured value per qubit in this shot", NP)], ["Circuit.run(shots=..., returns='statevector_and_shots')"])
p("C05", "Shot counts account for every shot and nothing else",
  "For any circuit with at least one qubit and any shot number, the returned counts sum exactly to the shots; each key has one character per qubit in qubit order, showing that qubit's last measured value in that shot and '0' if it was not measured. to_inttuple changes only the form of the keys. Every run starts clean: no bit, count or collapsed state leaks from earlier shots, earlier or aborted runs, or other circuits.",
  ["histories", "schedules", "fault_sequences"], "all circuits, shot numbers, random streams and preceding (also aborted) runs",
  "Tests check a few fixed circuits on fresh objects.",
  [NP, NB], [("shot loop and register reset", NP+": run, _NumPyBackendContext.prepare, store_shot")],
  [("counts", "outcome -> number of shots", NP)], ["Circuit.run(shots=n, returns=...)"])
p("C06", "Results are reproducible from the random seed alone",
  "With Python's and NumPy's global generators seeded equally, the same sequence of circuit runs, sampler calls, VQE runs and annealing runs returns identical results in any process, whatever the hash randomisation, and whatever unrelated circuits were built or run, or caches warmed, beforehand.",
  ["configurations", "histories", "schedules"], "all seeds, processes, hash seeds and preceding unrelated work",
  "The tests run once in one process with PYTHONHASHSEED=0.",
  [NP, VQ, WQ, B+"pauli.py"], [("global generators as the only randomness", NP+": gate_measure; "+VQ+": get_scipy_minimizer; "+WQ+": Opt.run"), ("ordered term lists", B+"pauli.py: Expr.simplify")],
  (), ["Circuit.run(shots)", "Vqe.run", "Opt.run", "Opt.sqa"])
p("C07", "Circuits are independent values",
  "In every history over several circuits, an operation changes only the circuit it is applied to: copies, operands of + and +=, sources of dagger and circuits derived earlier keep their operations, qubit counts, default backend and results. Concatenation, copying, daggering and macros yield exactly the documented operation sequence and the larger qubit count.",
  ["histories"], "all histories of build/copy/add/dagger/macro/run/default-backend operations over several circuits",
  "Tests check single concatenations of two circuits.",
  [CI, GA], [("copying of operation lists and backends", CI+": Circuit.copy, __add__, __iadd__, dagger")],
  [("operations", "list of gates of a circuit", CI)], ["Circuit.ops", "Circuit.n_qubits", "repr", "Circuit.run"])
p("C08", "Ops values never change and can be shared between threads",
  "Extending, adding, daggering or converting an experimental Ops value returns a new value with the documented operations and qubit count and never alters an existing one, in every history and every interleaving of threads deriving from shared values. The circuit made from an Ops value is independent of it: changing or running the circuit changes neither the Ops value nor other circuits made from it.",
  ["schedules", "histories"], "all derivation histories and thread interleavings",
  "The experimental module has no tests.",
  [B+"experimental/operations.py"], [("immutable tuple of gates", B+"experimental/operations.py: Ops, _GateWrapper")],
  (), ["Ops.ops", "Ops.n_qubits", "Ops.to_circuit"])
p("C09", "The VQE objective is a pure function of its parameters",
  "For every ansatz and Hamiltonian the objective's value at given parameters is the expectation value of the Hamiltonian in the ansatz circuit's state (exactly, with the sparse matrix or the exact sampler), the same in any order of evaluation, after failed or interrupted evaluations, and when several threads evaluate it concurrently. Evaluating it modifies neither the parameter array nor the ansatz nor the circuits it was given.",
  ["histories", "schedules", "fault_sequences"], "all evaluation orders, interleavings and failures during evaluation",
  "No test evaluates an objective; only helper functions are tested on fixed circuits.",
  [VQ, NP, CI], [("objective closures over a cached initial circuit", VQ+": AnsatzBase.get_objective, get_energy, QaoaAnsatz.get_circuit")],
  [("initial circuit", "shared, cached start of every evaluation", VQ)], ["AnsatzBase.get_objective(...)(params)"])
p("C10", "Samplers report the distribution of exactly the requested qubits",
  "For any circuit and any requested qubits in any order, the exact, state-vector and measurement samplers return non-negative probabilities summing to one, keyed by the bits in the requested order, only for outcomes the circuit can produce, with frequencies following its joint distribution. A sampler never modifies the circuit it is given, so repeated calls and later runs are unaffected.",
  ["histories", "schedules", "inputs"], "all circuits, qubit selections, random streams and call histories",
  "Tests cover the exact sampler on symmetric states only; the sampling ones are untested.",
  [VQ], [("bit selection", VQ+": expect, get_measurement_sampler, get_state_vector_sampler")], (), ["sampler(circuit, qubits)"])
p("C11", "A VQE run reports what its optimiser found, and survives failures",
  "However the optimiser behaves (any number, order or repetition of evaluations, reused parameter buffers, failures), the result's parameters are the optimiser's answer, its circuit is the ansatz circuit at those parameters, and its probabilities are that circuit's distribution; Vqe.result is the last run's result, empty before; stored probabilities are returned until a rerun or another sampler is asked for, and not-stored ones leave them alone. Exceptions of optimiser or sampler reach the caller, and the same objects can be run again correctly.",
  ["histories", "fault_sequences"], "all optimiser and sampler behaviours, including failures, and all get_probs histories",
  "Tests only sort a hand-made probability table.",
  [VQ], [("Vqe.run and result caching", VQ+": Vqe.run, VqeResult.get_probs, most_common")],
  [("stored probabilities", "cache inside the result", VQ)], ["Vqe.run", "VqeResult.params/circuit/get_probs/most_common"])
p("C12", "QASM-runner backends submit exactly the circuit, once per run",
  "Each run on a backend generated from a QASM runner calls the runner exactly once, with an OpenQASM program that means the circuit's current operations, and with the caller's arguments, and returns or raises what the runner does; earlier runs, failures or copies of the circuit change nothing about this, and copies use the same runner. The Qiskit-backed one returns counts with qubit 0 first, requests the asked number of shots, reports a missing Qiskit as ImportError and a broken one as ValueError (or hands the error out on request), and works again once the failure is gone.",
  ["fault_sequences", "histories", "schedules"], "all sequences of runs with service failures, import failures, copies and concurrent submissions",
  "One test runs one circuit on a local Aer simulator without any failure.",
  [B+"backends/qasm_parser_backend_generator.py", B+"backends/ibmq_backend.py", B+"backends/qasm_output_backend.py", CI],
  [("runner delegation", B+"backends/qasm_parser_backend_generator.py: QasmParsableBackend.run"), ("qiskit runner", B+"backends/ibmq_backend.py: _qasm_runner_qiskit")],
  (), ["calls received by the runner / the qiskit service", "Circuit.run_with_ibmq"])
p("C13", "Remote Qiskit sampling yields right probabilities for every reply format",
  "Whatever legal form the remote service's counts take (binary or hexadecimal keys, short or padded, any key order, split into few or many outcomes), the Qiskit sampler returns the probabilities of the requested qubits in the requested order, summing to one, and energies computed with it include all Hamiltonian terms, constants too. A failing job raises, is not silently retried or swallowed, and leaves circuit and ansatz usable with correct later results.",
  ["fault_sequences", "schedules", "inputs"], "all reply formats and orders, and all sequences of job failures",
  "The Qiskit sampler has no tests.",
  [VQ, B+"backends/ibmq_backend.py"], [("reply decoding", VQ+": get_qiskit_sampler")], (), ["get_qiskit_sampler(...)(circuit, qubits)", "AnsatzBase.get_energy"])
p("C14", "Registries and default backend follow the last accepted change",
  "After any sequence of registering, overwriting and unregistering macros, gates and backends and of setting default backends, also by several threads using different names, every name resolves to its last accepted registration for circuits that have not used it yet, and unregistering removes exactly that name. Duplicate, reserved or unknown names are rejected with ValueError and change nothing; a circuit's own default backend overrides the global default until it is set to None.",
  ["histories", "schedules"], "all sequences and interleavings of registry operations and lookups",
  "Tests register one macro and switch the default backend once.",
  [CI], [("registries", CI+": BlueqatGlobalSetting, GATE_SET, GLOBAL_MACROS, BACKENDS"), ("default backend", CI+": Circuit.set_default_backend, run")],
  [("registries", "module-global name tables", CI)], ["Circuit attributes", "Circuit.run", "get_default_backend_name"])
p("C15", "Annealing results and recorded energies always belong to the given QUBO",
  "For every QUBO (list or array, set directly or accumulated with add), every random stream and every history of earlier or interrupted runs on the same optimiser, simulated annealing returns one 0/1 vector per shot with the QUBO's size, and records per shot one energy per temperature step whose last value is the QUBO energy of the returned vector. A run neither changes the QUBO nor depends on earlier runs.",
  ["schedules", "histories", "fault_sequences"], "all QUBOs, random streams and run histories, with interruptions",
  "wq has no tests.",
  [WQ], [("QUBO to Ising conversion and energy offset", WQ+": Opt.qi, Ei"), ("Metropolis loop", WQ+": Opt.run")],
  [("energies", "Opt.E", WQ), ("couplings", "Opt.J, Opt.ep", WQ)], ["Opt.run", "Opt.sa", "Opt.E"])
p("C16", "Annealing obeys its temperature schedule",
  "At a fixed temperature the states simulated annealing visits follow the Boltzmann distribution of the QUBO at that temperature, for every QUBO. Cooled to a temperature far below the energy gaps, it ends in a state that no single bit flip improves.",
  ["schedules", "inputs"], "all QUBOs and random streams; long single-temperature runs and full cooling schedules",
  "wq has no tests, and a distribution is invisible to example-based tests.",
  [WQ], [("Metropolis acceptance", WQ+": Opt.run")], (), ["Opt.run(shots=..., targetT=...)"])
p("C17", "The parallel kernels give the same result under every thread schedule",
  "For every circuit the numba simulator's parallel loops produce, under every division of the loop among worker threads and every interleaving of their memory accesses, the state vector and measurement results the sequential definition gives.",
  ["schedules"], "all loop partitions and interleavings of loads and stores",
  "The numba backend cannot even be imported in the test environment, and a data race shows only under particular schedules.",
  [NB], [("parallel kernels", NB+": _xgate ... _reset1"), ("index arithmetic that keeps iterations disjoint", NB+": _shifted, _create_masks, _mult_shifted")],
  (), ["NumbaBackend.run"])
p("C18", "The problem sent to a D-Wave solver is the given QUBO, also after failures",
  "For every QUBO and every solver that offers the needed qubits and couplers (listed in any order, among any others), the submitted Ising problem equals the QUBO's energies up to a constant, and the returned bits are the solver's answer for the QUBO's variables in order. Connection, solver or answer failures raise, and a later retry submits the same problem.",
  ["fault_sequences", "inputs", "schedules"], "all solver graphs containing the problem, in any listing order, and all sequences of service failures",
  "The D-Wave path has no tests and needs the network.",
  [WQ], [("problem submission", WQ+": Opt.dw, Opt.qi")], (), ["linear/quadratic terms received by the solver", "Opt.dw"])
p("C19", "Quantum annealing moves follow its Trotter Hamiltonian",
  "For every QUBO and random stream, simulated quantum annealing returns one +-1 spin vector per Trotter slice, and at a fixed transverse field the visited configurations follow the Boltzmann distribution of the Trotterised Hamiltonian at the configured temperature. The recorded energies are those of this Hamiltonian at the successive fields, the last one that of the result. Neither the QUBO nor the settings are changed by a run.",
  ["schedules", "inputs"], "all QUBOs, slice numbers, fields and random streams",
  "wq has no tests.",
  [WQ], [("Trotter-slice Metropolis loop", WQ+": Opt.sqa")], (), ["Opt.sqa"])
# ---- pure functions of their input: not simulation targets ----
PURE = "Fixed example inputs only; the input space is unbounded."
p("C20", "Unitary gates act as their matrices on every backend",
  "However a circuit of unitary gates came about (grown between runs, copied, summed, inverted, parameters of any number type) and whatever ran before on the same circuit, its copies or the same backend object, every backend that supports it (numpy, numba, sympy_unitary, the QASM export read back, circuit_to_unitary) gives the state or unitary that is the product of the gates' standard matrices, up to a global phase; ignore_global=True makes the first non-zero amplitude real and positive. Failing gates, interrupted runs and concurrent threads change no later answer.",
  ["programs", "histories", "crash_points", "schedules", "configurations"], "all unitary circuits, histories over several circuits and backends, instants of interruption and thread interleavings",
  "Tests run each gate once on a few fixed states; gates are combined, parameters and backends mixed in endless ways.",
  [NP, NB, B+"backends/sympy_backend.py", B+"backends/qasm_output_backend.py", BB, GA, B+"experimental/utils.py"],
  [("gate kernels and fallbacks", NP+", "+NB+", "+B+"backends/sympy_backend.py, "+GA)], (), ["Circuit.run", "Circuit.to_unitary", "Circuit.to_qasm", "circuit_to_unitary"])
p("C21", "Dagger is the inverse",
  "For every circuit without measurement or reset, however it came about, circuit and dagger applied in either order give back every state up to rounding, on every backend, also for daggers of daggers, single gates, Ops values and symbolic parameters. A circuit with measurement or reset is refused unless ignoring it is requested, a gate without dagger always. The dagger is an independent circuit: neither grows with the other, default backends follow the options, and daggers that fail, are interrupted or are made from concurrent threads leave every circuit as it was.",
  ["programs", "histories", "crash_points", "schedules"], "all circuits and histories, all instants of interruption, all thread interleavings",
  "Tests invert a few fixed circuits; pairs with common qubits, growth and mixed histories are left out.",
  [CI, GA, B+"experimental/operations.py"], [("Gate.dagger", GA), ("Circuit.dagger", CI)], (), ["Circuit.dagger", "Ops.dagger", "Gate.dagger"])
p("C22", "QASM export describes the circuit as it is now",
  "However a circuit came about (gates appended, also between exports, copies, sums, daggers, pickling) and however often it was exported or run before, its QASM export is a valid OpenQASM 2.0 program over qelib1 with one qubit and one classical bit per circuit qubit, whose gates, measurements and resets mean what the circuit's operations mean, up to global phase (cu2, which qelib1 lacks, is written under its own name); output_prologue=False gives the same statements without the header and declarations. Exports cut short by an exception and exports in concurrent threads change neither the circuit nor any other export.",
  ["histories", "crash_points", "schedules"], "all interleaved histories over several circuits, all instants of interruption, all thread interleavings", "Tests export a handful of fixed circuits once or twice.",
  [B+"backends/qasm_output_backend.py", B+"backends/backendbase.py", GA], [("text emission", B+"backends/qasm_output_backend.py"), ("gate fallbacks", GA)], (), ["Circuit.to_qasm", "Circuit.run(backend='qasm_output')"])
p("C23", "Symbolic unitaries are exact, whatever was asked before",
  "However a circuit came about, also with symbolic parameters and qubits named twice, its symbolic unitary, evaluated at any parameter values, is the product of the gates' standard matrices up to a global phase (also with ignore_global=True). Conversions repeated after further gates, on copies, after interrupted conversions or in concurrent threads are right as well; modifying a returned matrix affects nothing else.",
  ["histories", "crash_points", "schedules", "inputs"], "all histories, parameter values, instants of interruption and thread interleavings", "Tests compare single fixed circuits.",
  [B+"backends/sympy_backend.py", B+"backends/backendbase.py", GA], [("symbolic matrices", B+"backends/sympy_backend.py")], (), ["Circuit.to_unitary", "Circuit.run(backend='sympy_unitary')"])
p("C24", "Pauli expressions are immutable values that obey operator algebra",
  "For every history of derivations, every sum, difference, product, quotient by a number, power, negation, commutator, simplification, conversion, copy or sum() of Pauli operators, terms and expressions is the operator that matrix algebra gives for its operands; equality (also between operators, terms and expressions), commutation tests, coefficients and qubit counts agree with the operators; and no value changes afterwards, whether later calls succeed, are refused, are interrupted or run in concurrent threads.",
  ["histories", "crash_points", "schedules"], "all histories of derivations over shared values, all instants of interruption, all thread interleavings", "Tests use single fixed expressions; wrong results appear when results are combined further.",
  [B+"pauli.py"], [("Term/Expr arithmetic", B+"pauli.py")], (), ["blueqat.pauli: X, Y, Z, I, Term, Expr, commutator, is_commutable"])
p("C25", "Pauli matrices are right in every format and are the caller's own",
  "For every Pauli operator, term or expression, the dense matrix and the matrix in each sparse format, at the natural or any larger number of qubits, is the operator's Kronecker-product matrix, whatever was converted before; unknown formats are refused with ValueError. Modifying a returned matrix changes neither other matrices nor later conversions, and neither do interrupted conversions and conversions in concurrent threads.",
  ["histories", "crash_points", "schedules"], "all histories of conversions of shared values, formats, sizes, instants of interruption and thread interleavings", "Tests convert fixed expressions once.",
  [B+"pauli.py"], [("to_matrix", B+"pauli.py"), ("shared building blocks", B+"pauli.py: _matrix, _sparse_matrix")], (), ["to_matrix", ".matrix"])
p("C26", "Time evolutions can be reused on any circuit, at any time, in any thread",
  "For every Pauli term with real coefficient c and product P, the function from get_time_evolution appends gates that act as exp(i c t P) up to global phase, with the same sign for all terms, for every time t and on every circuit, however often, late and concurrently it is used; append_to_circuit appends P. Gates the circuit had before stay as they are, terms do not change, interrupted calls affect no other circuit, and a term whose coefficient is not real is refused with ValueError.",
  ["histories", "crash_points", "schedules"], "all histories of shared terms, evolutions and circuits, all instants of interruption, all thread interleavings", "No test compares time evolutions with matrix exponentials.",
  [B+"pauli.py"], [("get_time_evolution, append_to_circuit", B+"pauli.py")], (), ["Term.get_time_evolution", "Term.append_to_circuit"])
p("C27", "Qubit indexing follows Python slicing",
  "Every index expression (integer also negative, slice, tuple, nested tuple, any object with __index__) addresses the qubits that Python indexing of range(circuit size) gives, in that order, pairing controls with targets, at the size the circuit has when it is used: the same expression in a circuit that has grown, in a copy, sum, dagger or printed form means the same qubits on every backend. Expressions that Python or the gate cannot resolve (index beyond the register, unequal pairs, control equal to target) are refused on use and answered by no backend. An index object that raises, an interrupted call or concurrent threads leave every circuit's gates as they were.",
  ["inputs", "histories", "crash_points", "schedules"], "all index expressions, sizes and growth histories, all instants of interruption, all thread interleavings",
  "Tests try a handful of fixed expressions on circuits of fixed size; what an expression means depends on the size at the time of use.",
  [GA, CI, NP, B+"backends/sympy_backend.py", B+"backends/qasm_output_backend.py"],
  [("slicing, qubit_pairs, get_maximum_index", GA), ("size growth", CI+": _GateWrapper.__getitem__")],
  [("n_qubits", "number of qubits of a circuit", CI)], ["Circuit.<gate>[...]", "Circuit.run", "Circuit.to_qasm", "Circuit.to_unitary"])
p("C28", "QUBO builders and converters preserve energies",
  "QUBO matrices, symbolic QUBO expressions, their reductions (optx, optm, qn_to_qubo, nbody_separation with its mapping), their Pauli and Ising forms and the builders (sel, mul, sqr, net, diag, zeros) assign every bit vector the energy of the problem they stand for, up to constants where a matrix cannot hold them; Opt.add adds weighted energies whatever was added before. Arguments come out unchanged, results are the caller's own, and calls interrupted, repeated or made from concurrent threads give the same energies.",
  ["inputs", "histories", "crash_points", "schedules"], "all QUBOs and expressions, all histories over shared matrices, expressions and optimizers, all instants of interruption, all thread interleavings",
  "Tests use single fixed examples, mostly of one form.",
  [WQ, B+"pauli.py"], [("pauli, optm, qn_to_qubo, nbody_separation, sel, net, ...", WQ), ("accumulation of terms", WQ+": Opt.add, Opt.qi")],
  [("Opt.qubo", "the problem accumulated so far", WQ)], ["wq.*", "wq.Opt.add", "wq.Opt.qi"])
p("C29", "The qgate backend agrees with the default simulator", "Every circuit the qgate backend accepts gives the same state and outcome distribution as the default simulator.",
  ["programs"], "all circuits", "qgate is not installable here; tests run with numpy only.", [B+"backends/qgate_backend.py"], [("gate translation", B+"backends/qgate_backend.py")])

p("C30", "Boltzmann machine training follows only its data and its samples",
  "setRBM and dbms give QUBOs whose couplings join only neighbouring layers; counter, rbm_hmodel, rbm_data_qubo and rbm_model_qubo give exactly the counts, hidden-unit probabilities and averages they stand for, for any number of shots. Each epoch of Opt.fit replaces the QUBO by alpha times itself plus epsilon times (data minus model statistics), from the samples drawn at the present QUBO and one training row (inverted), all rows equally likely. After a failed or interrupted training the QUBO is that of the last completed epoch. Data are never modified, trainings in other threads or before do not matter, and equal random streams give equal machines.",
  ["histories", "fault_sequences", "crash_points", "schedules"], "all machines, data, sample and random streams, failures of the sampler, instants of interruption and interleavings",
  "No test trains a machine: the result of an epoch depends on random rows and samples.",
  [WQ], [("training", WQ+": Opt.fit, Opt.rbm_model_qubo, rbm_data_qubo, rbm_hmodel"), ("layers", WQ+": Opt.setRBM, dbms, rands")],
  [("Opt.qubo", "weights and biases learnt so far", WQ)], ["wq.Opt.fit", "wq.Opt.setRBM", "wq.Opt.rbm_model_qubo", "wq.rbm_data_qubo", "wq.rbm_hmodel", "wq.dbms", "wq.rands", "wq.counter"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
