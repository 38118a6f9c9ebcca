"""Source of properties.jsonl and MANIFEST.json:  python3 tools/registry.py  (run by hand after editing)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note, state=(), observe=()):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                    state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)), note))


prop("P01", "A program denotes one linear operator, however it is evaluated",
     "Every program assembled from gates, Hamiltonian evolutions and matrices by sequencing, tensor products, sums and (parametric) scaling denotes exactly one linear operator on its qubits, determined by its structure and the parameter values. "
     "Its dense matrix (on its own support or on a larger register, in either bit order) and the states obtained by running it from the zero state, from a given state or from a batch of states, through a function call or a model, for every element of a batch of parameter values, are all that operator's.",
     ["programs", "inputs", "configurations"], "all programs over the gate set, all qubit placements, all parameter valuations and batches, all evaluation routes and bit orders",
     "The tests run a fixed list of circuits and compare single amplitudes or two routes that share code; programs, placements (unordered, gaps), nesting and batches are unbounded.",
     ["qadence/blocks/block_to_tensor.py", "qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/pyqtorch/backend.py", "qadence/blocks/composite.py", "qadence/execution.py", "qadence/operations"],
     [("dense evaluation", "qadence/blocks/block_to_tensor.py:block_to_tensor"), ("conversion to the state-vector simulator", "qadence/backends/pyqtorch/convert_ops.py:convert_block"),
      ("run", "qadence/backends/pyqtorch/backend.py:Backend._run"), ("entry points", "qadence/execution.py:run, qadence/model.py:QuantumModel.run")],
     "exact ring semantics in TLA+; every gate placement on 3 qubits and every 3-step session over a small gate set exhaustively, longer sessions sampled; every emitted behaviour is replayed and compared on the dense matrix and one of seven run routes",
     observe=["qadence.run", "QuantumModel.run", "block_to_tensor"])

prop("P05", "Expectation values are those of the prepared state",
     "The expectation of an observable after a program is <psi|O|psi> for the state psi the program prepares from the given (or zero) initial state, for every element of the batch and every observable in the list, in their order. "
     "It is the same through functions and models, for one or several observables, whichever differentiation mode or evaluation configuration is chosen, and repeating a call gives the same values.",
     ["programs", "inputs", "configurations"], "all programs, all lists of Hermitian observables with numeric or parametric coefficients, all batches, initial states, differentiation modes and configuration switches",
     "Tests use a few observables and mostly compare backends with themselves; mixtures of batched and constant coefficients, orderings and configuration switches are not enumerated.",
     ["qadence/backends/pyqtorch/backend.py", "qadence/execution.py", "qadence/model.py", "qadence/engines/torch/differentiable_expectation.py", "qadence/blocks/utils.py"],
     [("expectation loops", "qadence/backends/pyqtorch/backend.py:Backend.expectation"), ("observable conversion", "qadence/backends/pyqtorch/backend.py:Backend.observable"), ("entry points", "qadence/execution.py:expectation, qadence/model.py:QuantumModel.expectation")],
     "exact expectation values from the TLA+ denotation; exhaustive for one gate and one-letter observables, sampled sessions otherwise, replayed through nine evaluation routes (functions, models, QNN tables, given states, looped batches, separate values, fused gates, differentiation modes)",
     observe=["qadence.expectation", "QuantumModel.expectation"])

prop("P08", "All differentiation modes give the exact derivatives",
     "The derivative of every expectation value with respect to every feature input and every trainable parameter is the exact one under automatic differentiation, generalised parameter shift and (first order) adjoint differentiation, and second derivatives obtained by differentiating again are exact as well. "
     "Parameters shared between gates, occurring in affine expressions, in multi-gap gates, controlled gates, evolution times or observable coefficients contribute with all their occurrences, and a batch element's derivative does not leak into another's.",
     ["programs", "inputs", "configurations"], "all programs and observables in a mode's documented domain, all parameter values and batches, first and second order",
     "Tests compare modes on a few ansatz circuits with tolerances; repeated parameters, expression coefficients, multi-gap gates and mixed second derivatives are not covered systematically.",
     ["qadence/engines/torch/differentiable_expectation.py", "qadence/backends/parameter_shift_rules.py", "qadence/blocks/embedding.py", "qadence/parameters.py", "qadence/operations"],
     [("shift rules", "qadence/backends/parameter_shift_rules.py:general_psr"), ("adjoint", "qadence/engines/torch/differentiable_expectation.py:DifferentiableExpectation.adjoint"), ("expression embedding", "qadence/blocks/embedding.py:embedding"), ("spectral gaps", "qadence/operations, qadence/blocks/primitive.py:eigenvalues_generator")],
     "exact jets (value, gradient, mixed second derivative) in the specification, cross-checked against the parameter-shift identity by TLC; replayed under ad, gpsr and adjoint",
     observe=["torch.autograd over QuantumModel.expectation"])

prop("P03", "Transpilation passes preserve what a program does",
     "Flattening, reassigning qubits, inverting the bit order, fusing single-qubit operations, pushing scales down to the primitives, filling up with identities and recursing over a block, applied to blocks or lifted to circuits and composed in any order, preserve the linear operator of the program for all parameter values (up to the relabelling of qubits that reassign and invert_endianness ask for). "
     "They do what they announce (no nested block of a flattened kind is left, the operations keep their order, scales are left on primitives only, all the qubits are covered), keep the register of a circuit, and leave the block they are given as it was.",
     ["programs", "inputs", "configurations"], "all programs over the gate set, all sequences of passes and their arguments, all parameter valuations",
     "Tests apply one pass to a few hand-written blocks and compare structure; combinations of passes on nested, tagged and parametric blocks are unbounded.",
     ["qadence/transpile", "qadence/blocks/utils.py", "qadence/blocks/manipulate.py"],
     [("flatten", "qadence/transpile/flatten.py"), ("reassign, scales, fusing", "qadence/transpile/block.py"), ("bit order", "qadence/transpile/invert.py"), ("lifting", "qadence/transpile/transpile.py"), ("identities", "qadence/transpile/circuit.py")],
     "the passes are transitions on the block syntax whose invariants (denotation preserved, flat, relabelled) TLC checks exhaustively on small sessions; sampled sessions with up to 4 passes are replayed",
     observe=["flatten", "reassign", "invert_endianness", "chain_single_qubit_ops", "scale_primitive_blocks_only", "fill_identities", "apply_fn_to_blocks", "transpile"])

prop("P04", "dagger() is the adjoint",
     "The adjoint of every block and circuit denotes the conjugate transpose of its operator, for all parameter values and for every gate, evolution, matrix, projector, product, tensor product, sum and (complex or parametric) scale; taking it twice gives the original operator back, it acts on the same qubits, keeps a circuit's register and leaves the original unchanged.",
     ["programs", "inputs"], "all programs over the gate set including nested adjoints, all parameter valuations",
     "Tests check dagger on single gates and a few compositions, mostly structurally; parametric and complex scales in nested sums, evolutions with parametric generators and matrices are not sampled.",
     ["qadence/operations", "qadence/blocks/abstract.py", "qadence/blocks/composite.py", "qadence/blocks/primitive.py", "qadence/blocks/matrix.py", "qadence/circuit.py"],
     [("adjoint of composites", "qadence/blocks/composite.py:CompositeBlock.dagger"), ("adjoint of scales", "qadence/blocks/primitive.py:ScaleBlock.dagger"), ("adjoint of a circuit", "qadence/circuit.py:QuantumCircuit.dagger")],
     "the adjoint is a syntax constructor of the specification; TLC checks that its denotation is the conjugate transpose and its involution exhaustively on small sessions; all sessions are replayed",
     observe=["AbstractBlock.dagger", "QuantumCircuit.dagger", "qadence.run"])

prop("P07", "A model evaluates with its current parameters and nothing else",
     "A model is a circuit, observables and a store of trainable parameter values. Whatever was done before (evaluations, resetting the parameters, giving a trainable parameter as an input for one call, fixing and freeing parameters, copying the model, evaluating or changing another model of the same circuit), an evaluation is that of the current store and the given inputs, in every differentiation mode; only the operations that announce it change the store, and the names and numbers of inputs and trainable parameters the model reports are those of the program.",
     ["histories", "inputs", "configurations"], "all histories of model operations, all programs and observables, all parameter values and batches",
     "Tests call each model operation once on a fixed circuit; sequences of operations and the absence of influence between models and calls cannot be sampled exhaustively.",
     ["qadence/model.py", "qadence/blocks/embedding.py", "qadence/parameters.py", "qadence/engines/torch/differentiable_backend.py"],
     [("parameter store", "qadence/model.py:QuantumModel.vparams, reset_vparams"), ("fixing and freeing", "qadence/model.py:set_as_fixed, set_as_variational"), ("embedding", "qadence/blocks/embedding.py:embedding")],
     "the model as a TLA+ state machine (store, fixed set, log) with exact expected values; quiet steps checked as an action property; sessions of up to 8 operations replayed",
     state=[("store", "values of the trainable parameters", "QuantumModel._params"), ("fixed", "parameters that have been turned into inputs", "QuantumModel._params")],
     observe=["QuantumModel.expectation", "QuantumModel.vparams", "QuantumModel.inputs"])

prop("P09", "What is saved is what is loaded",
     "Serializing a block, circuit or model to a dictionary, JSON or torch file and loading it gives an equal object with the same structure, tags, register, parameter names, trainability and values, denoting the same operator. "
     "A model saved with its parameters (torch format or QuantumModel.save) evaluates after loading exactly as when it was saved, whatever happened to the original in between; the other formats restore the program with its initial values; a stored dictionary can be loaded any number of times.",
     ["programs", "histories", "inputs"], "all programs over the serializable gate set, all histories of saving, changing and loading models, all formats",
     "Tests round-trip a list of objects and mostly compare with ==; histories, tags, nested tags, expressions and values after training are not covered.",
     ["qadence/serialization.py", "qadence/model.py", "qadence/blocks", "qadence/parameters.py", "qadence/register.py", "qadence/serial_expr_grammar.peg"],
     [("entry points", "qadence/serialization.py:serialize, deserialize, save, load"), ("model state", "qadence/model.py:_to_dict, _from_dict, load_params_from_dict"), ("expressions", "qadence/serial_expr_grammar.peg")],
     "saved slots are part of the model state machine; every gate placement is stored and restored exhaustively, sampled sessions save, change and load in four formats",
     state=[("slots", "what was saved in which format", "files and dictionaries")],
     observe=["serialize/deserialize", "save/load", "QuantumModel.save/load"])

prop("P10", "Stored expressions are data and keep their value",
     "A parameter expression has the value its structure prescribes (sums, products, squares of literals and parameters) at all parameter values: evaluated with the parameters' own values or given ones, numerically or differentiably, as a coefficient of a program over a batch, and after storing and loading it, when also the parameters' names, trainability and initial values are as stored. "
     "Loading stored text that is anything else than such an expression (a call of another function, attribute access, an operator, a statement, in whatever nesting) fails, and never executes it.",
     ["inputs", "programs"], "all expression trees over literals and parameters, all parameter values; all texts with a foreign part anywhere in an expression",
     "Tests store a dozen expressions; the space of expression trees and of hostile texts is unbounded, and that something is never executed cannot be sampled.",
     ["qadence/serialization.py", "qadence/parameters.py", "qadence/serial_expr_grammar.peg"],
     [("parsing", "qadence/serialization.py:parse_expr_fn, SerializationModel"), ("evaluation", "qadence/parameters.py:evaluate, torchify"), ("embedding", "qadence/blocks/embedding.py:embedding")],
     "expression trees with exact integer values and a taint for foreign parts; all trees of up to 3 steps exhaustively in the model, sampled ones are rendered, loaded and evaluated with side-effect probes",
     observe=["deserialize", "evaluate", "QuantumModel.run"])

prop("P11", "Training follows its configured schedule",
     "A call of fit performs the epochs 0..max_iter from the iteration it starts at, and each epoch exactly one optimization step per training batch, in the order of the data and limited by the configured number of batches. "
     "Validation takes place before training and at every val_every-th epoch, testing when asked; both evaluate every batch of their data with the current weights and change nothing. "
     "Callbacks, printing and metric writing happen exactly at their stages and periods (never at iteration 0 for a period), with the loss, the phase and the weights of that moment, and an interruption ends the training gracefully with the weights reached.",
     ["histories", "configurations", "schedules"], "all training configurations (periods, batch sizes, batch limits, data sets), all points of interruption, all sequences of calls of fit and test",
     "Tests run a few configurations and count calls of mocks; combinations of periods, batch limits, phases and interruption points are not enumerated.",
     ["qadence/ml_tools/trainer.py", "qadence/ml_tools/train_utils/base_trainer.py", "qadence/ml_tools/callbacks/callback.py", "qadence/ml_tools/callbacks/callbackmanager.py", "qadence/ml_tools/callbacks/writer_registry.py", "qadence/ml_tools/data.py"],
     [("training loop", "qadence/ml_tools/trainer.py:Trainer._fit, _train, run_training, run_train_batch"), ("callback periods", "qadence/ml_tools/callbacks/callback.py:Callback._should_call"), ("callback set", "qadence/ml_tools/callbacks/callbackmanager.py")],
     "the trainer is a TLA+ state machine over an integer weight, so that the whole log of losses, callbacks and writes is exact; small configurations exhaustively, sampled ones replayed with the real Trainer",
     state=[("weight, optimizer state", "what training steps change", "Trainer.model, Trainer.optimizer"), ("iteration", "number of the epoch", "Trainer.current_epoch, opt_result.iteration")],
     observe=["Trainer.fit", "Trainer.test", "Callback", "BaseWriter"])

prop("P12", "Checkpoints capture a training and resuming continues it",
     "Checkpoints are written exactly at the configured iterations (or, in best mode, exactly when the validation loss improves) and hold the weights, the optimizer state and the iteration of that moment. "
     "A training in a folder with checkpoints continues from the newest one as if it had not stopped: weights, momentum, learning rate and numbering of epochs, after a normal end, an interruption or a crash at any point, by the same trainer or a new one; without a checkpoint a new trainer starts from scratch.",
     ["histories", "crash points", "configurations"], "all sequences of fits, interruptions and crashes at any batch, with all checkpoint periods and older checkpoints in the folder",
     "Tests resume once from a prepared folder and check that files exist; crash points and sequences of resumptions are not covered.",
     ["qadence/ml_tools/callbacks/saveload.py", "qadence/ml_tools/callbacks/callback.py", "qadence/ml_tools/trainer.py", "qadence/ml_tools/train_utils/config_manager.py"],
     [("writing and loading", "qadence/ml_tools/callbacks/saveload.py"), ("checkpoint callbacks", "qadence/ml_tools/callbacks/callback.py:SaveCheckpoint, SaveBestCheckpoint, LoadCheckpoint"), ("resuming", "qadence/ml_tools/trainer.py:Trainer._fit")],
     "the folder is part of the trainer state machine; crash and interruption are enabled at every batch; sampled histories of 3 fits replayed with real files in scratch folders",
     state=[("files", "checkpoints by iteration", "log folder")], observe=["Trainer.fit", "load_checkpoint"])

prop("P13", "Early stopping and learning-rate schedules act exactly when due",
     "Early stopping ends a training within the epoch in which the monitored value has failed to improve (in the configured direction) for the configured number of consecutive calls, and in no other case. "
     "Step decay, cyclic and cosine-annealing schedules set the learning rate of each iteration to the value their formula prescribes, at the configured stage and period and also after resuming, and every training step uses the learning rate of its moment.",
     ["histories", "configurations"], "all loss histories, patiences, modes, monitored stages and schedule parameters, combined with interruptions and resumption",
     "Tests call the callbacks a handful of times on a mocked trainer; loss histories with ties, late improvements and combined schedules are not enumerated.",
     ["qadence/ml_tools/callbacks/callback.py", "qadence/ml_tools/trainer.py", "qadence/ml_tools/callbacks/callbackmanager.py"],
     [("early stopping", "qadence/ml_tools/callbacks/callback.py:EarlyStopping"), ("schedules", "qadence/ml_tools/callbacks/callback.py:LRSchedulerStepDecay, LRSchedulerCyclic, LRSchedulerCosineAnnealing")],
     "part of the trainer state machine with exact integer learning rates; all early-stopping and schedule settings exhaustively for 5 epochs, sampled combinations replayed",
     observe=["Trainer.fit", "optimizer.param_groups"])

prop("P02", "The JAX back end computes the same states, expectations and derivatives",
     "For every program and observable of its gate set, the horqrux back end gives the state, the expectation values (for a batch, in the order of the observables) and, through JAX differentiation, the derivatives with respect to features and trainable parameters that the program denotes: "
     "from the zero state or a given one, in either bit order, and with the same names and embedding of parameters as the default back end.",
     ["programs", "inputs", "configurations"], "all programs over the back end's gate set, all observables, parameter valuations, batches and bit orders",
     "Tests compare the two back ends on a few circuits and shared ansatz functions; control placements, nesting, shared parameters and mixed batches are unbounded.",
     ["qadence/backends/horqrux/backend.py", "qadence/backends/horqrux/convert_ops.py", "qadence/engines/jax/differentiable_backend.py", "qadence/engines/jax/differentiable_expectation.py", "qadence/blocks/embedding.py"],
     [("conversion", "qadence/backends/horqrux/convert_ops.py:convert_block, convert_observable"), ("run and expectation", "qadence/backends/horqrux/backend.py:Backend"), ("embedding", "qadence/backends/jax_utils.py, qadence/blocks/embedding.py")],
     "the states, expectation values and derivatives of the same TLA+ denotation as P01, P05 and P08, replayed through backend_factory('horqrux', 'ad')",
     observe=["backend_factory('horqrux')", "jax.grad"])

prop("P06", "Samples follow the exact distribution of the prepared state",
     "Sampling a program gives, for every element of the batch in its order, exactly the requested number of shots as a counter of bit strings over the qubits of the register (in the requested bit order), drawn independently with the exact probabilities |<bits|psi>|^2 of the state psi which the program prepares from the zero or the given state: "
     "an outcome of probability zero is never drawn. It is the same through functions, circuits, models, QNNs and back ends, and inverting the bit order of samples mirrors the strings.",
     ["programs", "inputs", "configurations"], "all programs, parameter valuations, batches, initial states, bit orders and numbers of shots",
     "Tests sample a few circuits with loose tolerances; whether the distribution is right for every program, batch element and bit order cannot be sampled by hand.",
     ["qadence/backends/pyqtorch/backend.py", "qadence/execution.py", "qadence/model.py", "qadence/transpile/invert.py", "qadence/backends/horqrux/backend.py", "qadence/utils.py"],
     [("sampling", "qadence/backends/pyqtorch/backend.py:Backend.sample, qadence/backends/horqrux/backend.py:Backend.sample"), ("entry points", "qadence/execution.py:sample, qadence/model.py:QuantumModel.sample")],
     "exact distributions from the TLA+ denotation; every outcome and every qubit's marginal of each sample is tested with a bound that a right sampler exceeds with probability below exp(-28)",
     observe=["qadence.sample", "QuantumModel.sample", "QNN.sample", "invert_endianness"])

prop("P18", "A noisy program applies its channels, in order, where it was told to",
     "A program whose gates carry digital noise (bit flip, phase flip, depolarising, Pauli, amplitude damping, phase damping, generalised amplitude damping, any sequence of them), given with the gates, set on all gates or on one class of gates, or given to a call, a model or a configuration, evolves the density matrix through each gate followed by its channels in their order: "
     "run, expectation values (and their derivatives) and samples are those of that density matrix, for every batch element, initial state and bit order, and readout errors act on the measured bits with the given confusion probabilities. Flattening, copying, inverting, taking the adjoint and (de)serialising keep the noise of each gate.",
     ["programs", "inputs", "configurations"], "all programs, channel sequences on every gate, error probabilities, ways to specify the noise, batches, initial states and bit orders",
     "Tests check that noisy expectation values are close to or differ from noiseless ones, for single channels on a few circuits.",
     ["qadence/noise/protocols.py", "qadence/transpile/noise.py", "qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/pyqtorch/backend.py", "qadence/blocks/primitive.py", "qadence/operations"],
     [("noise handler", "qadence/noise/protocols.py:NoiseHandler"), ("setting noise on gates", "qadence/transpile/noise.py:set_noise"), ("conversion of noise", "qadence/backends/pyqtorch/convert_ops.py:convert_digital_noise, convert_readout_noise"), ("noisy evaluation", "qadence/backends/pyqtorch/backend.py:Backend.expectation, Backend.sample")],
     "exact density matrices (dyadic channel probabilities) in TLA+; positivity, trace and consistency invariants exhaustively for one gate and each channel, sampled sessions with up to two channels per gate replayed on density matrices, expectations, gradients and samples",
     observe=["qadence.run", "qadence.expectation", "qadence.sample", "QuantumModel", "set_noise"])

prop("P19", "Readout mitigation recovers the distribution before readout errors",
     "Given counts and the confusion probabilities of the device (independent per qubit, or correlated), readout mitigation returns counts with the same total number of shots whose distribution is the probability distribution closest to the inverse confusion matrix applied to the observed frequencies; when the counts are exactly those a true distribution gives through the faulty readout, that true distribution comes back. "
     "Each sample of a list is corrected on its own, the given counts stay as they are, and in a model the correction is applied to the qubits the errors belong to, in either bit order.",
     ["inputs", "configurations"], "all confusion matrices, all observed counts, numbers of qubits and samples, bit orders",
     "Tests compare the result with a reference optimiser for random matrices of one shape and tolerance; asymmetric errors, several samples, bit orders and boundary counts are not enumerated.",
     ["qadence/mitigations/readout.py", "qadence/mitigations/protocols.py", "qadence/noise/protocols.py", "qadence/backends/pyqtorch/backend.py"],
     [("mitigation", "qadence/mitigations/readout.py:mitigation_minimization, mle_solve, tensor_rank_mult"), ("entry", "qadence/mitigations/protocols.py:apply_mitigation"), ("use when sampling", "qadence/backends/pyqtorch/backend.py:Backend.sample")],
     "confusion matrices, the readout transition and the exact Euclidean projection on the simplex in TLA+, whose optimality TLC checks exhaustively on small tables; sampled tables on 1 to 3 qubits are replayed through apply_mitigation and sampling",
     observe=["apply_mitigation", "qadence.sample(noise=, mitigation=)"])

prop("P17", "Measurement protocols estimate the right operator",
     "Every observable made of Pauli operators, N and identities by sums, tensor products and scaling is written as one sum of Pauli words with exact real coefficients (converting it to openfermion and back keeps the operator). Tomography and classical shadows estimate exactly that sum in the prepared state for every batch element, observable and initial state, whatever the bit order asked for: "
     "estimates of words the state stabilises are exact, all others deviate only as much as the statistics of the requested shots allow. Expectation values of given counts are the exact ones for diagonal observables.",
     ["programs", "inputs", "configurations"], "all circuits, observables in any form, batches, initial states, numbers of shots and bit orders",
     "Tests compare estimates with exact values within wide tolerances for a few observables, mostly single words on symmetric states.",
     ["qadence/measurements/tomography.py", "qadence/measurements/shadow.py", "qadence/measurements/utils.py", "qadence/measurements/samples.py", "qadence/blocks/manipulate.py", "qadence/engines/torch/differentiable_expectation.py"],
     [("tomography", "qadence/measurements/tomography.py:compute_expectation"), ("shadows", "qadence/measurements/shadow.py:estimations"), ("counts", "qadence/measurements/samples.py:compute_expectation"), ("Pauli words", "qadence/measurements/utils.py"), ("openfermion", "qadence/blocks/manipulate.py:to_openfermion, from_openfermion")],
     "exact Pauli decompositions, word means and stabilised words in TLA+, checked exhaustively for two-qubit observables of two steps; sampled sessions replayed through tomography, shadows, counts and openfermion with a bound that a right estimate exceeds with probability below exp(-28)",
     observe=["QuantumModel.expectation(measurement=)", "qadence.expectation(measurement=)", "measurements.samples.compute_expectation", "to_openfermion", "from_openfermion"])

prop("P14", "Registers place and connect their qubits as asked",
     "A register made from a lattice (line, rectangle, square outline, triangular, honeycomb, circle, all-to-all), from coordinates or from a graph has the requested qubits at the geometry of that lattice with exactly the requested spacing as its smallest distance, and connects the neighbours of the lattice. "
     "Distances, edge distances, pairs and smallest distance agree with the coordinates; rescaling multiplies all coordinates; storing, loading and using a register in a circuit keep coordinates, edges and device, and registers are equal exactly when these are; no operation changes the register or graph it is given.",
     ["inputs", "histories"], "all lattices and sizes, spacings, coordinates, and sequences of rescaling, respacing, storing and loading",
     "Tests look at a few registers of each kind with one spacing.",
     ["qadence/register.py", "qadence/serialization.py", "qadence/analog/device.py"],
     [("construction", "qadence/register.py:Register"), ("scaling", "qadence/register.py:_scale_node_positions, Register.rescale_coords"), ("(de)serialization", "qadence/register.py:Register._to_dict, _from_dict")],
     "lattices with exact integer squared distances in TLA+ (counts of points and edges, connectedness checked for all sizes up to 3), histories of register operations replayed",
     observe=["Register"])

prop("P24", "Analog blocks evolve under the Hamiltonian of register and device",
     "An analog rotation or free evolution is the evolution, for its duration, under the documented Hamiltonian: drive (amplitude, detuning, phase) on its qubits, the interaction (C6/r^6 NN or C3/r^3 XY) of every pair of the register, and the device's addressing pattern unless the block switches it off. AnalogRX, AnalogRY and AnalogRZ rotate by their angle when there is no interaction. "
     "Programs that mix global and local analog blocks with digital gates give the states, expectation values, derivatives and samples of that evolution, for all parameter values of a batch.",
     ["programs", "inputs", "configurations"], "all registers, devices, sequences of analog and digital blocks, parameter values and batches",
     "Tests compare with pulser within loose tolerances, on registers of few shapes.",
     ["qadence/analog/parse_analog.py", "qadence/analog/hamiltonian_terms.py", "qadence/analog/addressing.py", "qadence/analog/device.py", "qadence/operations/analog.py", "qadence/blocks/analog.py", "qadence/constructors/hamiltonians.py"],
     [("translation", "qadence/analog/parse_analog.py:add_background_hamiltonian"), ("Hamiltonian terms", "qadence/analog/hamiltonian_terms.py"), ("pattern", "qadence/analog/addressing.py:AddressingPattern"), ("blocks", "qadence/operations/analog.py")],
     "the Hamiltonian and duration of every block are specified term by term in TLA+ and checked (each pair once, angles, hermiticity) exhaustively for single blocks; sessions are replayed and compared with the evolution under the specified terms",
     observe=["qadence.run", "QuantumModel", "add_background_hamiltonian"])

prop("P15", "States, density matrices and labels follow one convention",
     "The named states (zero, one, uniform, GHZ, product, random) and the blocks preparing them agree with each other and with the basis labels: bit strings, integers and amplitude indices convert consistently in both bit orders. "
     "Overlap, normalization, density matrices, partial traces onto any ordered list of qubits, purities, entropies and fidelities of (batches of) pure and mixed states have their mathematical values.",
     ["programs", "inputs", "configurations"], "all register sizes, bit strings, batches of states and mixtures, and ordered lists of kept qubits",
     "Tests check Bell and GHZ states, adjacent kept qubits and single-element batches.",
     ["qadence/states.py", "qadence/utils.py", "qadence/overlap.py"],
     [("states and blocks", "qadence/states.py:product_state"), ("density matrices", "qadence/states.py:partial_trace"), ("functionals", "qadence/states.py:fidelity"), ("labels", "qadence/utils.py:basis_to_int")],
     "partial traces, purities, overlaps and mixtures of the states of random programs are computed exactly in TLA+ (trace, hermiticity, equal purity of complementary halves checked exhaustively on small programs) and compared with the functions of qadence.states; labels are enumerated completely",
     observe=["qadence.states", "qadence.utils"])

prop("P21", "All overlap methods compute the overlap of the two prepared states",
     "For two circuits and their parameter values, the methods exact, compute-uncompute, swap test and Hadamard test all give |<bra|ket>|^2, exactly without shots and within sampling error with shots: one value per pair of values when the circuits have different feature parameters, one per batch element otherwise. "
     "The Jensen-Shannon method gives one minus the divergence of the two outcome distributions.",
     ["programs", "inputs", "configurations"], "all pairs of circuits with at most one feature parameter each, values, batches, methods and numbers of shots",
     "Tests use RX feature maps with one parameter on each side and batches of two.",
     ["qadence/overlap.py", "qadence/divergences.py", "qadence/model.py", "qadence/transpile/transpile.py"],
     [("method selection", "qadence/overlap.py:_select_overlap_method"), ("values and shapes", "qadence/overlap.py:Overlap"), ("divergence", "qadence/divergences.py:js_divergence")],
     "exact overlaps of all pairs of states prepared by two random programs over a batch of parameter values are computed in TLA+ (symmetry, Tr(rho sigma)) and compared with every method, with and without shots",
     observe=["Overlap"])

prop("P23", "Blocks and circuits compare equal exactly when they are the same program",
     "Blocks (circuits) that compare equal denote the same operator for all parameter values, whatever their gates, angles, matrices, generators, scale factors, controls, order of factors or nesting. "
     "The same construction, built again or copied, compares equal, and so do sums and tensor products with reordered terms; comparison is symmetric. "
     "Qubit support, number of qubits, parameters, unique parameters and primitive blocks report exactly what occurs in a block.",
     ["programs"], "all pairs of blocks and circuits, in particular those that differ in one detail",
     "Tests compare a few hand-written pairs, mostly equal ones.",
     ["qadence/blocks/primitive.py", "qadence/blocks/composite.py", "qadence/blocks/abstract.py", "qadence/blocks/matrix.py", "qadence/operations/", "qadence/circuit.py", "qadence/parameters.py"],
     [("composite comparison", "qadence/blocks/composite.py:CompositeBlock.__eq__"), ("primitive comparison", "qadence/blocks/primitive.py:ScaleBlock.__eq__, ParametricBlock.__eq__"), ("circuit comparison", "qadence/circuit.py:QuantumCircuit.__eq__"), ("parameters of a block", "qadence/parameters.py:ParamMap")],
     "pairs of random programs that differ by one random rewrite (changed gate, angle, factor, qubit, order, nesting or expression) with the exact equality of their operators and the contents of the program computed in TLA+",
     observe=["==", "AbstractBlock", "QuantumCircuit"])

prop("P20", "Digital and digital-analog forms of an evolution are that evolution",
     "Digitalizing a program (U gates, evolutions under sums, products and multiples of Paulis, identities and number operators) leaves only elementary gates and, when the terms commute, denotes the same operator for all parameter values; otherwise the first-order result is the product of the exponentials of the terms in their order and higher orders approximate the evolution accordingly. "
     "The digital-analog transform yields the evolution under the target couplings (ZZ or NN) from evolutions under the given device couplings only, up to a global phase if asked, and refuses targets that the device cannot reach.",
     ["programs", "inputs"], "all Pauli generators, durations (also parametric and batched), positions in a program, coupling strengths and numbers of qubits",
     "Tests decompose a few generators without repeated, nested or identity factors, and transform random generators of one form.",
     ["qadence/transpile/digitalize.py", "qadence/decompose.py", "qadence/operations/ham_evo.py", "qadence/constructors/daqc/daqc.py", "qadence/constructors/daqc/gen_parser.py", "qadence/constructors/daqc/utils.py"],
     [("digitalization", "qadence/transpile/digitalize.py:digitalize"), ("product formulas", "qadence/decompose.py:lie_trotter_suzuki"), ("transform", "qadence/constructors/daqc/daqc.py:daqc_transform")],
     "generators are built by the block machine, expanded into terms in TLA+ (the terms add up to the generator, commuting exponentials may be exchanged: checked exhaustively) and the exact operator of the program compared with the digital one; phases of digital-analog programs are exact, sign patterns and the mapping of NN to ZZ couplings are checked exhaustively",
     observe=["digitalize", "daqc_transform"])

prop("P16", "Constructors build exactly the circuits and Hamiltonians they describe",
     "Hardware-efficient, alternating-layer and identity-initialised ansaetze (digital and digital-analog), feature maps (all bases, scalings, ranges, multipliers and trainable prefixes), exponential and Rydberg maps and ansaetze, Hamiltonians on registers and the Fourier transform denote the operator that their arguments determine, on the qubits of the support and in the order given. "
     "Their trainable parameters have the documented names, each gate its own; the identity-initialised ansatz starts as the identity; strengths are attached to the qubits and edges they are given for, random ones are independent; the transform is the discrete Fourier transform for any number and order of qubits, its inverse undoes it.",
     ["arguments", "inputs", "parameter values"], "all sizes, depths, supports, gate sets, entanglers, ranges, scalings and interaction graphs",
     "Tests count blocks and parameters or check a few sizes with default arguments; values on permuted supports and at greater depths are not compared.",
     ["qadence/constructors/hea.py", "qadence/constructors/ala.py", "qadence/constructors/iia.py", "qadence/constructors/feature_maps.py", "qadence/constructors/hamiltonians.py", "qadence/constructors/qft.py", "qadence/constructors/rydberg_hea.py", "qadence/constructors/rydberg_feature_maps.py", "qadence/constructors/utils.py"],
     [("ansaetze", "qadence/constructors/hea.py:hea_digital"), ("identity start", "qadence/constructors/iia.py:iia"), ("feature map", "qadence/constructors/feature_maps.py:feature_map"), ("Hamiltonians", "qadence/constructors/hamiltonians.py:hamiltonian_factory"), ("Fourier transform", "qadence/constructors/qft.py:qft")],
     "the constructions are operators of TLA+ over the circuit syntax whose exact matrices are compared with the models'; each family and index of a parameter has a different angle, so that exchanged, shared or missing parameters show; identity start, pairs, hermiticity and the transform's definition against its gates are checked exhaustively",
     observe=["hea", "ala", "iia", "feature_map", "hamiltonian_factory", "qft", "rydberg_hea", "QuantumModel.run"])

prop("P22", "A network built from configurations is the network they describe",
     "For every feature-map, ansatz and observable configuration, QNN.from_configs yields the network whose circuit interleaves the layers of the feature map (each feature uploaded its number of times, in parallel on its part of the register or in series on all of it, with its own basis, scaling and ranges) with one-layer ansaetze of the configured kind, then the ansatz of the configured depth and kind. "
     "Its outputs, one per observable configuration, are scale times the Hamiltonian plus the shift; columns of the inputs belong to the features in the given order; trainable parameters have the documented names.",
     ["configurations", "inputs", "parameter values"], "all combinations of configuration options, numbers of qubits and features, and batches of inputs",
     "Tests build networks from sample configurations and mostly compare shapes or block types, not the values of the outputs.",
     ["qadence/ml_tools/constructors.py", "qadence/ml_tools/config.py", "qadence/ml_tools/models.py", "qadence/constructors/hamiltonians.py"],
     [("feature map layers", "qadence/ml_tools/constructors.py:create_fm_blocks"), ("ansatz", "qadence/ml_tools/constructors.py:create_ansatz"), ("network", "qadence/ml_tools/constructors.py:build_qnn_from_configs"), ("configurations", "qadence/ml_tools/config.py:FeatureMapConfig")],
     "a session of TLA+ chooses the configurations step by step, composes the circuit from the constructions of P16 and gives exact outputs for a batch; numbers of layers, the split of the register and the names of parameters are checked exhaustively for the structural options",
     observe=["QNN.from_configs", "QNN.forward", "QNN.vparams"])

SPECS = {"P16": "`Construct`, `MCConstruct`", "P22": "`Construct`, `MCConfig`", "P20": "`MCDigital`, `MCDaqc`", "P23": "`MCEqual`", "P15": "`MCState`, `MCBasis`", "P21": "`MCState`", "P14": "`Lattice`, `MCRegister`", "P24": "`MCAnalog`", "P17": "`MCMeasure`", "P18": "`MCNoise`", "P19": "`MCMitigate`", "P02": "`Jets`, `MCExpect`", "P06": "`MCSample`", "P01": "`Blocks`, `MCCompose`", "P03": "`MCPasses`", "P04": "`MCDagger`", "P05": "`MCExpect`", "P07": "`MCModel`", "P08": "`Jets`, `MCExpect`",
         "P09": "`MCModel`, `MCCompose`", "P10": "`MCExpr`", "P11": "`MCTrainer`", "P12": "`MCTrainer`", "P13": "`MCTrainer`"}
TECH = "TLA+ specification checked with TLC; its behaviours are replayed into the real code and every observation is compared"

def main():
    PROPS.sort(key=lambda p: p[0]["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p, _ in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(p) + "\n")
    checks = []
    for p, note in PROPS:
        i = p["id"]
        checks.append(dict(property=i, quick_cmd=f"bash /verif/check.sh {i} quick", thorough_cmd=f"bash /verif/check.sh {i} thorough", technique=TECH,
                           level="model_checking", level_note=note))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=[]), fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
