"""single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "qadence/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=list(observe)))


prop("P01", "Running a program applies exactly its gates, in order, to the given state",
     "For every circuit built from the public operations (fixed, rotation, controlled, matrix, projector and evolution blocks, sums, scales, powers, any nesting) and every parameter assignment, running it returns the product of the operations' matrices in program order applied to the initial state, qubit 0 being the most significant bit unless little endian is asked for. Batches of values or states give one such state per element, and unused register qubits are left alone.",
     ["programs", "inputs"], "all programs over the gate alphabet, all qubit placements, all parameter kinds and batch shapes",
     "tests run a few fixed circuits and compare with hand-picked states; they do not vary placement, ordering, nesting, constants and parameter kind together",
     [Q + "backends/pyqtorch/convert_ops.py", Q + "backends/pyqtorch/backend.py", Q + "execution.py", Q + "model.py", Q + "blocks/embedding.py", Q + "parameters.py", Q + "transpile/block.py"],
     [("block conversion", Q + "backends/pyqtorch/convert_ops.py:convert_block"), ("default passes", Q + "backends/pyqtorch/config.py:default_passes")],
     "bounded exhaustive enumeration of programs on the real simulator against a numpy reference model",
     "every program of the alphabet within the bounds is executed and compared amplitude by amplitude; nothing above 4 qubits / depth 4 is claimed",
     ["run", "QuantumModel.run"])

prop("P02", "The matrix of a block is its operator, on any support, ordering and batch",
     "Converting a block to a matrix yields the operator the block stands for on the requested qubits (ascending order, identity on the others), for every placement and order of a gate's qubits, both endiannesses, every batch of parameter values, and in dense as well as sparse-diagonal form.",
     ["programs", "inputs"], "all gates and placements, all 3-leaf compositions, all support/endianness/batch options",
     "tests compare with the simulator on a few random circuits over contiguous sorted supports",
     [Q + "blocks/block_to_tensor.py", Q + "blocks/matrix.py"],
     [("identity filling", Q + "blocks/block_to_tensor.py:_fill_identities"), ("recursion", Q + "blocks/block_to_tensor.py:_block_to_tensor_embedded")],
     "bounded exhaustive enumeration of operators and conversion options against a numpy reference model",
     "every operator and option combination within the bounds is converted and compared entry by entry", ["block_to_tensor"])

prop("P03", "Block algebra means operator algebra and never alters its operands",
     "The operators * @ + - ** and unary minus, their in-place forms, and the chain/kron/add builders yield blocks whose operator is the corresponding product, tensor product, sum, difference, power or multiple of the operands' operators. No such expression changes an operand, which can be reused in later expressions with its original meaning.",
     ["histories", "programs"], "all sequences of algebra operations up to the bound over a pool of shared blocks",
     "tests check the types of a few expressions, not the operators denoted after long histories with shared operands",
     [Q + "blocks/abstract.py", Q + "blocks/composite.py", Q + "blocks/primitive.py", Q + "blocks/utils.py", Q + "operations/primitive.py"],
     [("operator overloads", Q + "blocks/abstract.py"), ("constructor flattening", Q + "blocks/utils.py:_construct")],
     "explicit-state search over histories of block-algebra operations against a matrix model",
     "all histories up to the bound; after every step every live operand is re-evaluated", ["block operators"])

prop("P04", "dagger() is the adjoint of any block",
     "For every block, dagger() denotes the conjugate transpose of the block's operator for all parameter values; applying it twice gives back the original operator, a unitary followed by its dagger leaves every state unchanged, and the original block is not modified.",
     ["programs", "inputs"], "all gates and placements, all compositions of up to 3 leaves, all parameter kinds",
     "the dagger tests check types and a few gates; U, matrices, projectors and tensor evolutions were never compared with the adjoint",
     [Q + "blocks/primitive.py", Q + "blocks/composite.py", Q + "operations/", Q + "parameters.py"],
     [("dagger methods", Q + "blocks/primitive.py"), ("dagger_expression", Q + "parameters.py:dagger_expression")],
     "bounded exhaustive enumeration of blocks against the adjoint of a numpy reference matrix",
     "every block of the alphabet and composition within the bounds", ["AbstractBlock.dagger"])

prop("P05", "Transpilation preserves what a block or circuit computes",
     "Every rewriting pass (flattening, identity filling, scale propagation, single-qubit chaining, endianness inversion and qubit reassignment, setting parameters trainable or fixed, conversion to and from OpenFermion, digitalisation of commuting evolutions) and every pipeline of passes yields a block or circuit with the same operator, parameters and register as its input, up to the relabelling the pass documents. Except for the in-place parameter setters, the input object is left as it was.",
     ["programs", "histories"], "all pass pipelines up to the bound over all programs of the alphabet",
     "tests apply single passes to a few blocks and compare structure; they do not compose passes or compare operators",
     [Q + "transpile/", Q + "blocks/manipulate.py", Q + "decompose.py", Q + "circuit.py"],
     [("passes", Q + "transpile/block.py"), ("flatten", Q + "transpile/flatten.py")],
     "exhaustive enumeration of pass pipelines x programs, each step checked against the reference operator",
     "all pipelines up to length 2 (3 thorough) over the program alphabet", ["transpile"])

prop("P06", "Serialisation round trips reproduce the object",
     "Serialising a parameter expression, block, circuit, register, model or quantum neural network and deserialising the result (directly, through JSON text, or through a file in either format) yields an object that computes the same results for all inputs, has the same parameters with the same values and roles, and the same tags, noise, register and observables.",
     ["programs", "configurations"], "all block kinds, placements, compositions, expressions, registers and model configurations within the bounds",
     "tests round trip a dozen fixed circuits and compare with an equality that ignores most contents",
     [Q + "serialization.py", Q + "serial_expr_grammar.peg", Q + "blocks/primitive.py", Q + "blocks/composite.py", Q + "parameters.py", Q + "register.py", Q + "circuit.py", Q + "model.py", Q + "ml_tools/models.py", Q + "noise/protocols.py", Q + "measurements/protocols.py"],
     [("serialize/deserialize", Q + "serialization.py"), ("_to_dict/_from_dict", Q + "blocks/primitive.py")],
     "bounded exhaustive enumeration of objects x transports, round-tripped object compared by computed results",
     "every object of the alphabets through every transport; equality is judged on results, not on internal structure",
     ["serialize", "deserialize", "save", "load"])

prop("P07", "Expectation values equal the observables' quadratic forms",
     "For every circuit, initial state, parameter assignment and list of observables (scaled, summed, parametric), the exact expectation value returned is <psi|O|psi> for each batch element (rows) and each observable (columns), identically through the functional interface, the model, and looped evaluation.",
     ["programs", "inputs", "configurations"], "all programs x observables x batch shapes x entry points within the bounds",
     "tests compare a few circuits against known numbers; batches times several parametric observables are not crossed",
     [Q + "backends/pyqtorch/backend.py", Q + "engines/differentiable_backend.py", Q + "execution.py", Q + "model.py"],
     [("batched and looped expectation", Q + "backends/pyqtorch/backend.py")],
     "bounded exhaustive enumeration of circuit x observable x batch x entry point against a numpy reference",
     "all combinations within the bounds", ["expectation", "QuantumModel.expectation"])

prop("P08", "Every gate receives the value of its own parameter expression",
     "For any assignment of variational, feature and constant parameters and any expressions over them, shared or distinct, scalar or batched, each gate is evaluated at the value of its own expression, whichever parameter convention (expression level or gate level) is used. Missing feature values are rejected rather than defaulted, and changing a variational value changes exactly the gates that depend on it.",
     ["inputs", "programs"], "all small expressions over shared parameters, all constant pairs, all batch shapes",
     "tests embed a few circuits; they do not cross constants, sharing, batching and convention",
     [Q + "blocks/embedding.py", Q + "parameters.py", Q + "blocks/utils.py", Q + "backend.py", Q + "backends/utils.py"],
     [("embedding function", Q + "blocks/embedding.py:embedding"), ("stringify", Q + "parameters.py:stringify")],
     "bounded exhaustive enumeration of expression assignments against an interpreter of the expressions",
     "all expression pairs, parameter kinds and batch shapes within the bounds", ["embedding", "evaluate"])

prop("P09", "All differentiation modes return the derivative of the expectation value",
     "For every unitary circuit and observable a mode accepts, the gradient of an expectation value with respect to any feature, variational or observable parameter, obtained by automatic differentiation, the adjoint method or generalised parameter shift, equals the derivative of the exact expectation value, as does the second derivative in the modes that support it. The expectation values themselves agree across modes.",
     ["programs", "inputs", "configurations"], "all parametric gates, pairs of gates with shared parameters, observables, batch shapes and modes",
     "tests compare modes on a few circuits with loose tolerances",
     [Q + "engines/torch/", Q + "backends/parameter_shift_rules.py", Q + "backends/agpsr_utils.py", Q + "backends/pyqtorch/backend.py"],
     [("PSR", Q + "backends/parameter_shift_rules.py"), ("adjoint", Q + "engines/torch/differentiable_expectation.py")],
     "bounded exhaustive enumeration of circuits x modes against exact derivatives of the reference model",
     "all circuits within the bounds; derivatives of the reference by complex-step-quality central differences",
     ["expectation gradients"])

prop("P10", "The JAX simulator computes the same results as the reference",
     "For every circuit, observable and parameter value the JAX backend supports, its states, expectation values and gradients equal those of the reference semantics, with the same qubit ordering and endianness conventions as the default simulator.",
     ["programs", "inputs"], "all gates and placements supported by the backend, pairs of gates, observables",
     "tests compare a handful of circuits between backends",
     [Q + "backends/horqrux/", Q + "engines/jax/", Q + "backends/jax_utils.py"],
     [("conversion", Q + "backends/horqrux/convert_ops.py")],
     "bounded exhaustive enumeration of programs on the JAX backend against a numpy reference",
     "all programs within the bounds", ["run", "expectation"])

prop("P11", "Sampling draws bit strings from the state's distribution",
     "Sampling returns, per batch element, counts that add up to the number of shots, over bit strings as long as the register, drawn from the squared amplitudes of the circuit's final state, with the requested endianness; only outcomes of non-zero probability ever appear, and for basis-state outcomes every shot reports that bit string.",
     ["programs", "inputs", "configurations"], "all basis-state programs, all small programs' outcome supports, all shots/endianness/batch options",
     "tests sample a few circuits and check sums or divergences statistically",
     [Q + "backends/pyqtorch/backend.py", Q + "execution.py", Q + "model.py", Q + "utils.py", Q + "states.py"],
     [("sample", Q + "backends/pyqtorch/backend.py:sample")],
     "exhaustive enumeration of permutation programs and outcome supports; probability vector intercepted at the sampler seam",
     "all programs within the bounds; the distribution handed to the random generator is compared exactly, no statistical test decides",
     ["sample", "QuantumModel.sample"])

prop("P12", "State preparation and bit-order utilities are exact inverses and consistent",
     "Product, uniform, one-state, zero-state and GHZ constructors return the states they name for every bit string and batch size, their block counterparts prepare the same states, and fidelity, normalisation, overlap, purity and partial-trace utilities match their definitions. Reversing endianness of states, arrays, density matrices and counts is the bit-reversal permutation and its own inverse, and integer/bit-string conversions agree with it.",
     ["inputs"], "all bit strings up to the bound, all batch sizes, all permutations",
     "tests use a few fixed bit strings",
     [Q + "states.py", Q + "utils.py"], [("states", Q + "states.py"), ("endianness", Q + "utils.py")],
     "exhaustive enumeration of bit strings, batch sizes and permutations against definitions",
     "all inputs within the bounds", ["states and utils functions"])

prop("P13", "Registers and generated Hamiltonians contain exactly the specified terms",
     "A register built from any lattice constructor, coordinates or graph reports the positions, edges, distances and supports that geometry implies; rescaling a register multiplies its coordinates and changes neither the original nor the caller's graph. The Hamiltonian generated for a register or qubit count, any interaction, detuning, strengths and options is exactly the sum over the requested edges and nodes with the requested coefficients.",
     ["inputs", "configurations"], "all small registers and graphs, all interaction/detuning/strength/option combinations",
     "tests build a few registers and check counts of terms",
     [Q + "register.py", Q + "constructors/hamiltonians.py", Q + "constructors/utils.py"],
     [("Register", Q + "register.py"), ("hamiltonian_factory", Q + "constructors/hamiltonians.py")],
     "exhaustive enumeration of registers/graphs x options against a direct geometric model",
     "all graphs up to 4 nodes and all option combinations within the bounds", ["Register", "hamiltonian_factory"])

prop("P14", "Analog blocks evolve the register under the Rydberg Hamiltonian they describe",
     "Running or converting analog rotations, waits and interactions, chained or in parallel (parallel blocks are executed one after the other, as documented), on any device and register equals evolving with the drive on exactly the addressed qubits plus the always-on interaction of all register atoms (and the addressing pattern), for the specified durations; durations and supports reported for compositions are those of the parts.",
     ["programs", "configurations"], "all analog programs up to the bound x registers x devices x supports",
     "tests check a few analog circuits on one register against simulated pulses",
     [Q + "analog/", Q + "operations/analog.py", Q + "blocks/analog.py"],
     [("background Hamiltonian", Q + "analog/parse_analog.py:add_background_hamiltonian"), ("terms", Q + "analog/hamiltonian_terms.py")],
     "bounded exhaustive enumeration of analog programs x registers x devices against a numpy Rydberg model",
     "all programs within the bounds", ["run of analog blocks"])

prop("P15", "Noise specifications compose predictably",
     "A noise handler built through any sequence of constructors, appends, filters and dictionary round trips contains exactly the protocols and options added, in order, and two handlers are equal exactly when these agree; combinations the library documents as invalid are rejected at every step, and building one handler never changes another.",
     ["histories"], "all operation histories up to the bound",
     "tests build a few handlers",
     [Q + "noise/protocols.py"], [("NoiseHandler", Q + "noise/protocols.py")],
     "explicit-state breadth-first search over operation histories of the real object against a list model",
     "all histories up to the bound; states deduplicated on (protocols, options)", ["NoiseHandler"])

prop("P16", "Digital and readout noise act as the specified channels, only where requested",
     "A circuit with digital noise on some or all gates produces the density matrix obtained by applying, after each noisy gate and on its target qubit (the first one when there are several), the specified channels in order; readout noise transforms outcome probabilities by the specified confusion matrix. Filters restrict noise to the requested gates, and noise given to one call, model or block does not affect others or the noiseless result.",
     ["programs", "configurations", "histories"], "all channels x gates x placements x programs, all sequences of noisy/noiseless calls",
     "tests compare a few noisy runs with pyqtorch directly and do not interleave noisy and noiseless use",
     [Q + "noise/protocols.py", Q + "backends/pyqtorch/convert_ops.py", Q + "backends/pyqtorch/backend.py", Q + "transpile/noise.py"],
     [("set_noise", Q + "transpile/noise.py"), ("convert_digital_noise", Q + "backends/pyqtorch/convert_ops.py")],
     "bounded exhaustive enumeration of noisy programs against a Kraus-operator reference, and of call histories",
     "all combinations within the bounds", ["run/expectation/sample with noise"])

prop("P17", "Training can be interrupted at any checkpoint and resumed from it",
     "A checkpoint written during training restores exactly the model parameters and optimiser state it was written with, at the iteration it names. Resuming from a folder picks the latest (or best, or named) usable checkpoint of this model and optimiser, whatever the checkpoint interval, other files and interruption point (including while a file is being written), and continues from its parameters, optimiser state and iteration, so that n more epochs give what an uninterrupted training gives. Nothing is taken from files of other models or left half restored.",
     ["histories", "crash_points"], "all checkpoint intervals x interruption points x resume histories x contents of the folder",
     "tests save and load once",
     [Q + "ml_tools/callbacks/saveload.py", Q + "ml_tools/trainer.py", Q + "ml_tools/callbacks/callback.py", Q + "ml_tools/callbacks/callbackmanager.py"],
     [("checkpoint files", Q + "ml_tools/callbacks/saveload.py")],
     "fault enumeration: every interruption point and folder history of real training runs against a dictionary model",
     "all interruption points and histories within the bounds", ["Trainer", "load_checkpoint"])

prop("P18", "A model's results depend only on its own parameters and the call's arguments",
     "For any sequence of operations on a quantum model or quantum neural network (run, sample, expectation and their gradients, parameter reads and updates, resets, trainability changes, state dict and dictionary save/load, deep copies), each answer equals that of a freshly built model with the same parameter values. No such call changes parameters other than the ones it names, the caller's inputs, the circuit, or a copy or sibling of the model.",
     ["histories"], "all operation sequences up to the bound on one or two models sharing a circuit",
     "tests call one method on one fresh model",
     [Q + "model.py", Q + "ml_tools/models.py", Q + "ml_tools/parameters.py"],
     [("QuantumModel", Q + "model.py")],
     "explicit-state search over operation histories of the real model against a dictionary model",
     "all histories up to the bound", ["QuantumModel"])

prop("P19", "Overlap methods all measure the same fidelity",
     "For every pair of circuits and parameter batches, the overlap computed exactly, or by compute-uncompute, the swap test or the Hadamard test without shots, equals the squared modulus of the inner product of the two final states for each pair of batch elements; shot-based estimates of these and the Jensen-Shannon overlap are the documented functions of counts drawn from the correct distributions. Parameters the two circuits share have a single value.",
     ["programs", "inputs"], "all pairs of small programs x methods x batch shapes",
     "tests use one or two circuit pairs",
     [Q + "overlap.py"], [("Overlap", Q + "overlap.py")],
     "bounded exhaustive enumeration of circuit pairs x methods against inner products of reference states",
     "all pairs within the bounds", ["Overlap"])

prop("P20", "Measurement protocols estimate the observable they are given",
     "On the default simulator, tomography of any (scaled, summed, nested, parametric) Pauli observable returns the exact expectation value, for every state and batch element, when each measured basis reports its exact outcome frequencies; classical shadows do so when all bases and outcomes occur with their exact frequencies, and use the documented number of rounds. The protocol is honoured by every entry point with or without parameter-shift differentiation and alters neither circuit nor observable.",
     ["inputs", "programs"], "all Pauli observables up to the bound x states; all basis choices and outcomes",
     "tests run statistical comparisons on a few observables",
     [Q + "measurements/"], [("tomography", Q + "measurements/tomography.py"), ("shadow", Q + "measurements/shadow.py")],
     "exhaustive enumeration of observables, bases and outcomes with the random source replaced by full enumeration",
     "all within the bounds; no statistical test decides", ["Measurements", "expectation(measurement=...)"])

prop("P21", "Readout mitigation inverts readout noise",
     "Mitigating outcome counts by the constrained-inverse or maximum-likelihood method, with independent readout errors of each qubit, returns the counts of the original distribution whenever the noisy frequencies are exactly those the errors produce, leaves noiseless counts unchanged, and always returns whole, non-negative counts that add up to the shots taken. This holds for either endianness, every element of a batch, and models rebuilt from their serialised form.",
     ["inputs"], "all small count tables x error rates x methods x starting points of the optimiser",
     "tests use a few random distributions with tolerance",
     [Q + "mitigations/"], [("readout", Q + "mitigations/readout.py")],
     "bounded exhaustive enumeration of count tables, distributions and confusion matrices against exact inversion",
     "all within the bounds", ["Mitigations"])

prop("P22", "Circuit constructors build the circuits they document",
     "For every size, qubit order and option, feature maps, hardware-efficient, alternating-layer, identity-initialised and Rydberg ansaetze contain the documented gates on the documented qubits in order, with one own trainable parameter per parametric gate named after the prefix, and encode the documented function of the input. The quantum Fourier transform and the digital-analog transform are the exact unitaries for every option they accept, built from the given interaction only; identity-initialised ansaetze start as the identity. Unsupported requests are refused.",
     ["configurations"], "all option combinations within the bounds",
     "tests sample a few option combinations",
     [Q + "constructors/"], [("hea", Q + "constructors/hea.py"), ("feature_map", Q + "constructors/feature_maps.py"), ("qft", Q + "constructors/qft.py")],
     "exhaustive enumeration of constructor configurations against independently built reference circuits",
     "all option combinations within the bounds", ["feature_map", "hea", "qft"])

prop("P23", "Hamiltonian evolution and its digital decomposition agree",
     "Evolving with any Hermitian generator, given as a block or a matrix, for any time equals the exact matrix exponential on the right qubits; time-dependent generators follow the Schroedinger equation; the digital decomposition equals the evolution exactly for commuting terms and converges to it at the documented order otherwise.",
     ["programs", "inputs"], "all Pauli generators up to the bound x times x supports x orders",
     "tests decompose a few Hamiltonians",
     [Q + "operations/ham_evo.py", Q + "decompose.py", Q + "transpile/digitalize.py"],
     [("decomposition", Q + "decompose.py")],
     "bounded exhaustive enumeration of generators x times x orders against matrix exponentials",
     "all generators within the bounds", ["HamEvo"])

prop("P24", "Equal blocks are interchangeable; different ones are told apart",
     "Comparing blocks, circuits, registers and parameters never fails for supported objects, is reflexive and symmetric, has no side effects, and holds only between objects that compute the same operator for all parameter values; structurally identical objects built separately are equal. Membership tests agree with it.",
     ["inputs", "programs"], "all pairs of blocks of the alphabet within the bounds",
     "tests compare a few equal and unequal pairs",
     [Q + "blocks/primitive.py", Q + "blocks/composite.py", Q + "circuit.py", Q + "register.py"],
     [("__eq__", Q + "blocks/primitive.py")],
     "exhaustive enumeration of object pairs against operator equality of the reference",
     "all pairs within the bounds", ["=="])

prop("P25", "Training runs every stage, callback and evaluation exactly when scheduled",
     "For every combination of epochs, batches per epoch, callback periods, and validation/logging/checkpoint settings, training (epochs numbered from the start epoch to start plus max_iter, both included) performs one optimiser step per training batch on that batch's data, evaluates validation and test data on schedule without changing the model, fires each callback at its stage and period as documented, and reports the losses actually computed; gradient-free and gradient-based optimisation follow the same schedule, and repeated fits do not leak state.",
     ["configurations", "schedules", "histories"], "all small training configurations",
     "tests train with one configuration and check that it ends",
     [Q + "ml_tools/trainer.py", Q + "ml_tools/callbacks/", Q + "ml_tools/data.py", Q + "ml_tools/optimize_step.py", Q + "ml_tools/train_utils/"],
     [("fit loop", Q + "ml_tools/trainer.py")],
     "exhaustive enumeration of training configurations; recorded event traces compared with a reference schedule",
     "all configurations within the bounds", ["Trainer.fit"])

prop("P26", "Loading a serialised expression never executes foreign code",
     "Deserialising a parameter expression accepts exactly what the serialiser produces for symbolic expressions and rejects with an error, before evaluating anything, every string containing calls, attribute accesses, operators or names outside that grammar.",
     ["inputs"], "all token strings up to the bound",
     "tests try two injections",
     [Q + "serialization.py", Q + "serial_expr_grammar.peg"],
     [("grammar check", Q + "serialization.py:parse_expr_fn")],
     "exhaustive enumeration of token strings up to a length, with evaluation replaced by a recording stand-in",
     "all strings over the token alphabet up to the bound", ["deserialize"])

prop("P27", "Models built from configurations contain what the configurations say",
     "A quantum neural network built from feature-map, ansatz and observable configurations encodes each input column with the configured gate, basis, scaling and ranges on the configured qubits, as often as requested, with one ansatz layer between uploads; it has the configured ansatz (type, strategy, depth, operations, entangler, block size) with its own trainable parameter per parametric gate, and returns, per observable configuration, scale times the expectation of the described observable plus shift. An operation incompatible with the chosen strategy takes precedence. Convolutional networks contain the documented layers. Derivatives of a model with respect to chosen input columns are the derivatives of its output. Invalid configurations are refused.",
     ["configurations", "inputs"], "all combinations of configuration fields within the bounds",
     "tests build a few configurations and check shapes",
     [Q + "ml_tools/constructors.py", Q + "ml_tools/config.py", Q + "ml_tools/models.py", Q + "ml_tools/qcnn_model.py"],
     [("build_qnn_from_configs", Q + "ml_tools/constructors.py"), ("FeatureMapConfig", Q + "ml_tools/config.py")],
     "exhaustive enumeration of configurations against gate lists and outputs derived independently from the configuration",
     "all configurations within the bounds", ["QNN.from_configs"])


prop("P28", "What blocks and circuits report about themselves is true",
     "The eigenvalues and generators reported for a gate, matrix or scaled block are those of the operator the block implements; the spectral gaps are the differences of its generator's eigenvalues; an evolution's generator and parameter are those it was built from. The qubit support, number of qubits, depth of nesting, parameters, generators and whether a Hamiltonian commutes reported for a block agree with its contents. Blocks found in a circuit by tag are exactly those carrying the tag, with their parameters. The printed mathematical expression of a Hamiltonian denotes that Hamiltonian.",
     ["programs"], "all blocks within the bounds",
     "tests compare a few hand-written eigenvalues and strings",
     [Q + "blocks/abstract.py", Q + "blocks/primitive.py", Q + "blocks/composite.py", Q + "blocks/utils.py", Q + "operations/ham_evo.py", Q + "operations/control_ops.py", Q + "circuit.py", Q + "mathematical_expressions.py"],
     [("eigenvalues_generator", Q + "blocks/primitive.py"), ("get_blocks_by_tag", Q + "circuit.py")],
     "exhaustive enumeration of blocks; reported facts against numpy spectra and a walk over the block's own description",
     "all gates, placements, trees and tag histories within the bounds", ["block.eigenvalues", "circuit.get_blocks_by_tag"])
prop("P29", "Data, analysis and training helpers compute what they document",
     "Data loaders deliver every sample exactly once per pass, aligned, in batches of the requested size (endlessly when infinite); moving data to a device or dtype changes nothing else, for any nesting of lists, tuples, dicts and loaders. Reading and writing a model's parameters as a vector or a dictionary touches exactly its trainable parameters; random features are values for exactly the features of circuit and observables. Divergences of counts, norm differences, finite differences of any mixed order, promotion of tensors and the information content of a loss landscape (with its bounds, in the trainer too) equal their definitions.",
     ["inputs", "histories"], "all sizes, batch sizes, nestings, dtypes, orders of derivatives, count tables and programs within the bounds",
     "tests check one dataset or one function each; a lost sample, a shifted parameter or a wrong bound shows only for particular sizes, orders or programs",
     [Q + "ml_tools/data.py", Q + "ml_tools/parameters.py", Q + "ml_tools/tensors.py", Q + "ml_tools/utils.py", Q + "ml_tools/information/information_content.py", Q + "divergences.py", Q + "utils.py"],
     [("to_dataloader", Q + "ml_tools/data.py"), ("InformationContent", Q + "ml_tools/information/information_content.py")],
     "exhaustive enumeration of datasets, nestings, programs, count tables and derivative orders on the real helpers; oracle: their definitions, in numpy and exact arithmetic; shuffles dictated over all permutations",
     "all cases within the bounds, including all permutations of small datasets", ["to_dataloader", "finitediff", "js_divergence", "InformationContent"])

prop("P30", "Distributed training equals sequential training with the mean gradient",
     "When training runs in n processes (spawned or launched with torchrun), every process sees its share of the samples of each epoch, the parameters after every step are, in every process and in the model returned, those of a training in one process with the mean of the processes' gradients, whatever the relative speed of the processes. Losses and metrics are averaged where asked, callbacks and stops act consistently, checkpoints written are usable by the model they were made from, resumed and repeated trainings continue from the same state in every process, and rank, world size and backend are those of the launch.",
     ["schedules", "histories"], "all interleavings of the processes' computations and updates, all launches and histories within the bounds",
     "tests run one process or check the accelerator's bookkeeping; wrong averaging or a hang depends on the number of processes and on what ran before",
     [Q + "ml_tools/train_utils/accelerator.py", Q + "ml_tools/train_utils/distribution.py", Q + "ml_tools/train_utils/strategy.py", Q + "ml_tools/trainer.py", Q + "ml_tools/callbacks/saveload.py"],
     [("Accelerator.distribute", Q + "ml_tools/train_utils/accelerator.py"), ("Distributor", Q + "ml_tools/train_utils/distribution.py")],
     "stateless exploration of all orders of the actions of the processes (forked, controlled by a scheduler) and of all histories of launches; reference: sequential training with the mean gradient",
     "all linear extensions of 2x3 and 3x1 steps, all configurations and histories within the bounds", ["Trainer.fit"])

prop("P31", "The Pulser backend computes the same program as the mathematics says",
     "For every program the Pulser backend accepts (single-qubit rotations by any angle, analog rotations and waits on interacting registers, addressing patterns), on every device it supports, the state, samples and expectation values obtained through the pulses are, up to a global phase and the resolution of the pulses, those of the Hamiltonians the blocks describe; so are parameters with values of either sign and batches of them, initial states, endianness, parametric observables, gradients, and expectation values under analog noise (the Lindblad equation). Calls on a model do not affect later ones. Programs the pulses cannot express are refused, never simplified.",
     ["inputs", "histories"], "all letters and words of blocks, angles, registers, devices, initial states and call histories within the bounds",
     "tests compare a few positive rotations at rest; a sign, a phase or a lost noise setting shows only for particular angles, observables, devices and call histories",
     [Q + "backends/pulser/backend.py", Q + "backends/pulser/pulses.py", Q + "backends/pulser/waveforms.py", Q + "backends/pulser/convert_ops.py"],
     [("add_pulses", Q + "backends/pulser/pulses.py"), ("Backend._run_noisy", Q + "backends/pulser/backend.py")],
     "exhaustive enumeration of words of blocks and of call histories run through the real pulses and simulator; oracle: independent matrix exponentials and Lindblad equation; outcomes of shots dictated",
     "all words up to length 2 (3 thorough) of the alphabets, all histories of calls up to length 2 (3), 2-3 qubits", ["QuantumModel", "expectation", "run", "sample"])

prop("P32", "Cloud submissions carry the program specified and bring back its result",
     "A workload is accepted exactly when its values are scalars or arrays of one length and an observable is given where expectation values are requested. What is sent (circuit, observable, values, result types, backend; for Pulser the pulse sequence, shots and platform) decodes to a program with the meaning of the one specified, whether given as a circuit or as a model, and nothing else is sent; requests the cloud cannot serve are refused before anything is submitted. Waiting for a result polls at the refresh time, returns the result or raises the error of the first final status within the timeout, and never waits longer; counts come back unchanged, in the requested order of the qubits. Clients use the credentials of the configuration, else those in the environment at that moment.",
     ["schedules", "inputs", "histories"], "all timelines of statuses against refresh times and timeouts, all specifications and histories of credentials within the bounds",
     "tests use one timeline with a mocked clock and compare one submission literally; a lost result, an altered program or a stale client depends on timing, values and what was requested before",
     [Q + "pasqal_cloud_connection.py", Q + "backends/pulser/cloud.py", Q + "backends/pulser/backend.py", Q + "serialization.py"],
     [("get_result", Q + "pasqal_cloud_connection.py"), ("submit_workload", Q + "pasqal_cloud_connection.py"), ("get_client", Q + "backends/pulser/cloud.py")],
     "exhaustive enumeration of status timelines in virtual time, of specifications sent to a recording connection (decoded and compared with numpy), and of histories of credentials",
     "all status words up to length 3 (4 thorough), all specifications with up to 3 parameters, programs of up to 2 (3) blocks, request histories up to 2 (3)", ["WorkloadSpec", "submit_workload", "get_result", "QuantumModel.sample"])

prop("P33", "Experiment logs and reports contain exactly what training measured",
     "With TensorBoard and with MLflow, every training session leaves on disk exactly the metrics it was asked to report (right names, values and iterations), its plots of the model at that iteration, its hyperparameters and, on request, a model that computes what the trained one does; printed lines show the same numbers. This holds for sessions that fail (what was reported until then is on disk, and the run is closed so that training can be started again) and for sessions resumed from a checkpoint (repeated iterations supersede the earlier ones, earlier ones are kept; each session is an MLflow run of its own).",
     ["histories", "inputs", "faults"], "all reporting schedules, all histories of complete, failed, resumed and repeated sessions, all kinds of hyperparameters and metrics within the bounds",
     "tests look at whether calls on a mocked tracker happened or at single uninterrupted runs; lost or doubled entries depend on where a session failed, which checkpoint was there and how the trackers treat restarts",
     [Q + "ml_tools/callbacks/writer_registry.py", Q + "ml_tools/callbacks/callbackmanager.py", Q + "ml_tools/callbacks/callback.py", Q + "ml_tools/trainer.py", Q + "ml_tools/train_utils/config_manager.py"],
     [("TensorBoardWriter", Q + "ml_tools/callbacks/writer_registry.py"), ("MLFlowWriter", Q + "ml_tools/callbacks/writer_registry.py"), ("start_training", Q + "ml_tools/callbacks/callbackmanager.py")],
     "exhaustive enumeration of session histories with failures at every iteration on the real trainer and trackers; the logs read back from disk are compared with a reference schedule",
     "periods 0..2 of every report, up to 3 sessions per history, failures at iterations 0..4, pairs (triples) of hyperparameter types", ["Trainer.fit", "TrainConfig", "TensorBoard event files", "MLflow runs"])


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for p in claimed:
        lvl = "fault_enumeration" if p["id"] == "P17" else "model_checking"
        m["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick",
                            "thorough_cmd": f"bash run.sh {p['id']} thorough",
                            "technique": p["technique"], "level": lvl, "level_note": p["note"]})
    for p in P:
        if p not in claimed:
            m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
    m["notes"] = "No hooks: the checks drive the public API of /repo as it is."
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(claimed), "claimed of", len(P))


if __name__ == "__main__":
    main()
