"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

O = "pygsti/objects/"; T = "pygsti/tools/"; A = "pygsti/algorithms/"; K = "pygsti/construction/"
prop("C01", "Circuit and label text round-trips and means what the grammar says",
     "Printing any circuit or gate label and parsing the text back gives an equal object (same gates, arguments, times, line labels, sub-circuits), in the compiled and the pure-Python parser alike. "
     "Text written with the documented grammar (products, exponents, layers in brackets, idles, line-label suffixes) expands to exactly the gate sequence the grammar defines. "
     "Malformed text is rejected with an error rather than read as some other circuit.",
     ["inputs"], "every label and circuit over named state-space labels, any nesting, arguments, times and repetition; every string of the circuit grammar",
     "Unit tests parse a few dozen fixed strings; the grammar nests arbitrarily and label kinds combine (args x times x sub-circuits x line labels).",
     [O + "label.py", O + "circuit.py", "pygsti/io/circuitparser/slowcircuitparser.py", "pygsti/io/circuitparser/fastcircuitparser.pyx", "pygsti/io/circuitparser/__init__.py"],
     [("label classes and their string forms", O + "label.py"), ("circuit string property and construction from strings", O + "circuit.py"), ("lexer/parser pair", "pygsti/io/circuitparser/")],
     ["str(circuit), Circuit(None, stringrep=...)", "Label(...), str(label)", "pickle and deepcopy of labels"])
prop("C02", "Editing a circuit acts like editing a table of layers by lines",
     "After any sequence of circuit edits (indexing, slicing, inserting, deleting, clearing, appending, replacing, idling-line removal, concatenation, repetition), the circuit's contents, depth, size, widths and line labels equal those of a plain table edited the same way. "
     "A finished (static) circuit never changes and refuses in-place edits, and copies are independent of their source. "
     "Equal circuits have equal hashes and find each other in dictionaries, and unequal ones never compare equal.",
     ["histories", "inputs"], "every sequence of editing operations on every circuit (any number of lines, multi-line gates, parallel layers, nested sub-circuits)",
     "Tests edit three or four hand-written circuits once each; interactions between edits, line subsets, multi-line gates and static/editable state are a history-sized space.",
     [O + "circuit.py", O + "label.py"],
     [("layer/line indexing and editing methods", O + "circuit.py"), ("static circuits hold tuples", O + "circuit.py: done_editing")],
     ["Circuit public methods", "hash(), ==, dict membership"],
     [("layer list", "list (or tuple when static) of layer labels", O + "circuit.py: Circuit._labels"), ("line labels", "ordered names of the lines", O + "circuit.py: Circuit._line_labels")])
prop("C03", "Restructuring a circuit preserves the operation it implements",
     "Every circuit transformation that is documented as equivalent (parallelising, serialising, expanding sub-circuits, factoring repetitions, depth compression, identity removal, idle insertion) leaves the unitary or process map on the circuit's lines unchanged. "
     "Transformations with a defined effect (reversal, line relabelling and reordering, gate renaming, inserting/tensoring/appending circuits) change the operation in exactly the defined way. "
     "Conversion to other circuit languages (Quil, OpenQASM) emits the same gates on the same lines in the same order.",
     ["inputs", "programs"], "every circuit over standard one- and two-qubit gates on 1-4 lines and every transformation applied to it",
     "Tests check specific outputs for a couple of circuits; equivalence has to hold whatever the gate/line overlap pattern.",
     [O + "circuit.py"], [("transformation methods", O + "circuit.py"), ("quil/openqasm conversion", O + "circuit.py, " + T + "internalgates.py")],
     ["Circuit transformation methods", "convert_to_quil / convert_to_openqasm output text"])
prop("C04", "A data set reports exactly the counts put into it",
     "After any history of adding, overwriting, time-stamping, truncating, aliasing, merging, sparsifying, copying and static-freezing, a data set's counts, totals, fractions, outcomes, time series, degrees of freedom and dictionary views equal those of a plain map from circuit to outcome counts. "
     "Derived data sets (truncated, marginalised over qubits or times, concatenated, time-aggregated, key-processed) contain exactly the corresponding counts and never alter their source. "
     "A static data set refuses modification.",
     ["histories", "inputs"], "every history of data-set operations over any circuits, outcome labels (strings, tuples), zero and fractional counts, repetitions and time stamps",
     "Tests follow one or two scripted histories; static/non-static, repetition/no-repetition, time-dependent and aliased storage are separate code paths that combine.",
     [O + "dataset.py", O + "multidataset.py", O + "labeldicts.py"],
     [("index/offset storage and row views", O + "dataset.py"), ("outcome label dictionaries", O + "labeldicts.py")],
     ["DataSet / DataSetRow public API", "MultiDataSet item access"],
     [("oliData/timeData/repData", "outcome-index, time and repetition arrays", O + "dataset.py: DataSet")])
prop("C05", "Saved data sets come back unchanged",
     "Writing any data set (or collection of data sets) to its text, binary or pickle format and reading it back gives the same circuits in the same order with the same outcome labels, counts, time stamps, repetitions, comments and auxiliary information. "
     "Reading a text data file interprets column headings, zero counts, missing values and collision/aggregation options as documented. "
     "Loading never silently drops, merges or reorders data.",
     ["inputs"], "every data set expressible in each format, including multi-qubit outcomes, aliased or occurrence-tagged circuits, time-dependent counts and repetitions",
     "Tests round-trip one small data set per format.",
     [O + "dataset.py", O + "multidataset.py", "pygsti/io/writers.py", "pygsti/io/loaders.py", "pygsti/io/stdinput.py"],
     [("text writer", "pygsti/io/writers.py"), ("text parser", "pygsti/io/stdinput.py"), ("binary save/load", O + "dataset.py: saveable/load")],
     ["pygsti.io write_*/load_* functions", "DataSet.save/load, pickle"])
prop("C06", "Serialised objects decode to equal, equally behaving objects",
     "Encoding a model, circuit, label, basis, experiment design, protocol data or result, or any nesting of standard containers and arrays, as JSON, MessagePack, pickle, text or directory tree and decoding it gives an object of the same type and value. "
     "A decoded model has the same parameters and predicts the same probabilities, and can be encoded again to the same thing. "
     "Copies and decoded objects are independent of the original.",
     ["inputs", "configurations"], "every supported object type and parameterisation, nested arbitrarily, in every format",
     "Tests encode one instance of some types; encodings are recursive over object graphs and formats.",
     ["pygsti/io/jsoncodec.py", "pygsti/io/json.py", "pygsti/io/msgpack.py", "pygsti/io/writers.py", "pygsti/io/loaders.py", "pygsti/io/stdinput.py", "pygsti/io/metadir.py", "pygsti/protocols/protocol.py"],
     [("encode_obj/decode_obj", "pygsti/io/jsoncodec.py"), ("model text format", "pygsti/io/writers.py: write_model"), ("directory metadata", "pygsti/io/metadir.py")],
     ["pygsti.io.json / msgpack dumps/loads", "write_model/load_model", "ExperimentDesign/ProtocolData/ProtocolResults write and from_dir"])
prop("C07", "Every simulator predicts the probabilities of the dense matrix product",
     "For any model and circuit, every way of computing outcome probabilities (matrix or map simulation; one circuit or many; whole or split evaluation trees; compiled or Python kernels; with or without caching, sub-circuits, instruments and intermediate measurements) gives the probabilities obtained by multiplying the model's dense superoperators and taking the trace with its effects. "
     "Probabilities of a trace-preserving model's complete set of outcomes sum to one. "
     "Models built from local or crosstalk noise specifications equal the explicitly built model with the same noise.",
     ["inputs", "programs", "configurations"], "every model type (explicit, local-noise, cloud-noise), parameterisation, simulator, circuit list and evaluation-tree split",
     "Tests compare simulators on a handful of circuits of packaged models; evaluation-tree caching and splitting depends on the whole list of circuits.",
     [O + "matrixforwardsim.py", O + "mapforwardsim.py", O + "termforwardsim.py", O + "evaltree.py", O + "matrixevaltree.py", O + "mapevaltree.py", O + "forwardsim.py", O + "model.py", O + "explicitmodel.py", O + "localnoisemodel.py", O + "cloudnoisemodel.py", O + "layerlizard.py", O + "simplifierhelper.py"],
     [("evaluation trees", O + "evaltree.py and subclasses"), ("forward simulators", O + "*forwardsim.py"), ("layer building", O + "layerlizard.py")],
     ["model.probs, model.bulk_probs, model.bulk_fill_probs, model.product, model.bulk_product"])
prop("C08", "Analytic derivatives are the derivatives of the values",
     "For every model, the reported first and second derivatives of probabilities, products, individual operations, state preparations, effects and objective functions with respect to model parameters equal the numerical derivatives of the corresponding values. "
     "Blocks of derivatives requested for parameter or circuit subsets equal the matching blocks of the whole. "
     "Values returned along with derivatives equal the values computed alone.",
     ["inputs", "configurations"], "every parameterisation, parameter value, circuit list, parameter slice and block structure",
     "Tests difference a few gates at one parameter point; derivative code is separate per parameterisation and per blocking path.",
     [O + "operation.py", O + "spamvec.py", O + "povm.py", O + "instrument.py", O + "matrixforwardsim.py", O + "mapforwardsim.py", O + "objectivefns.py", T + "lindbladtools.py"],
     [("deriv_wrt_params / hessian_wrt_params", O + "operation.py, " + O + "spamvec.py"), ("bulk_fill_dprobs/hprobs", O + "matrixforwardsim.py, " + O + "mapforwardsim.py")],
     ["deriv_wrt_params, hessian_wrt_params, dprobs, hprobs, bulk_fill_dprobs, bulk_fill_hprobs"])
prop("C09", "A model is determined by its parameter vector, whatever its history",
     "Reading the parameter vector and writing it back leaves the model unchanged, writing any vector makes the model read back as that vector, and predictions depend only on the vector, whatever the history of parameter updates, member insertions, replacements, deletions and copies. "
     "A copy never shares mutable state with its original, and members composed of shared parts keep sharing them. "
     "Changing a model's parameterisation preserves its operations when the new parameterisation can represent them.",
     ["histories", "inputs", "configurations"], "every history of parameter updates, member assignment/deletion, copying and re-parameterisation, over every parameterisation",
     "Tests set vectors once; index bookkeeping bugs show only after particular add/delete/copy histories.",
     [O + "model.py", O + "explicitmodel.py", O + "modelmember.py", O + "operation.py", O + "spamvec.py", O + "povm.py", O + "instrument.py", O + "labeldicts.py"],
     [("gpindices allocation and parameter vector rebuild", O + "model.py, " + O + "modelmember.py"), ("from_vector/to_vector", O + "operation.py, " + O + "spamvec.py")],
     ["model.to_vector/from_vector/num_params/copy/set_all_parameterizations", "member to_vector/from_vector"],
     [("_paramvec", "the model's cached parameter vector", O + "model.py: OpModel"), ("gpindices", "slice or array of each member's indices", O + "modelmember.py")])
prop("C10", "Constrained parameterisations stay physical for every parameter value",
     "Whatever real parameter values are set, trace-preserving members preserve trace, completely-positive members have positive Choi matrices, POVM effects of constrained measurements sum to the identity, instruments sum to a trace-preserving map, unitary and stochastic members stay unitary and stochastic, and linear-constrained members satisfy their constraints. "
     "Projections and contractions onto physical sets return members of the set and leave members of the set alone. "
     "Depolarising, rotating and randomising a model apply exactly the requested noise.",
     ["inputs", "configurations"], "all real parameter vectors for every constrained parameterisation and dimension; all matrices given to projections",
     "Tests check physicality at default or a few random points.",
     [O + "operation.py", O + "spamvec.py", O + "povm.py", O + "instrument.py", A + "contract.py", T + "lindbladtools.py", O + "explicitmodel.py"],
     [("Lindblad parameter to generator map", O + "operation.py: LindbladErrorgen"), ("TP parameterisations", O + "operation.py, " + O + "spamvec.py"), ("contract", A + "contract.py")],
     ["operation.todense, spamvec.todense, POVM items, Instrument items", "pygsti.algorithms.contract", "model.depolarize/rotate/randomize_with_unitary/kick"])
prop("C11", "Gauge changes and gauge optimisation never change predictions",
     "Transforming a model by any invertible element of any gauge group leaves every circuit's probabilities and every eigenvalue of its operations unchanged, transforming back restores the model, and group elements' inverses, derivatives and parameter vectors are consistent. "
     "Gauge optimisation returns a model with the same predictions as its input, the gauge element that produces it, and a distance to the target no larger than before. "
     "The counted gauge and non-gauge parameters match the numerical rank of the model's prediction derivatives.",
     ["inputs", "configurations"], "every model, gauge group, group element and optimisation setting",
     "Tests check a few group elements and optimise toward one target.",
     [O + "gaugegroup.py", A + "gaugeopt.py", O + "explicitmodel.py", O + "explicitcalc.py"],
     [("gauge groups and elements", O + "gaugegroup.py"), ("transform methods", O + "explicitmodel.py, " + O + "operation.py, " + O + "spamvec.py"), ("optimiser", A + "gaugeopt.py")],
     ["model.transform, gaugeopt_to_target, num_gauge_params/num_nongauge_params"])
prop("C12", "Different representations of one operation, state or effect act identically",
     "An operation, state or effect built from parts (composed, embedded, exponentiated, tensored, factory-made, error-generator-based, stochastic, depolarising, Clifford, computational) acts on every state exactly as the dense matrix its definition prescribes, through every kernel (dense, sparse, compiled, Python, state-vector, stabiliser). "
     "Forward and adjoint action agree with the matrix and its conjugate transpose. "
     "Reported error-generator coefficients reconstruct the operation, and setting coefficients yields the operation they describe.",
     ["inputs", "configurations"], "every nesting of composite members on 1-3 qubits (and mixed dimensions), every parameter vector, every state",
     "Tests compare a few embeddings of single gates.",
     [O + "operation.py", O + "spamvec.py", O + "povm.py", O + "opfactory.py", O + "replib/fastreplib.pyx", O + "replib/fastreps.cpp", O + "replib/slowreplib.py", O + "stabilizer.py"],
     [("op/state/effect reps", O + "replib/"), ("composite operation classes", O + "operation.py"), ("computational/tensor-product spam", O + "spamvec.py")],
     ["op.todense(), op.acton via torep(), effect probability via torep(), errorgen_coeffs/set_errorgen_coeffs"])
prop("C13", "Changing basis changes the description, never the operation",
     "Converting states, effects and superoperators between any two bases of the same space (standard, Gell-Mann, Pauli, qutrit, direct sums, sparse or dense) and back is the identity, composes transitively, and preserves traces, inner products, eigenvalues and action on states. "
     "Named bases consist of the documented matrices: orthonormal where documented, Hermitian, identity first. "
     "Choi-matrix conversions invert each other, agree with the definition, and are positive exactly for completely positive maps.",
     ["inputs", "configurations"], "every pair of bases (named, composite, custom) of any dimension and every vector or matrix",
     "Tests round-trip a few matrices in low dimension.",
     [O + "basis.py", T + "basistools.py", T + "basisconstructors.py", T + "jamiolkowski.py", T + "optools.py"],
     [("basis construction and transform matrices", O + "basis.py, " + T + "basisconstructors.py"), ("change_basis", T + "basistools.py"), ("Jamiolkowski isomorphism", T + "jamiolkowski.py")],
     ["pygsti.tools.change_basis, stdmx_to_vec etc.", "Basis.elements and transform matrices", "jamiolkowski_iso and inverse"])
prop("C14", "Reported metrics equal their mathematical definitions",
     "Fidelities, trace, diamond and Jamiolkowski distances, infidelities, unitarities, angles between eigenvalues, total-variation distances, error rates and error-generator projections equal their textbook values for every pair of operations, are symmetric and unitarily invariant where the mathematics says so, and vanish (or equal one) exactly on equal operations. "
     "Error generators of the logTiG and logGTi types invert the operation-from-generator map (the logG-logT type does so approximately, as documented). "
     "Projections onto Hamiltonian, stochastic and affine generators recover the coefficients of generators built from them.",
     ["inputs"], "every pair of states, unitaries, or process matrices of 1-2 qubits or a qutrit; every error generator within the principal branch",
     "Tests check fixed gates with pre-computed numbers.",
     [T + "optools.py", T + "rbtheory.py", T + "lindbladtools.py", "pygsti/report/reportables.py"],
     [("metric functions", T + "optools.py"), ("error-generator maps", T + "optools.py: error_generator, operation_from_error_generator")],
     ["pygsti.tools.optools functions", "pygsti.report.reportables functions"])
prop("C15", "Likelihood and chi-squared equal their definitions on every data set",
     "Log-likelihood, maximum log-likelihood, two-delta-log-likelihood and chi-squared of a (time-independent) model on a data set, total and per circuit, equal the sums of their textbook per-outcome terms (with the documented small-probability regularisation), however circuits are batched, split, aliased or weighted. "
     "The log-likelihood never exceeds its maximum, adding data sets adds likelihoods, and the order of circuits and outcomes is irrelevant. "
     "Objective gradients and Hessians are the derivatives of the objective.",
     ["inputs", "configurations"], "every model, data set (zero counts, missing outcomes, unequal totals, Poisson picture or not) and memory/blocking option",
     "Tests evaluate the objectives at one model and data set.",
     [T + "likelihoodfns.py", T + "chi2fns.py", O + "objectivefns.py", O + "wildcardbudget.py"],
     [("objective function classes", O + "objectivefns.py"), ("user-level statistics", T + "likelihoodfns.py, " + T + "chi2fns.py")],
     ["logl, logl_max, two_delta_logl, chi2 and *_terms functions", "objective function objects used by fits"])
prop("C16", "Simulated data follow the model and the seed",
     "Data simulated from a model contain every requested circuit with exactly the requested number of samples (or the exact expected counts when no sampling error is requested), outcomes impossible under the model never occur, and sampled frequencies are consistent with the model's probabilities. "
     "The same seed gives the same data and different seeds differ. "
     "Merging, filtering and aggregating outcomes of simulated data conserve counts.",
     ["inputs", "configurations"], "every model, circuit list, sample number or per-circuit schedule, sampling mode, seed and time stamp",
     "Tests simulate one model in each mode.",
     [K + "datasetconstruction.py", O + "dataset.py"],
     [("generate_fake_data", K + "datasetconstruction.py")],
     ["generate_fake_data and the counts in the result", "merge_outcomes, filter_dataset, create_qubit_merge_dict"])
prop("C17", "Tomography recovers the model that generated the data",
     "Given noiseless data from a model and an informationally complete experiment, linear-inversion and long-sequence tomography return a model predicting the data (up to gauge), no worse a fit than the starting point and the target, and inside the requested constraint set. "
     "More data, further stages or a richer parameterisation never worsen the reported fit, and results record the circuits, data and models that were used. "
     "The optimisers return a point no worse than their start and a stationary point when they report convergence.",
     ["inputs", "configurations"], "every generating model near the target, parameterisation, objective, circuit structure and optimiser setting",
     "Tests fit one generated data set per driver and only check that the run ends or a loose distance.",
     [A + "core.py", "pygsti/drivers/longsequence.py", "pygsti/protocols/gst.py", "pygsti/optimize/customlm.py", "pygsti/optimize/optimize.py", A + "grammatrix.py"],
     [("do_lgst / do_iterative_mlgst", A + "core.py"), ("Levenberg-Marquardt", "pygsti/optimize/customlm.py")],
     ["do_lgst, do_mc2gst, do_mlgst, do_long_sequence_gst, StandardGST/GateSetTomography.run", "customlm, minimize"])
prop("C18", "Constructed experiment lists contain exactly the specified circuits",
     "Circuit lists built from fiducials, germs and lengths contain every preparation-germ^p-measurement combination the specification defines, with the right repetition or truncation, no duplicates, and nothing else; nested lists are supersets of shorter ones. "
     "Pair reduction, random subsetting, sub-circuit selection, plaquette structures and list filters keep exactly the documented subset, and structures map each plaquette element to the right circuit. "
     "Enumerations of circuits (all up to a length, without trivial, power, cyclic or permutation repeats) are complete and free of repeats.",
     ["inputs", "configurations"], "every set of fiducials, germs, length lists, truncation schemes, pair selections and labels",
     "Tests count the circuits for one or two packaged sets.",
     [K + "circuitconstruction.py", K + "stdlists.py", O + "circuitstructure.py", T + "listtools.py"],
     [("list generators", K + "circuitconstruction.py, " + K + "stdlists.py"), ("circuit structures", O + "circuitstructure.py")],
     ["make_lsgst_lists / make_lsgst_structs / make_elgst_*, list_all_circuits*, LsGermsStructure"])
prop("C19", "Selected germs, fiducials and fiducial pairs are sufficient, as claimed",
     "Any germ set the selection routines return is amplificationally complete, any fiducial set informationally complete, and any reduced fiducial-pair set still amplifies everything the full set does, as judged by an independent rank computation. "
     "Completeness tests answer yes exactly when that rank condition holds, and forced members are always included. "
     "The same seed and input give the same selection.",
     ["inputs", "configurations"], "every model, candidate list, algorithm, score function, threshold, forced set and seed",
     "Tests run each algorithm on one packaged model.",
     [A + "germselection.py", A + "fiducialselection.py", A + "fiducialpairreduction.py", A + "grasp.py", A + "scoring.py"],
     [("twirled-derivative scores", A + "germselection.py"), ("Gram-spectrum scores", A + "fiducialselection.py"), ("amplified-parameter ranks", A + "fiducialpairreduction.py")],
     ["generate_germs, generate_fiducials, test_germ_set_*, test_fiducial_list, find_sufficient_fiducial_pairs*"])
prop("C20", "Clifford and symplectic arithmetic agrees with matrix multiplication",
     "Symplectic descriptions of Clifford operations compose, invert, embed, transform stabiliser states and predict measurement outcomes exactly as the unitary matrices they stand for, phases included. "
     "Random generators return valid elements, conversions between circuits, symplectic matrices and unitaries invert each other, and the binary linear-algebra helpers are correct over GF(2). "
     "Stabiliser-state simulation gives the same outcome probabilities and amplitudes as state vectors.",
     ["inputs", "programs"], "every Clifford circuit and element on 1-4 qubits, every binary matrix",
     "Tests check a few named gates and random seeds.",
     [T + "symplectic.py", T + "matrixmod2.py", O + "stabilizer.py", T + "internalgates.py", T + "group.py"],
     [("symplectic composition and phases", T + "symplectic.py"), ("stabiliser frame", O + "stabilizer.py, " + O + "replib/")],
     ["symplectic tools functions", "clifford simulation of circuits"])
prop("C21", "Compiled and sampled circuits implement what they claim on their device",
     "Compiled circuits implement the requested Clifford, stabiliser state or measurement exactly, use only the device's native gates on connected qubits, and keep to the requested qubits, for every compiler and option. "
     "Sampled benchmarking circuits return the outcome they announce under perfect gates, contain the requested number of random layers and respect the device and sampler distribution options. "
     "Graph queries (neighbours, distances, shortest paths, connected sub-sets) about a device equal those of the plain graph.",
     ["inputs", "programs", "configurations"], "every Clifford on 1-4 qubits, device connectivity, native gate set, compiler, sampler option, length and seed",
     "Tests compile a few random Cliffords on one device and mostly check that calls return.",
     [A + "compilers.py", A + "randomcircuit.py", O + "compilationlibrary.py", O + "processorspec.py", O + "qubitgraph.py"],
     [("symplectic compilers", A + "compilers.py"), ("RB samplers", A + "randomcircuit.py"), ("compilation library", O + "compilationlibrary.py"), ("qubit graph", O + "qubitgraph.py")],
     ["compile_* functions, *_circuit and *_experiment functions, QubitGraph methods, CompilationLibrary.get_clifford_compilation"])
prop("C22", "Randomized-benchmarking and phase-estimation analyses invert their own models",
     "Fitting decay data generated from known decay parameters returns those parameters and the error rate they imply, and success counts, polarizations and per-circuit quantities computed from data equal their definitions for every data set. "
     "Predicted decay constants from a model equal the observed decay of that model's exactly simulated benchmark. "
     "Phase estimation recovers the rotation angle that generated the data within the accuracy it guarantees.",
     ["inputs", "configurations"], "every decay parameter set, length list, data set, rotation angle and generation depth",
     "Tests fit one data set and check for absence of exceptions.",
     [A + "rbfit.py", T + "rbtheory.py", T + "rbtools.py", "pygsti/protocols/rb.py", A + "robust_phase_estimation.py", "pygsti/extras/rpe/rpetools.py", K + "rpeconstruction.py"],
     [("curve fits", A + "rbfit.py"), ("RB theory", T + "rbtheory.py"), ("RPE inference", A + "robust_phase_estimation.py")],
     ["RB/RPE protocol results, std_least_squares_fit, rbtheory functions"])
prop("C23", "Numerical and container utilities compute what they are named for",
     "Matrix utilities (null spaces, matching, logarithms, sign-fixing, sparse helpers, partitions), index/slice algebra, list utilities, polynomial arithmetic and evaluation (including compact and compiled forms) equal straightforward reference computations on every input. "
     "Slice-based operations equal the same operations on the explicit index lists. "
     "Utilities never modify their inputs unless documented.",
     ["inputs"], "all matrices, slices, index lists, partitions and multivariate polynomials of moderate size",
     "Tests evaluate each helper on one or two literals.",
     [T + "matrixtools.py", T + "slicetools.py", T + "listtools.py", O + "polynomial.py", T + "fastcalc.pyx", O + "opcalc/fastopcalc.pyx", O + "opcalc/slowopcalc.py", T + "opttools.py", T + "nameddict.py"],
     [("helpers", T + "*.py"), ("polynomials", O + "polynomial.py")],
     ["public functions of these modules"])
prop("C24", "Splitting work over processors or memory blocks never changes results",
     "For every number of processors, block size and memory limit, work is divided so that each item is handled exactly once, and gathered results (probabilities, derivatives, Hessians, likelihoods, fits) equal those of the undivided computation. "
     "Distributed gathers place every block at its own indices. "
     "Evaluation trees, split or not, deliver every circuit's outcomes at the positions they advertise.",
     ["schedules", "configurations", "inputs"], "every processor count (more or fewer than items), block size, memory limit and circuit list",
     "The MPI tests are not part of the reliable suite, and the serial ones split one tree once.",
     [T + "mpitools.py", O + "evaltree.py", O + "matrixevaltree.py", O + "mapevaltree.py", O + "forwardsim.py", O + "matrixforwardsim.py", O + "mapforwardsim.py"],
     [("index distribution and gather", T + "mpitools.py"), ("tree splitting", O + "evaltree.py")],
     ["mpitools functions under a simulated communicator", "bulk_fill_* with comm and block sizes", "EvalTree.split"])
prop("C25", "Statistical comparisons and error bars follow their definitions",
     "Hypothesis-test corrections reject exactly the hypotheses their published procedures reject; data-comparison statistics and p-values equal the textbook likelihood-ratio values, are symmetric between identical data sets and independent of circuit order. "
     "Confidence regions and intervals equal those of the quadratic approximation of the likelihood, and derived-quantity error bars follow linear propagation. "
     "Wildcard budgets make the model consistent with data exactly as defined and never change predictions outside the allotted budget.",
     ["inputs", "configurations"], "every set of p-values, weights, nested structures and data sets; every model and Hessian",
     "Tests run one comparison and check attributes exist.",
     [O + "hypothesistest.py", T + "hypothesis.py", O + "datacomparator.py", O + "confidenceregionfactory.py", O + "wildcardbudget.py", O + "reportableqty.py", "pygsti/drivers/bootstrap.py"],
     [("multiple testing", O + "hypothesistest.py"), ("comparison statistics", O + "datacomparator.py"), ("confidence regions", O + "confidenceregionfactory.py")],
     ["HypothesisTest, DataComparator, ConfidenceRegionFactory(View), WildcardBudget, ReportableQty"])
prop("C26", "Drift and idle-tomography analyses recover what generated the data",
     "Spectra and transforms used to look for drift are orthonormal and invertible, and detection thresholds, p-values, filters and amplitudes follow their definitions. "
     "Idle tomography's rates inferred from exactly simulated low-order error models equal the rates put in. "
     "Pauli-operator arithmetic used to design these experiments agrees with matrices.",
     ["inputs", "configurations"], "every time series, frequency set, significance and Pauli error model on 1-3 qubits",
     "Tests run each analysis on one stored data set.",
     ["pygsti/extras/drift/signal.py", "pygsti/extras/idletomography/idtcore.py", "pygsti/extras/idletomography/idttools.py", "pygsti/extras/idletomography/pauliobjs.py"],
     [("signal transforms", "pygsti/extras/drift/signal.py"), ("idle tomography fits", "pygsti/extras/idletomography/idtcore.py"), ("Pauli objects", "pygsti/extras/idletomography/pauliobjs.py")],
     ["drift.signal functions, idletomography.make_idle_tomography_list / do_idle_tomography, NQPauliState/NQPauliOp"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + x): print("missing", p["id"], x)
    print(len(P))
