HOOK_COMMITS = ["9fcfb52"]
NOT_APPLICABLE = []
TECH_SEQ = "bounded exhaustive exploration of the real code against a reference model"
PROPS = []


def P(id, title, statement, over, text, cant, files, mech, technique, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=cant, anchors=dict({"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, **kw),
                      technique=technique, note=note))


EX = "include/dcgp/expression.hpp"
P("E01", "An expression's gene bounds are exactly the legal acyclic wirings",
  "For every accepted set of structural parameters (inputs plus ephemeral constants, outputs, rows, columns, levels-back, arity per column, kernels) the bounds of each gene are exactly the kernel ids, respectively the nodes in the preceding levels-back columns (inputs count as the column before the first), that this gene may name; the chromosome length, the position of each node's genes and the node arities follow from those parameters. A parameter set with a zero, an arity vector of the wrong length or an empty kernel set is refused with std::invalid_argument. The random initial chromosome always lies within the bounds and any chromosome within them can occur, initial ephemeral constants lie in [-10, 10] and are named c1, c2, ..., and setting a chromosome succeeds exactly when its length and every gene are legal, otherwise it is refused with std::invalid_argument and leaves the expression unchanged."
  .replace("; the chromosome length, the position of each node's genes and the node arities follow from those parameters. A parameter set", ", and a parameter set"),
  ["configurations", "inputs"],
  "All structural parameter sets, all answers of the random engine at construction, all candidate chromosomes (legal or not).",
  "The existing tests construct a handful of shapes with fixed seeds and set a few chromosomes; the guarantee is over every shape, seed and chromosome.",
  [EX],
  [("constructors, sanity_checks, init_bounds_and_chromosome", EX), ("set / set_from_range / check_cgp_encoding", EX)],
  TECH_SEQ + " (all shapes in a box, all engine draws, all candidate chromosomes)",
  "Complete for every shape with <=2 inputs/outputs/rows/columns (quick; 3/3/3/4 thorough), every levels-back and per-column arity; candidate chromosomes complete for small shapes, one-gene deviations from four bases for larger ones. Larger shapes are assumed to behave alike. Trusts lib/ref.hpp.")

P("E02", "Every operation history leaves an expression consistent with its chromosome",
  "After any sequence of setting chromosomes, function genes, constants or symbols, mutating, seeding, copying, assigning, moving and evaluating, the active nodes and active genes are exactly those reachable from the outputs of the current chromosome, the chromosome is within its bounds, and the value computed is that of the current chromosome and constants. An operation that is refused (std::invalid_argument) changes nothing observable. Structural parameters and bounds never change.",
  ["histories", "inputs"],
  "All histories of public operations, accepted and refused, in any order, with any answers of the random engine.",
  "Unit tests apply one or two operations from a fresh object and check chosen values; a stale cache after an unusual sequence or a half-applied refused operation is never visited.",
  [EX],
  [("update_data_structures", EX), ("mutate*, set*, copy/move", EX)],
  "explicit-state search over the real object's operation histories with scripted random engine, invariant = reference model in every state",
  "Breadth-first search over all reachable (chromosome, constants, symbols) states of eight small shapes with an alphabet of ~60 operations, plus all unmerged operation sequences of length 2-3 (4 thorough); state caps are reported. Trusts lib/ref.hpp.")

P("E03", "Evaluating an expression computes the composition its chromosome encodes",
  "For every legal chromosome, the numeric value of each output is the value obtained by recursively applying the named kernels to their connected nodes in the order of the connection genes, with the ephemeral constants appended after the inputs; this holds alike for doubles, generalized dual numbers and vectorised ones. Genes that are not active never influence the result, evaluation never changes the expression, and an input of the wrong size is refused with std::invalid_argument.",
  ["inputs", "configurations"],
  "All shapes, chromosomes, kernels, constants and input points, for each numeric type.",
  "Tests evaluate a few hand-made chromosomes; mistakes that need a particular arity mix, levels-back or node sharing are not sampled.",
  [EX, "include/dcgp/kernel.hpp"],
  [("operator() / call_operator_impl", EX)],
  "exhaustive enumeration of chromosomes of small shapes, real evaluation vs a reference interpreter",
  "All chromosomes of shapes with few genes, all within 2 genes (3 thorough) of four bases for larger ones, 11 kernel sets, 4 points, 3 numeric types (AuDi itself is replaced by the stand-in in shim/). Floating-point agreement to 1e-9.")

P("E04", "The printed formula of an expression is the function it computes",
  "For every legal chromosome and every kernel set, the symbolic form returned for given variable names, read with ordinary operator precedence and the given names of inputs and ephemeral constants, evaluates to the number the expression computes wherever that formula is finite. There is one formula per output, and a wrong number of symbols is refused.",
  ["inputs", "configurations"],
  "All chromosomes, kernel nestings, symbol names and points.",
  "Tests compare a few strings; precedence mistakes appear only for particular nestings of kernels.",
  [EX, "include/dcgp/wrapped_functions.hpp"],
  [("symbolic operator()", EX), ("print_* kernels", "include/dcgp/wrapped_functions.hpp")],
  "exhaustive enumeration of kernel nestings and chromosomes, printed formula evaluated by an independent parser",
  "Every ordered pair of built-in kernels nested at arities 1-3 in both argument positions and all chromosomes of the corresponding shapes; deeper nestings only on four mixed sets. Trusts lib/symb.hpp (python precedence).")

P("E05", "Mutations change only the genes they name and keep the expression legal",
  "Mutating given genes changes each named gene that has an alternative to a different legal value and no other gene; the random, active, inactive, active-function, active-connection and output-gene mutations with parameter N change at most N genes, all of the announced kind. With N = 1 exactly one gene changes whenever every gene of that kind has an alternative (inactive mutation excepted), and mutating inactive genes never changes the active genes nor the value.",
  ["inputs", "histories"],
  "All chromosomes, all mutation kinds and N, all answers of the random engine.",
  "Tests run mutations with a few seeds and mostly check that something changed.",
  [EX],
  [("mutate, mutate_random, mutate_active, mutate_inactive, mutate_active_fgene, mutate_active_cgene, mutate_ogene", EX)],
  "exhaustive enumeration of chromosomes x mutations x random-engine answers (scripted engine) against frame conditions",
  "For each of ~70 small shapes, all (or near-base) chromosomes and every sequence of the first 2-3 engine answers; N up to 3.")

P("E06", "Every legal mutation outcome can actually occur",
  "For every chromosome, each kind of single-gene mutation can produce every chromosome that differs in one gene of its kind by another legal value, for some answers of the random engine. In particular every legal chromosome can be reached from every other by mutations.",
  ["inputs", "histories"],
  "All chromosomes and mutation kinds; existentially over the random engine's answers.",
  "A value or gene that can never be chosen (off-by-one in a range) is invisible to tests that only check legality of a few outcomes.",
  [EX],
  [("index and value distributions of the mutate methods", EX)],
  "exhaustive enumeration of random-engine answers and reachability over the chromosome graph",
  "All engine answers for the first 3-5 draws on ~70 small shapes; graph connectivity decided where every chromosome is enumerated.")

P("F01", "A dcgp::function behaves as the callable it holds through every history",
  "Whatever sequence of constructions, copies, moves, assignments (self-assignment included), calls and serialization round trips function containers went through, each one holds an independent copy of the callable last given to it: calls return that callable's result (or its exception), the thread-safety level is that callable's, a moved-from container is reported invalid, a default-constructed one throws std::runtime_error when called, and extraction yields exactly the held type. Changing one container never affects another, every held object is destroyed exactly once, and a failed copy or a failed load leaves the target unchanged.",
  ["histories", "fault_sequences"],
  "All operation histories over two containers and all truncation points of an archive.",
  "Tests exercise single operations; aliasing, thread-safety levels lost in a move, or half-loaded containers need particular sequences or faults.",
  ["include/dcgp/function.hpp"],
  [("class function: copy/move/assign/extract/save/load", "include/dcgp/function.hpp")],
  "explicit-state search over a two-slot model, every transition replayed on the real class, plus all unmerged sequences and all archive truncation points",
  "All model states of two slots over 7 callables, all operation sequences to depth 3 (4 thorough), every prefix of binary and text archives loaded.")

P("F02", "Kernels and kernel sets survive a serialization round trip",
  "Every built-in kernel of every numeric type, every user kernel made of exported callables and every kernel set can be saved and loaded, through text and binary archives, into an object that has the same name, thread-safety level, value at every point and printed form, whatever the target object held before; a kernel made of unsafe callables is still reported unsafe after loading.",
  ["inputs", "histories"],
  "All kernels and types, archive formats, previous contents of the target and numbers of round trips.",
  "The existing test round-trips some kernels through one archive type into fresh objects.",
  ["include/dcgp/kernel.hpp", "include/dcgp/kernel_set.hpp", "include/dcgp/wrapped_functions.hpp"],
  [("kernel::serialize", "include/dcgp/kernel.hpp"), ("export keys", "include/dcgp/wrapped_functions.hpp"), ("implementations", "include/dcgp/wrapped_functions_s11n_implement.hpp")],
  "exhaustive enumeration of (kernel, type, archive, previous target content) with a behavioural comparison",
  "All 23 kernels x 3 types x 2 archives x previous contents; all pairs of names in a set. AuDi is replaced by the stand-in in shim/.")

P("K01", "Every built-in kernel computes and prints its documented function",
  "For every built-in kernel name, every arity it accepts and every input, the kernel of doubles returns the documented function of its inputs in their order (unary kernels use the first input only; protected ones return the documented fallback), does not modify its inputs, gives the same answer through copies and initializer lists, the dual-number versions have that same value, and the printed form of the kernel evaluates to that value wherever it is finite.",
  ["inputs"],
  "All kernel names, arities and input tuples, signed zeros, infinities and NaN included.",
  "Tests evaluate a few points at arity 2 or 3; a mistake for one arity, a special value or one of the numeric types is not visited.",
  ["include/dcgp/wrapped_functions.hpp", "doc/sphinx/docs/cpp/kernel_list.rst"],
  [("my_*_func and print_my_*_func", "include/dcgp/wrapped_functions.hpp"), ("name dispatch", "include/dcgp/kernel_set.hpp")],
  "exhaustive enumeration of kernels x arities x all tuples over a grid of ordinary and special values against reference functions",
  "Arities 1-5, all tuples over a value grid whose size shrinks with the arity. Values between grid points are assumed alike (the kernels are straight-line code with one branch).")

P("K02", "Built-in kernels propagate exact first and second derivatives",
  "Evaluated on generalized dual numbers, plain or vectorized, every differentiable built-in kernel yields the true first and second partial derivatives of the function it computes with respect to each input, at every point where these exist; the protected division refuses dual numbers with std::invalid_argument.",
  ["inputs"],
  "All kernels, arities and points.",
  "Tests check derivatives for one or two kernels only.",
  ["include/dcgp/wrapped_functions.hpp"],
  [("my_*_func<gdual>", "include/dcgp/wrapped_functions.hpp")],
  "exhaustive enumeration of kernels x arities x point grid, derivatives compared with finite differences of the reference functions",
  "Arities 1-4, all pairs of variables, a point grid away from kinks; AuDi is replaced by the stand-in in shim/.")

P("K04", "A kernel set is the list of kernels pushed into it, and only known names",
  "For every string, pushing it into a kernel set succeeds exactly when it is a documented kernel name available for that numeric type, and otherwise throws std::invalid_argument leaving the set unchanged. After any sequence of pushes (by name or object), clears, copies and reads, indexing, the call operator and streaming show exactly the pushed kernels in order. A kernel's thread-safety level is the weaker one of its two callables.",
  ["histories", "inputs"],
  "All names (including every name near a known one) and all operation sequences.",
  "Tests push a few names once.",
  ["include/dcgp/kernel_set.hpp", "include/dcgp/kernel.hpp"],
  [("push_back, clear, operator()", "include/dcgp/kernel_set.hpp"), ("kernel constructor", "include/dcgp/kernel.hpp")],
  "exhaustive enumeration of operation sequences against a list model and of all names within one edit of a known name",
  "Operation sequences to depth 5 (6 thorough), all one-character edits of all names, all pairs of callables.")

P("R01", "The global random sequence is one linearizable Mersenne Twister sequence",
  "Concurrent calls of random_device::next and set_seed, in every schedule, are free of data races and deadlocks and linearizable: the numbers handed out are those of one 32-bit Mersenne Twister seeded by the latest set_seed, no number being lost or given twice. After set_seed(s) the sequence is the same every time, for every s, also when an expression or another object consumes part of it in between.",
  ["schedules", "inputs"],
  "All interleavings of next and set_seed by several threads, all seeds.",
  "The existing test is sequential.",
  ["include/dcgp/rng.hpp"],
  [("random_device::next / set_seed", "include/dcgp/rng.hpp")],
  "stateless exploration of all thread interleavings (preemption-bounded) of the real code under a controlled scheduler, with vector-clock race detection and a linearizability check",
  "All programs of 2-3 threads with up to 3 operations, schedules with at most 3 preemptions (5 thorough). Scheduling points are the synchronization operations; data races are detected on every access.")

ANN = "include/dcgp/expression_ann.hpp"
WEI = "include/dcgp/expression_weighted.hpp"
P("E07", "Everything random about an expression is a function of its seed",
  "Two expressions of any kind built with the same parameters and the same seed (any seed, 0 included) and put through the same operations are equal at every step - chromosome, constants, weights, outcomes of mutations and of seeded weight randomisation - whatever other dcgp objects were created, used or seeded in between. A copy or assigned or moved-to object continues exactly as its source would have and independently of it; seed(s) makes the future a function of s alone; an object given an explicit seed neither reads nor advances the global random sequence.",
  ["histories", "inputs"],
  "All operation sequences, seeds, kinds of expression and disturbances by other objects in between.",
  "Tests compare two runs of a fixed sequence at best; hidden state shared between objects shows up only when something else happens in between.",
  [EX, ANN, WEI, "include/dcgp/rng.hpp"],
  [("m_e, seed, constructors", EX), ("randomise_weights / randomise_biases", ANN)],
  TECH_SEQ + " (all operation sequences x seeds, each run undisturbed, disturbed, copied and re-seeded)",
  "Operation sequences to depth 3 (4 thorough) over an alphabet of mutations, settings and randomisations, seeds {0,1,...}, for plain, weighted and ann expressions.")

P("E08", "A phenotype correction computes pc(x, g) of the current expression",
  "After set_phenotype_correction(pc) every evaluation returns pc(x, g), g being the uncorrected expression as it is at that moment (its current chromosome and constants); after unset it returns the uncorrected value again. This holds through every later mutation, constant change, copy, assignment and move, a copy using its own chromosome; printed formulas stay uncorrected, and an exception of pc or of g propagates leaving the expression unchanged.",
  ["histories", "inputs"],
  "All histories of set, unset, chromosome and constant changes, copies, assignments and moves.",
  "The existing test sets one correction on one expression and evaluates it.",
  [EX],
  [("operator(), set_phenotype_correction, call_operator_impl", EX)],
  TECH_SEQ + " (all histories of two expressions)",
  "All operation sequences to depth 3 (4 thorough) over two expressions, 4 corrections, numeric types double and gdual. Applies to dcgp::expression: expression_ann and expression_weighted document no correction.")

P("E09", "The loss of a batch is the mean over its points of the documented loss",
  "For every legal chromosome, loss(points, labels, kind, parallel) is the mean over the points of the mean squared error, or of the cross entropy of the softmax of the outputs (finite also for large outputs), whatever number of parts the batch is divided into; the overload for one point agrees. Empty batches, different numbers of points and labels, points or labels of the wrong dimension, unknown loss names and parts that do not divide the batch are refused with std::invalid_argument. Evaluating never changes the expression.",
  ["inputs", "configurations"],
  "All shapes, chromosomes, batches, labels, loss kinds and numbers of parts.",
  "Tests compare a few losses computed from the library itself.",
  [EX],
  [("loss overloads", EX)],
  TECH_SEQ + " (all small chromosomes x batches x labels x parts)",
  "All chromosomes of small shapes, batch sizes 1-6, all numbers of parts 0-7, loss compared with a long-double reference (relative 1e-9).")

P("E10", "Concurrent evaluation is race free and equals the sequential result",
  "Evaluating, printing and computing losses through one const expression from several threads, using distinct expressions (also copies of one another) from several threads, and the library's own parallel evaluation of the loss are free of data races and deadlocks in every schedule, and every call returns what it returns sequentially (a sum over parts up to rounding); an exception raised inside a part reaches the caller.",
  ["schedules"],
  "All interleavings of the threads and of the parts of a parallel evaluation.",
  "Tests run one schedule, and nothing checks for data races.",
  [EX, ANN, WEI],
  [("loss (parallel), operator() const", EX)],
  "stateless exploration of all thread interleavings (preemption-bounded) of the real code under a controlled scheduler, with vector-clock race detection",
  "Programs of 2-4 threads / parts, schedules with at most 2-3 preemptions; scheduling points are the synchronization operations, data races are detected on every access. TBB's parallel_for is replaced by one thread per part (shim_tbb).")

P("E11", "An expression restored from an archive is the one saved, futures included",
  "Saving any expression (plain with constants, weighted, ann) in any reachable state and loading it, from text or binary archives and over any previous target, gives an expression with the same parameters, chromosome, active nodes, constants, symbols, weights, biases, correction, values and printed formulas - and the same future: every later operation, random ones included, has the same result on both. Saving does not change the saved expression.",
  ["histories", "inputs"],
  "All kinds of expression, histories before saving, archive kinds, previous targets and futures.",
  "Tests compare a few observables right after loading.",
  [EX, ANN, WEI],
  [("serialize", EX), ("serialize", ANN), ("serialize", WEI)],
  "exhaustive enumeration of (history, archive, previous target, future operation sequence), the saved and the restored object run in lock step",
  "All histories to depth 2, futures to depth 2, three kinds of previous target; truncated archives only must not be silently accepted by dcgp's own loading code. Corrections are std functions exported for serialization.")

P("W01", "A weighted expression multiplies every connection by its own weight",
  "For every legal chromosome and weight vector, a weighted expression computes - for doubles, generalized dual numbers and vectorised ones - the composition encoded by its chromosome in which each connection of each node is multiplied by its own weight, and its printed formula, read with ordinary precedence, is that same function of the inputs and the weight symbols w<node>_<input>. Weights start at 1; setting or getting one by (node, input) touches exactly the weight used there, also when columns have different arities; wrong nodes, inputs or lengths are refused with std::invalid_argument changing nothing; mutations, copies and assignments keep weights.",
  ["inputs", "configurations", "histories"],
  "All shapes, chromosomes, weights, points and operation histories.",
  "Tests check a few weighted chromosomes of uniform arity.",
  [WEI],
  [("operator() (numeric and symbolic), kernel_call", WEI), ("set_weight, get_weight, set_weights", WEI)],
  "exhaustive enumeration of chromosomes x weights x points and of operation histories against a reference network",
  "All (or near-base) chromosomes of small shapes with uniform and mixed arities, all weights addressed, histories to depth 3 (4 thorough). AuDi is replaced by the stand-in in shim/.")

P("A01", "A neural expression is the weighted, biased network its chromosome encodes",
  "For every legal chromosome, weights and biases, expression_ann computes, and its printed formula denotes, the network in which each node applies its kernel to its weighted inputs with its bias added to the first. Its constructor accepts exactly the twelve documented neuron kernels, weights start at 1 and biases at 0, one weight is addressed alike by (node, input) and by index, invalid addresses or lengths are refused with std::invalid_argument changing nothing, seeded randomisation gives normally distributed weights or biases determined by the seed. set_output_f gives exactly the nodes the outputs name the requested kernel (refused if absent from the set), and n_active_weights counts the connections of active nodes (distinct ones if asked).",
  ["inputs", "configurations"],
  "All shapes, chromosomes, kernel lists, weights, biases and points.",
  "Tests check a few networks, uniform arity, one output.",
  [ANN],
  [("operator(), kernel_call, fill_nodes", ANN), ("set_output_f, n_active_weights, set_weight, set_bias", ANN)],
  "exhaustive enumeration of chromosomes x weights x points x addressing against a reference network",
  "All (or near-base) chromosomes of small shapes over kernel sets covering the 12 neurons, all addresses, all kernel names.")

P("A02", "d_loss returns the loss and its exact gradient after every history",
  "For every legal chromosome, weights, biases, point or batch and number of parts, d_loss of a neural expression returns the loss that loss() returns and its exact partial derivative with respect to every weight and every bias - zero for inactive ones - wherever that derivative exists (cross entropy with labels summing to one). This holds after any history of setting or mutating the chromosome, weights, biases and output nonlinearities, copying, assigning and training; the single-point form adds to the values passed in, wrong sizes are refused with std::invalid_argument, and computing a gradient changes nothing.",
  ["inputs", "histories", "configurations"],
  "All chromosomes, weights, points, labels and operation histories.",
  "Tests compare with numerical derivatives on a few random networks; stale connection bookkeeping or one kernel's derivative in one regime escapes them.",
  [ANN],
  [("d_loss (point and batch)", ANN), ("update_data_structures (m_connected), fill_nodes", ANN)],
  "exhaustive enumeration of chromosomes and operation histories, gradient compared with exact forward-mode differentiation of a reference network",
  "All (or near-base) chromosomes of small shapes x weights x points, histories to depth 3 (4 thorough), relative 1e-7; points closer than 1e-9 to a kink of ReLu, abs or step are skipped.")

P("A03", "An epoch of sgd is gradient descent over consecutive batches of the data",
  "sgd updates weights and biases by minus the learning rate times the mean gradient of each consecutive batch (the last one may be shorter), each gradient taken at the weights left by the previous batch, and returns the mean of the batch losses; with shuffling, that holds for the data as left in the caller's vectors, which are the same (point, label) pairs in another order, and without it they are untouched. The number of parallel parts only affects rounding, in every schedule, without data races. Weights of inactive connections never change. Mismatched or empty data, an illegal learning rate, batch size, loss name or number of parts is refused with std::invalid_argument leaving the weights and the data unchanged.",
  ["inputs", "schedules", "histories"],
  "All networks, data, batch sizes, learning rates, numbers of parts and interleavings of the parts.",
  "Tests check that training reduces the loss in a few cases.",
  [ANN],
  [("sgd, update_weights", ANN), ("d_loss (parallel)", ANN)],
  "exhaustive enumeration of (network, data size, batch size, parts, histories) against a reference epoch, and stateless exploration of all schedules of the parallel parts",
  "Data sizes 1-6, all batch sizes and parts, histories to depth 2; schedules with at most 2-3 preemptions, TBB's parallel_for replaced by one thread per part (shim_tbb).")

SR = "include/dcgp/problems/symbolic_regression.hpp"
P("S01", "The fitness of a decision vector is the loss of the formula it encodes",
  "For every legal decision vector (ephemeral constants followed by a legal chromosome), the fitness of a symbolic_regression problem is the loss (MSE, or cross entropy of the softmax) over the data of the expression with that chromosome and those constants, as computed in doubles and including the phenotype correction if one is set, and - in the multi-objective form - the number of its active genes. predict returns that expression's (corrected) outputs at a point or at each of several points and pretty prints its formulas over x0, x1, ... and c1, c2, ... Each answer depends on the decision vector and the current correction only: not on fitnesses, gradients, Hessians, predictions or formulas asked before, nor on copies and assignments of the problem; the number of parallel batches only affects rounding.",
  ["inputs", "histories", "configurations"],
  "All problems, decision vectors, corrections and sequences of queries.",
  "Tests compare a few decision vectors, each on a fresh problem; values cached or left in the mutable inner expressions by an earlier query escape them.",
  [SR],
  [("fitness, set_cgp, predict, pretty", SR), ("m_cache_fitness", SR)],
  "exhaustive enumeration of decision vectors and of query histories against a reference network and loss",
  "All (or near-base) chromosomes of small shapes x three constant vectors, histories of queries to depth 3 (4 thorough). AuDi is replaced by the stand-in in shim/.")

P("S02", "Gradients and Hessians are the loss's exact derivatives by the constants",
  "For every legal decision vector whose loss is finite and smooth there, gradient returns the exact partial derivative of the loss (MSE or cross entropy, including the phenotype correction if one is set) by each ephemeral constant and hessians its exact second derivatives, whatever the number of constants: component i belongs to constant c(i+1), zero for inactive ones, and the entries are placed as gradient_sparsity (dense, first objective) and hessians_sparsity (lower triangle by rows) say; the complexity objective has zero derivatives.  Protected divisions are differentiated as ordinary ones. The result depends on the decision vector and the current correction only, not on what was evaluated before.".replace(".  ", ". "),
  ["inputs", "configurations"],
  "All problems, numbers of constants and decision vectors.",
  "Tests compare a few hand-computed derivatives with one or two constants.",
  [SR],
  [("gradient, hessians", SR), ("gradient_sparsity, hessians_sparsity", SR)],
  "exhaustive enumeration of decision vectors, derivatives compared with exact second-order forward differentiation of a reference network",
  "All (or near-base) chromosomes of small shapes covering every kernel, 1-12 constants, two constant vectors; relative 1e-7 with an absolute floor scaled to the intermediate results; points within 1e-3 of a kink or singularity only checked for sizes and inactive constants. Trusts the AuDi stand-in.")

P("S03", "A regression problem describes itself truthfully and refuses bad input",
  "A symbolic_regression problem is constructed exactly for non-empty, equally many, equally sized points and labels, at least one row, column, level-back, kernel and (input or constant), an arity of at least two and the loss MSE or CE; anything else is refused with std::invalid_argument. Its bounds are [-10, 10] for each constant followed by the chromosome's bounds, its integer part is the chromosome's length, its objectives are one or two, its extra information states the dimensions, number of points and loss, and it works as a pagmo::problem with gradients and Hessians. Decision vectors encoding no legal chromosome are refused without affecting later answers. Its thread safety level is the weakest of those of its kernels and phenotype corrections.",
  ["configurations", "inputs"],
  "All constructor arguments, decision vectors and thread safety levels.",
  "Tests try one bad value per argument and do not vary the kernels' or corrections' thread safety.",
  [SR],
  [("constructor, sanity_checks", SR), ("get_bounds, get_nix, get_nobj, get_thread_safety", SR)],
  "exhaustive enumeration of constructor arguments, illegal decision vectors and thread safety combinations against the documented contract",
  "All combinations of 11 kinds of data, 3 rows x 3 columns x 3 levels-back x 4 arities x 3 kernel sets x constants x losses; one illegal gene per decision vector; all combinations of three thread safety levels of two kernels and two corrections.")

P("S04", "A regression problem restored from an archive is the one that was saved",
  "Saving a symbolic_regression problem - alone or inside a pagmo::problem, with any structure, loss, objectives, seed, phenotype correction and history of queries - and loading it, from text or binary archives and over any previous target, gives a problem with the same bounds, integer part, objectives, thread safety level and information, the same fitness, gradients, Hessians, predictions and formulas everywhere, and the same future. Saving changes nothing in the saved problem.",
  ["histories", "inputs"],
  "All problems, histories before saving, archive kinds, previous targets and futures.",
  "Tests compare the information of one restored problem.",
  [SR],
  [("serialize", SR)],
  "exhaustive enumeration of (problem, history, archive, previous target, future), the saved and the restored problem run in lock step",
  "Several structures x seeds x histories, three kinds of target, text and binary archives, futures of up to two operations. Corrections are std functions exported for serialization.")

AL = "include/dcgp/algorithms/"
P("L01", "es4cgp and mes4cgp keep the best formula found, mutating nothing else",
  "Evolving any population of a single-objective regression problem gives one of the same size in which every individual is legal, carries its true fitness, is an initial or an evaluated one, and in which the best found is present and no individual was replaced by a worse one. Each generation evaluates one mutant per individual, each differing from a best-so-far individual in at most max_mut genes (any number from one on occurs); its constants are each moved by a random amount of their own with es4cgp, unchanged if learn_constants is false, and with mes4cgp are those after one Newton step on the constants the loss depends on (where the Hessian is positive definite, or for one constant where its second derivative is nonzero). It stops after the first generation whose best is below ftol, else after gen generations. Populations of other problems, of several objectives or smaller than two, max_mut 0 and a negative ftol are refused with std::invalid_argument; the caller's population is unchanged.",
  ["inputs", "histories", "configurations"],
  "All problems, populations, parameters and answers of the random engine.",
  "Tests check that a few seeded evolutions do not fail; they sample a handful of mutations.",
  [AL + "es4cgp.hpp", AL + "mes4cgp.hpp"],
  [("evolve", AL + "es4cgp.hpp"), ("evolve", AL + "mes4cgp.hpp")],
  "stateless exploration of the real algorithms with a scripted random engine: every sequence of draws (bounded), every evaluation recorded and judged against the specification",
  "Seven problems, populations of 2-3 from a set of base chromosomes, 1-3 generations, 2-3 answers for each of the first 3-4 draws (7-10 thorough), later draws fixed. Indefinite Hessians are not judged. AuDi is replaced by the stand-in in shim/.")

P("L02", "moes4cgp and momes4cgp never discard a formula for one it dominates",
  "Evolving any population of a multi-objective regression problem gives one of the same size in which every individual is legal, carries its true loss and complexity and is an initial or an evaluated one. Each generation evaluates one mutant of each individual (at most max_mut genes differ, any number from one on occurs; constants each moved by a random amount of their own with moes4cgp, unchanged if learn_constants is false, one Newton step on the active constants with momes4cgp) and selects the next population from parents and mutants such that none is discarded that dominates one that is kept, and the lowest loss is kept (among distinct finite candidates). momes4cgp takes no mutant with a non-finite loss or with the objectives of one already present. Both stop before the first generation that would start with a loss below ftol, whatever the verbosity, else after gen generations. Populations of other problems, of one objective or smaller than two, max_mut 0 and a negative ftol are refused with std::invalid_argument; the caller's population is unchanged.",
  ["inputs", "histories", "configurations"],
  "All problems, populations, parameters and answers of the random engine.",
  "Tests check that a few seeded evolutions do not fail.",
  [AL + "moes4cgp.hpp", AL + "momes4cgp.hpp"],
  [("evolve", AL + "moes4cgp.hpp"), ("evolve", AL + "momes4cgp.hpp")],
  "stateless exploration of the real algorithms with a scripted random engine: every sequence of draws (bounded), every evaluation recorded and judged against the specification",
  "Bounds as for L01. The population between two generations is not observable: the check follows the set of all populations the specification allows (subset construction) through the generations.")

P("L03", "An evolution is determined by parameters, seed and history alone",
  "For es4cgp, moes4cgp, mes4cgp, momes4cgp and gd4cgp the populations produced by one, two or more successive evolutions are determined by the algorithm's parameters, its seed and the earlier evolutions: equal for an equal algorithm, a copy, one restored from an archive (text or binary, alone or as a pagmo::algorithm, at any point between the evolutions, over any target), for any verbosity and for any batch evaluator of the fitness. No generations leave the population as it is. get_seed returns the seed set; restored and copied algorithms have the same parameters, verbosity and log. The log of an evolution is empty with verbosity 0, else its lines tell the generations, evaluations and best values that occurred.",
  ["histories", "configurations"],
  "All parameters, seeds, problems, sequences of evolutions and points of copying or saving.",
  "Tests compare two runs of one seed; they do not vary verbosity, archives or points of copying.",
  [AL + "es4cgp.hpp", AL + "moes4cgp.hpp", AL + "mes4cgp.hpp", AL + "momes4cgp.hpp", AL + "gd4cgp.hpp"],
  [("serialize, set_seed, set_verbosity, set_bfe, get_log", AL + "es4cgp.hpp"), ("evolve", AL + "moes4cgp.hpp")],
  "exhaustive enumeration of (algorithm, parameters, seed, sequence of evolutions, point and kind of copy or archive, verbosity, evaluator), run in lock step with a reference run",
  "A grid of parameters and seeds, 2-3 successive evolutions. User-provided evaluators may count evaluations differently.")

P("L04", "gd4cgp performs a line search on the constants of one individual only",
  "gd4cgp changes nothing but the ephemeral constants and fitness of the individual its replacement policy names, which becomes the last accepted point of a descent started from the individual its selection policy names. Each step is minus the rate times the normalised gradient at the last accepted point; it is accepted, the rate multiplied by 1.5, exactly if the loss decreases, else the rate is divided by 4. The descent stops when the rate falls below lr_min, the gradient vanishes or is not finite, or after max_iter steps; it does not start from a non-finite loss. The log (empty with verbosity 0) tells the steps and the best loss. Learning rates other than 0 < lr_min < lr, NaN included, and problems that are foreign, multi-objective or without constants are refused with std::invalid_argument.",
  ["inputs", "configurations"],
  "All problems, individuals, rates, iteration counts and policies.",
  "Tests check that the loss decreases in one case.",
  [AL + "gd4cgp.hpp"],
  [("evolve", AL + "gd4cgp.hpp")],
  "exhaustive enumeration of chromosomes x constants x rates x policies, the real descent compared step by step with a reference line search",
  "All (or near-base) chromosomes of small shapes over three kernel sets, 1-3 constants, up to 12 steps (40 thorough).")

GY = "include/dcgp/gym.hpp"
P("G01", "The synthetic gym problems are the documented functions on their domains",
  "Each synthetic problem of the gym (koza_quintic, P1-P7, kotanchek, salutowicz, salutowicz2d, uball5d, ratpol3d, sinecosine, ripple, ratpol2d) generates the documented number of points - equally spaced and including both ends for one variable, spread over the whole documented box otherwise - each labelled with the documented function of that point. Whatever the two vectors contain, whatever was generated before and however earlier results were changed, the same data replace their contents.",
  ["inputs", "histories"],
  "All problems and histories of requests.",
  "The tests compare the labels with the very functions that generated them.",
  [GY],
  [("generate_*, detail functions", GY)],
  "exhaustive enumeration of problems, points and histories of requests against independent formulas",
  "All sixteen problems and all their points; all histories of two earlier requests, results overwritten in between.")
P("G02", "The measured data sets of the gym are the published ones",
  "The gym's measured data (chwirut1, chwirut2, daniel_wood, gauss1, kirby2, lanczos2, misra1b) are those of the NIST StRD data sets of those names: their number of observations and the residual sum of squares of the certified model are the certified ones; luca1 holds its 631 observations unchanged. Whatever the two vectors contain, whatever was generated before and however earlier results were changed, the same data replace their contents.",
  ["inputs", "histories"],
  "All data sets, observations and histories of requests.",
  "The tests check that points and labels are as many.",
  [GY, "include/dcgp/nist_data.hpp", "include/dcgp/misc_data.hpp"],
  [("generate_*", GY), ("data", "include/dcgp/nist_data.hpp"), ("data", "include/dcgp/misc_data.hpp")],
  "exhaustive enumeration of data sets, observations and histories of requests against certified values",
  "All eight data sets and all observations, to the 11 certified digits; luca1 against a fingerprint.")

PYB = " The bindings are compiled against the stand-in for pybind11 in shim_py (real CPython)."
P("P01", "The Python expressions, kernels and kernel sets behave as the documented model",
  "For every class of expression, kernel and kernel set exposed to Python: construction by position, by keyword, with defaults and with seeds yields the structure asked for (equal seeds, equal chromosomes, constants and mutations) and illegal arguments raise ValueError or TypeError; after every sequence of method calls (set, set_f_gene, the mutations, eph_val, eph_symb, weights and biases whole, by node id or by index, randomisation, sgd, set_output_f) the getters, active nodes and genes, values, formulas and losses are those of a reference model, a mutation changes only as many genes of its kind as it was asked to, a refused call raises ValueError, TypeError or IndexError and changes nothing; copies (copy, deepcopy, pickle) equal the original and are independent of it. Kernels compute and print their documented function; kernel sets are lists of kernels, kept in order.",
  ["histories", "inputs"],
  "All call sequences, argument forms, shapes and types of numbers.",
  "dcgpy/test.py calls most methods once with values of the right type; swapped arguments, indices against node ids, defaults and aliasing need other values or sequences.",
  ["dcgpy/expose_expressions.cpp", "dcgpy/expose_kernels.cpp", "dcgpy/common_utils.hpp", "dcgpy/docstrings.cpp"],
  [("expose_expression", "dcgpy/expose_expressions.cpp"), ("expose_kernels", "dcgpy/expose_kernels.cpp")],
  "exhaustive exploration of method-call sequences on the bound objects, step by step against a reference model",
  "All sequences of two (thorough: three) of up to 60 calls on 7 classes, 3 shapes, up to 2 constants; constructors over 16 shapes, arities and argument forms; all kernels on grids of arity 1-3; kernel-set histories of length 3." + PYB)
P("P02", "Python kernels and phenotype corrections act as the callables they come from",
  "A kernel made from any two Python callables and a name computes the first on lists of numbers, prints the second on lists of symbols and has that name, also after being copied, pickled, put in a kernel set or in an expression (among built-in kernels, in any order); expressions over such kernels have the values, formulas and losses of the encoded graph. It keeps the callables as they were at construction: later changes to them, or to another copy, are not seen. A phenotype correction pc set on an expression makes every value and loss that of pc(x, g), g being the expression at that moment, through every later change, copy and pickling, until it is unset. An exception raised by a callable reaches the caller as it is and leaves the objects usable; an answer of the wrong type raises an exception.",
  ["histories", "inputs", "fault_sequences"],
  "All callables, chromosomes, histories and exceptions.",
  "dcgpy/test.py uses one user kernel per type and one correction, once.",
  ["dcgpy/expose_kernels.cpp", "dcgpy/pybind11_function.hpp", "include/dcgp/function.hpp", "dcgpy/expose_expressions.cpp"],
  [("function_inner<py::object>", "dcgpy/pybind11_function.hpp"), ("kernel(py::object)", "dcgpy/expose_kernels.cpp"), ("set_phenotype_correction", "dcgpy/expose_expressions.cpp")],
  "exhaustive exploration of histories of Python kernels and corrections, against the callables themselves and a reference model of the expression",
  "Eight kinds of callables, histories of length 4 (5) for independence and 3 (4) for corrections, nine exceptions, chromosomes of three shapes within two genes of their bases." + PYB)
P("P03", "Symbolic regression problems and their algorithms behave in Python as documented",
  "A symbolic_regression constructed from Python (lists, tuples or arrays of any layout, by position or keyword, with defaults) has the data, structure, bounds, kernels and loss asked for; its fitness, gradient, hessians, sparsity patterns, predictions (of one point or several), formulas and description are those of the encoded expression for every decision vector, also after copying, pickling, inside a pygmo problem and with phenotype corrections set and unset in any order. What C++ refuses raises ValueError, what is no argument TypeError, an exception of a correction comes through. The five algorithms report exactly the arguments given (or the documented defaults), and evolve a population - through pygmo or directly, before or after pickling - to the same legal individuals for equal seeds, whose fitness is that of the problem, no worse than before and with constants and genes changed only where the algorithm may; they log one typed line per generation asked for and refuse problems of another kind or number of objectives and too small populations with ValueError.",
  ["histories", "inputs", "configurations"],
  "All data, structures, decision vectors, histories, arguments and seeds.",
  "dcgpy/test.py constructs one problem, runs each algorithm once with one set of arguments and compares representations; the defaults of gd4cgp could not even be constructed.",
  ["dcgpy/expose_symbolic_regression.cpp", "dcgpy/common_utils.hpp", "dcgpy/core.cpp", "include/dcgp/problems/symbolic_regression.hpp", "include/dcgp/algorithms"],
  [("expose_symbolic_regression", "dcgpy/expose_symbolic_regression.cpp"), ("extract_sr_cpp_py", "dcgpy/core.cpp"), ("ndarr_to_vvector, sp_to_ndarr, udx_pickle_getstate", "dcgpy/common_utils.hpp")],
  "exhaustive exploration of constructor forms, decision vectors, correction histories and algorithm configurations on the bound objects, against a Python reference model",
  "1728 constructions, decision vectors of 40 problems within one gene of their bases, correction histories of length 3 (4), all argument combinations of the algorithms from two values each, evolutions over 3 seeds x 3 numbers of generations x 3 population sizes x 3 problems; pygmo is a stand-in over real pagmo types where the sandbox has none." + PYB)
P("P04", "The gym and the array conversions give Python the data that C++ has",
  "Each of the 24 data sets of the gym is available in Python under its name as two arrays of its own whose contents are the documented formula on the documented domain, or the published measurements, whatever was requested before and whatever was done to the arrays given out; to_vv and from_vv convert between two-dimensional arrays of any layout or type and lists of lists without changing a bit, refusing what is ragged, empty or not two-dimensional with ValueError.",
  ["inputs", "histories"],
  "All data sets, arrays and layouts.",
  "test.py requests one data set; the C++ gym test does not touch the bindings.",
  ["dcgpy/expose_symbolic_regression.cpp", "dcgpy/common_utils.hpp", "include/dcgp/gym.hpp"],
  [("expose_data_from_the_gym, to_vv, from_vv", "dcgpy/expose_symbolic_regression.cpp"), ("ndarr_to_vvector, vvector_to_ndarr", "dcgpy/common_utils.hpp")],
  "exhaustive enumeration of data sets x preceding requests and of array shapes x contents x layouts, against formulas, certified residuals and the arrays themselves",
  "All 24 data sets after every other (thorough: every pair of others); arrays up to 4 x 4 with eight special values, eight layouts and forms, five element types." + PYB)
P("P05", "encode_ffnn encodes exactly the requested feed-forward network",
  "For all numbers of inputs and outputs, lists of layer sizes and of nonlinearities (one per hidden layer and one for the outputs) and levels-back, dcgpy.encode_ffnn returns an expression_ann whose active nodes are the inputs and exactly one node per neuron, each fully connected to the nodes of the previous layer and computing the nonlinearity of its layer, the outputs being the neurons of the last layer; hence, for arbitrary weights and biases set by node id, its value is the forward pass of the network. The arguments are left as they were. Lists of inconsistent length, unknown kernels, kernels that are no nonlinearity of a network and empty layers raise ValueError.",
  ["inputs", "configurations"],
  "All network shapes, assignments of nonlinearities and orders of the set of their names.",
  "The only test encodes three networks and compares the number of active weights.",
  ["dcgpy/_encode.py", "dcgpy/expose_expressions.cpp", "include/dcgp/expression_ann.hpp"],
  [("encode_ffnn", "dcgpy/_encode.py"), ("get/set weight and bias", "dcgpy/expose_expressions.cpp")],
  "exhaustive enumeration of networks x nonlinearities x hash orders, real Python code vs structural reading and forward pass",
  "1-3 inputs and outputs, up to 2 hidden layers of 1-3 (4 thorough) neurons and some of 3 layers, all assignments of three nonlinearities plus mixed ones, all orders in which a set can give back the names." + PYB)
P("P06", "Simplified formulas are the functions the expression prints",
  "For every expression (double, gdual_double or gdual_vdouble, weighted or not, with or without ephemeral constants), chromosome and input symbols, simplify returns one sympy expression per output that equals the printed formula wherever this is finite, with the values in erc in place of the last inputs and constants (constants follow the inputs) and, if subs_weights, the weights' values in place of their symbols; no symbol thus replaced remains. The expression and the arguments are left as they were. A number of symbols other than that of the inputs, and more values than inputs and constants, raise ValueError.",
  ["inputs", "configurations"],
  "All chromosomes, kernels, symbols, weights and constants.",
  "The existing test simplifies three formulas; mistakes in the order of weights or constants need particular arities and positions.",
  ["dcgpy/_simplify.py", "dcgpy/expose_expressions.cpp"],
  [("_sympy_simplify", "dcgpy/_simplify.py")],
  "exhaustive enumeration of chromosomes x kernels x options, simplified and printed formulas compared at points in 40-digit arithmetic",
  "Chromosomes of seven small shapes near their bases, eight kernel sets, six classes, three points; sympy itself is trusted to print what it means." + PYB)
P("P07", "Drawings show the encoded graph",
  "For every expression, chromosome and set of options, the graphviz graph returned by visualize shows exactly one node per input (named by in_sym, x_i by default), per function node (named by its kernel, + - * / for the arithmetic ones) and per output (o_i), with one edge per connection from its source, in the order of the arguments, its weight's symbol if asked; active nodes are solid, inactive ones dashed or, if not wanted, invisible. A non-empty in_sym of the wrong length raises ValueError. For an expression_ann, the drawing consists of one circle per input, node and output, in columns in the order of the encoding, without overlap and inside the limits, one line per connection of an active node (also of inactive ones if asked, none at all if not wanted) and per output, stronger for greater weights; active nodes are marked, nonlinearities coloured as the legend says, whatever the shape and the weights. The expression does not change.",
  ["inputs", "configurations"],
  "All chromosomes, shapes, weights and options.",
  "No test calls visualize.",
  ["dcgpy/_visualize.py"],
  [("_graphviz_visualize", "dcgpy/_visualize.py"), ("_dcgpann_visualize", "dcgpy/_visualize.py")],
  "exhaustive enumeration of chromosomes x options, the drawing recorded and matched with the encoded graph",
  "All (or near-base) chromosomes of 18 small shapes over six kernel sets, all options; graphviz and matplotlib are replaced by recorders, so only what is asked of them is judged." + PYB)
