SCHED = "Stateless model checking of the real code: source-set DPOR over every schedule of bounded scenarios, under a controlled scheduler"
ENUM = "Bounded exhaustive enumeration of operation sequences and inputs, executed on the real code and compared with an explicit reference model"
HIST = "Explicit-state exploration of every operation history up to a depth, each step of the model replayed on the real code"
FAULT = "Exhaustive enumeration of fault points (every byte at which a write or a read can fail) injected into the real code"
TRUST = " Trusts the Go toolchain and the reference model in /verif/mc."

def P(id, title, statement, over, quant, tests, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests,
                files=files, mech=mech, technique=technique, note=note + TRUST)

PROPS = [
P("E01", "Asynchronous forward evaluation is transparent, bounded and terminates",
  "Whatever mix of operators is evaluated synchronously or asynchronously, and whatever the interleaving of the evaluating and reading goroutines, every operator is evaluated exactly once, after its operands, and every reader gets the value that sequential evaluation yields. Evaluation always terminates, without a data race, leaves no goroutine behind, and never has more asynchronous evaluations in progress than its limit. Forcing synchronous execution changes nothing but the concurrency, and every way to look at an operator (its shape, size, elements, gradients and the rest) waits for its value.",
  ["schedules", "programs", "configurations"], "every schedule (up to commutation of independent steps) of every operator graph of up to 3 operators over 3 leaves with every subset of asynchronous operators, one or several readers, 1 or 8 CPUs, and more operators than the limit of concurrency",
  "The tests run a graph under the schedules which the Go scheduler happens to choose; the ones which lose a wake-up, read a value early, or exhaust the concurrency budget are not reached.",
  ["ag/operator.go", "ag/operators.go", "ag/operator_tensor.go"],
  [("operator evaluation and its condition variable", "ag/operator.go"), ("limit of concurrent evaluations and forced synchronous mode", "ag/operator.go")],
  SCHED, "Every interleaving of the stated scenarios at synchronisation operations, with race-freedom between them checked by the race detector along each explored schedule."),
P("E02", "Backward gives the same, exact gradients under every schedule",
  "For every graph and every interleaving of the goroutines that propagate gradients, each operator's backward function runs exactly once per pass, only after all the gradients of its own consumers have been accumulated, and every leaf, parameter and operator ends with the same gradient as a sequential pass. The call returns only when everything has been propagated, with no data race, deadlock or goroutine left behind.",
  ["schedules", "programs", "histories"], "every schedule (up to commutation) of backward passes on every graph of up to 2 operators (3 in the thorough tier), chains, diamonds, fans and products, from one root or several, run once or twice",
  "The tests observe one schedule per run; the propagation counts pending gradients with atomics and launches goroutines, and a lost or early propagation needs a particular interleaving.",
  ["ag/backward.go", "ag/operator.go", "mat/dense_grad.go"],
  [("backward propagation", "ag/backward.go"), ("pending gradients accounting", "ag/operator.go"), ("gradient accumulation", "mat/dense_grad.go")],
  SCHED, "Every interleaving of the stated scenarios; integer values make the result independent of the order of additions."),
P("E03", "Backward histories: gradients accumulate, reset and fail cleanly",
  "Over any history of backward passes, gradient resets, manual gradient accumulation and value changes on a shared graph, the gradients of every leaf, parameter and operator equal those of a sequential model: passes add up on what is present, resets clear, roots given twice count once, values which require no gradients (detached ones included) receive none. A pass which cannot run reports an error or panics before changing any gradient, and a function which reports an error ends the process with it, without yielding any result.",
  ["histories", "programs"], "every history up to the depth over every graph of the stated family, with every choice of roots and of values that require gradients",
  "The tests run a single pass on a fresh graph; how passes, resets, detached values and repeated roots combine is a matter of histories.",
  ["ag/backward.go", "ag/operator.go", "ag/gradientblocker.go", "mat/dense_grad.go", "nn/param.go", "nn/buffer.go"],
  [("backward entry point and visit", "ag/backward.go"), ("gradient storage", "mat/dense_grad.go, ag/operator.go"), ("detached values", "ag/gradientblocker.go, nn/buffer.go")],
  HIST, "Every history of the stated alphabet and depth, each replayed on the real engine and compared after every step."),
P("E04", "Concurrent use of shared parameters loses no gradient",
  "Goroutines that concurrently build graphs over shared leaves or parameters and run backward passes on them, or accumulate, read and clear gradients of one tensor, produce the result of some sequential order: no contribution is lost or counted twice and there is no data race or deadlock.",
  ["schedules", "histories"], "every schedule (up to commutation) of 2-3 goroutines with shared leaves or operators, or with sequences of up to 2 gradient operations on one tensor",
  "The tests have no concurrent training, and a lost update needs a particular interleaving.",
  ["mat/dense_grad.go", "ag/backward.go", "ag/operator.go", "nn/param.go"],
  [("gradient accumulation under a lock", "mat/dense_grad.go"), ("propagation through shared operators", "ag/backward.go, ag/operator.go")],
  SCHED, "Every interleaving of the stated scenarios."),
P("E05", "Uses that share nothing, or share only what they read, never interfere",
  "Goroutines that at the same time apply functions and run backward passes, operate on matrices, run, dump, load and traverse models, take optimizer steps, compute losses, initialize, draw random numbers, print, or encode matrices, each with values of its own or with shared values that they only read (a frozen model, a model used for inference, an operand, a matrix), obtain exactly what each obtains when nothing else runs, and the gradients which they accumulate in shared parameters are the sum of their contributions; there is no data race.",
  ["schedules", "programs"], "every function, matrix operation, model, optimizer, loss, initializer and codec x values of its own or shared x every order of the synchronizing operations of two goroutines (pools and maps included), each execution watched for data races",
  "Hidden state shared between uses (a scratch matrix, a pool, a cache, a package variable) is harmless in sequential tests and corrupts results only when two goroutines are inside at once.",
  ["mat/gradfn/mul.go", "mat/dense.go", "mat/dense_grad.go", "mat/dense_formatting.go", "ag/operator.go", "ag/backward.go", "nn/traversal.go", "nn/gob.go", "mat/rand/lockedrand.go"],
  [("functions", "mat/gradfn"), ("matrices and their pools", "mat"), ("models, traversals, dumps", "nn"), ("optimizers, losses, random numbers", "gd, losses, mat/rand")],
  SCHED, "Every order of the synchronizing operations of the two goroutines, in nearly all scenarios; shared trained models with many parameters up to one preemption."),
P("G01", "Element-wise operators compute their definition and its exact gradient",
  "Every element-wise operator (mathematical functions, activations and their parameters, binary operations, operations with a scalar, and sums, means, maxima and minima of lists) yields its definition, and its backward pass adds to each operand that requires gradients, the parameters of an activation included, exactly the derivative of that definition times the gradient of the output. Operands which require none get none, no operand is modified, an operand given twice gets both contributions, and the result requires gradients exactly when an operand does.",
  ["inputs", "programs"], "every element-wise operator x data type x shape x value sets on both sides of every kink x kind of operand (leaf, parameter, operator, leaf with gradients) x subset of operands which require gradients x dense and sparse output gradients",
  "The tests check one vector per operator with all the operands requiring gradients; partial subsets, scalars, repeated operands and existing gradients are not covered.",
  ["ag/operators.go", "mat/gradfn/unaryelementwise.go", "mat/gradfn/misc.go", "mat/gradfn/div.go", "mat/gradfn/prod.go"],
  [("operators", "ag/operators.go"), ("functions and derivatives", "mat/gradfn")],
  ENUM, "Exhaustive over the stated operators, shapes and subsets; derivatives are compared with central differences of the reference definitions."),
P("G02", "Linear-algebra and structural operators have exact values and gradients",
  "Every product, affine and bilinear map and every structural operator (transposition, reshaping, slicing, views, element access, rotation, concatenation, stacking, appending, splitting) yields its definition with every element at its place, and its backward pass adds to each operand that requires gradients exactly the derivative of that definition times the gradient of the output, whichever subset of operands requires gradients, without modifying the operands or the gradient given to it.",
  ["inputs", "programs"], "every operator x data type x shape and valid argument x kind of operand x subset of operands which require gradients x dense and sparse output gradients",
  "The tests check one shape per operator with all the operands requiring gradients; index arithmetic and gradient routing fail for particular shapes, arguments and subsets.",
  ["ag/operators.go", "mat/gradfn/affine.go", "mat/gradfn/concat.go", "mat/gradfn/mul.go", "mat/gradfn/slice.go", "mat/gradfn/stack.go", "mat/gradfn/rotater.go"],
  [("operators", "ag/operators.go"), ("functions and derivatives", "mat/gradfn")],
  ENUM, "Exhaustive over the stated operators, shapes, arguments and subsets; derivatives are compared with central differences of the reference definitions."),
P("G03", "Reductions and normalisation operators have exact values and gradients",
  "Sums, means and maxima of a tensor or of a list of scalars, softmax, log-softmax, log-sum-exp, sparsemax, the sparsemax loss and max pooling yield their definition for every shape, and their backward pass adds to each operand that requires gradients exactly the derivative of that definition times the gradient of the output.",
  ["inputs", "programs"], "every operator x data type x shape (and pooling window) x value sets x kind of operand x subset of operands which require gradients x dense and sparse output gradients",
  "The tests check one vector per operator with one output gradient; position of the maximum, size of the support, non-square windows and partial subsets are not covered.",
  ["ag/operators.go", "mat/gradfn/softmax.go", "mat/gradfn/sparsemax.go", "mat/gradfn/maxpooling.go", "mat/gradfn/reducemax.go", "mat/dense.go"],
  [("operators", "ag/operators.go"), ("functions and derivatives", "mat/gradfn")],
  ENUM, "Exhaustive over the stated operators, shapes and subsets."),
P("G04", "Activations and normalisations are stable for values of any magnitude",
  "Activation functions, softmax, log-sum-exp and sparsemax, and their derivatives (those of their parameters included), are finite and equal to their mathematical definition within rounding for every input whose true result is representable, however large, small or spread the inputs are, and on every implementation the platform can select.",
  ["inputs", "configurations"], "every activation over a grid of magnitudes from 1e-30 to 1e30 of both signs with several parameters, and vectors with every offset and spread of a list, for both data types and the AVX2, AVX-less and pure Go implementations",
  "The tests use inputs of magnitude about one; overflow and cancellation appear only at other magnitudes, and differ by implementation.",
  ["mat/gradfn/softplus.go", "mat/gradfn/celu.go", "mat/gradfn/softmax.go", "mat/gradfn/misc.go", "mat/dense.go"],
  [("activations and derivatives", "mat/gradfn"), ("softmax and log-sum-exp", "mat/dense.go")],
  ENUM, "Exhaustive over the stated grid; the oracle uses overflow-free formulas."),
P("M01", "Element-wise operations, functions and reductions compute their definition",
  "Every element-wise operation, mathematical function, norm and reduction of a matrix yields what its mathematical definition gives, for every size (the empty matrix included), layout, data type and memory alignment, on every implementation the platform can select, and never reads or writes outside the operands.",
  ["inputs", "configurations"], "every size 0..66 (more in the thorough tier) in row, column and rectangular layout, both data types, aligned and unaligned memory, special values at every position, for the AVX2, AVX-less and pure Go implementations",
  "The tests use a few small matrices; the vectorised kernels take different paths by size modulo lane width, alignment, CPU features and build tags.",
  ["mat/dense.go", "mat/mathfunctions.go", "mat/internal/matfuncs/exp.go", "mat/internal/matfuncs/add_amd64.go", "mat/internal/f32/gonum.go", "mat/internal/f64/gonum.go"] ,
  [("dense matrix operations", "mat/dense.go"), ("vectorised kernels and their selection", "mat/internal")],
  ENUM, "Exhaustive over the stated sizes, layouts, alignments and special values."),
P("M02", "Matrix products equal their definition for every shape",
  "The product of two matrices, with or without a transposed operand, equals the sum-of-products definition within rounding for every combination of dimensions, data types of the operands and contents, on every implementation the platform can select; the operands are never modified and nothing outside the result is written.",
  ["inputs", "configurations"], "every combination of rows, inner size and columns from the stated lists (crossing all block and lane boundaries), data types, and dense, sparse and zero contents",
  "Blocked and vectorised products have boundary code per size class, while the tests use a handful of shapes.",
  ["mat/dense.go", "mat/internal/f32/gonum.go", "mat/internal/f64/gonum.go"],
  [("products", "mat/dense.go"), ("blocked product and kernels", "mat/internal")],
  ENUM, "Exhaustive over the stated dimensions and contents."),
P("M03", "Structural operations place every element where documented",
  "Every operation which rearranges, selects, joins, pads, resizes or constructs matrices yields exactly the documented shape with every element at its documented place, for every shape and every valid argument and both data types, and leaves its operands unchanged.",
  ["inputs"], "every shape up to the bound (empty ones included) with every valid argument, both data types",
  "The tests check one or two shapes per operation; index arithmetic fails on particular shapes (single rows, single columns, empty, non-square) and argument ranges.",
  ["mat/dense.go", "mat/dense_new.go", "mat/matrix.go"] ,
  [("structural operations", "mat/dense.go")],
  ENUM, "Exhaustive over the stated shapes and arguments."),
P("M04", "Matrices never share state: results and operands stay independent",
  "After any sequence of matrix operations, changing one matrix in place (its values, its shape or its gradients) changes no other matrix: every operation that returns a new matrix returns independent values, shape and gradients, and operations on a matrix never modify their other operands.",
  ["histories"], "every history of operations up to the depth, on every choice of existing matrices (the same one twice included), followed by in-place changes",
  "Aliasing shows only when an operation is followed by a mutation of its operand or result; the tests check results of single operations.",
  ["mat/dense.go", "mat/dense_new.go", "mat/dense_grad.go", "mat/matrix.go"],
  [("construction and cloning of matrices", "mat/dense_new.go"), ("in-place operations", "mat/dense.go")],
  HIST, "Every history of the stated alphabet up to the stated depth, compared step by step with a copy-semantics model."),
P("O02", "An optimisation step updates every parameter exactly once",
  "Whatever the schedule, one optimisation step applies the update rule exactly once to every distinct parameter that has gradients, clears their gradients, touches no other parameter, and returns only when all the updates are complete, with the error of any update that failed. The updates in progress at once never exceed the limit, and nothing is left running.",
  ["schedules", "fault_sequences"], "every schedule (up to commutation) of steps over up to 3 parameters with every subset of parameters with gradients and of failing updates, and parameters given more than once",
  "The updates run in goroutines; the tests run one schedule and do not inject failing updates.",
  ["optimizers/optimizer.go", "nn/traversal.go"],
  [("concurrent application of the updates", "optimizers/optimizer.go"), ("stream of parameters", "nn/traversal.go")],
  SCHED, "Every interleaving of the stated scenarios."),
P("N01", "Traversals of a model reach every parameter exactly where documented",
  "Visiting the parameters of a model, applying a function to its sub-models, listing, streaming or clearing its parameters reaches every parameter and sub-model held by the exported fields of the model and of its sub-models, directly or through pointers, interfaces, and slices, arrays and maps of them, in the order of the structure, and skips nil members; the strict visit skips the sub-models. A stream delivers the same parameters, always closes, stops on cancellation and leaves nothing running.",
  ["programs", "schedules", "histories"], "every model structure of the stated family (nested modules, lists, maps, slices, pointers, shared and nil members), and every schedule of the streams with every cancellation point",
  "The tests visit a few structures to the end; nil, shared and deeply nested members, and stops at each position under each schedule, are not visited.",
  ["nn/traversal.go", "nn/module.go", "nn/model.go"],
  [("visit of the parameters and sub-modules", "nn/traversal.go"), ("stream of parameters", "nn/traversal.go")],
  SCHED + "; " + ENUM[0].lower() + ENUM[1:], "Every structure of the stated family and every schedule of the streams."),
P("N02", "Recurrent and bidirectional networks equal their step-by-step definition",
  "Running a recurrent network over a sequence yields, at every step, what its documented equations give from the previous state, whatever way the sequence is split into calls that hand over the state; a bidirectional network yields the merge of its two directions, the backward one over the reversed sequence, each aligned with its input, whatever the schedule. A sentence-state LSTM yields what its gated equations give after its number of steps, for every length of the sentence. Running a network changes neither its parameters nor its inputs. None of this depends on which parameters and inputs require gradients, and the gradients are the derivatives of what is computed.",
  ["inputs", "histories", "schedules"], "every sequence length up to the bound and every split of it, sizes up to the bound, every merge type, with and without an initial state, and every schedule of the two directions",
  "The tests run one sequence of two or three steps; state hand-over, alignment of the reversed outputs and the concurrency of the directions are not exercised.",
  ["nn/recurrent/lstm/lstm.go", "nn/recurrent/gru/gru.go", "nn/recurrent/srn/srn.go", "nn/birnn/birnn.go", "nn/gnn/slstm/slstm.go"],
  [("recurrent steps", "nn/recurrent"), ("sentence-state steps", "nn/gnn/slstm/slstm.go"), ("bidirectional processing and merging", "nn/birnn/birnn.go")],
  SCHED + "; " + ENUM[0].lower() + ENUM[1:], "Every sequence, split and schedule within the bounds."),
P("N05", "Embeddings tables keep exact rows and gradients over any history",
  "Over any history of look-ups, gradient accumulations, resets and updates, from one goroutine or several, each embedding has the value last stored in its row and the sum of the gradients accumulated since its last reset; rows never touched have none, and the traversal of the trainable parameters and the count of rows with gradients report exactly the rows with gradients.",
  ["histories", "schedules"], "every history up to the depth over a small table, and every schedule of 2-3 goroutines with look-ups, graphs, counts, traversals and resets",
  "The tests look up a few rows once; the book-keeping of rows with gradients is a matter of histories and interleavings.",
  ["nn/embedding/embedding.go"],
  [("table of embeddings and book-keeping of gradients", "nn/embedding/embedding.go")],
  SCHED + "; " + HIST[0].lower() + HIST[1:], "Every history and schedule within the bounds."),
P("R01", "Random generators are deterministic, in range and safe to share",
  "Two generators with the same seed give the same sequence whatever mix of draws is requested, reseeding restarts it, and different kinds of draw always stay in their documented range. Goroutines that share a generator get together exactly the sequence that one goroutine would, each part of it once. A request that is refused (an empty range, a negative length) leaves the generator usable and its sequence as it was.",
  ["histories", "schedules", "inputs"], "every sequence of draws up to the depth from several seeds, and every schedule of 2-3 goroutines with 1-3 draws of every kind",
  "The tests draw from one generator in one goroutine; sharing, reseeding and mixes of draws are matters of schedules and histories.",
  ["mat/rand/lockedrand.go", "ag/rand.go"],
  [("lock-protected generator", "mat/rand/lockedrand.go"), ("global generator", "ag/rand.go")],
  SCHED + "; " + HIST[0].lower() + HIST[1:], "Every history and schedule within the bounds."),
P("N03", "Attention equals its definition, incrementally too",
  "Scaled dot-product attention yields for every query the average of the values weighted by the softmax of the scaled products with the keys; with a causal mask no query attends a later position. Self-attention that processes a sequence in any number of calls handing over the cache yields the results, the weights and the cache of the whole sequence processed at once (causal), and a multi-head model merges exactly its heads; in cross-attention the keys and values computed by the first call serve all the later ones. None of this depends on which parameters and inputs require gradients, and the gradients, through the caches too, are the derivatives of what is computed.",
  ["inputs", "histories"], "every number of queries and keys up to the bound, causal or not; every split of a sequence into successive calls; several sizes and numbers of heads; both data types",
  "The tests process one sequence in one call, or two; the alignment of mask and cache fails for particular splits and lengths.",
  ["nn/attention/attention.go", "nn/attention/selfattention/model.go", "nn/attention/multiheadattention/model.go"],
  [("attention function and mask", "nn/attention/attention.go"), ("self and cross-attention, cache", "nn/attention/selfattention/model.go"), ("heads and merging", "nn/attention/multiheadattention/model.go")],
  HIST, "Every split of every sequence within the bounds, compared with the definition on the whole sequence."),
P("N04", "The CRF computes exact likelihoods and best sequences",
  "The negative log-likelihood of a sequence of labels equals the logarithm of the sum of the exponential scores of all the sequences minus the score of the given one, for scores of any magnitude, and decoding returns a sequence whose score is the greatest of all the sequences (transitions from the start and to the end included), also when some transitions are forbidden by an infinite score. The gradients of the likelihood are its derivatives.",
  ["inputs"], "every target sequence for every number of labels and length up to the bound, with scores of ordinary and large magnitude; every table of emission and transition scores over small alphabets",
  "The tests have one example of likelihood and one of decoding; back-pointers, boundary transitions and overflows depend on the table of scores.",
  ["nn/crf/crf.go", "nn/crf/viterbi.go"],
  [("partition function and gold score", "nn/crf/crf.go"), ("Viterbi decoding", "nn/crf/viterbi.go")],
  ENUM, "Exhaustive over the stated tables; the oracle enumerates all the sequences of labels."),
P("N06", "Convolutions and pooling equal their definition",
  "One- and two-dimensional convolutions yield, for every output channel, the activation of the sum over its input channels (the ones the mask selects; only its own one if depthwise) of the sliding products with the kernel plus the bias, for every geometry and stride; pointwise convolutions mix the channels of each position; max pooling yields the maximum of each window. Parameters of masked channels require no gradients, and configurations with inconsistent channels, strides that do not fit and windows that do not tile the input are rejected. None of this depends on which parameters and inputs require gradients, and the gradients are the derivatives of what is computed.",
  ["inputs", "configurations"], "every kernel, input size and stride up to the bound x channels x masks x depthwise x activations, both data types",
  "The tests use square inputs and kernels with few channels; exchanged rows, columns, strides or channels show only in asymmetric geometries.",
  ["nn/convolution/convolution.go", "nn/convolution/convolution1d/model.go", "nn/convolution/convolution2d/model.go", "nn/convolution/conv1x1/model.go", "nn/pooling/pooling.go"],
  [("convolutions", "nn/convolution"), ("max pooling", "nn/pooling")],
  ENUM, "Exhaustive over the stated geometries and configurations."),
P("N07", "Normalisation layers equal their definition over training histories",
  "Layer, simple layer, root mean square, scale, fixed and adaptive normalisations yield their documented formula for every size and magnitude of the inputs. Batch normalisation uses in evaluation the running statistics and in training those of the batch, and every training step updates the running mean and deviation by the momentum formula, over any history of training and evaluation steps; the statistics never receive gradients, and nothing else is changed. The outputs of earlier steps, and their gradients, are not affected by later ones.",
  ["inputs", "histories"], "every layer x sizes x numbers of inputs x magnitudes; every history, up to the depth, of training batches of several sizes and evaluations, for several momenta",
  "The tests run one forward step of each layer; running statistics are a matter of histories.",
  ["nn/normalization/batchnorm/batchnorm.go", "nn/normalization/layernorm/layernorm.go", "nn/normalization/adanorm/adanorm.go", "nn/normalization/rmsnorm/rmsnorm.go", "nn/normalization/scalenorm/scalenorm.go"],
  [("running statistics", "nn/normalization/batchnorm/batchnorm.go"), ("layers", "nn/normalization")],
  HIST, "Every history of the stated alphabet and depth."),
P("N08", "Models give exact gradients to whichever parameters and inputs need them",
  "For every model of the library, a backward pass from any of its outputs adds to each parameter and input that requires gradients exactly the derivative of the computed function, whichever others require gradients, and gives none to the ones that do not; it changes no value, and frozen models and inputs stay so. This holds in synchronous and asynchronous execution.",
  ["inputs", "programs", "configurations"], "every model x configurations x lengths x data types x a family of subsets of parameters and inputs that require gradients (all, none, parameters, inputs, each one, all but each one) x gradients on all the outputs, the first or the last",
  "The tests check the gradients of one configuration with everything trainable; frozen parameters and single outputs are not covered.",
  ["nn/model.go", "nn/recurrent/lstm/lstm.go", "nn/attention/attention.go", "nn/crf/crf.go", "nn/gmlp/model.go", "nn/mlpmixer/mixerblock.go", "nn/gnn/slstm/slstm.go", "ag/backward.go"],
  [("models", "nn"), ("backward pass", "ag/backward.go")],
  ENUM, "Exhaustive over the stated models and subsets; derivatives are compared with central differences of the definitions."),
P("N10", "Feed-forward, gating and mixing models equal their definition",
  "Linear, squared distance, highway, activation, flattening, spatial gating, gated MLP and MLP-mixer models yield their documented formula for every size, number of inputs, activation (with its parameters) and padding, give one output for each input in order, and change neither parameters nor inputs. None of this depends on which parameters and inputs require gradients, and the gradients are the derivatives of what is computed.",
  ["inputs", "configurations"], "every model x sizes x numbers of inputs x activations, both data types, asynchronous and synchronous execution",
  "The tests check one configuration of each; padding, single elements and the order of the outputs are not covered.",
  ["nn/linear/linear.go", "nn/highway/highway.go", "nn/activation/activation.go", "nn/sgu/model.go", "nn/gmlp/model.go", "nn/mlpmixer/mixerblock.go", "nn/sqrdist/sqrdist.go", "nn/flatten/flatten.go"],
  [("models", "nn")],
  ENUM, "Exhaustive over the stated configurations."),
P("S01", "The binary form of a matrix is exact, and malformed data are rejected",
  "Encoding a matrix and decoding it, directly or within gob streams, lists and interfaces, gives back the same shape, data type, flag of required gradients and bit-exact values, for every shape (empty ones included) and every value (infinities, any NaN, signed zeros and subnormals included), wherever the data lie in memory. The decoded matrix and the data stay independent. Malformed, truncated or other-typed data give an error, which leaves the target unchanged, or a consistent matrix; they never cause a panic, an access outside the data or an unbounded allocation.",
  ["inputs", "fault_sequences"], "every shape up to the bound x data types x special values at every position x alignments; every truncation and every value of every byte of the encodings of the stated shapes",
  "The tests encode one small matrix per type; special representations, alignments and malformed bytes are not covered.",
  ["mat/dense_marshaling.go"],
  [("encoding and validation of decoded data", "mat/dense_marshaling.go")],
  FAULT + "; " + ENUM[0].lower() + ENUM[1:], "Every single-byte corruption and every truncation of the stated encodings."),
P("S02", "A saved and loaded model is the same model",
  "Every model of the library, alone or within the fields, lists and maps of other models, that is dumped and loaded again has bit by bit the same parameters, with the same types, shapes and flags of required gradients, and computes bitwise the same outputs and the same gradients, also after a second generation. Saving does not change the model, gradients are not saved, and nothing is shared between the copies. States of optimizers and running statistics are saved as well: a training that is interrupted at any step, saved, loaded and continued with any optimizer, which is itself saved and loaded or made anew for that time step, yields bitwise the parameters of the uninterrupted one. Buffers stay without gradients, loaded tables are usable and trainable, and shared tables are saved as empty.",
  ["inputs", "operation_sequences"], "every kind of model x configurations x data types x subsets of parameters which require gradients x ways of saving; every interruption of training histories up to the bound x every optimizer",
  "The tests save a parameter, a table and a few objects once; almost no model is loaded again, and no training is continued.",
  ["nn/gob.go", "nn/param.go", "nn/buffer.go", "mat/dense_marshaling.go", "nn/embedding/model.go", "nn/embedding/shared.go", "optimizers/adam/adam.go"],
  [("dump and load", "nn/gob.go"), ("buffers", "ag/gradientblocker.go"), ("states of the optimizers", "optimizers/sgd/sgd.go")],
  ENUM, "The outputs are compared without concurrency of the forward step."),
P("S03", "Faults of storage while saving or loading are reported",
  "Saving returns an error whenever a byte of the data was not accepted by the writer, wherever that happens, and what was written until then is the beginning of the data; otherwise all the data have been written. Loading from data that end or fail at any byte returns an error, never a panic or a truncated object; data that come in any parts, also with empty reads or with the end reported along with them, give the complete object. Files are completely replaced, whatever their previous length, are closed in every case, and are not changed by loading; missing, unwritable or full destinations and objects that cannot be encoded give errors.",
  ["fault_sequences", "inputs"], "every byte at which a write or a read can fail x kinds of failure x objects; every size of the parts of reads; every truncation of files; previous contents of the destination",
  "The tests use healthy in-memory buffers only.",
  ["nn/gob.go", "mat/dense_marshaling.go"],
  [("dump and load, streams and files", "nn/gob.go")],
  FAULT, "What is left of a file whose writing failed is not stated; a full device is simulated by /dev/full."),
P("O01", "Optimizers follow their published update rules over every history",
  "SGD (with and without momentum and Nesterov), AdaGrad, RMSProp, Adam, AdamW, RAdam and LAMB subtract from every parameter that has gradients exactly what their published rule prescribes, given all of its previous gradients and the time step, whatever the history of steps, of gradients which are zero or missing, of replaced values (which start anew) and of saving and loading; then its gradients are cleared. Parameters without gradients keep value and state; parameters listed or reached more than once are updated once; moments of different parameters do not interact. A state of another optimizer is reported as an error, which changes nothing, and settings out of range are rejected.",
  ["operation_sequences", "inputs"], "every history up to the stated depth of steps, time steps, missing and zero gradients, replaced values and reloads x optimizers x settings x data types; shapes; scales; subsets of parameters with gradients",
  "The tests run one or a few steps on one parameter with one gradient.",
  ["optimizers/optimizer.go", "optimizers/sgd/sgd.go", "optimizers/adagrad/adagrad.go", "optimizers/rmsprop/rmsprop.go", "optimizers/adam/adam.go", "optimizers/radam/radam.go", "optimizers/lamb/lamb.go"],
  [("rules", "optimizers/adam/adam.go"), ("visit of the parameters", "optimizers/optimizer.go")],
  HIST, "Rules are compared in 64-bit arithmetic, with tolerances for the rounding of each data type."),
P("O03", "Gradient clipping bounds the gradients and nothing else",
  "Clipping by value limits every element of every gradient to the interval, and clipping by norm scales all the gradients by the same factor, so that their total norm (of any order greater than 1, or infinite) is at most the maximum, and leaves them alone if it already is. Parameters listed more than once count once; parameters without gradients, values, and the gradients of the other nodes of the graph are not affected. Invalid orders are rejected before any change.",
  ["inputs", "operation_sequences"], "clippers x thresholds x every assignment of the stated gradients to sets of parameters x repeated parameters x sequences of two clippers x data types",
  "The tests clip one or two gradients with one threshold each.",
  ["optimizers/gradclipper/clipper.go"],
  [("clippers", "optimizers/gradclipper/clipper.go")],
  ENUM, "Sets of three parameters."),
P("O04", "Learning rate decay is monotone, bounded, and ends at the final rate",
  "Exponential decay, applied at consecutive time steps, starts at the second step, never increases the rate, follows its formula, never goes below the final rate, reaches it at the last step, and stays there for any later step. Hyperbolic decay follows its formula while the rate is above the final one, and keeps the rate from then on. Both depend on their arguments only and always return a number; a final rate greater than the initial one is rejected.",
  ["inputs", "histories"], "initial rates x final rates x every number of steps up to the bound (or rates) x every time step up to beyond the end",
  "The tests evaluate four points of one schedule.",
  ["optimizers/decay/exponential/exponential.go", "optimizers/decay/hyperbolic/hyperbolic.go"],
  [("decay functions", "optimizers/decay/exponential/exponential.go")],
  ENUM, ""),
P("O05", "Losses have their defined values and gradients, also at extreme logits",
  "Every loss function yields its mathematical definition (sum or mean, weights, exponents and sequences included) and, through the backward pass, the derivatives with respect to each operand that requires gradients, for column and row vectors and both data types. Cross-entropies, focal losses and perplexities of logits of any magnitude, of certain and of wrong predictions, are accurate and have finite gradients.",
  ["inputs"], "loss functions x classes x weights x exponents x lengths x shapes x values x kinds of operand x subsets which require gradients; magnitudes and gaps of logits",
  "The tests evaluate one example per loss.",
  ["losses/losses.go", "mat/gradfn/pow.go"],
  [("losses", "losses/losses.go")],
  ENUM, "Derivatives are not compared at kinks; the negative log-likelihood is claimed for positive probabilities."),
P("G05", "Functions give gradients of the right shape to those operands which need them",
  "A differentiable function, used directly or through an operator, gives gradients to exactly those of its operands which require them, each as large as the operand and of its data type, added to those already there; it changes neither its operands nor the gradients it is given, and output gradients whose number of elements does not match are refused (by an error or a panic) without giving gradients to any operand, by those functions which compare dimensions. Evaluated again after its operands have changed, it gives the value and the gradients of their present values, and what it returned before stays as it was.",
  ["inputs"], "every function of mat/gradfn with operands of several shapes, every subset of operands which require gradients, both data types, output gradients of every shape up to 4x4, and two calls in sequence, with the operands changed between them or not",
  "The tests call each function once with gradients of the right shape, and most with all operands requiring gradients.",
  ["mat/gradfn/identity.go", "mat/gradfn/affine.go", "mat/gradfn/transpose.go", "mat/gradfn/stack.go"],
  [("backward of the functions", "mat/gradfn")],
  ENUM, "Exhaustive over the stated functions, masks and shapes. MulT, SparseMax, MaxPooling and AppendRows compare no or not all dimensions; only right gradients are stated for these."),
P("M06", "A printed matrix shows every element with the digits it has",
  "Formatting a matrix with any floating-point verb, width and precision never fails; it prints one bracketed line per row and, for each element in order, exactly the digits which the number of its own precision has under that verb, lines of equal length with decimal points aligned in each column; what %v prints reads back as the very same numbers, and an empty matrix prints [].",
  ["inputs"], "every matrix of small shapes with elements from an alphabet with zeros of both signs, infinities, NaN, tiny and huge numbers, and every shape up to 6x6 (9x9) with elements of distinct widths x both data types x 9 verbs x 16 combinations of width and precision",
  "The tests print a few matrices with one or two formats; widths are computed per column and differ by the mixture of values with and without a decimal point.",
  ["mat/dense_formatting.go"],
  [("formatting of matrices", "mat/dense_formatting.go")],
  ENUM, "The minimal width of columns without any decimal point is not promised."),
P("R02", "Dropout, initializers and random choices have their stated outcomes",
  "Dropout makes each element null with the given probability, independently, scales the others by the reciprocal of the probability to keep them, and gives gradients by the very same mask (none dropped for probability zero, all for one). Initializers set every element of a matrix of any shape from the stated distribution, within its bounds, and give the same values for the same seed, as do the models which initialise themselves with them. Choices of distinct numbers are valid and distinct, weighted choices never yield an element of probability zero, and shuffles are permutations, all outcomes being reached with their probabilities.",
  ["inputs", "histories"], "every seed of a range x shapes x data types x probabilities and parameters; every subset of valid numbers up to 5 (7) with every size of choice; every distribution in quarters (tenths) over up to 4 outcomes; every permutation of up to 4 elements",
  "The tests check a few values of one seed, mostly through mocked or approximate expectations; properties of the whole outcome space need all outcomes and their counts.",
  ["mat/gradfn/dropout.go", "nn/dropout/dropout.go", "initializers/initializers.go", "mat/rand/misc.go", "mat/rand/bernulli/bernulli.go", "mat/rand/normal/normal.go", "mat/rand/uniform/uniform.go"],
  [("dropout", "mat/gradfn/dropout.go"), ("initializers", "initializers/initializers.go"), ("random choices", "mat/rand/misc.go")],
  ENUM, "Every seed of the stated range; that distributions are the stated ones is decided from frequencies over these seeds within 6 standard deviations."),
P("M05", "Invalid operations on matrices are refused and change nothing",
  "An operation on matrices whose operands have incompatible shapes, or whose indices, ranges or sizes are out of bounds or negative, panics, whatever the data types, and leaves the receiver (shape, elements, gradients, and the memory next to it) and the operands as they were; the same call with valid arguments, at the very limits too, does not panic. Constructors refuse invalid shapes and data of another size.",
  ["inputs"], "every operation with preconditions x every pair of shapes up to 4x4 (6x6), empty ones included, or every index, size and range from -2 to one beyond the end x both data types and their mixtures",
  "The tests try one invalid argument per operation; limits, empty matrices and partial changes before a panic are not sampled.",
  ["mat/dense.go", "mat/dense_new.go", "mat/matrix.go"],
  [("preconditions of the operations", "mat/dense.go"), ("constructors", "mat/dense_new.go")],
  ENUM, "Exhaustive over the stated shapes and arguments; slices which are empty and start after the last row or column are not stated, and products of dimensions beyond 64 bits are not tried."),
P("M07", "Numbers and lists of either precision convert and compare exactly",
  "A number, or a list of numbers, of either precision yields its values in both precisions as the language rounds them, bit by bit, tells its own precision and length, and prints as the number itself. Two lists or matrices are equal exactly when they have the same length or shape and every element of the second, converted to the precision of the first, equals the one at its position; they are within a tolerance exactly when every distance is, and NaN is never equal to or near anything. Predicates on shapes and the scalar functions have their definition for both precisions, and names of activations are recognised as documented, and only these.",
  ["inputs"], "every number of an alphabet (inexact in 32 bits, out of their range, subnormal, infinite, NaN, signed zeros) x both precisions; every pair of lists of up to 2 of them x 4 combinations of precision x 6 tolerances; lists of up to 40 (80) numbers with a difference at every position; every pair of shapes up to 4x4; every activation",
  "The tests compare a few ordinary numbers; special values, mixed precisions, and the position of the difference are not sampled.",
  ["mat/float/float.go", "mat/float/floatslice.go", "mat/matrix.go", "mat/mathfunctions.go", "nn/activation/types.go"],
  [("numbers and lists", "mat/float"), ("comparison of matrices", "mat/matrix.go")],
  ENUM, "Exhaustive over the stated alphabets."),
]
