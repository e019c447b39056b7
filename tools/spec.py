#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl, MANIFEST.json
and sim/props.json. Run after editing; the outputs are committed."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DATA_REAL = ["dataset", "dataset/xcrepo"]
NET_REAL = ["configuration", "dataset", "index_value", "network", "layer", "node", "lsh", "bucket/fifo",
            "wta_hash", "densified_wta_hash", "densified_minhash", "sparse_random_projection"]
PROG_REAL = ["main program (goslide.go)", "dataset/xcrepo"] + NET_REAL
RNG_STUB = ["math/rand global generator (simulated stream)", "time.Now (simulated clock)", "hash/maphash (simulated seed and hash)",
            "map iteration order (drawn by the simulator)"]
PROG_STUB = RNG_STUB + ["file system (in memory, injectable errors, bounded descriptors)", "process exit, argv, standard streams",
                        "runtime/pprof (writes a few bytes through the simulated files)"]
READ_STUB = ["io.Reader given to the parser (simulated delivery)"]

P = []
def prop(id, title, statement, over, qtext, why, files, mech, quick, rule, real, stub, note, assume=(), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  quick=quick, rule=rule, real=real, stub=stub, note=note, assume=list(assume), observe=list(observe), state=list(state)))

prop("C01", "The records of a dataset do not depend on how its bytes are delivered",
 "Reading a well-formed dataset yields exactly the header counts and the records its text says, in file order, and then a clean end, whatever sizes the reads return, whether the end of file comes with or after the last bytes, with either line-end convention, with or without a final line end, and however long a line is. Values are read exactly, labels and features keep the order of the text, and line numbers count lines.",
 ["inputs", "schedules"], "every well-formed dataset text and every way an input stream may deliver it (short, empty and one-byte reads, end of file with or after data, unread buffer space overwritten)",
 "The repository has no test of the dataset reader at all, and a test would deliver one file in one way.",
 ["dataset/xcrepo/xcrepo.go"], [("line scanning and header parsing", "dataset/xcrepo/xcrepo.go: NewScanner, scanHeader, Scan"), ("field parsing", "dataset/xcrepo/xcrepo.go: parseLabels, parseFeatures")],
 14000, "a run draws a dataset (1-60 records, sometimes a line over 64 KiB), its text format and a delivery policy, and compares every record with the generated ones; non-trivial when at least one record exists and delivery was not one whole read",
 DATA_REAL, READ_STUB, "Seeded search over texts and stream deliveries against the generator's own records; exact comparison of values.",
 observe=["sequence of records, header counts, line numbers, final error"])
prop("C02", "A failing read never becomes data or a clean end of the dataset",
 "When the stream of a dataset fails at any byte, reading stops with that error (or an error saying the reader makes no progress, if it stalls) reported to the caller, and never with a clean end. Every record handed out is one the dataset holds, in order, except that the text received up to the failure may be reported as the malformed or last line it then is; the error stays reported and no further record appears even if the stream recovers.",
 ["fault_sequences", "inputs", "crash_points"], "every dataset and every read failure: at any byte, with or without data, permanent or transient, any error value, and streams that stall",
 "No test reads from a failing stream; the failure point ranges over every byte of every file.",
 ["dataset/xcrepo/xcrepo.go"], [("error propagation", "dataset/xcrepo/xcrepo.go: Err, Scan")],
 14000, "a run draws a dataset, a delivery policy and a failure (offset, error, data with the error, transient or permanent, or a stall); non-trivial when the failure fired",
 DATA_REAL, READ_STUB, "Seeded search over failure points; every prefix of records is compared with the dataset's own.", observe=["records before the failure, final error"])
prop("C03", "Damaged dataset text is rejected at the offending line",
 "For any damage to a dataset's bytes, reading yields the records the undamaged lines before the first invalid line say, and then an error of the kind the violated rule has (header, missing fields, labels, features, label bound, feature bound) with the number of that line. No record ever has a label or feature index outside the bounds the header declares, and text that is still valid after damage is read as what it now says.",
 ["inputs", "fault_sequences"], "every byte sequence obtained from a dataset by torn tails, lost, flipped, inserted, replaced or duplicated bytes and lines, and numbers out of range",
 "No test covers malformed data; the space of damaged texts is unbounded.",
 ["dataset/xcrepo/xcrepo.go"], [("validation", "dataset/xcrepo/xcrepo.go: scanHeader, parseLabels, parseFeatures")],
 14000, "a run damages a generated dataset in one to three ways and compares each line's outcome with an independent reading of the format; non-trivial when damage changed the text",
 DATA_REAL, READ_STUB, "Independent reference parser; number spellings the format does not pin down are accepted either way.", ["number spellings outside plain decimal notation (underscores, hexadecimal, a plus sign) may be accepted or rejected"])
prop("C04", "Records already handed out are never altered",
 "A record obtained from a dataset keeps its labels and features while reading continues, fails or ends, while other datasets are read at the same time, and while their holders change their own records. Changing a record one holds never affects any record read later.",
 ["histories", "schedules"], "every dataset, every interleaving of several readers and every pattern of changes to records already obtained",
 "Aliasing shows only in longer histories of reads and retained records; there is no test of the reader.",
 ["dataset/xcrepo/xcrepo.go", "dataset/dataset.go"], [("fresh storage per record", "dataset/xcrepo/xcrepo.go: Scan, parseLabels, parseFeatures")],
 14000, "a run interleaves one to three readers, keeps all records and sometimes overwrites kept ones; non-trivial when at least two records were kept",
 DATA_REAL, READ_STUB, "Statement-level interleaving of independent readers; kept records compared with the generator's copies.")
prop("C05", "Loading a configuration is all or nothing",
 "Loading a configuration file returns either every setting the file gives together with the documented defaults for the rest, or an error and no configuration. It never exposes a mixture after a failed open, a failed or short read, torn or corrupted text or a value of the wrong kind; it leaves no file open, and configurations loaded or defaulted at any time are independent of each other.",
 ["inputs", "fault_sequences", "histories"], "every configuration text, every I/O fault while it is read, and every interleaving of loads and changes by holders",
 "There is no test of configuration loading; faults and aliasing between loads are outside any example file.",
 ["configuration/configuration.go"], [("defaults", "configuration/configuration.go: Default"), ("loading", "configuration/configuration.go: FromJsonFile")],
 20000, "a run performs several loads (some damaged, some failing) by concurrent tasks, with holders scribbling on what they got; non-trivial when a fault or a second load took place",
 ["configuration"], ["file system (in memory, injectable errors)"], "Reference decoding of the drawn settings over the documented defaults.", observe=["returned configuration and error", "open files"])
prop("C06", "Each epoch trains on every record once, in file order, in equal batches",
 "In every epoch the program trains on the training file's records from the beginning in file order, cut into consecutive batches of the configured size (the last records of a short file make a short batch, and batches beyond the file's end are empty), each record in exactly one batch of that epoch. Training steps carry consecutive iteration numbers from 0 upwards across epochs, and the number of steps per epoch is the configured number of records divided by the batch size.",
 ["configurations", "inputs", "schedules"], "every configuration, every training file (also shorter or longer than configured), every delivery of its bytes and every clock behaviour",
 "Nothing in the test suite runs the program.",
 ["goslide.go", "dataset/xcrepo/xcrepo.go"], [("epoch loop", "goslide.go: main, trainSvmEpoch")],
 16000, "a run executes the whole program on drawn files and configuration, recording every training step; non-trivial with more than one step on a non-empty file",
 PROG_REAL, PROG_STUB, "Whole program under simulated files, clock and randomness; the recorded history is compared with the file.", observe=["arguments of every training step"])
prop("C07", "Any failure ends the run loudly, before bad data is used",
 "When opening or reading a file, the format of a file, the configuration, the command line or writing a profile fails, the program ends with a non-zero status and a diagnostic on standard error naming the cause (for malformed records, the line), and no training step or prediction uses the damaged record or a batch cut short by the failure. Without a failure it succeeds, however its input is delivered and with only a handful of files allowed open at once.",
 ["fault_sequences", "crash_points", "inputs"], "every single failure at any open, any byte read, any line, any profile file, over all configurations and files",
 "No test runs the program or injects a failure.",
 ["goslide.go", "dataset/xcrepo/xcrepo.go", "configuration/configuration.go"], [("error checks", "goslide.go: main, trainSvmEpoch, evaluateSvm, validateArguments, loadGlobalConfiguration")],
 20000, "a run executes the whole program with one drawn fault; every run counts as non-trivial: it either has a fault or must succeed",
 PROG_REAL, PROG_STUB, "One fault per run; faults that strike after the last byte the program needs may go unnoticed.", observe=["exit status, standard error, training steps and predictions made"])
prop("C08", "Evaluations, rehashes and rebuilds happen exactly on schedule",
 "An evaluation runs after every training step whose 1-based number within the whole run is a multiple of the step size, unless it ends an epoch, and after every epoch; each evaluation reads the test file from its start in order, and the last one covers all configured test batches. In the two modes that use hash tables, tables are rehashed (rebuilt) at every step whose 1-based number is a multiple of the rehash (rebuild) period in whole batches, a period shorter than one batch meaning every step; in the other modes they never are.",
 ["configurations", "inputs"], "every configuration and pair of files, delivery of bytes and clock behaviour",
 "Nothing in the test suite runs the program; schedules depend on several settings together.",
 ["goslide.go"], [("schedule", "goslide.go: main, trainSvmEpoch, evaluateSvm")],
 16000, "a run executes the whole program and compares the recorded history of steps and evaluations with the schedule; non-trivial with more than one evaluation",
 PROG_REAL, PROG_STUB, "How many batches an intermediate evaluation covers is not fixed, only that it covers a prefix of the file and at least one batch.", observe=["order and arguments of training steps and evaluations"])
prop("C09", "Reported accuracy is correct predictions over records evaluated",
 "After each evaluation the program reports, once, the number of correct predictions divided by the number of records evaluated, also when the test file is shorter than configured or its last batch is partial, and after each of its batches the same figure for the batches so far. An evaluation without records never reports a positive accuracy.",
 ["configurations", "inputs"], "every configuration, model and test file, also shorter or longer than configured",
 "Nothing in the test suite runs an evaluation.",
 ["goslide.go", "network/network.go"], [("accumulation", "goslide.go: evaluateSvm")],
 16000, "a run executes the whole program; accuracy lines are compared with the recorded predictions; non-trivial when some prediction was correct",
 PROG_REAL, PROG_STUB, "Reads the figure from the program's output; if that line disappears the check says it cannot judge.", observe=["'Iter' and 'Over all' lines on standard error"])
prop("C10", "Evaluating a model never influences what training makes of it",
 "A training history yields bit for bit the same weights, biases and optimizer state whether or not evaluations run between its steps, given the same random draws for each step. Evaluations do not change the records they are given.",
 ["histories", "configurations", "programs"], "every history of training steps and evaluations, all hash functions, modes and optimizers, at the level of the network and of the whole program",
 "It compares two whole histories; no test trains a network.",
 ["network/network.go", "layer/layer.go", "node/node.go", "goslide.go"], [("per-slot state", "node/node.go: GetActivation, BackPropagate"), ("evaluation", "network/network.go: PredictClass")],
 16000, "a run executes one drawn history twice, with and without its evaluations, under controlled randomness, and compares final parameters; non-trivial when evaluations took place",
 PROG_REAL, PROG_STUB, "Replica comparison under identical randomness per training step.")
prop("C11", "A prediction is the best-scoring active class, independent of grouping",
 "A record counts as predicted correctly exactly when the active output neuron with the highest activation is one of its labels; a record for which no output neuron is active never counts. Where no random draw decides which neurons are active, the number of correct predictions is the same however records are ordered and grouped into batches.",
 ["inputs", "histories", "configurations"], "every trained or untrained network, every evaluation set, its order and its grouping, also with emptied tables",
 "No test makes a prediction; ties, empty active sets and grouping need generated histories.",
 ["network/network.go", "layer/layer.go"], [("arg max over the active outputs", "network/network.go: PredictClass")],
 20000, "a run trains briefly, then predicts an evaluation set one by one and in a random grouping and order; non-trivial with at least two records",
 NET_REAL, RNG_STUB, "Ties may be resolved either way; mode 2, which samples output neurons at random, is judged per prediction only in C15.", observe=["active outputs and their activations, number of correct predictions"])
prop("C12", "A training step applies the optimizer's update, nothing else",
 "One training step changes weights, biases and optimizer state exactly as Adam (with bias-corrected step size for its iteration number) or plain gradient descent prescribes for the batch-averaged gradient of softmax cross-entropy over the active neurons, up to rounding. Parameters of neurons that were not active get a zero gradient, nothing carries over from earlier batches or evaluations, and the records given are not changed.",
 ["histories", "inputs", "configurations"], "every history of steps with batches from empty to full, interleaved evaluations, all modes, hash functions, sizes, iteration numbers and both optimizers",
 "No test performs a training step; the update depends on the whole history of slots and moments.",
 ["network/network.go", "node/node.go", "layer/layer.go"], [("gradients", "node/node.go: ComputeExtaStatsForSoftMax, BackPropagate, BackPropagateFirstLayer, IncrementDelta"), ("update", "network/network.go: ProcessInput")],
 20000, "a run performs one to six steps and compares each with an independent reference optimizer; non-trivial when a batch held records",
 NET_REAL, RNG_STUB, "Reference gradients from first principles given the active sets; for gradient descent both per-record and end-of-batch application of weight changes are accepted.", ["labels of a record are distinct here (duplicates are C15's subject)", "for gradient descent either online or batched weight updates are accepted"])
prop("C13", "The forward pass computes the layer functions, slot by slot",
 "For every batch slot each active neuron's activation is the rectified weighted sum plus bias, or in the output layer the exponential that, divided by the slot's normalization constant, gives the softmax over the active neurons. What is kept for a slot is not disturbed by other slots' passes, in any interleaving, and inputs are not changed.",
 ["schedules", "inputs", "configurations"], "every network, input list in any order, and interleaving of slots layer by layer",
 "No test computes an activation.",
 ["layer/layer.go", "node/node.go"], [("activations", "node/node.go: GetActivation, SetlastActivation"), ("softmax", "layer/layer.go: QueryActiveNodeAndComputeActivations")],
 20000, "a run interleaves the passes of one to five slots as tasks and compares outputs with a reference at once and at the end; non-trivial with several slots and active outputs",
 NET_REAL, RNG_STUB, "Reference forward pass over the reported active sets.")
prop("C14", "Accumulated gradients do not depend on how slots interleave",
 "The gradients a batch accumulates are, up to rounding, the same whether its records are processed one after the other or with their forward and backward passes interleaved in any order, where no random draw decides which neurons are active. Every slot is left clean for the next record.",
 ["schedules", "inputs"], "every interleaving of the slots' forward and backward operations, several records per slot, all deterministic modes and hash functions",
 "It quantifies over interleavings; no test runs a backward pass.",
 ["node/node.go", "layer/layer.go"], [("accumulation", "node/node.go: BackPropagate, BackPropagateFirstLayer, IncrementDelta, ComputeExtaStatsForSoftMax")],
 20000, "a run processes the same records sequentially and with slots as interleaved tasks on identically built layers; non-trivial with several slots and a non-zero gradient",
 NET_REAL, RNG_STUB, "Interleaving at operation granularity; gradients compared with a rounding tolerance.")
prop("C15", "The active set of every layer is sound in every mode",
 "The active neurons of a layer are distinct and within the layer, and in training the neurons of all labels are among the active outputs, for any random draws, labels given twice, and layers of any size. A layer that is not sampled activates every neuron; the top-score and random modes activate exactly the requested fraction (the former the labels and the best scores); the threshold mode activates the labels and what more than two tables return; the sampling mode activates the labels and everything retrieved, topped up to the lesser of 1000 and the layer's size.",
 ["inputs", "histories", "configurations", "fault_sequences"], "every mode, hash function, history of training and rehashing, input, label list, and sequence of random draws including extreme ones",
 "No test queries a layer; size thresholds, duplicate labels and unlucky draws need generated cases.",
 ["layer/layer.go", "lsh/lsh.go", "network/network.go"], [("selection", "layer/layer.go: QueryActiveNodeAndComputeActivations")],
 20000, "a run makes up to six training or evaluation steps on a drawn network and judges every active set against what the tables returned; extreme random draws are injected in a third of the runs; some layers have over 1000 and some over 325056 neurons; non-trivial when a sampled layer was queried",
 NET_REAL, RNG_STUB, "Domain: threshold mode with at least three tables; no more distinct labels than the requested fraction allows; in top-score and random modes only the output layer is sampled.", ["hash table retrievals are observed at the table lookup; if a tree does not use it, only soundness is judged"])
prop("C16", "After construction, rehash or rebuild every neuron is found where lookups go",
 "After a network is built, and after every training step that rehashes or rebuilds, a lookup in a sampled layer with a neuron's current weights finds that neuron. It finds exactly those other neurons whose current weights share more than two of the buckets it looks in: nothing stale, and nothing missing but what a bucket of more than 128 neurons has no room for. A rebuild gives the sampled layers new hash functions, nothing else changes hash functions, and steps with neither and evaluations leave unchanged what lookups find.",
 ["histories", "configurations", "inputs"], "every history of training steps with and without rehash and rebuild, all hash functions and shapes",
 "It relates tables to weights after whole training histories; no test rehashes anything.",
 ["network/network.go", "layer/layer.go", "lsh/lsh.go", "bucket/fifo/fifo.go"], [("table maintenance", "network/network.go: ProcessInput; layer/layer.go: UpdateTable, addToHashTable, HashTablesAdd")],
 16000, "a run builds a network, trains it with drawn rehash and rebuild flags, and after each looks every neuron up by its weights, listed in order or shuffled; non-trivial when a rehash or rebuild took place",
 NET_REAL, RNG_STUB, "Up to 400 neurons; which neurons a full bucket keeps is left open (C17 says it for the bucket); layers sampled in training; tables are read in the threshold mode with at least three tables.")
prop("C17", "A bucket is a bounded window of the last 128 entries",
 "A bucket holds the last 128 identifiers added since it was reset, each at the position it was first put in (addition number modulo 128, which adding returns), and reading it whole or by position returns exactly those. Reading does not change it, positions beyond the capacity read as absent, and several users' operations in any order behave like the same sequence on a reference window.",
 ["histories", "schedules"], "every history of additions, reads and resets by several clients, and concurrent readers",
 "The tests add 130 consecutive numbers once; wrap-around, reset and reuse histories are unbounded.",
 ["bucket/bucket.go", "bucket/fifo/fifo.go"], [("ring", "bucket/fifo/fifo.go: Add, Retrieve, GetAll, Reset; bucket/bucket.go: the same")],
 20000, "a run interleaves operations of one to three clients on one to three buckets of both kinds against a reference window, then reads concurrently statement by statement; non-trivial with at least three additions",
 ["bucket", "bucket/fifo"], RNG_STUB[:1], "Sequential operations in any client order; concurrent reads at statement level.")
prop("C18", "Hash tables return exactly what was stored under the addresses asked for",
 "A lookup returns, table by table, exactly the window of identifiers added under that address of that table since the last clearing, in their positions; clearing empties everything, and tables and addresses never affect each other. Addresses are within the table for every possible hash code, depend only on the codes of their own table, are the same for the same codes, and differ for codes that are single or binary or differ in one place; minhash codes that differ in one place by an odd number, and equal odd codes of two tables, share an address no more often than chance.",
 ["histories", "schedules", "inputs"], "every history of additions, lookups and clearings by several clients, all shapes and hash functions, and concurrent readers",
 "The tests check shapes and a few additions; isolation and address ranges hold for all histories and codes.",
 ["lsh/lsh.go", "bucket/fifo/fifo.go"], [("tables", "lsh/lsh.go: Add, AddSingle, RetrieveRaw, Retrieve, Clear"), ("addresses", "lsh/lsh.go: HashesToIndex")],
 20000, "a run interleaves operations of one to three clients against a reference of windows per table and address, then sweeps all stored addresses with two concurrent readers; non-trivial with at least three additions",
 ["lsh", "bucket/fifo", "configuration"], RNG_STUB[:1], "Table sizes are large enough for the codes of the hash function in use.")
prop("C19", "Hash functions can be shared by concurrent users",
 "Any number of threads may hash with the same function at the same time and each gets the codes it would get alone. Hashing changes neither its input, nor the function, nor codes returned earlier, and draws no random numbers.",
 ["schedules", "inputs"], "every statement-level interleaving of two to four threads hashing sparse and dense inputs with any of the four functions",
 "The tests call each function once from one goroutine.",
 ["wta_hash/wta_hash.go", "densified_wta_hash/densified_wta_hash.go", "densified_minhash/densified_minhash.go", "sparse_random_projection/sparse_random_projection.go"],
 [("no shared scratch state", "GetHash and its variants in the four hash packages")],
 20000, "a run hashes drawn inputs alone, then from two to four tasks preempted between statements, then alone again; every run is non-trivial",
 ["wta_hash", "densified_wta_hash", "densified_minhash", "sparse_random_projection"], RNG_STUB, "Statement-level interleavings; no weak-memory effects.")
prop("C20", "Sparse and dense inputs hash alike, in any listing order",
 "A sparse input listing all coordinates, in any order, gets the codes of the equal dense vector from all four hash functions, and a partial list gets the same codes in any order; for winner-take-all and random projection these are the codes of the dense vector with zeros elsewhere. Codes, bins and densification probes are always within range, and codes depend only on the ranking of values (on their direction for random projection).",
 ["inputs", "configurations", "fault_sequences"], "all vectors with distinct values, partial lists and orders, all shapes (also fewer coordinates than the number of best values kept), and all draws of the hash functions",
 "The tests only assert the number of codes.",
 ["wta_hash/wta_hash.go", "densified_wta_hash/densified_wta_hash.go", "densified_minhash/densified_minhash.go", "sparse_random_projection/sparse_random_projection.go"],
 [("sparse and dense variants", "GetHash, GetHashDense, GetHashEasy, GetHashEasyDense, GetHashSparse"), ("densification", "GetRandDoubleHash"), ("bins", "densified_minhash/densified_minhash.go: GetMap")],
 20000, "a run draws a hash function (with extreme draws in a third of the runs) and compares codes of dense, listed, shuffled, partial and rescaled inputs; non-trivial with more than one coordinate",
 ["wta_hash", "densified_wta_hash", "densified_minhash", "sparse_random_projection"], RNG_STUB, "Values are distinct and sum without rounding, so ties and rounding do not blur the comparison.", ["values are distinct"])
prop("C21", "The outcome does not depend on map iteration order or the clock",
 "With the same random draws, the same history of training and evaluation yields the same active sets, predictions and bit for bit the same model whatever order maps are iterated in and whatever the clock does.",
 ["schedules", "histories", "configurations", "fault_sequences"], "every map iteration order, clock behaviour, history, mode and hash function",
 "Map order is random and outside any test's control; a test cannot compare orders.",
 ["layer/layer.go"], [("selection", "layer/layer.go: QueryActiveNodeAndComputeActivations")],
 16000, "a run executes one history under three drawn map iteration orders and clocks (frozen, jumping) and compares everything; non-trivial with at least two steps",
 NET_REAL, RNG_STUB, "Replica comparison; the simulator controls every range over a map in the code under test.")
prop("C22", "Random draws do not rest on the clock",
 "Whatever the clock does (frozen, coarse, jumping), layers built one after the other get different weights and different hash functions, and rebuilding hash functions draws new ones.",
 ["fault_sequences", "configurations"], "every clock behaviour, all hash functions and seeds",
 "A test cannot control the clock or the seeding of the global generator.",
 ["wta_hash/wta_hash.go", "densified_wta_hash/densified_wta_hash.go", "densified_minhash/densified_minhash.go", "sparse_random_projection/sparse_random_projection.go", "layer/layer.go"],
 [("seeding", "layer/layer.go: init"), ("draws", "constructors of the four hash packages; layer/layer.go: New, UpdateTable")],
 6000, "a run builds three equally shaped layers under a drawn clock and compares their weights and hash codes; every run is non-trivial",
 NET_REAL, RNG_STUB, "A few coincidentally equal weights are allowed.")
prop("C23", "A neuron's owner never sees another owner's changes",
 "When a neuron is handed to another owner, every change that owner makes through any operation (setters, forward and backward passes, updates) is visible to that owner alone: the previous holder, left unchanged, keeps reading what it had, and owners forked from the same state do not affect each other. Each owner reads exactly what it would read had it made its whole history alone, in any statement-level interleaving of the owners.",
 ["schedules", "histories"], "every tree of up to eight owners with distinct identities, every sequence of operations and every statement-level interleaving",
 "No test touches a neuron; isolation is a property of interleaved histories.",
 ["node/node.go"], [("copy on write", "node/node.go: cloneIfNeeded, clone, copyFloat64Slice")],
 16000, "a run plans a tree of owners, each a task; after every change an owner's reading is compared with a lone replay of its lineage; non-trivial with at least two owners",
 ["node", "configuration"], [], "A state that has been handed on is no longer changed by its old owner (the discipline the operations assume).", ["owner identities are distinct and a state that was handed on is frozen"])
prop("C24", "Concurrent evaluations under other owners leave a shared network untouched",
 "Evaluations of one shared network under owner identities other than its own, run concurrently in any interleaving, each give the counts they give alone, where no random draw decides which neurons are active. They leave the shared network's weights, optimizer state, activations and normalization constants exactly as they were.",
 ["schedules", "histories"], "every statement-level interleaving of one to four evaluators on any trained network",
 "No test evaluates a network, let alone concurrently.",
 ["network/network.go", "layer/layer.go", "node/node.go"], [("copy on write", "network/network.go, layer/layer.go, node/node.go: cloneIfNeeded, clone")],
 16000, "a run evaluates drawn batches alone, then from one to four preempted tasks with their own identities, comparing counts and the shared network's state; non-trivial with several evaluators",
 NET_REAL, RNG_STUB, "Evaluations only: training under a foreign identity is not claimed.")
prop("C25", "Similar inputs share hash codes, unrelated ones mostly do not",
 "Over independently drawn hash functions of any family, nearly equal dense or sparse vectors share the great majority of their codes, and unrelated vectors do not.",
 ["configurations", "inputs"], "every seed of the random draws, all four families, dense and sparse input",
 "It is a statement about the distribution of the draws, which a fixed example cannot show.",
 ["wta_hash/wta_hash.go", "densified_wta_hash/densified_wta_hash.go", "densified_minhash/densified_minhash.go", "sparse_random_projection/sparse_random_projection.go"],
 [("random permutations, signs and bins", "constructors of the four hash packages")],
 6000, "a run draws 60 hash functions of one family from the simulated generator and counts shared codes of a near, a similar and a far pair for each (480 codes), at scales from 1e-6 to 1e6, dense or listing all or half the coordinates; every run is non-trivial",
 ["wta_hash", "densified_wta_hash", "densified_minhash", "sparse_random_projection"], RNG_STUB, "Bounds (at least 85% near; at most 45%, 65% or 80% far, by family) are many standard deviations away from the true rates, measured over 20000 runs.")
prop("C26", "An evaluation's summary gives the steps done and the time spent training",
 "Each evaluation closes with one line giving the number of training steps done so far in the whole run, the total time spent in those training steps, and its accuracy. Time spent loading, reading files, building the network or evaluating is never counted as training time, and training time is never lost across epochs.",
 ["configurations", "schedules"], "every configuration and file, and every way time may pass during training steps, evaluations, construction, opens and reads",
 "A test cannot control the clock; nothing in the test suite runs the program.",
 ["goslide.go"], [("time accounting", "goslide.go: trainSvmEpoch, evaluateSvm")],
 16000, "a run executes the whole program on a clock that moves only when the simulator says so, by drawn amounts in every step, evaluation, construction, open and read; non-trivial with more than one evaluation",
 PROG_REAL, PROG_STUB, "Exact comparison of durations. Reads the figures from the program's output; if that line disappears the check says it cannot judge.", observe=["summary lines on standard error"])
prop("C27", "Networks living in one process do not influence each other",
 "Networks built, trained and evaluated in one process, one after the other or at the same time in any interleaving, each end with exactly the weights, optimizer state and predictions they reach alone with the same draws, and leave the settings unchanged.",
 ["schedules", "histories", "configurations"], "every two or three networks sharing the process-wide settings, their histories and every statement-level interleaving",
 "No test builds two networks; interference shows only in interleaved histories.",
 ["network/network.go", "layer/layer.go", "node/node.go", "lsh/lsh.go"], [("no state outside the network", "network/network.go, layer/layer.go, node/node.go, lsh/lsh.go and the hash packages")],
 12000, "a run lets two or three drawn networks live alone, again in reverse order, and as tasks preempted between statements, each with its own stream of draws, and compares everything bit for bit; every run is non-trivial",
 NET_REAL, RNG_STUB, "Each task draws from its own simulated stream, so that only state shared through the code can make a difference.")
prop("C28", "Random activation gives every neuron the same chance",
 "In the random mode every output neuron that is not a label is equally likely to be active in a training step, and so is every neuron in the sampling mode when the tables return nothing, whatever was drawn when the layer was built. Over layers built anew, which neurons are drawn together has nothing to do with their numbers or with what other layers draw. Other queries draw other samples, and the order from which the sampling mode fills the output layer's samples is drawn anew as training goes on.",
 ["inputs", "configurations"], "every seed of the random draws, layer size, fraction and label list",
 "It is a statement about the distribution of the draws, which a fixed example cannot show.",
 ["layer/layer.go"], [("random selection", "layer/layer.go: QueryActiveNodeAndComputeActivations, UpdateRandomNodes")],
 3000, "a run queries one layer 2000 times (150 times with over 1000 neurons) and compares every neuron's count with its expectation, or compares how often neurons are drawn together, within and between the samples of several layers, or trains for 6946 steps and looks whether the order of fill-ins was redrawn; non-trivial when the fraction leaves a choice",
 ["layer", "node", "lsh", "configuration"], RNG_STUB, "The permitted deviation has probability below 1e-12 per count (Bernstein's inequality); runs are seeded, so verdicts repeat.")
prop("C29", "A new network has the described shape, small random weights and clean state",
 "A new network has the configured layers, neurons and inputs per neuron, its weights and biases are independent draws with mean 0 and standard deviation 0.01, optimizer state is zero and no batch slot holds an activation. Every neuron owns its parameters: changing one changes no other.",
 ["configurations", "inputs"], "every shape, hash function, mode and optimizer, and every seed of the random draws",
 "No test builds a network; the distribution of the draws is outside a fixed example.",
 ["network/network.go", "layer/layer.go", "node/node.go"], [("initialisation", "layer/layer.go: New; node/node.go: Update, NewNodeTrain")],
 16000, "a run builds one drawn network, judges its parameters' moments and reads all state; then it changes one parameter and reads everything again; non-trivial with at least 400 parameters",
 NET_REAL, RNG_STUB, "Permitted deviations are at least seven standard deviations wide; runs are seeded, so verdicts repeat.")
prop("C30", "A run's outcome depends only on settings, records and random draws",
 "Two runs of the program with the same settings, the same records and the same random draws make the same training steps and evaluations, train bit for bit the same model and report the same figures (other than times), whatever the layout and order of the configuration file's settings, line ends, delivery of bytes, clock and map iteration order.",
 ["configurations", "schedules", "inputs"], "every configuration, pair of files, rendering of them, delivery, clock behaviour and map iteration order",
 "It compares whole runs under different surroundings that no test controls.",
 ["goslide.go", "configuration/configuration.go", "dataset/xcrepo/xcrepo.go", "network/network.go", "layer/layer.go"], [("whole program", "goslide.go: main")],
 10000, "a run executes the whole program three times in drawn surroundings with the same draws and compares histories, models and reports; non-trivial with more than two events",
 PROG_REAL, PROG_STUB, "Replica comparison under identical randomness.")
prop("C31", "Training on data that can be learned ends with correct predictions",
 "When every class has features of its own, five hundred training steps of the program with either optimizer, one or two layers, any hash function and any mode whose sampling lets the classes compete, end with every training record predicted correctly in the final evaluation.",
 ["configurations", "inputs", "histories"], "every such data set, order of records, batch size, network shape and initial draw",
 "Nothing in the test suite trains anything; this is the purpose of the whole program.",
 ["goslide.go", "network/network.go", "layer/layer.go", "node/node.go"], [("learning", "network/network.go: ProcessInput, PredictClass")],
 1600, "a run executes the whole program on drawn separable data for at least 500 steps and judges its last evaluation; every run is non-trivial unless the first evaluation was perfect already",
 PROG_REAL, PROG_STUB, "Liveness stated as progress within a bounded number of steps. Domain: 2-6 classes, evaluation over all neurons; threshold mode unsampled (there training may activate labels only, which teaches nothing).", ["Adam with rate 0.005 (one or two layers) or gradient descent with rate 0.5 (one layer)"])
prop("C32", "The program trains the network its configuration describes",
 "The model a run ends with, and every prediction count on the way, is bit for bit that of a network built from the configuration's settings (sizes, rectified layers below a softmax layer, rate, hash function and mode by their numbers, hash parameters, training and evaluation fractions) and taken through the same steps with the same draws.",
 ["configurations", "inputs", "histories"], "every configuration and pair of files",
 "No test runs the program; a wrong hand-over of a setting shows only in what the trained network does.",
 ["goslide.go", "network/network.go", "configuration/configuration.go"], [("construction from settings", "goslide.go: main, makeLayersTypes; network/network.go: New")],
 12000, "a run executes the whole program, then repeats its steps on a network the harness builds from the same settings, with the same draws for each step, and compares; non-trivial with more than two events",
 PROG_REAL, PROG_STUB, "Replica comparison under identical randomness per step.")

prop("C33", "Hash functions are drawn fairly: every coordinate and every code counts alike",
 "Over independent draws of a hash function of any family, every coordinate has the same chance of deciding any given code (of being sampled with either sign, of standing anywhere in a permutation, of falling into any bin), whatever its position and whichever code. Signs, and codes from separate permutations or samples, are drawn independently of each other, and dense and sparse inputs see the same draw.",
 ["configurations", "inputs"], "every seed of the random draws, all four families, many numbers of coordinates and codes",
 "It is a statement about the distribution of the draws, which a fixed example cannot show.",
 ["wta_hash/wta_hash.go", "densified_wta_hash/densified_wta_hash.go", "densified_minhash/densified_minhash.go", "sparse_random_projection/sparse_random_projection.go"],
 [("random permutations, signs and bins", "constructors of the four hash packages; GetMap")],
 5000, "a run draws 150-1500 hash functions of one family from the simulated generator and counts how often each of up to 16 coordinates decides each code; non-trivial unless the chance is one",
 ["wta_hash", "densified_wta_hash", "densified_minhash", "sparse_random_projection"], RNG_STUB, "Numbers of coordinates are multiples of eight, so that all chances are known exactly; a count may stray by a bound exceeded with probability below 1e-12 (Bernstein's inequality).",
 ["bins of the densified minhash are judged for powers of two of codes and a range of 24 bits, where they can be equally likely"])
prop("C34", "The program's account of its progress is true",
 "The program announces every epoch before its first training step, numbered from 0, and reports for every evaluation batch, in order, the numbers of records, features and labels it really holds. At every rehash it reports for each layer the average number of candidates retrieved over the records of that batch, and the times it gives for the initialization and for each evaluation batch are the times these took.",
 ["configurations", "inputs", "schedules"], "every configuration and pair of files (also with partial and empty batches), and every way time may pass",
 "Nothing in the test suite runs the program or reads its output.",
 ["goslide.go", "network/network.go"], [("reports", "goslide.go: main, evaluateSvm; network/network.go: ProcessInput, PredictClass")],
 14000, "a run executes the whole program on a clock that moves only when the simulator says so and compares its output with the recorded calls; non-trivial with more than two events",
 PROG_REAL, PROG_STUB, "Reads the figures from the program's output. The average over a batch without records is not judged.", observe=["lines on standard output and standard error"])

prop("C35", "Accumulated gradients are the derivatives of the loss",
 "For every record, the gradient that training accumulates for a weight is the derivative, with respect to that weight, of the record's share of the batch's cross-entropy loss over its active neurons; the gradients reported for debugging are the same numbers, and their sum over the records of the batch is what is accumulated. Moving a weight for debugging moves that weight by exactly the requested amount and nothing else.",
 ["inputs", "configurations", "schedules"], "every network shape, active set, weight, record and interleaving of the records of a batch, away from the points where the loss has no derivative",
 "No test runs a backward pass; a wrong chain-rule factor shows only for particular depths, label counts and batch sizes.",
 ["node/node.go", "layer/layer.go"], [("gradients", "node/node.go: ComputeExtaStatsForSoftMax, BackPropagate, IncrementDelta, GetGradient, PurturbWeight"), ("loss", "layer/layer.go: QueryActiveNodeAndComputeActivations")],
 14000, "a run takes the records of one batch forward and backward as interleaved tasks and compares sampled gradients with difference quotients of the loss, computed by the network itself (with moved weights) or from the formulas; non-trivial with more than three gradients well above the tolerance",
 NET_REAL, RNG_STUB, "Central differences with an error estimate from two step widths; points where a hidden neuron switches are skipped.", ["networks of up to 4 layers, 9 hidden neurons and 12 outputs"])

prop("C36", "Densification gives empty bins the codes their probes lead to",
 "In the densified families a bin that listed coordinates fall into has the code those coordinates decide: the place of the largest one (WTA), or the largest index among the best ones kept (minhash). A bin none falls into takes over the own code of the first bin that has one among its probes, and where half of a power of two of bins have codes, probes practically always find one, all bins being probed alike.",
 ["inputs", "configurations"], "every draw of the hash functions, every list of coordinates and values, every number of codes",
 "The tests hash a handful of vectors of fixed functions; a wrong takeover shows only for particular sets of empty bins.",
 ["densified_wta_hash/densified_wta_hash.go", "densified_minhash/densified_minhash.go"],
 [("densification", "densified_wta_hash/densified_wta_hash.go: GetHash, GetRandDoubleHash; densified_minhash/densified_minhash.go: GetHash, GetHashEasy, GetHashEasyDense, GetRandDoubleHash")],
 12000, "a run draws a hash function, finds out which coordinates fall into which bins (from GetMap, or by hashing dense vectors), and predicts the codes of sparse inputs; non-trivial when an empty bin was filled",
 ["densified_wta_hash", "densified_minhash"], RNG_STUB, "Where no probe of a bin leads to a code, the code is left open. The densified WTA is judged for numbers of coordinates that are multiples of eight, where dense vectors leave no bin empty.")

prop("C37", "A layer built from parameters is the layer they were read from",
 "A layer built from given weights, biases and optimizer moments has exactly those and leaves the given arrays alone; every neuron is found where lookups go, and its activations are those of the parameters. Training that stops after any step and goes on, with every neuron active, in layers built from the parameters and moments, whatever their hash functions and tables, ends bit for bit with the same model and predictions as training that was never interrupted.",
 ["histories", "crash points", "inputs", "configurations"], "every history of training steps, every set of points where it is interrupted, all hash families, both optimizers",
 "No test builds a layer from parameters; a lost or misplaced parameter shows only in what training makes of it later.",
 ["layer/layer.go", "node/node.go"], [("construction from parameters", "layer/layer.go: New (LoadWeight)"), ("parameters", "node/node.go: Update, accessors")],
 12000, "a run either compares one layer built from parameters (trained or made up) with the parameters and the layer they came from, or replays a training history with crashes at arbitrary steps, after which only the parameters survive, against the uninterrupted one; non-trivial with at least one comparison or crash",
 NET_REAL, RNG_STUB, "The program has no file format for models, so the simulator stands in for the storage: it keeps what the accessors return. Moments of biases cannot be handed to the constructor and are restored through the node's setters.")

prop("C38", "A neuron's batch slot is open from its forward to its backward pass",
 "A neuron answers for a batch slot only from its forward pass for that slot to its backward pass: errors, statistics and backward passes for a slot that is closed or that the neuron does not have are refused, whatever its other slots are doing, and a refused call changes nothing. A closed slot reads as activation 0 and holds no error, and a forward pass that finds a rectified neuron silent drops what errors were sent before. Errors sent to a neuron that did not fire are dropped, those sent to one that did add up to what its backward pass applies, once.",
 ["histories", "schedules", "inputs"], "every history of forward passes, errors, statistics, backward passes and misuse on the slots of two layers of neurons, in any statement-level interleaving of the slots",
 "The guards have no tests, and a slot left open, or closed too early, shows only after a particular sequence of calls.",
 ["node/node.go"], [("slots", "node/node.go: GetActivation, IncrementDelta, ComputeExtaStatsForSoftMax, BackPropagate, BackPropagateFirstLayer, GetLastActivation")],
 30000, "a run performs a random history on the slots of a neuron and the neurons below it, one task per slot or one after the other, against a reference that keeps open, activation and error per slot; non-trivial with at least one refused call",
 ["node", "configuration"], [], "What becomes of errors when a slot that holds some is activated again is specified for silent rectified neurons only.")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            n = len(re.findall(r"[.](?=\s|$)", p["statement"])); assert n <= 3, (p["id"], n)
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                     observe_at=p["observe"] or ["public API"], hook_needed=None))
            f.write(json.dumps(d) + "\n")
    with open(os.path.join(ROOT, "sim/props.json"), "w") as f:
        json.dump({p["id"]: dict(quick=p["quick"] * 5 // 2, thorough=p["quick"] * 60, rule=p["rule"], real=p["real"], stub=p["stub"], assumptions=p["assume"]) for p in P}, f, indent=1)
        f.write("\n")
    m = dict(version=1, setup_cmd="./check --setup",
             checks=[dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check " + p["id"],
                          evidence_file="evidence/%s.json" % p["id"],
                          technique="deterministic simulation with fault injection: seeded search over schedules, faults and histories",
                          level="exploration", level_note=p["note"] + " Sampling, not exhaustive; every failure replays from its file.") for p in P],
             not_applicable=[],
             notes="No hooks in /repo: each check instruments a scratch copy of the working tree (see DESIGN.md). Exit 2 means the check could not judge.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
