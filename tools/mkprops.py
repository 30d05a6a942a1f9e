#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MU, SF, LU = "lom/_numba/matrix_updates_numba.py", "lom/_numba/posterior_score_fcts.py", "lom/_numba/lambda_updates_numba.py"
MW, LW, MA = "lom/matrix_update_wrappers.py", "lom/lambda_update_wrappers.py", "lom/machine.py"
MM, AUX, EX = "lom/_numba/max_machine_sampler.py", "lom/auxiliary_functions.py", "lom/experiments.py"
LO, LF = "lom/_numba/lom_outputs.py", "lom/_numba/lom_outputs_fuzzy.py"

prop("C01", "Single-layer factor updates sample the exact posterior",
 "In a single-layer factorisation of a matrix or 3-way tensor under any of the eight two-operator logical families, every update of an unfixed factor entry leaves that entry's exact full conditional invariant: the ratio of its probability of moving from -1 to +1 to that of moving from +1 to -1 equals the prior odds times exp(dispersion x (observed data points explained better minus explained worse by +1)). Unobserved (0) data points contribute nothing. One sweep visits every unfixed entry of every unfixed factor once, each update using the then-current values of all other entries and factors, in whatever order the factors are visited.",
 ["schedules", "inputs", "histories", "configurations"],
 "all random draws and factor visiting orders, all data/factor values (incl. missing data), dispersions, priors, latent sizes, families, 2-D and 3-D, after any preceding run",
 "The tests start most families at the ground truth, draw a few unseeded samples and only ask for >98% reconstruction; update functions are exercised directly for OR-AND at lambda=0/1000 only, so wrong scores, priors, stale siblings or wrong acceptance odds pass.",
 [MU, SF, MW, MA], [("element-wise metropolised Gibbs flip", MU), ("per-family explaining-away score", SF), ("dispatch and axis alignment of child data", MW), ("random-order sweep", MA)],
 [("factor values", "+-1 state of the chain", "MachineMatrix.val")], ["factor values before/after one sweep under controlled draws"])

prop("C02", "Layered machines combine child likelihood and every parent exactly",
 "When a factor matrix or an unfixed data matrix is itself generated by one or two parent layers, each update of one of its entries targets the product of its own prior, the likelihood of its child (if any) and one term per parent layer, in which that parent's own logical output for the entry is weighted with that parent's own dispersion. This holds for every combination of families of the layers involved, also when dispersions, priors or values of any of the layers change between runs. Layers that describe the same matrix all describe it in the orientation their model names ask for. An architecture the samplers cannot combine exactly (a third parent, parents of factors of other models, layers of one matrix that ask for different orientations) is refused before anything is changed, never sampled with a layer left out.",
 ["schedules", "inputs", "histories", "configurations"],
 "all draws, states, dispersions and priors; all pairings of child and parent families; child data 2-D or 3-D; zero/one child and one/two parents",
 "No test builds a machine with more than one layer, so parent terms are never evaluated.",
 [MU, MW, MA], [("sampling functions with parents", MU), ("selection of sampling function from relatives", MW)],
 [], ["entry values before/after one sweep under controlled draws"])

prop("C03", "MaxMachine updates sample the exact posterior under current rates",
 "In the MAX-AND model a data point is 1 with the largest rate among its active latent dimensions (or the base rate if none is active), and every update of an unfixed factor entry leaves the resulting exact full conditional invariant. The rates used are always the layer's current ones, whether estimated, fixed or set by the user, and whatever order they rank the latent dimensions in.",
 ["schedules", "inputs", "histories", "configurations"],
 "all draws, data (incl. missing), factor values, rate vectors strictly between 0 and 1 in any order with the base rate smallest, fixed or re-estimated rates, after any history of user changes and runs",
 "One test runs MAX-AND from ground truth with equal rates and accepts 80% accuracy; rankings, ratios and stale rates are not distinguished.",
 [MM, MW], [("MAX-AND score with explaining away by rate order", MM), ("rate-ratio table", MM), ("sampler wrapper", MW)],
 [("rates", "one per latent dimension plus base rate", "layer.lbda.val")], ["factor values under controlled draws"])

prop("C04", "Dispersions are re-estimated from exactly the observed data",
 "Each re-estimation sets a layer's dispersion so that its logistic equals (correct + a)/(observed + a + b), floored at one half, where correct counts the observed (non-zero) data points that the layer's current factors predict correctly and (a, b) is the beta prior. For MAX-AND each latent dimension, greedily taken in order of predictive rate, gets the Laplace-smoothed fraction of ones among the observed points it is the first to explain, and the base rate is the smoothed fraction among the unexplained, capped by the smallest rate. Each layer uses only its own child and factors, and a fixed dispersion never changes.",
 ["schedules", "inputs", "histories", "configurations"],
 "after every iteration of every run: all families, 2-D/3-D, layered machines, beta priors, missing data, any chain state the random schedule reaches",
 "One test checks OR-AND at the noiseless optimum without missing data or prior; all other states, families, dimensions, priors and layers are unchecked.",
 [LU, LW, MM], [("correct-prediction counter and closed form", LU), ("greedy rate estimation", MM)],
 [("dispersion", "logit of the probability that a data point agrees with the deterministic output", "layer.lbda.val")], ["dispersion value after each update, with factors and data at that instant"])

prop("C05", "Whatever the user fixes never changes",
 "Matrices marked fixed, individual entries marked fixed, dispersions marked fixed and observed data keep their exact values through every iteration, sample and run, whether the run completes or is interrupted by an error at any point. Entries that are not fixed still move.",
 ["schedules", "inputs", "histories", "configurations", "fault_sequences"],
 "all fixing patterns over all two-operator families, MAX-AND, 2-D/3-D and layered machines; all draws and orders; faults (interrupt, failed allocation, failed output) at any point",
 "No test fixes anything but the data.",
 [MU, MM, MW, MA], [("fixed-entry mask in every sampling kernel", MU), ("selection of unfixed members", MA)],
 [("fixed flags", "matrix.fixed, matrix.fixed_entries, lbda.fixed", MA)], ["values at every update, in all recorded samples, after faults"])

prop("C06", "Machine state is valid at every instant, also after faults",
 "At every observable instant, including after a run is aborted at an arbitrary point by an interrupt, a failed allocation or a failed write to the terminal, every factor holds only -1 and +1 in its original integer type, all factors of a layer share one latent size and match the shape of the data they explain, and dispersions are finite numbers in their legal range. A subsequent run on the same machine completes normally.",
 ["schedules", "crash_points", "fault_sequences", "configurations", "histories"],
 "every model (two-operator, MAX-AND, non-parametric, quorum), every point of a run at which a fault can strike, sequences of faults and runs",
 "Tests contain no fault, no second run on a machine and do not look at the state between iterations.",
 [MA, MU, MM, AUX], [("in-place element updates", MU), ("run set-up resetting bookkeeping", MA)], [], ["state after every update and after the fault"])

prop("C07", "A run records exactly the drawn samples, in order",
 "A completed run leaves, for every sampled matrix and dispersion, exactly the requested number of samples, sample k being the state at the end of the k-th sampling iteration of that run (dispersions: after their re-estimation in that iteration). In each iteration every unfixed matrix is updated exactly once and then every unfixed dispersion once, by the update function the user assigned to it if there is one. Samples never contain burn-in states, states of earlier runs or uninitialised memory.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "all numbers of samples, burn-in settings, models incl. the non-parametric one whose latent size changes, visiting orders, repeated and previously aborted runs",
 "Tests look only at averages over the trace after one run.",
 [MA], [("trace allocation and update", MA), ("sampling loop", MA)], [("trace", "recorded samples", "Trace.trace / trace_index")], ["recorded samples versus states observed during the run"])

prop("C08", "Burn-in is bounded, honours its limits and judges real data",
 "Every run terminates: burn-in performs at least the minimum number of iterations and at most the larger of minimum and maximum, followed by exactly the requested number of sampling iterations. Between these limits burn-in ends exactly at the first complete window of dispersions, all drawn after the minimum in this run, whose two half-means, compared as probabilities, differ by less than the tolerance for every re-estimated dispersion. During the first iterations for which that is asked, up to the minimum, the dispersions stay as they were. The verdict never depends on earlier runs or on the content of uninitialised memory, and the reported number of burn-in iterations is the number performed.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "all window lengths, tolerances, limits and draw sequences; any garbage in freshly allocated memory; after earlier complete or aborted runs",
 "Tests never observe the number of iterations nor when convergence was declared; garbage memory is usually zero in a short test process.",
 [MA, AUX], [("burn-in loop and window bookkeeping", MA), ("half-window mean comparison", AUX)], [], ["number of iterations, dispersions seen per iteration, reported burn-in iterations"])

prop("C09", "Annealing climbs to the target dispersion and ends on it",
 "With annealing on, the dispersion of every unfixed layer rises in equal steps over the minimum burn-in iterations from target/iterations to exactly the value it was given, never exceeding it, whatever the number of iterations and layers; the factor updates of iteration k use the dispersion of step k-1. A fixed dispersion is not annealed, and dispersions are re-estimated only after annealing ends.",
 ["schedules", "configurations", "histories"],
 "all targets, iteration counts, numbers of layers, models and draw sequences",
 "No test switches annealing on.",
 [MA], [("annealing schedule in burn-in", MA)], [], ["dispersion value at every iteration"])

prop("C10", "The same seed reproduces the same result",
 "Seeding the global random generator and then building a machine, running inference and computing outputs yields bit-identical factors, samples, dispersions, iteration counts and outputs every time, independent of process, hash randomisation, memory contents, clock, speed, terminal and whatever ran earlier in the process.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "all seeds, models and run settings; any environment nondeterminism (hash seed, heap garbage, clock, object addresses, previous work, stalled or odd terminal)",
 "Tests do not compare two runs; the environment varies little within one test process.",
 [MA, MU, AUX], [("all randomness from the global generator", MA), ("deterministic member order", MA)], [], ["digest of all results of two executions of one seed"])

prop("C11", "Row-parallel kernels are race-free and order-independent",
 "Sweeps over a factor, output computation and agreement counting that are declared parallel give the same result for every division of rows among workers and every interleaving of the workers' memory accesses as for sequential execution with the same random draw per entry, and that result equals the logical definition of the model. No row's result is read, overwritten or lost by the processing of another row.",
 ["schedules", "inputs", "configurations"],
 "all numbers of workers, row partitions and interleavings down to single byte-code steps; all families, 2-D/3-D and layered updates",
 "The test environment runs the kernels sequentially (compiler off), so a shared scratch buffer or non-atomic accumulation is invisible; with the compiler on, schedules are not controlled.",
 [MU, LU, LO, LF], [("rows of one factor are conditionally independent given the rest", MU), ("private accumulators/reductions", LU)], [], ["kernel results under a simulated worker schedule"])

prop("C12", "A machine carries no hidden state between runs",
 "Starting a run on a machine that has been run, interrupted, failed or reconfigured before gives exactly what a freshly built machine with the same data, current factor and dispersion values, priors, fixed flags and random draws gives, including samples, averages and outputs. In particular changed priors, beta priors, fixed flags, fixed entries, values and data take effect in the next run, and after an aborted run averages contain only states that were really sampled.",
 ["histories", "crash_points", "fault_sequences", "schedules", "configurations"],
 "all sequences of runs, user changes and faults at arbitrary points; all models",
 "Every test runs inference once on a fresh machine.",
 [MA, MW], [("run set-up", MA), ("sampling-function construction and caching", MW)], [("trace_index, trace", "bookkeeping of earlier runs", MA), ("sampling_fct", "cached update function", MA)], ["state, samples and outputs of the second run against a fresh machine"])

prop("C13", "Outputs and averages are the stated functions of the samples",
 "After any history of runs, a matrix's average is the mean of the samples recorded by the latest run (its current state if that run did not sample it), and the layer output is the model's logical product of the current state, of the signs of the averages, of the averages as independent probabilities, or averaged over samples, according to the technique asked for, mapped to probabilities of a one, and blended with the mean dispersion if noisy emission is asked for. For each of the 36 two-operator model names, output combined with the reported data/factor inversion is the product under the name the user gave. A lazily requested output is never one of an earlier run. Data generated from given factors or probabilities, by the fast or the general generator, for any number of factors, are the same functions of these. The convenience reconstruction of tensors returns exactly these outputs with the averages they belong to, whatever binary coding its input has. Computing outputs changes nothing in the machine, even if it fails half-way.",
 ["histories", "inputs", "configurations", "schedules", "fault_sequences"],
 "all 36 names plus MAX-AND, the non-parametric and the quorum model (current state only), 2-D/3-D, all techniques, factors fixed or sampled, after repeated or aborted runs, allocation failures while computing",
 "Tests check scalar products for random length-3 vectors in 2-D and thresholded reconstructions near the ground truth; 3-D probabilistic outputs, sample averages over histories and failures are unchecked.",
 [MA, AUX, LO, LF, LU], [("output techniques", MA), ("product functions", LO), ("fuzzy products", LF), ("canonical model and inversion flags", AUX)], [], ["output arrays and machine state before/after"])

prop("C14", "Latent-dimension clean-up removes only redundancy and keeps alignment",
 "With automatic clean-up on, burn-in that converges leaves no latent dimension that is entirely -1 in some factor or equal to another dimension in some factor; in one clean-up each removed dimension was redundant in that sense and the surviving dimensions keep their values, relative order, fixed marks and, for MAX-AND, their rates, in every factor alike; layers built on top of a cleaned factor keep exactly the rows that belong to surviving dimensions. In reset mode redundant dimensions are blanked (all unmarked entries -1) instead, others are left alone, and the limit of burn-in leaves none behind either. If an allocation fails during clean-up the layer is left consistent, and inference continues on the reduced layer.",
 ["schedules", "inputs", "histories", "fault_sequences", "configurations"],
 "all factor states incl. runs of adjacent redundant dimensions, 2-D/3-D, fixed marks, clean and reset modes, failures at any allocation in the clean-up",
 "No test switches clean-up on.",
 [AUX, MA], [("clean-up scan and removal", AUX), ("restart of burn-in after clean-up", MA)], [], ["factors, marks and rates before/after each clean-up and at the end of burn-in"])

prop("C15", "Machines are isolated from each other and from the caller's data",
 "Independent machines, run one after another or concurrently from several threads at any interleaving, each produce exactly what they produce alone with the same random draws, even when built from one shared data array and with different models, sizes and priors. Arrays passed in as observed data are never modified, also not by models that are handled through inverted data.",
 ["schedules", "histories", "configurations"],
 "all interleavings of two or three concurrently running machines (thread switches at arbitrary source lines), all model and prior mixes, shared data",
 "Tests use one machine at a time and never look at the input array afterwards.",
 [MA, MW, AUX, LU], [("per-machine state and per-matrix sampling closures", MW), ("model canonicalisation with data inversion", AUX)], [], ["results of each machine alone versus interleaved; the caller's arrays"])

prop("C16", "Parallel model search returns the right result in every row",
 "A parallel hyper-parameter search returns one row per requested combination, in request order, whatever order and process the combinations are computed in: the row names its own model and size and its accuracy is the fraction of held-out entries that the factors returned for this row predict correctly under that model. All combinations see the same training data with exactly the held-out entries hidden, restarts with different indices are independent, and a failing worker makes the search fail rather than drop or alter rows.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "all worker counts, chunkings, completion orders and worker failures; model/size/restart lists; matrices and tensors with missing data",
 "No test runs the search; worker scheduling and failures are outside the test's control.",
 [EX, AUX], [("pool map over configurations", EX), ("predictive accuracy on held-out mask", EX), ("train/test split", EX)], [], ["returned table and factors; tasks as received by workers"])

prop("C17", "Hold-out splits and noise touch only what they may",
 "For every random outcome, splitting data hides only entries that were observed, hides as many positive as negative entries when a balanced split is asked for, hides every eligible entry equally often and as many as the fraction asked for implies, leaves all other entries and the input array unchanged, and returns a mask of exactly the hidden entries. Noise only flips signs (never creating or removing missing values), flips nothing at probability 0 and everything at probability 1, hits each entry with the requested probability, leaves the input unchanged, and with an explicit seed is reproducible whatever ran before. A generated synthetic tensor is the Boolean product of the factors returned with it, whose entries are on with the probability that gives the tensor the density asked for, and its noisy version differs from it with the noise probability. A generated random matrix is the Boolean product of the factors returned with it, none of whose dimensions is contained in another one.",
 ["schedules", "inputs", "histories"],
 "all random draws (incl. extreme ones), data with missing values, 2-D/3-D, fractions, probabilities and seeds",
 "The only test calling the split fails in this environment; noise is drawn unseeded in set-up code and never checked.",
 [EX, AUX], [("mask drawing", EX), ("per-entry flip", AUX)], [], ["returned arrays, mask and input"])

prop("C18", "External tensor solver results are never stale or torn",
 "Reconstruction through the external Boolean tensor solver writes exactly the positive entries and the shape of the given tensor for the solver and returns the factors the solver produced for this very call, with the reconstruction being their Boolean product. If writing the input, running the solver or reading its result fails at any point, the call raises an error instead of returning results of an earlier call or partial results.",
 ["fault_sequences", "crash_points", "inputs", "histories"],
 "all tensors and factor sets; solver exit failures before/after/amid writing, missing or stale output, full disk while writing; sequences of calls",
 "Never run by the tests (needs the external program).",
 [EX], [("sparse text exchange files and subprocess call", EX)], [], ["exchange files, process exit codes, returned arrays"])

prop("C19", "The non-parametric model grows and shrinks consistently",
 "In the non-parametric model, whatever dimensions the random schedule creates or drops and however often runs are repeated or aborted, both factors always have the same latent size, new dimensions start with at least one active entry, every dimension kept after a sweep of the object factor is active for at least one object, and runs complete with the requested samples, in each of which the dimensions beyond the current size are marked inactive. The model keeps its identity when outputs are computed, also when computing fails.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all draws (incl. extreme ones that create many dimensions), data, concentrations, initial sizes, numbers of iterations, aborts",
 "The only test of this model fails before its first iteration in this environment.",
 [MU, MW, MA], [("sampler with dish creation/removal", MU), ("padded trace", MA)], [], ["factor shapes and values after every update, recorded samples"])

prop("C20", "Quorum-model updates sample the exact posterior",
 "In the quorum model a data point is on when at least q of the latent dimensions are active for both its object and its attribute, q belonging to the attribute. Each factor entry is drawn by a kernel that leaves its exact conditional invariant: log prior odds plus dispersion times (observed points predicted correctly only if the entry is on, minus those only if it is off), given the current values of everything else; each non-fixed entry once per update, fixed entries never. Each quorum value is drawn from 1 to 5 with probability proportional to a Poisson(gamma) prior times the likelihood of the observed data of its attribute, and never leaves that range for any draw.",
 ["schedules", "inputs", "histories", "configurations"],
 "all draws incl. extreme ones; factor and quorum states, missing data, priors, dispersions, gamma, fixed entries, more than 127 data points per row",
 "No test runs this model; a sampler that ignores dispersion, prior or the likelihood of the quorum passes them all (and did).",
 [MU, MW], [("quorum and factor samplers", MU), ("arguments handed to the samplers", MW)], [("q, Z, U", "quorum values and factors", MU)], ["values before and after single updates under chosen draws"])

prop("C21", "Non-parametric updates sample the exact conditionals",
 "In one update of the object factor of the non-parametric model every object is visited once: its membership in a dimension that other objects use is drawn with log-odds dispersion times (observed points predicted correctly only with the membership, minus those only without) plus log m/(N-m) where m of the N objects other than it use the dimension; dimensions nobody else uses are dropped; then zero, one or two new dimensions, used by this object only, are created with probability proportional to a Poisson(alpha/N) prior times the likelihood of its data with the attributes of the new dimensions averaged over their prior, and these attributes are drawn from their conditionals including that prior. The attribute factor is drawn from its exact conditionals with its prior, fixed entries respected.",
 ["schedules", "inputs", "histories", "configurations"],
 "all draws at and around every decision boundary; all states incl. unused and singly used dimensions and no dimension at all, missing data, attribute priors, alpha, dispersions",
 "The only test of this model fails before its first iteration in this environment and looks at reconstruction only.",
 [MU, MW], [("sampler with dish creation/removal", MU), ("arguments handed to it", MW)], [("Z, U", "factors of varying latent size", MU)], ["both factors before and after one update under scripted draws"])

prop("C22", "Recorded samples follow the exact joint posterior",
 "With dispersions fixed, running inference leaves the joint posterior of all unfixed matrices invariant: if a machine starts in a draw from the product of the likelihoods of all layers, the priors and (quorum model) the Poisson prior of the quorum values, conditioned on fixed matrices, fixed entries and observed data, then after any number of burn-in and sampling iterations the recorded sample is again such a draw, for all matrices jointly. This holds for every two-operator family, layers on top of factors and of data, unfixed data, MAX-AND and the quorum model; in particular separate entries get separate random draws.",
 ["schedules", "inputs", "histories", "configurations"],
 "all machines with unfixed matrices, draw sequences and numbers of iterations",
 "Tests compare averages with a ground truth of strong signal; a kernel that is right for every single entry but shares a draw, skips a layer's term on stale values or records a biased sample still passes.",
 [MU, MA, MW, LU], [("update kernels composed over members", MU), ("sweep and trace", MA)], [("val of all unfixed matrices", "chain state", MA)], ["distribution of the last recorded sample over many simulated runs"])

prop("C23", "Simulated data have the expected density",
 "For each of the 36 two-operator model names, any number of factors and dimensions and any factor density, data emitted by the model from independently drawn random factors of that density are one with exactly the probability that the closed-form expected density states; random factors drawn by the library have the density asked for; and data simulated with the factor density that the solver returns for an attainable data density have that data density.",
 ["inputs", "schedules"],
 "all model names, 2 to 4 factors, 1 to 12 dimensions, factor densities in [0,1]; solver: data densities attained by a factor density between 0.1 and 0.9 with at most 5 dimensions",
 "The only test of it fails in this environment and looks at one density.",
 [AUX, LO], [("closed forms", AUX), ("solver", AUX), ("random matrices", AUX)], [("density", "returned number", AUX)], ["frequency of ones over 30000 independent simulated data points per scenario"])

prop("C24", "Held-out predictions are scored on exactly the hidden entries",
 "The held-out score of predictions for a matrix is the probability that a randomly chosen hidden one gets a larger prediction than a randomly chosen hidden minus one (ties count half). It depends on the hidden entries only: neither visible entries nor entries that are missing in the data anyway play a role, whatever way and coding the data were split in, and scoring leaves data, training data and predictions unchanged. Bringing 0/1 coded data into -1/1 coding keeps every value's meaning.",
 ["inputs", "schedules"],
 "all data with and without missing values (coded -1/0/1, or 0/1 without missing values), all random splits with both values among the hidden entries, predictions with and without ties, of trained machines or arbitrary",
 "No test scores a hold-out split.",
 [AUX, EX], [("ROC area", AUX), ("splits", AUX), ("splits", EX)], [("hidden entries", "zero in the training data only", AUX)], ["score of predictions under random splits"])

prop("N01", "Scalar logical operators equal their truth tables",
 "Each stand-alone logical or probabilistic operator function equals its mathematical definition for every input vector.",
 ["inputs"], "all input vectors", "Tests sample a few length-3 vectors.", [LO, LF, AUX], [("operator functions", AUX)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
