"""writes /verif/properties.jsonl"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=hook)))
MC = "PyDynamic/uncertainty/propagate_MonteCarlo.py"
prop("C01", "Update Monte Carlo returns exact batch mean and covariance",
 "For every model, number of runs, block size and number of workers, the mean and covariance that UMC_generic (and UMC on top of it) returns equal, up to rounding, the sample mean and the sample covariance (divisor runs-1) of the results of all main-phase evaluations taken together. This holds regardless of how the runs are divided into blocks (including a partial or single last block and blocks of one) and of the order in which parallel workers deliver their results. The results of the initial phase do not enter.",
 ["inputs", "configurations", "schedules"], "all models, runs, blocksize, runs_init, n_cpu, all completion orders of the workers",
 "the tests compare two fixed configurations loosely with a huge number of runs; no test checks the update formulas for partial blocks, blocks of one, or completion orders",
 [MC], [("blockwise update of mean and covariance", MC + ":_UMC_blockwise")], observe=["return values of UMC_generic", "recorded evaluations of the model"])
prop("C02", "Update Monte Carlo accounts for every sample exactly once",
 "A call of UMC_generic draws exactly runs_init plus runs samples, never asks for more than the block size (or runs_init) at a time, and evaluates every drawn sample exactly once. With return_samples it returns exactly the runs main-phase samples, each drawn sample once, in their original shape, with every returned result being the one obtained from the sample at the same position, however the workers interleave. The returned mean describes these results.",
 ["inputs", "configurations", "schedules"], "all runs, blocksize, runs_init, worker counts, sample and result shapes, completion orders",
 "tests run once with the completion order of the moment; a pairing error or a lost or repeated sample shows only for certain completion orders and block divisions",
 [MC], [("blockwise drawing and evaluation", MC + ":_UMC_blockwise"), ("ordered parallel map", MC + ":UMC_generic")],
 observe=["calls of draw_samples and evaluate", "sims['samples'], sims['results']"])
prop("C03", "Update Monte Carlo histograms count every result",
 "Each histogram returned by UMC_generic has the requested number of bins per output, its counts are non-negative whole numbers that sum to runs, and its outermost edges are the smallest and largest of all evaluated results. The inner edges divide the range seen in the initial phase evenly, and every main-phase result is counted in the bin whose edges enclose it, results beyond the initial range in the outermost bins. This holds for every number of bins, several histograms at once, constant outputs and any heavy tails, blocks and worker schedules.",
 ["inputs", "configurations", "schedules"], "all models, tails, bins (int or list), runs, block sizes, initial sizes, completion orders",
 "tests only look at shapes; whether a result falls outside of the initial range depends on the random draws",
 [MC], [("histogram update", MC + ":_UMC_blockwise")], observe=["histograms returned by UMC_generic"])
prop("C04", "Failures during update Monte Carlo surface and workers are released",
 "If drawing or evaluating a sample raises, the caller is interrupted while waiting, or a worker process dies, a call of UMC_generic or UMC ends in bounded time with an exception (that of the model if the model raised, a StopIteration possibly as RuntimeError as in generators); with failing progress output it raises or returns the complete result. It never waits forever and never returns a result that omits a sample. On every exit no worker process of the call stays alive, slow workers change nothing, and a later call without faults gives the regular result.",
 ["fault_sequences", "crash_points", "schedules"], "all faults (exceptions in draw/evaluate, crash of a worker before or after its evaluation, interrupt, failing stdout, stalls) at every point of every schedule",
 "no test injects any fault; a worker that dies used to hang the call forever",
 [MC], [("pool as context manager", MC + ":UMC_generic")], observe=["exceptions", "live workers", "progress of the call"])
prop("C05", "Parallel evaluations draw independent, reproducible random numbers",
 "If the model itself draws random numbers from NumPy's global generator, no two evaluations of a parallel UMC_generic call receive the same random numbers, nor numbers used for drawing the samples, whichever worker executes them. After seeding the global generator, mean, covariance and histograms are the same for every completion order and every number of parallel workers (two or more), and equal evaluations get the same numbers again.",
 ["schedules", "configurations"], "all assignments of evaluations to workers, worker counts and completion orders",
 "which worker evaluates which sample is decided by the operating system; tests use deterministic models only",
 [MC], [("random state per evaluation", MC + ":_evaluate_seeded")], observe=["random numbers drawn inside the evaluations", "return values"])
prop("C06", "Monte Carlo for filters equals its definition on the same draws",
 "MC returns the mean and covariance (or its diagonal / standard deviations as documented by its options) of the outputs that result from filtering, run by run, one draw of the input signal with one draw of the filter coefficients, with the drawn signal distributed as given by x and Ux (standard deviations, a covariance matrix or a noise model), the coefficients as given by Uab, and the known low-pass filter, shift and rejection of unstable filters applied as requested. UMC evaluates the same model. Every documented form of the arguments gives the result of the equivalent general form.",
 ["inputs", "configurations"], "all random streams, filters, signals, kinds of Ux, options, run numbers",
 "tests assert only that calls succeed or that results are close for one seed",
 [MC], [("MC", MC + ":MC"), ("sampling", MC + ":_UMCevaluate, PyDynamic/misc/tools.py, PyDynamic/misc/noise.py")], observe=["random numbers consumed", "return values of MC"])
prop("C07", "Sequential Monte Carlo equals run-wise recursive filtering",
 "SMC returns, for every time instant, the mean and standard deviation over all runs of the recursively filtered signal, with the requested percentiles, for any ARMA noise model, IIR or FIR filter with uncertain coefficients, and known low-pass filter of any orders. Every run uses one draw of the coefficients and noise that is drawn per instant. The optional samples are the ones the statistics describe.",
 ["inputs", "configurations"], "all random streams, filter and noise orders, low-pass filters, shifts, run numbers",
 "tests call SMC with one trivial filter; other orders used to raise or mix up lags",
 [MC], [("SMC", MC + ":SMC")], observe=["random numbers consumed", "return values of SMC"])
prop("C08", "Monte Carlo identification and conversion return batch statistics",
 "The Monte Carlo based estimators outside of the filters - conversion of frequency responses to real and imaginary parts, second-order-system response functions, transfer function fits and deconvolution filter fits - return the mean and the covariance, over their runs, of the value obtained from each random draw of their uncertain inputs. The draws follow the given estimate and uncertainty, and the returned covariance has the ordering the documentation states (real parts before imaginary parts).",
 ["inputs", "configurations"], "all random streams, inputs, uncertainties, run numbers",
 "tests assert shapes or closeness for one configuration",
 ["PyDynamic/misc/SecondOrderSystem.py", "PyDynamic/misc/tools.py", "PyDynamic/model_estimation/fit_filter.py", "PyDynamic/model_estimation/fit_transfer.py"],
 [("batch statistics", "FreqResp2RealImag, sos_realimag, sos_absphase, fit_som, invLSFIR_unc, invLSFIR_uncMC, invLSIIR_unc")], observe=["random numbers consumed", "return values"])
prop("C09", "Noise generators follow their definition for every random stream",
 "Given the stream of normal random numbers, the ARMA generator returns exactly the recursion of its coefficients, the coloured noise generator returns its input noise shaped in the frequency domain to the requested exponent with the requested mean and standard deviation, test signals add white noise of the requested standard deviation to the noise-free signal and nothing otherwise, and correlated noise objects keep their state to themselves. Lengths are as requested.",
 ["inputs", "configurations", "histories"], "all random streams, lengths, orders, colours, standard deviations",
 "tests look at single statistics or only at the length",
 ["PyDynamic/misc/noise.py", "PyDynamic/misc/testsignals.py"], [("ARMA", "PyDynamic/misc/noise.py:ARMA"), ("power_law_noise", "PyDynamic/misc/noise.py:power_law_noise"), ("test signals", "PyDynamic/misc/testsignals.py")], observe=["random numbers consumed", "return values"])
prop("C10", "Seeding NumPy makes every stochastic function reproducible",
 "After np.random.seed every function with random draws returns the same result when called again with the same arguments and the same seed, independent of clocks, hash seed, process and the order in which parallel workers finish. A function never re-seeds or rewinds the caller's global generator, and successive calls without re-seeding use fresh random numbers. Functions without random draws leave the generator untouched. (Correlated-noise objects own a generator that is reproduced by their seed argument instead.)",
 ["histories", "schedules", "configurations"], "all sequences of calls and seeds, across processes and hash seeds",
 "tests never repeat a call under a seed or look at the state of the generator",
 ["PyDynamic/misc/noise.py", "PyDynamic/misc/tools.py", MC, "PyDynamic/misc/SecondOrderSystem.py", "PyDynamic/model_estimation/fit_filter.py", "PyDynamic/model_estimation/fit_transfer.py"],
 [("only the global NumPy generator is used", "np.random calls throughout")], observe=["global generator state", "return values", "reads of operating system entropy and clocks"])
prop("C11", "Calls from several threads do not influence each other",
 "Any public functions of the library called concurrently from several threads on read-only shared or on separate arguments return exactly what they return when called one after another, for every interleaving of the threads (each thread having a random generator of its own; sharing NumPy's global generator is the caller's choice). No call leaves anything behind that changes a call in another thread.",
 ["schedules"], "all interleavings at line granularity of two or three concurrent calls out of the whole public interface",
 "no test uses threads",
 ["PyDynamic"], [("no shared mutable module state", "PyDynamic")], observe=["return values per thread"])
prop("C12", "Results depend on arguments only, and arguments are not modified",
 "Every public function returns, after any history of earlier calls including failed ones, the same result as in a fresh process with the same arguments and random state. Calls do not modify the arrays, lists or dictionaries passed to them, and what they return is not changed by later calls.",
 ["histories"], "all sequences of public calls with all option branches",
 "each test calls one function with fresh arguments and does not look at the arguments again",
 ["PyDynamic"], [("copies before modification, no caches", "PyDynamic")], observe=["arguments before and after", "return values of earlier and later calls"])
prop("C13", "A call hit by a fault raises and leaves nothing behind",
 "If memory allocation fails, the standard output cannot be written, or the caller is interrupted at any point inside a public function, the call either raises or returns the correct result, never a different one. Its arguments are unmodified, global settings of NumPy and the interpreter (error handling, warning filters, print options) are as before, and repeating the call without the fault gives the regular result.",
 ["fault_sequences", "crash_points"], "a failing allocation, a failing write or an interrupt at every point of any public call",
 "no test injects faults",
 ["PyDynamic"], [("arguments are copied before they are changed", "PyDynamic"), ("fallbacks on MemoryError", "PyDynamic/uncertainty/propagate_DFT.py")], observe=["exceptions", "arguments", "return values"])
prop("C14", "Out-of-memory fallbacks give the covariance of the regular path",
 "When the memory for a full matrix product or sensitivity matrix is not available, GUM_DFT, DFT_deconv and DFT_transferfunction either raise MemoryError or return the same values and the same covariance - as matrix, or as its blocks (A, B, C) for [[A, B], [B^T, C]] - as with enough memory, to rounding. The other functions of the DFT module raise an exception or return the same result. Arguments stay as they are and the same call succeeds once memory is available.",
 ["fault_sequences", "inputs"], "every allocation in the call failing, once or persistently, for all sizes and forms of the uncertainty",
 "the fallback is never executed by the tests, memory is always sufficient",
 ["PyDynamic/uncertainty/propagate_DFT.py"], [("except MemoryError branches", "PyDynamic/uncertainty/propagate_DFT.py:GUM_DFT, GUM_iDFT, DFT_deconv, _prod")], observe=["return values with and without fault"])
prop("C15", "A Signal stays consistent through any history of operations",
 "After any sequence of creating Signals (with time axis, sampling interval or sampling frequency, without uncertainty or with a number, point-wise uncertainties or a covariance matrix), labelling, plotting and applying FIR or IIR filters (certain or uncertain, linearised or by Monte Carlo with the requested number of runs), time axis, values, uncertainty, Ts = 1/Fs and labels of each Signal equal those of a simple reference model that applies the documented operations one by one to that Signal only. Operations that are rejected or hit by an exception, interrupt or lack of memory raise and leave the Signal as it was; arrays handed in by the user are never modified.",
 ["histories", "inputs", "fault_sequences"], "all sequences of operations on signals with any kind of uncertainty, with faults at any point",
 "the tests apply single operations to one signal",
 ["PyDynamic/signals.py"], [("Signal", "PyDynamic/signals.py:Signal")], observe=["attributes of Signal after each operation"])
prop("C16", "Monte Carlo and analytic filter propagation agree",
 "For every FIR filter, the output and uncertainty of the closed-form propagation (FIRuncFilter, convolve_unc) equal mean and covariance of the Monte Carlo method for filters when the latter's draws have exactly the moments of the given uncertainties, wherever the model is linear or the closed form exact. For IIR filters both agree in the limit of small uncertainties. Forms of stating the same uncertainty (standard deviation, covariance sequence, full matrix) give the same result.",
 ["inputs", "configurations"], "all filters, signals, kinds of uncertainty, low-pass filters, shifts; draws fixed by the simulator to have exact moments",
 "a comparison with real random draws is limited to a loose tolerance",
 ["PyDynamic/uncertainty/propagate_filter.py", "PyDynamic/uncertainty/propagate_convolution.py", MC], [("FIRuncFilter, IIRuncFilter, convolve_unc, MC", "PyDynamic/uncertainty")], observe=["return values"])
prop("C17", "UMC credible intervals follow from its histogram",
 "UMC returns a histogram with the requested number of bins in which all runs are counted, and for every instant and requested probability a lower and upper limit that are the quantiles of that histogram at the corresponding tail probabilities, interpolated within a bin. The lower limit is never above the upper one, larger probabilities never give narrower intervals, and all lie in the range of the evaluated outputs.",
 ["inputs", "configurations", "schedules"], "all filters, signals, probabilities, bins, random streams, schedules",
 "tests only check shapes of the result",
 [MC], [("inverse distribution function from histogram", MC + ":UMC")], observe=["return values of UMC"])
DFTF = "PyDynamic/uncertainty/propagate_DFT.py"
prop("C18", "Monte Carlo confirms the uncertainty propagation through the DFT",
 "For GUM_DFT, GUM_iDFT, DFT2AmpPhase, AmpPhase2DFT, AmpPhase2Time, Time2AmpPhase, Time2AmpPhase_multi, DFT_deconv, DFT_transferfunction and DFT_multiply, the returned values and the returned covariance (matrix or, where documented, variances) equal the estimate and the covariance that the library's own Monte Carlo engine (UMC_generic) obtains from the defining formula when its draws have exactly the moments of the given uncertainty - exactly for linear transforms, in the limit of small uncertainties for the others. This holds for every documented form of the uncertainty (number, vector of variances, covariance matrix, sparse matrix), for windows, zero-padding, masks, given or returned sensitivities, selections, and chains of transforms such as to the frequency domain and back.",
 ["inputs", "configurations", "schedules"], "all signals, spectra, lengths, forms of the uncertainty and options; draws fixed by the simulator to have exact moments, any completion order of the Monte Carlo evaluations",
 "tests compare a few diagonals with real random draws to a loose tolerance; covariances between different instants or frequencies are never compared",
 [DFTF, MC], [("closed-form propagation", DFTF), ("Monte Carlo engine", MC + ":UMC_generic")], observe=["return values"])
prop("C20", "Monte Carlo confirms interpolation with uncertainties",
 "interp1d_unc and make_equidistant return, for every kind of interpolation, the values and standard uncertainties that the library's Monte Carlo engine obtains by interpolating draws of the given values; the returned sensitivities map the given values and their uncertainties (in the order given, sorted or not) to the interpolated ones. Values and uncertainties at the knots are reproduced. Beyond the knots, the requested fill values are returned or, if none are allowed, an error is raised. Equidistant grids start at the first knot, have the requested spacing and end within one spacing before the last knot.",
 ["inputs", "configurations"], "all knots, values, points, kinds, fill options and orders; draws fixed by the simulator to have exact moments",
 "property-based tests of the repository check bounds of the results, not the propagated uncertainties or the sensitivities",
 ["PyDynamic/uncertainty/interpolate.py", MC], [("White's formula and sensitivities", "PyDynamic/uncertainty/interpolate.py:interp1d_unc"), ("Monte Carlo engine", MC + ":UMC_generic")], observe=["return values"])
NA = []
def na(id, title, statement, text, why, files, reason):
    prop(id, title, statement, ["inputs"], text, why, files, [("pure computation", f) for f in files])
    NA.append(dict(property=id, reason=reason))
PURE = "Pure function of its arguments: no schedule, clock, randomness, I/O or fault enters, so there is nothing for a simulator to decide; generated inputs compared with a formula would be property-based testing. "
na("C19", "Impulse-invariant conversion and filter utilities are exact",
 "Converting an analogue to a digital filter by impulse invariance reproduces the sampled impulse response; Kaiser low-pass design, group delay, stability test and bilinear transformation follow their definitions for all orders and sampling rates.",
 "all filters, orders, rates", "tests use one or two filters", ["PyDynamic/misc/impinvar.py", "PyDynamic/misc/filterstuff.py"], PURE + "Histories, threads and faults of these functions are part of C11-C13.")
na("C21", "Filter design fits minimise their least-squares criterion and are stable",
 "LSFIR, LSIIR, invLSFIR and invLSIIR return coefficients of the requested order that minimise the weighted deviation from the given frequency response with the given delay, and stabilised IIR filters have all poles inside the unit circle.",
 "all responses, orders, delays", "tests sample a few responses", ["PyDynamic/model_estimation/fit_filter.py", "PyDynamic/misc/filterstuff.py"], PURE + "Their Monte Carlo variants are covered by C08.")
na("C22", "Matrix and conversion helpers are exact",
 "make_semiposdef returns the nearest positive semi-definite symmetric matrix, real/imaginary vectors and complex vectors convert without loss, vectors are trimmed or padded to the requested length, and is_... helpers and shift_uncertainty give exact answers.",
 "all matrices and vectors", "property-based tests sample inputs", ["PyDynamic/misc/tools.py"], PURE)
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    extra = os.path.join(here, "tools", "unclaimed.json")
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    claimed = json.load(open(os.path.join(here, "sim", "meta.json")))
    man = dict(version=1, setup_cmd="bash tools/setup.sh",
        checks=[dict(property=p["id"], quick_cmd="./run.sh check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh check " + p["id"],
                     technique=claimed[p["id"]]["technique"], level=claimed[p["id"]]["level"], level_note=claimed[p["id"]]["level_note"])
                for p in P if p["id"] in claimed],
        not_applicable=NA + [dict(property=p["id"], reason="no check yet: under construction") for p in P
                             if p["id"] not in claimed and p["id"] not in [n["property"] for n in NA]],
        notes="No hooks in /repo: every seam is an import-time substitution in /verif/sim (global NumPy generator, clocks, CPU count, process and thread pools, stdout) plus an LD_PRELOAD allocator shim. replay: ./run.sh replay FILE; determinism: ./run.sh selftest PROP N.")
    json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
