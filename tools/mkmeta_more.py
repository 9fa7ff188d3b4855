MCF = "seeded random calls whose random numbers are drawn from a simulated, recorded stream; "
m("C04", "simulated worker pool with fault injection (worker exceptions, crashes, interrupts, failing output, stalls), liveness within bounded steps",
  UM + "non-trivial = a fault fired while the call was in progress",
  "seeded search over schedules and fault points; bounded liveness decided by quiescence of the event queue", stub=[POOL])
m("C05", "simulated worker pool with recorded generator states, uniqueness over the history of random numbers",
  UM + "non-trivial = evaluations of more than one run on parallel workers",
  "seeded search over assignments of evaluations to workers; every random number handed to any evaluation is recorded and compared", stub=[POOL])
m("C06", "simulated random stream recorded at the generator seam, run-wise reference model of the filter on the recorded draws",
  MCF + "distinct = configuration (filter orders, kind of Ux and Uab, options); non-trivial = at least two runs with non-zero uncertainty",
  "seeded search; statistics are recomputed from the recorded draws to 1e-7; where draws are organised differently from the reference a distributional comparison with 7 standard errors decides")
m("C07", "simulated random stream, run-wise recursive reference filter",
  MCF + "distinct = configuration (noise and filter orders, low-pass, shift); non-trivial = more than one run with noise",
  "seeded search; the recursion is recomputed from the recorded draws, distributional comparison otherwise")
m("C08", "simulated random stream recorded at the generator seam, batch statistics of a reference model on the recorded draws",
  MCF + "distinct = function and configuration; non-trivial = non-zero uncertainty",
  "seeded search; returned estimates and covariances are compared with those of the recorded draws, or with the exact moments of a reference run by distribution")
m("C09", "simulated random stream (including improbable draws) recorded at the generator seam, generator definitions as executable reference",
  MCF + "distinct = generator and configuration; non-trivial = noise was requested",
  "seeded search; sequences are recomputed from the recorded normal numbers")

CAT = "seeded random calls out of a catalogue of 58 public operations with their option branches; "
m("C10", "simulated random stream, clocks, entropy and processes; replay of the same seed after random histories, in fresh processes and under other hash seeds",
  CAT + "distinct = call, seed and history; non-trivial = the call draws random numbers",
  "seeded search; results and generator states of repeated calls are compared exactly, every read of operating system entropy is intercepted", stub=[POOL])
m("C11", "simulated thread scheduler: real threads, one running at a time, seeded preemption at every line of the library; serial execution in a fresh process as oracle",
  CAT + "two or three calls per run; distinct = calls and sequence of preemptions; non-trivial = at least one preemption inside a call",
  "seeded search over interleavings at line granularity; native code (NumPy, SciPy) is not preempted", stub=["thread scheduler (seeded, line granularity)"])
m("C12", "histories of calls in one simulated process, including failing ones and in-place edits by the user; a fresh process per call as oracle",
  CAT + "2 to 9 calls per run; distinct = history; non-trivial = more than one call",
  "seeded search over histories; arguments, earlier results and global state are compared exactly after each call", stub=[POOL])
m("C13", "fault injection at any point of a call: exception or interrupt before any line of the library, failing allocation of NumPy (once or from then on), failing write; a fresh process as oracle",
  CAT + "distinct = call and fault point; non-trivial = the fault fired",
  "seeded search over calls and fault points, one fault (or persistent lack of memory) per run", stub=["array allocations of NumPy (LD_PRELOAD shim around malloc, calloc, realloc)"],
  assume=["allocations inside SciPy, LAPACK and PyPy do not fail"])
m("C14", "fault injection: every array allocation of the call failing once, from then on, or above a size limit; the same call with enough memory as oracle",
  "seeded random calls of the DFT functions; distinct = call, form of the uncertainty and fault; non-trivial = an allocation failed",
  "seeded search over calls and failing allocations", stub=["array allocations of NumPy (LD_PRELOAD shim around malloc, calloc, realloc)"])
m("C15", "histories of operations on several objects under a simulated random stream with exceptions injected before any line; reference model of the object",
  "2 to 9 operations per run; distinct = history; non-trivial = a Signal was created and operated on",
  "seeded search over histories; all attributes of all objects are compared after each operation, Monte Carlo results run by run on the same random stream")
m("C16", "simulated random stream with exact moments handed to the library's Monte Carlo method, which then decides on the closed-form results",
  "seeded random filters, signals and uncertainties in all documented forms; distinct = configuration; non-trivial = moment-exact draws were used",
  "seeded search; agreement to 1e-8 for linear models and in the limit of small uncertainties otherwise", assume=["Monte Carlo statistics are those of C06 (checked there)"])
m("C17", "simulated worker pool and recorded random stream; quantiles of the histogram, and recount of the histogram, as reference",
  "seeded random UMC calls; distinct = configuration; non-trivial = evaluations were reconstructed and recounted",
  "seeded search; each limit has to lie in the interval of admissible quantiles (several if bins are empty)", stub=[POOL])
m("C18", "simulated random stream with exact moments and simulated worker pool: the library's Monte Carlo engine decides on the closed-form results",
  "seeded random spectra, signals and uncertainties in all documented forms; distinct = operation, size and form; non-trivial = compared with Monte Carlo",
  "seeded search; full covariance matrices compared to 1e-6", stub=[POOL])
m("C20", "simulated random stream with exact moments and simulated worker pool: the library's Monte Carlo engine decides on the closed-form results",
  "seeded random knots, points, kinds and fill options; distinct = configuration; non-trivial = compared with Monte Carlo",
  "seeded search; values, uncertainties and sensitivities compared to 1e-9 / 1e-6", stub=[POOL])
