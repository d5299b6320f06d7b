#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import importlib.util
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
F = "qetpy/core/_fitting.py"
N = "qetpy/core/_noise.py"
D = "qetpy/core/didv/"
IB = "qetpy/core/_ibis.py"
IV = "qetpy/core/_iv.py"
NS = "qetpy/core/_of_nsmb.py"
CUT = "qetpy/cut/_cut.py"
U = "qetpy/utils/_utils.py"
SIM = "qetpy/sim/_sim.py"
PN = "qetpy/plotting/_noise_plotting.py"
PI = "qetpy/plotting/_ibis_plotting.py"
PV = "qetpy/plotting/_iv_plotting.py"

P = []


def p(pid, title, statement, over, text, why, files, mech, observe, technique, note="", na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, na=na))


DET = "deterministic simulation with fault injection: "

p("C01", "Optimum-filter answers depend only on construction, current trace and arguments",
  "Every answer of an optimum-filter object (amplitude fits with and without delay, iterative and stationary pileup fits, baseline fit, no-pulse and low-frequency chi-square, energy and time resolution) equals the answer of a newly constructed filter that was given the same construction arguments and only the most recently loaded trace. "
  "Which queries were made before, in which order and with which arguments, how many traces were loaded before, whether the caller has since reused the buffer it passed in, which other filters exist or were discarded, and whether the object was copied or saved and restored in between must make no difference.",
  ["histories", "inputs"], "all sequences of queries, trace loads (accepted or rejected), caller buffer reuse, copy/save/restore over one or several filters",
  "Tests ask each query once or twice on fresh objects with one trace; the cached intermediate quantities are invalidated by trace loads and shared by queries, so a stale or polluted cache needs a specific history.",
  [F], [("lazily cached intermediates, reset on trace load", F + ":148-350"), ("queries fill and reuse the cache", F + ":351-1012")],
  ["return values of all query methods"],
  DET + "seeded call histories over several filters, with buffer reuse, copy, process restart; each outcome compared with a pristine-process reference execution")

p("C02", "A failed or interrupted filter operation never corrupts later answers",
  "If constructing, loading a trace into or querying an optimum-filter object fails because memory runs out, or is interrupted, later answers are those of a filter holding one definite trace: after a failed query the trace that was loaded, after a load that failed for lack of memory entirely the old or entirely the new trace, after an interrupted load the next trace loaded successfully. "
  "No later answer may mix quantities of two traces or use half-computed ones.",
  ["fault_sequences", "histories"], "every allocation failure point and every interrupt point inside every operation, in every history",
  "No test injects a failure; only a failure at a particular allocation or line between two cached assignments leaves mixed state.",
  [F], [("state is committed after the transforms succeeded", F + ":324-350"), ("queries assign caches only from complete values", F + ":395-1012")],
  ["return values after the failed operation"],
  DET + "allocation failures (numpy allocator seam) and interrupts (line-event seam) at seeded points of seeded histories, checked against the set of admissible reference states")

p("C03", "Concurrent queries on one shared filter answer as if each ran alone",
  "When several threads query the same optimum-filter object at the same time, with a trace loaded beforehand and nobody loading another, every query returns exactly what it would return alone on that filter, and so do all later queries.",
  ["schedules", "inputs"], "all interleavings, at bytecode granularity, of two to four threads issuing queries on one filter",
  "The tests are single-threaded; a query that parks per-call values on the shared object, or publishes a cache before it is complete, fails only under particular interleavings.",
  [F], [("queries keep per-call values local and publish caches once", F + ":395-1012")],
  ["return values of all query methods in every thread"],
  DET + "seeded thread schedules (random, PCT, round-robin) with preemption at every line or bytecode, compared with the pristine-process reference")

p("C04", "dIdV processing and fits do not depend on order, repetition or earlier fits",
  "For a dIdV object, processing the traces again changes nothing (averages, offsets, time offset, deconvolved response), and the result of a fit with one, two or three poles, with or without priors, depends only on the traces, the construction settings and that fit's own arguments (the three-pole fit without priors additionally on the two-pole result current when it ran), not on plots, on earlier or later fits with other pole numbers, or on repetition. "
  "Asking for a fit that was not performed gives an empty result.",
  ["histories", "inputs"], "all sequences of processing, fits with different pole counts and cutoffs, result reads, plots, save/restore over several objects",
  "Tests run process, fit 1, fit 2, fit 3 once in one order on one data set.",
  [D + "_base_didv.py", D + "_didv.py", D + "_didv_priors.py"],
  [("processing derives everything from the stored raw traces", D + "_base_didv.py:942-1060"), ("per-pole result slots", D + "_didv.py:360-548"), ("per-pole result slots with priors", D + "_didv_priors.py:306-392")],
  ["fitresult of each pole count", "processed averages, offsets and responses"],
  DET + "seeded histories over several dIdV objects incl. process restart, each result compared with a pristine-process reference")

p("C05", "A failed or interrupted dIdV step leaves consistent results",
  "If processing traces or fitting fails because memory runs out, the dIdV object afterwards shows for every result either what it showed before the call or the complete result of the call, never a mixture, and results for other pole counts are untouched. "
  "If it is interrupted, repeating the call gives the same results as if the interruption had not happened.",
  ["fault_sequences", "histories"], "every allocation failure and interrupt point of processing and fitting in every history",
  "No test injects failures; the windows are single statements inside long routines.",
  [D + "_base_didv.py", D + "_didv.py", D + "_didv_priors.py"],
  [("processed quantities committed together at the end", D + "_base_didv.py:942-1060"), ("fit results assigned once complete", D + "_didv.py:360-548")],
  ["fitresult of each pole count", "processed averages, offsets and responses"],
  DET + "allocation failures and interrupts at seeded points, checked against admissible reference states")

p("C06", "IV and IBIS results always belong to the last successful analysis",
  "After any sequence of analyses, failed analyses (bad or incomplete arguments, memory exhaustion), reassigned data, plots and restores, the resistances, powers, offsets and errors of an IV or IBIS sweep object are exactly those a fresh object computes with the data and arguments of the last successful analysis; a failed analysis leaves the previous results in place as a whole. "
  "Result arrays handed out earlier are never changed by later operations on the object.",
  ["histories", "fault_sequences"], "all sequences of analyses with different offsets, failures at any allocation, interrupts followed by a redo, plots, save/restore",
  "Tests analyse each object once.",
  [IV, IB], [("analysis computes from the constructor data only", IB + ":400-713"), ("calc_iv computes from the constructor data only", IV + ":241-302")],
  ["offset, resistance, power attributes", "arrays read earlier"],
  DET + "seeded histories with allocation failures, interrupts and rejected calls, compared with a pristine-process reference; handed-out arrays watched")

p("C07", "Noise quantities reflect the current traces however they are computed",
  "Whenever a derived quantity of a noise object (power spectra, correlation coefficients, cross spectra, correlated/uncorrelated split) has just been calculated, it equals what a fresh object with the same traces and the same number of slope removals would calculate, whatever was calculated, plotted, removed, saved or restored before and in whatever order. "
  "Calculating or plotting one quantity never changes another (except that the decorrelation calculates the cross spectra it needs).",
  ["histories", "inputs"], "all sequences of the calculate methods, slope removal, plots, save and restore",
  "Tests call each method once in one order.",
  [N], [("each quantity computed from the stored traces", N + ":293-415"), ("slope removal invalidates dependent quantities", N + ":273-291")],
  ["spectra, correlation and decorrelation attributes"],
  DET + "seeded histories incl. process restart and file restore, compared with a pristine-process reference")

p("C08", "A failed noise calculation leaves old or new quantities, never a mixture",
  "If calculating one of the derived quantities of a noise object fails for lack of memory, the object shows afterwards for each quantity either its previous value or the complete new one, other quantities are untouched, and the same calculation repeated gives the correct result. "
  "If a calculation is interrupted, repeating it gives the correct result.",
  ["fault_sequences", "histories"], "every allocation failure and interrupt point of the calculate methods in every history",
  "No test injects failures.",
  [N], [("quantities assigned from complete local values", N + ":293-415")],
  ["spectra, correlation and decorrelation attributes"],
  DET + "allocation failures and interrupts at seeded points, checked against admissible reference states")

p("C09", "Saving a noise object is durable once acknowledged and otherwise harmless",
  "When saving a noise object returns normally, the file under its name can be loaded and gives the object exactly as it was when saved, also after the process dies directly afterwards. "
  "When saving fails, or the process or the machine dies at any point, the file under that name is a complete version: the one saved before, or the new one, or absent if there was none before; other files are untouched, no other file is left under a name that could be taken for a saved object, the object in memory is unchanged, and saving again once the disk is healthy succeeds.",
  ["crash_points", "fault_sequences"], "every file system operation of saving as crash, power-loss or error point (no space, I/O error, short or torn write, failing rename or sync), in every history of saves of changing objects",
  "The test saves once on a healthy disk and does not read back after a fault.",
  [N], [("serialise to a temporary file, sync, replace", N + ":519-570")],
  ["content of the directory after each fault", "loaded object"],
  DET + "simulated disk behind the file API: error, short write, torn write, crash and power-loss injection at every seeded operation, recovered directory checked against a reference map of acknowledged saves")

p("C10", "A requested figure file is written or the failure is reported",
  "When a plotting method is asked to save its figure to a path, then after it returns without raising or printing an error the file exists at that path under the documented name and is a complete image of the figure, and no other file was created or changed. "
  "If writing fails, the failure is raised or printed, and the object's results are unchanged and the same call succeeds once the disk is healthy. On a healthy disk asking for the file does not make a plot fail which succeeds without.",
  ["fault_sequences", "inputs"], "all plotting methods with a save option, all option combinations, all error points of figure writing",
  "Tests never look at the files written and inject no disk error.",
  [PN, PI, PV, D + "_plot_didv.py"], [("savefig calls", PN + ":18-570"), ("savefig calls", PI + ":8-310"), ("savefig calls", PV + ":13-380"), ("savefig calls", D + "_plot_didv.py:130-560")],
  ["files in the target directory", "standard output", "exceptions"],
  DET + "simulated disk faults under figure writing, directory compared with the documented file set")

p("C11", "Caller data is never modified, not even temporarily or when a call fails",
  "No function or object of the package changes an array, list or dictionary the caller passed in, except where its documentation says it works in place: not during the call (another thread using the same array sees it unchanged throughout), not after it, not when the call fails for lack of memory, is interrupted or is rejected, and not through later operations on objects built from it.",
  ["inputs", "fault_sequences", "schedules"], "all public callables, argument shapes and layouts, failure and interrupt points, instants during the call",
  "Tests pass throw-away arrays and do not compare them afterwards.",
  [F, N, NS, CUT, U, IB, IV, D + "_base_didv.py", SIM], [("inputs copied before being worked on", N + ":128-162"), ("inputs copied before being worked on", CUT + ":400-660"), ("inputs copied before being worked on", NS + ":490-660")],
  ["argument contents at every executed line, after each call and after later operations"],
  DET + "invariant probe at every executed line of seeded calls with allocation failures and interrupts")

p("C12", "Library calls leave process-wide state alone, also when they fail",
  "Apart from plotting calls creating figures and documented random routines advancing the random stream, no call leaves behind a change in process-wide state: random number streams, floating-point error handling, warning filters, print options, plot defaults, working directory, environment, standard streams. "
  "This holds also when the call is rejected, fails for lack of memory or is interrupted.",
  ["fault_sequences", "inputs", "histories"], "all public callables, failure and interrupt points",
  "Tests do not look at process state and inject no failures.",
  [F, N, NS, CUT, U, IB, IV, D + "_base_didv.py", SIM], [("no global settings are touched", "qetpy/")],
  ["numpy/python random state, numpy error state, warning filters, plot defaults, cwd, environment"],
  DET + "process state compared around every seeded call, with allocation failures and interrupts")

p("C13", "Nonlinear pulse and muon-tail fits do not depend on earlier fits",
  "A nonlinear pulse fit or muon-tail fit on a fitter object gives the result a fresh fitter gives for the same data and options, whatever was fitted before with other pole numbers, guesses, fixed rise times or failed fits in between, and model evaluations after a successful fit refer to that fit. "
  "A fit that fails, runs out of memory or is interrupted does not affect later fits.",
  ["histories", "fault_sequences"], "all sequences of fits with different options and pulses on one fitter, including failing, interrupted ones",
  "Tests fit once per fitter.",
  [F], [("fit settings stored per fit", F + ":2018-2376"), ("muon fit settings", F + ":2443-2580")],
  ["fit results, model evaluations"],
  DET + "seeded fit histories with rejected, memory-starved and interrupted fits, compared with a pristine-process reference")

p("C14", "Multi-template filter set-up can be reused for any number of traces and threads",
  "The precomputed matrices and templates of the multi-signal/multi-background filter can be used for any number of traces, in any order, from several threads at once and after failed calls: every fit gives the result a fresh set-up gives for that trace, and the set-up is never modified.",
  ["histories", "schedules", "fault_sequences"], "all sequences and interleavings of fits sharing one set-up, including failing ones",
  "Tests build a set-up, fit one trace and discard it.",
  [NS], [("fits read the shared set-up arrays only", NS + ":332-1080")],
  ["fit results", "content of the set-up arrays"],
  DET + "seeded histories and thread schedules over one shared set-up with allocation failures and interrupts, compared with a pristine-process reference; set-up watched at every line")

p("C15", "Randomised trace selection is consistent for every random stream",
  "For every sequence the random number generator may deliver, symmetrising a set of values terminates and selects existing elements without repetition such that the selection is balanced: for every distance from zero the rarer side is kept entirely and the other one reduced to the same count, so that the number kept does not depend on the stream. "
  "The slope selection is symmetrising followed by outlier removal on what was kept under the same stream, keeps only traces chosen by the symmetrisation and returns one flag per trace; the automatic cuts are the enabled cuts applied one after the other.",
  ["inputs", "schedules"], "all outcomes of the random draws, including extreme ones, for all value sets",
  "Tests run with one seed and check counts.",
  [CUT], [("random sub-selection per histogram bin", CUT + ":334-398"), ("slope cut", CUT + ":463-546"), ("combination", CUT + ":661-764")],
  ["returned masks/indices"],
  DET + "the random generator is replaced by a scripted, seeded adversarial one; invariants checked on every outcome")

p("C16", "Calls and objects do not influence each other, across threads too",
  "A call of any function of the package, or an operation on any object, gives the result it would give alone in a fresh process, whatever other functions were called before with whatever arguments, whatever other objects of the same or another kind were used or discarded, and whichever of them run at the same time in other threads on their own data. "
  "Results already handed out are never changed by later calls.",
  ["histories", "schedules"], "all sequences and interleavings of calls over all functions and object kinds",
  "Tests run each function in isolation on few inputs; memoisation keyed on too little or shared scratch space needs a specific pair of calls.",
  [F, N, NS, CUT, U, SIM, IB, IV, D + "_base_didv.py"], [("no module-level mutable state", "qetpy/")],
  ["return values"],
  DET + "seeded mixed histories and thread schedules over the whole public API, compared with a pristine-process reference")

p("C17", "Objects survive being saved and restored or copied at any point",
  "Any analysis object (optimum filter, nonlinear and muon fitters, dIdV with and without priors, IV, IBIS, noise, TES noise model) can be pickled or deep-copied at any point of its life, also in another process, and the restored object answers every further operation exactly like the original; original and copy do not influence each other afterwards.",
  ["histories", "crash_points"], "all histories cut at every point by save/restore into a fresh process or by copying",
  "Only noise objects are saved in a test, once, and never used after loading.",
  [F, N, IB, IV, D + "_base_didv.py", SIM], [("plain attribute state", "qetpy/")],
  ["return values and result attributes after restore"],
  DET + "seeded histories with process restarts from the pickled state and copies that diverge, compared with a pristine-process reference")

p("C18", "Random routines are functions of their arguments and the generator state",
  "The outcome of every randomised routine (noise generation, symmetrised and automatic cuts) is a function of its arguments and the state of the global random generator at the call: the same state gives the same outcome and the same later stream, whatever happened before in the process and whatever failed before. The generator is only advanced, never reset, so that different states stay different. "
  "From one state, generated noise scales with the square root of the spectrum and is additive over spectra with disjoint supports.",
  ["histories", "inputs"], "all histories before the call, all generator states, scripted draws",
  "Tests seed once and check shapes or means.",
  [N, CUT], [("draws from the global generator only", N + ":128-162"), ("draws from the global generator only", CUT + ":334-398")],
  ["return values", "generator state after the call"],
  DET + "generator behind a scripted seam, checkpointed and replayed at seeded points of seeded histories")

p("C19", "Plotting and reading never change results, and plots show the current ones",
  "Plotting, printing, saving a figure of, or reading results from any object changes no later answer of it, and a plot drawn after any history shows the same curves as a plot drawn by a fresh object in the same state.",
  ["histories", "fault_sequences"], "all sequences of plots with all options between other operations, including failing plots",
  "Tests plot once and look at nothing.",
  [PN, PI, PV, D + "_plot_didv.py"], [("plots read result attributes only", "qetpy/plotting/")],
  ["curve data of the figures", "results read after plotting"],
  DET + "seeded histories interleaving plots, failures and reads, curve data compared with a pristine-process reference")

p("C30", "Results are the same in every process, whatever its clock, hash seed or id",
  "Executed with the same data and the same state of numpy's global generator, any sequence of library calls (analysis objects, stateless functions, randomised routines, plots) returns the same results, raises the same exceptions, prints the same text, draws the same curves and leaves the generator in the same state in every process. "
  "The time shown by the clocks, and its jumping while calls run, the process id, the system's entropy source, string hash randomisation and with it the iteration order of sets, the working directory, umask, time zone, locale, other environment variables, the caller's settings (numpy error reporting and print options, warning filters, garbage collection, plot defaults), the thread the calls are made from, where objects lie in memory and what freshly allocated memory contains make no difference, also when the objects were pickled in one process and the history goes on in another.",
  ["histories", "inputs"], "all call histories in all pairs of process surroundings, with a change of process at any point",
  "All tests run in one process with one hash seed, one clock and one environment; a dependence on set order, object addresses, time or operating-system entropy repeats there and shows only across processes.",
  [F, D + "_base_didv.py", N, NS, CUT, U, SIM], [("randomness comes from numpy's global generator only", SIM + ":1-200"), ("results are computed from arguments and object state", "qetpy/")],
  ["return values, exceptions, printed text, figure curves, generator state"],
  DET + "the same seeded history executed in processes whose clock, process id, entropy, hash seed, directory, locale and heap placement are simulated differently, with seeded clock jumps and changes of process; outcomes compared")

p("C31", "Long-running use does not accumulate memory, objects, files or figures",
  "A process that repeats the same operations on ever new data (constructing, using and dropping analysis objects, loading traces into one object, fitting, calling stateless functions, saving noise objects, plots that save their figures; also calls that are rejected, run out of memory or are interrupted) reaches a steady state: the number and size of live arrays, live objects, items kept in library state or in the objects used, open files, threads, and figures left open by successfully saved dIdV, IV and IBIS plots do not grow with the number of repetitions. Bounded caches are allowed.",
  ["histories", "fault_sequences"], "all operation mixes, repeated without bound, including failing repetitions",
  "Tests make each call a few times and measure nothing; accumulation matters after thousands of events in a processing loop.",
  [F, N, D + "_plot_didv.py", U, CUT, PI, PV], [("objects hold the current trace and results only", F + ":148-350"), ("saved figures are closed", D + "_plot_didv.py:155-161"), ("files are closed and temporary files removed", N + ":500-560")],
  ["live numpy memory, garbage-collected objects, library state, file descriptors, threads, figures"],
  DET + "seeded workloads repeated with fresh data and injected allocation failures and interrupts in one process under a counting allocator; growth confirmed over several hundred repetitions")

p("C32", "A computation that runs out of memory or is interrupted raises, or is right",
  "When memory runs out at any point of any numerical call (stateless functions, constructors and methods of all classes), or the user interrupts it, the call never returns a partial, default or otherwise different value: it raises, or returns exactly what it returns undisturbed. An interrupt is never swallowed or turned into another error: KeyboardInterrupt reaches the caller (only inside iminuit, as the RuntimeError in which it wraps exceptions of the function it minimises). Making the same call again, undisturbed, gives the undisturbed result.",
  ["fault_sequences", "inputs"], "every allocation failure (single or lasting) and every interrupt point in every numerical call",
  "No test injects a failure; a broad except clause with a fallback value turns an out-of-memory event into a silently wrong number.",
  [F, NS, CUT, U, SIM, N, D + "_base_didv.py", IB, IV], [("errors propagate; the two except clauses catch only ValueError and IndexError", IB + ":492"), ("index search catches IndexError only", NS + ":156")],
  ["return values, exceptions"],
  DET + "allocation failures and interrupts at seeded points of seeded calls, each repeated undisturbed; every value compared with a pristine-process reference")

p("C33", "Order of arrival, repetition and one broken channel do not affect the rest",
  "Measurements may arrive in any order and with faults. Whatever the order of traces, averaged quantities (noise spectra, correlation coefficients, cross spectra, decorrelated noise, dIdV averages and fits, offsets, iterative means and covariances) are the same and cut flags follow their trace; delivering every trace twice leaves spectra and correlations unchanged. Channels, bath temperatures, sweep points' channels and frequencies are treated independently: results follow their channel when channels are reordered or left out, and a broken one (NaN, infinite, stuck, zero, saturated, inverted) leaves the results of all others unchanged or has the call rejected as a whole. A dIdV trace containing NaN is left out as if it had not been taken.",
  ["inputs", "fault_sequences", "histories"], "all orders, repetitions, losses and broken items in the data of every function and object that takes several traces, channels, temperatures or frequencies",
  "Tests use one order and intact data; an index mixed up between trace and channel, or a cut or mean leaking between items, needs differing channels, an order and a broken item.",
  [N, IB, IV, D + "_base_didv.py", CUT, U], [("per-channel loops", N + ":299-417"), ("per-channel, per-temperature fits", IB + ":454-713"), ("per-channel bias arithmetic", IV + ":257-310"), ("traces with NaN are left out", D + "_base_didv.py:1016"), ("index arithmetic of the cuts", CUT + ":400-806")],
  ["attributes of noise, dIdV, IV, IBIS objects", "return values and masks of cut and utility functions"],
  DET + "simulated delivery of the data (seeded reordering, duplication, loss, broken channels); every quantity compared with the intact delivery through the item it belongs to, both executed in pristine processes")

p("C34", "How and where the caller's arrays are stored makes no difference",
  "Results do not depend on how the arrays given to any function, constructor or method are stored: in memory that must not be written, in a memory-mapped file, as part of a larger array, with strides, backwards, column by column, in the other byte order or unaligned. Every call, in any sequence of calls on any objects, gives what it gives for ordinary arrays of the same values, and raises only where it raises for those.",
  ["inputs", "histories"], "all calls of the package with arguments in every form of storage, in all sequences",
  "Tests pass freshly made contiguous arrays only, so that a cache keyed by raw memory, a reinterpretation of the buffer, or writing into an argument is never exercised.",
  [F, N, NS, IB, IV, D + "_base_didv.py", CUT, U, SIM], [("arguments are used as given, without copy", F + ":201-350"), ("channel loops over the caller's traces", N + ":215-272"), ("index search and signal sums over the caller's arrays", NS + ":11-300")],
  ["return values, attributes, exceptions"],
  DET + "the storage of every argument is simulated (read-only, memory-mapped, strided, reversed, column-major, byte-swapped, unaligned) in seeded call histories; compared with a pristine-process reference on ordinary arrays")

p("C35", "Equivalent ways of asking give the same answer",
  "The answer depends on what is asked, not on how: positional or keyword arguments, defaults left out or given, Python, NumPy or 0-dimensional numbers, lists, tuples, arrays or ranges, equal strings; stateless filters and methods of a filter object; batches and their items one by one; data with or without axes of length one, calibrations per channel or broadcast; IV and IBIS on the same sweep; fitters given averages, gains, whole periods, resampled traces or half a period as a time offset; a noise model from a fit or its values; full and short returns; one request or its documented steps (all cuts at once or one by one, offsets found or given); and arguments that documentedly have no effect have none.",
  ["inputs", "histories"], "all requests in the package with a documented equivalent, inside all seeded histories in which either is asked",
  "Tests call each entry point in one form on a fresh object, so a branch on the type, the identity or the length of an argument, or a method that drifts from its stateless twin after some history, is never compared with anything.",
  [F, N, NS, IB, IV, D + "_base_didv.py", D + "_didv.py", D + "_didv_priors.py", CUT, U, SIM], [("stateless filters and OptimumFilter repeat each other", F + ":449-1100"), ("dites of two, three or four axes", IV + ":120-260"), ("given averages instead of traces", D + "_didv.py:15-118")],
  ["return values, attributes, exceptions"],
  DET + "every request is asked in an equivalent form inside another seeded, interleaved history of the same process; answers are compared with those of the plain form from a pristine process")

PURE = "Pure function of its arguments: no schedule, clock, I/O, fault or history is involved, so simulation would only dress up input generation; the history, fault and concurrency aspects of the same code are claimed in "
def na(pid, title, statement, why, files, mech, ref, over=("inputs",)):
    p(pid, title, statement, list(over), "all inputs in the documented domain", why, files, mech, ["return values"], "", na=PURE + ref + ".")

na("C20", "Optimum filter recovers scaled, shifted templates and is linear",
   "For a noise-free trace that is a scaled and shifted template the optimum filter returns that scale and shift with vanishing chi-square, amplitudes scale linearly with the trace, and the chi-square of the returned fit is minimal among the allowed start times and amplitudes.",
   "Tests use a handful of seeded pulses.", [F], [("filter in frequency space", F + ":449-605")], "C01-C03")
na("C21", "Window and polarity constraints are honoured by every amplitude fit",
   "The start time returned under a window constraint lies inside (or, if asked, outside) that window, the amplitude has the requested sign whenever such a candidate exists, and widening the window never increases the chi-square.",
   "Tests use few windows.", [F], [("constrained minimum search", F + ":20-146")], "C01-C03")
na("C22", "Power spectra conserve variance and folding conserves power",
   "The integral of the calculated spectrum equals the mean square of the traces, and folding preserves the integral for even and odd lengths.",
   "Tests check single shapes.", [N], [("periodogram normalisation", N + ":18-92")], "C07, C18")
na("C23", "Impedance, admittance and parameter conversions are mutually inverse",
   "Complex impedance times complex admittance is one for one, two and three poles, and converting fit parameters to TES parameters and back is the identity.",
   "Tests check single parameter sets.", [D + "_base_didv.py"], [("closed forms", D + "_base_didv.py:75-265")], "C04, C16")
na("C24", "Resampling factors make an integer number of samples per period",
   "For every sampling and signal frequency the resampling yields traces with an integer number of samples per period and preserves the trace duration.",
   "Tests check few frequencies.", [U], [("rational approximation", U + ":71-180")], "C11, C16")
na("C25", "IV and IBIS results satisfy the bias circuit equations",
   "Recovered offsets, resistances and powers satisfy the circuit equations for the fitted offsets, and reproduce the generating parameters for noise-free sweeps.",
   "Tests check one sweep.", [IV, IB], [("linear fits of normal and superconducting branch", IB + ":400-713")], "C06")
na("C26", "Absorbed energy and Joule power obey the load-line relations",
   "The absorbed energy is the time integral of the power change given by the load line, is additive over disjoint windows and zero for a flat trace.",
   "Tests check one trace.", [U], [("integral", U + ":523-627")], "C11, C16")
na("C27", "TES noise totals are the sums of their components",
   "Total current and power noise equals the sum of its components in superconducting, normal and transition states for all parameters and frequencies.",
   "Tests call each once.", [SIM], [("sums", SIM + ":308-790")], "C16, C17")
na("C28", "Iterative outlier statistics are unbiased for truncated normal data",
   "For truncated Gaussian data the unbiased estimators recover mean and width, and iterative cuts converge and select only values within the final bounds.",
   "Tests check one sample.", [CUT], [("truncated moments inversion", CUT + ":52-217")], "C16, C18")
na("C29", "Multi-template fits are optimal under their sign and window constraints",
   "The amplitudes returned by the multi-template filter minimise chi-square under the sign and window constraints requested.",
   "Tests check one trace.", [NS], [("constrained normal equations", NS + ":332-1080")], "C14")


def built(pid):
    return os.path.exists(os.path.join(ROOT, "dst", "props", pid.lower() + ".py"))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for e in P:
            f.write(json.dumps({
                "id": e["id"], "title": e["title"], "statement": e["statement"],
                "quantifier": {"over": e["over"], "text": e["text"]},
                "why_tests_cant": e["why"],
                "anchors": {"files": e["files"], "mechanism": [{"name": a, "where": b} for a, b in e["mech"]],
                            "observe_at": e["observe"], "hook_needed": None}}) + "\n")
    checks, nas = [], []
    for e in P:
        assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
        if e["na"]:
            nas.append({"property": e["id"], "reason": e["na"]})
        elif not built(e["id"]):
            nas.append({"property": e["id"], "reason": "check not built yet"})
        else:
            checks.append({
                "property": e["id"],
                "quick_cmd": f"bash run.sh check {e['id']} quick",
                "thorough_cmd": f"bash run.sh check {e['id']} thorough",
                "technique": e["technique"], "level": "exploration",
                "level_note": e["note"] or "Seeded sampling of histories, schedules and fault points of the real code; no violation in the explored runs is evidence, not proof."})
    json.dump({"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": nas},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
