"""Writes properties.jsonl and MANIFEST.json (the one place in which the properties are stated).
Usage: python3 tools/spec.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/legwork/"


def m(name, where):
    return {"name": name, "where": SRC + where}


# id, title, statement, over, text, why tests can't, files, mechanism, observe_at, technique, level note
P = [
 ("C01", "Parallel evolution equals serial evolution under every worker schedule",
  "Evolving eccentric binaries, or calculating their SNRs, with several worker processes gives the same values in the same source order as with one, however the jobs are divided among the workers and in whatever order they finish. At most the requested number of worker processes is used at a time and none is left running once the call has returned.",
  ["schedules", "inputs", "configurations"], "all populations, worker counts, job partitions, orders and durations of the jobs",
  "the tests run one population with one or two real workers; the operating system picks the one schedule that is seen",
  ["evol.py", "snr.py", "source.py"],
  [m("pool map over the sources", "evol.py:evol_ecc"), m("n_proc is passed on", "snr.py:snr_ecc_evolving, source.py:Source.get_snr_evolving")],
  ["return values", "worker processes"], "deterministic simulation of the worker pool with seeded job partition and completion order",
  "seeded exploration; the pool itself is simulated below schwimmbad, the workers are real forked processes running LEGWORK"),
 ("C02", "Failing, slow or interrupted workers never yield partial results",
  "If a worker process fails, is lost or stalls, or the user interrupts a parallel calculation, the call either returns exactly what it would have returned without the fault or raises an error; it never returns partial, reordered or default-filled values and it doesn't wait for ever. Afterwards the sources still hold the values they had before the failed call, no worker process is left running, and repeating the call without the fault gives the right result.",
  ["schedules", "fault_sequences", "crash_points"], "all populations, worker counts, schedules and worker faults (exception, death, stall, interrupt) at any job",
  "no test lets a worker fail; which job is hit and what is in flight at that time matters",
  ["evol.py", "snr.py", "source.py"],
  [m("pool as a context manager", "evol.py:evol_ecc"), m("SNRs restored on failure", "source.py:_keep_snr_on_failure")],
  ["return values", "exceptions", "the class of sources", "worker processes"],
  "deterministic simulation of the worker pool with seeded worker faults",
  "seeded exploration; a worker's death that the pool never notices is a recorded known finding"),
 ("C03", "Saving is all or nothing under I/O errors, crashes and power loss",
  "If saving sources fails or the process or machine dies at any point, the file afterwards holds either exactly what it held before (or still doesn't exist) or everything that was being saved; a save that reported success can be loaded back completely. Saving never changes the sources or another file, leaves no other files behind (unless the process dies or removing them fails), and without permission to overwrite it never replaces an existing file.",
  ["crash_points", "fault_sequences", "histories"], "all file-system calls of a save x all errors the call can return, short writes, full disks, crashes and power losses; histories of saves",
  "the tests save once to a healthy disk",
  ["source.py"], [m("write elsewhere, sync, then move into place", "source.py:_write_file"), m("serialisation in memory", "source.py:Source.save")],
  ["the file", "exceptions"], "deterministic disk simulation (every libc file call decided by the simulator) with fault injection",
  "seeded exploration of crash and error points on a simulated disk; fsync semantics modelled, directory entries assumed durable"),
 ("C04", "Concurrent saves and loads of one file never mix or destroy data",
  "When several processes save to and load from the same file at the same time, every load that succeeds returns exactly what one of the saves wrote (the newest that was complete when the load began, or one made meanwhile), a load of a file that exists throughout doesn't fail because others are saving, and once all are done the file holds exactly what one successful save wrote. Among processes that save without permission to overwrite at most one succeeds, only if the file didn't exist before, and what it or anyone else wrote is not replaced by the others.",
  ["schedules", "crash_points"], "all interleavings of the file-system calls of 2-4 processes, with some of them crashing",
  "the tests use one process; the interleaving of the file-system calls decides",
  ["source.py"], [m("exclusive publication of the complete file", "source.py:_write_file"), m("existence check", "source.py:Source.save")],
  ["the file", "loaded sources", "exceptions"], "deterministic simulation of several processes on one disk with seeded interleaving of file calls",
  "seeded exploration of interleavings of the real file-system calls"),
 ("C05", "Saving, restarting and loading continues exactly where it was",
  "Sources that are saved and then loaded in a new process give the same attributes and, for any further history of operations, the same results as sources that were never saved, wherever in the history the restart takes place and however often. This includes everything already calculated and every setting; only user functions have to be supplied again.",
  ["histories", "crash_points", "configurations"], "all histories of operations with restarts at any points, for all populations and settings",
  "the tests save and load once, in the same process, and compare attributes",
  ["source.py"], [m("what is written", "source.py:Source.save"), m("what is restored", "source.py:Source.from_file")],
  ["attributes and results after loading"], "deterministic simulation of crash-and-restart histories against an uninterrupted twin",
  "seeded exploration; compared with a relative tolerance of 1e-9"),
 ("C06", "Loading under read faults is exact or fails, never wrong",
  "If reading a file of sources meets I/O errors, short reads, interrupted calls, a file that was cut off, emptied or damaged in its structure, or the file disappears, loading either raises an error or returns exactly the saved sources, and it never changes the file. Short reads and interrupted calls alone never make it fail, and a later load without faults is exact.",
  ["fault_sequences", "crash_points", "inputs"], "all read-path file-system calls x errors, short transfers and truncation points of the file",
  "the tests load intact files from a healthy disk",
  ["source.py"], [m("reading", "source.py:Source.from_file, _read_dataset")], ["loaded sources", "exceptions", "the file"],
  "deterministic disk simulation with read faults", "seeded exploration; flipped data bytes are outside the fault model (the format has no checksums)"),
 ("C07", "Faults reading LEGWORK's data files never distort results or poison later ones",
  "If LEGWORK's response-function file is missing, sensitivities use the documented approximation after a warning; any other fault reading its data files either raises an error or leaves the result exactly as without the fault, and short reads and interrupted calls are invisible. Once the fault is gone every new calculation is regular again; a class whose curve was interpolated while the response file was missing keeps the documented approximation until its curve is set again.",
  ["fault_sequences", "histories"], "all read-path calls on the data files x errors, missing files and short reads, at any point of a history of calculations",
  "the tests read intact data files",
  ["psd.py", "source.py"], [m("fallback", "psd.py:load_response_function"), m("harmonics table", "source.py:Source.create_harmonics_functions")],
  ["results", "warnings", "exceptions"], "deterministic disk simulation of the packaged data files with fault injection",
  "seeded exploration; the response-function file is real, the harmonics table is a regenerated stand-in"),
 ("C08", "The sensitivity curve in use always matches the shown parameters",
  "After any history of parameter changes (in any form), SNR calculations with other settings, masking, copying, evolving into new classes and reloading, including operations that fail part-way, the sensitivity curve of every class is the one that its current parameters describe. A change of parameters that fails leaves them as they were, and one that succeeds changes exactly what was asked for in that class only.",
  ["histories", "fault_sequences", "configurations"], "all histories of operations over related classes with failures at any call inside them",
  "the tests change a few parameters on one object without failures",
  ["source.py"], [m("re-interpolation on change", "source.py:SensitivityCurveParams"), m("binding of copies", "source.py:Source.__getitem__, SensitivityCurveParams.__deepcopy__")],
  ["the curve", "the parameters"], "deterministic simulation of operation histories with injected call failures",
  "seeded exploration; reference is the PSD function itself, 0.3 % tolerance for the interpolation"),
 ("C09", "Everything derived from the luminosity tolerance matches the shown tolerance",
  "After any history of changing the luminosity tolerance, masking, copying, evolving and reloading, including changes that fail part-way, the number of harmonics required, the dominant harmonic and the eccentricity that separates circular from eccentric sources are those of the tolerance the class shows. A change that fails leaves the tolerance as it was.",
  ["histories", "fault_sequences"], "all histories of operations over related classes with failures at any call inside them",
  "the tests set the tolerance once or twice without failures",
  ["source.py"], [m("recalculation and roll-back", "source.py:Source.gw_lum_tol"), m("harmonics", "source.py:Source.create_harmonics_functions"), m("transition", "source.py:Source.find_eccentric_transition")],
  ["harmonics functions", "transition eccentricity", "masks"], "deterministic simulation of operation histories with injected call failures against a reference model",
  "seeded exploration; the reference model works from the same harmonics table, tolerating one harmonic"),
 ("C10", "Copies, masks, evolved and loaded sources are independent of each other",
  "A class obtained from another by masking or copying it (copy() or deepcopy), or by saving and loading, holds exactly the selected sources in order, with their results and all settings; a masked or copied one has the same type. One obtained by evolving into a new class keeps everything that evolution doesn't change. Afterwards no operation on one of them, including failing ones and changes of settings, ever changes anything that can be observed on another.",
  ["histories", "fault_sequences"], "all histories over families of related classes, interleaving operations on the members in any order",
  "the tests check a few attributes straight after masking",
  ["source.py"], [m("masking", "source.py:Source.__getitem__"), m("new class", "source.py:Source.evolve_sources"), m("parameters bound to their class", "source.py:SensitivityCurveParams")],
  ["all attributes and functions of every class"], "deterministic simulation of interleaved histories over related objects with injected call failures",
  "seeded exploration; element-wise writes by the user are only made where no sharing is documented (not after evolving into a new class)"),
 ("C11", "Arguments and previously returned arrays are never modified",
  "No operation, whether it succeeds or fails part-way, changes the arrays, dictionaries or lists that the user passed to it, and no later operation changes the values of arrays that an earlier one returned.",
  ["histories", "fault_sequences", "inputs"], "all functions and methods, all argument shapes, histories of calls with failures",
  "the tests don't look at arguments after a call, nor at results after later calls",
  ["evol.py", "snr.py", "source.py", "strain.py", "psd.py"],
  [m("copies before in-place edits", "evol.py:evol_ecc"), m("copies of recorded SNRs", "source.py:Source.get_snr_stationary")],
  ["argument and result arrays"], "deterministic simulation of call histories with injected failures, every array watched",
  "seeded exploration; arrays are compared bit by bit with private copies"),
 ("C12", "Evolution histories are consistent and merged sources stay merged",
  "Evolving sources in several steps ends where one step of the same total time ends (in separation or frequency, eccentricity, merged state and remaining merger time), in place or through new classes and with any other operations, failures or restarts in between. A source that has merged stays merged with zero strain and zero SNR, one that hasn't has exactly its merger time minus the elapsed time left, and eccentricity and separation never grow.",
  ["histories", "fault_sequences"], "all ways of splitting an evolution into steps and all operations in between, for all populations",
  "the tests evolve once or twice and check single outcomes",
  ["source.py", "evol.py"], [m("evolution", "source.py:Source.evolve_sources, evol.py:evol_circ, evol.py:evol_ecc"), m("merged mask", "source.py:Source.get_h_0_n, Source.get_snr")],
  ["attributes after evolving", "strains and SNRs"], "deterministic simulation of step histories with injected failures against a one-step twin",
  "seeded exploration; integration compared with a tolerance set by the integrator's own accuracy"),
 ("C13", "A failed operation leaves the sources as they were",
  "If calculating SNRs or merger times, evolving, masking or any other operation on a class of sources fails at any point (an error, a failing user function, a full memory or an interrupt), everything recorded in the class is as it was before, except that sensitivity parameters may have become the requested ones and a missing merger time may have been filled in correctly. Repeating the operation afterwards gives the same result as if it had never failed.",
  ["fault_sequences", "crash_points", "histories"], "all operations x all calls inside them at which a failure can occur, in any history",
  "the tests only check that invalid input raises",
  ["source.py"], [m("restore on failure", "source.py:_keep_snr_on_failure"), m("assign once everything is known", "source.py:Source.evolve_sources")],
  ["attributes after the failure", "results of the repetition"], "deterministic simulation with a failure injected at a seeded call inside each operation",
  "seeded exploration of (operation, failing call) pairs; twin executions in forked processes are the oracle"),
 ("C14", "Threads working on different sources don't affect each other",
  "If several threads work on separate classes of sources, or call the evolution, strain, SNR and sensitivity functions, at the same time, each gets exactly the results it would get on its own, for every interleaving.",
  ["schedules"], "all interleavings (at the granularity of source lines) of 2-3 threads running histories on their own objects",
  "the tests are single-threaded",
  ["source.py", "psd.py", "evol.py", "snr.py", "strain.py", "utils.py"], [m("no shared mutable state", "psd.py, evol.py, utils.py, source.py")],
  ["results of each thread"], "deterministic thread scheduler (seeded pre-emption at source lines)",
  "seeded exploration; threads are switched only at lines of LEGWORK, not inside libraries"),
 ("C15", "Results don't depend on what was calculated before",
  "The result of any calculation depends only on its arguments, or on the recorded values and settings of the class it is called on: whatever else was calculated before in the same process, on other objects, with other settings, or unsuccessfully, it is the same as in a new process.",
  ["histories", "fault_sequences", "configurations"], "all histories of other calculations, including failing ones and ones whose results the user overwrote, before any calculation",
  "the tests run in one fixed order",
  ["source.py", "psd.py", "evol.py", "snr.py", "strain.py", "utils.py"], [m("no hidden state", "psd.py, evol.py, snr.py, strain.py, utils.py, source.py")],
  ["results"], "deterministic simulation of process histories with injected failures against a pristine twin process",
  "seeded exploration; compared with a relative tolerance of 1e-9"),
 ("C16", "Random orientations are reproducible, in range and drawn only when missing",
  "Inclinations and polarisations that the user leaves out are drawn once, at construction, from numpy's global random state with the documented distributions and ranges, one per source, so that seeding it reproduces them; those the user gives are kept. Nothing else draws random numbers, and no later operation, copy, evolution or reload redraws or reorders them.",
  ["histories", "inputs", "configurations"], "all random states (including extreme draws), combinations of missing values, and later histories",
  "the tests use the default random state and check that construction works",
  ["source.py"], [m("filling in missing angles", "source.py:Source.__init__")], ["inclination and polarisation", "numpy's random state"],
  "deterministic simulation with the random source under the simulator's control, over histories with injected failures",
  "seeded exploration; distributions are checked with 6-sigma bounds on seeded draws"),
 ("C17", "Messages never influence results, and are complete and truthful",
  "Results are the same whatever the logger's level, the verbosity and the logger's handlers or output stream are, also when that stream fails. Each logged message appears once, prefixed with LEGWORK and its level, a level set by the user silences the ones below and stays set, a warning appears exactly when its condition holds, and the numbers of sources in messages are the actual ones.",
  ["configurations", "fault_sequences", "histories"], "all logger settings and stream faults during any history of calculations",
  "the tests never look at messages",
  ["_logging.py", "source.py", "psd.py", "evol.py"], [m("logger", "_logging.py"), m("verbose output", "source.py:Source.get_snr")], ["output", "results"],
  "deterministic simulation with failing and reconfigured output streams", "seeded exploration against a silent twin execution"),
 ("C18", "Plotting leaves global settings and sources as they were, also when it fails",
  "Drawing any of the plots, whether it succeeds or fails at any point, leaves matplotlib's settings, the unit converters, the warning filters and the sources, arrays and dictionaries that were passed exactly as they were. The data drawn are those of exactly the sources selected, each with its own weight, in the units shown, on the axes that were given if any; limits and labels asked for are applied, a plot is shown once if asked for and not otherwise, and repeating a failed plot works.",
  ["fault_sequences", "histories", "configurations"], "all plotting functions and options x failures at any call inside them",
  "the tests check that plotting functions raise on bad input or run",
  ["visualisation.py", "source.py"], [m("style context", "visualisation.py:legwork_plot_style"), m("unit support context", "visualisation.py:plot_sensitivity_curve"), m("selection", "source.py:Source.plot_source_variables, Source.plot_sources_on_sc")],
  ["global settings", "plotted data", "sources"], "deterministic simulation with a failure injected at a seeded call inside each plot",
  "seeded exploration with the Agg backend"),
 ("C19", "Splitting a population over workers doesn't change any source's result",
  "Every per-source result (evolution, merger time, strain, SNR, stationarity) is the same whether sources are processed all at once or divided in any way among independent workers, in any order, with shards lost and repeated. What one source is doesn't influence the result of another.",
  ["schedules", "inputs", "fault_sequences"], "all divisions and orders of a population over workers, all functions and methods",
  "the tests use fixed batches",
  ["evol.py", "snr.py", "strain.py", "utils.py", "source.py"], [m("row-wise calculation", "evol.py, strain.py, snr.py"), m("harmonic groups", "source.py:Source.get_snr_stationary")],
  ["per-source results"], "deterministic simulation of sharded processing with seeded partition, order, lost shards and repeats",
  "seeded exploration; compared with a relative tolerance of 1e-9"),
 ("C20", "Recorded results always match the functional layer for the current state",
  "At any point of any history, including failed operations, the SNRs, harmonics, strains, merger times, masks and evolved orbits that a class of sources calculates, as returned and as recorded, are those which LEGWORK's functions give for the values and settings it shows at that time, in the order of the sources and with merged ones zero; what it doesn't calculate stays recorded as it was. A new class holds exactly what it was constructed with. The masks circular/eccentric and stationary/evolving each divide the sources into two disjoint parts that together are all.",
  ["histories", "fault_sequences", "configurations"], "all histories of operations and failures, populations and settings",
  "the tests compare a few fresh objects",
  ["source.py", "snr.py", "strain.py", "evol.py"], [m("dispatch to the four SNR functions", "source.py:Source.get_snr"), m("masks", "source.py:Source.get_source_mask")],
  ["returned and recorded results"], "deterministic simulation of operation histories with injected failures, refinement against the functional layer",
  "seeded exploration; the functional layer itself is trusted (its formulas are not simulation targets)"),
 ("C27", "Whatever is calculated or fails, the process is left as it was",
  "No calculation, construction, save, load or plot, whether it succeeds, fails at any point or is interrupted, serial or with worker processes, leaves anything behind in the process or changes its state: no open files or HDF5 objects, threads, child processes or temporary files, and the working directory, environment, umask, signal handlers, warning filters, numpy's error and print settings, the random state (except when a construction draws missing angles), enabled units, loggers and other global settings are as the user had set them.",
  ["fault_sequences", "histories", "configurations"], "all operations and functions x failures at any call inside them, with the user's own settings or the usual ones",
  "no test looks at the process around the calculation, least of all after a failure",
  ["evol.py", "psd.py", "snr.py", "source.py", "visualisation.py"], [m("pool as a context manager", "evol.py:evol_ecc"), m("file as a context manager", "source.py:Source.from_file, _write_file")],
  ["descriptors, processes, threads", "global settings", "files"], "deterministic simulation with a failure injected at a seeded call inside each step, process state compared around it",
  "seeded exploration; the listed kinds of state are compared, undoing itself (closing, restoring) isn't made to fail"),
]

NA = [
 ("C21", "Orbital conversions are mutually inverse and dimensionally consistent",
  "Converting a separation to a frequency and back, and other orbital conversions, return the original value for all masses.",
  ["inputs"], "all inputs", "the tests use samples", ["utils.py"], [m("conversions", "utils.py:get_a_from_f_orb")],
  "a pure function of its input: no schedule, clock, I/O, randomness or failure for a simulator to control"),
 ("C22", "Sensitivity curves follow the published formulas",
  "Each power spectral density and confusion noise agrees with its publication at every frequency in range, and is infinite outside of it.",
  ["inputs", "configurations"], "all frequencies and settings", "the tests use samples", ["psd.py"], [m("formulas", "psd.py")],
  "numerical correctness of pure formulas; faults of the data file behind them are C07"),
 ("C23", "Strain and SNR scale with distance, mass and time as the quadrupole formula says",
  "Doubling the distance halves strain and SNR, stationary SNR grows with the square root of time, circular sources emit only at twice the orbital frequency.",
  ["inputs"], "all sources", "the tests use samples", ["strain.py", "snr.py"], [m("formulas", "strain.py, snr.py")],
  "pure functions of their input; nothing to schedule or to fail"),
 ("C24", "Merger times are accurate for every eccentricity",
  "Numerical, fitted and limiting merger times agree within their documented errors for every eccentricity.",
  ["inputs"], "all eccentricities", "the tests use samples", ["evol.py"], [m("merger time", "evol.py:get_t_merge_ecc")],
  "numerical accuracy of a pure function"),
 ("C25", "Invalid input is rejected before anything is calculated",
  "Missing units, missing or mismatched arguments and unknown options raise an error that names them.",
  ["inputs"], "all invalid inputs", "the tests use samples", ["source.py", "evol.py", "psd.py"], [m("validation", "source.py:Source.__init__")],
  "input validation is a pure function of the arguments (that a rejected operation changes nothing is C13)"),
 ("C26", "Sky averages of the response agree with the angle-dependent response",
  "Averaging the position-dependent amplitude over the sky, polarisation and inclination gives the averaged response.",
  ["inputs"], "all angles", "the tests use samples", ["strain.py", "utils.py"], [m("antenna patterns", "utils.py:F_plus_squared")],
  "an identity between pure functions"),
]


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "dst", "props")) if f.startswith("c") and f.endswith(".py")}
    lines, checks, na = [], [], []
    for pid, title, statement, over, text, why, files, mech, observe, tech, note in P:
        assert len(title) <= 80, title
        lines.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                      "anchors": {"files": [SRC + f for f in files], "mechanism": mech, "state": [], "observe_at": observe, "hook_needed": None}})
        if pid in built:
            checks.append({"property": pid, "quick_cmd": "./check.sh " + pid, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + pid,
                           "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": "exploration", "level_note": note})
        else:
            na.append({"property": pid, "reason": "not built yet"})
    for pid, title, statement, over, text, why, files, mech, reason in NA:
        assert len(title) <= 90, title
        lines.append({"id": pid, "title": title[:80], "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                      "anchors": {"files": [SRC + f for f in files], "mechanism": mech, "state": [], "observe_at": ["return values"], "hook_needed": None}})
        na.append({"property": pid, "reason": reason})
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for line in lines:
            f.write(json.dumps(line) + "\n")
    manifest = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q dst >/dev/null; true", "checks": checks, "not_applicable": na,
                "notes": "No hooks in /repo: every seam is outside of it (libc calls by LD_PRELOAD, the pool classes, sys.monitoring, "
                         "sys.settrace, numpy's random state). 'fix:' commits in /repo repair genuine defects, see known-findings.jsonl. "
                         "Replays: ./check.sh <ID> --replay <file>; determinism: ./check.sh <ID> --selftest 1,2,3."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(lines), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
