#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run once by hand after editing; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "A power flow reported as successful is a true operating point",
  "Whenever a power-flow solve reports success, the returned solution is finite and satisfies, within the configured tolerance, the current balance at every bus and every slack, generator, transformer, switch and regulator relation of the network as it was given (plus the returned compensation currents when infeasibility analysis is on), and the bus voltages, slack and generator powers and maximum residual it reports are those of that same solution. "
  "An error or inaccuracy of the linear solver at any iteration may end in later recovery, in a result marked not successful, or in an exception, but never in a success that is not an operating point.",
  ["fault_sequences", "inputs", "configurations"],
  "all transmission and three-phase networks, all solver settings (tolerance, iteration limit, voltage limiting, flat start, homotopy, device control, L1/L2 infeasibility), and all sequences of linear-solver faults (inaccurate, stale, zero, infinite, NaN or missing answers, raised errors) at any iteration",
  "The tests solve fixed case files with a linear solver that never errs and compare voltages with a reference run; none checks that success implies balance, and none has a bad linear solve, which is where the success decision is made.",
  ["src/logic/nrsolver.py", "src/logic/stamping/matrixstamper.py", "src/logic/stamping/matrixbuilder.py", "src/logic/residualdetails.py", "src/logic/powerflow.py", "src/logic/powerflowresults.py", "src/models/components"],
  [("residual test of every Newton-Raphson iterate against the tolerance", "NRSolver.run_powerflow"), ("residuals evaluated from the model equations", "MatrixStamper.calc_residuals")],
  ["PowerFlow.execute() result: is_success, v_final, bus_results, generator_results, max_residual"],
  [("stamp inputs", "the voltages the equations are evaluated at", "InputBuilder.args")])

prop("C02", "Transient solver errors are ridden out, within a bounded amount of work",
  "When small or discarded linear-solver errors occur early in a solve and then stop, a solve that succeeds without them still succeeds, at the same bus voltages. "
  "Whatever the errors, every solve returns or raises within its budget: at most max_iters linear solves per Newton run, one direct run plus at most 101 continuation runs per device-control round, and at most ten device-control rounds.",
  ["fault_sequences", "inputs", "configurations"],
  "all networks and settings, and all sequences of linear-solver faults; recovery is demanded after faults that stop within the first iterations",
  "The tests never make a linear solve go wrong, so neither recovery nor the bound on work under errors is ever exercised.",
  ["src/logic/nrsolver.py", "src/logic/homotopycontroller.py", "src/logic/devicecontroller.py"],
  [("iteration limit and divergence check", "NRSolver.run_powerflow"), ("bounded continuation", "HomotopyController.run_powerflow"), ("bounded device rounds", "DeviceController.run_powerflow")],
  ["number of linear solves performed", "PowerFlow.execute() result"])

prop("C03", "A solve depends on the network as it now is, not on what was solved before",
  "Executing a power flow gives the same outcome (success, iterations, bus voltages) as executing it on a newly built copy of the network in its present state in a fresh process, no matter which solves, failed solves, load, switch, capacitor, tap or setting changes and infeasibility analyses came before, on this or any other network in the process.",
  ["histories", "fault_sequences"],
  "all sequences of parameter and status changes, settings changes and (also failing) solves on several networks in one process",
  "Each test builds one network and solves it once; caches and index assignments that survive a solve are never used a second time with different values.",
  ["src/logic/powerflow.py", "src/logic/nrsolver.py", "src/logic/stamping/matrixstamper.py", "src/logic/stamping/matrixbuilder.py", "src/logic/network/networkmodel.py", "src/models/components"],
  [("indices reassigned on every execute", "NetworkModel.assign_matrix"), ("stampers rebuilt per run", "build_matrix_stamper"), ("expression cache keyed by model and mode", "get_or_build_stamp_expressions")],
  ["PowerFlow.execute() result after each step of a history"],
  [("lagrange_cache", "process-wide expression cache", "matrixstamper.py"), ("stampers of an element", "row/column indices of the last assignment", "models/components/*")])

prop("C04", "The on-disk derivative cache never changes or fails a solve",
  "For every state of the derivative cache in the temporary directory (missing, warm, half written by a process that died, truncated, zero-filled or overwritten with foreign bytes, unreadable, on a full or read-only disk) and any number of processes using it at once, a model's derivatives and a power flow come out as they do without a cache. "
  "A cache problem never makes a process fail, two different models never receive each other's entry, and once the disk works again a damaged entry does not stay in the way.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "all crash points of a process while it writes the cache, all disk-fault sequences (ENOSPC, EIO, EACCES, short writes, lost data), all interleavings of several processes' cache operations, all sets of models",
  "The tests run with one process and a healthy disk, and warm or cold is whatever the machine happens to have; a torn entry or two writers never occur.",
  ["src/logic/stamping/lagrangepickler.py", "src/logic/stamping/lagrangesegment.py"],
  [("entry keyed by the whole model definition", "LagrangePickler._get_pickle_file"), ("regenerate when an entry cannot be read", "LagrangeSegment.get_derivatives")],
  ["LagrangeSegment.get_derivatives()", "PowerFlow.execute()", "files in the cache directory"],
  [("combined-txds-lagrange-pickler/*.p", "pickled derivatives", "tempfile.gettempdir()")])

prop("C05", "Device control ends at rest, and only ever acts on converged solutions",
  "When a solve with device control reports success, no automatic device would still operate at the returned voltages and currents: no intact fuse carries more than its limit, every voltage-controlled capacitor's switch agrees with its thresholds at that voltage (closed above the high one, open below the low one, unchanged in between), and manual devices are as they were set. "
  "A device is operated only on the initial voltages or on a converged solution, a fuse that has blown never conducts again, and if no resting state is found the solve raises instead of reporting success.",
  ["fault_sequences", "histories", "inputs"],
  "all three-phase networks with fuses, capacitors and regulators, all thresholds, all sequences of solves and load changes on the same network, all linear-solver fault sequences including solves that do not converge",
  "The tests contain a few devices that settle at once; none operates a device after a failed or faulty solve, oscillates, or carries device state into a second solve.",
  ["src/logic/devicecontroller.py", "src/models/components/fuse.py", "src/models/components/capacitor.py", "src/models/components/regulator.py", "src/models/components/voltagesource.py"],
  [("solve to completion before operating devices, repeat until none operates", "DeviceController.run_powerflow"), ("latching devices", "Fuse.try_adjust_device, Capacitor.try_adjust_device")],
  ["device states (Fuse.status, Capacitor.switch, Regulator.tap_position) after PowerFlow.execute()", "result.is_success"])

prop("C06", "Every hour of a time series equals a solve of that hour on its own",
  "For each hour of the requested range that the load file covers, the snapshot recorded (and written) for that hour is the one a fresh network gives when each named load has that hour's apparent power at the power factor the network defines for it and all other loads are unchanged. "
  "It does not depend on the hours before it, including hours at zero load, hours that failed to solve and hours disturbed by solver errors, and the results contain exactly the requested hours in order.",
  ["histories", "fault_sequences", "inputs"],
  "all load files, hour ranges, zero or infeasible hours, repeated execution of a series, and solver faults confined to some hours, on networks without automatic devices (which by design remember their position)",
  "The repository has no test of time series at all; a state that leaks from one hour into the next needs particular sequences of hours.",
  ["src/logic/network/timeseriesprocessor.py", "src/logic/network/timeseriessettings.py", "src/logic/powerflowresults.py"],
  [("loads set from the file before each snapshot", "TimeSeriesProcessor.set_load_values"), ("snapshot stored per hour", "QuasiTimeSeriesResults")],
  ["TimeSeriesProcessor.execute() results per hour", "result files per hour"])

prop("C07", "A result file that exists under its name is complete",
  "At every instant, also after the process is killed or a disk error strikes at any point of writing results, each result file under its final name is either an earlier complete one, a complete one for the new results, or absent; a write that reports no error leaves both files complete and equal to the results (or marked FAILURE if the solve failed). "
  "Running again after the fault has gone writes all requested files completely, and hours of a time series written before the fault stay intact.",
  ["crash_points", "fault_sequences", "histories"],
  "all crash points and disk-fault sequences (ENOSPC, EIO, EACCES, short writes) while one or many snapshots are written, over existing or no earlier files",
  "No test writes a result file; a test that did would see a healthy disk and no crash.",
  ["src/logic/powerflowresults.py", "src/logic/network/timeseriesprocessor.py"],
  [("result files written whole, then named", "PowerFlowResults.output"), ("one pair of files per hour", "TimeSeriesProcessor.execute_quasi_time_series, QuasiTimeSeriesResults.output")],
  ["<prefix>_voltage.csv and <prefix>_power.csv on disk"])

prop("C08", "A network fetched from a URL is the one the server sent, or an error",
  "Loading a network from an http(s) URL either yields the same network as loading a local copy of the exact content of one complete successful response (status 200) to this request, or raises. "
  "Refused or broken connections, error statuses, truncated bodies, content that changes between requests and other loads (of the same or another URL with the same file name, in this or another process) never yield a different or mixed network.",
  ["fault_sequences", "schedules"],
  "all network-fault sequences of the two requests a load makes and all interleavings of several concurrent loads, including file system faults while the body is stored",
  "The tests load local files only; no test makes a request, let alone a failing, truncated or concurrent one.",
  ["src/logic/network/networkloader.py"],
  [("status checked, body retrieved to a file of this load", "pull_network_file")],
  ["NetworkLoader.from_file(url)", "network it returns"])

prop("C09", "The same case and settings always give the same results",
  "Running the same case with the same settings gives the same success flag, iterations, bus, generator and load results in the same order (numbers equal to within rounding) in every process, whatever the hash seed, the clock, the state of the derivative cache, directory listing order, location of the file, working directory, temporary-file names or other cases solved before in that process.",
  ["configurations", "schedules", "histories"],
  "all hash seeds, clock values and jumps, cache states, environments and preceding work, for all supported input formats",
  "A test run has one hash seed, one clock and one environment; it compares with a reference within a percent, not with another run.",
  ["src/logic/network/networkloader.py", "src/logic/network/parsers", "src/logic/stamping", "src/logic/powerflow.py", "src/logic/powerflowresults.py"],
  [("ordered containers from file to matrix", "parsers, NetworkModel.get_all_elements, MatrixStamper")],
  ["NetworkLoader.from_file and PowerFlow.execute in separate processes", "result files"])

prop("C10", "Generator balancing ends with a truly idle swing bus, or an error",
  "When a run with an artificial swing bus and negative loads reports a successful result, the complex power the swing bus really exchanges with the network in that result, computed from its voltages and currents, sums over its phases to less than the 0.1 threshold, and only the designated negative loads have been changed. "
  "The balancing always ends in a bounded number of solves, also when snapshots fail or the linear solver errs, and a snapshot that failed is never used to set a generator.",
  ["fault_sequences", "inputs", "histories"],
  "all microgrids with one to three swing phases at any angle, all loads and losses, repeated runs and time series, and all solver fault sequences",
  "No test runs the balancing; with phases at different angles, failed snapshots or errors it can stop too early or never.",
  ["src/logic/network/timeseriesprocessor.py", "src/logic/powerflowresults.py"],
  [("repeat until the swing bus is below the threshold", "TimeSeriesProcessor.execute_powerflow, adjust_generator_output"), ("slack power from the solution", "PowerFlowResults")],
  ["TimeSeriesProcessor.execute() result", "Load.P/Q of all loads", "number of solves"])

prop("C11", "Homotopy ends at the original network or says that it did not",
  "With tx stepping on, a solve whose direct attempt fails reports success only for a solution of the original, unrelaxed network with zero homotopy remaining; if any continuation step fails the result is marked not successful and reports a homotopy remainder greater than zero or a failure at zero, never a relaxed solution as the answer. "
  "With tx stepping off, no relaxed network is ever solved, and when the direct attempt succeeds the result is the same with it on or off.",
  ["fault_sequences", "inputs", "configurations"],
  "all networks and settings, and all linear-solver fault sequences that make the direct attempt or any continuation step fail, stall or recover",
  "In the tests the direct attempt always succeeds or fails for good, so the continuation is hardly run, and never with a step that fails midway.",
  ["src/logic/homotopycontroller.py", "src/logic/nrsolver.py", "src/models/components"],
  [("factor stepped from 1 to 0, stop at the first failure", "HomotopyController.run_powerflow")],
  ["PowerFlow.execute() result: is_success, tx_percent, v_final"])

prop("C12", "The command-line tool exits cleanly only if what it was asked for is done",
  "If the command-line tool exits with status zero, it has solved the case it was given with exactly the requested options (load factor, infeasibility analysis, homotopy, load file and hours, swing bus), and every result file that --outputfile asks for exists, is complete and holds the results of that run or the mark FAILURE for a solve that failed. "
  "Otherwise (unreadable case or load file, islands, solver errors, disk errors, interrupted run) it ends with a nonzero status and does not substitute the results of a different calculation. When nothing stands in its way, it does exit with status zero.",
  ["fault_sequences", "inputs", "configurations", "crash_points"],
  "all option combinations, all failures of case file, load file, linear solver, disk and network at any point of the run",
  "No test runs the command-line tool; option defaults, swallowed errors and missing output can only be seen end to end.",
  ["src/run_solver.py", "src/logic/network/loadfactor.py", "src/logic/network/timeseriesprocessor.py", "src/logic/powerflowresults.py"],
  [("option handling and order of steps", "run_solver.main")],
  ["exit status, result files and printed summary of run_solver.main()"])

prop("C13", "A solve that is interrupted leaves the network and process usable",
  "If loading, deriving model equations, solving or a time series is stopped at any point by an exception (keyboard interrupt, out of memory, solver or disk error), then running it again in the same process, on the same network objects and settings, gives exactly what an undisturbed process gives. "
  "A keyboard interrupt is never swallowed into a result that differs from the undisturbed one.",
  ["crash_points", "fault_sequences", "histories"],
  "all points at which an asynchronous exception can strike in loading, derivation, solving and time series, and all sequences of such interruptions",
  "A test either passes or fails at one place; none aborts an operation halfway and carries on in the same process.",
  ["src/logic/stamping/lagrangesegment.py", "src/logic/stamping/matrixstamper.py", "src/logic/powerflow.py", "src/logic/network/timeseriesprocessor.py", "src/logic/network/networkloader.py"],
  [("caches filled only with complete entries", "LagrangeSegment._generate_derivatives, get_or_build_stamp_expressions"), ("per-run state rebuilt on execute", "PowerFlow.execute")],
  ["outcome of repeating the operation"])

prop("C14", "Threads that load and solve different networks do not disturb each other",
  "When several threads of one process load, modify and solve their own networks at the same time, each gets exactly the outcome it gets alone, for every interleaving of their steps, including the first use of a model in the process.",
  ["schedules"],
  "all line-level interleavings of two to four threads that load, derive, stamp and solve, with cold or warm process-wide caches, and with threads that fail or are aborted",
  "The tests are single threaded, and a race on the process-wide caches needs one thread to be stopped at a particular line.",
  ["src/logic/stamping/lagrangesegment.py", "src/logic/stamping/matrixstamper.py", "src/logic/stamping/lagrangepickler.py", "src/models/components", "src/logic/network/parsers"],
  [("shared caches hold only finished, read-only entries", "lagrange_cache, LagrangeSegment._derivatives")],
  ["PowerFlow.execute() and NetworkLoader.from_file results per thread"],
  [("lagrange_cache, _derivatives", "state shared by all threads", "matrixstamper.py, lagrangesegment.py")])

prop("C15", "Only a connected network is solved, whatever switching came before",
  "After any sequence of switch openings and closings, fuse operations and solves, executing a power flow raises an island error exactly when the energised connections then in force leave the (non-virtual) nodes in more than one island, before any linear solve and without changing the network; otherwise it proceeds. "
  "Selecting the island of a chosen swing bus leaves exactly that island's buses, sources, loads and devices, and solving it gives the voltages that island has when it is built on its own.",
  ["histories", "fault_sequences"],
  "all switching and fuse histories on networks with loops and several feeds, interleaved with solves (also failing ones) and island selection",
  "The tests solve networks in their initial switch state; no test opens or closes a switch after loading or selects an island.",
  ["src/logic/graphanalyzer.py", "src/logic/powerflow.py", "src/logic/network/timeseriesprocessor.py", "src/models/components/switch.py", "src/models/components/fuse.py"],
  [("connectivity from the statuses in force", "GraphAnalyzer, Switch.get_connections, Fuse.get_connections"), ("island selection", "TimeSeriesProcessor.select_island")],
  ["PowerFlow.execute() result or exception", "network element lists after selection"])

# pure functions of their input: stated, but not claimed (see MANIFEST not_applicable)
prop("C16", "Looking at results or turning on diagnostics changes nothing",
  "A returned result is a record: its success flag, iterations, solution, bus, generator and load results, residual, and what it displays and writes, stay the same whatever is solved, changed, displayed or written afterwards. "
  "Displaying, describing or writing results and networks, and the debug and matrix-dump settings, never change the outcome of any later or running solve. A dump that cannot be written may end the solve with the disk's error, never with another outcome, "
  "and after a successful solve that dumped, the dumped solution is the returned one.",
  ["histories", "fault_sequences"],
  "all sequences of solves, edits, settings changes, displays and writes of any earlier result over several networks in one process, with and without diagnostics, under linear-solver and disk faults",
  "The tests read a result at once and never display, dump or write anything before solving again; the matrix dump and the debug setting are not exercised at all.",
  ["src/logic/powerflowresults.py", "src/logic/nrsolver.py", "src/logic/powerflow.py", "src/logic/residualdetails.py", "src/logic/powerflowsettings.py"],
  [("values copied out of the solution when a result is made", "PowerFlowResults.__init__"), ("dump of matrices, vectors and the solution", "NRSolver.run_powerflow")],
  ["PowerFlow.execute() results, now and later", "PowerFlowResults.display / output", "dumps/*.txt"])

prop("C17", "Work that is finished leaves nothing behind",
  "When a case has been loaded, solved, stepped through, displayed or written, or has failed at any of these, and its results are dropped, the process holds nothing of it: repeating the same work, with the same faults, "
  "does not make the number of live objects of the package, the entries of process-wide stores, the open files, the threads, or the files in the temporary and working directories grow.",
  ["histories", "fault_sequences"],
  "all programs of loads, downloads, solves, time series and outputs, succeeding or failing, repeated in one process under the same disk, network and linear-solver faults",
  "Every test is a few calls in a process that ends; what a long-lived process accumulates is never looked at.",
  ["src/logic/network/networkloader.py", "src/logic/network/parsers/threephase", "src/logic/powerflow.py", "src/logic/timeseries.py", "src/logic/lagrangesegment.py"],
  [("download, parse and clean-up", "NetworkLoader.from_file"), ("derivative store", "LagrangeSegment cache"), ("per-solve state", "PowerFlow.execute")],
  ["process resources after NetworkLoader.from_file, PowerFlow.execute, TimeSeriesProcessor"])

prop("C18", "However a grid is described, it is the same grid",
  "The order in which elements are added to a network or declared in a file, the order of properties, phases, records and load-file columns, the numbers and names of buses and devices, "
  "and which end of a symmetrical element is named first make no difference: the same grid described otherwise succeeds or fails alike and gives every bus, generator, load and device the same result, "
  "also when several descriptions are built, read and solved side by side in one process or when the linear solver fails.",
  ["schedules", "histories", "inputs"],
  "all interleavings of the construction and solving of several descriptions (orders, numberings, names, orientations) of grids built through the API or read from GLM, RAW and load files",
  "Every test describes its grid once, in one order and under one set of names.",
  ["src/logic/network", "src/logic/network/parsers", "src/logic/stamping/matrixstamper.py", "src/models/components", "src/logic/devicecontroller.py"],
  [("numbering of the matrix", "NetworkModel.assign_matrix"), ("lookup of elements by name and phase", "ThreePhaseParser, UnbalancedLine.get_nodes"), ("grouping of stamps by their inputs", "StampInput.key")],
  ["PowerFlow.execute() over differently described networks", "NetworkLoader.from_file", "TimeSeriesProcessor"])

prop("N01", "A GLM case file is read as GridLAB-D would read it",
  "For every supported GLM file, the network built from it has the buses, phases, impedances, loads, ratings and statuses GridLAB-D assigns to those objects.",
  ["inputs"], "all GLM files within the supported object types", "The tests compare a limited set of feeders end to end.",
  ["src/logic/network/parsers/threephase", "src/logic/network/parsers"], [("GLM reader and model construction", "ThreePhaseParser")], ["NetworkLoader.from_file"])
prop("N02", "A PSS/E RAW case file is read field for field",
  "For every supported RAW file, each record becomes exactly one network element with the per-unit values its fields state, and unsupported records raise.",
  ["inputs"], "all RAW files of the supported version", "The tests read a handful of RAW cases.",
  ["src/logic/network/parsers/raw"], [("record parsers", "parse_raw")], ["NetworkLoader.from_file"])
prop("N03", "Line impedances follow Carson's equations and phase reduction",
  "For every conductor, spacing and cable description, the computed phase impedance and admittance matrices equal those of Carson's modified equations with Kron reduction.",
  ["inputs"], "all line geometries", "The tests check a few textbook lines.",
  ["src/logic/network/parsers/threephase"], [("impedance computation", "GLM reader")], ["UnbalancedLine.impedances"])
prop("N04", "Stamps are the exact linearisation of the model equations",
  "For every model definition and operating point, the stamped matrix and vector are the first-order expansion of the model's equations at that point.",
  ["inputs", "programs"], "all Lagrange definitions and operating points", "The tests check a few small expressions.",
  ["src/logic/stamping/lagrangesegment.py"], [("symbolic differentiation and splitting", "split_expr, DerivativeEntry")], ["LagrangeSegment.get_derivatives"])
prop("N05", "Equipment-rating violations are flagged exactly when a rating is exceeded",
  "For every solved snapshot, the violation flag is set if and only if a line current, transformer power or bus voltage is outside its limit.",
  ["inputs"], "all solved snapshots and ratings", "No test covers the rating check.",
  ["src/logic/network/timeseriesprocessor.py"], [("rating check", "TimeSeriesProcessor.violates_equipment_ratings")], ["snapshot result"])
prop("N06", "Infeasibility analysis returns the least compensation",
  "For every network, the compensation currents returned by L1 or L2 infeasibility analysis are a (local) minimum of the chosen norm, and zero when the network is feasible.",
  ["inputs"], "all networks with and without feasible power flow", "The tests check two stressed networks and a feasible one.",
  ["src/models/optimization"], [("Lagrangian stationarity", "L1/L2InfeasibilityOptimization")], ["PowerFlow.execute() result"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
