"""Writes properties.jsonl and MANIFEST.json from one place (run by hand: python sim/doc.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over {}"
SIM = ("Seeded sampling, not proof: a quiet run means that no violation was found in the runs the evidence file counts. Trusted: the simulator's "
       "seams, the reference model of the property module, NGSolve itself (single-threaded). ")

P = []


def prop(id, title, statement, over, text, tests, files, mechanism, search, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mechanism=mechanism, search=search,
                  note=note, observe=observe))


prop("C01", "The clock of a run visits exactly its time grid, whatever ran before",
     "A transient run on an interval (a, b) with step h, where b - a is a whole number n of steps, hands exactly n times a+h, a+2h, .., b to its loop, each "
     "labelled with the exact decimal value, and its solver clock stands on that time while the step is computed and the loop body runs. "
     "This holds for every run of a solver, whatever its earlier runs were, however they ended, and however interval and step were set; "
     "listing the times (with or without the start, with a stride) gives the same labels.",
     ["histories", "inputs", "fault_sequences"],
     "every history of grid changes, complete, aborted and interrupted runs and time listings on one solver; all decimal starts and steps",
     "tests list the times of a few round grids on a fresh timer; labels that are off by rounding, or a clock left behind by an aborted run, need other grids and histories",
     ["dream/time.py"], [("Timer.start and its number of decimals", "dream/time.py"), ("clock is set to the interval start by every run", "dream/time.py")],
     "histories of grid changes, runs and interrupts", "Reference: exact decimal arithmetic.", ["loop labels", "timer.t in the loop and in the solve", "Timer.to_array"])

prop("C02", "State files are written exactly when due, and hold the state they name",
     "With state output on, a transient run leaves in the state folder the initial state, one file per saved iteration according to the saving rate, the "
     "final state, and the time level files according to their own rate, each named after its time and bit-equal to the solver's unknowns at that time, and nothing else. "
     "If the run is killed, interrupted or fails at any operation, every file due before that point is there and complete, "
     "no file of a later time appears, and at most the file being written is incomplete.",
     ["crash_points", "fault_sequences", "configurations"],
     "every saving rate, time level rate, file name, grid, scheme, and every operation at which the run may be killed, interrupted or left, also repeatedly in one folder",
     "tests run one or two steps without failures and look whether files exist; they neither compare contents with the state nor cut runs",
     ["dream/io.py", "dream/time.py"], [("GridfunctionStream save routines", "dream/io.py"), ("order of saving and loop in the transient routine", "dream/time.py")],
     "crash points of runs with state output", "A killed process keeps what it handed to the kernel.", ["files in the state folder"])

prop("C03", "A computation continued from its checkpoints is the uncut computation",
     "A transient computation that is cut anywhere (killed, interrupted within a solve, left, or planned) and goes on from its newest complete checkpoint - state and time level files, "
     "loaded into a new or the same solver - or from memory between two steps, follows the trajectory of the uncut computation. "
     "For equations that do not contain the time it is the same to the bit, for multi-step schemes too, for any number of cuts.",
     ["crash_points", "histories", "fault_sequences"],
     "every cut point, number of cuts, way of ending and going on, scheme, saving rate and grid",
     "no test restarts a computation; equality has to hold at every cut point and over repeated restarts",
     ["dream/io.py", "dream/time.py", "dream/solver.py"], [("saving and loading of states and time levels", "dream/io.py"), ("time levels are all the state a scheme has", "dream/time.py")],
     "cut points and restarts", "Oracle: the same computation in one piece.", ["unknowns and time levels after every step"])

prop("C04", "A damaged state file is never saved or loaded silently",
     "If a state or time level file can not be written completely (disk full, I/O error, no permission, at any byte), saving raises an error that reaches the user's loop. "
     "Loading a file whose size is not that of the state it is loaded into (cut at any byte, grown, empty, of another space) raises an error by every loading routine, "
     "and a complete file is always accepted and restored to the bit.",
     ["fault_sequences", "inputs"],
     "every write operation and byte at which the disk fails, every truncation or growth of a file, every loading routine",
     "tests never let a write fail nor load damaged files; NGSolve itself reports neither",
     ["dream/io.py"], [("size check on saving and loading", "dream/io.py")],
     "disk errors and file damage", "Damage that keeps the length of a file is not detectable, as there is no checksum.", ["exceptions of save and load", "unknowns after a load"])

prop("C05", "Playback shows the saved states once each, in order, also while being written",
     "Playing back a transient run visits exactly the iterations the run has saved (by its rate, and the last one), in order, with the saved time as label and the saved state, "
     "bit for bit, in the unknowns, and pauses for the given time after each. "
     "A playback that meets a missing or incomplete file, for example because the run is still writing or was killed, raises an error there and never shows another state; it can be repeated later.",
     ["schedules", "configurations", "crash_points"],
     "every interleaving of writer and player at operation granularity, every rate and grid, every incomplete recording",
     "tests play back nothing, or a complete recording with rate 1",
     ["dream/io.py", "dream/time.py"], [("load_transient_routine", "dream/io.py"), ("Timer.start", "dream/time.py")],
     "interleavings of a writer and a player", "Writer and player are configured alike.", ["labels and unknowns of the playback", "virtual sleep"])

prop("C06", "Sensor files hold every due measurement exactly once, in order, at once",
     "The file of a sensor holds, after its header, one row for the initial state and one for every iteration due by its rate (and the last one), in order, with the time and the value of every "
     "field at every point or region; point, domain and boundary sensors and their L2 variants give the point value, integral or norm over exactly the configured regions. "
     "A row is on disk, complete, before the run goes on, however the run ends later; appending runs leave earlier rows alone and add no second header.",
     ["crash_points", "configurations", "fault_sequences"],
     "every selection of sensors, rates, regions, points, fields, writing mode, and every write at which the run is killed, interrupted or fails, over several runs",
     "tests measure one sensor once and compare the header; rows over rates, failures and restarts are not looked at",
     ["dream/io.py", "dream/mesh.py"], [("SensorStream row writing and sensors", "dream/io.py")],
     "crash points of runs with sensors", "Reference values by hand from cell areas and edge lengths.", ["rows of the sensor files"])

prop("C07", "However a run ends, its outputs are closed and the solver stays usable",
     "When a run ends - completely, by leaving its loop, or by any failure of an output, of the solve, of the loop body, or by an interrupt, also while outputs are still being opened - the failure "
     "reaches the user unchanged and no output file is left open. "
     "The next run of the same solver then behaves like that of a solver which never failed, with the same output to the byte.",
     ["fault_sequences", "crash_points", "histories"],
     "every selection and order of outputs, every operation that fails, sequences of failures",
     "no test injects a failure into a run",
     ["dream/io.py", "dream/time.py"], [("IOConfiguration open, close and context manager", "dream/io.py"), ("SensorStream and VTKStream close", "dream/io.py")],
     "failures of runs with outputs", "A second interrupt while outputs are being closed is not injected.", ["open files", "exceptions", "output of the next run"])

prop("C08", "VTK snapshots are written exactly when due, indexed by time, with right data",
     "With VTK output on, a run writes one snapshot for the initial state and one for every iteration due by the rate (and the last one), with the configured subdivision, fields and region, holding the values of the fields at that time. "
     "The index lists all snapshots of the run in order with their times. "
     "A run that is killed, interrupted, fails or is left has written every snapshot that was due before, and nothing later.",
     ["crash_points", "configurations"],
     "every rate, subdivision, region, selection of fields, file name, grid, and every point at which the run ends early, over several runs in a folder",
     "tests check that files exist after one step",
     ["dream/io.py"], [("VTKStream", "dream/io.py")],
     "crash points of runs with VTK output", "NGSolve writes the index from the second snapshot on; times in it carry six digits.", ["index and data files"])

prop("C09", "Stored mesh and settings describe the run, or the run reports that they do not",
     "With mesh and settings output on, a run stores before its first step a mesh and settings (pickle, text) that describe exactly the solver as it is configured for that run; "
     "loaded in a new process, mesh and settings equal the stored ones, and a new solver on that mesh with these settings (all but the output settings) applied computes the same trajectory to the bit. "
     "A write that fails is reported to the user, and a torn file is refused on loading.",
     ["histories", "fault_sequences", "configurations"],
     "every selection, order and format of outputs, changes of settings between runs, every write that fails or is killed",
     "tests write settings once and compare a few keys; nothing is loaded and run again",
     ["dream/io.py", "dream/config.py"], [("MeshStream and SettingsStream", "dream/io.py"), ("to_tree and update of configurations", "dream/config.py")],
     "settings, disk faults and restarts", "Conditions and forms are the user's script, and no part of the stored settings.", ["stored files", "trajectory of the solver rebuilt from them"])

prop("C10", "Newton iterations stop when they should, report the truth, and never spread NaN",
     "A nonlinear solve performs damped Newton updates until the error falls below the convergence criterion, the iteration limit is reached, or the error is not a number; the update of a NaN iteration is not applied to the unknowns. "
     "Its status (converged, diverged), its error, however large, and the log records, one per iteration, tell what happened in that very solve. "
     "If evaluation or factorisation fails or is interrupted, the unknowns are those of the last completed iteration, and later solves are not affected.",
     ["fault_sequences", "histories", "configurations"],
     "every step, iteration and phase at which NaN, a failing factorisation or an interrupt may strike, and every history of settings and solves",
     "tests drive one iteration with stubbed matrices; failures at arbitrary iterations and stale status over histories are not reached",
     ["dream/solver.py", "dream/time.py"], [("NonlinearSolver.solve, set_iteration_error, DirectNonlinearSolver", "dream/solver.py")],
     "failures within Newton iterations", "Reference: a numpy Newton iteration of the same equations.", ["unknowns, error and status after every iteration", "log records"])

prop("C11", "Time stepping follows its scheme over any history of runs",
     "Every step of a transient run advances unknowns and all time levels by the configured scheme (implicit Euler, BDF2) with the step size and time of that step. "
     "This holds over any history of runs on one solver: other intervals and step sizes, runs left or interrupted anywhere, with or without reassembly, new initial conditions, change of scheme, and states and time levels loaded again.",
     ["histories", "fault_sequences"],
     "every history of runs, interrupts, step size changes, reloads and scheme changes",
     "tests check the formula of one step symbolically and never run a second run",
     ["dream/time.py", "dream/solver.py"], [("schemes and their time levels", "dream/time.py"), ("transient routine", "dream/time.py")],
     "histories of runs", "Reference: a numpy recurrence that is never synchronised with the solver; 1e-8.", ["unknowns and time levels after every step"])

prop("C12", "Pseudo time stepping ramps its step as configured and ends in the steady state",
     "A pseudo time stepping run starts with the configured step, multiplies it by the growth factor after every growth interval of iterations, never exceeds the largest step, "
     "and each of its iterations is the Newton update of the scheme with the current step. "
     "It ends by the stopping rules of the nonlinear solver with its state in unknowns and time levels and in its output; interrupts, failures and earlier runs do not change what a later run does.",
     ["histories", "fault_sequences", "configurations"],
     "every ramp, Newton setting, failure point and history of runs",
     "tests call the ramp update once or twice by hand",
     ["dream/time.py", "dream/solver.py"], [("PseudoTimeSteppingConfig", "dream/time.py")],
     "ramps, failures and histories", "Reference: a numpy iteration compared at every linearisation.", ["time step and unknowns at every iteration", "output files"])

prop("C13", "The discrete problem depends on the conditions, not on how they were assigned",
     "Every boundary and domain condition acts on exactly the regions it was set for; the assembled problem and the initial state do not depend on the order of assignments, on whether regions share a condition object, a pattern or a list, "
     "on earlier assignments that were cleared or replaced, on names that do not exist, or on memory addresses. "
     "Exchanging the condition of one region changes the problem there and nowhere else.",
     ["histories", "configurations", "schedules"],
     "every history of assignments, grouping of regions, and hash order of condition objects",
     "tests set each condition once on one or two regions; orders, sharing and hash seeds are not varied",
     ["dream/mesh.py", "dream/compressible/config.py", "dream/compressible/solver.py", "dream/compressible/formulations/conservative.py"],
     [("Conditions and region patterns", "dream/mesh.py"), ("collection of boundary and domain conditions", "dream/compressible/formulations/conservative.py")],
     "assignment histories and hash orders", "Oracle: the same conditions set region by region; 1e-10.", ["assembled residual and matrix", "initial state"])

prop("C14", "Solvers in one process do not disturb each other",
     "Several solvers in one process, also on the same mesh, compute the same trajectories, settings and output files to the bit as each of them alone, "
     "in whatever order their steps alternate, even when one runs within a step, a solve or the file output of another. "
     "Reconfiguring, failing, leaving or deleting one does not affect the others.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of several solvers at evaluation, factorisation and output granularity",
     "tests use one solver at a time",
     ["dream/config.py", "dream/solver.py", "dream/io.py", "dream/time.py"], [("no state shared by configurations of different solvers", "dream/config.py")],
     "interleavings of solvers", "Oracle: each solver alone. Logging is shared by design and not compared.", ["trajectories, settings and files of every solver"])

prop("C15", "Output goes to the configured folders, however they are reconfigured",
     "Every output file of a run is created in the folder configured for it at that time, and nowhere else; missing folders are created, also if another process creates them at the same moment. "
     "Changing the root or an output folder (relative, absolute, nested) moves exactly the folders inside it along, at once and for later runs, and never hangs; a change of the working directory changes nothing. "
     "A folder that can not be created is reported, and a removed one is created again when next written to.",
     ["histories", "schedules", "fault_sequences"],
     "every history of folder changes, removals, working directory changes and races with other processes",
     "tests set two folders once and never write afterwards",
     ["dream/io.py"], [("path configuration and folder properties of the streams", "dream/io.py")],
     "histories of folder changes and races", "Folder names without '..' and links; an output folder above the root is not moved any more.", ["configured folders", "files on disk"])

prop("C16", "Flow computations conserve mass, momentum and energy, whatever happens to them",
     "Without sources, mass, momentum and energy of a compressible flow on a periodic domain, and mass and energy between slip walls, stay what they were initially after every step - for every flux, scheme, order, scaling, viscosity and condensation, "
     "even when Newton iterations stop early, and over any history of failures, restarts from files and changes of settings. "
     "State files and domain sensors show the conserved values as well.",
     ["histories", "crash_points", "configurations"],
     "every history of kills, interrupts within solves, restarts and reconfigurations of a conservative computation",
     "tests evaluate formulas at points; no flow problem is ever advanced",
     ["dream/compressible/formulations/conservative.py", "dream/compressible/riemann_solver.py", "dream/compressible/solver.py", "dream/solver.py", "dream/time.py"],
     [("conservative HDG form and transmission condition", "dream/compressible/formulations/conservative.py"), ("numerical fluxes", "dream/compressible/riemann_solver.py")],
     "failures, restarts and reconfigurations of flow computations", "1e-10 relative (walls: 1e-8, Lax-Friedrich and HLL, converged steps).", ["integrals of the state", "state files", "sensor rows"])

prop("C17", "A uniform flow stays uniform, whatever happens to the computation",
     "A uniform subsonic flow is a fixed point of the solver with every consistent set of conditions: far field, outflow, characteristic (GRCBC, NSCBC) in- and outflow, periodic, sponge layers, deformed grids - for every flux, scheme, order, scaling, viscosity and condensation, over any history of failures, restarts and changes of settings. "
     "The far field state given by Mach number, scaling and direction, and all fields derived from the state by the sensors, have their textbook values.",
     ["histories", "crash_points", "configurations"],
     "every combination of conditions and layers, and every history of kills, interrupts, restarts and reconfigurations",
     "tests evaluate the formulas of single conditions at single points; no flow problem is ever advanced",
     ["dream/compressible/formulations/conservative.py", "dream/compressible/riemann_solver.py", "dream/compressible/solver.py", "dream/compressible/eos.py", "dream/compressible/scaling.py", "dream/mesh.py"],
     [("boundary and domain conditions of the HDG form", "dream/compressible/formulations/conservative.py"), ("far field state and equations of state", "dream/compressible/solver.py")],
     "failures, restarts and reconfigurations of flow computations", "1e-9 relative; no cell side parallel to the flow.", ["all unknowns after every step", "sensor rows"])

prop("C18", "Output, logging and inspection do not change what is computed",
     "The unknowns, time levels, Newton iterations and settings of a run are the same to the bit with any selection of outputs and logging as without them, also when an output fails, is switched during the run, or settings, fields, sensors or states are read or saved by hand in the loop. "
     "The files of each output are the same to the byte whatever other outputs are on. "
     "A run does not change the configuration, apart from its clock and the pseudo time step.",
     ["configurations", "histories", "fault_sequences"],
     "every selection of outputs and rates, every sequence of requests in the loop, every failing output",
     "tests look at outputs one at a time and do not compare trajectories",
     ["dream/io.py", "dream/time.py", "dream/solver.py", "dream/config.py"], [("streams only read the solver", "dream/io.py")],
     "outputs, requests and failures", "Oracle: the same runs without output.", ["trajectories, iterations, settings and files"])

prop("C19", "Log records reach every enabled destination exactly once, in order, at once",
     "Every record at or above the configured level appears exactly once, in order and at once in each destination (log file, terminal) that is enabled at that moment, and in no other, over any history of switching destinations, level, file name, root folder, the log itself, or the solver, between and within runs; older content of a log file stays. "
     "The log file is open exactly while it is enabled. "
     "A record whose write fails or is interrupted may be lost; others are not, and failing log output does not stop a run.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of switches, runs, failing writes and kills",
     "tests switch a destination once and look at the handler objects",
     ["dream/io.py", "dream/solver.py"], [("LogStream", "dream/io.py"), ("records of the nonlinear solver", "dream/solver.py")],
     "histories of switches and failing writes", "One live solver at a time.", ["contents of log files and terminal", "open files"])

prop("C20", "Settings are what was assigned last, in whatever way and after whatever was refused",
     "Over any history of assignments to a flow solver - single settings by attribute or item, updates with dotted, nested or mixed keys in any order, instances, "
     "parameters of another solver, unknown names, refused values and interrupted updates - every setting reads as what was assigned to it last, or as its default if its part "
     "was exchanged since; choosing a part that is already chosen keeps its settings. A refused assignment raises an error and changes nothing but settings given along with it. "
     "The caller's dictionaries stay as they were, other solvers are not affected, every part belongs to its solver, and the stored form lists every setting after its part "
     "and configures another solver equally.",
     ["histories", "configurations", "fault_sequences"],
     "every history of assignments, refusals and interrupts over the tree of settings of two solvers, every order and form of keys in an update",
     "tests assign single settings of small made-up trees and never go on after a refusal",
     ["dream/config.py", "dream/solver.py", "dream/time.py", "dream/compressible/config.py"],
     [("UniqueConfiguration.update", "dream/config.py"), ("configuration, parameter, unique, interface descriptors", "dream/config.py"), ("to_tree", "dream/config.py")],
     "histories of assignments, refusals and interrupts", "Settings of io are part of C08, C09 and C19.", ["every setting", "to_tree"])

prop("C21", "Equivalent descriptions of a flow compute the same flow, whatever happens in between",
     "The flow computed from a problem does not depend on how the problem is described: the scaling (aerodynamic, acoustic, aeroacoustic), static condensation, a rotation, "
     "shift or enlargement of the domain, conditions given together by pattern or one by one and in any order. After every step, all unknowns "
     "agree up to units and rotation, also if one of the computations was interrupted within steps, repeated them, was reinitialised or continued with other solver options.",
     ["configurations", "histories", "fault_sequences"],
     "all combinations of boundary and domain conditions, fluxes, schemes, viscosity and initial disturbances, every pair of descriptions, every cut of the computation",
     "tests compare formulas of single terms in one scaling and one orientation; no test computes a flow twice",
     ["dream/compressible/scaling.py", "dream/compressible/conservative.py", "dream/compressible/riemann_solver.py", "dream/compressible/config.py", "dream/mesh.py", "dream/time.py"],
     [("reference quantities of scalings", "dream/compressible/scaling.py"), ("conditions and their directions", "dream/compressible/conservative.py"),
      ("patterns of regions", "dream/mesh.py")],
     "descriptions, cuts and faults of flow computations", "Steps that converge; no grid mappings.", ["unknowns after every step"])

prop("C22", "Every step of a flow solves the documented discrete equations, whatever happened before",
     "Whenever a step of a flow computation converges, its unknowns solve the hybridised discontinuous Galerkin equations the documentation describes - "
     "Euler or Navier-Stokes fluxes, the chosen numerical flux, viscosity law, time scheme, every boundary condition, layer and relaxation factor as configured last - "
     "and the computation starts from the projection of the initial conditions. This holds also for steps after interrupted, repeated, reinitialised or reconfigured ones.",
     ["configurations", "histories", "fault_sequences"],
     "all combinations of conditions, layers, fluxes, schemes, viscosity laws, quadrature orders and time and space dependent boundary data, every cut of the computation",
     "tests evaluate single formulas at single states; none runs a step with a real flux, condition and viscosity together",
     ["dream/compressible/conservative.py", "dream/compressible/riemann_solver.py", "dream/compressible/eos.py", "dream/compressible/viscosity.py", "dream/compressible/solver.py",
      "dream/compressible/config.py", "dream/time.py", "dream/solver.py"],
     [("weak form", "dream/compressible/conservative.py"), ("fluxes", "dream/compressible/riemann_solver.py"), ("boundary conditions", "dream/compressible/conservative.py"),
      ("time schemes", "dream/time.py")],
     "cut and interrupted flow computations", "The equations are written down a second time (sim/hdg.py) with explicit eigenvectors; trusted: NGSolve's assembly.", ["unknowns after every step"])

prop("C23", "Quantities read from a flow solver are those of its current state and settings, whatever happened and however they are asked for",
     "Between any two steps, every quantity the flow solver derives - fields and gradients by symbol or by name, equations given any sufficient set of quantities, convective and "
     "diffusive fluxes, stresses, Jacobians, characteristic transforms and amplitudes, far field states, coefficients, drag and lift, dimensionful values - "
     "is the documented formula of the current conservative variables, Mach, Reynolds and Prandtl number, heat capacity ratio and reference values. Quantities asked for in the "
     "beginning follow the state and the settings, also after interrupted and repeated steps and changed settings.",
     ["configurations", "histories", "fault_sequences"],
     "all flows, sets and spellings of quantities, changes of parameters and cuts of the computation, every state it visits",
     "tests evaluate formulas for constants at one point with fixed parameters, and never ask a computed state",
     ["dream/compressible/solver.py", "dream/compressible/eos.py", "dream/compressible/viscosity.py", "dream/compressible/scaling.py", "dream/compressible/riemann_solver.py",
      "dream/compressible/config.py", "dream/compressible/conservative.py", "dream/config.py"],
     [("equations", "dream/compressible/solver.py"), ("ideal gas", "dream/compressible/eos.py"), ("fields and gradients", "dream/compressible/conservative.py"),
      ("reference values", "dream/compressible/scaling.py")],
     "questions, changed settings, cuts and interrupts of flow computations", "The formulas are written down a second time; one known finding.", ["values of coefficient functions at points of every cell"])

prop("C24", "A stationary computation iterates to the solution of the stationary equations from the state it is given, and fits between others",
     "A stationary run begins with the current state, performs exactly the Newton iterations of the stationary equations that the settings allow, reports convergence and NaN truthfully, "
     "saves the state before and after, and leaves the state of its last complete iteration. This holds for runs one after the other and between transient or pseudo time runs, also "
     "if iterations fail or are interrupted, the disk fails, or the loop is left; a converged flow solves the discrete equations without the time term, and transient steps do not change it.",
     ["histories", "fault_sequences", "configurations"],
     "all sequences of stationary, transient and pseudo time runs with changed settings, every iteration and output operation as a point of failure, all conditions of flows",
     "no test runs a stationary computation at all",
     ["dream/time.py", "dream/solver.py", "dream/config.py", "dream/io.py"],
     [("stationary routine", "dream/time.py"), ("Newton iteration", "dream/solver.py"), ("saving before and after", "dream/io.py")],
     "histories of stationary and other runs", "Iterations whose error is within 0.1 % of the criterion are not judged.",
     ["state at every iteration and after runs", "convergence flags", "files and sensor rows"])

prop("C25", "Drawn fields follow the computation: each new state is shown once, on every scene of its own solver",
     "After fields are drawn (with the window of a script or of a notebook, with their names and options), every scene of the last drawing is redrawn exactly once for every step of a transient run and "
     "every state of a playback, and shows that state; in stationary and pseudo time runs it shows every iterate in order, and the result in the end. Scenes of earlier drawings and of "
     "other solvers are not touched. A failure while redrawing (a closed window, Ctrl-C) reaches the user's loop, and this also holds for the runs after failing, interrupted or left ones.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of drawing, running and playing back, interleaved with other solvers, every redraw, iteration and output operation as a point of failure",
     "no test draws anything; what a scene shows depends on when it is redrawn within the loop",
     ["dream/io.py", "dream/time.py"],
     [("draw and redraw", "dream/io.py"), ("where the routines redraw", "dream/time.py")],
     "histories of drawings and runs", "Windows are stand-ins that evaluate their field when they are redrawn.",
     ["what scenes show when they are redrawn", "number and order of redraws"])

prop("C26", "A mesh is deformed as the current conditions say, whatever it was before",
     "Applying grid deformations moves the mesh by the projection (of the highest order given, onto continuous functions that vanish away from the layers) of the mappings of the current conditions, which take "
     "the coordinates of the undeformed mesh: applying them again changes nothing, changed mappings, orders and regions replace the earlier deformation, and asking for the deformation does not move the mesh. "
     "A failing or interrupted attempt leaves the mesh as it was. Sensors measure on the deformed mesh. Weights of (polynomial) sponge layers are the projections of the given functions of the current "
     "coordinates onto the polynomials of the order of each layer, and zero elsewhere.",
     ["histories", "fault_sequences"],
     "all sequences of setting, changing, applying and failing, by several solvers of one mesh",
     "tests ask for two deformations and two weights of meshes that were never deformed",
     ["dream/mesh.py", "dream/solver.py"],
     [("grid deformation conditions and their mappings", "dream/mesh.py"), ("projection of buffer functions", "dream/mesh.py"), ("set_grid_deformation", "dream/solver.py")],
     "histories of deformations of a mesh", "Mappings with scales of 1.5 and more; polar mappings around a point outside of the domain; each region has one grid deformation at a time.",
     ["deformation of the mesh", "sensor rows"])

prop("C27", "An incomplete or contradictory problem is refused before a step, and nothing of it remains once it is mended",
     "A flow whose conditions lack fields or have too few of them, without initial state, with a periodic mesh but no periodic condition, with conditions no formulation implements, with layers that lack weight or "
     "target or have higher order than the method, with viscosity but no mixed method or the reverse, or with an output without fields, ends in a ValueError, TypeError or NotImplementedError before its first "
     "step - as long as one such gap is left, and without files left open. Once all gaps are mended, in place or by setting the problem up again, and also if setting it up was interrupted before, "
     "the same solver computes what one that was set up correctly at once computes.",
     ["histories", "fault_sequences"],
     "all sequences of leaving out, contradicting, trying, interrupting, mending and running",
     "tests check single refusals, one at a time, and never go on with the solver",
     ["dream/solver.py", "dream/mesh.py", "dream/compressible/config.py", "dream/compressible/formulations/conservative.py", "dream/config.py", "dream/io.py"],
     [("checks of conditions", "dream/compressible/config.py"), ("checks of layers and initial states", "dream/mesh.py"), ("checks of periodic conditions", "dream/solver.py"),
      ("checks of mixed methods and of unknown conditions", "dream/compressible/formulations/conservative.py"), ("equations of state report what they can not determine", "dream/config.py")],
     "histories of setting a problem up wrongly", "A refused solver is initialised again before it is run; states agree to 1e-8.",
     ["exceptions at initialisation and start of a run", "trajectory after mending"])

NA = [
    ("N01", "Thermodynamic relations, eigensystems and fluxes agree with each other",
     "Equations of state, characteristic transforms and numerical fluxes satisfy their defining identities for every physical state.",
     ["inputs"], "every physical state", "tests compare single states",
     ["dream/compressible/eos.py", "dream/compressible/riemann_solver.py"], [("ideal gas relations", "dream/compressible/eos.py")],
     "Pure functions of their arguments: for arbitrary states there is no schedule, clock, I/O or history for a simulator to decide. C16, C17, C21, C22 and C23 judge them at the states a computation visits."),
    ("N02", "Tensor helpers meet their definitions",
     "Vector and matrix helpers satisfy their definitions for every argument.",
     ["inputs"], "every vector and matrix", "tests compare single arguments",
     ["dream/bla.py"], [("symbolic helpers", "dream/bla.py")],
     "Pure functions of their arguments: no schedule, clock, I/O or history for a simulator to decide."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["tests"], "anchors": {
                                    "files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                                    "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
        for id, title, statement, over, text, tests, files, mechanism, _ in NA:
            f.write(json.dumps({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mechanism]}}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./check --selftest",
        "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                    "technique": TECH.format(p["search"]), "level": "exploration", "level_note": SIM + p["note"]} for p in P],
        "not_applicable": [{"property": x[0], "reason": x[-1]} for x in NA],
        "notes": "No hooks in /repo: every seam is a patched standard library or NGSolve entry point (sim/core.py). ./check --replay FILE repeats a stored "
                 "counterexample, ./check --determinism compares histories of the same seeds in different worker layouts.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
