TESTS = "Existing tests build a generator or a problem once, in one quiet process, and look at one result; "

prop("C01", "The seed alone decides a generated wind field",
 "A wind field is decided by the generator's configuration, its integer seed and the sequence of generate calls: the transform engine, its plan and thread count, the clock, leftover memory contents, other generators in the process and other users of the global random streams do not change it. This includes the large-scale two-dimensional part of a combined field. Two different seeds, even if they differ in one bit, give different realisations, and generators without a seed do not repeat each other.",
 ["inputs", "configurations", "histories", "schedules"], "every configuration, seed, call sequence and process environment",
 TESTS + "none compares two environments, interleaves another user of randomness or compares seeds.",
 [FG, GRF, SM, LF],
 [("one random stream per generator, seeded at construction", GRF + ":reseed, sample_noise"), ("2D part seeded from the same seed", FG + ":__init__"), ("2D generator's own random stream", LF + ":__init__, generate")],
 [("random stream", "position after the calls made so far")],
 ["array returned by generate"],
 technique="seeded environment and interleaving of other random-stream users vs pristine processes, forked and started anew",
 note="Sampled configurations and environments; engines compared to 3e-4 of the field's magnitude.")

prop("C02", "Successive generate calls append to one field",
 "Each generate call appends exactly the requested number of blocks (or, with none requested, nothing) to the field and returns the whole field; planes generated earlier, and arrays already returned, never change. How a field is split into calls, and what is done between them (exports, divergence evaluations, other generators), does not change the blocks.",
 ["histories", "inputs", "configurations"], "every history of generate, export and evaluation calls on one generator, with changing profiles and block counts",
 TESTS + "no test makes two calls and compares them with one.",
 [FG, LF], [("accumulated field and noise window kept across calls", FG + ":generate, _generate_block"), ("2D offset carried across calls", FG + ":generate")],
 [("accumulated field", "all planes generated so far"), ("noise window", "overlap shared by neighbouring blocks")],
 ["array returned by generate"],
 technique="seeded call histories checked stepwise against the one-call history",
 note="Sampled histories; old planes compared bitwise, blocks to 1e-6.")

prop("C03", "A generate call that fails leaves whole blocks and can be continued",
 "When a generate call ends early (interrupt, failed allocation or transform, warning raised as an error, refused arguments), the field holds only complete blocks, everything generated before is unchanged, and arrays returned earlier stay as they were. Repeating the missing blocks then yields the field an undisturbed history would have produced.",
 ["fault_sequences", "crash_points", "histories", "inputs"], "every point at which a call can be cut short, every history of failing and succeeding calls",
 TESTS + "no test injects a failure inside a call.",
 [FG, GRF], [("noise drawn for a block is rolled back when the block fails", FG + ":_begin_block, _generate_block"), ("field extended once per finished block", FG + ":generate")],
 [("noise window and random stream", "consistent with the number of finished blocks")],
 ["field after a failed call", "field after recovery"],
 technique="interrupts and failing allocations, transforms and arguments injected at seeded points of a call history",
 note="Faults land at function entries, call returns, loop back-edges, allocations and transforms; sampled.")

prop("C04", "Objects do not influence each other and inputs stay the caller's",
 "Any number of generators and calibration problems may be built from the same input objects (parameter records, arrays, configuration mappings) and used in any interleaving, also from different threads, and each behaves exactly as if it were alone. Arrays, tensors, records and mappings passed in are never modified, and the caller's changing arrays, parameter vectors or configuration mappings afterwards does not change an object already built.",
 ["schedules", "histories", "inputs", "configurations"], "every interleaving of the work of several objects sharing inputs, every later modification of those inputs by the caller",
 TESTS + "each test uses one object and never looks at its inputs again.",
 [FG, LF, CAL, OPS, LOSS, PA], [("inputs copied at construction", FG + ":__init__"), ("per-object state only", CAL + ":__init__"), ("parameter vector copied when assigned", CAL + ":parameters")],
 [("caller's arrays, tensors, parameter records", "unchanged by the library")],
 ["results of each task", "inputs after the run"],
 technique="seeded preemptive interleaving of 2-4 tasks vs the same tasks alone",
 note="One thread at a time, switches at calls, stores and loop back-edges of package code; one object used by several threads at once is not claimed.")

prop("C05", "Saving a model never costs the previous one",
 "After a save that returns normally the model file holds the complete current model; a power loss at any later moment leaves that or the complete previous model. A save cut short at any point by a disk error, full disk, interrupt, process death or power loss leaves the model file absent (if there was none), the complete previous model or the complete new one, never something in between, and a disk error is reported rather than swallowed. Once the fault is gone, saving again works, and the model in memory is never changed by saving.",
 ["crash_points", "fault_sequences", "histories"], "every disk operation of a save, every fault kind, first save or overwrite",
 "Tests save once on a healthy disk, or not at all.",
 [CAL], [("write to a temporary file, sync, then rename over the old model", CAL + ":save_model")],
 [("model file", "last complete save")], ["model file after the fault", "exception raised by the save"],
 technique="disk faults, process crash and power loss at seeded operations of a save",
 note="Real filesystem below an interposer; power loss follows the journalled-directory model stated in sim/disk.py.")

prop("C06", "A saved model comes back exactly and drives field generation",
 "Loading a saved model in any later process gives back its parameters, configuration and predictions exactly as they were at the save, whatever was saved, calibrated or loaded in between, and calibration can be continued from it. A field generated from the file depends on the saved network and on the seed only, in any process. A damaged or unreadable file is refused, never used.",
 ["histories", "fault_sequences", "configurations", "inputs"], "every history of set, calibrate, save, load and restart over several models and directories, and short or failing reads",
 "Tests that load a model are among those that fail at this commit; none restarts a process or damages a file.",
 [CAL, CO, NC, FG, NN], [("pickled problem and parameters", CAL + ":save_model"), ("loading on a machine without a GPU", CO + ":CPU_Unpickler"), ("network taken from the file", FG + ":__init__")],
 [("model file", "everything needed to rebuild the model")], ["reloaded parameters and predictions", "field generated from the file"],
 technique="save/load/restart histories with short reads, read errors and truncated files vs a map of what each file must hold",
 note="Sampled histories; parameters and predictions compared exactly or to rounding, fields to 3e-4.")

prop("C07", "A fit is decided by start, settings and data, and never returns garbage",
 "What a calibration returns (parameters, losses, scales, or an error) is decided by the starting point, the settings and the data; the clock, the log writer's scheduling, the log directory's contents, leftover memory and other users of the global random streams play no part. It returns finite parameters together with matching scales, or raises; data that are not finite never produce a silently returned fit. The caller's data are not changed.",
 ["schedules", "fault_sequences", "inputs", "configurations"], "every model kind, component set, optimiser, penalty setting, data set and process environment",
 "Tests run one calibration in one environment and check that it does not crash.",
 [CAL, LOSS, OPS, NN], [("optimiser loop with non-finite loss check", CAL + ":calibrate"), ("loss built from the given data only", LOSS + ":eval")],
 [("model parameters", "result of the fit")], ["return value of calibrate", "parameters afterwards", "exception raised"],
 technique="seeded environment (clock, writer thread, log-directory faults, dirty memory) around a calibration vs pristine processes, forked and started anew",
 note="Small fits (few epochs, small grids); results compared to 1e-4 unless the fit is shown to be ill-conditioned.")

prop("C08", "A model's values depend on its parameters, not on its history",
 "Spectra, coherence, eddy lifetimes, spectral tensors and losses computed by a model depend on its current parameters and the arguments only: after any sequence of evaluations, calibrations (finished, failed or interrupted), saves and plots it gives the values a fresh model with the same parameters gives. Evaluating, saving and plotting change neither the parameters nor arrays passed in, and values already returned do not change later.",
 ["histories", "fault_sequences", "crash_points", "configurations"], "every history of uses of one problem object, including calibrations cut short at any point",
 TESTS + "none compares a used object with a fresh one.",
 [CAL, OPS, LOSS, EL], [("evaluation recomputes from parameters", OPS + ":forward, EddyLifetime, SpectralCoherence"), ("parameters copied in and out", CAL + ":parameters")],
 [("cached grids, stored energy spectrum, stored lifetimes", "must never leak into a later evaluation")], ["values of eval, coherence and lifetime after each step"],
 technique="use histories with interrupted and failing calibrations vs a fresh object after every step, also in another interpreter",
 note="Values compared to 1e-5, whole fits to 1e-4 unless ill-conditioned.")

prop("C09", "The training log is complete, ordered and survives process death",
 "The log files of a calibration hold, in order, one record per loss evaluation with step numbers counting up, whose terms add up to the loss the optimiser was given, preceded by the initial loss. When the process dies, everything up to the last finished epoch is on disk; a calibration that ends by an error or interrupt loses nothing of its finished epochs either. Each calibration writes its own file and leaves earlier logs alone.",
 ["crash_points", "schedules", "histories", "configurations"], "every scheduling of the log writer thread, every point of death or interruption, every sequence of calibrations into one directory",
 "Tests never read a log back and never kill the process.",
 [LOSS, CAL], [("scalars written per evaluation", LOSS + ":eval and the term functions"), ("writer flushed each epoch", CAL + ":calibrate")],
 [("event file", "records handed to the operating system so far")], ["event files read back"],
 technique="writer-thread scheduling, process death and interrupts at seeded points vs the losses the optimiser was given",
 note="Process death, not power loss; small fits.")

prop("C10", "Plotting the losses of run i shows run i",
 "Asking for the loss plot of run i in a log directory shows the recorded losses of the i-th calibration logged there, in order of starting time, whatever order the filesystem lists the files in, however the earlier runs ended, and in whichever process the question is asked. Every recorded loss term is drawn in order with its recorded values, of which at most the first two (the start) may be left out.",
 ["histories", "schedules", "fault_sequences"], "every directory enumeration order, every history of runs into a directory",
 "No test plots losses; directory enumeration order is whatever the test machine's filesystem gives.",
 [CAL, CO], [("runs ordered by log file name", CAL + ":plot_losses"), ("curves read from the event file", CO + ":plot_loss_logs")],
 [("log directory", "one event file per calibration")], ["curves on the figure"],
 technique="seeded directory orders, clocks and run endings vs the records of each run",
 note="Curves read from the matplotlib figure; runs started in the same second are only required to be told apart consistently.")

prop("C11", "Coherence measurements land in the cells their records name",
 "Loading a coherence data file stores, for every record, its value in the cell of the separation and frequency it names, in whatever order, with whatever gaps, repetitions, comments and blank lines the records arrive; cells without a record are not filled from other records. A file that cannot be used or read is refused with an error and leaves the measurements loaded before untouched. The file itself is never changed.",
 ["inputs", "fault_sequences", "histories"], "every order, loss, repetition and numbering of records, every short, interrupted or failing read, every history of loads",
 "The single data file of the examples is complete and sorted; no test loads it.",
 [CAL], [("records placed by their indices", CAL + ":load_coherence_data")],
 [("stored coherence grid, separations, frequencies", "what calibration is fitted to")], ["stored measurements after each load", "exception raised"],
 technique="reordered, lost, repeated records and short/failing reads over load histories vs a dictionary of the records",
 note="Repeated records are identical; files are cut between fields only.")

prop("C12", "An exported field file is exactly the field, or the export fails",
 "After an export returns normally, the file at the given place decodes to exactly the generated field, with its three components, extents and grid spacing. An export cut short by a disk error, full disk, interrupt or process death raises (if it can) and leaves an earlier file of that name either as it was or completely replaced. Exporting changes neither the field nor later blocks, and once the fault is gone exporting works again.",
 ["fault_sequences", "crash_points", "histories", "configurations"], "every disk operation of an export, every fault kind, every history of generate and export calls",
 "No test reads an exported file back.",
 [FG], [("export through pyevtk to a temporary place, then rename", FG + ":save_to_vtk")],
 [("exported file", "the field at the time of the last successful export")], ["bytes of the exported file", "exception raised by the export"],
 technique="disk errors, full disks, short/interrupted writes and death at seeded operations of an export history, byte-level decoding",
 note="Process death only, no power loss.")

prop("C13", "Fields follow the documented moving-window construction",
 "Block for block, the field is the one the documented construction prescribes for the seed's noise: noise window advanced by one block, coloured by the square root of the spectral tensor, overlap cut at the configured blend, scaled, then given the mean profile chosen for that call and the large-scale part at its place. The large-scale part touches only the two horizontal components, is constant in height and continues from block to block.",
 ["histories", "configurations", "inputs", "schedules"], "every configuration, profile and call history, every transform engine",
 "The tests compare only shapes and coarse statistics, and the ones covering generation fail at this commit.",
 [FG, GRF, SM, CK, LF], [("noise window shifted and refilled", FG + ":_generate_block"), ("spectrum square root applied in Fourier space", SM + ":Sampling_VF_FFTW"), ("profile and large-scale part added", FG + ":_normalize_block, generate")],
 [("noise window", "white noise under the current block")], ["array returned by generate"],
 technique="refinement of an independent double-precision reference model over seeded call histories, engines and memory contents",
 note="Analytic models and trained networks; agreement to 3e-4 of a block magnitude.")

prop("C14", "Each large-scale 2D realisation is solenoidal with the documented spectrum",
 "Each realisation of the large-scale two-dimensional field is divergence-free, has zero mean and, mode by mode, the configured spectrum and variance, with both components from one realisation whatever order the parallel loops run in and however an earlier regeneration ended. The requested portion is the central part of the computed field, interpolation reads that field, estimated spectra are those of the stored field, and the analytical spectrum is that of the configuration; regenerating gives an independent realisation.",
 ["schedules", "histories", "fault_sequences", "configurations"], "every order of the parallel loops, every history of regenerate, interpolate and estimate calls, every point at which a regeneration fails",
 "Tests check the shape and a loose variance bound of one realisation, with the compiled loop order of one machine.",
 [LF], [("spectral factor applied to one noise array", LF + ":generate"), ("iterations write disjoint cells", LF + ":_generate_numba_helper"), ("components stored together", LF + ":generate")],
 [("stored components", "last complete realisation")], ["arrays returned by generate and interpolation", "estimated spectra"],
 technique="seeded parallel-loop orders, interrupts and failing transforms over regeneration histories, Fourier-mode oracle",
 note="Nyquist modes are not constrained; statistical bounds are ten standard errors wide.")

prop("C21", "Parameter studies report each setting's own result",
 "A mesh or domain-size study of the large-scale field shows, for every setting whose worker completed, that setting's own norm and variance at that setting's place on the axis, in increasing order, whatever order the workers finish in and however tasks are spread over them. A worker that fails or dies costs only the settings that had not completed; they are left out, not filled in or shifted, and no valid setting is lost without a fault. An interrupt ends the study and the next study is unaffected.",
 ["schedules", "fault_sequences", "histories", "inputs"], "every placement and completion order of worker processes, every worker failure or death, every list of settings",
 "No test runs a study; the process pool's order is whatever the machine gives.",
 [LP, LF], [("one pool task per setting, results sorted by setting", LP + ":mesh_independence_study, domain_size_study"), ("average over realisations on the requested grid", LP + ":_run_single_mesh, _run_single_domain_size")],
 [("list of results", "settings completed so far")], ["curves on the study's figure"],
 technique="simulated process pool (forked workers, seeded placement, durations, completion order, failures and deaths) vs each setting recomputed alone from its worker's noise",
 note="Grids up to 2^7 in the mesh study and factors 4 to 16 in the domain study; the worker's generator itself is judged in C14.")

prop("C22", "A fit's plot shows the data last fitted and the model as it is now",
 "Plotting a calibration problem shows, in the panel named after each component, the data of that component that were last fitted (or are given to the call) and the model's spectrum, eddy lifetime and coherence at its current parameters, whatever was calibrated, plotted, interrupted or closed before, on this problem or another. Plotting changes neither the model nor the plotting library's settings, and a save that returns normally has left complete images.",
 ["histories", "crash_points", "fault_sequences", "configurations"], "every history of parameter changes, calibrations and plots on several problems, plots cut short at any point, disk faults while saving",
 "No test looks at a plot's contents.",
 [CAL], [("panels filled by component map", CAL + ":plot"), ("coherence recomputed for the plot", CAL + ":_plot_coherence_data")],
 [("stored data and coherence", "what the last calibration was given")], ["curves on the figures", "saved image files", "exception raised"],
 technique="histories of calibrations and plots with interrupts, allocation failures and disk faults vs the given data and a fresh model, also in another interpreter",
 note="Curves are read from the matplotlib figures; rendering is skipped in most runs and at low resolution in the others.")

prop("C23", "Figures and studies of generated fields show the realisations they are made of",
 "Plots of a large-scale or full wind field show the field as it is stored at that moment, each component in its own panel at its place on the grid, and spectrum, angle and size studies average exactly the requested number of their own realisations for each setting, whatever was regenerated, extended, plotted, interrupted or failed before, on this or another generator. Drawing changes neither stored fields, random streams, arguments nor the plotting library's settings, and a figure already made does not change later.",
 ["histories", "fault_sequences", "crash_points", "configurations"], "every history of regenerations, plots and studies on several generators, each cut short at any point",
 "No test draws a field or runs a study.",
 [LF, LP, WP], [("stored components drawn on the requested grid", LF + ":plot_velocity_fields"), ("one generator per setting, averages over its own realisations", LP + ":recreate_fig2, anisotropy_study, length_AND_grid_size_study"), ("volumes on the grid", WP + ":plot_velocity_components, plot_velocity_magnitude")],
 [("stored components and accumulated field", "unchanged by drawing")], ["images, curves and volumes on the figures", "returned averages"],
 technique="histories of regenerations, plots and studies with interrupts, allocation and transform failures vs the recorded realisations",
 note="Grids inside the size study are scaled down and the target quadrature is replaced by a stand-in in most runs; canvas rendering is not judged.")

pure = "a pure function of its arguments: no schedule, clock, I/O, randomness, fault or history enters, so there is nothing for a simulator to decide (only its history independence is claimed, in C08)"
prop("C15", "Model spectra and tensors obey the published formulas",
 "One-point spectra, cross spectra, coherence and the spectral tensor are those of the published uniform-shear model for the given eddy lifetime and energy spectrum: Hermitian, positive semi-definite and incompressible.",
 ["inputs"], "every parameter set and wavenumber", "Tests evaluate a few points.", [OPS, CO, CK], [("closed formulas and quadrature", OPS + ":forward, PowerSpectra")], na=pure)
prop("C16", "Loss terms are the documented formulas",
 "Each loss term (data misfit, first and second order penalties, regularisation, coherence misfit) equals its documented formula for the given spectra, weights and epoch.",
 ["inputs"], "every spectrum, weight and epoch", "Tests check none of the values.", [LOSS], [("term functions", LOSS)], na=pure + "; that the logged terms add up to what the optimiser saw is claimed in C09")
prop("C17", "Reference data generators follow Kaimal and von Karman formulas",
 "The synthetic reference data equal the published Kaimal and von Karman spectra on the given wavenumbers.",
 ["inputs"], "every wavenumber grid and parameter", "One grid is compared in the tests.", [DG], [("closed formulas", DG)], na=pure)
prop("C18", "Eddy lifetime networks are symmetric in the wavevector",
 "Learned eddy lifetimes depend only on the moduli of the wavevector components and stay positive.",
 ["inputs"], "every network and wavevector", "Tests sample a few points.", [NN, EL], [("network on absolute values", NN + ":TauNet.forward")], na=pure)
prop("C19", "The large-scale computational domain covers the requested one",
 "The grid used for the large-scale field is isotropic in spacing, large enough for its length scale and covers the requested domain.",
 ["configurations"], "every configuration", "Six configurations are tested.", [LF], [("buffer computation at construction", LF + ":_calculate_buffer_sizes")], na=pure + "; the consequences for a generated field are judged in C13 and C14")
prop("C20", "Custom one-point data files load into the fitting format",
 "User supplied one-point spectra files are read into the data mapping a fit consumes.",
 ["inputs", "fault_sequences"], "every file", "No test exists.", [DG], [("loader class", DG + ":CustomDataLoader")], na="the loader is unfinished at this commit (its formatting step is a stub), so there is no behaviour to simulate")
