#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
TD, PD, DM = "src/datamanager/tdata.rs", "src/datamanager/pdata.rs", "src/datamanager.rs"
FN, MX, CO, EX = "src/functions.rs", "src/functions/mixing.rs", "src/functions/conditional.rs", "src/functions/extractions.rs"
CG, CY, VG, GR = "src/grid/cartesian_grid.rs", "src/grid/cylindrical_grid.rs", "src/grid/vector_grid.rs", "src/grid.rs"
CV, CT, LT, XT = "src/converter.rs", "src/converter/convertertools.rs", "src/converter/legacytools.rs", "src/converter/xmltools.rs"
SEL, UT = "src/particleselector.rs", "src/utilities.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HOOK = "--cfg up4_sim: size of the buffer window"
NOT = "No existing test opens a dataset or runs this function; the three stable tests cover one dimension helper and two setters of the Cartesian grid."
WIN = [("windows of timesteps", "the part of the dataset that is in memory", TD + " TData.buffer/index_range; " + PD + " PData.buffer/index_range")]
ANA = "every stored dataset (number of timesteps and particles, particles that appear and leave, missing values), both storage layouts, every size of the in-memory window, every grid and selection, and every history of earlier reads and analyses on the same handle, including ones cut short by a storage error or an interrupt"

prop("P01", "A timestep read through the window is the stored timestep",
 "Reading timestep t of an open dataset returns exactly what the dataset stores for t (time, positions, velocities, radii, ids, clouds, densities, types), with the documented default where an optional quantity is not stored. This holds whatever was read before, in any order (forward, backward, jumping, repeated), wherever t lies relative to the in-memory window, for time-ordered and for particle-ordered datasets.",
 ["histories", "configurations", "inputs"], "every sequence of reads of timesteps 0..T-1 on one handle, every window size from 1 to beyond T, every dataset in either layout",
 NOT + " The window moves only after 20000 timesteps, so no sampled dataset would ever move it.",
 [TD, PD, DM], [("window refill", TD + " TData::update, buffer"), ("window refill", PD + " PData::update, buffer"), ("access", TD + "/" + PD + " DataManager::get_timestep")],
 ["the timestep handed to the caller"], WIN, HOOK)
prop("P02", "Additional read cursors are correct and independent of each other",
 "A timestep read through any of several additional read cursors of a dataset is the stored timestep, and neither moving one cursor nor opening another changes what any other cursor or the main one returns. This holds for every interleaving of reads over the cursors and for both storage layouts.",
 ["schedules", "histories", "configurations"], "every interleaving of reads on the main cursor and on 1..4 additional cursors, each in any order, every window size, both layouts",
 NOT + " Two cursors are needed, with windows at different places.",
 [TD, PD, DM], [("extra windows", TD + " setup_buffer, get_timestep_buffer, update_extra"), ("extra windows", PD + " setup_buffer, get_timestep_buffer, update_extra")],
 ["the timestep handed to the caller"], WIN, HOOK)
prop("P03", "A failed read fails loudly and never leaves wrong data behind",
 "When the storage fails during a read (any single operation, at any point of a refill), the caller gets a failure or the stored timestep, never other data, zeros or defaults in place of stored values. After the failure the same handle goes on to answer every read that the storage serves with the stored timestep, and reads that succeeded before the fault are not changed by it.",
 ["fault_sequences", "crash_points", "histories"], "every storage operation of every read as the one that fails (open group, list members, read a dataset or attribute), sequences of several faults, followed by any sequence of further reads, both layouts, every cursor",
 NOT + " No test injects an I/O error; the failure has to hit a particular operation inside a refill and the damage shows in a later, successful read.",
 [TD, PD, DM], [("window bookkeeping around a refill", TD + " TData::update/update_extra"), ("window bookkeeping around a refill", PD + " PData::update/update_extra"), ("missing dataset or failed read", TD + "/" + PD + " optional datasets")],
 ["the timestep or panic the caller sees"], WIN, HOOK)
prop("P04", "A timestep outside the dataset is refused and changes nothing",
 "Asking any cursor for a timestep the dataset does not have is refused with a failure, never answered with data of another timestep. The refusal leaves every later read of an existing timestep correct.",
 ["histories", "inputs", "configurations"], "every out-of-range index (T, T+1, beyond the window, very large) at every point of every read history, both layouts, every window size",
 NOT, [TD, PD, DM], [("range check", TD + " assert_in_dataset"), ("range check", PD + " assert_in_dataset")], ["panic or data seen by the caller"], WIN, HOOK)
prop("P05", "Reading past the window gives the same timestep as reading through it",
 "Reading timestep t directly from storage, past the in-memory window, returns the same content as reading it through the window, for every dataset in both layouts. It neither depends on nor disturbs the state of the window, also when it fails half way.",
 ["histories", "fault_sequences", "configurations"], "every t, at every point of every history of windowed and direct reads, storage faults included",
 NOT, [TD, PD], [("direct read", TD + " get_timestep_unbuffered"), ("direct read", PD + " get_timestep_unbuffered")], ["the two timesteps"], WIN, HOOK)
prop("P06", "Velocity fields average exactly the selected samples of all timesteps",
 "Each cell of a velocity field or velocity vector field holds the mean of the requested velocity component over exactly the samples of all timesteps that are selected, have a position inside the grid and a known velocity, and (scalar field) lie within the requested velocity limits; its weight is the number of those samples and a cell without samples is undefined. In cylindrical grids vector components are taken about the axis of the grid; no sample is lost or counted twice because of how the dataset passes through memory.",
 ["histories", "configurations", "inputs", "fault_sequences"], ANA, NOT, [FN, VG, CG, CY],
 [("velocity field", FN + " velocityfield"), ("vector field", FN + " vectorfield"), ("cylindrical components", VG + " velocity_calculation")], ["cells and weights of the returned grid"], WIN, HOOK)
prop("P07", "Every sample inside a grid is counted once, in the cell that contains it",
 "The number field and the weights of fields over a grid count every selected sample with a position inside the grid (walls included) exactly once and in the cell whose bounds contain it, and no sample outside the grid or without position. The positions and limits of the cells that the grid reports are those of these cells. The total over all cells equals the number of such samples, for Cartesian and for cylindrical grids, over all timesteps of the dataset.",
 ["histories", "configurations", "inputs"], ANA, NOT, [FN, CG, CY, GR],
 [("counting", FN + " numberfield"), ("cell lookup", CG + " cell_id, is_inside, add_value"), ("cell lookup", CY + " cell_id, is_inside, add_value")], ["cells of the returned grid"], WIN, HOOK)
prop("P08", "A result depends on dataset and arguments only, not on what ran before",
 "Repeating an analysis with the same arguments on the same dataset gives the same result, whatever analyses and reads were made before on the same handle, whatever values the grid passed in already holds, and whatever the size of the in-memory window. In particular a fresh handle and a used one agree.",
 ["histories", "configurations", "schedules"], "every analysis, every history of earlier calls (also aborted ones) on the handle, every window size, grids that already hold data and weights, both layouts",
 NOT + " The dependence is on history, of which a test has one.", [TD, PD, FN, MX, CO, EX, CG, CY],
 [("empty copy of the caller's grid", CG + "/" + CY + "/" + VG + " new_zeros"), ("window state between calls", TD + "/" + PD)], ["the result of a repeated call"], WIN, HOOK)
prop("P09", "Dispersion is the spread of where particles are after the given time",
 "For each cell, the dispersion is the unbiased variance (summed over x, y and z) of the positions that the selected particles found in the cell at any timestep t have at the timestep nearest to t plus the given time; particles are followed by id, and pairs without later timestep, later row or later position do not count. Cells with fewer than two such samples stay empty and the scalar result is the mean over the filled cells.",
 ["histories", "configurations", "inputs", "fault_sequences"], ANA + "; two cursors are read in alternation", NOT, [FN, DM, TD, PD],
 [("dispersion", FN + " dispersion"), ("second cursor", TD + "/" + PD + " get_timestep_buffer"), ("following by id", FN + " same_particle")], ["cells, weights and scalar returned"], WIN, HOOK)
prop("P10", "Looking up a time finds the nearest stored timestep",
 "For a time within the time range of the dataset the lookup returns the timestep whose time is nearest (the earlier one if two are equally near); before the first or after the last time it is refused. The answer is the same at every point of a history of reads, failures and other lookups, and fails loudly if the storage does.",
 ["inputs", "histories", "fault_sequences"], "every strictly increasing series of times (irregular spacing, single timestep), every requested time (exactly on, between, outside), any history before it",
 NOT, [DM, TD, PD], [("binary search", DM + " GlobalStats::timestep_at_seconds_closest"), ("time array", TD + "/" + PD + " global_stats")], ["index or refusal"], None, None)
prop("P11", "MSD is the mean squared displacement over the given time",
 "The mean-squared-displacement field holds, per cell, the mean over all selected particles found in that cell at any timestep t of the squared distance to their own position at the timestep nearest to t plus the lag, weighted by the number of such pairs; cells without pairs are zero with weight zero. The MSD curve is the sample-weighted mean of that field for each requested lag, and the last timesteps take part.",
 ["histories", "configurations", "inputs", "fault_sequences"], ANA + "; two cursors are read in alternation", NOT, [MX, FN, DM, TD, PD],
 [("msd", MX + " msd_field, msd"), ("second cursor", TD + "/" + PD + " get_timestep_buffer"), ("following by id", FN + " same_particle")], ["cells, weights and curve returned"], WIN, HOOK)
prop("P12", "Mixing index and concentration follow their definition at every timestep",
 "The concentration field is, per cell, the share of type A among the selected samples of types A and B, weighted by their number. The Lacey series has one entry per timestep of the dataset: the time and the index (maximum variance minus cell variance over maximum minus minimum variance), with the overall concentration of that timestep's selected particles and only cells with at least the threshold of particles; timesteps outside the selected time stay zero.",
 ["histories", "configurations", "inputs", "fault_sequences"], ANA + "; types that are absent in some timesteps", NOT, [MX, CG, CY],
 [("lacey", MX + " lacey_mixing"), ("concentration", MX + " concentration_field")], ["series and cells returned"], WIN, HOOK)
prop("P13", "Circulation times are those of each particle's own boundary crossings",
 "For one boundary, every third crossing of a selected particle completes a circulation whose duration is the time since the first of the three; for two boundaries a circulation runs from leaving one outer region, through the other one, to leaving the first again and is reported with start and end time. Each particle is followed by its own id across all timesteps, independent of rows, of other particles and of how the dataset passes through memory; a boundary outside the system is refused.",
 ["histories", "configurations", "inputs", "fault_sequences"], ANA + "; particles that change row, appear and leave", NOT, [CO, FN],
 [("one boundary", CO + " circulation_time"), ("two boundaries", CO + " circulation_time_two_boundary"), ("following by id", FN + " same_particle")], ["the list returned"], WIN, HOOK)
prop("P14", "The speed histogram counts each speed within its edges exactly once",
 "The bins of the speed histogram are equally wide between the slowest recorded speed and the given upper limit (or the fastest recorded speed), and their total equals the number of selected samples inside the grid whose speed is within the edges, each counted in the bin that contains it, the last bin including its right edge. Samples without speed or outside the edges are in no bin.",
 ["histories", "configurations", "inputs", "fault_sequences"], ANA, NOT, [FN], [("histogram", FN + " histogram")], ["counts and edges returned"], WIN, HOOK)
prop("P15", "Granular temperature is the velocity fluctuation of each cell's samples",
 "Each cell of the granular temperature field holds the root of the mean squared deviation of the selected samples' velocity from the cell's mean velocity (one component, or a third of the sum of all three), over all selected samples inside the grid with a known velocity, of all timesteps; the weight is their number. It is never negative and cells without samples are undefined.",
 ["histories", "configurations", "inputs", "fault_sequences"], ANA, NOT, [FN], [("granular temperature", FN + " granular_temperature_field")], ["cells and weights returned"], WIN, HOOK)
prop("P16", "Occupancy shares out the observed time, never more than all of it",
 "Every selected, fast enough sample inside the grid whose particle is still there in the next timestep contributes the time until then: half to the cell where the step starts and half to the one where it ends in a Cartesian grid (nothing if it ends outside), all to the cell where it starts in a cylindrical one. All timesteps with a successor take part and the field is divided by the total contributed time, so that it sums to one if no step leaves the grid and never to more. The homogeneity index is the standard deviation of the occupancy averaged onto the third axis.",
 ["histories", "configurations", "inputs", "fault_sequences"], ANA + "; two cursors are read in alternation", NOT, [FN, CG, CY, TD, PD],
 [("occupancy", FN + " occupancyfield, homogenity_index"), ("sharing out of a step", CG + "/" + CY + " add_trajectory_value"), ("second cursor", TD + "/" + PD + " get_timestep_buffer")], ["cells and index returned"], WIN, HOOK)
prop("P17", "Extracting a particle returns its stored track for exactly the range asked",
 "Extracting the particle stored at a given place over a range of timesteps returns one row per timestep of the range, in order, with the stored time, position and velocity, for every range inside the dataset including one that ends with its last timestep. A range that reaches beyond the dataset is refused.",
 ["histories", "configurations", "inputs", "fault_sequences"], ANA + "; every range, row and order of extractions", NOT, [EX], [("extraction", EX + " extract")], ["rows returned"], WIN, HOOK)
prop("P18", "An analysis cut short fails, and succeeds unchanged when tried again",
 "An analysis during which the storage fails or the user interrupts ends in a failure, never in a partial result passed off as complete. Once the fault is over, the same call on the same handle returns what it returns without any fault, and so do all other analyses.",
 ["fault_sequences", "crash_points", "histories"], "every storage operation and every interrupt point of every analysis as the place of the fault, repeated faults, any analysis afterwards, both layouts, every window size",
 NOT + " No test injects an error or an interrupt.", [TD, PD, FN, MX, CO, EX, UT],
 [("window bookkeeping around a refill", TD + "/" + PD + " update, update_extra"), ("interrupt check", UT + " check_signals!")], ["failure, then the repeated result"], WIN, HOOK)
prop("P19", "A selection takes exactly the particles and times it describes",
 "A selection by time, radius, cloud, density or id admits a sample exactly if every given criterion does: one value means equality, two values an inclusive range, more values membership, and the documented wildcard no restriction; each criterion uses its own values. Every analysis sees the same selected samples (mean velocity over a selection included), at every timestep of the stream.",
 ["inputs", "histories", "configurations"], "every combination of criteria and sample attributes, over all timesteps and analyses, streamed through a moving window with faults in between",
 NOT, [SEL, FN], [("selection", SEL + " is_valid, timestep_valid"), ("use", FN + " numberfield, mean_velocity_showcase")], ["counts and means of selected samples"], WIN, HOOK)
prop("P20", "A VTK conversion stores every particle of every file at its time",
 "Converting a folder or list of legacy or XML VTK files gives one timestep per file, in order of the file numbers whatever the order in which the directory lists them, with time = number times the given step, and per particle (ordered by id) exactly the position, velocity, radius (or half the diameter) and type of the file. Other files in the folder (not ending in .vtk or, for XML files, the .vtp or .vtu of their kind; bounding boxes) do not take part.",
 ["inputs", "schedules", "fault_sequences", "configurations"], "every set of files (numbers with different digits, changing populations, pieces, particles in any order), every listing order of the directory, storage faults during the conversion",
 NOT + " Tests have neither VTK files nor control over directory order.", [CV, CT, LT, XT],
 [("conversion", CV + " vtk"), ("time from file name, order", CT), ("readers", LT + ", " + XT)], ["the dataset written"])
prop("P21", "A CSV track is stored completely, in time order, despite short reads",
 "Converting the track of a single particle stores every row with a new time, in order of time, with its position and velocity (given, or fitted: exact for motion with constant acceleration, evaluated at the row's own time, leaving out the half window of rows at either end), whatever the order of rows and columns and however the operating system splits, interrupts or delays the reads of the file. A read error (an interrupted read may count as one) fails the conversion instead of shortening the data.",
 ["inputs", "schedules", "fault_sequences"], "every file (order of rows and columns, delimiter, comments, header, duplicate times, time zero, negative times), every sequence of short, interrupted and failing reads",
 NOT, [CV, CT], [("conversion", CV + " csv_converter"), ("fitted velocity", CT + " velocity_polynom")], ["the dataset written"])
prop("P22", "Recorded dataset statistics describe exactly the data that was stored",
 "The statistics a conversion records (number of timesteps and particles, minimum and maximum time, spatial extent, per-component velocity range, minimum, mean and maximum speed, array of times) are those of the data it stored: every stored position, velocity and time lies within them and the extremes are attained. They are read back unchanged through an open dataset, also after storage faults.",
 ["inputs", "configurations", "fault_sequences"], "every converter and every input (first sample extreme, single sample, monotonic series, changing populations), read back at any point of a history with faults",
 NOT, [CV, CT, TD, PD], [("running extremes", CV), ("reading them back", TD + "/" + PD + " global_stats")], ["statistics versus stored data"])
prop("P23", "CSV rows end up in the track of the particle id they carry, in time order",
 "Converting one CSV file with an id per row stores one track per id, in order of the ids, each holding exactly that particle's rows in time order with their positions and velocities (a row with a time the particle already has is ignored; if fitted, without the four rows at either end), however many rows each particle has, however the rows of different particles are interleaved in the file and however reads of the file are split or interrupted. No row is lost or attributed to another particle.",
 ["inputs", "schedules", "fault_sequences"], "every interleaving of rows and columns, every set of ids, duplicate times, every sequence of short, interrupted and failing reads",
 NOT, [CV, CT], [("conversion", CV + " csv_multi_converter (id per line)")], ["the dataset written"])
prop("P24", "One CSV file per timestep gives one timestep per file, none mixed up",
 "Converting a list of CSV files with one file per timestep stores timestep i from file i with time i of the list and every row of that file with its id, position, velocity and the given radius, ordered as documented. Reads that are split, interrupted or fail never shorten or mix timesteps without failing the conversion.",
 ["inputs", "schedules", "fault_sequences"], "every list of files with changing populations, row and column order, every sequence of short, interrupted and failing reads",
 NOT, [CV, CT], [("conversion", CV + " csv_multi_file_time_step")], ["the dataset written"])
prop("P25", "A chained CSV file is split into the tracks of its particles, none lost",
 "Converting a CSV file in which the tracks of several particles follow each other stores one track per particle in order of the file, the last one included. A new particle begins where the time goes back, a row with the time of the row before is ignored, tracks of fewer than ten rows are left out, and each stored track holds exactly its rows with time, position and velocity (if fitted: without the four rows at either end). Reads that are split, interrupted or fail never shorten, merge or mix tracks without failing the conversion.",
 ["inputs", "schedules", "fault_sequences"], "every number of tracks and of rows in them, every order of columns, repeated times, every sequence of short, interrupted and failing reads",
 NOT, ["src/converter/csv_modes/csv_multi_chain.rs", CV, CT], [("splitting into tracks", "src/converter/csv_modes/csv_multi_chain.rs csv_multi_chain"), ("conversion", CV + " csv_multi_converter (chain)")], ["the dataset written"])
prop("P26", "A conversion reports success only when the whole dataset is on disk",
 "When a conversion returns, the complete dataset is durable: a crash straight afterwards loses nothing. When the disk fills up, a write is lost or fails, the user interrupts or the process dies at any point before, the conversion does not report success, and what is left on disk either does not open as a dataset or holds exactly the converted data.",
 ["crash_points", "fault_sequences"], "every write, create, flush, read and interrupt point of every converter as the place of a crash (with any prefix of the unsynced changes surviving), an error, a full disk or a lost write",
 NOT + " No test converts anything or crashes.", [CV, TD, PD], [("final flush", CV + " vtk, csv_converter, csv_multi_converter, csv_multi_file_time_step"), ("attributes and time array written last", CV)], ["return or failure; the file on disk after it"])
prop("P27", "Handles used by different threads do not influence each other",
 "Several handles on the same or on different datasets, used concurrently by different threads for reads and analyses, each give exactly the results they give when used alone. This holds for every interleaving of their storage operations and when some of them hit storage faults.",
 ["schedules", "fault_sequences", "histories"], "every interleaving at storage-operation granularity of 2..4 threads, each with its own handle, any operations, faults hitting one of them",
 NOT + " No test uses threads.", [TD, PD, DM, FN], [("per-handle state", TD + " TData, " + PD + " PData")], ["results per thread"], WIN, HOOK)
prop("P28", "Streaming reads storage once per pass and an interrupt stops work promptly",
 "A forward pass over a dataset, by reads or by an analysis with one cursor, reads every stored timestep at most once (time-ordered layout) or every stored track about once per window (particle-ordered layout), however large the dataset is compared to the window, and it ends: the storage operations are bounded by the size of the dataset. A pending interrupt stops an analysis before it has processed another timestep, and a conversion within the documented batch of files or lines.",
 ["schedules", "fault_sequences", "histories", "configurations"], "every dataset and window size, every analysis and converter, an interrupt pending from any point on",
 NOT, [TD, PD, FN, MX, CO, EX, CV, UT], [("window refill", TD + "/" + PD + " buffer"), ("interrupt check", UT + " check_signals!, used in every loop")], ["storage operations counted per call"], WIN, HOOK)

prop("P29", "Interpolating CSV tracks gives constant time steps along the recorded path",
 "With interpolation, every track of a CSV conversion (single, with ids, chained) is stored at equally spaced times from its first recorded time (a single track: from zero) to the last, as many as the longest track has rows (less those at either end a velocity fit leaves out). At each of these times the particle is where its recorded positions around that time put it: exactly on the path if it moves at constant velocity, else between the recorded positions next to that time, however unevenly, sparsely or in bursts it was recorded, and never undefined within the recorded time. The velocity is that of the interpolated positions (stated for tracks that cover the same time).",
 ["inputs", "schedules", "fault_sequences"], "every track length, every spacing of the recorded times, several tracks with different samples, every split or failing read",
 NOT, [CT, CV, "src/converter/csv_modes/csv_multi_idline.rs", "src/converter/csv_modes/csv_multi_chain.rs"], [("interpolation", CT + " interpolate, interpolate_step"), ("callers", CV + " csv_converter; csv_multi_idline, csv_multi_chain")], ["the dataset written"])
prop("P30", "Plots show the field they are made of, where its cells are",
 "A plot of a field shows every cell of the chosen plane (a layer of the grid, or the average along the axis) at the place of that cell, with the value the field has there (of a vector field its length in the plane): arrows start at the places of the cells, point along the vector, have their head at the tip and are as long as the vector or as the scaling mode asks for (at least, at most, half or all of a cell for the longest), arrows of unit vectors differ from each other in direction only, the colours are those of the named colour map, in any case, from the least to the most, parity maps and contours show the difference of two fields cell by cell, parity plots every pair of values and the line on which they are equal. A program in Rust may scale all arrows by one factor, stretch the first axis, compare whole fields, and show differences as they are, by size or in percent of the reference; style and layout are those that were asked for, a saved figure is as wide as the paper between the borders at the resolution, and arguments that make no sense are refused, while the field is the same afterwards, and neither earlier plots nor faults change what a plot shows.",
 ["inputs", "fault_sequences", "histories"], "every field of an analysis over any dataset (faults while it is made included), every kind of plot, plane, scaling mode, size, colour map, style and layout, after any other plots", "No test makes a plot; unit tests compare single cells of square grids, where swapped axes do not show.", ["up4/plotting.py", "src/pylib/libplot.rs", "src/plotting.rs", "src/plotting/plotting_2d.rs", "src/plotting/plotting_2d/quiver.rs", "src/plotting/plotting_2d/unit_vector.rs", "src/plotting/plotting_2d/scalar_map.rs", "src/plotting/plotting_2d/parity_map.rs", "src/plotting/plotting_2d/parity_contour.rs", "src/plotting/plotting_2d/parity_plot.rs"],
 [("what Python calls", "up4/plotting.py Plotter2D; src/pylib/libplot.rs"), ("cells, axes, scaling", "src/plotting/plotting_2d.rs"), ("arrows and maps", "src/plotting/plotting_2d/")], ["the traces of every figure"], WIN, HOOK)
prop("P31", "Removing outliers from a field changes only the cells above the threshold",
 "Removing outliers from any field an analysis returned sets exactly the cells whose value is above the threshold: to zero, to the threshold, or to the mean of the cells around them that lie within the grid, wherever in the grid they are; every other cell, cells without a value and exactly at the threshold included, keeps value and weight. It does not depend on how the field was read.",
 ["inputs", "fault_sequences"], "every field, grid, threshold and mode", "Needs fields computed over datasets; the test file says TODO.", [CG, CY],
 [("outliers", CG + " outlier_removal; " + CY + " outlier_removal")])
prop("P32", "Comparing two fields is symmetric where it should be and zero on itself",
 "Comparing a field with itself gives no difference, and swapping the two fields changes the result only as documented.",
 ["inputs"], "every pair of grids", "Pure functions of two grids; no test covers them.", ["src/comparison.rs"], [("comparison", "src/comparison.rs Compare")])
prop("P33", "A fitted velocity is the slope of the parabola through the rows around it",
 "When a CSV conversion computes velocities, the velocity of every stored row is the slope, at the row's own time, of the second-degree polynomial that fits the positions of the window of rows centred on it best (sampling_steps rows for a single track, nine otherwise), for any positions and any spacing of the times; row, time and position belong together, the half windows at either end are left out, and no other row is. This holds in every conversion mode and also for tracks so long that their velocities are computed in parallel.",
 ["inputs", "schedules", "fault_sequences"], "every track, window, spacing of times, conversion mode and number of rows, serial and parallel computation, every split or failing read",
 NOT, [CT, "src/converter/convertertools/velocity_paralell.rs", CV, "src/converter/csv_modes/csv_multi_idline.rs", "src/converter/csv_modes/csv_multi_chain.rs"], [("fit", CT + " velocity_polynom"), ("parallel fit", "src/converter/convertertools/velocity_paralell.rs velocity_polynom_parallel")], ["the dataset written"], None, "--cfg up4_sim: rows from which velocities are computed in parallel")
prop("P34", "A layer, average or single value of a field stands for the samples in it",
 "Of every field an analysis returns, on Cartesian and cylindrical grids alike: the layer at an index or at a position along an axis is exactly the layer of cells that contains it, both outer walls included; the average over one or two axes, in either order of the axes, is the mean of the cells along them weighted by their samples, cells without a value count nothing and a line without samples has no value; the summed weights belong to it; and the value at a position is that of the cell which contains it, none outside. The result does not depend on what was read before or on the window.",
 ["inputs", "fault_sequences"], "every field, grid, axis, pair of axes, position and history of the handle",
 "Needs a field computed over a dataset; no test opens one, and the tests of the grids use one grid each.", ["src/grid/cartesian_grid.rs", "src/grid/cylindrical_grid.rs", "src/functions/fields.rs"], [("layers", "src/grid/cartesian_grid.rs slice; src/grid/cylindrical_grid.rs slice"), ("averages", "collapse, collapse_two and their weights in both")])
PL, LG, LC, PG = "src/pylib.rs", "src/pylib/libgrid.rs", "src/pylib/libconv.rs", "up4/grid.py"
prop("P35", "A call from Python gives what the library itself gives for it",
 "Every analysis method of the Python class Data returns the values, weights, positions, layers and averages that the library underneath computes for the same dataset, grid, arguments and time range, on a fresh handle: arguments given by place, by name or left to their documented defaults mean the same, the time range set last on this object (and on no other) applies to every analysis, the grid passed in is left as it was, and what the library refuses, or a storage fault or interrupt cuts short, raises an exception. A field described in words (str, repr) tells mean, deviation, minimum and maximum of the cells that hold a number. The facts an object tells (dimensions, extreme positions, number of particles and timesteps, times, description) are those the dataset stores.",
 ["histories", "inputs", "configurations", "fault_sequences"], "every history of calls on one or two Data objects over any dataset in either layout, every grid, argument, time range and place of a fault",
 NOT + " The Python tests need files that are not there; no test calls an analysis from Python.", [PL, LG, FN, MX, CO, EX],
 [("methods of Data", PL + " PyData"), ("fields in Python", LG + " PyGrid, PyVecGrid"), ("time range", PL + " set_time")], ["values and exceptions in Python"], WIN, HOOK + "; --cfg up4_sim_python: the Python layer in simulation builds")
prop("P36", "Data indexed, sliced or iterated in Python is the sequence of its timesteps",
 "A Data object in Python is a sequence of its timesteps: d[i] is the table of timestep i (id, position, velocity of each particle as stored) for every index from -len(d) to len(d)-1, negative ones counting from the end; a slice, with any start, stop and step including negative ones, and a list or array of indices hold exactly the timesteps a Python sequence would give, in that order; any other index raises IndexError and a step of zero ValueError; iterating visits every timestep once, in order, and ends. Neither the window nor earlier calls or storage faults change this.",
 ["inputs", "histories", "fault_sequences", "configurations"], "every index, slice and list of indices, at every point of every history of calls and storage faults, both layouts, every window size",
 NOT + " No test indexes a Data object.", [PL, TD, PD], [("indexing", PL + " PyData __getitem__, __len__"), ("window refill", TD + "/" + PD + " get_timestep")], ["arrays and exceptions in Python"], WIN, HOOK + "; --cfg up4_sim_python")
prop("P37", "A grid made in Python covers the region and has the cells that were asked for",
 "up4.Grid(...) gives a grid of the style asked for, over exactly the region asked for: the limits given, or those given for single axes and the extent of the data along the others, or the whole extent of the data; with the number of cells given, or per axis as many whole cells of the given size as the region holds, or the default. Negative limits, limits given with a data object and lists or arrays are all accepted, and every sample of the data inside that region is counted in the grid. Arguments that do not say where the grid is, or have the wrong number of values or the wrong order, are refused.",
 ["inputs", "histories", "configurations"], "every combination of data, limits, single axes, cell numbers and sizes, style and argument type, for every dataset and history of the handle",
 "The tests of the Python layer need a dataset that is not there.", [PG, LG, CG, CY], [("arguments", PG + " Grid, calc_num_cells"), ("grids", LG + " PyGrid cartesian3d, cylindrical3d, *_from_data")], ["positions, shape and counts of the grid in Python"], WIN, HOOK + "; --cfg up4_sim_python")
prop("P38", "A conversion started from Python does what its arguments say, or raises",
 "Converter.vtk, vtk_from_folder, csv, csv_multi and csv_multi_files make the dataset that the conversion they name makes of the same input: each argument (columns, delimiter, header, comment, fitting, interpolation, radius, sampling steps, method, filter, field names, radius or diameter) reaches it whether given by place, by name or left to its documented default, the extension in the filter selects the kind of VTK file, and the dataset holds the input completely. A missing file or folder, an unknown method or extension, an even number of sampling steps, a storage fault or an interrupt raises an exception; returning means the dataset was made.",
 ["inputs", "configurations", "fault_sequences", "schedules"], "every converter, every combination of given and omitted arguments, every input and listing order, every split, interrupted or failing read, failing writes and interrupts",
 NOT + " No test converts anything from Python.", [LC, CV, CT], [("arguments and dispatch", LC + " PyConverter"), ("conversion", CV)], ["the dataset written; exceptions in Python"], None, "--cfg up4_sim_python")
prop("P39", "A grid filled by the user's own loop holds exactly what was put into it",
 "A user who writes an analysis of their own - a loop over the timesteps of a dataset that puts a value per particle into a Cartesian, cylindrical or vector grid - gets what a plain table would hold, whatever the window, earlier calls and failed reads did: add_value and add_to_cell add the value to the cell of the position and count one sample, insert replaces the value and counts none, a trajectory on a Cartesian grid counts half in the cell it starts from and half in the one it ends in (on a cylindrical grid wholly in the first) and nothing when an end is outside; positions outside of the grid or NaN change nothing; division by a number, an array or the weights, set_data and set_weights, a copy and an empty copy (new_zeros) do just that and leave every other grid alone; data of another shape is refused and changes nothing. A loop cut by a storage error leaves the timesteps before it in the grid and can be taken up again. get_value, is_inside and cell_id tell the same for every position, and the description (Display, Debug) tells cells, limits, mean, deviation, minimum and maximum of the cells that hold a number; a vector grid does all this for its three components.",
 ["histories", "inputs", "fault_sequences"], "every history of fillings, changes, copies, reads and storage faults, every dataset, grid, position and value",
 "The tests of the grids set an array of zeros; no test puts a value in or reads a dataset.", [CG, CY, "src/grid/vector_grid.rs", TD, PD], [("filling", CG + " add_value, add_to_cell, insert, add_trajectory_value; " + CY), ("three components", "src/grid/vector_grid.rs"), ("timesteps", TD + " get_timestep; " + PD)], ["cells, weights, values at positions and description of the grids"], WIN, HOOK)
prop("P40", "Reading a dataset takes memory for the windows, not for the dataset",
 "However large the dataset and however many timesteps, passes and analyses a session goes through, a handle holds no more than the window of timesteps that is being read, the list of the times, and one window for each cursor opened beside it: nothing piles up from read to read, call to call, refill to refill or failed read to failed read, in either layout. During an analysis there are, beside that, the cells of its grid, the timesteps it works on and the result it gives; once it is done or has failed, and its user has dropped the result, all of that is given back.",
 ["histories", "inputs", "fault_sequences", "configurations"], "every history of reads, passes, cursors, analyses, storage faults and interrupts on datasets much larger than a window, both layouts, every window size",
 "The tests read datasets that fit into one window, and none looks at the memory taken.", [TD, PD], [("window and cursors", TD + " update, update_extra, setup_buffer"), ("window by particle", PD + " update, update_extra, setup_buffer")], ["bytes held after and during every operation"], WIN, HOOK)
prop("P41", "Conversions in different threads do not influence each other or the readers",
 "Several conversions - of VTK files of either kind and of CSV files in every mode - that run in different threads of one process at the same time, each with inputs and an output of its own, and readers of other datasets beside them, each give exactly what they give alone: the same dataset, attribute for attribute and value for value, or the same failure. This holds for every interleaving of their reads and writes, for every order in which files and directories are listed and however reads are split, and when some of them are cut short by a storage error or an interrupt: only the one that was hit fails.",
 ["schedules", "fault_sequences", "inputs", "histories"], "every interleaving of 2..4 threads at every storage operation, read and directory entry, any converters, inputs and readers, faults and interrupts in some of them",
 "No test runs a conversion, none uses threads.", [CV, CT, LT, XT, "src/converter/csv_modes/csv_multi_file_time_step.rs", "src/converter/csv_modes/csv_multi_chain.rs", TD, PD], [("state of a conversion", CV + " write_hdf5_from_files, csv_converter; src/converter/csv_modes"), ("state of a handle", TD + " TData; " + PD + " PData")], ["the converted datasets and the results of the readers"], [], HOOK)
prop("P42", "Reading, analysing and converting change nothing but the output",
 "Whatever a session reads, analyses or converts, and whatever storage errors, full disks, interrupts or crashes cut it short: a dataset that is read stays as it is and is not opened for writing, so that raw data may lie on a medium that can only be read; the files a conversion reads (VTK files of either kind, CSV files, their folder) stay as they are, byte for byte; and no file is made, changed, renamed or removed, in these folders or elsewhere, but the one output the conversion was given. Asking for a dataset, timestep or file that does not exist makes nothing either.",
 ["histories", "inputs", "fault_sequences", "crash_points"], "every history of opening, reading, analyses and conversions, every fault and crash in them, every converter and layout",
 "No test looks at a file after a call.", [TD, PD, FN, CV, CT, LT, XT, "src/converter/csv_modes/csv_multi_file_time_step.rs", "src/converter/csv_modes/csv_multi_chain.rs", "src/converter/csv_modes/csv_multi_idline.rs"], [("reading", TD + " TData::new; " + PD + " PData::new"), ("output", CV + " write_hdf5_from_files, csv_converter; src/converter/csv_modes")], ["the disk before and after every call, and the calls that would change it"], [], HOOK)
prop("P43", "Files are closed when their user is done with them, and few are open at a time",
 "Through any history of opening, reading, cursors set up again and again, analyses, failed opens and failed reads, a handle on a dataset keeps one file open (with little beside it, and one for each cursor at most), and when the handle is dropped nothing of it stays open, so that the dataset can be replaced, moved or opened by another program. A conversion reads its input files a few at a time however many there are, and when it has ended - with success, by a storage error, a full disk or an interrupt - neither its output nor any input is open. Long sessions and folders of many files thus do not run out of files a process may open.",
 ["histories", "inputs", "fault_sequences"], "every history of opening, reading, cursors, analyses and conversions of any number of files, every fault and interrupt in them, both layouts",
 "No test opens more than one file or looks at what is open afterwards.", [TD, PD, FN, CV, CT, LT, XT, "src/converter/csv_modes/csv_multi_file_time_step.rs", "src/converter/csv_modes/csv_multi_chain.rs", "src/converter/csv_modes/csv_multi_idline.rs"], [("handle on a dataset", TD + " TData; " + PD + " PData"), ("files of a conversion", CV + " write_hdf5_from_files, csv_converter; src/converter/csv_modes")], ["files open during and after every call"], WIN, HOOK)
with open(OUT, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
