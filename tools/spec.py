#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR, DE, HE = "marEx/track.py", "marEx/detect.py", "marEx/helper.py"
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, level, note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, level=level, note=note, claimed=claimed, reason=reason))


CONF = "trusts numpy/scipy/dask/xarray, the synchronous dask scheduler, and small-scope reasoning beyond the stated bounds"

p("T01", "Tracking labels exactly the extreme cells that survive preprocessing",
  "After tracking, the cells carrying a positive event ID are exactly the cells of the hole-filled, gap-filled, area-filtered and masked input: no such cell is lost and no other cell is labelled, "
  "whichever grid kind, merge mode, partitioning mode, overlap threshold, chunking or land mask is used. IDs are integers and zero everywhere else.",
  ["inputs", "configurations"], "every binary space-time field and every mask", "tests compare aggregate counts on one synthetic field; a lost cell in a rare merge topology is invisible to them",
  [TR], [{"name": "partitioning and relabelling of merged objects", "where": "marEx/track.py split_and_merge_objects, rename_objects_iteratively"},
         {"name": "2D/3D labelling with seam joining", "where": "marEx/track.py identify_objects"}],
  "bounded exhaustive exploration of the real tracker over all small histories and masks", "exploration",
  "All cell subsets of the bounded grids and all small masks, in four configurations, on the real code; " + CONF)

p("T02", "Event identity equals the overlap graph after merge partitioning",
  "On structured grids with merging enabled, two objects of consecutive time steps belong to one event iff they are connected through links whose overlap, as a fraction of the smaller object's size in cells, reaches the overlap threshold, "
  "after every object with several such predecessors has been divided between them. Distinct connected histories never share an ID, event IDs are contiguous from 1, and the reported number of events matches.",
  ["histories", "inputs", "configurations"], "every sequence of object configurations (births, deaths, splits, merges, simultaneous merge and split), every threshold",
  "tests sample a few merge shapes; the outcome depends on the whole history of splits and merges",
  [TR], [{"name": "overlap search, threshold, partitioning, consolidation, event clustering", "where": "marEx/track.py find_overlapping_objects, enforce_overlap_threshold, split_and_merge_objects, consolidate_object_ids, cluster_rename_objects_and_props"}],
  "explicit-state reference model of tracking; every bounded history replayed on the real tracker and compared", "model_checking",
  "All bounded histories in model and implementation with full event-partition comparison; equidistant cells may go either way; " + CONF)

p("T03", "Merging objects are divided by nearest parent",
  "On structured grids, when an object overlaps several objects of the previous step sufficiently, every one of its cells is given to a parent at minimal distance: distance to the parent's nearest cell in nearest-neighbour mode (falling back to parent centroids beyond the search radius), "
  "distance to the parent's centroid otherwise. Distances are in grid cells, periodic in longitude on global grids and not periodic in regional mode; ties may go either way.",
  ["inputs", "configurations"], "every placement, size and number of parents and every child shape, on any grid size",
  "tests check that partitioning returns something, not that each cell went to the nearest parent",
  [TR], [{"name": "spatial partition functions", "where": "marEx/track.py partition_nn_grid, partition_centroid and the periodic wrapping around them"}],
  "bounded exhaustive exploration of parent placements on the real tracker against a brute-force distance oracle", "exploration",
  "All placements of 2-3 parents from a size menu on small, wide and tall grids; " + CONF)

p("T04", "Tracking results do not depend on how the time axis is chunked",
  "On structured grids, for the same input and parameters, events, event properties and merge records are the same (up to renumbering of IDs) for every partition of the time axis into chunks, including single-step chunks and uneven trailing chunks.",
  ["schedules", "inputs"], "every composition of the time axis into chunks, for every history",
  "tests use one or two chunk sizes and compare counts",
  [TR], [{"name": "chunk-boundary overlaps, iterative merging across chunks, consolidation", "where": "marEx/track.py find_overlapping_objects, split_and_merge_objects, consolidate_object_ids, identify_objects, fill_time_gaps"}],
  "exhaustive enumeration of chunk compositions on the real tracker (differential)", "exploration",
  "All compositions of the bounded time axis for every history of the menu, compared with the single-chunk run; " + CONF)

p("T05", "Longitude is periodic on global grids and bounded in regional mode",
  "On a global grid, rotating the input by any number of columns rotates the tracked events and their properties and changes nothing else; objects touching across the first/last column are one object. "
  "In regional mode the first and last column are never treated as neighbours, and latitude is never periodic.",
  ["inputs", "configurations"], "every field and every rotation", "tests place few objects across the seam and never compare against a rotated run",
  [TR], [{"name": "seam joining, periodic distances and overlaps, wrapped centroids", "where": "marEx/track.py identify_objects, fill_holes, partition_*, calculate_centroid"}],
  "exhaustive rotation-equivariance exploration on the real tracker", "exploration", "All bounded histories in all rotations; " + CONF)

p("T06", "Event properties equal what the ID field implies",
  "For every event and time step, presence, area (sum of the areas of its cells, in the units implied by the given or derived cell areas), area-weighted centroid (periodic in longitude, in the input's longitude convention), start and end time "
  "are those computed from the cells carrying its ID at that step; while the event is absent, area and centroid are missing and presence is false.",
  ["inputs", "configurations"], "every tracked field, grid, coordinate convention and cell-area source",
  "tests check property shapes and a few values on one grid; seam-crossing, single-cell and post-merge properties are not compared cell by cell",
  [TR], [{"name": "object property calculation and post-merge update", "where": "marEx/track.py calculate_object_properties, calculate_centroid, cluster_rename_objects_and_props"}],
  "exhaustive recomputation of properties from the ID field over all bounded histories", "exploration",
  "Every event of every bounded history, three area sources, five coordinate conventions, rings from 3 to 360 columns; " + CONF)

p("T07", "Merge records and merge ledger tell exactly which events merged when",
  "There is exactly one merge record per division of an object between several predecessors, at that time step, with as many parents as predecessors, distinct parents and children, and the overlap areas between each parent and the merged object; padding is marked as missing. "
  "At that step the merge ledger of each event involved lists the events taking part, and nothing is listed elsewhere; the reported merge counts equal the numbers of records.",
  ["histories", "inputs"], "every history with any number of merges and parents", "tests only look at the presence and shape of the merge dataset",
  [TR], [{"name": "merge bookkeeping", "where": "marEx/track.py split_and_merge_objects merge events, run_preprocess/cluster attach of merge_ledger"}],
  "explicit-state reference model of merges; records of every bounded history compared with the real output", "model_checking",
  "All bounded histories containing merges of 2-4 parents; histories with centroid ambiguity are counted inconclusive; " + CONF)

p("T08", "Spatial filling is closing then opening with a disk, at every position",
  "On structured grids, spatial filling with radius R closes and then opens each time step with the disk of that radius, periodically in longitude on global grids, with edges replicated in latitude (and in longitude in regional mode), and then removes land; "
  "the result does not depend on chunking, on the position of an object relative to the seam, or on other time steps.",
  ["inputs", "configurations"], "every binary field, radius, mask and chunking", "tests only check that area grows or attributes exist",
  [TR], [{"name": "binary closing/opening with halo padding", "where": "marEx/track.py fill_holes"}],
  "bounded exhaustive enumeration of fields against an independent morphology oracle", "exploration", "All subsets of small grids and all small objects at all positions of larger ones, R=0..3; " + CONF)

p("T09", "Temporal gap filling bridges exactly gaps up to T_fill steps",
  "With gap filling of n steps, a location whose extremes are separated by at most n steps is made extreme in between, longer gaps stay open, nothing is added before the first or after the last extreme of the series, and the filled steps then pass through the spatial filling; "
  "the result does not depend on time chunking.",
  ["inputs", "configurations", "schedules"], "every binary time series, gap length, chunk boundary placement", "tests use one synthetic series with one chunking",
  [TR], [{"name": "1D temporal closing with boundary handling", "where": "marEx/track.py fill_time_gaps"}],
  "exhaustive enumeration of all binary time series up to a length, all chunkings", "exploration", "All 2^n series for each T_fill, several chunk sizes, on the real tracker; " + CONF)

p("T10", "Area filtering keeps exactly objects at or above the threshold",
  "On structured grids, area filtering keeps an object of a time step iff its size in grid cells is at least the threshold, where the threshold is the given number of cells or the requested percentile of all object sizes; kept objects keep all their cells. "
  "The reported object counts, threshold and accepted-area fraction are those of the objects before and after filtering.",
  ["inputs", "configurations"], "every multiset of object areas, every percentile and absolute threshold", "tests check that counts decrease",
  [TR], [{"name": "area filter", "where": "marEx/track.py filter_small_objects"}],
  "bounded exhaustive enumeration of object-area multisets against a direct oracle", "exploration",
  "All multisets of object sizes to the bound, each percentile; one recorded finding (KF1); " + CONF)

p("T11", "Without merging, events are connected components in space and time",
  "On structured grids with merging disabled, two extreme cells belong to the same event iff they are connected through cells adjacent (including diagonally) in latitude, longitude and time, with longitude periodic on global grids only; IDs are contiguous from 1 and counted correctly.",
  ["inputs", "configurations", "schedules"], "every binary space-time field and time chunking", "tests check one field's event count",
  [TR], [{"name": "3D labelling with periodic boundary", "where": "marEx/track.py identify_objects (time_connectivity)"}],
  "bounded exhaustive exploration of all small space-time fields against a component oracle", "exploration", "All subsets of the bounded grids, global and regional; " + CONF)

p("T12", "Unstructured tracking: footprint, identity, properties, chunk invariance",
  "On an unstructured mesh the labelled cells are exactly the preprocessed extreme cells; events follow overlap links at the overlap threshold after each object with several predecessors is divided between them by nearest parent (mesh hops, or great-circle distance to parent centroids); "
  "areas, centroids, presence, times and merge records equal those the labelled cells imply; and none of it depends on the time chunking, even or uneven.",
  ["histories", "inputs", "schedules"], "every history of cell sets on every mesh, every chunk size", "tests use one small mesh and look at counts",
  [TR], [{"name": "parallel merge processing on unstructured grids", "where": "marEx/track.py split_and_merge_objects_parallel, partition_nn_unstructured, partition_centroid_unstructured"}],
  "explicit-state reference model of unstructured tracking, all bounded histories replayed on the real tracker", "model_checking", "All bounded histories on ring and ladder meshes; " + CONF)

p("T13", "Unstructured morphology and filtering follow the mesh neighbourhood",
  "On an unstructured mesh, hole filling is closing then opening over the neighbour graph with the given number of hops (land counts as extreme while eroding and is removed afterwards), and connected objects are those of the neighbour graph; "
  "area filtering keeps objects at or above the threshold, and missing neighbours never connect anything.",
  ["inputs", "configurations"], "every cell subset of a mesh, every hop radius, every mask", "tests run one mesh",
  [TR], [{"name": "sparse dilation matrix, union-find labelling, unstructured filter", "where": "marEx/track.py fill_holes, identify_objects, filter_small_objects (unstructured)"}],
  "bounded exhaustive enumeration of cell subsets of small meshes against a graph-morphology oracle", "exploration", "All subsets of small meshes, R=0..3; " + CONF)

p("T14", "Tracking is unaffected by units, names, order; inputs stay untouched",
  "Tracking gives the same events and properties whether coordinates are in degrees or radians, whatever the dimension and coordinate names, dimension order, or memory layout of the input, and never modifies the caller's data, mask, coordinates or areas, "
  "whether it succeeds or fails.",
  ["configurations", "inputs"], "every combination of unit, naming, order and data", "tests use one convention per test",
  [TR], [{"name": "coordinate handling in tracker.__init__ and result reconstruction", "where": "marEx/track.py tracker.__init__, _detect_coordinate_units, run"}],
  "exhaustive product of representation choices on the real tracker (differential)", "exploration", "Full product of representation choices over a menu of histories; " + CONF)

p("T15", "Preprocessing checkpoints are all-or-nothing across crashes",
  "Whatever point a checkpoint save is interrupted at, and whatever older checkpoint was present, a later load either fails or yields exactly what the last completed save stored; resuming from a complete checkpoint gives the same events as an uninterrupted run.",
  ["crash_points", "histories"], "every filesystem operation of a save as crash point, every sequence of saves and loads to the bound", "tests never interrupt a save",
  [TR], [{"name": "checkpoint save/load", "where": "marEx/track.py run_preprocess checkpoint handling"}],
  "exhaustive crash-point enumeration over the filesystem operations of real saves", "fault_enumeration", "Every file-system mutating call of the save is a crash point, over save histories; " + CONF)

p("T16", "Every tracker configuration is honoured or refused with a typed error",
  "Every combination of tracker settings, data and mask is either refused before tracking with one of the library's own errors, or accepted, recorded in the result's attributes and honoured: the labelled cells are those the settings imply, and leaving a setting out equals passing its documented default. Coordinate units and longitude extent are detected or honoured consistently.",
  ["configurations", "inputs"], "every combination of settings up to the deviation bound", "tests try one flaw at a time",
  [TR], [{"name": "validation and unit detection", "where": "marEx/track.py tracker.__init__, _validate_inputs, _unify_coordinates and unit detection, regional_tracker"}],
  "bounded exhaustive exploration of the configuration space against a decision table", "exploration", "All configurations up to the deviation bound on the real tracker; " + CONF)

p("T17", "Tracking does not depend on the order in which chunk tasks run",
  "Whatever order the scheduler runs the chunk tasks of a tracking run in, as long as each task follows those it depends on, the events, their properties, the merge records and the attributes are the same; the caller's input is never changed. This holds on gridded and unstructured meshes, with and without merging, filling and filtering.",
  ["schedules", "configurations"], "every admissible order of every task graph the run submits", "tests run whatever order one scheduler happens to take",
  [TR], [{"name": "per-chunk block functions and zarr region updates", "where": "marEx/track.py block functions passed to apply_ufunc/map_blocks/map_overlap, update_object_id_field_zarr"}],
  "controlled task scheduler with dynamic partial-order reduction on the real task graphs", "model_checking", "All orders of conflicting tasks, conflicts observed through block digests and file audit events; state hidden in Python closures is only exercised by the five extreme orders; " + CONF)

p("D01", "Fixed-baseline anomalies are departures from the day-of-year mean",
  "With the fixed baseline, the anomaly at each time and location is the value minus the mean over all years of that location's values on the same day of year, for every calendar, gap and start date; optionally detrended first, by the requested polynomial orders.",
  ["inputs", "configurations"], "every series, calendar position, start day, series length", "tests check statistics of one noisy dataset",
  [DE], [{"name": "fixed baseline", "where": "marEx/detect.py _compute_anomaly_fixed_baseline, _compute_anomaly_detrend_fixed_baseline"}],
  "bounded exhaustive enumeration of calendars and impulse/basis series (linearity) on the real code", "exploration", "Complete impulse basis (the map is linear) for each enumerated calendar; " + CONF)

p("D02", "Shifting-baseline anomalies use exactly the preceding years, smoothed",
  "With the shifting baseline, the anomaly at a time is the value minus the mean, over the given number of immediately preceding years, of the centred moving-average-smoothed values on the same day of year. Years without a complete history are dropped from the output (input leaving no year is refused), "
  "and no value from the same or a later year influences the baseline except through smoothing.",
  ["inputs", "configurations"], "every series, window, smoothing length and calendar", "tests check output shape and rough magnitude",
  [DE], [{"name": "rolling climatology", "where": "marEx/detect.py rolling_climatology, smoothed_rolling_climatology, _compute_anomaly_shifting_baseline"}],
  "bounded exhaustive enumeration of windows and impulse series on the real code", "exploration", "Impulse basis over series positions for each window configuration; " + CONF)

p("D03", "Harmonic detrending is least squares, leaves exact signals at zero",
  "Harmonic detrending removes exactly the least-squares fit of the requested polynomial orders (in time), the constant and the annual and semi-annual harmonics: any combination of these gives zero anomalies, residuals are orthogonal to all of them, and anomalies of a sum are the sum of anomalies. "
  "The standardised variant divides by the day-of-year standard deviation smoothed over 30 days and nothing else.",
  ["inputs", "configurations"], "every series, set of polynomial orders, length and calendar", "tests check mean and trend of one series",
  [DE], [{"name": "design matrix and pseudo-inverse", "where": "marEx/detect.py _compute_anomaly_detrended"}],
  "exhaustive impulse-basis exploration of the linear detrending map for every order subset", "exploration", "All subsets of detrend orders, impulse basis, orthogonality oracle; " + CONF)

p("D04", "Global thresholds are the requested percentile of each location's anomalies",
  "The global threshold of a location is the requested percentile of its own anomaly series: exactly in exact mode, and within one histogram bin in approximate mode when the percentile lies inside the histogram range (a negative percentile gives the smallest positive edge, one beyond the range the top of the range). Values beyond the range still count, and missing values and other locations do not disturb it.",
  ["inputs", "configurations"], "every multiset of anomaly values, percentile, precision", "tests compare exact and approximate means loosely",
  [DE], [{"name": "histogram quantile", "where": "marEx/detect.py compute_histogram_quantile_1d, _compute_histogram_quantile_1d, _identify_extremes_constant"}],
  "bounded exhaustive enumeration of value multisets over a value alphabet", "exploration", "All multisets over a value alphabet including bin edges and out-of-range values; " + CONF)

p("D05", "Day-of-year thresholds pool exactly the window around each calendar day",
  "In exact mode the threshold for a calendar day is exactly the requested percentile of the anomalies within the centred window of consecutive days around each of its occurrences. In approximate mode it is, within two histogram bins, that of the anomalies on the window of calendar days around it (wrapping across the year end) over all years and within the spatial window (periodic in longitude, cut off in latitude). No other value influences it.",
  ["inputs", "configurations"], "every series, day, window length, spatial window", "tests check seasonal shape only",
  [DE], [{"name": "hobday percentile", "where": "marEx/detect.py _identify_extremes_hobday, compute_histogram_quantile_2d"}],
  "exhaustive impulse-influence exploration: for each perturbed input, the set of affected thresholds is compared with the window definition", "exploration", "All day positions and window sizes in the bound; " + CONF)

p("D06", "An extreme is flagged iff the anomaly reaches its threshold, on ocean only",
  "A time and location is flagged extreme iff its anomaly is at least the threshold that applies to it (its location, and its day of year for day-of-year thresholds); land and locations with a missing threshold are never flagged, the reported mask is true exactly where the input is valid, and the pipeline gives what its stages give when run one after the other with the same settings.",
  ["inputs", "configurations"], "every field of anomalies and thresholds, every land pattern, every method combination", "tests check the overall frequency of extremes",
  [DE], [{"name": "comparison and mask", "where": "marEx/detect.py identify_extremes, preprocess_data"}],
  "exhaustive method x land-mask product on the real pipeline, recomputed from its own outputs", "exploration", "All method combinations and land masks in the bound; " + CONF)

p("D07", "Detection results do not depend on chunking or temporary checkpoints",
  "Anomalies, thresholds, mask and extremes are the same for every spatial and temporal chunking of the input and whether or not temporary on-disk checkpoints are used; a failing disk operation leads to the same results or to an error, never to different results.",
  ["schedules", "fault_sequences", "configurations"], "every chunking, every failing disk operation", "tests use one chunking and never fail the disk",
  [DE, HE], [{"name": "rechunking, checkpoint_to_zarr", "where": "marEx/detect.py preprocess_data, marEx/helper.py checkpoint_to_zarr"}],
  "exhaustive enumeration of chunkings and of single disk faults on the real pipeline", "fault_enumeration", "All chunk compositions of the bounded grid; every write failing once; " + CONF)

p("D08", "Invalid input is rejected and valid input accepted, wherever the flaw sits",
  "A location that is valid at the first time step but missing or infinite at any later step makes detection fail with a data error, wherever it is; locations missing throughout are treated as land; input with no valid location at the first step is rejected; everything else is accepted.",
  ["inputs"], "every placement of missing or infinite values in space and time", "tests try a few placements",
  [DE], [{"name": "NaN validation", "where": "marEx/detect.py preprocess_data, _validate..."}],
  "exhaustive enumeration of flaw placements on the real pipeline", "exploration", "Every (time, location) placement of each flaw kind on the bounded field; " + CONF)

p("D09", "Every detection configuration is honoured or refused with a typed error",
  "Each combination of method names and parameters either runs and records exactly the requested settings in its output, or is refused with the library's own configuration or data error before computing anything; contradictory settings are never silently ignored.",
  ["configurations"], "the full product of documented options", "tests try individual options",
  [DE], [{"name": "parameter validation", "where": "marEx/detect.py preprocess_data, compute_normalised_anomaly, identify_extremes validation"}],
  "exhaustive product of configuration values against a decision table", "exploration", "Full product of the option alphabet; " + CONF)

p("D10", "Detection is unaffected by names, order and dtype; inputs stay untouched",
  "Detection gives the same anomalies, thresholds, mask and extremes whatever the dimension and coordinate names, dimension order and floating-point type of the input, and never modifies the caller's data, coordinates or attributes, whether it succeeds or fails.",
  ["configurations", "inputs"], "every combination of naming, order, type and method", "tests use one convention",
  [DE], [{"name": "dimension/coordinate mapping", "where": "marEx/detect.py preprocess_data and the stages, _infer_dims_coords"}],
  "exhaustive product of representation choices on the real pipeline (differential)", "exploration", "Full product of representation choices and methods; " + CONF)

p("D11", "Detection does not depend on task order and can be recomputed",
  "Whatever order the scheduler runs the chunk tasks of a detection run in, as long as each task follows those it depends on, anomalies, thresholds, masks and extreme events are the same, and computing the returned lazy dataset again yields the same values. The caller's input is never changed.",
  ["schedules", "configurations"], "every admissible order of every task graph the run submits", "tests run whatever order one scheduler happens to take, once",
  [DE, HE], [{"name": "per-chunk block functions, temporary checkpoints", "where": "marEx/detect.py block functions passed to apply_ufunc/map_blocks/rolling, marEx/helper.py checkpoint_to_zarr"}],
  "controlled task scheduler with dynamic partial-order reduction on the real task graphs", "model_checking", "All orders of conflicting tasks, conflicts observed through block digests and file audit events; state hidden in Python closures is only exercised by the five extreme orders; " + CONF)

p("S01", "Logging configuration is a consistent state machine",
  "After any sequence of logging configuration calls (verbose, quiet, normal, configure), the effective level and verbosity queries reflect exactly the last call, exactly one set of handlers is active, and messages reach each configured destination once.",
  ["histories"], "every sequence of configuration calls", "tests exercise single transitions",
  ["marEx/logging_config.py"], [{"name": "global verbosity state", "where": "marEx/logging_config.py configure_logging, set_verbose_mode, set_quiet_mode, set_normal_logging"}],
  "exhaustive exploration of operation sequences on the real module against an explicit-state model", "model_checking", "All operation sequences to the depth; " + CONF)

p("S02", "Plot grid selection follows the last specification and the data",
  "After any sequence of grid specifications and plots, a field is drawn on the grid given with that plot, else on the grid last specified, else on the grid its own dimensions imply; a rejected specification changes nothing. Triangulations and interpolation tables read from one grid file are never used for another, and are read anew once the cache is cleared.",
  ["histories", "inputs"], "every sequence of specifications, plots and cache clearing", "tests exercise single selections",
  ["marEx/plotX/__init__.py", "marEx/plotX/base.py", "marEx/plotX/unstructured.py"], [{"name": "grid registry and caches", "where": "marEx/plotX/base.py, marEx/plotX/__init__.py, marEx/plotX/unstructured.py"}],
  "exhaustive exploration of specification/plot sequences on the real module against an explicit-state model", "model_checking", "All operation sequences to the depth; what reaches the axes is compared with the model; " + CONF)

p("S03", "Library errors keep one hierarchy, message and context",
  "Every error the library defines derives from its base error; its text and attributes always hold the message, details, error code and every suggestion and context item it was given, also those added later, also after being sent between processes. Errors never modify or share the caller's lists and dictionaries, and wrapping a foreign error keeps the original as cause.",
  ["inputs", "histories"], "every error class, combination of optional parts and sequence of later additions, copies and transfers", "tests construct a few errors and look at single attributes",
  ["marEx/exceptions.py"], [{"name": "exception classes and constructors", "where": "marEx/exceptions.py MarExError, create_*_error, wrap_exception"}],
  "exhaustive exploration of operation sequences on the real error objects against an explicit-state model", "model_checking", "All operation sequences to the depth for every combination of parts; " + CONF)

p("S04", "Plots show each value at its own place, in the requested colours",
  "In single plots, panels and animations, every value of the given field (and no other) is drawn at the coordinates it belongs to, in time order, with the requested colour limits, whichever the grid kind, dimension order and names, longitude origin, latitude direction or missing values. The caller's data is left unchanged.",
  ["inputs", "configurations"], "every grid layout, dimension order, naming, time axis and colour setting", "tests check that a figure is produced, not what it shows",
  ["marEx/plotX/base.py", "marEx/plotX/gridded.py", "marEx/plotX/unstructured.py"], [{"name": "drawing, wrapping, colour limits, panels and frames", "where": "marEx/plotX/base.py single_plot, multi_plot, animate, clim_robust, setup_plot_params; marEx/plotX/gridded.py plot, wrap_lon; marEx/plotX/unstructured.py plot"}],
  "bounded exhaustive product of layouts and settings on the real plotters, observed at the axes", "exploration", "Full products of the listed choices; " + CONF)

p("S05", "Dependency reporting reflects what can be imported",
  "For every combination of installed optional packages, availability queries, the installation profile and the status report tell exactly which are importable, and requiring packages fails with an import error naming exactly the missing ones.",
  ["configurations"], "every subset of the optional packages", "tests run with everything installed",
  ["marEx/_dependencies.py"], [{"name": "dependency tracker", "where": "marEx/_dependencies.py DependencyTracker"}],
  "exhaustive enumeration of installation states under a controlled import system", "exploration", "All 512 installation states; " + CONF)

p("S06", "Cluster helpers request exactly what was asked and keep their scratch space",
  "Starting a local or SLURM cluster requests exactly the given number of workers, threads, workers per node, node memory, wall time, queue, account, dashboard port and further options, with the given verbosity; unsupported node memory or a missing job-queue package is refused with a typed error before anything is started or changed. "
  "Temporary files go to a fresh directory inside the given scratch directory, which exists exactly as long as the returned client or handle; Dask's temporary directory is that of the last start, and the caller's Dask settings override the library's defaults.",
  ["histories", "configurations"], "every combination of requests and every sequence of configuring, starting, refused starts and releases", "clusters are not started in tests; these functions are excluded from coverage",
  [HE], [{"name": "cluster starters and Dask configuration", "where": "marEx/helper.py configure_dask, start_local_cluster, start_distributed_cluster"}],
  "exhaustive exploration of request products and operation sequences on the real helpers with recording stand-ins, against an explicit-state model", "model_checking", "Cluster classes are stand-ins that record the request: what a real cluster does with it is not observed; " + CONF)

p("S07", "Logging helpers never change what they observe",
  "Code run inside the timing, call-logging and progress helpers runs exactly once with the given arguments, and its result or exception reaches the caller unchanged, in every verbosity mode and any nesting. The start of each operation is logged once, and so is its completion or its failure with the reason; progress is logged at every multiple of the requested percentage and at the end, and never in quiet mode.",
  ["inputs", "histories"], "every nesting of helpers, mode, outcome and progress count", "tests check single helpers with a succeeding body",
  ["marEx/logging_config.py"], [{"name": "timing, call and progress helpers", "where": "marEx/logging_config.py log_timing, log_function_call, progress_bar, log_progress, log_dask_info, log_memory_usage"}],
  "bounded exhaustive exploration of helper nestings and outcomes on the real module", "exploration", "All nestings to the depth; " + CONF)

if __name__ == "__main__":
    import sys
    sys.path.insert(0, HERE)
    reg = {}
    exec(open(os.path.join(HERE, "mc", "registry.py")).read(), reg)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"], "mechanism": q["mech"]}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
         "notes": "All checks drive the real package from /repo; see DESIGN.md. No hooks in /repo: the machinery substitutes the scheduler and file-system calls from outside."}
    for q in P:
        if q["id"] in reg["CHECKS"] and q["claimed"]:
            m["checks"].append({"property": q["id"], "quick_cmd": f"bash check.sh {q['id']} quick", "thorough_cmd": f"bash check.sh {q['id']} thorough",
                                "technique": q["technique"], "level": q["level"], "level_note": q["note"]})
        else:
            m["not_applicable"].append({"property": q["id"], "reason": q["reason"] or "check not built yet"})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(m["checks"]), "claimed,", [n["property"] for n in m["not_applicable"]])
