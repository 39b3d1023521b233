SIM = "seeded deterministic simulation with fault injection"
TECH = {
"P01": SIM + "; reference model: eager numpy",
"P02": SIM + "; reference model: numpy reductions of the whole array",
"P03": SIM + "; reference model: grouping by independently computed calendar fields",
"P04": SIM + "; reference model: textbook definitions on whole arrays (numpy/scipy)",
"P05": SIM + "; reference model: numpy.linalg.svd of the whole weighted matrix",
"P06": SIM + "; reference model: the operation's definition on the whole array, then sliced",
"P07": SIM + "; reference: an undisturbed twin of the expression",
"P08": SIM + "; every read recorded and bounded by structural dependence and by the limit",
"P16": SIM + "; reference: a freshly built copy of the expression, evaluated once",
}
COMMON = " Search, not proof: a clean batch is evidence over the sampled runs. Trusts numpy, the reference model in sim/ and the CPython interpreter."
NOTE = {
"P01": "Seeded expression programs over simulated sources; memory limit, request sequence, read failures and uninitialised memory decided by the simulator; every result compared with an eager reference model." + COMMON,
"P02": "Reductions (all kinds, weighted and NaN-aware, over any axis set, of programs over simulated sources) under simulator-chosen memory limits and failing reads, against whole-array numpy." + COMMON,
"P03": "Calendar means/deviations/counts/trends/anomalies on generated time axes under simulator-chosen memory limits and failing reads, against an independent grouping by calendar field." + COMMON,
"P04": "Correlation, regressions and significance tests of simulated sources under simulator-chosen memory limits, requests and failing reads, against textbook formulas on whole arrays. Floats only; ill-conditioned fits are skipped." + COMMON,
"P05": "All EOF solvers and SVD on matrices with seeded separated singular values, record axes anywhere, weights, lazy inputs, under simulator-chosen memory limits (which pick the solver and the chunks) and failing reads. Close singular values and limits below one spatial pattern are out of scope; EOF_guess judged exactly only where its truncation is exact." + COMMON,
"P06": "Smoothing, Fourier smoothing, derivatives, differences, integrals, cumulative sums, interpolation and lags of simulated sources: every requested region at every memory limit against that region of the whole-array definition, with failing reads. A pinned subset of call forms (DESIGN.md) where the documentation is ambiguous." + COMMON,
"P07": "Mixed programs of every operation kind over simulated sources; the simulator fails seeded reads (first, later, several; 17 kinds of exception incl. StopIteration, KeyboardInterrupt) and requires the evaluation to raise and the retry to equal an undisturbed twin. Values themselves are P01-P06's business." + COMMON,
"P08": "Elementwise/reshaping programs: every recorded read must lie in the coordinates the region structurally depends on. Reductions, calendar aggregations and statistics: no recorded read above the seeded memory limit. Neighbourhood operations are outside the statement." + COMMON,
"P16": "Seeded histories of evaluations over shared inputs handed out by reference, with failures in between; each step compared with a fresh build, earlier results and inputs with their snapshots." + COMMON,
}
TECH["P14"] = SIM + "; the files' generated contents and a scan without a manifest are the reference"
NOTE["P14"] = 'File sets and histories of edits (changed, replaced by older files, renamed, swapped), simulated clock steps, damaged or restored manifests and scans, each scan possibly under failing opens, disk faults, a crash at a seeded system call or files changing meanwhile. Whatever a scan presents is compared with the files (coverage, coordinates, attributes, values under seeded requests and limits) and with a fresh scan. Files are assumed to change time stamp or size when they change, and to share the origin of each axis.' + COMMON
TECH["P18"] = SIM + '; an undisturbed twin evaluated without an indicator is the reference'
NOTE["P18"] = 'Expressions of every kind (and the analyses, saves, record opens and scans of P04, P09, P12, P14) evaluated with indicators passed in every documented form while a simulated clock stands still, jumps and runs backwards and the stream the bar is drawn on is a terminal, closed, failing or ASCII only; read failures in between. Results must be identical; values reported lie in 0..100 and never decrease within an undisturbed operation; bars appear exactly after the configured time.' + COMMON
TECH["P17"] = SIM + '; the model values of the dataset are the reference for every converted object'
NOTE["P17"] = "Generated datasets (two of the same names; or the files they were saved to) converted by to_xarray under seeded memory limits; regions, several variables at once (both datasets in one graph) and reductions computed through xarray with dask's tasks executed in a seeded order while the limit changes and source reads fail; converted back as is, loaded, rechunked, restricted or twice, then requested like any dataset. Names, dimension order, coordinates, dates, attributes, values; no data read by a conversion; no chunk above the limit. xarray and dask are taken as correct." + COMMON
TECH["P15"] = SIM + '; threads preempted at every line of pygeode, lock, library call and source read; what evaluating alone gives is the reference'
NOTE["P15"] = 'Two to four simulated threads evaluate shared expressions and statistics, read one file through a shared dataset or through datasets of their own (either format), read a record of files, save, report progress, or execute the tasks of a converted xarray object, while some reads fail. Values must be those of the model (as if evaluated alone), saved files complete, no deadlock or livelock, and no two threads inside libnetcdf or the netCDF4 package at once. A violation is minimised to an explicit list of thread switches. numpy and pygeode C extensions are taken as atomic (they hold the interpreter lock).' + COMMON
NA = {
"P19": "Date arithmetic is a pure function of its arguments: no schedule, clock, fault or interleaving for a simulator to decide. (Dates are still checked indirectly wherever simulated runs compare coordinates.)",
}
TECH["P12"] = SIM + "; the record as generated, before it was divided into files, is the reference"
NOTE["P12"] = "Records divided into files (uneven lengths, own reference dates, missing files, static and integer variables), opened with open_multi or openall from real netCDF files or a simulated opener, then a history of requests, vanishing/damaged/returning files, failing opens and reads, and check_multi runs. Values must match the record or the request must raise; no value for a date no file holds; check_multi must report every damage and nothing else. Assumes what open_multi documents: file dates plus a constant offset smaller than the file spacing." + COMMON
TECH["P13"] = SIM + "; reference model: pieces placed by coordinate in a whole array"
NOTE["P13"] = "Concatenation (of slices and of separately stored pieces with their own reference dates), stacking, year split/join, flattening, lags, composites and calendar coercion of simulated sources, every requested region at every memory limit against that region of the whole, with failing reads. Distinct coordinates only; 29 February excluded from year splits." + COMMON
TECH["P09"] = SIM + "; the dataset itself and the netCDF4 package's view of the file are the reference"
NOTE["P09"] = "Datasets of simulated sources of every data type saved under seeded options and memory limits through an interposed file system (simio), then read by the netCDF4 package alone and by a seeded pygeode reader under further limits and requests; names, dimension order, coordinates, dates, values, attributes and missing values compared. Packed values to half a packing step." + COMMON
TECH["P10"] = SIM + "; the dataset and the netCDF4 package's view of the file are the reference"
NOTE["P10"] = "Saves under seeded faults: failing or full disk at any system call below the real libnetcdf/HDF5 (preloaded shim), error codes from any libnetcdf call, failing source reads. Each attempt raises or leaves a complete file; no file stays open; a clean save afterwards works. Leaks and unreported errors inside the libraries themselves are not counted (DESIGN.md)." + COMMON
TECH["P11"] = SIM + "; the saved dataset is the reference for every step of a history"
NOTE["P11"] = "Histories of opens, requests and drops over files written from generated datasets (all versions, packing, fill values), each step under seeded faults: system calls failing below the real libraries, libnetcdf return codes, failing reads of the netCDF4 package. A step raises or returns stored values, an undisturbed step returns them, handles don't accumulate. EIO below HDF5 spoils the library's own cache, so only that step's outcome is judged." + COMMON
TECH["P20"] = SIM + "; reference model: the operation applied to each variable's whole array, and the rules for names"
NOTE["P20"] = "Datasets of simulated variables (colliding names; axes shared, equal, or of one name but different) taken through a seeded sequence of dataset operations; after each: variables, order, names, sharing of axes, coordinates, attributes, earlier datasets unchanged, nothing read; then requests of variables of any stage under seeded memory limits with failing reads, against the model." + COMMON
TECH["P21"] = SIM + "; reference model: the description the file was written from"
NOTE["P21"] = "Files written by the netCDF4 package from seeded descriptions (coordinates of several conventions and calendars, packed, masked, auxiliary, string and scalar variables, groups, five formats), opened by both readers under seeded options, memory limits and disk/library faults; axes, dates, values, attributes compared with the description. Numeric time zones, fractional seconds and year-0 references other than plain ones are not generated." + COMMON
TECH["P22"] = SIM + "; reference model: a table of the elements with everything attached to them"
NOTE["P22"] = "Variables over axes with auxiliary arrays (stations, other non-coordinate axes, hybrid levels, ordinary axes with repeated values, numbers and strings) under a seeded history of selections, slices, permutations, renaming, alignment, concatenation, reductions, saving and opening; after each step and after the requests each element's coordinate, entries and values are compared with the table. Keys with an underscore and two such axes in one variable are not generated." + COMMON
