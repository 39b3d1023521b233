"""Writes properties.jsonl (single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    d["anchors"].update(kw)
    P.append(d)

p("P01", "Lazy expressions equal eager numpy under any memory limit and request",
  "Evaluating any expression built from arithmetic, comparisons, math functions, slicing, selection by coordinate, date or calendar field, axis reordering, sorting, squeezing, extending, renaming, casting and filling yields exactly the values that computing the same expression eagerly with numpy on whole arrays gives. Operands that share an axis are aligned by coordinate value, not by position; operands whose shared axis matches only in part are refused. This holds whichever sub-region is requested, in whichever order requests are made, and whatever the configured memory limit.",
  ["programs", "schedules", "fault_sequences"],
  "all expression DAGs over the elementwise and reshaping operations, all source layouts, all memory limits, all sequences of sub-region requests, with or without failed source reads in between",
  "Unit tests evaluate a few fixed expressions once, whole, at the default memory limit (which no test array reaches), so the sub-region mapping composed across several operations is never exercised.",
  ["pygeode/view.py", "pygeode/var.py", "pygeode/varoperations.py", "pygeode/ufunc.py", "pygeode/tools.py", "pygeode/axis.py", "pygeode/tools.c"],
  [("view mapping and retrieval", "pygeode/view.py View.map_to/get"), ("axis alignment", "pygeode/tools.py combine_axes/can_map, tools.c map_to"),
   ("operation getview methods", "pygeode/varoperations.py, pygeode/ufunc.py")])

p("P02", "Reductions do not depend on how the data is split into chunks",
  "Each reduction (sum, mean, variance, standard deviation, minimum, maximum and their NaN-ignoring forms, argmin, argmax, with and without weights, over any subset of axes) of floating-point data equals its mathematical definition applied to the whole array. The value is the same for every memory limit, for every sub-region requested from the result, and whether the input is in memory or lazy.",
  ["programs", "schedules", "inputs"],
  "all inputs (NaN patterns, weights, axis orders), reduction axes, memory limits (hence chunk schedules), requested sub-regions",
  "The accumulate-over-chunks path only runs with more than one chunk when an array exceeds the memory limit, which the test suite never does.",
  ["pygeode/reduce.py", "pygeode/tools.py", "pygeode/view.py"],
  [("chunk loop", "pygeode/tools.py loopover, pygeode/view.py loop_mem"), ("accumulators", "pygeode/reduce.py *Var.getview")])

p("P03", "Calendar aggregations match grouping by calendar field",
  "Climatologies, daily, monthly, yearly, diurnal and seasonal aggregates (mean, standard deviation and their NaN-ignoring forms where offered) and climatological trends equal the result of grouping the time steps by the stated calendar fields and aggregating each group; removing or adding back a trend is consistent with the fitted coefficients. The result is the same for every memory limit and requested sub-region.",
  ["programs", "schedules", "inputs"],
  "all calendars (standard, 365-day, 360-day), irregular, gappy or leap-day-containing time axes, NaN patterns, memory limits, sub-regions",
  "Tests use regular complete time axes, loaded whole in one chunk.",
  ["pygeode/climat.py", "pygeode/timeaxis.py", "pygeode/timeaxis.c", "pygeode/tools.py", "pygeode/timeutils.py"],
  [("grouped accumulation", "pygeode/climat.py, pygeode/tools.py partial_sum"), ("calendar field grouping", "pygeode/timeaxis.py")])

p("P04", "Statistics equal their definitions for any chunking",
  "Correlation, linear and multiple regression, difference of means, paired difference and mean-is-nonzero tests return the values (coefficients, t-statistics, p-values, confidence intervals) given by their textbook definitions on the whole arrays. The values are the same for every memory limit and requested sub-region, with operands aligned by coordinate.",
  ["programs", "schedules", "inputs"],
  "all pairs of inputs sharing some axes, reduction axes, memory limits, sub-regions",
  "Tests call a few of these on one-chunk inputs.",
  ["pygeode/stats.py", "pygeode/tools.py", "pygeode/view.py"],
  [("single-pass accumulation over chunks", "pygeode/stats.py"), ("multi-variable chunk loop", "pygeode/tools.py loopover")])

p("P05", "EOF and SVD analyses satisfy their defining identities for any chunking",
  "EOF analysis by any of the offered solvers, and SVD analysis, return patterns and time series that reproduce the leading singular values and subspaces of the data matrix, with unit-length mutually orthogonal patterns and consistent explained variances. The result does not depend, beyond rounding and iteration tolerance, on the memory limit or on how the input is split.",
  ["programs", "schedules", "inputs"],
  "all inputs with separated spectra, record axes, weights, solvers, memory limits",
  "Tests run one input in one chunk.",
  ["pygeode/eof.py", "pygeode/eof.c", "pygeode/svd.py", "pygeode/svd.c"],
  [("chunked matrix products and power iteration", "pygeode/eof.py, pygeode/eof.c, pygeode/svd.py, pygeode/svd.c")])

p("P06", "A slice of a neighbourhood operation equals that slice of the whole",
  "For operations whose output at a point depends on other points along an axis (smoothing, Fourier smoothing, derivative, finite difference, integral, cumulative sum, interpolation, lag), the values equal the operation's definition applied to the whole array. Requesting any sub-region, at any memory limit and in any order, returns the corresponding part of that whole result.",
  ["programs", "schedules", "inputs"],
  "all inputs, options (direction, boundary handling, offsets, extrapolation), sub-regions, memory limits",
  "Tests request whole results in one piece, so halo and boundary handling under sub-region requests is not reached.",
  ["pygeode/smooth.py", "pygeode/fft_smooth.py", "pygeode/deriv.py", "pygeode/diff.py", "pygeode/intgr.py", "pygeode/interp.py", "pygeode/interp.c", "pygeode/tools.py", "pygeode/timeutils.py"],
  [("halo requests", "pygeode/smooth.py, pygeode/deriv.py, pygeode/diff.py"), ("full-axis wrapper", "pygeode/tools.py need_full_axes")])

p("P07", "A failed source read is always reported and never corrupts later results",
  "If any read of the underlying data fails while a result is being evaluated, whatever kind of exception the source raises, the evaluation raises an exception instead of returning a value. Asking again once the source works returns the correct result, as if the failure had not happened.",
  ["fault_sequences", "programs", "schedules"],
  "all expressions, all positions of a failing read in the read sequence, all exception kinds including ones with meaning to iteration, all later requests",
  "No test injects a failing read.",
  ["pygeode/tools.py", "pygeode/view.py", "pygeode/var.py", "pygeode/reduce.py", "pygeode/climat.py", "pygeode/stats.py", "pygeode/eof.py", "pygeode/svd.py", "pygeode/dataset.py"],
  [("exception containment in chunk generators", "pygeode/tools.py loopover, pygeode/climat.py loopover"), ("read dispatch", "pygeode/view.py View.get")])

p("P08", "Nothing is read before it is needed, and chunk requests respect the limit",
  "Building an expression from lazily read variables reads no data, and evaluating a sub-region of an elementwise or reshaping expression requests from each source only the coordinates that sub-region depends on. While a reduction runs, no single request to a source asks for more values than the configured memory limit, provided the limit allows at least one value per preserved axis.",
  ["programs", "schedules", "configurations"],
  "all expressions, sub-regions and memory limits",
  "Tests do not observe the requests made to a source.",
  ["pygeode/view.py", "pygeode/tools.py", "pygeode/varoperations.py", "pygeode/ufunc.py", "pygeode/reduce.py"],
  [("unique-index requests", "pygeode/view.py View.get"), ("chunking", "pygeode/view.py loop_mem")])

p("P09", "Saving to NetCDF and reopening returns the same data",
  "Saving a dataset or variables to a NetCDF file and opening that file returns the same variables, dimension order, coordinates, dates, values (to the stored precision) and user attributes, with missing values still missing. This holds for every file version and option (compression, unlimited dimensions, packing), for lazily computed inputs, and for every memory limit.",
  ["programs", "configurations", "schedules"],
  "all datasets over the supported axis kinds and data types, save options, memory limits, readers",
  "Tests save a few small files in a single chunk with default options.",
  ["pygeode/formats/netcdf.py", "pygeode/formats/netcdf4.py", "pygeode/formats/cfmeta.py", "pygeode/formats/__init__.py", "pygeode/dataset.py"],
  [("chunked write loop", "pygeode/formats/netcdf.py write_var, pygeode/formats/netcdf4.py"), ("metadata encode/decode", "pygeode/formats/cfmeta.py")])

p("P10", "A save that reports success wrote a complete file",
  "If the operating system or the storage library refuses or fails any step of saving a file, or a source read fails during it, the save raises an exception. A save that returns normally leaves a file that a fresh process reads back completely; after a failed save the process can save and read again, correctly.",
  ["fault_sequences", "crash_points"],
  "all positions of a failing storage call (create, define, attribute, data, sync/close), full disk, failing source reads, followed by any retry",
  "No test injects a storage failure.",
  ["pygeode/formats/netcdf.py", "pygeode/formats/netcdf4.py", "pygeode/formats/__init__.py"],
  [("write path and close", "pygeode/formats/netcdf.py save"), ("return-code checks", "pygeode/formats/netcdf.py")])

p("P11", "File reads give correct data or raise, through faults and retries",
  "Reading from an opened NetCDF file returns exactly the stored values for any sequence of requests, interleaved with failing opens and reads; a failing call raises and is not remembered, so the same request succeeds with the right values once the fault is gone. Repeated failures do not accumulate open file handles.",
  ["fault_sequences", "histories"],
  "all request histories over all variables of a file with faults injected at any storage call",
  "No test injects a read failure or counts handles.",
  ["pygeode/formats/netcdf.py", "pygeode/formats/netcdf4.py", "pygeode/formats/cfmeta.py"],
  [("shared file handle open/close around reads", "pygeode/formats/netcdf.py NCFile/NCVar")])

p("P12", "A multi-file dataset equals the concatenation of its files",
  "A dataset opened from several files returns, for every requested sub-region, the values held by the file that covers each date, regardless of how many files a request spans, of the memory limit and of the order in which the file list was given. A missing, unreadable or failing file makes the affected request raise rather than return made-up values, and the same request succeeds once the file can be read.",
  ["histories", "fault_sequences", "schedules"],
  "all divisions of a record into files, request sequences, memory limits, faults at any file open or read",
  "Tests open a few healthy files and read them whole.",
  ["pygeode/formats/multifile.py", "pygeode/concat.py", "pygeode/dataset.py"],
  [("file segment lookup and per-segment reads", "pygeode/formats/multifile.py Multifile_Var.getview")])

p("P13", "Concatenation, splitting and joining preserve every value and coordinate",
  "Concatenating variables or datasets along an axis, splitting or joining time axes, building ensembles, flattening, lagging and compositing place every input value at the output position its coordinates designate. Any sub-region of the result, at any memory limit, equals that region of the whole. Pieces that do not make up one array are refused.",
  ["programs", "schedules", "inputs"],
  "all segmentations, segment orders, sub-regions and memory limits",
  "Tests read a few concatenated results whole.",
  ["pygeode/concat.py", "pygeode/ensemble.py", "pygeode/timeutils.py", "pygeode/composite.py", "pygeode/dataset.py"],
  [("per-segment mapping", "pygeode/concat.py, pygeode/ensemble.py, pygeode/timeutils.py, pygeode/composite.py")])

p("P14", "A scan of data files presents exactly their contents, whatever the manifest's history",
  "Opening a set of files through the directory scanner (from_files) presents exactly what the files hold: every piece of every variable is in some dataset, no dataset covers points no file holds, and coordinates, common attributes and values are those of the files. Using a manifest yields the same datasets as scanning the same files afresh, whatever happened before: files added, removed, renamed, replaced or modified since the manifest was written (or while it was), an interrupted or torn manifest write, a scan that failed on one of the files, a damaged manifest, or one from an earlier run. An unusable manifest is rebuilt rather than making the open fail.",
  ["histories", "crash_points", "fault_sequences"],
  "all file sets and histories of file-set edits, scans, clock steps, crashes at any point of a manifest write, and failing opens",
  "Tests never exercise the scanner, let alone across process restarts, edits or crashes.",
  ["pygeode/formats/data_scanner.py"],
  [("manifest load, staleness test and save", "pygeode/formats/data_scanner.py _Manifest, from_files"), ("merging of domains", "pygeode/formats/data_scanner.py _get_domains"), ("reading", "pygeode/formats/data_scanner.py _DataVar.getview")])

p("P15", "Concurrent evaluation from several threads equals sequential evaluation",
  "Evaluating shared variables from several threads at once, including through the dask-backed xarray conversion and with data read from files, returns to each thread exactly the values it would get if the evaluations ran one after another. No thread sees an error, a corrupted array or a partial read because of the others, whatever the interleaving. The same goes for opening and saving files from several threads: every file saved holds what it would if saved alone, and the file libraries, which can't be used by two threads at once, never are.",
  ["schedules", "programs"],
  "all thread interleavings of concurrent evaluations over shared expressions and shared files",
  "Tests are single threaded, or rely on whatever interleaving the operating system happens to choose.",
  ["pygeode/ext_xarray.py", "pygeode/view.py", "pygeode/formats/netcdf.py", "pygeode/formats/netcdf4.py", "pygeode/formats/multifile.py", "pygeode/progress.py"],
  [("dask graph of chunk reads", "pygeode/ext_xarray.py"), ("shared file handle", "pygeode/formats/netcdf.py NCFile")])

p("P16", "Evaluation never modifies its inputs and is independent of history",
  "Evaluating any expression leaves the data, axes and attributes of every input unchanged, including arrays a source hands out by reference. Evaluating the same expression again, after any other evaluations that share inputs with it, gives the same values, and the arrays returned by one evaluation are not altered by a later one.",
  ["histories", "programs"],
  "all histories of evaluations over expressions sharing sources",
  "Tests evaluate an expression once and do not re-check its inputs.",
  ["pygeode/view.py", "pygeode/varoperations.py", "pygeode/ufunc.py", "pygeode/reduce.py", "pygeode/deriv.py", "pygeode/smooth.py", "pygeode/stats.py"],
  [("write protection of retrieved arrays", "pygeode/view.py View.get"), ("defensive copies", "pygeode/varoperations.py")])

p("P17", "Converting to xarray and back preserves data, coordinates and attributes",
  "Converting a dataset to xarray yields an object whose values, dimension order, coordinates (dates included), names and attributes equal those of the dataset, computed lazily in any chunk order and for any memory limit. Converting that object back yields an equivalent dataset.",
  ["programs", "schedules"],
  "all datasets over supported axes, all task execution orders of the produced graph, all memory limits",
  "Tests convert a couple of datasets with the default scheduler and one chunk.",
  ["pygeode/ext_xarray.py", "pygeode/formats/cfmeta.py"],
  [("graph construction", "pygeode/ext_xarray.py to_xarray"), ("wrapping", "pygeode/ext_xarray.py from_xarray")])

p("P18", "Progress reporting and the clock never influence results",
  "Evaluating, saving or loading with a progress indicator gives the same result as without one, whatever the wall clock does meanwhile (standing still, jumping backwards or forwards), whether or not output can be displayed. Reported progress stays between 0 and 100 percent and never goes back while an operation runs, and an indicator appears when, and only when, the configured time has passed.",
  ["schedules", "fault_sequences"],
  "all clock behaviours and expressions evaluated with a progress indicator",
  "Tests run against the real, well-behaved clock.",
  ["pygeode/progress.py", "pygeode/view.py", "pygeode/tools.py"],
  [("time-based update throttle", "pygeode/progress.py PBar")])

p("P19", "Calendar date arithmetic is exact",
  "Converting between dates and offsets on every supported calendar is exact and invertible, for any reference date and unit.",
  ["inputs"], "all dates, calendars, units",
  "Tests sample a few dates.",
  ["pygeode/timeaxis.py", "pygeode/timeaxis.c"],
  [("date conversion", "pygeode/timeaxis.c")])

p("P20", "An operation on a dataset is that operation on each of its variables",
  "Applying an operation to a dataset (keyword selection, renaming axes, any method offered for variables, mapping a function, loading, concatenating) gives a dataset whose variables hold exactly what the operation gives on each variable alone; a selection leaves variables without the axis as they are. Adding, removing, renaming, replacing and merging keep every other variable, its coordinates and its attributes. Where names collide they are made unique, without losing, swapping or confusing variables or axes: variables whose axes agree share one, those whose axes differ keep their own. The datasets and variables an operation starts from are left unchanged, and no data is read before it is requested.",
  ["histories", "programs", "fault_sequences"],
  "all sequences of dataset operations, all combinations of colliding names and shared, equal or differing axes, all requests, memory limits and failed reads",
  "Tests build a few fixed datasets and rarely look at more than one variable after one operation.",
  ["pygeode/dataset.py", "pygeode/var.py", "pygeode/varoperations.py", "pygeode/axis.py"],
  [("naming and sharing of axes", "pygeode/dataset.py Dataset.__init__, axis_name_clumping"), ("operations on every variable", "pygeode/dataset.py Dataset.map, dataset_method")])

p("P21", "Files written by other programs are presented as what they say",
  "Opening a NetCDF file of any origin presents what its conventions say: values with packing undone and every declared fill or missing value as NaN; coordinates as the kind of axis their units, standard names or axis attribute denote, in that axis' own units (pressure in hPa), packed coordinates unpacked; times as the dates their units, reference date and calendar denote; auxiliary variables with the axis they belong to; strings as strings; the groups of the file; every attribute that isn't consumed by decoding. The options of open() (cfmeta, dimtypes, namemap, varlist, value_override) do what they say, to the variables and axes they name and to nothing else. Either reader gives the same. A request in which a call of the system or the library fails raises or returns the true values.",
  ["inputs", "fault_sequences", "histories"],
  "all files a conforming program can write within the covered conventions, all combinations of options, all requests, memory limits and faults",
  "Tests open files pygeode wrote itself and a few samples.",
  ["pygeode/formats/__init__.py", "pygeode/formats/cfmeta.py", "pygeode/formats/netcdf.py", "pygeode/formats/netcdf4.py", "pygeode/tools.py"],
  [("decoding", "pygeode/formats/cfmeta.py decode_cf, var_newaxes"), ("options", "pygeode/formats/__init__.py, finalize_open"), ("readers", "pygeode/formats/netcdf.py, netcdf4.py")])

p("P22", "What is attached to the elements of an axis stays with them",
  "An axis may carry, for each of its elements, more than a coordinate: names, numbers or strings (stations and other non-coordinate axes, the A and B of hybrid levels, any array given when the axis was made). Whatever is done to a variable over it - selection by value, position, or by an attached number or string (single values, lists, ranges, negated), slices, permutations, renaming of the axis, arithmetic with a variable that has the same elements, some of them, or the same in another order, concatenation, reduction of the other axes, chunked computation, saving and opening again - each element keeps its own coordinate, its own attached entries and its own values of the variable; axes whose coordinates repeat included. The kind of axis and its name stay what they were (a station axis under another name is a plain non-coordinate axis once read from a file; attributes of axes without coordinates aren't stored). Elements are matched by what identifies them, never by position alone; operands whose elements match only in part are refused. This holds for every memory limit, and a failed read leaves all as it was.",
  ["inputs", "fault_sequences", "histories"],
  "all axes with attached arrays, all sequences of operations on them, all memory limits and failing reads",
  "Tests cover a few selections on one station axis and none of the sequences.",
  ["pygeode/axis.py", "pygeode/view.py", "pygeode/concat.py", "pygeode/tools.py", "pygeode/formats/cfmeta.py", "pygeode/ufunc.py"],
  [("auxiliary arrays", "pygeode/axis.py, Axis.auxarrays, get_slice, _getitem_asvar, map_to"), ("non-coordinate axes", "pygeode/axis.py, NonCoordinateAxis, Station"), ("storing", "pygeode/formats/cfmeta.py, encode_cf, decode_cf")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
