# ruff: noqa
"""The properties and what is said about their checks.  P() is provided by gen.py."""

NOTES = (
    "All checks are runtime monitors: run.py drives the real code of /repo (native parts rebuilt from "
    "the working tree by vf/native.py, plain or with ASan+UBSan) through seeded hostile workloads, in "
    "one process or under mpirun, and the monitors compare every observation with an independent "
    "reference. A recorded violation is replayed alone with: python3 run.py <id> --replay <path>."
)

TRUST = " Trusted: numpy as the reference, the case generators, Open MPI's shared-memory transport."


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None):
    P(id, title, statement, over, text, why, files, mech, observe, technique, note, level)


prop(
    "C01",
    "Splitting work over ranks or parts covers every item exactly once",
    "Splitting n items, or a list, into m parts (for all ranks, for the calling rank, or as an iterator over this rank's indices) gives consecutive, disjoint parts that together contain every item exactly once and whose sizes differ by at most one, with the ranks agreeing on the split. Every listed partitioning method of a list yields a partition of exactly its items. A parallel map evaluates the function exactly once per item over all ranks and gives every rank all results in the order of the input.",
    ["inputs", "configurations"],
    "For every number of items and parts (including none and fewer items than parts), every partitioning method, every communicator and every rank in it.",
    "Existing tests check a few sizes in one process; agreement between ranks and exactly-once evaluation are properties of all ranks' observations together.",
    ["caput/util/mpitools.py", "caput/util/arraytools.py"],
    [("split_m/partition_list", "caput/util/arraytools.py"), ("split_all/split_local/mpirange/parallel_map", "caput/util/mpitools.py")],
    "runtime monitor under MPI: partition oracle and exactly-once call log over all ranks",
    "Generated sizes, methods and communicators of 1-5 ranks; all ranks' calls are gathered and checked to form a partition." + TRUST,
)

prop(
    "C02",
    "Moving and reshaping distributed arrays preserves the global array",
    "Whatever chain of redistributions, transpositions, reshapes, copies, gathers and wrappings is applied to a distributed array, the global array it represents is exactly what the same numpy operations give, with the same dtype, and every rank holds exactly its consecutive share of the distributed axis with consistent global shape, local shape, offset, bounds, axis and communicator. Gathering returns the complete global array in the right place on the root, or on all ranks. A local array that does not fit the documented layout is refused when it is wrapped.",
    ["inputs", "configurations", "histories"],
    "For every shape (including axes shorter than the number of ranks, and empty ones), dtype, distributed axis written positively or negatively, memory layout, communicator (including sub-communicators) and sequence of operations.",
    "Unit tests sample a few shapes, mostly in one or a few ranks, and one operation at a time; the property is over chains of operations and all ranks' data together.",
    ["caput/mpiarray.py", "caput/util/mpitools.py"],
    [("MPIArray.redistribute/transpose/reshape/gather/allgather/wrap", "caput/mpiarray.py"), ("transpose_blocks", "caput/util/mpitools.py")],
    "runtime monitor under MPI: stepwise comparison of every rank's part and metadata with a global reference",
    "Random operation chains on 1-5 ranks, messages below and above the eager limit." + TRUST,
)

prop(
    "C03",
    "Numpy operations on distributed arrays equal the global operation or are refused",
    "A numpy elementwise function, operator, in-place operator, accumulation or reduction applied to distributed arrays gives on every rank exactly that rank's share of what numpy gives on the global arrays, with correct distribution metadata; reductions over all axes and explicit all-reduces give the global result on every rank that is documented to receive it. Operations that cannot be computed rank by rank (mismatched distributed axes or shapes, reductions or accumulations along the distributed axis, operands that do not line up) are refused rather than silently computed on the local parts.",
    ["inputs", "configurations", "programs"],
    "For every supported ufunc, method, operand kind (distributed, local array, scalar, out argument), axis argument (positive, negative, tuple, keepdims), shape, dtype and communicator.",
    "The tests evaluate a handful of ufuncs on one shape; silent use of a local part where the global array was meant only shows up for particular axis/operand combinations on several ranks.",
    ["caput/mpiarray.py"],
    [("MPIArray.__array_ufunc__/sanitize_ufunc/allreduce and the reduction methods", "caput/mpiarray.py")],
    "runtime monitor under MPI: differential oracle against numpy on the global array",
    "Exactly representable values, so equality is exact; 1-5 ranks." + TRUST,
)

prop(
    "C04",
    "Global indexing of distributed arrays selects and assigns the right elements",
    "Reading a distributed array through its global-index view returns on every rank exactly those elements of the numpy selection on the global array which that rank holds, in order; a rank that holds none gets nothing. Assigning through the global-index view changes exactly the elements numpy would change, on whichever rank holds them, and no others. An index that would reverse the order along the distributed axis is refused.",
    ["inputs", "configurations"],
    "For every shape, distributed axis, index (integers of any kind and sign, slices with negative, missing or out-of-range ends and any positive stride, ellipsis, fancy indices on other axes) and number of ranks.",
    "Tests use a few slices with step one on few ranks; phase errors of strides and boundary cases depend on the offset of each rank.",
    ["caput/mpiarray.py"],
    [("_global_resolver / global_slice / _resolve_slice", "caput/mpiarray.py")],
    "runtime monitor under MPI: differential oracle against numpy global indexing",
    "Random indices on 1-5 ranks." + TRUST,
)

prop(
    "C05",
    "Distributed arrays survive files whatever ranks and axes read them back",
    "Writing a distributed array to an HDF5 or Zarr file stores exactly the global array (values, shape, dtype, requested chunking and compression) whatever the number of ranks and the distributed axis; reading it back with any number of ranks, any distributed axis and any selection gives exactly the selected part of the global array, correctly distributed. Writing over an existing dataset of another shape or type is refused and leaves the stored data intact.",
    ["inputs", "configurations"],
    "For every shape, dtype, chunk shape, compression, distributed axis, selection and pair of communicators.",
    "The tests write and read one array with the same ranks and axis.",
    ["caput/mpiarray.py", "caput/memdata/fileformats.py"],
    [("MPIArray.from_file/to_file/from_hdf5/to_hdf5", "caput/mpiarray.py")],
    "runtime monitor under MPI: round trips cross-checked with h5py/zarr read directly",
    "h5py is built without MPI-IO here, so the serialised HDF5 path is what runs." + TRUST,
)

prop(
    "C06",
    "An in-memory tree behaves like a hierarchical file",
    "After any history of creating, requiring, deleting, looking up and writing groups, datasets and attributes, by absolute or relative path and through any handle, an in-memory tree (or the same interface on top of an HDF5 or Zarr file) contains exactly the entries and values a hierarchical file would, listed under the right names and parents, and lookups of what is not there fail. Converting datasets between common and distributed and redistributing them preserves their values, type and attributes and is seen through every handle. Entries that a restricted subclass does not allow cannot be created or seen through it.",
    ["histories", "inputs"],
    "For every history of operations, path spelling and handle, in memory or on disk, on any number of ranks.",
    "The tests perform a few fixed operations; aliasing between handles, odd path spellings and interactions between operations are properties of histories.",
    ["caput/memdata/_memh5.py"],
    [("_BaseGroup/_Storage/MemGroup/MemDiskGroup", "caput/memdata/_memh5.py")],
    "runtime monitor: model-based histories, full state compared after each operation",
    "Random histories against a plain-Python model tree; distributed part on 1-4 ranks." + TRUST,
)

prop(
    "C07",
    "Saving and loading a tree restores it exactly",
    "A tree written to an HDF5 or Zarr file and read back has the same groups, datasets (values, shape, type up to the documented string conversions) and attributes (including nested dictionaries, datetimes as ISO strings, strings and arrays), whether or not datasets are distributed, whatever memory layout they have and whichever ranks write and read; given selections, exactly the selected parts are read or written. The file has the chunks and compression asked for, compressions a format does not have are refused, and so are names, data and formats that contradict each other. Moving between memory and disk and saving what is already on disk also preserve everything. Strings that cannot be stored are refused unless conversion was requested.",
    ["inputs", "configurations"],
    "For every tree, dtype, attribute value, chunking, compression, file format, string-conversion option, selection, distribution and pair of communicators.",
    "The tests store a few fixed trees and types with the same ranks for writing and reading.",
    ["caput/memdata/_memh5.py", "caput/memdata/fileformats.py", "caput/util/typeutils.py"],
    [("deep_group_copy/copyattrs/_distributed_group_to_file/from_file/to_file", "caput/memdata/_memh5.py")],
    "runtime monitor: random trees round-tripped and cross-checked with h5py/zarr read directly",
    "Serial and 1-4 ranks. Dictionary attributes have string keys." + TRUST,
)

prop(
    "C08",
    "Copies of trees and datasets are independent of the original",
    "A deep copy of a tree, container or dataset is equal to the original, and afterwards no change to data or attributes on either side is visible on the other, except in the datasets for which sharing was explicitly requested, where every change is visible on both sides. Views share what they view.",
    ["histories", "inputs"],
    "For every tree, every way of copying, every set of shared datasets, and every later sequence of mutations on either side.",
    "Tests check one value after one copy; aliasing of nested attributes or of single datasets needs a mutation on one side and an observation on the other.",
    ["caput/memdata/_memh5.py", "caput/containers/_core.py"],
    [("deep_group_copy/deepcopy/copy(shared=)", "caput/memdata/_memh5.py")],
    "runtime monitor: two-sided mutation histories with full snapshots of both trees",
    "Random trees and mutations, serial and on 1-3 ranks." + TRUST,
)

prop(
    "C09",
    "Containers hold exactly the axes and datasets their specification declares",
    "A container built from a class hierarchy has exactly the axes and datasets the classes declare (the most derived declaration winning), each dataset with the declared axes, shape, type, chunking and distribution; missing axes and unknown datasets are refused. Axes, attributes and datasets taken from another container are copied exactly where the axes agree, and explicitly given axes win. Saving and loading restores the class, axes, datasets, attributes and the history in order; history entries and index maps read back as they were added, and table and data/weight containers follow the same rules.",
    ["inputs", "programs", "histories"],
    "For every class hierarchy, axis definition, combination of construction arguments, number of ranks and file format.",
    "The tests define a few classes; resolution over inheritance, overrides and copies is combinatorial.",
    ["caput/containers/_core.py", "caput/containers/_basic.py", "caput/containers/_util.py"],
    [("ContainerPrototype/Container/TableSpec/empty_like", "caput/containers/_core.py")],
    "runtime monitor: randomly generated container classes against an independent model of the specification",
    "Random class hierarchies of up to three levels on 1-3 ranks." + TRUST,
)

prop(
    "C10",
    "Redistributing, selecting and filtering containers keeps every dataset right",
    "Redistributing a container moves every distributed dataset that has a requested axis (the first one it has of those given) onto that axis and leaves all values, axis maps, attributes and other datasets as they were. Loading a container with per-axis selections gives exactly the selected part of every dataset with that axis and of the axis map, and everything else in full. Copying datasets through a filter writes exactly the selected elements of the wanted datasets into the destination and changes neither the source values nor the caller's arguments.",
    ["inputs", "configurations"],
    "For every container class, axis, selection (slice, index list or array, mask), exclusion list, file format and number of ranks.",
    "The tests use one container with one selection; which datasets are touched depends on the combination of axes, distribution and selection.",
    ["caput/containers/_core.py", "caput/containers/_util.py"],
    [("ContainerPrototype.redistribute/_make_selections", "caput/containers/_core.py"), ("copy_datasets_filter", "caput/containers/_util.py")],
    "runtime monitor under MPI: every dataset of random containers compared with numpy on the global array",
    "Random container classes on 1-4 ranks." + TRUST,
)

prop(
    "C11",
    "Concatenating time-ordered data joins exactly the requested samples",
    "Concatenating a sequence of time-ordered containers or files gives, for every time axis, exactly the samples from start up to but not including stop of the joined sequence, in order, in the axis map and in every dataset with that axis, with the other datasets, axes, attributes, reverse maps and history of the first piece, whether the result is in memory, distributed or written to a file, and with the requested datasets and filters applied per piece. The pieces and the caller's arguments are not changed. The reader's time and dataset selections, by index or by time, return exactly the samples selected.",
    ["inputs", "configurations", "histories"],
    "For every number and length of pieces, several time axes, axis orders, start and stop in every spelling, in memory or on file, distributed or not.",
    "Tests join two equal pieces; boundaries falling inside, at or outside pieces and several time axes are combinatorial.",
    ["caput/containers/tod.py"],
    [("concatenate/TOData/Reader", "caput/containers/tod.py")],
    "runtime monitor: random sequences of pieces compared with numpy.concatenate",
    "Non-empty ranges; pieces distributed over another axis than time." + TRUST,
)

prop(
    "C12",
    "Files written under a lock appear whole or not at all",
    "A file or directory created through lock_file, or written by a pipeline task that outputs groups (GroupIOMixin), appears under its final name only when it is complete: at every moment, and after a crash or an error at any point, the final name holds either its previous content or the complete new content (an existing directory is removed just before it is replaced). After an error the error is raised unchanged, no lock remains and the temporary file is removed unless it was asked to be preserved; after a crash the next attempt succeeds. The lock exists as long as anything temporary does. With several ranks only the first rank of the communicator given publishes, files created at the same time are independent of each other, and written data equals what was given.",
    ["crash_points", "faults", "schedules"],
    "For every kind of file (plain, HDF5, Zarr directory), every point at which the process is killed or an operation fails, and every order in which ranks leave.",
    "A test observes only the end; the guarantee is about every moment in between and about crashes.",
    ["caput/memdata/_io.py", "caput/pipeline/extensions/_extensions.py", "caput/memdata/fileformats.py"],
    [("lock_file", "caput/memdata/_io.py"), ("GroupIOMixin.write_output", "caput/pipeline/extensions/_extensions.py")],
    "runtime monitor with fault injection: directory observed at every executed line, process killed at each line in turn",
    "A crash ends the process, not the machine (no lost page cache). Kill points for plain and HDF5 files; Zarr directories are watched but replacing one is not atomic." + TRUST,
    level="fault_enumeration",
)

prop(
    "C13",
    "Pipelines run each task stage in order and deliver every product exactly once",
    "A pipeline runs each task's setup once its required products are there, then next once per set of inputs, then finish exactly once, and ends only when every task has finished. Every product of a key is delivered to every task that asks for that key exactly once, unchanged and in the order produced, combined with the other inputs of that task in step; a task whose inputs end, or that stops itself or reaches its output limit, finishes and its consumers finish after using what was produced. Errors raised by a task stop the pipeline and are not hidden, ready tasks run in order of base priority, a required product that is produced a second time is refused, ignored and non-matching keys are honoured, and all ranks run tasks in the same order. Items fed in from Python come out once and in order, passed through the callback if there is one.",
    ["programs", "schedules", "histories"],
    "For every acyclic graph of tasks in configuration order, number of products, stage producing them, key pattern, limit, priority and execution order option, on any number of ranks.",
    "The tests run a few linear pipelines; ordering and exactly-once delivery are properties of the whole call history of every graph.",
    ["caput/pipeline/_pipeline.py"],
    [("Manager.run/Task._pipeline_next/_pipeline_queue_product", "caput/pipeline/_pipeline.py")],
    "runtime monitor: recorded call and delivery log of random task graphs against a stream model",
    "Tasks come after the tasks whose products they use, and required products are produced once." + TRUST,
)

prop(
    "C14",
    "Pipeline configurations are built as written or refused before anything runs",
    "A pipeline configuration, from a string, a file or task by task, gives exactly the tasks it lists, in order, each with its parameters (inline or from its section, converted by their properties, others at their defaults), its input and output keys, the configured log level, the requested versions and its own copy of the whole configuration. A configuration with a mistake (missing or wrong sections and types, unknown tasks, modules, parameters or parameter sections, refused values, inputs nobody produces, duplicate outputs, wrong numbers of inputs) is refused before any task runs with an error of the documented kind, which names the place of the mistake where one is known; linting finds the same mistakes.",
    ["inputs", "configurations", "programs"],
    "For every configuration document: any number of tasks, argument kinds, parameter types and one mistake of each kind anywhere in it.",
    "The tests build a handful of documents; which value reaches which task and which mistakes slip through depends on the combination.",
    ["caput/pipeline/_pipeline.py", "caput/config.py", "caput/pipeline/exceptions.py", "caput/pipeline/runner/_core.py"],
    [("Manager.from_yaml_str/_setup_tasks/_get_task_from_spec/add_task", "caput/pipeline/_pipeline.py"), ("lint_config", "caput/pipeline/runner/_core.py")],
    "runtime monitor: generated configuration documents with and without a planted mistake, built tasks against a model",
    "Generated documents with at most one mistake each." + TRUST,
)

prop(
    "C15",
    "Configurable properties take exactly the values given to them",
    "Reading a configuration into an object sets every property whose key is given to the converted value, leaves the others at their default (or at what was read before), and affects no other instance, class or the configuration itself; subclasses inherit and override properties. Unused keys, missing keys and values of the wrong kind, outside the range, length or choices are refused when asked for, with a configuration error, and leave the property as it was. Use of a deprecated property, and only that, warns. Documents read with line numbers are equal to the documents read without, and errors report the line of the block they are about.",
    ["inputs", "configurations", "programs"],
    "For every hierarchy of classes with properties of every kind, every configuration and every sequence of reads and assignments.",
    "The tests read one class once; sharing between instances and classes and conversion of every kind of value is combinatorial.",
    ["caput/config.py"],
    [("Property/Reader/enum/list_type/float_in_range/logging_config/SafeLineLoader", "caput/config.py"), ("file_format", "caput/pipeline/extensions/_extensions.py")],
    "runtime monitor: random class hierarchies and configurations against a model of every property",
    "In-process." + TRUST,
)

prop(
    "C16",
    "Container tasks label, check and save outputs; flow tasks forward faithfully",
    "A container task passes on every output of its process and finish methods, labelled with the configured attributes and tag, and saves to exactly the configured file names exactly those outputs it is asked to save, with their data, versions and configuration and the requested compression; outputs with NaN or infinite values anywhere on any rank are detected and, as configured, dumped or skipped on all ranks alike, and others are not. Input and output numbers that do not fit are refused. The flow, grouping, single and iterating tasks deliver the same objects they are given, as often, in the order and to whom they document, and delete, copy, wait or stop as documented.",
    ["inputs", "configurations", "histories"],
    "For every number of inputs and outputs, tag and file name format, save setting, file format, place of a bad value, and number of ranks.",
    "The tests run one task with defaults; labels, files and NaN handling combine many settings and the data of all ranks.",
    ["caput/pipeline/tasklib/base.py", "caput/pipeline/tasklib/flow.py", "caput/pipeline/extensions/_extensions.py"],
    [("ContainerTask/group_tasks", "caput/pipeline/tasklib/base.py"), ("flow tasks", "caput/pipeline/tasklib/flow.py"), ("SingleTask and IterTask bases", "caput/pipeline/extensions/_extensions.py")],
    "runtime monitor under MPI: products and every file of random task pipelines against a model",
    "1-3 ranks; one-task pipelines plus sources and sinks." + TRUST,
)

prop(
    "C17",
    "Weighted quantiles and medians are the exact weighted quantile of every row",
    "The weighted quantile of the last axis is, for every row, an element (or for the split method the mean of two elements) at which the accumulated weight crosses the requested fraction of the total weight: elements without weight are never chosen when others have weight, 'lower' and 'higher' give the lower and the upper of the two candidates of an exact tie and 'split' their mean, and the median is the quantile of one half. The result does not depend on the memory layout, leaves its inputs unchanged and has the shape without the last axis. Arrays of different shapes, unknown methods and fractions outside [0, 1] (including NaN) are refused.",
    ["inputs"],
    "For every array of the supported types, every set of non-negative weights, every fraction and tie method.",
    "The tests compare a few random arrays; ties, zero weights and rounding at the boundary appear only for special combinations of values, weights and fraction.",
    ["caput/algorithms/median/"],
    [("quantile/weighted_median", "caput/algorithms/median/weighted.pyx"), ("quickselect and tie handling", "caput/algorithms/median/weighted.pyx")],
    "runtime monitor: every row compared with the quantile computed in rational arithmetic",
    "Finite data and weights; accumulated weights that are not exactly representable are judged up to rounding of the boundary." + TRUST,
)

prop(
    "C18",
    "The moving weighted median equals the weighted median of every window",
    "For every position of a one or two dimensional array, the moving weighted median is the weighted median, with the requested tie method, of the elements in the window of the given odd size centred there, truncated at the edges of the array; whatever was in earlier windows has no influence. The inputs are not changed and types that can be converted are converted. Even, zero, negative or wrongly shaped window sizes, weights of another shape, other numbers of dimensions and unknown methods are refused.",
    ["inputs", "histories"],
    "For every array and weights, window size (up to beyond the array), tie method and memory layout; every position is reached by a different history of insertions and removals.",
    "The tests use small windows; a wrongly maintained tree shows only after particular sequences of insertions, removals and rotations.",
    ["caput/algorithms/median/"],
    [("moving_weighted_median", "caput/algorithms/median/weighted.pyx"), ("MedianTree", "caput/algorithms/median/MedianTree.hpp")],
    "runtime monitor: every window compared with the median computed in rational arithmetic",
    "Windows without any weight are not judged; inexact weights are judged up to rounding of the boundary." + TRUST,
)

prop(
    "C19",
    "Bit truncation never exceeds the allowed error and keeps what it must",
    "Truncating a value changes it by no more than the allowed error, rounds it to a multiple of a power of two with half to even, and leaves it alone if the error is zero; absolute, relative, inverse-variance and maximum-relative forms agree on what the allowed error is. A weight of zero clears the value or applies the fallback error as documented. Arrays are truncated in place and returned, every element by itself and nothing around them, the weights are not changed, and the precision discarded is close to what was allowed. Wrong types and shapes are refused.",
    ["inputs"],
    "For every value of both floating types (including subnormal ones, powers of two, ties), every error from zero to beyond the value, arrays of one or two dimensions and any strides.",
    "The tests truncate a few numbers of ordinary size; error bound, tie and exponent handling differ at every bit position.",
    ["caput/util/"],
    [("bit_truncate_*", "caput/util/truncate.pyx"), ("bit_truncate_float/bit_truncate_double", "caput/util/truncate.hpp")],
    "runtime monitor: every result compared with the rounding in rational arithmetic",
    "Finite values below half of the largest; tiny values only judged on the error bound." + TRUST,
)

prop(
    "C20",
    "invert_no_zero gives the reciprocal of every element and zero for zero",
    "invert_no_zero returns an array of the same shape and kind whose elements are the reciprocals of the input's elements, and zero where the element is zero (of either sign) or so small that its reciprocal would overflow, for real, complex and integer input, scalars and sequences and distributed arrays (which keep their distribution). The input is not changed unless it is the output; an output array, in place, strided or of another layout, receives exactly the result and is returned. An output of the wrong shape is refused.",
    ["inputs", "configurations"],
    "For every shape, type, memory layout, special value, kind of output and number of ranks and threads.",
    "The tests invert a few contiguous arrays; layouts, in-place use, special values and distributed arrays take different code paths.",
    ["caput/algorithms/"],
    [("invert_no_zero", "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx"), ("invert_no_zero", "caput/algorithms/_invert_no_zero/__init__.py")],
    "runtime monitor, in process and under MPI: every element compared with its reciprocal",
    "Complex values are of moderate size." + TRUST,
)

prop(
    "C21",
    "Native routines never touch foreign memory, and threads do not change results",
    "Whatever arguments the native routines (weighted quantile, moving median, bit truncation, inversion, spherical geometry) are called with from Python, they either return or raise a Python exception: they never read or write outside of their arrays, use freed memory, crash or execute undefined arithmetic. Their results are identical for every number of OpenMP threads and when called from several Python threads at once.",
    ["inputs", "schedules", "configurations"],
    "For every combination of shapes (including empty and mismatched ones), types, strides and values, and every number of threads.",
    "Invalid accesses usually change no result a test compares; they need an instrumented build to be seen.",
    ["caput/algorithms/", "caput/util/", "caput/astro/coordinates/"],
    [("native extensions", "caput/algorithms/median/weighted.pyx"), ("truncation", "caput/util/truncate.pyx"), ("inversion", "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx"), ("geometry", "caput/astro/coordinates/_spherical.pyx")],
    "AddressSanitizer and UndefinedBehaviorSanitizer builds under hostile workloads; differential runs over thread counts",
    "gcc's sanitizers on the extensions only (numpy and Python are not instrumented); weights are not negative." + TRUST,
    level="exploration",
)

prop(
    "C25",
    "Spherical geometry and Bessel functions agree with elementary mathematics",
    "Conversions between spherical and cartesian vectors are exact to rounding and inverse to each other, of every shape and memory layout; tangent vectors are the right-handed orthonormal basis of their direction; scalar products, the cosine rule, angular distances (also of equal, close and antipodal points), great circles, ground coordinates and projected distances, and yaw-pitch-roll rotations are what elementary geometry gives, and leave their inputs unchanged. Spherical Bessel functions and their first two derivatives have their documented accuracy for every order and argument, including zero, for scalars, arrays and sequences.",
    ["inputs"],
    "For every direction (including poles and coinciding points), shape, type and layout, and every order and argument.",
    "The tests evaluate a few points; special directions, layouts and the joins of the approximations are not among them.",
    ["caput/astro/coordinates/"],
    [("conversions", "caput/astro/coordinates/_spherical.pyx"), ("geometry", "caput/astro/coordinates/spherical.py"), ("jl/jl_d/jl_d2", "caput/astro/coordinates/bessel.py")],
    "runtime monitor: every result compared with elementary geometry and recurrences in extended precision",
    "Tolerances follow the documented accuracy of the approximations; great circles and ground coordinates away from their singularities." + TRUST,
)

prop(
    "C22",
    "Multithreaded random numbers are complete, reproducible and as distributed",
    "Every sample of the multithreaded generator has the requested shape and type, is completely filled with numbers of the requested distribution (in range, with its mean and deviation everywhere in the sample, uncorrelated and without any stretch repeated within or between calls), and, given seed, number of threads and sequence of calls, is the same whatever the scheduling of the threads; other seeds give other numbers. Small samples, samples with array parameters and distributions without threads are exactly those of the plain generator of that seed. An output array receives the whole sample and nothing around it changes; wrong arguments and errors in any thread are raised. Callers in several threads never receive the same numbers. Tasks drawing random numbers never draw the same ones on different ranks or in different tasks; the seed they log is the same on all ranks, and setting it repeats the run, also in another process.",
    ["inputs", "schedules", "histories"],
    "For every distribution, way of passing its arguments, size, type, output array, seed, number of threads, bit generator and schedule.",
    "There is no test of the generator at all; filling by several threads can go wrong at the borders between them only for particular sizes.",
    ["caput/algorithms/random.py"],
    [("MultithreadedRNG/default_rng", "caput/algorithms/random.py"), ("RandomTask", "caput/pipeline/tasklib/random.py")],
    "runtime monitor: recorded samples against range, moments, repeats, a second run under another thread schedule and the plain generator",
    "Statistical limits of about seven standard deviations; schedules perturbed by busy threads and short switch intervals." + TRUST,
)

prop(
    "C23",
    "Fourier transforms equal scipy's and never alter inputs or earlier results",
    "Forward and backward transforms, convolutions and windows, by a reusable object or by the functions, over any axes, give what scipy gives (to rounding, in the type of the input) for arrays of any memory layout and alignment, whatever was transformed before by the same object; inputs and all results returned earlier are never changed and share no memory. Transforms that were not asked for, other types, real arrays and other shapes are refused. The functions of scipy exported by the module give what scipy gives and leave its settings alone.",
    ["inputs", "histories"],
    "For every shape, axes, type, layout and alignment, and every sequence of transforms, including transforms of earlier results.",
    "The tests transform one contiguous array once; aliasing between the buffers of a plan and user arrays needs sequences.",
    ["caput/algorithms/fft/"],
    [("FFTW/fft/ifft/fftconvolve/fftwindow", "caput/algorithms/fft/fftw.py"), ("re-exported functions", "caput/algorithms/fft/__init__.py")],
    "runtime monitor: sequences of transforms with every live array watched, results against scipy",
    "Small arrays; one object is used by one thread at a time." + TRUST,
)

prop(
    "C24",
    "Time conversions agree with calendar, leap seconds and Earth rotation",
    "Conversions between Unix times, datetimes (of any time zone), time strings and skyfield times, single or in arrays, lists and empty ones, give the same instant and are inverse to each other to their precision. Leap seconds between times are the published ones, the Earth rotation angle is that of the published orientation data, and the time of an angle is the one within the following turn, to 5 ms. For an observer anywhere, local stellar angle, day and sidereal time follow from these, days count the turns since the first zero after the start and increase with time, and the searches for transits, risings and settings of a source find every one in the interval (given a step shorter than their spacing), once, in order, with the right direction, for start and end in any form.",
    ["inputs", "configurations"],
    "For every time, form and shape of the argument, place of the observer, source, interval and step.",
    "The tests compare a few instants at one place, and most need data from the network; leap seconds, wraps of angles and searches depend on the instant.",
    ["caput/astro/"],
    [("conversions", "caput/astro/time.py"), ("skyfield conversions", "caput/astro/skyfield.py"), ("Observer", "caput/astro/observer.py"), ("scalarize/vectorize/listize", "caput/util/arraytools.py")],
    "runtime monitor: conversions against the calendar, the published tables and elementary rotations; searches against dense sampling",
    "1973 to 2025; no planetary ephemeris is available offline, so sources are stars seen from an Earth at rest." + TRUST,
)

prop(
    "C26",
    "Files are found, loaded, saved, truncated and zipped exactly as configured",
    "Names, patterns (in sorted order) and nested lists stand for exactly the files and Zarr directories they name; anything missing or of another kind is refused, and configurations are not changed. Every loading task delivers exactly one container per file or input, in order, with the contents, axes, attributes and tag of its file, restricted to the configured ranges and index lists and distributed as configured, on any number of ranks. Save passes its input on and writes one readable file per container, named by tag or count; the configuration and the module versions are saved as they are. Truncate changes only the datasets configured by the task or, failing that, by the container, within the configured relative precision or increase of variance, and discards as much precision as that allows. Zipping yields one zip file per container with all its contents, and removes the directory if and only if asked and the zip succeeded, no other file whatever the names; failures of the zip program are raised, and waiting ends however much it prints.",
    ["inputs", "fault points"],
    "For every directory contents, pattern, nesting, file format, selection, distribution, number of ranks, truncation parameters and behaviour of the zip program.",
    "There are no tests of these tasks but for a few selections; they need files on disk, several ranks and failing subprocesses.",
    ["caput/pipeline/tasklib/io.py", "caput/pipeline/tasklib/debug.py"],
    [("list_or_glob/list_of_filelists/list_of_filegroups", "caput/pipeline/tasklib/io.py"), ("BaseLoadFiles and its subclasses", "caput/pipeline/tasklib/io.py"), ("Truncate", "caput/pipeline/tasklib/io.py"), ("ZipZarrContainers/SaveZarrZip/WaitZarrZip", "caput/pipeline/tasklib/io.py"), ("SaveConfig/SaveModuleVersions", "caput/pipeline/tasklib/debug.py")],
    "runtime monitor: pipelines run on generated directories, every product and every file left on disk compared with a model",
    "7z is replaced by a program that zips, fails, stalls or prints much; index lists only for HDF5 files, along one axis." + TRUST,
)

prop(
    "C27",
    "MPI helpers move every element to its place and never leave ranks waiting",
    "Gathering local boxes gives the root the global array, transposing blocks gives each rank the transposed block, and writing rows in parallel puts every rank's rows into the file, for every element type, memory layout, split of the array (empty parts included), communicator and number of ranks, also without MPI; datasets can be allocated in files for that, and locked parts of a file are written only when free. Broadcasts, reductions and barriers deliver on every rank what all ranks gave, ranks that are not active wait until the active ones are done, and the cores and memory reported are those available to each. Log records pass on the configured ranks only and carry rank and size. An exception on one rank ends the whole program and its message is seen; it never leaves the other ranks waiting. The MPI environment test passes exactly when every rank's message arrives intact and in time, and otherwise ends the job as failed.",
    ["inputs", "configurations", "fault points"],
    "For every number of ranks, communicator, split, type, layout, set of active ranks, log configuration and failing rank.",
    "The tests run on one rank or two; which element lands where depends on the split, and failures of one rank are not exercised.",
    ["caput/util/mpitools.py", "caput/pipeline/tasklib/debug.py"],
    [("gather_local/transpose_blocks/parallel_rows_write/allocate_hdf5_dataset/lock_and_write_buffer", "caput/util/mpitools.py"), ("bcast/allreduce/active/close/cpu_count/can_allocate/enable_mpi_exception_handler/MPILogFilter", "caput/util/mpitools.py"), ("SetMPILogging", "caput/pipeline/tasklib/base.py"), ("CheckMPIEnvironment", "caput/pipeline/tasklib/debug.py")],
    "runtime monitor under MPI: every rank's result against the global array; programs with failing ranks under a time limit",
    "One to four ranks of one machine." + TRUST,
)

prop(
    "C28",
    "The command line runs, checks and queues exactly the pipelines it is given",
    "run executes the tasks of the file, with the configuration given, and fails with them; lint accepts exactly the files whose configuration is complete, naming every bad one; templates expand to the product of their variables, one file or job each. Queueing (SLURM or PBS) submits exactly one job per new name, whose script, when executed, runs that pipeline on the requested nodes, processes and threads in its job directory, records success or failure in its status, and moves a temporary directory to its final place only after success; jobs done, running or queued are skipped, failed ones replaced, always or never overwritten as asked. Required settings, wrong values, unknown queue systems and failures to submit are reported, and nothing is submitted then. Paths may contain variables and the home directory of the user, also when only checking. Queue systems registered from a file replace those of the same name; incomplete ones are refused.",
    ["inputs", "histories", "fault points"],
    "For every pipeline file, template, cluster configuration, option and sequence of queueing and running with failures.",
    "There are no tests of queueing; scripts must be executed and queued again after every outcome to see what happens.",
    ["caput/pipeline/runner/"],
    [("commands", "caput/pipeline/runner/_cli.py"), ("run_pipeline/lint_config/template_run", "caput/pipeline/runner/_core.py"), ("queueing and job scripts", "caput/pipeline/runner/_scheduler/")],
    "runtime monitor: commands run with recording stand-ins of the cluster, job scripts executed, every outcome compared with a model",
    "The programs of the cluster are stand-ins; a finished job with a temporary directory is not overwritten." + TRUST,
)

prop(
    "C29",
    "Conversions of strings and types change representation only, never contents",
    "Whether a type contains strings of a kind is found wherever they are nested. Converting types, arrays, or datasets copied or written to and read from files between byte strings and unicode changes exactly the strings, in every field, nested structure and subarray and for every byte order and alignment, and keeps names, titles, shapes, lengths, order and the contents of every other field; converting back gives the original contents. Without need nothing is copied, and the input is never changed. Nested collections become the same collections with every byte string (keys too) decoded as UTF-8 and all else untouched. Unicode is refused by files when conversion was not asked for.",
    ["inputs"],
    "For every type (scalar, compound, nested, aligned, subarrays), memory layout and shape, and every nested collection.",
    "The tests convert one type; nesting, padding and byte order take different paths.",
    ["caput/util/typeutils.py", "caput/memdata/_memh5.py"],
    [("conversions", "caput/util/typeutils.py"), ("deep_group_copy", "caput/memdata/_memh5.py")],
    "runtime monitor: every field of every element against a model of the conversion, through memory and files",
    "Strings in arrays are ASCII, and byte strings do not end in NUL." + TRUST,
)

prop(
    "C30",
    "Profilers record exactly the code they enclose, in the files asked for",
    "A profile of an enclosed block contains the functions called inside, as often as they were, and none called outside; counters of input and output cover the bytes of the block; records of usage have the label, the time of the block, non-negative processor time and memory (the peak at least what was in use), and the same numbers in the log, the record and the one row appended to the table. Each rank of the communicator writes its own file, in the directory given or else the current one, also when the block fails, whose exception is passed on; no thread is left running. Switched off they write nothing. Missing directories, unknown profilers and stopping before starting are refused.",
    ["inputs", "fault points", "configurations"],
    "For every kind of work, sequence of blocks, directory, communicator, and place of a failure.",
    "The tests only check that a profiled pipeline ends well; what was recorded, and where, is not looked at.",
    ["caput/util/profiler.py"],
    [("Profiler/IOUsage/PSUtilProfiler", "caput/util/profiler.py")],
    "runtime monitor: blocks with known work profiled, in process and under MPI, records and files compared with the work",
    "Times are bounded on the side a busy machine does not affect." + TRUST,
)

prop(
    "C31",
    "Filter bank, cache, comparison and size helpers equal their definitions",
    "The polyphase filter bank, its windows, channel profiles (normalised or not, whatever was asked before) and decorrelation ratios are the sums defining them, and leave the timestream alone. The cache never holds more bytes than allowed, returns what was stored, and evicts the least recently used. Nested objects are found equal exactly if all parts are, in both directions, without exceptions: different shapes, types of array, keys or lengths are different, and a scalar is not an array. The size of an object counts everything reachable from it once, cycles and modules included. Decorated functions and methods accept scalars, sequences and arrays, give the result of the plain function in the same shape and keep their documentation; unique items keep their order.",
    ["inputs", "histories"],
    "For every window, size and timestream, every sequence of uses of the cache, and every nested object.",
    "The tests compare a handful of small objects and do not touch the filter bank or the cache.",
    ["caput/util/"],
    [("PFB", "caput/util/pfb.py"), ("LRUCache/unique_ordered/vectorize/scalarize/listize", "caput/util/arraytools.py"), ("allequal/total_size", "caput/util/objecttools.py"), ("import_class", "caput/util/importtools.py")],
    "runtime monitor: results against the defining sums and models, over sequences of uses of one object",
    "Interpolated profiles to the accuracy of the oversampling; keyword arguments of scalarized functions are passed on as they are." + TRUST,
)
