#!/usr/bin/env python3
"""Source of properties.jsonl (one dict per property, kept readable here)."""
import json, os
A='source/fern/algorithm/'
C='source/fern/core/'
F='source/fern/feature/core/'
I='source/fern/io/'
L='source/fern/language/'
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","Parallel execution gives the same answer as sequential execution",
"For every algorithm, every argument shape, every no-data configuration and every number of worker threads, running with the parallel execution policy produces exactly the result values and exactly the no-data marks that the sequential policy produces. Only floating point sums (and statistics derived from them) may differ, and then by no more than rounding (a running integer sum that leaves its type may be noticed in one order of adding and not in another, and the extremes of values that include NaN are not defined). A call returns only after all its output has been written.",
["schedules","inputs","configurations"],
"all algorithms x {1..17 threads} x extents from 0/1 to several thousand elements (not multiples of the thread count) x no-data patterns (none, random, whole blocks, all) x schedules",
"The existing tests run a handful of small arrays with one pool size; uneven remainders, more threads than rows, whole-block no-data and mixed value types under the parallel policy are never compared with the sequential result.",
[A+"core/unary_local_operation.h",A+"core/binary_local_operation.h",A+"core/unary_aggregate_operation.h",A+"core/binary_aggregate_operation.h",A+"core/unary_disaggregate_operation.h",A+"core/nullary_local_operation.h",A+"core/n_ary_local_operation.h",A+"core/detail",A+"convolution/detail/convolve.h",A+"accumulator"],
[("block-wise dispatch of kernels to the pool and join on futures",A+"core/*_operation.h"),("merging per-block partial aggregates",A+"core/unary_aggregate_operation.h; "+A+"accumulator/*.h")],
observe=["result arrays and masks after the call"])

p("C02","Algorithms are free of data races, also under a shared thread pool",
"Running any algorithm with the parallel execution policy performs no conflicting unsynchronised memory accesses, whatever the number of workers. Several client threads may run different algorithm calls (each on its own outputs, possibly sharing inputs) on the same execution policy at the same time, and each still gets its own correct result.",
["schedules"],
"all parallel algorithms x thread counts x extents x no-data patterns, alone and with several concurrent clients on one pool, over the schedules that occur under stress",
"Unit tests check values once; a race seldom changes a value, and no test runs under a race detector or shares a pool between threads.",
[C+"thread_pool.cc",C+"thread_pool.h",C+"thread_safe_queue.h",A+"core/unary_local_operation.h",A+"core/binary_local_operation.h",A+"core/unary_aggregate_operation.h",A+"core/binary_aggregate_operation.h",A+"convolution/detail/convolve.h",A+"policy/parallel_execution_policy.h"],
[("disjoint output blocks per task",A+"core/index_ranges.cc"),("futures as the only join",C+"thread_pool.h")],
observe=["ThreadSanitizer reports","per-client results"])

p("C03","Algorithms stay inside their arguments and have no undefined behaviour",
"For every argument that satisfies the documented preconditions, including empty, one-row, one-column and extreme-valued data, no algorithm or container operation reads or writes outside the arrays it was given, reads uninitialised results, overflows signed arithmetic, divides by zero in integers or aborts.",
["inputs","configurations"],
"all algorithms x value types x degenerate extents x extreme values (type minima/maxima, zero, infinities, NaN) x both execution policies",
"Tests use small friendly arrays and no sanitizer; out-of-bounds reads at an edge or an overflow whose wrapped value is later discarded pass silently.",
[A+"core",A+"algebra",A+"convolution",A+"statistic",A+"space",A+"accumulator",F+"array.h"],
[("index arithmetic on linear indices","the kernels of every algorithm"),("range checks of results",A+"algebra/elementary/*.h")],
observe=["AddressSanitizer and UndefinedBehaviorSanitizer reports","guard elements around arrays"])

p("C04","Thread pool runs every accepted task exactly once and shuts down cleanly",
"Every task accepted by the thread pool is run exactly once, and its future delivers that task's own result or exception, regardless of how many threads submit at the same time or how many tasks fail; a throwing task never takes down a worker. With one worker, tasks run in the order of submission; at most the configured number of tasks runs at any time, and with at least that many long tasks waiting all workers are used. Destroying the pool waits for running tasks, never runs a task afterwards, and leaves no future blocked forever.",
["schedules","histories"],
"number of workers 1..16 x number of submitters x task durations x exceptions x nested or late submissions x destruction at arbitrary moments",
"The tests submit a few tasks from one thread and wait; lost wake-ups, double execution or shutdown hangs only show in particular interleavings.",
[C+"thread_pool.h",C+"thread_pool.cc",C+"thread_safe_queue.h",C+"join_threads.h",C+"join_threads.cc"],
[("work queue with condition variable",C+"thread_pool.cc"),("joining on destruction",C+"join_threads.cc")],
state=[("work queue","accepted tasks not yet started",C+"thread_pool.h")],
observe=["submit/start/finish events recorded by the tasks and their submitters"])

p("C05","Work is split into blocks that cover the index space exactly once",
"For every extent (one or two dimensional) and every number of blocks asked for, the index ranges handed to workers lie inside the extent, are pairwise disjoint and together contain every index exactly once. Index ranges and sets of index ranges compare equal only when their bounds are equal, and report a size equal to the number of indices in them.",
["inputs"],
"all extents 0..N x 0..M and all numbers of threads 1..K (exhaustive for small values), plus random large extents",
"Tests check a few extents by hand; an off-by-one in the remainder shows only for particular extent/thread combinations.",
[A+"core/index_range.h",A+"core/index_range.cc",A+"core/index_ranges.h",A+"core/index_ranges.cc"],
[("splitting in equal blocks plus remainder",A+"core/index_ranges.cc")],
observe=["the returned ranges"])

p("C06","No-data in, domain and range errors: exactly those cells become no-data",
"An element-wise operation marks an output cell as no-data if and only if one of its inputs is no-data there, the inputs are outside the operation's domain, or the result is outside its range, as judged by the configured policies. All other cells receive the operation's value and keep their marks; a cell marked because of its inputs (no-data or domain) keeps its previous result value when marks are kept apart from values, and input arguments are never modified. This holds for every combination of argument shapes and for marks kept in a mask or as a special value.",
["inputs","configurations"],
"unary, binary and n-ary element-wise operations x all supported argument shape combinations x policies (skip, detect by mask, detect by value, mark by mask, mark by value, domain/range policy on/off) x no-data patterns",
"Tests sample a few arrays per operation and most run without no-data; shape combinations with mixed value types are not covered.",
[A+"core/unary_local_operation.h",A+"core/binary_local_operation.h",A+"core/n_ary_local_operation.h",A+"core/nullary_local_operation.h",A+"core/unary_disaggregate_operation.h",A+"policy"],
[("order of checks in the kernels",A+"core/binary_local_operation.h"),("policy classes",A+"policy/*.h")],
observe=["result values and marks per cell"])

p("C07","Arithmetic is exact or reported: no silently wrong number",
"Addition, subtraction, multiplication, division, absolute value, power and factorial, for every combination of supported argument types, store the mathematically correct result converted to the result type, or, with the range and domain policies of the operation configured, mark the cell as no-data exactly when the result is not representable or the operation is undefined (such as division by zero). They never store a wrapped or truncated number as if it were valid, and never reject a result that fits. (Operands of differing types are first converted to the result type of the operation; the statement is about operands that type can represent.)",
["inputs"],
"all pairs of the ten integer and floating point value types, boundary-biased and random values (exhaustive over 8-bit pairs)",
"Tests check a few values per type pair; overflow rules differ per signedness/width combination and need a wide reference arithmetic to judge.",
[A+"algebra/elementary",A+"core/result_type.h"],
[("range policies",A+"algebra/elementary/detail/{add,subtract,multiply,divide,absolute,factorial}.h"),("domain policies",A+"algebra/elementary/{divide,pow,factorial}.h")],
observe=["result value and mark per operand pair"])

p("C08","Real functions honour their domain and compute the right value",
"Square root, the logarithms, gamma, the trigonometric functions and the rounding functions return the correctly computed value of the function at every argument in its domain, in both floating point types and for array arguments, and with their documented domain policies (and, for gamma, range policy) configured mark exactly the arguments outside the domain (and the results that are not finite).",
["inputs"],
"all functions x float/double x arguments over the whole range: random bit patterns, domain boundaries, subnormals, halves, huge values, infinities",
"Tests check a handful of arguments; the boundaries (zero, minus zero, one ulp beyond a boundary, halves) are not sampled.",
[A+"algebra/elementary/sqrt.h",A+"algebra/elementary/log.h",A+"algebra/elementary/log2.h",A+"algebra/elementary/log10.h",A+"algebra/elementary/tgamma.h",A+"algebra/elementary/round.h",A+"algebra/elementary/ceil.h",A+"algebra/elementary/floor.h",A+"algebra/elementary/trunc.h",A+"trigonometry"],
[("domain policies","the public header of each operation")],
observe=["result value and mark per argument"])

p("C09","Comparisons and boolean operations obey ordering and truth tables",
"Equal, less, less-equal, greater and greater-equal agree with the mathematical comparison of operands of the same type (or of types that convert exactly) and are mutually consistent (complement and mirror). And, or, exclusive or, their negations and not follow their truth tables with every non-zero value counted as true; the defined operation yields one exactly at cells that hold data and zero elsewhere.",
["inputs"],
"all comparison and boolean operations x value types x shape combinations x boundary values and no-data patterns",
"Tests check a few values; consistency laws range over all values and all operations at once.",
[A+"algebra/elementary",A+"algebra/boole"],
[("comparison kernels",A+"algebra/elementary/detail/{equal,less,less_equal,greater,greater_equal}.h"),("boolean kernels",A+"algebra/boole/detail/*.h")],
observe=["result per cell"])

p("C10","Conditional selection and covering pick the right source per cell",
"The conditional operation writes the true-branch value where the condition holds and, when given, the false-branch value where it does not; a cell is marked no-data exactly when the condition or the selected branch is no-data there (and, with only a true branch, when the condition is false). Covering writes the first value when it holds data, otherwise the second, and marks a cell only when both are no-data. No other output is changed.",
["inputs","configurations"],
"all supported argument shape combinations x value types x no-data patterns x both execution policies",
"The tests check a few small cases per overload; there are tens of overloads, each with its own kernel.",
[A+"core/if.h",A+"core/detail/if.h",A+"core/cover.h",A+"core/detail/cover.h"],
[("one kernel per shape combination",A+"core/detail/if.h")],
observe=["result values and marks per cell"])

p("C11","Clamp, cast, copy and fill deliver exactly the requested values",
"Clamping yields, for bounds that hold data, the value limited to the lower and upper bound of that cell, and marks exactly the cells whose value is no-data. Casting yields the value converted to the target type and marks exactly the no-data cells. Copying a range yields exactly the selected elements, with their no-data state, in their original order from the requested position on and touches no other element; filling sets every cell to the value.",
["inputs","configurations"],
"value/bound shape combinations, all type pairs for cast with boundary values, ranges selecting none/some/all, sizes including empty, both execution policies",
"Tests contain a few literal cases and leave most overloads uninstantiated.",
[A+"core/clamp.h",A+"core/detail/clamp.h",A+"core/cast.h",A+"core/detail/cast.h",A+"core/copy.h",A+"core/detail/copy.h",A+"core/fill.h",A+"core/detail/fill.h"],
[("per-shape kernels",A+"core/detail/clamp.h"),("range policy of cast",A+"core/detail/cast.h"),("per-block positions for parallel copy",A+"core/detail/copy.h")],
observe=["result values, marks and number of copied elements"])

p("C12","Offset moves every cell by the given amount and nothing else",
"After offsetting by a vector, every result cell that has a source cell inside the data holds that cell's value and data/no-data state, and every other result cell is marked no-data or, in the variant with a fill value, holds the fill value. This holds for offsets of any sign and size, including offsets larger than the data, in one and two dimensions.",
["inputs"],
"1-d and 2-d extents x offsets from far below minus the extent to far above the extent x no-data patterns x both execution policies",
"Tests use a single small array and a few offsets.",
[A+"core/offset.h",A+"core/detail/offset.h"],
[("region arithmetic per offset sign",A+"core/detail/offset.h")],
observe=["result values and marks per cell"])

p("C13","Compressing and decompressing no-data is lossless",
"Compressing a sequence yields exactly its data values in their original order together with the count, and decompressing them with the same no-data marks restores the original sequence and its marks; positions without data are marked and no others. The same holds under the parallel policy, for any position and amount of no-data.",
["inputs"],
"lengths 0..thousands x no-data patterns (none, all, runs, alternating, only first/last) x value types x thread counts",
"Tests compress one short vector; the per-block offsets of the parallel version depend on the no-data count of every earlier block.",
[A+"core/compress.h",A+"core/detail/compress.h",A+"core/decompress.h",A+"core/detail/decompress.h"],
[("per-block counts and start positions",A+"core/detail/compress.h")],
observe=["compressed values and count","decompressed values and marks"])

p("C14","Combining no-data marks is the right set operation",
"Merging or uniting no-data marks a result cell when at least one argument is no-data there; intersecting marks it only when all arguments are. Cells that do not qualify keep their marks, and result values are never changed.",
["inputs"],
"all supported shape combinations x no-data patterns x pre-existing marks x both execution policies",
"Tests use a single small pattern per operation.",
[A+"core/merge_no_data.h",A+"core/unite_no_data.h",A+"core/intersect_no_data.h",A+"core/detail/merge_no_data.h",A+"core/detail/unite_no_data.h",A+"core/detail/intersect_no_data.h"],
[("kernels per shape combination",A+"core/detail/unite_no_data.h")],
observe=["marks and values per cell"])

p("C15","Statistics over a field equal the statistics of its data cells",
"Minimum, maximum, sum, mean and the count of a value in a field equal those of the cells that hold data, computed independently; cells marked no-data have no influence. When no cell holds data, or (with range checking on) the running sum leaves the result type, the result is marked no-data and otherwise it is not. Element-wise minimum and maximum of two arguments give the smaller and larger value per cell.",
["inputs","configurations"],
"value types x shapes (scalar, 1-d, 2-d) x extents including one cell and empty x no-data patterns x values including extremes and negatives, both execution policies",
"Tests check single small arrays mostly without no-data.",
[A+"statistic",A+"core/unary_aggregate_operation.h",A+"core/binary_aggregate_operation.h"],
[("aggregation over data cells",A+"core/unary_aggregate_operation.h"),("statistic definitions",A+"statistic/detail/*.h")],
observe=["aggregate value and mark"])

p("C16","Accumulators give the statistic of everything added, however it was merged",
"Each accumulator (count, sum, mean, minimum, maximum, range, median, mode, variance, standard deviation) reports the statistic of the multiset of values added to it. Splitting the values over any number of accumulators and merging these in any grouping gives the same answer as adding all values to one (floating point rounding apart).",
["inputs","histories"],
"sequences of add/merge/query operations over several accumulators x value types x values including negatives, duplicates and extremes",
"Tests add a few values to one accumulator and merge two; merge laws range over all splits.",
[A+"accumulator"],
[("merge operators","operator|= of every accumulator"),("frequency table and order statistics",A+"accumulator/detail/frequency_table.h")],
observe=["queried statistic after each history"])

p("C17","Convolution equals the weighted neighbourhood sum with its policies",
"Convolving a field with a kernel gives in each cell the sum of kernel weights times the neighbouring values, normalised by the used weights when so configured, for kernels of any radius that fits the field. Neighbours without data or outside the field are skipped or replaced by the average of their own neighbours as configured; a no-data focus cell stays no-data or is computed as configured, and cells without any contribution or with a non-finite result are marked. The same value results in corners, along sides and in the inner part.",
["inputs","configurations"],
"kernel radius 1..3 (weighted and boolean, asymmetric, zero weights) x field extents from twice the radius upwards x all policy combinations x no-data patterns x both execution policies",
"Tests use one or two small images; eight border cases each have their own code and policies multiply them.",
[A+"convolution"],
[("separate code for 4 corners, 4 sides and inner part",A+"convolution/detail/convolve.h"),("substitution outside the field",A+"convolution/replace_out_of_image_by_focal_average.h"),("substitution of no-data",A+"convolution/replace_no_data_by_focal_average.h")],
observe=["result values and marks per cell"])

p("C18","Slope, gradient, Laplacian and Lax follow their definitions on every raster",
"Gradients are central differences over twice the cell size inside the raster and one-sided differences at edges and next to no-data; slope, Laplacian and Lax smoothing equal their published neighbourhood formulas using the raster's cell sizes and skipping or replacing missing neighbours. No-data focus cells stay no-data and no other cell that has a neighbour with data becomes no-data unless its result, or a step of the published formula on the way to it, is not finite.",
["inputs","configurations"],
"raster extents (2x2 and up), square and rectangular cells, no-data patterns, float and double, both execution policies; metamorphic checks on planes, mirroring and scaling",
"Tests use one 3x3 or 4x4 raster with unit cells.",
[A+"algebra/vector",A+"space/focal"],
[("edge and no-data handling",A+"algebra/vector/detail/gradient.h"),("composition of convolutions and arithmetic",A+"space/focal/detail/slope.h; "+A+"algebra/vector/detail/laplacian.h; "+A+"algebra/vector/detail/lax.h")],
observe=["result values and marks per cell"])

p("C19","Result types and type sets follow one consistent promotion lattice",
"The result type of combining two numeric types is the same in either order, is at least as wide as both when they are integers (64 bits at most), is floating point if either is (then as wide as the widest floating point operand), is signed if either is, and equals the type itself for equal types. The result type of an operation is the fixed type it declares, else the type of its single argument, else the highest ranking type of its arguments. Sets of data types and value types behave as sets (union, intersection, subset, count, textual form that lists exactly the members and round-trips by name), and an expression type satisfies another exactly when both its type sets are subsets.",
["inputs"],
"all pairs of value types; all subsets of the data type and value type universes; all pairs of expression types over sampled subsets; operations with every combination of argument types",
"Tests list examples; the laws range over all pairs and subsets.",
[A+"core/result_type.h",A+"core/result_value.h",C+"flag_collection.h",C+"data_types.cc",C+"value_types.cc",C+"expression_type.cc",C+"type_traits.h",L+"operation/core/expression_type_calculation.cc",L+"operation/core/expression_types.cc"],
[("promotion table",A+"core/result_type.h"),("set operations",C+"flag_collection.h"),("result type calculation",L+"operation/core/expression_type_calculation.cc")],
observe=["types and sets returned"])

p("C20","Arrays and rasters keep their shape, cells, marks and georeference",
"Arrays, masked arrays and rasters of any extent hold what was written to them: element, linear-index and two-dimensional access address the same cell, copies, moves and clones have the extents, values and georeference they should and are independent, and cell sizes and areas follow from the georeference. A mask always has the shape of its values; importing a mask marks exactly the cells equal to the masking value in addition to those already marked, exporting it reports exactly the marked cells, and reporting whether masked values exist is accurate.",
["inputs","histories"],
"element types x 1-d and 2-d extents (including empty) x sequences of write/mask/import/export/clone/move operations",
"Tests check single constructions; histories of operations on the mask are not sampled.",
[F+"array.h",F+"masked_array.h",F+"raster.h",F+"masked_raster.h",F+"masked_scalar.h",F+"data_customization_point",C+"data_customization_point"],
[("mask kept beside the values",F+"masked_array.h"),("customization points for indexing",F+"data_customization_point/*.h")],
observe=["cells, marks, extents and georeference after each operation"])

p("C21","Reading a dataset delivers its values and no-data, or a clear error",
"Reading a raster or scalar from a file (that the destination has room for) yields exactly the stored values in their positions and, for rasters, marks exactly the cells that hold the file's no-data value (also when that value is not a number or cannot occur in the value type). A file that is missing, unreadable, damaged, not of the expected convention or lacking the requested variable gives an I/O error that names the file, never a crash, a leak or made-up values; handles can be moved and every dataset is closed exactly once.",
["inputs","fault_sequences"],
"random rasters x value types x no-data values (in range, out of range, NaN, absent) x file formats; truncated and corrupted files; missing files and variables; attribute encodings",
"Tests read one integer raster and one scalar file.",
[I+"core/file.cc",I+"gdal",I+"netcdf/core",I+"netcdf/coards",I+"gpx"],
[("no-data detection on read",I+"gdal/detail/read.h"),("error translation",I+"gdal/dataset.cc; "+I+"netcdf/coards/detail/read.h"),("handle ownership",I+"gdal/dataset_handle.cc; "+I+"netcdf/core/dataset_handle.cc")],
observe=["values, marks, exceptions, open handles"])

p("C22","Names, paths, text helpers and messages parse and compose faithfully",
"A data name splits into the database path before the colon and a normalised absolute data path without empty components, for any input of that form, whatever characters it contains and however long it is. Splitting on separators (characters without a special meaning in a bracket expression) and joining are inverse, stripping removes exactly the leading and trailing listed characters, replacing and searching agree with their definitions, and text counts as a number exactly when it converts to one; path decomposition recomposes to the same path. Every error reports a message containing all the facts it was given.",
["inputs"],
"random and adversarial strings (separators, special characters, empty parts, long strings), all message kinds",
"Tests use a few literal strings.",
[C+"string.cc",C+"string.h",C+"path.cc",C+"data_name.cc",C+"messages.cc",C+"io_error.cc",C+"parse_error.cc",C+"validate_error.cc"],
[("regular expression based splitting",C+"string.cc; "+C+"data_name.cc"),("message formats",C+"messages.cc")],
observe=["returned strings and exceptions"])

p("C23","Scoped symbol lookup always finds the innermost live definition",
"After any sequence of pushing and popping scopes, adding, replacing and erasing symbols, looking up a name gives the value of its innermost live definition at the right scope level, names defined only in popped scopes are unknown, and size and emptiness count the live definitions. Copies are independent of the original, and a guard that must run on scope exit runs exactly once unless released, also when it is moved.",
["histories"],
"random histories of push/pop/clear/add/replace/erase/copy/move/query over nested scopes and clashing names",
"Tests run one short fixed history.",
[L+"core/symbol_table.h",C+"scope.h",C+"scope_exit.h"],
[("stack of scopes searched from the innermost",L+"core/symbol_table.h"),("run-once flag",C+"scope_exit.h")],
state=[("scopes","live definitions per level",L+"core/symbol_table.h")],
observe=["query results after each step"])

p("C24","Syntax-tree and uncertainty documents are read faithfully or rejected",
"Reading the XML form of a program yields a syntax tree with the same statements, nesting, operands, literals and source positions as the document, for any combination of nested constructs; reading the XML form of a normal distribution yields its mean and standard deviation. Damaged documents, and literals that do not fit their stated size, are rejected with a parse error and never crash, and a syntax-tree or distribution object reports the values it was made from.",
["inputs","programs"],
"random syntax trees (all statement and expression kinds, deep nesting, special characters) serialised to XML; random distribution parameters; mutated documents",
"Tests for the syntax-tree reader are not even built here, and the distribution test reads one document.",
[L+"ast/xml/xml_parser.cc",L+"ast/core",L+"io/uncertml2/uncertml2_parser.cc",L+"uncertainty"],
[("stacked parser state per construct",L+"ast/xml/xml_parser.cc"),("distribution construction",L+"io/uncertml2/uncertml2_parser.cc")],
observe=["the tree or distribution, or the exception"])

p("C25","Program analyses report the flow, names and types a program really has",
"For any program tree of assignments, expressions, operation and function calls, branches, function definitions and return statements: visiting reaches every vertex once in document order (statement before its parts or after, as the visitor promises); the control flow successors put in by threading follow the order in which a step by step evaluation of the program would meet the vertices; identification links each use of a name to its latest definition in the same or an enclosing scope, and that definition back to its uses; the inputs reported are the names read before anything defines them and the outputs are the last definitions of the names assigned; annotated result types are those the named operation gives for its arguments in the order written; validation reports the first mistake, with its name, line and column; and the text written for a program, read back, is the same program.",
["programs"],
"random programs of all statement and expression kinds within the domain of each analysis, given to the visitors directly",
"Tests of these visitors are not built here (they need the Python front end); each samples a handful of programs.",
[L+"ast/visitor"],
[("successor edges and scope sentinels",L+"ast/visitor/thread_visitor.cc"),("definitions and uses",L+"ast/visitor/identify_visitor.cc"),("inputs and outputs",L+"ast/visitor/io_visitor.cc"),("stack of argument types",L+"ast/visitor/annotate_visitor.cc"),("operation and argument checks",L+"ast/visitor/validate_visitor.cc"),("text per vertex",L+"ast/visitor/module_visitor.cc")],
observe=["successors, links, inputs, outputs, types, the mistake reported, the text"])

p("C26","Features, attributes and operations report what was put into them",
"After any history of additions, a feature reports exactly the child features and attributes stored in it: a path (relative or absolute, of any depth) leads to the very object stored there and to nothing when none was, and counts and names are those of the feature the path addresses, also for features reached through a pointer or stored under two parents. A spatial attribute gives every added geometry an id of its own, under which its geometry and value are found from then on; a constant attribute holds the value last set; an attribute argument carries the attribute it was made of and its true data and value type. A registry of operations finds exactly the operations it was given, by name, and operations, parameters and results keep all they were made from when copied or assigned.",
["histories","inputs"],
"random histories of additions and queries over feature trees; random attributes of every value type and geometry; random operations, copied and assigned",
"Tests add a couple of features and attributes to one tree and never address anything below the first level by a missing path.",
[L+"feature/core",L+"feature/visitor",L+"operation/core"],
[("lookup of paths",L+"feature/core/feature.cc"),("ids of geometries",L+"feature/core/spatial_domain.h"),("type per attribute",L+"feature/visitor/attribute_type_visitor.cc"),("copies and assignments",L+"operation/core/operation.cc")],
state=[("children and attributes","what a feature holds, by name",L+"feature/core/feature.h"),("geometries and values","what a spatial attribute holds, by id",L+"feature/core/spatial_attribute.h")],
observe=["objects found, counts, names, types"])

p("C27","Programs are executed as written, or refused before anything happens",
"Executing a program evaluates its statements in the order written, each operation once, after its arguments from left to right; a name stands for the value last assigned to it, by this program or by one executed before it by the same interpreter, or else for what the data source of that name gives, which is read at its first use and at most once. Every output with a data sync is written to it exactly once, with its last value; the values of expressions that are not assigned are left on the stack, the last on top. A program with a mistake in it (a name without a value, an operation that does not exist, a wrong number or type of arguments) is refused with the place and nature of its first mistake before anything is read, written or changed, and validating a program never does more than that. When something goes wrong during execution the error names it, what came before it has happened, and the interpreter can be used for further programs. Command line arguments become the data sources and data syncs of a program in their order: data they name, numbers, or words. Errors of the script parser arrive with the source, place and message it gave.",
["programs","histories","fault sequences"],
"random histories of programs executed by one interpreter with recording data sources and data syncs, mistakes and failing reads and writes; random command lines; injected errors of the script parser",
"The tests of the interpreter are not built here (they need the Python front end); each executes a statement or two and never goes on after an error.",
[L+"interpreter",L+"operation/std",L+"compiler/parse_command_line.cc"],
[("values of names and stack",L+"interpreter/execute_visitor.cc"),("validation before execution and errors",L+"interpreter/interpreter.cc"),("types of names that are known",L+"ast/visitor/annotate_visitor.cc"),("sources and syncs",L+"interpreter/dataset_source.cc"),("arguments to sources and syncs",L+"compiler/parse_command_line.cc")],
state=[("values of names","what earlier programs left, by name",L+"interpreter/execute_visitor.h")],
observe=["reads, writes and their order","values on the stack, of names, in files","errors"])

p("C28","Datasets give back what was written to them, and report failures",
"Datasets opened through the drivers of the language give back exactly what was written to them. Attributes of a Fern dataset are found at the path they were written to, with their value and value type, after any history of writing, overwriting, updating and reopening, while everything else in the dataset stays as it was; features and attributes are counted, named and found exactly where they were put. A raster read through GDAL has the values, mask, extents, value type and geographical extent that are in the file, and a raster written through GDAL is, for any reader of that file, the raster that was written, also when it replaces or updates another one. Asking whether a dataset exists or can be opened changes nothing on disk. What is missing, unreadable, unwritable, damaged or not supported results in an I/O error that names the file and the reason, and every dataset is closed when its last user lets go of it.",
["histories","inputs","fault sequences"],
"random histories of sessions over Fern datasets; rasters of every value type, extents and mask written and read in four formats, by fern and by GDAL itself; missing, damaged, unsupported and unreachable files",
"The tests of these parts are not built; they read a few fixed files in the order that works.",
[L+"io/fern",L+"io/gdal",L+"io/core",L+"io/drivers.cc",L+"io/io_client.cc"],
[("HDF5 groups, datasets and types",L+"io/fern/fern_dataset.cc"),("GDAL bands, masks and geo transforms",L+"io/gdal/gdal_dataset.cc"),("drivers by name and in turn",L+"io/drivers.cc"),("opening and asking",L+"io/fern/fern_driver.cc")],
state=[("datasets on disk","files and what HDF5 and GDAL read from them",L+"io/core/dataset.h"),("open handles","HDF5 objects, GDAL datasets and file descriptors in use",L+"io/fern/hdf5_dataset.h")],
observe=["attributes and rasters read","what HDF5 and GDAL say is in the file","errors","open handles"])

Y="source/fern/python/"
p("C29","Rasters in Python hold and compute what the C++ algorithms would",
"Rasters created, read, written and combined through the Python package behave as values with per-cell no-data. A raster read from a file has the values, value type, extents, origin and cell size of that file, with the cells that hold the file's no-data value, and no other, as no-data; a raster written to a file is, for any reader, the raster that was written, no-data included. Addition, multiplication, comparison, the conditional and slope, called as functions or operators, with rasters and numbers on either side and for every pair of the supported value types, give per cell what the C++ algorithm defines, in a raster of the value type that algorithm yields and the geography of the argument; no-data in an argument gives no-data, and so does a result that is out of range. The operations in place change the raster they are given, and only that one, and return it. The result is the same under the sequential and the parallel execution policy. Whatever cannot be done, because of a missing file, an unsupported type, driver or path, ends in a Python exception, never in a crash of the interpreter, and no object is freed too early or twice.",
["inputs","histories","schedules"],
"random calls through the package in an embedded interpreter: all pairs of value types, rasters and numbers, files read and written, in-place operators, both policies, hostile arguments",
"The Python tests are not built or run, and they look at a handful of rasters and types.",
[Y+"algorithm",Y+"io",Y+"feature",Y+"core"],
[("value types dispatched in pairs",Y+"core/switch_on_value_type.h"),("operators bound to functions",Y+"algorithm/__init__.py.in"),("overloads for numbers",Y+"algorithm/core/python_extension.cc"),("results in place",Y+"algorithm/algebra/elementary/multiply.cc"),("GDAL types and no-data",Y+"io/gdal.cc")],
state=[("Python rasters","shared handles of rasters with their type",Y+"feature/masked_raster.h"),("files","rasters on disk as GDAL sees them",Y+"io/gdal.cc")],
observe=["values, no-data, types and geography of rasters","files as GDAL reads them","exceptions"])

p("C30","The fern command does what it is asked, and says so when it cannot",
"Executing a program with the fern command, from a file or standard input, leaves in files exactly what executing the program means; it prints nothing, and succeeds. In an interactive session every line is executed given what the lines before it left, the values it leaves are shown in order, with every number as a number, a line that fails is reported and does not end the session or affect the ones after it, and the lines are added to the history of the user, if there is one. The graph of a program has exactly the vertices and edges of that program and is valid dot, whatever text the program contains, statements of branches, loops and functions included; the graph of its control flow and uses adds the edges of the analyses. Compiling to C++ writes the module, and the driver and build file when asked for, in the directory told, and nothing else. Describing data names the features and attributes that are there and changes nothing. Whatever the arguments are, help is shown when it is asked for, superfluous, missing and unknown arguments are refused with a message and the usage of that command, and everything that fails, because of the program, its input or a destination that cannot be written, ends in a message that tells what is wrong and an exit status that tells it failed; it never ends in a crash, and never in success.",
["inputs","histories","fault sequences"],
"random programs, sessions, graphs, datasets and arguments, mixed with mistakes and with files and directories that are missing, unreadable or unwritable; the command runs as a process of its own",
"There are no tests of the command that run; what it prints and returns is not looked at.",
[L+"command",L+"compiler",L+"ast/visitor"],
[("commands, options and their refusal",L+"command/compile_command.cc"),("reporting exceptions",L+"command/fern.cc"),("the session and what it shows",L+"command/interpreter.cc"),("dot graphs",L+"ast/visitor/ast_dot_visitor.cc"),("modules, driver and build file",L+"compiler/compiler.cc")],
state=[("session","names that have a value and the stack",L+"interpreter/interpreter.cc"),("files","datasets, graphs, modules and history on disk",L+"command/command.cc")],
observe=["files","standard output and error","exit status","the history file"])
p("C31","A program compiled to C++ does what the program does",
"The code that is generated for a program of assignments, expressions and calls of the operations that exist, in a file whose name can be the name of a class, is valid C++, whatever names, numbers and text the program contains. The module it declares has as its arguments the names the program uses before giving them a value, in the order they are first used, and as its results the names the program gives a value, in the order they are last given one. Running the module reads every argument from its data source once and has the same effect as executing the program: every result is written once to its data sync, when there is one, with the value executing the program gives it, of the same type, down to the last bit of every number and character of every text; files end up the same; and when an operation fails the same error is reported and no result is written. A module that is given another number of sources than it has arguments refuses that and does nothing. The same module can be run again with other sources. The generated driver does all of this for sources and syncs named on its command line: it succeeds silently, or fails with a message and a status that tells so. A program that calls an operation that does not exist, or with another number of arguments than it takes, is not compiled: the error tells what is wrong and where, and no file is written.",
["inputs","histories","fault sequences"],
"random programs with all types of numbers and odd texts and names, random values for the arguments, wrong numbers of sources, missing files, run as modules and as programs",
"The tests of the compiler construct a Compiler and nothing else; generated code is never compiled or run.",
[L+"compiler"],
[("translation",L+"compiler/compile_visitor.cc"),("files and driver",L+"compiler/compiler.cc"),("numbers of sources and syncs",L+"compiler/module.cc"),("command line",L+"compiler/parse_command_line.cc")],
state=[("module","declared arguments and results",L+"compiler/module.h"),("files","datasets and generated files on disk",L+"compiler/compiler.cc")],
observe=["values written to data syncs","reads of data sources","datasets on disk","messages and exit status"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
