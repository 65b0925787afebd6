"""What each property's check builds and runs."""
import os
S = 'source/fern/'
LANG = ['-include', 'cassert', '-include', 'string', '-include', 'vector', '-include', 'iostream']
# Python and NumPy, and stand-ins for what their newer versions no longer have.
PYTHON = LANG + ['-I/usr/include/python3.12', '-I/usr/lib/python3/dist-packages/numpy/core/include', '-include', 'pyfront.h']
LIBS = {
    'core': {'src': [S + 'core/*.cc'], 'exclude': ['stopwatch.cc']},
    'feature': {'src': [S + 'feature/core/*.cc']},
    'algorithm': {'src': [S + 'algorithm/core/*.cc', S + 'algorithm/policy/*.cc']},
    'operation': {'src': [S + 'language/operation/core/*.cc', S + 'language/feature/core/*.cc', S + 'language/feature/visitor/*.cc'], 'flags': LANG},
    'lang_io': {'src': [S + 'language/io/core/*.cc', S + 'language/io/fern/*.cc', S + 'language/io/gdal/*.cc', S + 'language/io/*.cc'], 'flags': LANG, 'pkg': ['gdal', 'hdf5']},
    'lang_run': {'src': [S + 'language/interpreter/*.cc', S + 'language/operation/std/*.cc', S + 'language/compiler/*.cc'], 'flags': LANG, 'pkg': ['gdal', 'hdf5']},
    'lang_command': {'src': [S + 'language/command/*.cc'], 'exclude': ['fern.cc'], 'flags': LANG, 'pkg': ['gdal', 'hdf5'], 'link': ['-lreadline']},
    'py_front': {'src': [S + 'python/feature/masked_raster.cc', S + 'python/feature/numpy.cc', S + 'python/feature/python_extension.cc', S + 'python/algorithm/*.cc', S + 'python/algorithm/core/*.cc', S + 'python/algorithm/algebra/elementary/*.cc', S + 'python/algorithm/space/focal/*.cc', S + 'python/io/*.cc'],
                 'flags': PYTHON, 'pkg': ['gdal'], 'link': ['-lboost_python312', '-lpython3.12']},
    'io_gdal': {'src': [S + 'io/core/*.cc', S + 'io/gdal/*.cc'], 'pkg': ['gdal']},
    'io_netcdf': {'src': [S + 'io/core/*.cc', S + 'io/netcdf/core/*.cc', S + 'io/netcdf/coards/*.cc'], 'pkg': ['netcdf']},
    'io_gpx': {'src': [S + 'io/core/*.cc', S + 'io/gpx/*.cc'], 'link': ['-lxerces-c'], 'xsd': [
        {'mode': 'tree', 'dir': 'fern/io/gpx', 'name': 'gpx-1.0', 'args': '--namespace-map http://www.topografix.com/GPX/1/0=gpx_1_0'},
        {'mode': 'tree', 'dir': 'fern/io/gpx', 'name': 'gpx-1.1', 'args': '--namespace-map http://www.topografix.com/GPX/1/1=gpx_1_1'}]},
    'ast': {'src': [S + 'language/ast/core/*.cc'], 'flags': LANG},
    'ast_visitor': {'src': [S + 'language/ast/visitor/*.cc'], 'flags': LANG},
    'ast_xml': {'src': [S + 'language/ast/xml/*.cc'], 'flags': LANG, 'link': ['-lexpat'], 'xsd': [
        {'mode': 'parser', 'dir': 'fern/language/ast/xml', 'name': 'syntax_tree', 'args': '--namespace-map http://www.geoneric.eu/fern=fern::language'}]},
    'uncertainty': {'src': [S + 'language/uncertainty/*.cc'], 'flags': LANG},
    'uncertml': {'src': [S + 'language/io/uncertml2/*.cc'], 'flags': LANG, 'link': ['-lexpat'], 'xsd': [
        {'mode': 'parser', 'dir': 'fern/language/io/uncertml2', 'name': 'uncertml2', 'args': '--namespace-map http://www.uncertml.org/2.0=uncertml2 --generate-polymorphic'}]},
}
ALG = ['algorithm', 'feature', 'core']
SPECS = {
    'C04': {
        'technique': 'runtime monitoring: task event log with online checks and offline history checker, under ThreadSanitizer and AddressSanitizer, with stressed schedules',
        'note': 'Samples schedules; a run checks every event of every history it executes. Trusts the harness log (its own atomics) and the sanitizers.',
        'rule': 'one case = one random pool history (workers, submitters, task mix, shutdown moment); distinct by its parameters and the observed start/finish order hash; non-trivial when at least two tasks ran',
        'programs': [
            {'name': 'c04_pool', 'src': ['c04_pool.cc'], 'variants': ['tsan', 'asan'], 'libs': ALG},
        ],
    },
    'C05': {
        'technique': 'runtime monitoring: coverage oracle over the index ranges actually returned, exhaustive for small extents, under ASan/UBSan',
        'note': 'Every extent/block combination up to the stated bound is executed and judged; larger ones are sampled.',
        'rule': 'one case = one (extent, block count) pair; distinct by that pair; non-trivial when the extent is not empty',
        'programs': [
            {'name': 'c05_ranges', 'src': ['c05_ranges.cc'], 'variants': ['asan'], 'libs': ALG},
        ],
    },
    'C06': {
        'technique': 'runtime monitoring: per-cell reference of values and marks for instrumented operations with made-up domain and range policies, under ASan/UBSan',
        'note': 'Every argument shape, several type triples and all policy kinds on random extents and no-data patterns; sampled, not enumerated.',
        'rule': 'one case = one call of an element-wise operation on random arguments; distinct by operation, shapes, types, policies, execution policy, extents and content; non-trivial when the result has cells',
        'programs': [
            {'name': 'c06_marks%d' % i, 'src': ['c06_marks.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i]} for i in range(4)
        ],
    },
    'C07': {
        'technique': 'runtime monitoring: results and marks judged by a 128-bit / long double reference oracle, under ASan/UBSan',
        'note': 'All type pairs with boundary-biased and random operands; accuracy of floating point results is judged against long double with a few units in the last place.',
        'rule': 'one case = one operand pair of one operation, type pair and argument shape; distinct by all of these; every case is non-trivial (operands are steered to the edges of the result type)',
        'programs': [
            {'name': 'c07_%s' % op, 'src': ['c07_arith.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DOP=%d' % i]}
            for i, op in ((1, 'add'), (2, 'subtract'), (3, 'multiply'), (4, 'divide'))] + [
            {'name': 'c07_unary', 'src': ['c07_unary.cc'], 'variants': ['asan'], 'libs': ALG}],
    },
    'C08': {
        'technique': 'runtime monitoring: values, domain and range marks judged by long double and integer references, under ASan/UBSan',
        'note': 'Arguments are sampled (random bit patterns and every documented boundary); accuracy within a few units in the last place. Zero is in the documented domain of the logarithms (result minus infinity, no range policy).',
        'rule': 'one case = one argument of one function, type and argument shape; distinct by these; all are non-trivial (boundary-biased)',
        'programs': [
            {'name': 'c08_real%d' % i, 'src': ['c08_real.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i]} for i in range(3)
        ],
    },
    'C09': {
        'technique': 'runtime monitoring: results judged by an exact 128-bit / long double ordering and truth tables, under ASan/UBSan',
        'note': 'All ten types with boundary-biased operands (8-bit types: a full sweep of one operand against 14 boundary values of the other); shapes and mixed types sampled.',
        'rule': 'one case = one operand pair of one operation, types and shape; distinct by these',
        'programs': [
            {'name': 'c09_logic%d' % i, 'src': ['c09_logic.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i]} for i in range(2)
        ],
    },
    'C10': {
        'technique': 'runtime monitoring: per-cell oracle of selected source, value and marks around instrumented calls, under ASan/UBSan',
        'note': 'Every supported argument shape, both execution policies (also through the variant policy), marks in masks and as special values; contents sampled.',
        'rule': 'one case = one call on random arguments; distinct by operation, types, shapes, policy, extents and content; non-trivial when the result has cells',
        'programs': [
            {'name': 'c10_select%d' % i, 'src': ['c10_select.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i]} for i in range(3)
        ],
    },
    'C11': {
        'technique': 'runtime monitoring: per-cell oracle of value and marks around instrumented calls (wide-arithmetic conversion reference for cast), under ASan/UBSan',
        'note': 'All supported shapes of clamp, all pairs of ten types for cast (values the target can represent: others are undefined in C++ and have no range policy), random ranges and positions for copy; both execution policies.',
        'rule': 'one case = one clamp, copy or fill call on random arguments, or one value cast between one pair of types; distinct by operation, types, shapes, policy and content',
        'programs': [
            {'name': 'c11_deliver%d' % i, 'src': ['c11_deliver.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i]} for i in range(4)
        ],
    },
    'C12': {
        'technique': 'runtime monitoring: per-cell oracle of value, mark and source position around instrumented calls, under ASan/UBSan',
        'note': 'Random extents (also empty ones) and offsets up to the limits of the offset type, marks in masks and as special values, both variants, both execution policies.',
        'rule': 'one case = one call on random arguments; distinct by variant, types, policy, extents, offset and content; non-trivial when the result has cells',
        'programs': [{'name': 'c12_offset', 'src': ['c12_offset.cc'], 'variants': ['asan'], 'libs': ALG}],
    },
    'C13': {
        'technique': 'runtime monitoring: round-trip and per-element oracle around instrumented calls, under ASan/UBSan',
        'note': 'Random extents (also empty ones) and no-data patterns, marks in masks and as special values, compress and decompress under independently chosen execution policies.',
        'rule': 'one case = one compress and decompress of random arguments; distinct by types, policies, extents and content; non-trivial when there are cells',
        'programs': [{'name': 'c13_compress', 'src': ['c13_compress.cc'], 'variants': ['asan'], 'libs': ALG}],
    },
    'C14': {
        'technique': 'runtime monitoring: per-cell set-operation oracle of marks (values must be untouched) around instrumented calls, under ASan/UBSan',
        'note': 'Supported shapes are scalar and two dimensional; random no-data patterns and existing marks, both execution policies.',
        'rule': 'one case = one call on random arguments; distinct by operation, types, policy, extents and content; non-trivial when the result has cells',
        'programs': [{'name': 'c14_marks', 'src': ['c14_marks.cc'], 'variants': ['asan'], 'libs': ALG}],
    },
    'C15': {
        'technique': 'runtime monitoring: result and mark judged by an independent 128-bit / long double reference around instrumented calls, under ASan/UBSan',
        'note': 'Sampled contents, all supported dimensions, seven value types, both execution policies. Where only some orders of adding leave the type, marked and unmarked are both accepted (the statement is about the running sum).',
        'rule': 'one case = one call on random arguments; distinct by operation, types, shapes, policy, extents and content; non-trivial when there are cells',
        'programs': [
            {'name': 'c15_stats%d' % i, 'src': ['c15_stats.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i]} for i in range(4)
        ],
    },
    'C16': {
        'technique': 'runtime monitoring: every accumulator judged against the exact statistic of the multiset after random histories of construction, reuse, addition and merging, under ASan/UBSan',
        'note': 'Ten value types; histories are sampled. Values whose sum, range or mean of the two middle floating point values does not fit the result type are judged through the range policy only.',
        'rule': 'one case = one multiset with one history per accumulator, or one sequence of range checked additions and merges; distinct by values and history',
        'programs': [
            {'name': 'c16_accumulators%d' % i, 'src': ['c16_accumulators.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i]} for i in range(4)
        ],
    },
    'C17': {
        'technique': 'runtime monitoring: per-cell long double reference of value and mark around instrumented calls, under ASan/UBSan',
        'note': 'All combinations of the five policies, kernels of radius 0 to 4 (both kernel classes, four weight types) on rasters from exactly twice the radius upwards, both execution policies; contents sampled.',
        'rule': 'one case = one convolution of a random raster with a random kernel; distinct by types, policies, extents, radius and content; non-trivial when there are cells',
        'programs': [
            {'name': 'c17_convolve%d' % i, 'src': ['c17_convolve.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i]} for i in range(4)
        ],
    },
    'C18': {
        'technique': 'runtime monitoring: per-cell long double reference of value and mark around instrumented calls, under ASan/UBSan',
        'note': 'Random rasters (also empty and one row or column for the gradients; from two rows and columns, which the 3x3 kernel needs, for the others), cell sizes and no-data patterns, both execution policies, float and double.',
        'rule': 'one case = one call on a random raster; distinct by operation, type, policy, extents and content; non-trivial when there are cells',
        'programs': [
            {'name': 'c18_vector%d' % i, 'src': ['c18_vector.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i]} for i in range(5)
        ],
    },
    'C19': {
        'technique': 'runtime monitoring: set and lattice oracle over the types and sets actually produced (all type pairs and all subsets exhaustively, operations sampled), under ASan/UBSan',
        'note': 'All pairs of ten numeric types, all subsets of both type universes; pairs of subsets, expression types and operations are sampled.',
        'rule': 'one case = one type pair (and argument shape), one subset, one pair of subsets or expression types, or one operation with argument types; distinct by these',
        'programs': [
            {'name': 'c19_types', 'src': ['c19_types.cc'], 'variants': ['asan'], 'libs': ['operation', 'feature', 'algorithm', 'core']},
            {'name': 'c19_names', 'src': ['c19_names.cc'], 'variants': ['asan'], 'libs': ['core']},
        ],
    },
    'C20': {
        'technique': 'runtime monitoring: model-based oracle of cells, marks, extents and georeference after every step of random histories, under ASan/UBSan',
        'note': 'One to three dimensions, four container kinds, three element types, histories of up to twenty steps; sampled.',
        'rule': 'one case = one history on one container (or one construction from a list, scalar history or fixed-size raster); distinct by container, extents and steps; non-trivial when there are cells',
        'programs': [
            {'name': 'c20_containers%d' % i, 'src': ['c20_containers.cc'], 'variants': ['asan'], 'libs': ['feature', 'core'], 'flags': ['-DPART=%d' % i]} for i in range(2)
        ],
    },
    'C22': {
        'technique': 'runtime monitoring: definitional oracle over the strings, paths, data names and messages returned, under ASan/UBSan',
        'note': 'Random and adversarial strings up to a few thousand characters, some of hundreds of thousands; separators of split are those that mean themselves in a bracket expression (documented).',
        'rule': 'one case = one call of one helper on random text, one data name, one path pair or one error with random facts; distinct by the text',
        'programs': [{'name': 'c22_text', 'src': ['c22_text.cc'], 'variants': ['asan'], 'libs': ['core']}],
    },
    'C23': {
        'technique': 'runtime monitoring: model-based oracle of every query after every step of random histories; exactly-once count of guarded functions, under ASan/UBSan',
        'note': 'Histories up to forty steps on three value types, nine names; scopes, untyped stacks and guards moved, passed, released and unwound; sampled.',
        'rule': 'one case = one history of a symbol table, scope or stack, or one guard life; distinct by its steps',
        'programs': [{'name': 'c23_symbols', 'src': ['c23_symbols.cc'], 'variants': ['asan'], 'libs': ['core']}],
    },
    'C21': {
        'technique': 'runtime monitoring: files with known content, damage and faults; oracle of cells, marks and errors; accounting of open datasets and descriptors, under ASan/UBSan',
        'note': 'Rasters of all seven value types in three formats, text grids, NetCDF scalars of all types, GPX documents; damage by truncation, garbage, permissions and links. Trusts GDAL, NetCDF and Xerces to read back what they wrote.',
        'rule': 'one case = one file read, one damaged copy, one failing request, one history of handles; distinct by its parameters and content',
        'programs': [{'name': 'c21_raster', 'src': ['c21_raster.cc'], 'variants': ['asan'], 'libs': ['io_gdal', 'feature', 'core']},
            {'name': 'c21_netcdf', 'src': ['c21_netcdf.cc'], 'variants': ['asan'], 'libs': ['io_netcdf', 'core']},
            {'name': 'c21_gpx', 'src': ['c21_gpx.cc'], 'variants': ['asan'], 'libs': ['io_gpx', 'core'], 'flags': ['-DSRC=' + os.environ.get('VERIF_REPO', '/repo') + '/source']}],
    },
    'C24': {
        'technique': 'runtime monitoring: documents serialised from known trees, tree read back compared vertex by vertex with the model; damaged documents must raise the parse error, under ASan/UBSan',
        'note': 'Random programs of all statement and expression kinds, up to 2000 levels of one construct; structured and byte-level damage; sampled. Trusts expat and the generated parsing skeletons.',
        'rule': 'one case = one document, one damaged document, one distribution or one set of vertices; distinct by content',
        'programs': [{'name': 'c24_trees', 'src': ['c24_trees.cc'], 'variants': ['asan'], 'libs': ['ast_xml', 'uncertml', 'ast', 'uncertainty', 'operation', 'feature', 'core']}],
    },
    'C25': {
        'technique': 'runtime monitoring: analyses of random programs compared vertex by vertex with a model (flow edges, definitions and uses, inputs and outputs, types, first mistake, text read back), under ASan/UBSan',
        'note': 'Random programs of all statement and expression kinds within the stated domain of each analysis; sampled. Trees are built directly, not read from XML.',
        'rule': 'one case = one program given to one analysis; distinct by the program; non-trivial when it has statements',
        'programs': [{'name': 'c25_analysis', 'src': ['c25_analysis.cc'], 'variants': ['asan'], 'libs': ['ast_visitor', 'ast', 'operation', 'feature', 'core']}],
    },
    'C26': {
        'technique': 'runtime monitoring: model-based oracle of feature trees, attributes, arguments and operations after every step of random histories, under ASan/UBSan',
        'note': 'Random histories of additions and queries by relative and absolute paths, features shared between parents, all attribute value types; sampled.',
        'rule': 'one case = one history of a tree or attribute, or one operation; distinct by its steps; non-trivial when it has more than one step',
        'programs': [{'name': 'c26_features', 'src': ['c26_features.cc'], 'variants': ['asan'], 'shards': {'quick': 4, 'thorough': 8}, 'libs': ['operation', 'feature', 'core']}],
    },
    'C27': {
        'technique': 'runtime monitoring: model-based oracle over random programs executed one after the other, with recorded reads of sources and writes to syncs, judged against the order and values a reference interpretation gives, under ASan/UBSan',
        'note': 'Programs of literals of every type, names, assignments, abs, read and write; one mistake or one failure in some of them. They enter as the XML the script parser would produce: that parser needs Python 2 and is replaced by a stand-in. Sampled.',
        'rule': 'one case = one history of programs executed by one interpreter, one command line or one error of the front end; distinct by its programs; non-trivial when a program was executed',
        'programs': [{'name': 'c27_run', 'src': ['c27_run.cc'], 'variants': ['asan', 'ndebug'], 'libs': ['lang_run', 'lang_io', 'ast_visitor', 'ast_xml', 'ast', 'operation', 'feature', 'core']}],
    },
    'C29': {
        'technique': 'runtime monitoring: per-cell oracle over random calls made through the Python package in an embedded interpreter, files cross-checked with GDAL, under ASan/UBSan with Python objects on the guarded heap',
        'note': 'All pairs of the seven value types the package supports, rasters and numbers on either side, functions and operators, both execution policies. The parts of Boost.Python and NumPy that no longer exist are stood in for. Sampled.',
        'rule': 'one case = one call; distinct by its arguments',
        'programs': [{'name': 'c29_python', 'src': ['c29_python.cc'], 'variants': ['asan'], 'libs': ['py_front', 'io_gdal', 'algorithm', 'feature', 'core'], 'env': {'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1'}}],
    },
    'C30': {
        'technique': 'runtime monitoring: the program itself run as a child process for random programs, interactive sessions, graphs, data and arguments; files, output, errors, status and history judged against a model, under ASan/UBSan and without assertions',
        'note': 'Scripts enter as the XML the script parser would produce: that parser needs Python 2 and is replaced by a stand-in. Sampled. Everything happens in a scratch directory.',
        'rule': 'one case = one sequence of commands; distinct by its programs and arguments; non-trivial when a program was executed or drawn',
        'programs': [{'name': 'c30_command', 'src': ['c30_command.cc', 'c30_fern.cc'], 'variants': ['asan', 'ndebug'], 'libs': ['lang_command', 'lang_run', 'lang_io', 'ast_visitor', 'ast_xml', 'ast', 'operation', 'feature', 'core']},
                     {'name': 'c30_graphs', 'scale': 5, 'src': ['c30_graphs.cc'], 'variants': ['asan'], 'libs': ['ast_visitor', 'ast', 'operation', 'feature', 'core']}],
    },
    'C31': {
        'technique': 'runtime monitoring: random programs translated, the code compiled, loaded and run next to a model of the program, with recorded reads of sources and writes to syncs, and as the generated program itself in a child process; the translator and the libraries under ASan/UBSan',
        'note': 'Programs of literals of every type, names, assignments, abs, read and write. They enter as the XML the script parser would produce: that parser needs Python 2 and is replaced by a stand-in. Sampled. Everything happens in a scratch directory.',
        'rule': 'one case = one program run with one set of sources and syncs, or its driver with one command line; distinct by these; non-trivial when the program has statements',
        'programs': [{'name': 'c31_compiled', 'loads': True, 'src': ['c31_compiled.cc'], 'variants': ['asan'], 'libs': ['lang_run', 'lang_io', 'ast_visitor', 'ast_xml', 'ast', 'operation', 'feature', 'core']}],
    },
    'C28': {
        'technique': 'runtime monitoring: model-based oracle over random histories of datasets written, read and reopened, cross-checked with the HDF5 and GDAL libraries, with open-handle accounting, under ASan/UBSan',
        'note': 'Fern (HDF5) datasets of constants of every numeric type at random paths; GDAL rasters of every supported type in four formats with masks and geographical extents; drivers and clients in random order; hostile files. Sampled. Everything happens in a scratch directory.',
        'rule': 'one case = one history of a dataset, one raster written or read, or one set of hostile files; distinct by its steps; non-trivial when something was written',
        'programs': [{'name': n, 'src': [n + '.cc'], 'variants': ['asan', 'ndebug'], 'libs': ['lang_io', 'operation', 'feature', 'core']} for n in ('c28_fern', 'c28_gdal')],
    },
    'C01': {
        'technique': 'runtime monitoring: differential oracle (sequential result) over stalled and delayed schedules, with a late-write monitor after every return, under ASan/UBSan',
        'note': 'Every algorithm in at least two argument shapes; pools of 1 to 17 workers, delays injected through the no-data policies the algorithms call back, busy workers ahead of the call. Schedules are sampled.',
        'rule': 'one case = one call under one parallel policy compared with the sequential result of the same arguments; distinct by call, extents, policy and the observed order in which workers read the arguments',
        'programs': [{'name': 'suite%d' % i, 'src': ['suite.cc'], 'variants': ['asan'], 'libs': ALG, 'flags': ['-DPART=%d' % i], 'args': ['--mode', 'same']} for i in range(5)],
    },
    'C02': {
        'technique': 'race detection: ThreadSanitizer over every parallel algorithm, alone and by several client threads of one pool, with injected delays; per-client results judged',
        'note': 'The delays and the schedule log use relaxed atomics only, so they add no ordering. Schedules are sampled; ThreadSanitizer reports a race whenever the accesses are unordered in the observed run, not only when they collide.',
        'rule': 'one case = one to four client threads making one to three calls each on one pool; distinct by call, extents, policy and the observed order in which workers read the arguments',
        'programs': [{'name': 'suite%d' % i, 'src': ['suite.cc'], 'variants': ['tsan'], 'libs': ALG, 'flags': ['-DPART=%d' % i], 'args': ['--mode', 'race']} for i in range(5)],
    },
    'C03': {
        'technique': 'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer over every algorithm on degenerate extents and extreme values; Valgrind memcheck with result values poisoned before the call and judged cell by cell after it',
        'note': 'Both execution policies; arguments satisfy the documented preconditions. The other checks add sanitizer coverage of their own workloads. Contents sampled.',
        'rule': 'one case = one call; distinct by call, extents, policy and content',
        'programs': [{'name': 'suite%d' % i, 'src': ['suite.cc'], 'variants': ['asan', 'memcheck'], 'libs': ALG, 'flags': ['-DPART=%d' % i], 'args': ['--mode', 'hostile']} for i in range(5)],
    },
}

# More of the quick workload where it is cheap: factor of the quick figures, and
# processes with seeds of their own.
for prop, (factor, shards) in {'C04': (3, 2), 'C05': (3, 2), 'C06': (15, 2), 'C07': (6, 3), 'C08': (8, 2), 'C09': (16, 2), 'C10': (4, 2), 'C12': (6, 3), 'C11': (6, 2), 'C13': (6, 3),
                               'C14': (15, 3), 'C16': (6, 3), 'C17': (6, 2), 'C18': (3, 2), 'C19': (3, 2), 'C20': (15, 2),
                               'C21': (1.5, 1), 'C22': (1, 3), 'C23': (6, 4), 'C25': (2, 4), 'C27': (3, 3), 'C28': (3, 3), 'C29': (1, 3), 'C30': (1, 3), 'C31': (4, 6), 'C01': (1, 4), 'C03': (1, 2)}.items():
    for program in SPECS[prop]['programs']:
        program.setdefault('scale', factor)
        program.setdefault('shards', {'quick': shards, 'thorough': 2 * shards})
