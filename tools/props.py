"""Property descriptions (source of properties.jsonl and MANIFEST.json)."""

PROPS = [
 dict(id='P01', title='Shared intermediate files are only used under the right lock',
  statement='Every intermediate file that several kerncraft processes may share is read only while '
            'a shared lock on it is held (or an exclusive one after the reading process wrote it) '
            'and written only while an exclusive lock on it is held; the exclusive lock is given '
            'up on success only after the file was completely written. No operation returns to '
            'its caller still holding an exclusive lock, and locks of different intermediates are '
            'acquired in an order that admits no deadlock.',
  over=['schedules', 'programs'],
  qtext='all interleavings of any number of concurrent kerncraft processes working on the same '
        'kernel file, and all paths through the code that creates or uses intermediates',
  why='The tests run one process at a time; a missing or too weak lock, a release before the data '
      'is flushed or a wrong acquisition order only shows under particular interleavings.',
  files=['kerncraft/kernel.py', 'kerncraft/cacheprediction.py', 'kerncraft/incore_model.py'],
  mech=[('lock acquisition with freshness re-check', 'kernel.py KernelCode.lock_intermediate'),
        ('degrade to shared', 'kernel.py KernelCode.release_exclusive_lock'),
        ('lock order', 'kernel.py compile_kernel, build_executable, incore_analysis')],
  observe=['flock calls and opens of files below .<kernel>_kerncraft/'],
  technique='typestate analysis (lock modes) over the interprocedural abstract program',
  level_note='All paths of the analysed functions, exceptional ones included, are covered by an '
             'over-approximating abstract interpretation; trusts flock semantics and the '
             'recognition of lock files by their name suffix.'),
 dict(id='P02', title='Everything a cached artefact depends on selects where it is cached',
  statement='Whatever input can change the content of a cached intermediate or analysis (machine, '
            'compiler and flags, in-core model, block and pointer increment selection, core '
            'count, values of constants, OpenMP mode) also selects its location. A run therefore '
            'never reads an artefact made for different settings.',
  over=['histories', 'configurations'],
  qtext='all sequences of runs that share a kernel file, with any combination of settings',
  why='Tests use fresh directories and one setting each; reuse of a stale artefact needs two runs '
      'with particular differing settings.',
  files=['kerncraft/kernel.py', 'kerncraft/cacheprediction.py', 'kerncraft/machinemodel.py'],
  mech=[('location from dependencies', 'kernel.py KernelCode.get_intermediate_location'),
        ('callers name their dependencies',
         'kernel.py incore_analysis, get_main_code, compile_kernel; cacheprediction.py '
         'LayerConditionPredictor.__init__, CacheSimulationPredictor.__init__')],
  observe=['paths and contents of files below .<kernel>_kerncraft/'],
  technique='data and control dependence analysis by abstract interpretation (content vs. path)',
  level_note='Dependences are over-approximated for content and under-approximated for paths '
             '(only injective occurrences count); trusts that external tools are functions of '
             'their command line and inputs and that a machine file name identifies a machine.'),
 dict(id='P03', title='Cached intermediates are reused only when newer than all their sources',
  statement='A cached intermediate is reused only if its modification time is strictly later than '
            'that of the machine description file, of the kernel file and of every file of the '
            'installed package, all compared on the same clock. Otherwise it is created anew, '
            'also if another process created or replaced it while this one waited for the lock.',
  over=['histories', 'schedules', 'fault_sequences'],
  qtext='all histories of edits to kernel file, machine file and package, and all paths through '
        'the decision between reading and re-creating',
  why='Whether a stale file is taken for fresh depends on modification times, on the time zone '
      'and on which of the inputs changed; tests always start without cached files.',
  files=['kerncraft/kernel.py', 'kerncraft/kerncraft.py', 'kerncraft/machinemodel.py'],
  mech=[('freshness gate', 'kernel.py KernelCode.lock_intermediate, _check_freshness'),
        ('package time stamp', 'kerncraft.py get_last_modified_datetime'),
        ('machine time stamp', 'machinemodel.py MachineModel.get_last_modified_datetime')],
  observe=['mode returned by the lock operation', 'mtime of intermediates and inputs'],
  technique='path-sensitive abstract interpretation: branch conditions of read paths must imply '
            'the time order',
  level_note='All paths of the gate are enumerated; what a path establishes is read off its '
             'branch conditions. Trusts the clock that sets modification times and that reads go '
             'through the gate (P01).'),
 dict(id='P04', title='The whole report goes to the stream the caller asked for',
  statement='Every line of report text that the models and the kernel produce when asked to report to a '
            'given stream is written to that stream and to no other. This holds for every model, '
            'every verbosity and every nested model, and the command line hands its stream on to '
            'every part of the report.',
  over=['inputs', 'configurations'],
  qtext='all models, all combinations of verbosity, units and results, any output stream',
  why='Which lines are printed depends on results, units and verbosity; tests look at standard '
      'output or the stored results, where lines that went to the wrong stream do not show.',
  files=['kerncraft/models/ecm.py', 'kerncraft/models/roofline.py',
         'kerncraft/models/benchmark.py', 'kerncraft/models/layer_condition.py',
         'kerncraft/models/standalone_pheno.py', 'kerncraft/models/standalone_benchmark.py',
         'kerncraft/kernel.py', 'kerncraft/kerncraft.py'],
  mech=[('report methods', 'models/*.py report(); kernel.py print_*'),
        ('caller', 'kerncraft.py run')],
  observe=['text written to the requested stream', 'text written to standard output'],
  technique='dataflow of the stream parameter through all print and write calls reachable from '
            'report operations',
  level_note='Covers every print/write call site reachable from the report operations. Redirecting '
             'sys.stdout globally instead of passing the stream is not recognised.'),
 dict(id='P05', title='A cached result equals the freshly computed one',
  statement='An in-core analysis or cache prediction that takes its result from a cached '
            'intermediate returns, and leaves behind for later use, exactly what the run that '
            'created the intermediate returned and left behind. Nothing that later '
            'operations need is missing, mixed up or changed on only one of the two ways.',
  over=['histories', 'inputs'],
  qtext='all histories in which an analysis is repeated, and all kernels, machines and settings',
  why='Tests run each analysis once in a fresh directory; a difference between first and later '
      'runs shows only in the second run, and only where the missing part is used.',
  files=['kerncraft/kernel.py', 'kerncraft/cacheprediction.py'],
  mech=[('load and store', 'kernel.py KernelCode.incore_analysis; cacheprediction.py '
         'LayerConditionPredictor.__init__, CacheSimulationPredictor.__init__')],
  observe=['values returned by incore_analysis', 'values returned by the predictors\' get_*'],
  technique='relational abstract interpretation: loading path against storing path',
  level_note='Compares symbolic values of both paths component-wise for all inputs at once. Trusts '
             'that serialisation round-trips objects, and P02/P03 for the choice of the file.'),
 dict(id='P06', title='Analyses, reports and queries leave their inputs unchanged',
  statement='Constructing, analysing or reporting any performance model or cache prediction, and '
            'asking a kernel or machine model any question, changes neither the kernel, nor the '
            'machine model, nor the settings or arguments it was given, nor tables shared by the '
            'whole process. Arithmetic and combination of quantities and intervals leaves the '
            'operands unchanged. So the order and number of analyses never influences results.',
  over=['histories', 'inputs'],
  qtext='all sequences of analyses, reports and queries on the same kernel, machine and settings, '
        'for all models and predictors',
  why='A shared list or syntax tree node changed in place only shows in a later operation on the '
      'same objects, usually another model or the next point of a sweep; tests mostly use fresh '
      'objects.',
  files=['kerncraft/kernel.py', 'kerncraft/machinemodel.py', 'kerncraft/cacheprediction.py',
         'kerncraft/models/ecm.py', 'kerncraft/models/roofline.py',
         'kerncraft/models/benchmark.py', 'kerncraft/models/layer_condition.py',
         'kerncraft/prefixedunit.py', 'kerncraft/intervals.py'],
  mech=[('copies before transformation', 'kernel.py _build_array_declarations, '
         'get_kernel_loop_nest, get_scalar_declarations; machinemodel.py get_cachesim'),
        ('fresh results', 'prefixedunit.py operators; intervals.py Intervals.__init__')],
  observe=['kernel, machine and argument objects before and after an operation'],
  technique='interprocedural effect and alias analysis (access paths) by abstract interpretation',
  level_note='Every assignment, item assignment and mutating call reachable from the operations '
             'is an obligation. Effects hidden in other packages are limited to known mutating '
             'functions; the stand-alone binary benchmark model, which completes its description '
             'by design, is excluded.'),
 dict(id='P07', title='Answers remembered in memory never go stale and are never altered',
  statement='Whatever a kernel, machine model or helper function remembers from an earlier call is '
            'given out again only if asking anew would give the same answer: changing a constant '
            'or updating the machine drops what was computed from it, and different arguments '
            'never share an answer. Nobody who receives a remembered answer, or an object built '
            'from one, can change what later callers get.',
  over=['histories', 'inputs'],
  qtext='all sequences of changes to kernels and machine models and questions to them, with all '
        'argument values',
  why='Stale or altered answers need a particular sequence: ask, change, ask again; tests create '
      'new objects instead.',
  files=['kerncraft/kernel.py', 'kerncraft/machinemodel.py', 'kerncraft/kerncraft.py'],
  mech=[('memoised methods and their invalidation', 'kernel.py Kernel.subs_consts, '
         'global_iterator, set_constant, clear_state'),
        ('simulator reuse', 'machinemodel.py MachineModel.get_cachesim, update'),
        ('memoised readouts and machine files', 'machinemodel.py get_machine_readouts, '
         'get_memory_hierarchy, MachineModel.__init__')],
  observe=['values returned by repeated calls around a change'],
  technique='typestate (filled, empty, dirty) and dependence analysis of memoised functions, '
            'attributes and tables; alias analysis of their results',
  level_note='All methods that may change an attribute a remembered answer depends on are '
             'interpreted on all paths. What the operating system reports is assumed constant '
             'during a process.'),
 dict(id='P08', title='Each sweep point is analysed afresh and filed under what determines it',
  statement='Every combination of all values given for the constants of a kernel (ranges and '
            'spaced ranges stand for exactly the values they describe) is analysed by every '
            'selected model, newly built for it, from a cleaned kernel that has exactly the '
            'values of that combination. Its '
            'results are filed under a key that determines the combination, the model and every '
            'option that can influence them, so no result replaces or is taken for another. The '
            'run refuses to start unless every symbol in array sizes, loop bounds and indices '
            'other than loop counters has a value.',
  over=['inputs', 'configurations', 'histories'],
  qtext='all kernels, all sets of constants, models and options, and every sequence of sweep '
        'points within a run and of runs adding to the same results file',
  why='State left from the previous point, or two settings with the same key, shows only in '
      'sweeps over several points or repeated runs with particular differing options.',
  files=['kerncraft/kerncraft.py', 'kerncraft/kernel.py', 'kerncraft/models/ecm.py',
         'kerncraft/models/roofline.py', 'kerncraft/models/benchmark.py',
         'kerncraft/models/layer_condition.py'],
  mech=[('sweep loop and required constants', 'kerncraft.py run'),
        ('result key', 'kerncraft.py identifier_from_arguments, to_tuple'),
        ('descriptions of values', 'kerncraft.py AppendStringRange, space, uniquify'),
        ('reset', 'kernel.py Kernel.clear_state')],
  observe=['constants of the kernel during analyze()', 'keys and values of the stored results'],
  technique='dependence analysis (result vs. key) and typestate of kernel and models over the '
            'sweep loop by abstract interpretation',
  level_note='Dependences of results on options are over-approximated through all models. The '
             'required set is compared symbolically with what a kernel consists of. Trusts that '
             'equal strings mean equal settings.'),
 dict(id='P09', title='Results files keep what they hold and are only replaced when complete',
  statement='A results file keeps every entry it holds when results are added or files are '
            'merged. It is replaced only by renaming a completely written and closed file of the '
            'same directory, never changed in place, and a file that holds something unreadable '
            'is left as it is. New results are saved before the analysis of the next '
            'combination of constants starts.',
  over=['crash_points', 'histories', 'fault_sequences'],
  qtext='all points at which a run may be interrupted, all failures while reading and writing, '
        'and all sequences of runs and merges',
  why='Loss of results needs an interruption between particular operations or a failing read; '
      'tests run to completion.',
  files=['kerncraft/kerncraft.py', 'kerncraft/picklemerge.py'],
  mech=[('load, replace, save per point', 'kerncraft.py run, create_parser'),
        ('merging', 'picklemerge.py main, update')],
  observe=['file system operations on the results file', 'entries of the file after each run'],
  technique='typestate analysis of files over all paths, exceptional ones included, by abstract '
            'interpretation; containment analysis of what is written',
  level_note='All paths of the programs that write results are covered. Trusts atomicity of '
             'rename within a directory; durability (fsync) and concurrent writers are not '
             'addressed.'),
 dict(id='P10', title='A failing external program never yields a result',
  statement='If a compiler, in-core analyzer or measuring tool is missing, fails, or prints output '
            'without the figure looked for, the operation that needed it ends with an error, and '
            'nothing is invented, defaulted or recorded in its place. Where several candidates '
            'are tried in turn, the result stems from those that succeeded. Commands are run as '
            'argument lists that neither a shell nor splitting at blanks interprets.',
  over=['fault_sequences', 'inputs'],
  qtext='every way in which any of the external programs can fail at any of its uses, and all '
        'file names and options',
  why='The tools are replaced or skipped in tests, and no test makes one fail in the middle of an '
      'analysis.',
  files=['kerncraft/kernel.py', 'kerncraft/incore_model.py', 'kerncraft/machinemodel.py',
         'kerncraft/models/benchmark.py', 'kerncraft/models/standalone_benchmark.py'],
  mech=[('compiler runs', 'kernel.py assemble_to_object, compile_kernel, build_executable'),
        ('analyzers', 'incore_model.py llvm_mca_analyse_instrumented_assembly, '
         'iaca_analyse_instrumented_binary'),
        ('likwid', 'machinemodel.py measure_bw, find_fastest_bench_kernel, get_machine_readouts; '
         'models/benchmark.py perfctr')],
  observe=['outcome of operations when a program on the search path fails'],
  technique='typestate analysis (failed / not found) over all paths by interprocedural abstract '
            'interpretation; provenance of results',
  level_note='Every call site of an external program and every search in its complete output is '
             'an obligation on all paths. Lines of output that do not match a line pattern may be '
             'skipped; wrong but well-formed output is not addressed.'),
 dict(id='P11', title='Interrupted creation never leaves a usable-looking partial file',
  statement='If creating an intermediate file is interrupted at any point (crash, Ctrl-C, failing '
            'program, full disk), no later or concurrent run takes the incomplete file for a '
            'finished one; it is created anew. A file counts as finished only after it was '
            'completely written and closed without an error.',
  over=['crash_points', 'schedules'],
  qtext='all points at which creating any intermediate may be interrupted, and all later and '
        'concurrent runs',
  why='A partial file is only left behind by an interruption at a particular instruction; its '
      'time stamp is newer than all inputs, so that nothing but the state left in the lock file '
      'tells it from a finished one.',
  files=['kerncraft/kernel.py', 'kerncraft/cacheprediction.py'],
  mech=[('mark in the lock file', 'kernel.py lock_intermediate, release_exclusive_lock, '
         '_is_complete'),
        ('writers', 'kernel.py get_kernel_header, get_kernel_code, get_main_code, '
         'assemble_to_object, compile_kernel, incore_analysis, build_executable; '
         'cacheprediction.py predictors')],
  observe=['intermediates read by a run that follows an interrupted one'],
  technique='typestate analysis of the completeness mark over all paths, exceptional ones '
            'included, by interprocedural abstract interpretation',
  level_note='All paths through the gate and of every writer are covered. Trusts that a writer '
             'that returned normally wrote everything; durability after power loss (fsync) is '
             'not addressed.'),
 dict(id='P12', title='Every reported figure is in the unit it is labelled with',
  statement='Every number a performance model stores or prints with a unit (cycles per iteration '
            'or per cacheline, iterations per second, FLOP per second, bytes per second, bytes, '
            'seconds) is in exactly that unit, decimal prefix included, whatever the kernel, '
            'machine and options are, loops with a step other than one included. Quantities '
            'that are added, maximised or compared with each other have the same unit, and no '
            'performance unit the user may ask for is converted by another unit\'s rule.',
  over=['inputs', 'programs', 'configurations'],
  qtext='all kernels, machine descriptions, units and options of every performance model, on all '
        'paths',
  why='A wrong factor (iterations for elements, cachelines for bytes, a divisor for a multiplier) '
      'changes nothing for the step, datatype or unit a test uses, and expected numbers are '
      'rarely checked with their unit.',
  files=['kerncraft/models/ecm.py', 'kerncraft/models/roofline.py',
         'kerncraft/models/benchmark.py', 'kerncraft/models/layer_condition.py'],
  mech=[('cycles and bandwidths', 'models/ecm.py calculate_cycles, conv_cy, ECMCPU.analyze'),
        ('roofline', 'models/roofline.py calculate_cache_access, analyze, conv_perf'),
        ('measurements', 'models/benchmark.py analyze')],
  observe=['results and reports of the models'],
  technique='dimension analysis (types of physical units) over all paths by interprocedural '
            'abstract interpretation',
  level_note='Every label whose quantity has a known dimension is an obligation; constant factors '
             'other than decimal scales have no dimension and are not addressed.'),
 dict(id='P13', title='Prefixed quantities keep their value',
  statement='A quantity with a decimal prefix (k, M, G, ...) means the number times that power of '
            'ten, wherever it is parsed, compared, converted, computed with or printed. Changing '
            'the prefix never changes the quantity, and every prefix that is accepted in text '
            'is known.',
  over=['inputs'],
  qtext='all values, prefixes and units',
  why='Tests use two or three prefixes; an error in the rest only shows with machines or units '
      'outside the samples.',
  files=['kerncraft/prefixedunit.py', 'kerncraft/machinemodel.py'],
  mech=[('table and parsing', 'prefixedunit.py PREFIXES, __init__'),
        ('arithmetic and conversion', 'prefixedunit.py base_value, with_prefix, good_prefix'),
        ('quantities made from tool output', 'machinemodel.py get_machine_topology, get_bandwidth')],
  observe=['values of quantities after parsing, arithmetic, conversion and printing'],
  technique='scale analysis by abstract interpretation of every method and of the code that '
            'makes quantities from tool output; table and pattern lint',
  level_note='Every method, every entry of the table and every pattern is covered; rounding of '
             'floating-point numbers is not addressed.'),
 dict(id='P14', title='Iterations, loop counters, elements and bytes are never mixed up',
  statement='Wherever loop nests, array subscripts and caches are turned into numbers of '
            'iterations, loop counters, element offsets, byte addresses and sizes, a quantity '
            'counted in one of them is never combined with, compared to or handed out as another, '
            'for every step of the loops, number of dimensions and data type. Addresses follow '
            'row-major order, each made of the subscripts, sizes and base address of one array; '
            'loads stem from what the kernel reads and stores from what it writes.',
  over=['programs', 'inputs'],
  qtext='all loop nests (bounds, steps, depths), array shapes, data types and accesses',
  why='Tests use loops of step one, where iterations and counters coincide, and mostly double '
      'precision; a missing or extra factor cancels out in the kernels tested.',
  files=['kerncraft/kernel.py', 'kerncraft/cacheprediction.py'],
  mech=[('iteration space', 'kernel.py iteration_length, global_iterator_to_indices, '
         'global_iterator, max_global_iteration'),
        ('addresses', 'kernel.py array_sizes, access_to_sympy, compile_global_offsets'),
        ('cache predictors', 'cacheprediction.py build_symbolic_LCs, simulate, '
         '_align_iteration_with_cl_boundary')],
  observe=['iteration numbers, addresses and layer conditions computed for a kernel'],
  technique='dimension analysis by interprocedural abstract interpretation; provenance of '
            'addresses',
  level_note='Every function of the kernel geometry and both predictors are covered. Errors that '
             'keep the unit (an off-by-one, a wrong rounding) are not addressed; the warm-up of '
             'the cache simulator is exempt, it counts elements on purpose.'),
 dict(id='P15', title='Every part of a kernel is accounted for, or the kernel is refused',
  statement='A kernel that is accepted has every array or variable it reads and writes recorded '
            'with its subscripts in order, every arithmetic operation counted once under its '
            'operator, and every loop recorded with its counter, bounds and step and every '
            'declaration with its type and sizes. Whatever the analyses do not account for ends '
            'in an error instead of being left out.',
  over=['programs'],
  qtext='all kernels the C grammar allows, nested to any depth',
  why='Tests parse a dozen kernels of the expected form; a statement, operator or nesting none of '
      'them has may be silently dropped or counted wrongly.',
  files=['kerncraft/kernel.py'],
  mech=[('declarations and loop nest', 'kernel.py KernelCode.__init__'),
        ('loops and statements', 'kernel.py _p_for, _p_assignment'),
        ('expressions', 'kernel.py _p_sources, _get_basename, _get_offsets, conv_ast_to_sym')],
  observe=['accesses, FLOPs, loop bounds and variables of a parsed kernel'],
  technique='exhaustive case analysis of the syntax-tree walkers over the C grammar by abstract '
            'interpretation',
  level_note='Every node class and operator at every place, in combination with up to two other '
             'unusual choices (three in the thorough tier); parts handed to a recursive call are '
             'covered by the case analysis of that call, so depth is unbounded.'),
 dict(id='P16', title='Results, reports and generated code are reproducible',
  statement='Analysing the same kernel with the same machine description and options gives the '
            'same results, reports and generated code in every run. Nothing in them depends on '
            'the order in which unordered collections or directories happen to be traversed, on '
            'memory addresses or hash values, or on random numbers without a fixed seed.',
  over=['programs', 'histories'],
  qtext='all kernels and machine descriptions, and all hash seeds and memory layouts of the '
        'interpreter',
  why='A test sees one hash seed per run and small kernels whose sets have one or two elements; '
      'the orders that differ appear between runs, machines and kernels.',
  files=['kerncraft/kernel.py', 'kerncraft/cacheprediction.py', 'kerncraft/incore_model.py',
         'kerncraft/machinemodel.py', 'kerncraft/models/benchmark.py',
         'kerncraft/models/standalone_benchmark.py', 'kerncraft/kerncraft.py'],
  mech=[('accesses of the kernel', 'kernel.py compile_sympy_accesses, compile_global_offsets'),
        ('layer conditions', 'cacheprediction.py build_symbolic_LCs'),
        ('initial values', 'kernel.py _build_scalar_initializations'),
        ('index register', 'incore_model.py get_pointer_increment'),
        ('schedule of events', 'models/benchmark.py build_minimal_runs')],
  observe=['two runs of the same command, their reports and the generated sources'],
  technique='points-to analysis of containers with an order taint; must-analysis of seeding over '
            'the call graph',
  level_note='Flow-insensitive: a list sorted in place anywhere counts as sorted, calls on '
             'receivers of unknown class go to all methods of that name, elements picked by '
             'keys that tie are not told apart for library functions. Rounding of sums in '
             'different orders and timing of measurements are outside.'),
    dict(id='P17', title='Whatever an analysis ends with, its report can be printed',
         statement='When the analysis of a performance model ends without an error, its report can '
                   'be printed for every output unit, verbosity and number of cores: each figure '
                   'the report refers to was recorded on every path through the analysis, unless '
                   'the report asks whether it is there. Records looked up by a command line option '
                   'have an entry for each of its choices, and every text is given all the values '
                   'it has places for.',
         over=['inputs', 'configurations'],
         qtext='all kernels, machine descriptions, numbers of cores, units, verbosities and '
               'outcomes of the analysis (bound by memory or not, all data in caches, counters '
               'missing, ...)',
         why='A report runs at the end of an analysis that may take long; tests print a few '
             'reports, and the figures that are missing are those of rare outcomes in combination '
             'with rare units and verbosities.',
         files=['kerncraft/models/ecm.py', 'kerncraft/models/roofline.py',
                'kerncraft/models/benchmark.py', 'kerncraft/models/standalone_benchmark.py',
                'kerncraft/models/layer_condition.py', 'kerncraft/kerncraft.py'],
         mech=[('figures of an analysis', 'models/*.py analyze, calculate_*, conv_*'),
               ('reports', 'models/*.py report, report_*'),
               ('choices of options', 'kerncraft.py create_parser')],
         observe=['the report printed after any analysis'],
         technique='abstract interpretation of analysis and report with must-definedness of records, '
                   'attributes and placeholders',
         level_note='Every path of analysis and report. Records returned by predictors, the machine '
                    'description and external programs, and the types of the values printed, are '
                    'outside.'),
]

NOT_APPLICABLE = [
 dict(id='N01', title='Predicted cache traffic equals what the caches would transfer',
  statement='The numbers of hits, misses and evictions predicted for each memory level by layer '
            'conditions or by cache simulation are those of a cache of the described size and '
            'associativity in steady state, for every kernel and problem size.',
  over=['programs', 'inputs'], qtext='all kernels, sizes and cache hierarchies',
  why='Tests compare a few kernels at a few sizes.',
  files=['kerncraft/cacheprediction.py'],
  mech=[('layer conditions', 'cacheprediction.py LayerConditionPredictor'),
        ('simulation', 'cacheprediction.py CacheSimulationPredictor')],
  observe=['predicted loads, misses and evictions per level'],
  technique='none', level_note='',
  reason='The figures depend on run-time sizes and on the simulator (a C extension of another '
         'package); no static argument bounds them. P14 decides the units and addresses that '
         'enter.'),
 dict(id='N02', title='Detected pointer increments equal what the loop does',
  statement='The pointer increment and the store pointer found in the assembly of a loop are the '
            'number of bytes by which the compiled loop really advances per iteration.',
  over=['programs'], qtext='all loops any compiler may generate',
  why='Tests have a handful of assembly files.',
  files=['kerncraft/incore_model.py'],
  mech=[('detection', 'incore_model.py ISA.get_pointer_increment')],
  observe=['block size and unrolling factor of the in-core analysis'],
  technique='none', level_note='',
  reason='The input is assembly text chosen by compilers; whether the heuristic patterns match '
         'its meaning cannot be read off the Python source.'),
 dict(id='N03', title='Measured figures are accurate',
  statement='Bandwidths, runtimes and counters reported by the benchmark model are those of the '
            'kernel in steady state, without start-up effects and disturbance.',
  over=['schedules'], qtext='all runs on all machines',
  why='Tests cannot measure on the machines described.',
  files=['kerncraft/models/benchmark.py'],
  mech=[('measurement', 'benchmark.py Benchmark.perfctr, analyze')],
  observe=['measured figures'],
  technique='none', level_note='',
  reason='A property of hardware and run-time timing. P10 decides that no figure is invented, '
         'P12 that it is labelled right.'),
 dict(id='N04', title='Interval sets behave as sets of numbers',
  statement='Union, containment and length of sets of intervals agree with those of the sets of '
            'numbers they stand for, for every sequence of overlapping and adjacent intervals.',
  over=['inputs'], qtext='all sequences of intervals',
  why='Tests use a few unions.',
  files=['kerncraft/intervals.py'],
  mech=[('normalisation', 'intervals.py Intervals._enforce_no_overlap')],
  observe=['results of union, membership and length'],
  technique='none', level_note='',
  reason='A functional specification over unbounded sequences of run-time numbers: it needs '
         'proof or testing, not dataflow. P06 decides that operands stay unchanged.'),
 dict(id='N05', title='Machine and results files survive a round trip',
  statement='Writing a machine description or results and reading them back yields equal values, '
            'for every quantity and structure they may hold.',
  over=['inputs'], qtext='all machine descriptions and results',
  why='Tests do not write machine files.',
  files=['kerncraft/machinemodel.py', 'kerncraft/prefixedunit.py'],
  mech=[('serialisation', 'machinemodel.py MachineModel.dump; prefixedunit.py to_yaml, from_yaml')],
  observe=['values read back'],
  technique='none', level_note='',
  reason='Decided by the YAML library and float formatting at run time; P13 decides that prefix, '
         'unit and value are written and read in the same roles.'),
 dict(id='N06', title='Multi-core scaling predictions follow the machine',
  statement='The performance predicted for any number of cores is what the bandwidth saturation '
            'of the described machine allows, for all kernels.',
  over=['inputs'], qtext='all core counts, kernels and machines',
  why='Tests check single numbers.',
  files=['kerncraft/models/ecm.py', 'kerncraft/models/roofline.py'],
  mech=[('scaling', 'ecm.py ECM.analyze; machinemodel.py get_bandwidth')],
  observe=['figures per core count'],
  technique='none', level_note='',
  reason='Choice and interpolation of measured bandwidths by numerical closeness; no static '
         'oracle exists. P12 decides units.'),
]
