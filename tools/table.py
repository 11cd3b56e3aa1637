"""The properties: statement, quantifier, anchors and how each is decided."""

NOT_APPLICABLE = []

H, I, C, P, X = 'histories', 'inputs', 'configurations', 'programs', 'crash_points'

PROPS = [
    dict(
        id='C01', over=[P, I],
        title='Arithmetic on physical objects is dimensionally and numerically right',
        statement=(
            "Every arithmetic, power, comparison, rounding or sign operation on numbers, scalars, vectors, tensors and "
            "labelled arrays, and every chain of them, yields the object kind, unit, axes and values that the same "
            "computation on SI values gives. Adding, subtracting or ordering dimensionally inconsistent operands, or "
            "raising to a power that is not unitless, is refused. Operands are never modified, and equality, inequality "
            "and ordering agree with the observable unit, values and axes."
        ),
        all="all operator sequences (both operand orders) over all operand kinds, units and shapes",
        why=("Tests apply each operator once to a few hand-picked pairs; they cannot reach mixed kinds combined through "
             "several operations, where unit bookkeeping and data must stay in step."),
        files=['physical/_operations.py', 'physical/_array.py', 'numeric/_mixins.py', 'real/_array.py', 'real/_operations.py'],
        mechanism=[('binary/unary operation dispatch', 'physical/_operations.py:additive, multiplicative, exponential, unary, comparative'),
                   ('unit algebra', 'metric/_units.py:Unit')],
        observe=['value, unit, axes and type of every result', 'operands after the operation'],
        technique='explicit-state search over operator sequences on the real objects against an SI reference model',
        note='exhaustive over the operand alphabet up to operator depth 2 (quick) / 3 (thorough); reference is an independent SI model',
    ),
    dict(
        id='C02', over=[H],
        title='Changing units never changes the physical quantity',
        statement=(
            "After any history of unit changes interleaved with indexing, transposition, scaling, arithmetic, powers and "
            "reductions, a measured value, sequence, axis, scalar, vector, tensor or array still represents the same "
            "physical quantity, and a unit change reports exactly the requested unit. A request for an inconsistent unit "
            "is refused. The object that was converted is itself never altered."
        ),
        all="all histories of unit changes and other operations, from all object kinds and unit families",
        why=("Tests convert a fresh object once; stale scale factors or lost conversions only appear when conversions are "
             "chained with other operations."),
        files=['physical/_array.py', 'physical/_axis.py', 'measured/_object.py', 'measured/_context.py', 'measured/_convert.py', 'metric/_conversions.py'],
        state=[('scale', 'pending unit scale of an array', 'src/eprempy/physical/_array.py:Array._scale')],
        mechanism=[('conversion of measured objects', 'measured/_context.py:Context.convert'),
                   ('lazy scaling of arrays', 'physical/_array.py:converter')],
        observe=['value x unit of the object and of its source after every step'],
        technique='depth-first enumeration of operation histories on the real objects against an SI reference model',
        note='all histories up to depth 3 (quick) / 4 (thorough) over 7 unit families and 8 object kinds, without merging states so hidden state cannot be masked',
    ),
    dict(
        id='C03', over=[I, P],
        title='Arrays combine by dimension name, never by position',
        statement=(
            "Combining two or more labelled arrays matches elements by dimension name: the result has the union of the "
            "dimensions, keeps each operand's own order, broadcasts length-1 dimensions, carries the longer axis of each "
            "dimension, and its elements equal the name-aligned computation, whichever way the operations are grouped. "
            "Operands whose shared dimensions appear in opposite orders or have unequal lengths are refused, and additive, power or "
            "ordering operations never pair different dimensions by position."
        ),
        all="all pairs and triples of arrays over all ordered subsets of dimensions, all full/singular length patterns, all binary operators",
        why="Tests use a handful of dimension combinations; wrong alignment needs a particular order, overlap or singular dimension.",
        files=['numeric/_array.py', 'real/_array.py', 'physical/_axes.py', 'physical/_operations.py', 'container.py'],
        mechanism=[('mesh construction', 'numeric/_array.py:remesh'), ('order-preserving merge', 'container.py:merge'),
                   ('axes merge', 'physical/_axes.py:Axes.__or__')],
        observe=['dimensions, axes, shape and elements of every result'],
        technique='exhaustive enumeration of operand pairs/triples on the real arrays against a name-aligned reference model',
        note='all ordered subsets of 3 dimensions with every singular pattern (1 singular dimension per operand in quick, all in thorough), 9 operators, 2 groupings',
    ),
    dict(
        id='C04', over=[I, P],
        title='numpy functions on physical objects keep labels, units and values straight',
        statement=(
            "The supported numpy functions (min, max, mean, sum, cumsum, transpose, squeeze, sqrt, logarithms, trigonometry, "
            "gradient, trapz, power, array) applied to scalars, vectors, tensors and labelled arrays, with any axis, keepdims or "
            "order argument, also on objects that were converted, transposed or indexed before, return what numpy gives on the "
            "bare values together with the right unit and exactly the labelled dimensions and axis values that remain; "
            "logarithms of non-unitless and trigonometry of non-angular quantities are refused; the argument is never modified."
        ),
        all="all functions x all keyword combinations x all kinds, shapes, units and provenances, and all pairs of functions in sequence",
        why="Tests apply a function once to one fresh, all-full array with default keywords; labels drift from data only for particular axes, singular dimensions or provenances.",
        files=['physical/_operations.py', 'real/_array.py', 'numeric/_mixins.py'],
        mechanism=[('numpy dispatch', 'numeric/_mixins.py:Functions.__array_function__'), ('labelled numpy functions', 'physical/_operations.py'),
                   ('array numpy functions', 'real/_array.py')],
        observe=['value, unit, dimensions and axis values of every result', 'the argument afterwards'],
        technique='exhaustive enumeration of function/keyword applications (and pairs of them) on the real objects against a labelled numpy reference',
        note='16 functions x every axis/axes/keepdims on 118 seed objects, chained to depth 2 (quick) / 3 (thorough)',
    ),
    dict(
        id='C05', over=[I, P],
        title='Indexing a labelled array selects the same elements from data and axes',
        statement=(
            "Indexing a labelled array with any mix of integers, slices (negative, stepped, open), index sequences "
            "and ellipsis keeps every dimension, selects along each dimension exactly the elements numpy selects, gives each axis "
            "the matching labels, preserves the unit and pending conversions, and composes: indexing twice equals indexing once "
            "with the composed selection. Out-of-range or surplus indices are refused."
        ),
        all="all index expressions over an alphabet of per-axis indices, on all shapes and provenances, and all pairs of them in sequence",
        why="Tests use a few index expressions; data/axis disagreement needs a particular mix of index kinds, steps or negative bounds.",
        files=['numeric/_index.py', 'numeric/_array.py', 'physical/_array.py', 'physical/_axis.py'],
        mechanism=[('index expansion and normalization', 'numeric/_index.py:expand, normalize, resolve'),
                   ('array subscription', 'numeric/_array.py:Array._getitem'), ('axis subscription', 'physical/_axis.py')],
        observe=['values, dimensions, axis labels and unit of the selected array'],
        technique='exhaustive enumeration of index expressions on the real arrays against a labelled numpy.ix_ reference',
        note='every combination of the per-axis index alphabet on 1-3 dimensional arrays, and composed pairs',
    ),
    dict(
        id='C22', over=[H],
        title='Project history: disk, run log and interface always agree',
        statement=(
            "After any sequence of creating, copying, reopening, renaming, resetting and removing a project and of running, "
            "renaming and removing runs in all or selected branches, the run directories on disk, the run log, and every open or "
            "freshly opened project object describe the same set of runs: a run is logged exactly if its process succeeded, its "
            "directory holds the requested configuration under the declared name, its log entry follows it when it or the project "
            "is renamed and goes when it is removed. Existing runs are never overwritten, refused operations change nothing, and "
            "nothing outside of the project is touched, whatever the names given."
        ),
        all="all operation sequences over plain, branched and customized projects and alternating handles",
        why="The project interface has no tests at all; state kept in four places only diverges after particular sequences.",
        files=['project.py', '_project_main.py', 'paths.py'],
        state=[('runs', 'run directories on disk', 'src/eprempy/project.py:RunPaths'), ('log', 'JSON log of runs', 'src/eprempy/project.py:RunLog'),
               ('attributes', 'project metadata and cached attributes', 'src/eprempy/project.py:Attrs')],
        mechanism=[('project operations', 'project.py:Interface.run, mv, rm, rename, remove'), ('path operations', 'project.py:_PathOperation'),
                   ('restoring', 'project.py:Interface._restore_project')],
        observe=['directory tree', 'log file', 'runs, branches, directories, name, root of every handle'],
        technique='stateless exploration of operation histories on real directories against an explicit reference model',
        note='all histories up to depth 3 on a branched project and 2 on plain/customized ones (quick), 4 and 3 (thorough)',
    ),
    dict(
        id='C23', over=[X, H],
        title='A crash or I/O failure during a project operation loses nothing else',
        statement=(
            "If the process dies, or a file-system call fails, at any point of a project operation (run, rename or remove a run, reset, "
            "rename, copy, remove, create), then the project can be opened again, its run log is complete and readable, every run and "
            "log entry the operation was not about is intact, a run being renamed exists under exactly one name, nothing appears or "
            "disappears outside of the project, and repeating the operation completes it."
        ),
        all="all crash points, failing calls and torn writes of every operation, from every base state",
        why="Tests cannot place a fault between two file-system calls; partial updates only show after a crash at a particular point.",
        files=['project.py'],
        mechanism=[('writing metadata and logs', 'project.py:RunLog.dump, _write_text'), ('order of updates', 'project.py:Interface.rename, mv, rm')],
        observe=['directory tree, log and reopened project after the fault and after repeating the operation'],
        technique='exhaustive fault injection: every file-system mutation as crash point, failing call and torn write, on the real code in child processes',
        note='audit events are the fault points; double faults (second one during the repeated operation) in thorough',
    ),
    dict(
        id='C24', over=[H],
        title='The run log is a faithful persistent mapping',
        statement=(
            "After any sequence of creating, loading, appending to, renaming and removing entries, moving the directory and reopening, "
            "the run log behaves like a dictionary that survives on disk: every instance on the same file shows the same entries, "
            "values round-trip, entries follow a moved directory, unknown runs raise LogKeyError, and a refused operation, including one "
            "with a value that cannot be stored, leaves the log unchanged."
        ),
        all="all sequences of log operations, including failing ones",
        why="The run log has no tests; a bad value or a move in the middle of a history is what corrupts it.",
        files=['project.py'],
        state=[('contents', 'entries of the log', 'src/eprempy/project.py:RunLog._asdict')],
        mechanism=[('persistence', 'project.py:RunLog.dump'), ('moving', 'project.py:RunLog.update_directory')],
        observe=['log file, and the mapping interface of old, concurrent and new instances'],
        technique='exhaustive exploration of operation sequences on the real log against a dictionary model',
        note='all sequences up to depth 3 (quick) / 4 (thorough) over 21 operations',
    ),
    dict(
        id='C25', over=[I],
        title='A project command line does exactly what the same method call does',
        statement=(
            "Every sub-command of the project command line, and of the script placed in each project, has for every combination of its "
            "options exactly the effect of the corresponding operation with the corresponding arguments on the named project, is "
            "silent unless asked to be verbose, fails visibly when the operation fails and --force is not given, and does nothing when "
            "the command is malformed. The show command lists exactly the requested runs. A copy of a project has the attributes and "
            "inputs of its source, except for the attributes that are given anew, and none of its runs; the source stays as it was."
        ),
        all="all sub-commands x all option combinations x base states and layouts",
        why="No test runs the command line; option plumbing errors need a particular option or combination.",
        files=['project.py', '_project_main.py', 'interfaces.py'],
        mechanism=[('parser construction and dispatch', 'interfaces.py:CLI'), ('project script template', '_project_main.py'),
                   ('script creation', 'project.py:Interface._setup_cli')],
        observe=['exit status, output, directory tree, log'],
        technique='exhaustive enumeration of command lines through the real parser against the project reference model',
        note='all option combinations; one base state in quick, 3 base states x 3 layouts in thorough',
    ),
    dict(
        id='C19', over=[I, C],
        title='Configuration files are read, compared and generated faithfully',
        statement=(
            "Reading a configuration file yields exactly its last assignment to each name, verbatim, whatever the mix of blank lines, "
            "full-line, indented and inline comments, spacing, line endings and values (including ones that contain '='). Comparing files, "
            "by method or command line, reports every parameter whose values differ with the right value for each file and the right default "
            "(of the given source, if any), with distinct labels. A generated file sets every parameter, in sorted order, such that reading it "
            "back reproduces every default value exactly. Malformed commands and missing files are refused without touching any file."
        ),
        all="all sequences of line forms, all pairs of contents, all combinations of files and options",
        why="Tests parse one sample file and compare one fixed set; combinations of line forms, options and sources are unbounded.",
        files=['parameter/_config.py', 'cli.py', '__main__.py', 'paths.py'],
        mechanism=[('parsing', 'parameter/_config.py:_parse_config'), ('comparison', 'cli.py:compare_config_files, parameter/_config.py:ConfigFile.diff'),
                   ('generation', 'cli.py:generate_config_file')],
        observe=['mapping interface of the parsed file', 'output and exit status of the command', 'generated files'],
        technique='exhaustive enumeration of files and command lines through the real parser against a reference reader',
        note='all files of 3 (quick) / 4 (thorough) lines over 24 line forms; all ordered file tuples x options',
    ),
    dict(
        id='C20', over=[C, I],
        title='The parameter interface reports what the run was configured with',
        statement=(
            "For every parameter, by every one of its names, the interface yields the value set in the configuration file, or else the "
            "default, in the parameter's own type and unit (angles from the file in degrees exactly when useDegrees is set), regardless of "
            "which other parameters are set, in which order, and of other interfaces. Unknown names raise KeyError. A variable behaves like "
            "the sequence of its values: in-range indices and slices give those values in the same unit, all others are refused, and only a "
            "single-valued variable converts or rounds to a number."
        ),
        all="all parameters x aliases x values x unit flags, pairs of parameters, interface histories, variable lengths and subscripts",
        why="Tests compare a few defaults; per-parameter type, unit, alias and interaction errors need every parameter and pair.",
        files=['parameter/_runtime.py', 'parameter/_metadata.py', 'parameter/__init__.py', 'parameter/_config.py', 'aliased.py'],
        mechanism=[('lookup and units', 'parameter/_runtime.py:Interface.__getitem__'), ('merging', 'parameter/_runtime.py:interface_factory'),
                   ('conversion', 'parameter/_config.py:_convert'), ('aliases and units', 'parameter/_metadata.py')],
        observe=['interface values, units, membership, iteration', 'variable subscripts and conversions'],
        technique='exhaustive enumeration of configurations on the real interface against a frozen parameter table',
        note='pairs: 4 neighbours each (quick) / all 7021 (thorough); interface histories of length 3 / 4',
    ),
    dict(
        id='C21', over=[P],
        title='Constants and defaults read from EPREM source have their C values',
        statement=(
            "Every constant defined in baseTypes.h and every default defined in configuration.c, given as a number, name or arithmetic "
            "expression of them, evaluates to the value C gives it, in the declared type, whatever the order and spelling of the statements and "
            "wherever comments are; commented-out or unrelated code defines nothing; an unsupported definition raises instead of yielding a "
            "number and affects no other one. The packaged values equal those of the packaged definitions, and the text forms of either "
            "reproduce them."
        ),
        all="all expressions of the grammar, statement spellings and orders",
        why="Tests only read the packaged defaults; no test parses C source, so expression and reference handling is never exercised.",
        files=['parameter/_src.py', 'parameter/_config.py', 'parameter/reference.json', 'parameter/reference.py'],
        mechanism=[('statement patterns', 'parameter/_src.py:BaseTypeDef, FunctionCall, VariableDefinition'),
                   ('evaluation', 'parameter/_config.py:Defaults._evaluate, parameter/_src.py:BaseTypesH._compute')],
        observe=['values, types, ranges, names and order of constants and defaults'],
        technique='exhaustive enumeration of source programs up to a depth on the real parser against a value-carrying generator',
        note='expression depth 3 (quick) / 4 (thorough); all orders of 3 / 4 dependent parameters',
    ),
    dict(
        id='C14', over=[I],
        title='Subscripting an observable selects or interpolates to what was asked',
        statement=(
            "Subscripting any observable quantity by positions, slices, lists, species symbols, coordinate values in any consistent unit, or "
            "radii in place of shells, on any of its dimensions at once, yields the documented formula evaluated on the selected data: elements "
            "of the file where positions or grid values were given, and linear interpolation between the neighbouring grid points (over time, "
            "energy, pitch angle, or radius time by time) where they were not. Shape, dimension names and the labels of every axis of the result are "
            "those of the request, in the order requested. An index that is out of range, has an inconsistent unit, or names an "
            "unknown species is refused, and so is a coordinate outside the data, unless the quantity is a function of that coordinate alone."
        ),
        all="all observables x all index forms, on several dimensions at once",
        why="No observable test runs without external data; interpolation over two axes, grid end points, repeated, reversed or empty requests need particular index combinations.",
        files=['observable/_interfaces.py', 'observable/_objects.py', 'physical/_axis.py', 'numeric/_index.py', 'datafile/_interfaces.py'],
        mechanism=[('index parsing', 'observable/_objects.py:Context.implement, Context._parse_user_arg'),
                   ('interpolation', 'observable/_interfaces.py:interpolate, Implementations._interpolate')],
        observe=['value, unit, shape, dimensions and axis labels of every subscripted observable', 'errors'],
        technique='exhaustive enumeration of index combinations on the real observables of synthetic files against an SI reference model',
        note='all forms on one dimension and core forms on two (quick) / all on two and core on three (thorough), 36 observables, 2-4 datasets',
    ),
    dict(
        id='C15', over=[I],
        title='An observable depends on what a file says, not on how it says it',
        statement=(
            "An observable of an observer file equals its documented formula "
            "whatever the consistent unit in which each variable of the file is "
            "written, whichever metric system the user asks for (only the unit of "
            "the result changes), whatever the sizes of the time, shell, species, "
            "energy and pitch-angle dimensions (including one), whichever species "
            "are present, whether the energy grid has one dimension or two, "
            "whether the file holds distributions or fluxes, and whatever values "
            "the transport parameters have. It remains finite and correct where "
            "the fields are parallel, perpendicular, or constant."
        ),
        all='all files and configurations a few deviations from a base',
        why=(
            "The fixtures of the test suite are external, and describe one file in "
            "one set of units and one configuration; degenerate fields, sizes and "
            "units that are ambiguous between systems each need their own file."
        ),
        files=['observable/_interfaces.py', 'datafile/_interfaces.py',
               'metric/_conversions.py', 'physical/_array.py'],
        mechanism=[
            ('formulas', 'observable/_interfaces.py:Implementations'),
            ('reading', 'datafile/_interfaces.py:Arrays._create, Axes._create'),
        ],
        observe=['value, unit, dimensions and axes of every observable of each file'],
        technique=(
            'exhaustive enumeration of synthetic files and configurations within k '
            'deviations of a base, on the real observables, against an SI reference model'
        ),
        note='all single deviations (quick) / all pairs (thorough) x both metric systems x 36 observables',
    ),
    dict(
        id='C16', over=[I, H],
        title='Algebra on observables is algebra on the values they report',
        statement=(
            "Products, ratios, powers, sums and differences of observable "
            "quantities, changes of their unit, and the same operations spelled as "
            "a symbolic string give a quantity that, subscripted in any way that "
            "its dimensions allow, reports exactly the arithmetic of its operands "
            "subscripted alike: interpolated operands first, arithmetic after. Its "
            "unit is the same arithmetic on the units of its operands, or the "
            "requested one, with the value scaled accordingly; its dimensions are "
            "the union of theirs, each in order. Every alias names the same "
            "quantity, an unknown name raises KeyError, and no request, failed "
            "request or use of a result changes the answer to a later request."
        ),
        all='all expression trees, request forms and sequences of requests',
        why=(
            "Errors in composition depend on which operands, units and requests "
            "meet; a few products with whole-array shapes do not reveal a wrong "
            "factor between units or a value cached from another request."
        ),
        files=['observable/_objects.py', 'observable/_interfaces.py',
               'symbolic/_operand.py', 'metric/_conversions.py',
               'physical/_array.py'],
        mechanism=[
            ('composition', 'observable/_objects.py:Quantity._apply, Quantity.__pow__'),
            ('symbolic names', 'observable/_interfaces.py:Quantities._build_observable'),
        ],
        observe=['value, unit, dimensions and axes of composite observables',
                 'answers of repeated requests', 'equality of aliases'],
        technique=(
            'exhaustive enumeration of expression trees, request forms and request '
            'sequences on the real observables against a reference evaluation'
        ),
        note='trees of up to 3 operations over 10-23 observables x 4 request forms; request sequences of length 2-3 over 18 requests',
    ),
    dict(
        id='C07',
        over=[I],
        title='Unit conversions are right, coherent and independent of history',
        statement=(
            "For every pair of units or compound unit expressions of the same "
            "physical dimension, with any metric prefixes and spelled by symbol or "
            "name, metric.conversion gives the ratio of their sizes, and the "
            "conversion back gives its inverse; between expressions of different "
            "dimension it raises UnitConversionError, or returns None when "
            "error=False. Converting to a metric system gives the coherent unit of "
            "that system, or UnitConversionError when the quantity is ambiguous and "
            "was not given. Every answer is the same whatever was converted before "
            "in the process and whatever the hash seed."
        ),
        all='all pairs of units, prefixes and compound expressions; all conversion histories',
        why=(
            "The space of expression pairs is combinatorial and conversions are "
            "found by a search whose path depends on set order and on cached "
            "results; tests sample a few dozen pairs in one order."
        ),
        files=['metric/_conversions.py', 'metric/_reference.py',
               'metric/_defined.py', 'symbolic/_operand.py'],
        mechanism=[
            ('search', 'metric/_conversions.py:_recursive_conversion, _convert_as_expressions'),
            ('memo', 'metric/_conversions.py:conversion_factory, converter_factory'),
        ],
        observe=['float(metric.conversion(u0, u1))', 'u0 and u1 of the result',
                 'UnitConversionError', 'answers in fresh processes'],
        technique=(
            'exhaustive enumeration of unit pairs, prefixes and compound families '
            'against an independent SI table; exhaustive conversion sequences x hash '
            'seeds in fresh processes'
        ),
        note='all named-unit pairs x 5-20 prefixes, 21 families of expressions, sequences of length 2-3 over 24 requests, 3-16 hash seeds',
    ),
    dict(
        id='C10',
        over=[I, P],
        title='A symbolic expression means what its text says, and so does its algebra',
        statement=(
            "Every text that the documented grammar admits (numbers, names, powers, "
            "products, ratios, adjacency, groups, square roots, coefficients of "
            "groups) becomes the expression with exactly that coefficient and those "
            "exponents, whatever the spacing, nesting or choice of tokens, and any "
            "other text is an error, never an expression of part of it. The text of "
            "an expression, and the list of its terms, make the same expression. "
            "Products, ratios, powers, equality, hashes and differences of "
            "expressions and terms agree with the same arithmetic on exponents, as "
            "do the value of a term at a number and the update of the bases of an "
            "expression; operands do not change. With operator_order='error', exactly the ambiguous "
            "sequences of operators raise RatioError or ProductError."
        ),
        all='all texts; all pairs of expressions',
        why=(
            "Units, dimensions and requests for observables all pass through this "
            "parser; a wrong reading of one spelling gives silently wrong results, "
            "and tests list a few dozen spellings."
        ),
        files=['symbolic/_operand.py', 'symbolic/_parser.py',
               'symbolic/_expression.py', 'symbolic/_operator.py'],
        mechanism=[
            ('parser', 'symbolic/_parser.py:Parser._parse_operand, _resolve_operations'),
            ('operands', 'symbolic/_operand.py:OperandFactory.search, standardize'),
            ('reduction', 'symbolic/_expression.py:reduce'),
        ],
        observe=['terms of the expression', 'str(expression)', 'errors',
                 'results of operators and comparisons'],
        technique=(
            'exhaustive enumeration of texts, levels and nestings on the real parser '
            'against an independent reader of the grammar'
        ),
        note='all texts of length <= 5-6 over 10 characters; levels of 3-4 operands; groups nested to 2-3; 30x30 expressions',
    ),
    dict(
        id='C08',
        over=[I, P],
        title='The algebra of units is the algebra of their sizes and dimensions',
        statement=(
            "Every spelling of a unit (symbols or names, any order of terms, text, "
            "list or expression) gives the one unit with that text; products, "
            "ratios and powers of units, with units or text on either side, have "
            "the product, ratio or power of the sizes and dimensions; u == v holds "
            "exactly for the same terms, u & v exactly for equal sizes and "
            "dimensions, u | v exactly when the units are convertible, and u >> v "
            "and u << v are then the ratio of the sizes, else an error; the "
            "dimensions of a unit are those of its terms, its decomposition has "
            "its size, and normalizing gives the coherent unit of the same "
            "dimension. Text that is not a unit is an error. No answer depends on "
            "which units were created before, or on the hash seed."
        ),
        all='all pairs of units and all powers; all trees of operations; all histories of requests',
        why=(
            "All physical results carry units that this algebra computes, and units "
            "are cached for the life of the process; tests list a few products of a "
            "few units in one order."
        ),
        files=['metric/_units.py', 'metric/_conversions.py', 'metric/_reference.py',
               'symbolic/_expression.py'],
        mechanism=[
            ('creation and cache', 'metric/_units.py:unit_factory'),
            ('operators', 'metric/_units.py:Unit.__mul__, __truediv__, __pow__, __rshift__'),
            ('comparison', 'metric/_units.py:Unit.__eq__, __and__, __or__'),
        ],
        observe=['str(unit)', 'identity of units', 'results of operators',
                 'unit.dimensions', 'unit.normalize', 'errors'],
        technique=(
            'exhaustive enumeration of pairs, powers, spellings, operation trees and '
            'request histories on the real code against an independent table of sizes '
            'and dimensions'
        ),
        note='~85 units in pairs; 10 powers; trees of 2-3 operations over 8 units; all histories of 2-3 of 25 requests',
    ),
    dict(
        id='C18',
        over=[I, C],
        title='Observers and datasets are exactly the files of the run directory',
        statement=(
            "The streams of a dataset are the datafiles named 'stream', 'obs' or "
            "'flux' and a number, keyed by it; its points are those named 'point' "
            "or 'p_obs' and an identifier, keyed by it; its observers are both, and "
            "other files of the directory change nothing. Asking for a stream, "
            "point or observer by identifier gives an interface to the file of that "
            "identifier (the same one that the dataset has), or an error when there "
            "is none. The config file is the requested one (a name in the directory "
            "or a path), else the first of the standard names; the directory may be "
            "named in any way; the metric system in any case. The choice does not "
            "depend on the hash seed, later changes of the working directory, or "
            "earlier requests. An observer is a mapping of its quantities and its "
            "axes and coordinates are those of the file."
        ),
        all='all directories and identifiers; all histories of requests',
        why=(
            "This is the entry point of every analysis: a missing, doubled or "
            "wrongly keyed observer, or parameters of another config file, corrupts "
            "all results silently; tests use two fixed run directories."
        ),
        files=['eprem.py', 'datafile/_viewers.py', 'paths.py'],
        mechanism=[
            ('discovery', 'eprem.py:Dataset.streams, Dataset.points, _get_observer_id'),
            ('identifiers', 'eprem.py:Stream.patterns, Point.patterns, _build_datapath'),
            ('configuration', 'eprem.py:_build_confpath'),
        ],
        observe=['keys and sources of the observers', 'parameters', 'units', 'errors'],
        technique=(
            'exhaustive enumeration of run directories, identifiers, config requests '
            'and request histories on the real code under several hash seeds'
        ),
        note='all directories of <= 2-3 of 27 names; 75 identifiers; 64 config sets x 13 requests; all histories of 2-4 of 13 requests',
    ),
    dict(
        id='C17',
        over=[I, P],
        title='Views of a datafile are what the file contains',
        statement=(
            "A view of a datafile lists exactly the known arrays, scalars, axes and "
            "units that the file has, with the values, unit attributes, dimensions "
            "and sizes that were written, for every number type, format, packing, "
            "spelling of the path and hint of the file type, and leaves the file as "
            "it is. The arrays, axes and grid of a datafile in a metric system are "
            "those values in the coherent unit of that system, whatever the unit of "
            "the variable in the file, with the file's dimensions and axis values; "
            "what the file lacks is a KeyError, or None for the alternative of "
            "distribution and flux. No access changes what another gives, and views "
            "of other files or in other working directories do not matter."
        ),
        all='all files with bounded deviations; all unit spellings; all orders of access',
        why=(
            "Every observable is computed from these arrays; a wrong factor for one "
            "unit spelling or a stale or mixed-up view silently changes all results; "
            "tests read two similar files."
        ),
        files=['datafile/_viewers.py', 'datafile/_interfaces.py', 'datafile/_core.py',
               'paths.py', 'metric/_reference.py'],
        mechanism=[
            ('views', 'datafile/_viewers.py:View, NetCDFViewer'),
            ('instances', 'paths.py:PathSet._generate_key'),
            ('conversion', 'datafile/_interfaces.py:Arrays._create, Axes._create'),
        ],
        observe=['view.arrays', 'view.scalars', 'view.sizes', 'view.units',
                 'values, units, dimensions and axes of arrays', 'errors'],
        technique=(
            'exhaustive enumeration of file variants, unit spellings, access orders '
            'and view histories on the real code against the written numbers'
        ),
        note='all files with <= 1-2 of 74 deviations; ~240 unit spellings x 2 systems; 25x25 access orders; all histories of 2-3 of 10 events',
    ),
    dict(
        id='C09',
        over=[I],
        title='Physical quantities are consistent across units, dimensions and systems',
        statement=(
            "Every physical quantity, and every product, ratio and power of "
            "quantities, has in each metric system the dimension that physics "
            "(Gaussian in CGS) gives it and a unit that is coherent and has that "
            "dimension, under any spelling. Two quantities are equal only if they "
            "are the same, and equivalent exactly if their dimensions agree in both "
            "systems. A metric system lists the defined quantities, and finds, from "
            "a unit, a dimension (however written) or a quantity, the canonical unit "
            "of the same quantity; the dimension of a unit is the product of those "
            "of its terms, and undefined in a system to which none belongs. A named "
            "unit has the scale of its prefix, ratios to other prefixes and "
            "reductions whose scale times base units is the unit, under any "
            "arithmetic. Unknown quantities are errors, and no earlier request "
            "changes an answer."
        ),
        all='all pairs of quantities; all trees to a depth; all units x systems; all histories',
        why=(
            "Conversions to a metric system and checks of consistency look up these "
            "tables; one wrong entry gives wrong numbers for every quantity built "
            "from it; tests check a dozen entries."
        ),
        files=['metric/_systems.py', 'metric/_defined.py', 'metric/_dimensions.py',
               'metric/_reference.py'],
        mechanism=[
            ('table of quantities', 'metric/_reference.py:_QUANTITIES'),
            ('compound quantities', 'metric/_defined.py:_Property._parse'),
            ('canonical units', 'metric/_systems.py:System.get_unit'),
            ('reductions', 'metric/_defined.py:Reduction, NamedUnit.reduce'),
        ],
        observe=['unit and dimension of quantities', 'equality and equivalence',
                 'System.get_unit, get_dimension', 'NamedUnit scale, reduction, ratio',
                 'errors'],
        technique=(
            'exhaustive enumeration of compounds of quantities, units and request '
            'histories on the real code against an independent table of dimensions'
        ),
        note='78 quantities, all pairs x 5 compounds; all trees of 2-3 operations on 8; ~250 units x 2 systems; all histories of 2-3 of 24 requests',
    ),
    dict(
        id='C11',
        over=[I],
        title='Measuring input never drops, reorders or invents values or units',
        statement=(
            "quantity.parse and quantity.measure read numbers, numeric strings, "
            "lists of numbers, lists followed by a unit, a list with a unit, and "
            "collections of these, as exactly those values, in order, in exactly "
            "that unit, with the unit distributed or not; any other input "
            "(different units, misplaced units, foreign objects, additional "
            "arguments) is refused with TypeError or ValueError. ismeasurable, "
            "hasdata and getdata agree with this and answer for any object. "
            "Measured values, sequences and measurements keep values and unit "
            "through creation from each other, subscripts, iteration, casts and "
            "conversions; equality compares values and unit."
        ),
        all='all inputs of the grammar',
        why=(
            "Every number that a user gives with a unit (targets on axes, "
            "parameters, factors) enters here; a dropped value or unit gives a "
            "silently wrong result, and tests try a dozen inputs."
        ),
        files=['quantity/__init__.py', 'quantity/_functions.py', 'quantity/_measurement.py',
               'measured/_sequence.py', 'measured/_factories.py', 'measured/_context.py',
               'measured/_convert.py'],
        mechanism=[
            ('grammar', 'quantity/_functions.py:parse, _recursive_parse, _wrap_measurable'),
            ('measurement', 'quantity/__init__.py:measure'),
            ('objects', 'measured/_factories.py:value_args, sequence_args'),
        ],
        observe=['result of parse', 'data and unit of measurements', 'predicates', 'errors'],
        technique=(
            'exhaustive enumeration of nested inputs on the real functions against an '
            'independent reader of the documented grammar; all short histories of '
            'operations on measured objects'
        ),
        note='all flat inputs of <= 4-6 items over 7-15 atoms, collections of <= 3 of them, depth <= 4; 16 representations x 8 units x 5 kinds of object',
    ),
    dict(
        id='C06',
        over=[I, P],
        title='Axes answer for exactly the values that they hold, at their positions',
        statement=(
            "index() of an axis gives, for each target in order, the position of "
            "that value in the axis, whatever the form of the targets (arguments, "
            "list, array, measured, another consistent unit); a target that the "
            "axis does not hold is refused, or answered by the nearest value on the "
            "requested side, for values in any order. A subscripted axis holds the "
            "selected values in order, with their positions in the original axis, "
            "through any chain of subscripts; a singular axis is in an axis that "
            "holds its value. Operations on collections of axes (compare, +, |, "
            "without, extract, permute, insert, replace) act as on an ordered "
            "mapping, never lose an axis, keep both orders or refuse, and leave "
            "their operands unchanged."
        ),
        all='all targets, subscripts and collections of axes',
        why=(
            "Axes decide which numbers of a simulation a user sees for a time, "
            "shell, species or energy, and how arrays are aligned; a wrong position "
            "silently selects other data."
        ),
        files=['physical/_axis.py', 'physical/_axes.py', 'container.py', 'numeric/_data.py'],
        mechanism=[
            ('lookup', 'physical/_axis.py:Points.index, Symbols.index, Coordinates.index'),
            ('positions', 'physical/_axis.py:Axis.__getitem__'),
            ('collections', 'physical/_axes.py:Axes'),
            ('nearest and merged order', 'container.py:nearest, merge'),
        ],
        observe=['index objects', 'values, unit and indices of axes', 'items of collections', 'errors'],
        technique=(
            'exhaustive enumeration of targets, subscript chains and pairs of '
            'collections on the real objects against list and ordered-mapping models'
        ),
        note='14 axes x all targets of <= 2-3 values x up to 40 forms x 3 modes x 3 sub-axes; all chains of <= 3-4 subscripts; all pairs of collections over 3-4 names; all pairs of sequences of 4-5 names',
    ),
    dict(
        id='C12',
        over=[I, H],
        title='Aliased mappings and groups stay consistent under any history',
        statement=(
            "In an aliased mapping every key belongs to one group of aliases, and all "
            "aliases of a group give the same value in look-up, membership, iteration, "
            "length, views, equality, flat and frozen forms, after any history of "
            "assignments, deletions, updates, new aliases, merges, copies and "
            "freezing, however it was constructed and in whatever order. Aliases that "
            "share a key are joined, the later value holding; an alias that belongs "
            "to another key, an unknown key or a taken group name is refused and "
            "changes nothing. Copies, merges and frozen mappings keep all keys, "
            "groups and values and are independent of the original. Groups compare, "
            "hash and combine as sets of aliases, collections of groups as sets of "
            "groups in which merging joins all that overlap, and a name map gives the "
            "canonical name of every alias."
        ),
        all='all histories over the states of 4 keys; all partitions and orders of construction',
        why=(
            "Every name a user types, of an observable, parameter, unit or constant, "
            "is resolved by these containers; a key lost or crossed by some history "
            "gives the wrong quantity. Tests build a few mappings and change each once."
        ),
        files=['aliased.py', 'reference.py', 'parameter/_metadata.py'],
        mechanism=[
            ('groups', 'aliased.py:Group, Groups._merge'),
            ('mappings', 'aliased.py:Mapping._resolve, MutableMapping.__setitem__, alias'),
            ('construction', 'aliased.py:_build_mapping, keysfrom, NameMap'),
        ],
        observe=['keys, values and items', 'aliases', 'membership and equality',
                 'copies and frozen mappings', 'canonical names', 'errors'],
        technique=(
            'explicit-state model of disjoint groups explored breadth first; every '
            'transition replayed on the real mapping and compared in full'
        ),
        note='52 operations in all states within 3-4 steps of 4 initial mappings, text and colliding integer keys; all families of 2-3 overlapping groups; all partitions of 4-5 keys in 13 forms',
    ),
    dict(
        id='C13',
        over=[I, P],
        title='Look-up tables and container functions find what they promise',
        statement=(
            "The nearest value of a collection is one whose distance to the target is "
            "least among those the bound allows, whatever the type of the numbers and "
            "also among undefined or infinite ones. Merging two sequences keeps every "
            "member once and the order of both, or reports that they conflict. A table "
            "gives exactly the entries that match a request, and reports an unknown "
            "key, no match and several matches as such. A bijection is one-to-one and "
            "its inverse undoes it; a graph holds the reciprocal of every connection; "
            "every name and group of the operator table computes the operation that it names; "
            "a registry never loses an object to a name already taken and resets to "
            "its original entries. Unwrapping, wrapping, counting, distributing and "
            "comparing types give what the nesting of the argument says, and leave "
            "the argument as it was."
        ),
        all='all arrays of few values of 11 types; all pairs of short sequences; all histories',
        why=(
            "Observers, arrays and unit conversions find times, shells, constants and "
            "conversions with these functions; a wrong index or entry is a "
            "wrong result with no error. Tests use a few regular inputs for each."
        ),
        files=['container.py', 'etc.py', 'exceptions.py'],
        mechanism=[
            ('nearest', 'container.py:nearest'),
            ('merge', 'container.py:merge, unwrap, unique, distribute, size'),
            ('tables', 'container.py:Table, Bijection, Graph, ObjectRegistry'),
            ('errors', 'exceptions.py:Wrapper, etc.py:sentinel, isnull, join'),
        ],
        observe=['index and value', 'merged list', 'entries', 'keys and objects', 'errors'],
        technique=(
            'exhaustive enumeration of small inputs and of histories of registrations '
            'against definitions written from the documentation'
        ),
        note='arrays to length 4-5, sequences over 4-5 symbols, tables to 3-4 entries, 3-4 registrations, all exception hierarchies over 4 types',
    ),
    dict(
        id='C29',
        over=[I, C],
        title='Creating an object from another keeps its values, unit and labels',
        statement=(
            "A scalar, vector, tensor, array, axis of coordinates or points, measured "
            "value or measured sequence that is created from plain numbers has exactly "
            "these numbers, the given unit ('1' if none) and the given axes (default "
            "ones if none). If it is created from an object that has a unit, it represents "
            "the same physical values, in whatever unit that object had been converted "
            "to before; if it is an array created from an array, it has the same "
            "dimensions and labels. The source does not change. A call that would "
            "replace the unit of such an object, or that gives data of the wrong rank "
            "or size, things that are not real numbers, fractional or negative points, "
            "points with a unit, or axes that do not fit the data, is refused."
        ),
        all='all paths of factories, units, axes and conversions from all sources of a catalogue',
        why=(
            "Every result of the package passes through these factories, and users "
            "wrap their own data with them; a unit or label lost here is a result "
            "wrong by a power of ten with no error. Tests create each kind from a "
            "few representative inputs, once."
        ),
        files=['physical/_object_factories.py', 'physical/_axis_factories.py', 'physical/__init__.py', 'measured/_factories.py', 'numeric/_objects.py'],
        mechanism=[
            ('objects', 'physical/_object_factories.py:scalar_args, vector_args, tensor_args, array_args'),
            ('axes', 'physical/_axis_factories.py:points_args, symbols_args, coordinates_args'),
            ('measured', 'measured/_factories.py:value_args, sequence_args'),
            ('refusal to change a unit', 'numeric/_objects.py:_wrap_factory'),
        ],
        observe=['type', 'values in SI', 'dimension', 'shape', 'axis labels', 'refusals'],
        technique=(
            'explicit-state search over paths of factory calls and unit conversions '
            'from a catalogue of representations, against a description computed '
            'step by step'
        ),
        note='62 sources, 9 factories, 3 units, 8 forms of axes, paths of length 4 (quick) or 6 (thorough)',
    ),
    dict(
        id='C27',
        over=[I],
        title='Constants, elements and names of quantities mean what they say',
        statement=(
            "Every physical constant has the published value in both metric systems, "
            "with a unit of the dimension of its declared quantity; the values of the "
            "two systems agree, satisfy the relations of physics among them (c1 = 2 pi "
            "h c^2, c2 = h c / k, ...), and survive every chain of unit conversions "
            "with their metadata. Every chemical element has its symbol, name and "
            "weight; a species made from a symbol or a name has the mass of that "
            "element and the charge given by its signs, in nucleon masses and "
            "elementary charges, in whatever order they are read, and a mass and a "
            "charge give back the species they came from, alone or in lists, as int, "
            "float or numpy numbers, where a fractional mass selects the nearest "
            "element and an integral one an element with so many nucleons. Every alias of a simulated quantity "
            "has the unit, dimension and canonical name of that quantity in both systems, "
            "and no alias belongs to two quantities. Unknown names, masses and malformed "
            "calls are refused."
        ),
        all='all constants, systems and walks of units; all elements, charges and representations; all pairs of species and of aliases',
        why=(
            "Constants, species and names enter every derived observable, and an "
            "error in one entry shows only in the results that use that entry. Tests "
            "sample a few entries."
        ),
        files=['universal.py', 'atomic.py', 'reference.py'],
        mechanism=[
            ('constants', 'universal.py:_constants, Constants, Constant'),
            ('elements', 'atomic.py:_elements, elements, get_mass_indices'),
            ('species', 'atomic.py:Species, species'),
            ('names', 'reference.py:_metadata, build, UNITS, DIMENSIONS'),
        ],
        observe=['value in SI', 'dimension', 'metadata', 'symbols', 'masses and charges', 'aliases', 'refusals'],
        technique=(
            'explicit enumeration of all entries, conversion walks, read orders and pairs '
            'on the real code, against independent tables and physical identities'
        ),
        note='23 constants, 110 elements, charges -8..8 (quick) or -30..30 (thorough), 36 quantities',
    ),
    dict(
        id='C28',
        over=[I, P],
        title='Indices act as integers and array dimensions as ordered sets',
        statement=(
            "An index made from any integral source (int, text, numpy array of any "
            "integer type, range, unitless measured or physical number) has that value; "
            "fractional, dimensional or wrongly shaped sources are refused, and a single "
            "index is not made from many. Arithmetic, comparisons, shifts (with floor and "
            "ceiling) and subscripts of an index or a sequence of indices, composed in any "
            "order, give what they give for integers, element by element, and leave their "
            "operands alone; sequences of different lengths and foreign operands are "
            "refused and never equal. A normalized, resolved or expanded index "
            "expression of integers, slices, lists, arrays, masks and one ellipsis in any "
            "place selects from an array the elements that the axis-wise positions select, "
            "and positions beyond an axis are refused. Restricting indices around targets "
            "gives the tightest range that encloses every target in every row. "
            "Collections of dimension names obey the laws of ordered sets: union keeps "
            "both orders or is refused, intersection, difference and symmetric difference "
            "keep the order of their operands, comparisons are those of sets, and "
            "a permutation reorders, never drops or repeats."
        ),
        all='all histories of operations on indices; all tuples of index forms; all arrays, targets and axes; all pairs and triples of collections',
        why=(
            "Every subscript of an array, quantity or observable, and every result with "
            "more than one axis, goes through these objects; an error shows as data "
            "silently attached to the wrong axis or position. Tests sample a few tuples."
        ),
        files=['numeric/_index.py', 'numeric/_array.py'],
        mechanism=[
            ('indices', 'numeric/_index.py:Value, Sequence, value, sequence'),
            ('expressions', 'numeric/_index.py:resolve, normalize, expand, expand_ellipsis'),
            ('bounds', 'numeric/_index.py:restrict, _compute_bounds'),
            ('dimensions', 'numeric/_array.py:Dimensions, dimensions'),
        ],
        observe=['integer values', 'selected elements', 'ranges', 'orders of names', 'types', 'refusals', 'operands after the operation'],
        technique=(
            'explicit-state exploration of operation histories and exhaustive enumeration of index '
            'expressions, bounds and collections on the real code, against integers, lists and sets'
        ),
        note='operation depth 2 (3), index tuples up to 3 (4) axes, arrays up to 4 (5), 3 (4) dimension names',
    ),
    dict(
        id='C26',
        over=[I, H],
        title='Paths and files are located where the user means, and nowhere else',
        statement=(
            "In every file tree, from every working directory, a full path is the "
            "path with the home directory, '.', '..' and links resolved, whatever form it "
            "is given in, and a strict one exists or is refused. A "
            "local path is a single name that cannot leave its directory; a project "
            "whose parts (inputs, output, runs, log) are named by any path creates nothing "
            "outside its root. An executable is the one that the environment names, else the one in "
            "the given directory, else the one on the system path, else the bare name. A search "
            "returns the file in the first of the given directories that has it, then the current "
            "directory of the caller, and refuses directories that do not exist; templates are "
            "tried in order. Every run of a project uses, and records, the executables of its own "
            "branch located in this way. A text file gives its lines and the last value of each "
            "extracted key; an inline comment starts at the first of the comment "
            "symbols. Path-based objects are the same object exactly when their type, path and "
            "all other arguments are the same."
        ),
        all='all contents of two slots, working directories, forms of paths and lists of directories; all short texts; all histories of constructions',
        why=(
            "Datasets, configuration files, source code and projects are found by these "
            "rules; an error opens or overwrites the wrong file. Tests use one path of a real "
            "home directory and one search."
        ),
        files=['paths.py', 'project.py'],
        mechanism=[
            ('resolution', 'paths.py:fullpath, normalize, localize, locate'),
            ('search', 'paths.py:search, find_file_by_template'),
            ('text', 'paths.py:TextFile, file_lines, strip_inline_comments'),
            ('path-based objects', 'paths.py:PathSet, etc.py:InstanceSet'),
        ],
        observe=['returned paths', 'errors', 'entries created outside the project', 'lines and values', 'object identity'],
        technique=(
            'explicit enumeration of file trees, paths, texts and construction histories on the real '
            'code, against a resolver over a model of the tree'
        ),
        note='9 kinds of entry in 2 slots, 3 working directories, 28 forms of path, 2 (3) searched directories, texts up to 4 (6) symbols',
    ),
    dict(
        id='C30',
        over=[I, H],
        title='A plot shows the values of the array in the units of its labels',
        statement=(
            "Plotting an array that has exactly one axis of more than one point draws one "
            "curve. Its ordinates are the values of the array in the requested unit, or in "
            "the unit of the array if none is requested. Its abscissae are the labels of "
            "that axis, or of the named dimension, or the given x (a list or numpy array "
            "of numbers, a measured sequence, a vector, an array or an axis of coordinates) "
            "in its own unit. The label of the ordinates contains the unit of the drawn "
            "values, the label of the abscissae contains the name of the dimension and, "
            "if it has one, the unit of the drawn numbers; labels given by the caller "
            "are used as they are. Options of the curve and of the axes are applied, "
            "the figure is shown once, or only saved if there is a path, and then closed. "
            "A request that does not fit (another shape, an x of another length or type, "
            "an unknown dimension, an inconsistent unit) is refused. Plotting does not "
            "change the array, and its squeezed form is its values without the axes of "
            "one point."
        ),
        all='all plot requests in all states of an array reached by conversions, subscripts, transpositions, scalings and plots',
        why=(
            "A figure is the result that users look at and publish: a curve in km/s "
            "under a label that says m/s, or against the wrong axis, is believed. The "
            "tests of the repository draw nothing."
        ),
        files=['physical/_array.py', 'symbolic/_operand.py', 'symbolic/_expression.py'],
        mechanism=[
            ('plot', 'physical/_array.py:plot, _create_plot'),
            ('squeezed', 'physical/_array.py:Array.squeezed'),
            ('labels of units', 'symbolic/_operand.py:Term.format'),
        ],
        observe=['abscissae and ordinates', 'axis labels', 'options of the figure', 'files', 'refusals', 'the array before and after'],
        technique=(
            'explicit-state search over operation sequences on arrays, with the whole '
            'product of plot requests in every state, reading the figure on the real '
            'matplotlib backend when it is shown, saved or closed'
        ),
        note='the figure is judged by meaning: number times labelled unit is the physical value',
    ),
    dict(
        id='C31',
        over=[I, H],
        title='Reference data generated from EPREM source code say what the source says',
        statement=(
            "The generator of default parameter values, run on any source tree, leaves a "
            "database from which the package gives exactly the constants, default values, "
            "types and ranges that the source defines, and a Python module with the same "
            "content. In append mode, names that the database already has keep their "
            "definition, the other names of the source are added, and the module has all of "
            "them. Without a source, the data stay as they are. Every sequence of runs has "
            "the effect of its runs, nothing else in the package changes, and nothing is "
            "printed unless asked for."
        ),
        all='all source trees of a catalogue of definitions; all sequences of generator runs up to a depth',
        why=(
            "Everything that has no source code at hand uses these data: an error in them is an "
            "error in every configuration and stream. No test of the repository runs the generator."
        ),
        files=['scripts/default-parameters.py', 'parameter/_src.py', 'parameter/_config.py', 'parameter/reference.py'],
        mechanism=[
            ('generator', 'scripts/default-parameters.py'),
            ('serialization of definitions', 'parameter/_src.py:SourceFile.todict, tostring, get'),
            ('loading of the database', 'parameter/_src.py:SourceFile.load_from_package'),
        ],
        observe=['constants, defaults and definitions of the package copy', 'content of the generated module', 'printed text', 'files of the copy'],
        technique=(
            'explicit-state exploration of generator runs on a scratch copy of the package, against a '
            'dictionary of texts and values'
        ),
        note='trees: all triples of 38 definitions (all combinations in thorough); sequences of 3 (4) runs',
    ),
]
