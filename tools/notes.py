T['C01'] = 'abstract interpretation of every read entry point (constructor, read, re-read) over the abstract file states missing / empty / non-empty'
N['C01'] = 'All paths of read and construction of every format class, with helper functions inlined through the class hierarchy; loops widened; the file is one of three abstract states and every exception that can leave is checked against the state.'
T['C02'] = 'abstract interpretation of read/write/construction with symbolic paths (given, remembered, none)'
N['C02'] = 'Every path of every read/write/constructor: which symbolic path reaches open/reader calls, what self.filename holds at exit, and that no file is touched without a path.'
T['C03'] = 'interprocedural effect analysis over a class-context call graph, plus abstract interpretation of construction and read'
N['C03'] = 'No file-writing call is reachable from any operation that is not itself a writing operation; calls on receivers of unknown type are resolved by method name.'
T['C04'] = 'abstract interpretation of every writer with symbolic paths; every path opened, deleted or created is classified relative to the requested path'
N['C04'] = 'All paths of all writers of all classes; paths built in ways the domain cannot express are reported only if provably different.'
T['C05'] = 'abstract interpretation of every writer: must-open-for-replacement and must-write typestate on all normal exits'
N['C05'] = 'Every normal exit of every writer must have opened the target in a replacing mode and handed it content; loops over data may be empty only where the format allows it.'
T['C11'] = 'path-sensitive definite-assignment dataflow, scope resolution, call-signature and template matching over the resolved program'
N['C11'] = 'Decides the clauses of the statement (names, call signatures, self attributes, templates) for every path of every function; correlated conditions are tracked, loops are widened; third-party signatures are read from the installed libraries.'
T['C13'] = 'classification of every call site against code-executing primitives, with constant-origin analysis of their arguments'
N['C13'] = 'Complete over the call sites of the package; third-party parsers are trusted not to execute data.'
T['C14'] = 'abstract interpretation of detectFormat/read/isRightFormat over all outcomes of the constructors they call'
N['C14'] = 'Every path through detection: which exceptions are swallowed, what is returned, which options are passed on.'
T['C15'] = 'constant folding of the registration code and of every class\'s formatName/defaultExtensions/priority'
N['C15'] = 'The registered list is computed from the source (tables, loops and helper functions folded) and compared with the classes that exist.'
T['C16'] = 'signature conformance over the class hierarchy, constant folding of the class-level queries, and return-value dataflow of the conversions'
N['C16'] = 'Complete for signatures and static methods; for conversions every path that returns is shown not to return None.'
T['C17'] = 'import-time reachability: imports and effects executed by module bodies, followed through the call graph'
N['C17'] = 'Complete over module bodies; declared requirements are read from requirements.txt and setup.py.'
T['C18'] = 'effect analysis: every statement that sets process-wide state must be undone on every path (context manager or finally)'
N['C18'] = 'Complete for the listed setters and for assignments to attributes of other modules; setters reached only through third-party code are not seen.'
T['C19'] = 'taint/dependency analysis from order-, clock-, random-, host-dependent sources to results, with function summaries'
N['C19'] = 'Flow-insensitive within a function, so a later sort removes the dependency; sources hidden in third-party code are not seen.'

T['C06'] = 'interprocedural mutation (alias + effect) analysis: what every observer and writer may store into, three levels of aliasing deep'
N['C06'] = 'Every public observer/writer of every format class in its class context; mutation through aliases, helpers, numpy views and in-place pandas calls; copies made at any level are recognised. Mutation through third-party calls not known to mutate is not seen.'
T['C07'] = 'mutation analysis with labels for module variables, class objects, class attributes and default arguments'
N['C07'] = 'Every function of the package in its class context: no store into an object that outlives the call and is reachable from more than one instance.'
T['C08'] = 'mutation analysis with labels for the parameters of public functions'
N['C08'] = 'Every public function and method of the package: no store reaches a container the caller passed in, directly or through helpers; outputs documented as such are listed in the check.'

T['C09'] = 'definite-assignment and upward-exposed-use analysis of the object state over read(), methods and helpers expanded in place, with a cache rule for the other methods'
N['C09'] = 'All 42 classes with a reader: every attribute and entry a read may set is replaced or removed on every path of the next read and not used before; caches set by other methods are reset by read; the constructor adds nothing after reading. Attributes and keys under computed names are reported as undecided, not alarmed on.'

T['C10'] = 'path-sensitive typestate of file handles (opened, owned, escaped, closed) including the exception edges of every statement'
N['C10'] = 'Every opening call of the package is followed on all paths, normal and exceptional, through helpers and object attributes; handles opened inside third-party code are not seen.'
T['C12'] = 'loop-variant analysis: for every while loop, and every for loop over an unbounded iterator, a decreasing quantity, an end-of-input exit, or a consumed sequence is derived on all paths of the body'
N['C12'] = 'All loops of the package; progress is derived from integer steps, consumed lists, file reads with an end-of-file exit. Loops whose progress cannot be decided are listed in the evidence and not alarmed on.'
T['C22'] = 'abstract interpretation of readers and writers recording encoding and error handler of every open of the own file, plus a query for lossy encode/decode calls on the call graph'
N['C22'] = 'All paths of construction, read and write of every format class, and the two-sided parser classes of the HAWC2 tools; handlers that arrive through helpers, attributes or options are followed. Files opened inside third-party code are not seen.'
T['C20'] = 'abstract interpretation over a domain of record layouts (typed field sequences with exact symbolic counts, array element functions)'
N['C20'] = 'Every path of the readers and writers of .outb (4 identifiers, both reading modes), .bts and Mann boxes with symbolic sizes; fields, element order, decoding formulas, scaling and 16-bit saturation are compared with the published layout as exact expressions. Float widths are treated as exact; paths for NaN scales, constant data and exception fall-backs are checked for the field order only.'
T['C21'] = 'abstract interpretation over records with known keys (reader), then of every consumer on every entry shape the reader can emit, with dependency tracking'
N['C21'] = 'All paths of the OpenFAST input reader, one per row of its section tables; each of the emitted entry shapes is fed to the writer, the data frame conversion and the label functions. Section rows are compared with a reviewed table (spec/openfast_sections.json). Formatting of the numbers is not covered (C23).'
T['C26'] = 'relational dataflow query: the entry a module path is read from (read side) against the entry set, the object written and the file name composed on the write side'
N['C26'] = 'All module files of the OpenFAST input deck; file names are compared as symbolic concatenations, through local tables, loops over literal tables and small helpers. Names built in ways that are not understood are counted, not alarmed on. The conditions under which a module is written are not compared.'
