"""writes /verif/properties.jsonl (kept as code so that the statements are easy to review)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop('C01', 'Missing and empty files are refused before any content is interpreted',
 "For every format class that ships with the library, reading a path at which there is no file raises OSError, and reading a file of zero bytes raises the library's EmptyFileError. "
 "Both happen before any of the content is interpreted, and a file that exists and is not empty is never refused as missing (a format made of several files may report a missing companion file) and is refused as empty only after its content has been read and holds no data. "
 "This holds for the first read, for a constructor call with a path, and for any later re-read.",
 ['inputs', 'histories'], 'for all format classes x {missing, empty, non-empty path} x every path through the read entry point',
 'the suite reads only existing, well-formed sample files; no test opens a missing or an empty file with any of the 40 classes',
 ['weio/file.py', 'weio/*_file.py'],
 [('existence and size checks at the top of read', 'weio/file.py:File.read and the classes that override read()')])

prop('C02', 'A given path is the one used and remembered; no path at all is an error',
 "When a path is passed to read or write of a format object, exactly that path is the one accessed, and it becomes the object's remembered filename. "
 "When no path is passed the remembered filename is used, and when there is none either, the call raises without touching the file system. "
 "Constructing an object without a path never accesses a file.",
 ['inputs', 'histories'], 'for all format classes x {path given, path remembered, no path} x every path through read/write/constructor',
 'tests always pass a fresh path, once; write(other path) followed by a bare write()/read(), and calls without any path, are not exercised',
 ['weio/file.py', 'weio/*_file.py'],
 [('filename parameter handling', 'read/write of every class'), ('self.filename', 'weio/file.py:File')])

prop('C03', 'Reading, detecting and converting never change the file system',
 "Constructing a format object from a path, reading, re-reading, detecting a format, converting to data frames, printing and computing derived quantities never create, modify, rename or delete any file or directory: files are only ever opened for reading by these operations. "
 "Only operations whose documented purpose is to write may open a file for writing.",
 ['inputs', 'programs'], 'for all read-side operations of all format classes and helper modules, on every path of their call graphs',
 'a test can only look at the files it knows about, for the sample inputs it has; a write on a rare branch is invisible to it',
 ['weio/**/*.py'],
 [('open() modes', 'every open call reachable from a read-side operation')])

prop('C04', 'Writing touches only the requested file',
 "Writing an object opens for writing only the path that was requested, or a companion file of the format whose name is that path with its extension replaced or a fixed suffix added. "
 "It never writes to the file the object was read from (unless that is the requested path), never deletes, renames or creates anything else (apart from the missing parent folder of the requested path), and the two comparison helpers of the base class only ever create and delete the temporary files they derive from the object's own filename.",
 ['inputs', 'histories'], 'for all format classes with a writer x every path of the writer',
 'tests write to one temporary path and look only at that file',
 ['weio/file.py', 'weio/*_file.py', 'weio/wetb/hawc2/*.py'],
 [('open(...,"w") calls of the writers', '_write / write / toFile / savetxt / to_csv calls')])

prop('C05', 'A write that returns has replaced the target; anything else raises',
 "If writing an object returns normally, then on every path the target file has been opened for replacement (never for appending to what was there) and the serialised content has been handed to it. "
 "A combination of options or data the writer does not support raises an exception; it is never reported by a message only, ignored, or answered with a silently unwritten or stale file.",
 ['inputs', 'configurations'], 'for all format classes with a writer x every path of the writer to a normal return',
 'tests write with default options only and never over an existing longer file',
 ['weio/file.py', 'weio/*_file.py'],
 [('writers', 'write/_write/toFile/writeBinary/writeDataFrame')])

prop('C06', 'Observing or writing an object leaves its data unchanged',
 "Converting an object to data frames or to a string, printing it, listing its keys, computing derived quantities and writing it to disk do not add, remove or change any entry or data array of the object (apart from the remembered filename, a size entry that a writer brings in step with the table it counts, and private caches). "
 "Calling such an operation twice therefore gives the same result as calling it once, and data returned earlier keep describing the file.",
 ['histories', 'inputs'], 'for all observer operations and writers of all format classes, on every path, for any sequence of calls',
 'tests call each observer once and compare nothing before and after',
 ['weio/*_file.py', 'weio/file.py'],
 [('observers work on copies', '_toDataFrame/toDataFrame/toString/__repr__/_write and derived-quantity methods')])

prop('C07', 'Objects are independent of each other',
 "Reading, writing, changing or converting one object never changes what another object holds or returns, whether of the same or of another class, whether created before or after. "
 "No data read from a file is kept in state shared by objects (class attributes, module variables, default argument values, functions attached to classes).",
 ['histories'], 'for all histories of operations on two or more objects in one process',
 'each test uses one object at a time; sharing only shows when two live objects interleave',
 ['weio/**/*.py'],
 [('per-instance state', '__init__/_read of all classes')])

prop('C08', 'Arguments passed by the caller are not modified',
 "No public function or method of the library modifies the lists, dictionaries, arrays or data frames it is given as arguments, other than an output container that is documented as one. "
 "In particular reading options passed to a format class or to the top-level read, and data handed over to be written, are still what they were when the call returns.",
 ['inputs', 'histories'], 'for all public functions and methods x all argument values x all paths',
 'tests never compare an argument before and after the call',
 ['weio/**/*.py'],
 [('copy before modify', 'functions taking containers, e.g. weio/fast_output_file.py:writeDataFrame, weio/csv_file.py, weio/mannbox_file.py')])

prop('C09', 'Re-reading an object leaves nothing of the previous file behind',
 "Reading into an object that has already read a file gives the same data as reading that file into a new object of the class: no entry, table, label or attribute from the earlier file survives in, is appended to, or changes what is read now.",
 ['histories'], 'for all histories read(a); read(b) on one object, for every format class and every pair of files',
 'tests read each object once; leftovers depend on what the first of two files contained',
 ['weio/*_file.py'],
 [('reset at the start of _read', 'e.g. weio/fast_input_file.py:_read (self.data=[])')])

prop('C10', 'Every file the library opens is closed, on success and on error',
 "Every file handle opened inside the library is closed by the time the call that opened it has returned or raised, on every path, including when parsing or conversion fails half-way. "
 "After a failed read or format detection the file can be moved, deleted or rewritten at once.",
 ['inputs', 'fault_sequences'], 'for all open calls in the library x every normal and exceptional path to an exit of the function that owns the handle',
 'leaked handles do not fail a test on CPython; the error paths are never taken',
 ['weio/**/*.py'],
 [('with-blocks and close in finally', 'every open site')])

prop('C11', 'No path ends in an internal programming error',
 "Whatever the input, no path through the library stops with an error that stems from the code itself rather than from the input: every name used is defined by then, every call inside the package matches the signature of what it calls, every method used on the object itself exists, and every message template has as many arguments as placeholders. "
 "Malformed input is therefore reported by the exception the code means to raise, and error branches work when they are needed.",
 ['inputs', 'programs'], 'for every name load, in-package call, self-method use and message formatting in the package, on every path',
 'error branches are not covered by the suite (all sample files are valid); Python finds such errors only when the line runs',
 ['weio/**/*.py'],
 [('definitions before use', 'every function of the package')])

prop('C12', 'Reading any finite file terminates',
 "For every finite input file, whatever its content and wherever it ends, reading, detection and conversion terminate: every loop that waits for something in the file makes progress on each iteration and stops when the end of the input is reached.",
 ['inputs'], 'for all condition-controlled loops reachable from reading x all file contents, in particular truncated ones',
 'tests read complete files; a loop that spins at end-of-file needs a truncated or adversarial one',
 ['weio/*_file.py', 'weio/__init__.py', 'weio/mini_yaml.py', 'weio/wetb/hawc2/*.py'],
 [('progress and end-of-input exits of while loops', 'all while loops of the package')])

prop('C13', 'File content is data: it is never executed',
 "Content, names or headers read from a file are only ever parsed as data; no operation of the library evaluates them as code, imports modules they name, unpickles them, or passes them to a shell or another program. "
 "The only code loaded at run time is the user's own format modules from the user directory; templates are only expanded when the caller explicitly supplies template tags.",
 ['inputs', 'programs'], 'for all operations on all inputs: no path reaches an evaluation, unpickling, dynamic import or process-spawning primitive',
 'a test would need the malicious input that reaches the call',
 ['weio/**/*.py'],
 [('plain parsing only', 'absence of eval/exec/pickle/subprocess/os.system on any path'), ('user formats', 'weio/__init__.py:userFileClasses')])

prop('C14', 'Format detection moves on only for WrongFormatError and reports honestly',
 "Detecting a file tries the formats that claim its extension in their registered order, moves on to the next one only when a format says the file is not of its kind, and returns the first format that accepts together with the object it read. "
 "Any other error raised by a reader reaches the caller, options given to the top-level read reach the reader, and when no format accepts, an error saying so is raised instead of returning nothing.",
 ['inputs', 'configurations'], 'for all registries, file names, reader outcomes and options, on every path of detection and top-level read',
 'tests detect known good samples only; ordering, error propagation and exhaustion are not exercised',
 ['weio/__init__.py', 'weio/file_formats.py'],
 [('detectFormat / read', 'weio/__init__.py'), ('isRightFormat', 'weio/file_formats.py')])

prop('C15', 'Every shipped format is registered once, with usable name and extensions',
 "Every concrete single-file format class shipped with the library is in the list of known formats exactly once, format names are unique, and every extension a format declares can be matched by detection (it starts with a dot and survives the lower-casing of file names). "
 "The list is the same on every call and ordered by the declared priorities, in registration order for equal priorities, and the classes are always importable.",
 ['configurations', 'histories'], 'for all shipped format modules and all declared extensions',
 'the tests only assert that a handful of samples are detected',
 ['weio/__init__.py', 'weio/file_formats.py', 'weio/*_file.py'],
 [('addFormat table and stable sort', 'weio/__init__.py:fileFormats'), ('defaultExtensions/formatName', 'each format class')])

prop('C16', 'All registered formats offer the same interface',
 "Every registered format can be constructed without arguments and with a path, read with an optional path, written with an optional path and converted to data frames without arguments, and its extension and name lists can be queried on the class without an instance. "
 "Format and extension queries return a list of strings and a string, and a conversion that succeeds returns a data frame or a dictionary of data frames, never nothing.",
 ['programs', 'inputs'], 'for all registered classes and all paths of their conversion functions',
 'tests call each class the way its own author does, never uniformly, and never on branches that fall through',
 ['weio/*_file.py', 'weio/file.py', 'weio/file_formats.py'],
 [('method signatures', 'class definitions'), ('return statements of toDataFrame/_toDataFrame', 'each format class')])

prop('C17', 'Importing needs only the declared requirements and has no side effects',
 "Importing the package or any module of it needs only the declared required packages, since optional packages are imported when the format that needs them is used. "
 "Importing never opens files, prints, reads the user directory, changes the working directory or the module search path, or starts other programs (except the module weio.user, which exists to load the user's formats).",
 ['configurations'], 'for all modules of the package and everything executed at import',
 'the suite runs in one environment, where every optional package is installed',
 ['weio/**/*.py', 'requirements.txt', 'setup.py'],
 [('function-level imports of optional packages', 'excel, netcdf, parquet, tdms, bladed, raawmat modules'), ('module top level', 'all modules')])

prop('C18', 'Process-wide state is left as it was',
 "No operation of the library permanently changes process-wide state that other code relies on: working directory, environment, module search path, locale, warning filters, numpy or pandas global options, floating-point error handling, random seeds, default encodings or standard streams.",
 ['histories', 'programs'], 'for all operations, on every path including failing ones',
 'tests do not look at global state, and a change on an error path is not reached',
 ['weio/**/*.py'],
 [('scoped settings only', 'absence of os.chdir, sys.path edits, np.seterr, warnings.filterwarnings, pd.set_option ... outside restoring scopes')])

prop('C19', 'Results depend only on the file and the options',
 "Reading, detecting, converting and writing give the same result for the same file content, options and object, on every run and in every process: nothing that is read, returned or written depends on the clock, random numbers, hash or set ordering, directory listing order, object addresses, the environment or the working directory's content. The date written into a header or description text, the home directory that holds the user's formats, and the platform's default text encoding are not covered.",
 ['inputs', 'configurations', 'schedules'], 'for all operations and inputs, over all runs and processes',
 'a test runs in one process with one hash seed and one clock; order effects appear rarely',
 ['weio/**/*.py'],
 [('ordered containers only', 'absence of set iteration, unsorted listings, time and random calls in results')])

prop('C20', 'Binary readers and writers agree on the record layout',
 "For the binary formats that the library both reads and writes (OpenFAST .outb, TurbSim .bts, Mann box) the writer emits exactly the fields the reader consumes, in the same order, with the same width, signedness, byte order and repetition, and both follow the published layout. "
 "The scaling applied when writing is the inverse of the one applied when reading.",
 ['inputs', 'programs'], 'for all objects written: field by field along every path of the writer and the reader',
 'round-trip tests use one small sample per format; a field whose value happens to be 0 or equal hides a mismatch',
 ['weio/fast_output_file.py', 'weio/turbsim_file.py', 'weio/mannbox_file.py'],
 [('struct formats and np.fromfile/tofile dtypes', 'loadBinaryOutput/writeBinary, TurbSimFile._read/write, MannBoxFile._read/write')])

prop('C21', 'Every table kind the OpenFAST input reader produces can be written back',
 "Every kind of entry the OpenFAST input reader can create is handled by its writer, by its conversion to data frames and by its label bookkeeping, and none is silently dropped. "
 "The reader's tables of known sections are complete: each known table has its size variable, header count, offset, type and label on the same position.",
 ['inputs', 'configurations'], 'for all entry kinds and all rows of the tables of known sections',
 'tests cover the sections that occur in the sample files; a shifted column or an unhandled kind shows only for the others',
 ['weio/fast_input_file.py'],
 [('TABTYPE_* constants', 'weio/fast_input_file.py'), ('NUMTAB_FROM_* lists', 'weio/fast_input_file.py'), ('toString / _toDataFrame', 'FASTInputFileBase')])

prop('C22', 'Any bytes a text format can read, it can write back',
 "A text format that accepts arbitrary bytes when reading (undecodable bytes are kept, not rejected) also accepts them when writing: the text it read can be written without a decoding or encoding error and with these bytes unchanged. "
 "Reader and writer of a format use the same text encoding.",
 ['inputs'], 'for all byte strings in comments, labels and values of text files that can be read and written',
 'the sample files are plain ASCII',
 ['weio/fast_input_file.py', 'weio/flex_profile_file.py', 'weio/turbsim_ts_file.py', 'weio/cactus_file.py', 'weio/fast_linearization_file.py'],
 [('errors="surrogateescape" on both sides', 'open calls of reader and writer of a class')])

prop('C23', 'Writing and reading back gives the same numbers',
 "For every format with a writer, an object that is written and read back holds the same values, up to the precision the format stores.",
 ['inputs'], 'for all objects of all writable formats',
 'round trips are tested for a few samples per format',
 ['weio/*_file.py'], [('writers and readers', 'each format class')])

prop('C24', 'The values read are the values in the file',
 "For every well-formed file of a supported format, the numbers, names and units returned are the ones the format's specification assigns to the content of that file.",
 ['inputs'], 'for all well-formed files of all formats',
 'tests compare a few numbers of a few samples',
 ['weio/*_file.py'], [('parsers', 'each format class')])

prop('C25', 'Malformed content raises one of the library\'s own format errors',
 "Whatever a non-empty file contains, reading it either succeeds or raises one of the library's format errors, never an incidental exception of the parsing code.",
 ['inputs'], 'for all byte strings x all format classes',
 'the suite contains no malformed files',
 ['weio/*_file.py', 'weio/file.py'], [('try/except wrappers in _read', 'some format classes')])

prop('C26', 'A written input deck refers to the files it consists of',
 "After an OpenFAST input deck has been written, every module file that was written with it is the one that the deck names: the entry through which a deck finds this module when it is read "
 "(in the main file, or in the module above it) holds, in the file that is written, the name of the file the module was put into, in the same folder. Reading the written deck therefore finds the data of each module where that module's data is.",
 ['inputs', 'configurations'], 'for all combinations of enabled modules, prefixes, suffixes and folders',
 'the suite contains no test that writes a deck',
 ['weio/fast_input_deck.py'],
 [('fst[...File] = basename(...) and fst_vt[...].write(...)', 'FASTInputDeck.write'), ('_read of module files', 'FASTInputDeck.read, readAD, *_relpath')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
