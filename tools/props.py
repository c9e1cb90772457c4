PROPS = [
dict(id='C01', title='Every unknown XML attribute and element is reported, never silently dropped',
  statement='When the library reads any XML source (Bible texts, lexicons, locale data, its own reference tables), an attribute or child element whose name it does not recognise is either kept or produces a diagnostic (log message, error-list entry or exception). There is no input on which an unrecognised attribute or element name is skipped without a word: every child element that a reader goes through has its own attributes and its own children looked into (or checked to be absent), on every path.',
  over=['inputs'], quant='every XML document and every place where the readers dispatch on an attribute name or a child tag',
  why='The tests parse no XML source at all except through the pre-built reference tables; unknown names appear only in files nobody has sampled.',
  files=['BibleOrgSys/Formats/OSISXMLBible.py', 'BibleOrgSys/Formats/USXXMLBibleBook.py', 'BibleOrgSys/Formats/USFXXMLBible.py', 'BibleOrgSys/Formats/ZefaniaXMLBible.py', 'BibleOrgSys/Formats/OpenSongXMLBible.py', 'BibleOrgSys/BibleOrgSysGlobals.py'],
  mech=[('default branch of each attribute/element dispatch logs the unprocessed name', 'the validate*/load* methods of every XML reader'), ('checkXMLNoAttributes, checkXMLNoSubelements', 'BibleOrgSys/BibleOrgSysGlobals.py')],
  technique='path analysis of the name dispatch on control-flow graphs, with interprocedural must-report and must-look-into summaries',
  note='Decides, for every loop over attributes and every loop dispatching on a child tag in the library, that the path on which all name comparisons fail reports or keeps the name; and, for every loop over child elements, that each element has its attributes and children enumerated, checked absent, handed to a function that does so on all its paths, or is itself reported, on every path and for every tag. Trusts that a logging call is a diagnostic and that a whole element handed to another function is that function\'s responsibility.'),
dict(id='C02', title='Exporting everything runs, reports and isolates the same exporters in every mode',
  statement='Asking a Bible to export itself in all formats runs every exporter exactly once into its own output folder and returns each exporter\'s own result under its own key, the same in debugging, single-process and multi-process runs, and with a multi-process timeout the number of results still fits. An exporter that fails outside debug mode is reported as failed and does not prevent the others from running. Optional exports that were not asked for are not run and report no result.',
  over=['configurations', 'fault_sequences'], quant='all run modes (debug, single, parallel, parallel timed out), all subsets of optional exports, any exporter raising any exception',
  why='No test ever runs the export-everything operation; a swapped index between parallel lists shows only in one mode.',
  files=['BibleOrgSys/BibleWriter.py'],
  mech=[('doAllExports, doExportHelper', 'BibleOrgSys/BibleWriter.py')],
  technique='abstract interpretation (constant/provenance propagation) of the driver once per configuration, exporters opaque',
  note='Decides which exporter and folder each result key carries in each mode and that each exporter call is guarded. What each exporter does inside is not covered here.'),
dict(id='C03', title='Unknown-folder identification consults and loads every supported format',
  statement='Searching an unknown folder asks every supported format detector about that folder with the same strictness and counts every answer; only when exactly one Bible was found in total does it load, and then with the format that reported it, passing on the folder, strictness and auto-load choices of the caller. With the load-always option it may also load one when several formats found one each. If a strict search finds nothing, a lenient one (unless strict checking is insisted on) is made and its outcome is what counts; if a lenient search finds several kinds, a strict one is made. More specific formats are preferred over the general formats that also match them, and every format is reported with a label of its own, distinct from those for none and several found.',
  over=['inputs', 'configurations'], quant='every combination of detector answers, strictness and auto-load flags',
  why='The tests never search a folder; there are 27 detectors and the combinations of answers cannot be sampled.',
  files=['BibleOrgSys/UnknownBible.py'],
  mech=[('UnknownBible.search', 'BibleOrgSys/UnknownBible.py')],
  technique='abstract interpretation of the search with detectors opaque: provenance of counts, path facts at each load',
  note='Decides which detectors are consulted, with what arguments, how the counts combine, and under which condition each is asked to load. The detectors\' own answers are C04.'),
dict(id='C04', title='Format detectors only look, unless asked to load the one Bible they found',
  statement='Each format detector given a folder only looks when no auto-loading is asked for: it builds and loads no Bible and returns no Bible object. When auto-loading (of the Bible, or of its books) is asked for and exactly one Bible of its format was found, in the folder itself or in a subfolder, it returns a Bible of its own format made for the folder (and file) where it was found, never for a name found in one folder and looked for in another, and loads the books if and only if loading the books was asked for. A path that is unreadable or not a folder gives False.',
  over=['inputs', 'configurations'], quant='every folder content and every combination of the auto-load flags, for all detectors',
  why='The tests call no detector on a Bible folder; the crashes and omissions sit in the subfolder and single-flag combinations.',
  files=['BibleOrgSys/Formats/USFMBible.py', 'BibleOrgSys/Formats/OSISXMLBible.py', 'BibleOrgSys/Formats/ESwordBible.py', 'BibleOrgSys/Formats/VPLBible.py', 'BibleOrgSys/Formats/PickledBible.py'],
  mech=[('the *FileCheck functions', 'BibleOrgSys/Formats/')],
  technique='abstract interpretation of every detector once per auto-load flag setting: effects, return values and path facts at each construction',
  note='Decides when each detector constructs, loads and returns a Bible, and for which folder. What makes a detector count a file as its format is not examined.'),
dict(id='C05', title='No exporter drops a book, a line or verse text without a word',
  statement='When a Bible is exported to any format, each book is either written or reported, a line whose marker the exporter has no rule for is either written or recorded and reported, and the text of verses and of their continuation paragraphs is always written. Collections of what could not be handled always end up in a log message.',
  over=['inputs'], quant='every Bible content: all books, all markers, all texts, for all exporters that dispatch on line markers',
  why='The tests run no exporter. Whether a marker falls through an if/elif chain of fifty branches depends on texts nobody has sampled.',
  files=['BibleOrgSys/BibleWriter.py', 'BibleOrgSys/Formats/theWordBible.py', 'BibleOrgSys/Formats/ESwordBible.py', 'BibleOrgSys/Formats/EasyWorshipBible.py', 'BibleOrgSys/Formats/USXXMLBible.py', 'BibleOrgSys/Formats/OpenSongXMLBible.py', 'BibleOrgSys/Formats/MyBibleBible.py'],
  mech=[('the loops over internal Bible entries that dispatch on getMarker()', 'to*/create* exporters')],
  technique='path analysis of marker dispatch on control-flow graphs with marker comparisons forced, interprocedural',
  note='Decides for all dispatch loops that no path loses an unknown marker, verse text or a book without recording it. How well the text is rendered is not covered.'),
dict(id='C06', title='Reading texts, metadata or archives never executes or escapes anything',
  statement='Nothing that comes out of a file the library reads is ever executed: metadata and text are never evaluated as Python, never become part of a shell command line or the name of a program to run, and are never unpickled, apart from cache files in the library\'s own folders and the Pickled Bible format itself. An archive is only ever unpacked inside the folder meant for it.',
  over=['inputs'], quant='every file content, file name and archive member name, for every reader',
  why='Only a hostile or odd file shows it; the tests read none.',
  files=['BibleOrgSys/Formats/BCVBible.py', 'BibleOrgSys/Online/SwordInstallManager.py', 'BibleOrgSys/BibleWriter.py', 'BibleOrgSys/InputOutput/MLWriter.py', 'BibleOrgSys/InputOutput/XMLFile.py'],
  mech=[('loadMetadata, loadBookMetadata', 'BibleOrgSys/Formats/BCVBible.py'), ('refreshRemoteSource', 'BibleOrgSys/Online/SwordInstallManager.py'), ('xmllint and converter processes', 'MLWriter.validate, XMLFile.validateWithLint, BibleWriter.toPhotoBible/toTeX/toODF')],
  technique='whole-program sink analysis with constant provenance of arguments (evaluators, shells, processes, unpicklers, archive extraction)',
  note='Every mention of an evaluating, process-starting or unpickling function in the library, also under another name, is decided by the provenance of its argument. Third-party packages are trusted.'),
dict(id='C07', title='Text files are read and written in a stated encoding, without loss',
  statement='Every text file that the library reads, writes or logs to is opened with a stated encoding that does not depend on the locale of the computer, even when the caller gives none; what it writes is UTF-8 unless the caller chose otherwise. Characters that cannot be decoded or encoded are never dropped or replaced silently.',
  over=['configurations', 'inputs'], quant='every locale, every caller-supplied or omitted encoding, every text file opened anywhere',
  why='The tests run in one UTF-8 locale, where a missing encoding cannot be seen.',
  files=['BibleOrgSys/InputOutput/MLWriter.py', 'BibleOrgSys/InputOutput/TextFile.py', 'BibleOrgSys/BibleWriter.py', 'BibleOrgSys/Formats/VPLBible.py', 'BibleOrgSys/Formats/CSVBible.py', 'BibleOrgSys/BibleOrgSysGlobals.py'],
  mech=[('open() calls in text mode, logging file handlers', 'all modules')],
  technique='flow-sensitive value analysis of the encoding argument of every text file opening (reaching definitions, None guards, attribute provenance)',
  note='Decides that the encoding is stated and not None on every path for every opening. Values computed from file contents are accepted.'),
dict(id='C09', title='Database modules: bound values, statements that fit their tables, all committed',
  statement='Where Bibles are read from or written to SQLite databases (MyBible, e-Sword, MySword), data only reaches SQL as bound values and never as statement text; a statement is given exactly as many values as it has places, and a row inserted has as many values as the table it goes into has columns, including optional columns; queries name plain tables and columns that exist, rows are taken apart as the query selected them, and chapter and verse are never interchanged; and whatever is inserted is committed before the module is finished or packed.',
  over=['inputs'], quant='every Bible content, every combination of settings (optional columns), every path through the readers and writers',
  why='No test opens or writes a database; a mismatch that needs an optional setting, or a missing commit for the last book, is seen only with that particular Bible.',
  files=['BibleOrgSys/Formats/MyBibleBible.py', 'BibleOrgSys/Formats/ESwordBible.py', 'BibleOrgSys/Formats/ESwordCommentary.py', 'BibleOrgSys/Formats/MySwordBible.py'],
  mech=[('createMyBibleModule, loadBibleBook', 'BibleOrgSys/Formats/MyBibleBible.py'), ('createESwordBibleModule, load, loadBook', 'BibleOrgSys/Formats/ESwordBible.py'), ('createMySwordModule', 'BibleOrgSys/Formats/MySwordBible.py')],
  technique='abstract string evaluation of SQL texts with path-sensitive dataflow (list lengths, created columns, query columns) and must-reach-commit analysis',
  note='Decides the interface between program and database. What the text columns contain is not covered; tables of foreign databases are only checked for plain names.'),
dict(id='C17', title='Names, attributes, call arguments, imports and returned tuples always fit',
  statement='No operation of the library ever fails because the program text does not fit together: every name that is read has a definition that can reach it, every attribute read on self, on an imported module or on an object whose class is plain exists, every name imported from a module of the library is defined there, every call of a known function, method or class gives the arguments that it takes (number, keyword names, required ones, none twice), and a result that is unpacked, or the items of a loop, have as many parts as are unpacked. The same holds for what comes from the Python library itself (attributes of its modules, arguments of its functions and of the methods of built-in types), and a value whose kind is certain (text, list, dictionary, set, number, None, function ...) is only used in ways that this kind allows. This includes rarely reached branches such as error messages, strict-checking modes and unusual markers. (A bare undefined name as a statement is this program\'s deliberate stop for impossible conditions.)',
  over=['inputs', 'configurations'], quant='every reachable statement of every function of the library, whatever data or settings lead there',
  why='Python checks none of this until the statement runs, and the tests run a small part of the library; the misfits live in error branches.',
  files=['BibleOrgSys/Formats/CSVBible.py', 'BibleOrgSys/BibleWriter.py', 'BibleOrgSys/Internals/InternalBibleBook.py', 'BibleOrgSys/Reference/VerseReferences.py', 'BibleOrgSys/Formats/SwordModules.py'],
  mech=[('every function, class and import', 'BibleOrgSys/')],
  technique='scope and reaching-definition analysis, class-family attribute tables with name mangling, and call/return arity checking over the syntax tree',
  note='Decides existence and fit for what can be resolved; attributes of values of unknown class are not decided. Variables assigned on only some paths are not reported.'),
dict(id='C30', title='A verse-reference key records exactly the reference that it accepted',
  statement='A reference text (BCV, OSIS, or the flexible single, range and list forms) that a verse key class accepts is recorded completely and in order: every book, chapter, verse, suffix and index of the text appears in the key, each verse with its own chapter and its own suffix, the two ends of a range together as one range, verses not joined by "-" as separate ones, and a whole-chapter or range key lists the verses it includes. Every book code and OSIS abbreviation known to the library and all chapter and verse numbers are accepted by the patterns. A constructor refuses exactly the texts that its parse function refuses, and keeps parts that are given one by one as given. The list of included verses has both ends of its range and is counted one by one; a range is not accepted because its end comes before its start; groups are read only where the pattern matched; a book code that the library does not know is reported; a recorded reference is answered with success and its kind is set. The accessors of a simple key return the parts they name, its text, hash and equality use every part, and the text of a key of several verses has every part of each verse that differs from the one before.',
  over=['inputs'], quant='every reference text of every accepted form',
  why='The tests sample a few texts per class; a form with three ranges or a chapter change inside a list goes through its own branch.',
  files=['BibleOrgSys/Reference/VerseReferences.py', 'BibleOrgSys/Internals/InternalBibleInternals.py'],
  mech=[('parse functions of SimpleVerseKey, SimpleVersesKey, VerseRangeKey, FlexibleVersesKey', 'BibleOrgSys/Reference/VerseReferences.py')],
  technique='constant folding of the regular expressions and abstract interpretation of every parse path (which group goes to which recorded part)',
  note='Decides the assignment of matched groups to recorded parts for every parse path, and group numbers for every foldable pattern in the library. What the expanded lists of verses contain numerically is not covered.'),
dict(id='C16', title='A message or text pattern is always given exactly the values it has places for',
  statement='Wherever the library fills in a text pattern (str.format, the % operator, the further arguments of a logging call, format strings kept in variables or chosen by a condition), the pattern is well formed and has a place for every value and a value for every place; number formats are not applied to texts; and a text that was meant to be filled in (with {name} places for variables of the function, or {} places in a message) is never passed on, stored or shown with its places unfilled. So no report, error branch or export raises IndexError, KeyError or ValueError, drops a value, or shows its places, because pattern and values do not fit.',
  over=['inputs', 'configurations'], quant='every pattern of the library at every reachable use, each reaching definition of the pattern',
  why='Most patterns are messages for faulty input that no test has; the mismatch raises, or silently drops a value, only then.',
  files=['BibleOrgSys/BibleWriter.py', 'BibleOrgSys/Internals/InternalBibleBook.py', 'BibleOrgSys/Formats/USFXXMLBible.py', 'BibleOrgSys/Formats/YETBible.py', 'BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py'],
  mech=[('every format, % and logging call', 'BibleOrgSys/')],
  technique='path-sensitive constant propagation of pattern texts and place/value matching at every use',
  note='Patterns that come from files or are computed are not decided. Values are matched by number and name; which value means what is not.'),
dict(id='C10', title='A cached reference table is used only when fresh, and equals the XML source\'s',
  statement='When a reference table (books, versification, punctuation, book order, languages, USFM markers, Hebrew lexicon ...) is loaded without a given source, a derived file (pickle or JSON) is used instead of the XML only if its modification time and its status-change time are both newer than those of the very XML source that the converter reads by default, or that XML does not exist; a source given by the caller is always read itself. What is loaded from a derived file is the same objects in the same order as the converter dumps into that file and returns from the XML, with numeric keys made numbers again after JSON, and every loading path leaves all the tables filled.',
  over=['histories', 'configurations'], quant='every state of source and derived files (present, missing, older, newer in either time) and every loading path of every reference table',
  why='The tests run with one state of the files on disk; a stale or swapped table shows only after an edit of the XML or with another kind of derived file.',
  files=['BibleOrgSys/Reference/BibleBooksCodes.py', 'BibleOrgSys/Reference/ISO_639_3_Languages.py', 'BibleOrgSys/Reference/BibleVersificationSystems.py', 'BibleOrgSys/Reference/BibleOrganisationalSystems.py', 'BibleOrgSys/Reference/USFM3Markers.py', 'BibleOrgSys/Reference/Converters/BibleBooksCodesConverter.py'],
  mech=[('loadData of every reference table', 'BibleOrgSys/Reference/'), ('importDataToPython, pickle, exportDataToJSON', 'BibleOrgSys/Reference/Converters/')],
  technique='path-by-path symbolic evaluation of the loader and converter source over an abstract store, comparing the paths of one loader with each other and with its converter',
  note='Decides the choice of source and the identity and order of what is loaded. That derived files on disk were written by this tree is assumed. Four loaders compare with an XML file that does not exist (their sources are folders): known findings.'),
dict(id='C12', title='Looking something up in the reference tables never changes them',
  statement='The loaded reference tables (book codes, book orders, book names, versification, punctuation, organisational systems, languages, USFM markers, stylesheets, lexicons) are shared by everything in a program, and nothing but loading changes them: no lookup, validity test, formatting or checking operation of the library, whatever it is asked, adds, removes, reorders or replaces anything in a table or in a list or dictionary inside one, and library code that receives a part of a table by reference does not change it in place. So every lookup gives the same answer however often and in whatever order it is asked.',
  over=['histories', 'inputs'], quant='every sequence of lookups, checks and exports in one process, for every argument',
  why='A test makes each lookup once in a fresh process; an entry removed or added by an earlier operation shows up only later, elsewhere.',
  files=['BibleOrgSys/Reference/BibleBooksCodes.py', 'BibleOrgSys/Reference/BibleVersificationSystems.py', 'BibleOrgSys/Reference/BibleOrganisationalSystems.py', 'BibleOrgSys/Reference/USFM3Markers.py', 'BibleOrgSys/Internals/InternalBibleBook.py'],
  mech=[('lookup methods of the reference classes', 'BibleOrgSys/Reference/'), ('every user of their results', 'BibleOrgSys/')],
  technique='interprocedural flow-sensitive alias/ownership analysis of containers (summaries for returned references, parameters changed in place, attributes that hold a table)',
  note='Decides in-place changes inside the library; what a program outside the library does with a returned reference is not covered. Numbers and texts in a table are immutable in Python.'),
dict(id='C13', title='Nothing done with one Bible or system leaks into another',
  statement='A program can use any number of Bibles, reference systems, module managers and exports in one process, in any order, and none affects another except through the configuration functions that a program calls itself: no operation changes a list or dictionary that belongs to a module or a class (under whatever name) or the default value of a parameter, no operation stores data of its arguments or its object in a module global or a class or module attribute, no operation leaves the working folder, signal handlers or environment of the process changed on any path, or leaves the multiprocessing switch on when it returns. No operation works only because another one happened to run before it and filled in a shared helper, and configuring again gives the same configuration.',
  over=['histories'], quant='every sequence of operations on any number of objects in one process',
  why='Each test makes one object in a fresh process; what an earlier object leaves behind shows only in the second one.',
  files=['BibleOrgSys/Internals/InternalBible.py', 'BibleOrgSys/Reference/BibleOrganisationalSystems.py', 'BibleOrgSys/BibleWriter.py', 'BibleOrgSys/BibleOrgSysGlobals.py', 'BibleOrgSys/Formats/VPLBible.py', 'BibleOrgSys/Formats/theWordBible.py', 'BibleOrgSys/Formats/PickledBible.py', 'BibleOrgSys/Online/SwordInstallManager.py'],
  mech=[('module globals, class attributes, default values', 'BibleOrgSys/'), ('alreadyMultiprocessing', 'BibleOrgSys/BibleOrgSysGlobals.py and the loadBooks methods'), ('preloadCommonData', 'BibleOrgSys/BibleOrgSysGlobals.py')],
  technique='interprocedural alias analysis of shared containers, effect analysis of globals/attributes/process state, path analysis of restoration and of preparation before use',
  note='Decides for every function of the library outside the programs. Purposely shared: SwordSearchFolders (documented) and the diagnostic record InternalBibleProperties. The multiprocessing switch is decided on paths without exceptions. Shared reference tables are C12.'),
dict(id='C27', title='Loading loses no book and no line',
  statement='When a Bible is loaded, every book object that a loader has filled is kept in the Bible (stashed, stored, or returned to a caller that keeps it) on every normal path - also the last book of a file and the one in hand when the next begins - or its loss is reported (a log message of warning level or higher, or a message that is always printed); only a book found to hold no text may be left out. Every load() and loadBooks() of a Bible class ends with the post-load processing, or reports that it failed. Within a book, addLine keeps every line it is given; processLines works through all the raw lines and turns each into at least one entry or reports it (an empty continuation v~ has nothing to keep); and the passes that rewrite the list of lines afterwards (nesting markers, verse-start markers, OSIS reordering) carry every old entry that has text into the new list.',
  over=['inputs', 'configurations'], quant='every normal path of every loader of every format, and of the processing of a line in every book',
  why='A lost book or line needs a particular sequence of books, empty parts or markers in the source, which the few sample files do not have.',
  files=['BibleOrgSys/Internals/InternalBibleBook.py', 'BibleOrgSys/Internals/InternalBible.py', 'BibleOrgSys/Formats/VPLBible.py', 'BibleOrgSys/Formats/ESwordBible.py', 'BibleOrgSys/Formats/UnboundBible.py', 'BibleOrgSys/Formats/DrupalBible.py', 'BibleOrgSys/Formats/USFMBible.py'],
  mech=[('book loops of the loaders', 'BibleOrgSys/Formats/'), ('addLine, processLines, addVerseStartMarkers, _addNestingMarkers, reorderRawOsisLines', 'BibleOrgSys/Internals/InternalBibleBook.py'), ('stashBook', 'BibleOrgSys/Internals/InternalBible.py')],
  technique='typestate (made, filled, kept/reported) of each book variable over the control-flow graph, with must-keep summaries of called functions and tracking of the marker variables tested; must-append path analysis of the line processing',
  note='Exceptions are not silent and so not decided. A marker variable (the book code in hand) that is given a value counts as set. Which source lines a reader passes over is not part of this property.'),
dict(id='C26', title='Working with several processes gives the same result as with one',
  statement='Loading the books of a Bible (and comparing two Bibles book by book) does the same work for the same books whether the program may use one process or many: a worker process reads the same file with the same arguments and does the same steps as the single-process loop; a book that is already loaded, completely blank or excluded is skipped in both; every result is kept under its own book; a kept book refers to the Bible that keeps it, not to the copy of the Bible in the worker; and what the worker changes in its copy of the Bible is also done in the parent. A pool is never started inside a worker process.',
  over=['configurations', 'schedules', 'inputs'], quant='every list of books, every number of processes (1 or more), already-loaded, blank and unlisted books included',
  why='The tests load nothing with more than one process; the two branches are separate code and have drifted apart.',
  files=['BibleOrgSys/Formats/USFMBible.py', 'BibleOrgSys/Formats/USFM2Bible.py', 'BibleOrgSys/Formats/PTX7Bible.py', 'BibleOrgSys/Formats/PTX8Bible.py', 'BibleOrgSys/Formats/ESFMBible.py', 'BibleOrgSys/Formats/BCVBible.py', 'BibleOrgSys/Formats/USXXMLBible.py', 'BibleOrgSys/Formats/OSISXMLBible.py', 'BibleOrgSys/Misc/CompareBibles.py'],
  mech=[('loadBooks / loadBook / _loadBookMP of each format', 'BibleOrgSys/Formats'), ('analyzeBibles, compareBibles', 'BibleOrgSys/Misc/CompareBibles.py')],
  technique='path-sensitive value analysis of both branches with the worker inlined for one item, and comparison of the resulting effect sequences; effect analysis of what the worker changes in its copy',
  note='Decides equality of the sequence of calls and stores (with the provenance of their arguments) that one item goes through in either mode, for pairs of paths with compatible conditions. Diagnostics, timing and the order of messages are not compared; a record of which books were tried is bookkeeping. Cross-item effects beyond attributes of the Bible are not modelled. Exporting everything is C02.'),
dict(id='C08', title='A text reader loses no line of its file without saying so',
  statement='When the library reads a text file line by line (USFM, ESFM, SFM, VPL, CSV, theWord, e-Sword, Unbound, YET, DrupalBible, Forge, BCV, Paratext settings, stylesheets, comparison tables, metadata files ...), every line is either used (something made from it is stored, added, passed on or remembered for the following lines) or reported (a log message of level warning or higher, an always-shown message, an entry in an error list, an exception), unless it is blank, a comment, equal to a fixed text of the format, the counted header line, or has an empty text part. A reader that stops before the end of the file says so or has met a fixed end text. This covers lines that are short, have an unexpected number of fields, an unknown first word, or fail to convert.',
  over=['inputs'], quant='every line of every file read by every line-by-line reader in the library, on every path through the body of the reading loop',
  why='A line is dropped only when it has an unusual form; the sample files have few of those, and nothing fails when one is missing.',
  files=['BibleOrgSys/InputOutput/USFMFile.py', 'BibleOrgSys/InputOutput/ESFMFile.py', 'BibleOrgSys/InputOutput/SFMFile.py', 'BibleOrgSys/Formats/CSVBible.py', 'BibleOrgSys/Formats/YETBible.py', 'BibleOrgSys/Formats/UnboundBible.py', 'BibleOrgSys/Formats/DrupalBible.py', 'BibleOrgSys/Formats/VPLBible.py'],
  mech=[('the for-loops over the lines of an open file', 'BibleOrgSys/Formats/ and BibleOrgSys/InputOutput/'), ('loadYAML', 'BibleOrgSys/Formats/uWNotesBible.py'), ('loadPTX7/8 settings readers', 'BibleOrgSys/Formats/PTX7Bible.py')],
  technique='path exploration of each reading loop over its control-flow graph, with taint of what is made from the line, liveness of what outlives the iteration, and interprocedural must-report / may-store summaries',
  note='Decides per line, not per field: a line of which one field is stored counts as used. Loops that are not for-loops over lines (character by character, XML events) are not part of it.'),
dict(id='C18', title='Every while loop comes to its end: no trip repeats itself for ever',
 statement='No while loop of the library can go round for ever: there is no trip from its head back to its head on which nothing changes that the conditions of that trip depend on (a position, a remaining text, a counter, a flag, what is read from a file). So a position is moved on, or the text shortened, on every branch that goes round again, including those for faulty input and those taken after a caught exception; and a counter that is compared with a bound does not only move away from it.',
 over=['inputs'], quant='every while loop of the library, every trip through its body',
 why='The branch that forgets to move on is the one for input that nobody expected (an embedded marker, a missing end marker); no test has it, and the program then hangs.',
 files=['BibleOrgSys/Reference/USFM3Markers.py', 'BibleOrgSys/Internals/InternalBibleBook.py', 'BibleOrgSys/Formats/SwordResources.py', 'BibleOrgSys/BibleWriter.py', 'BibleOrgSys/Misc/CompareBibles.py'],
 mech=[('207 while loops, e.g. getMarkerListFromText, removeUSFMCharacterField, processLines, compareBooksPedantic', 'BibleOrgSys/Reference/USFM3Markers.py')],
 technique='path-sensitive dataflow over the control-flow graph of each loop (which of the values its conditions depend on are the same as on the trip before)',
 note='Decides that no trip leaves everything its conditions read unchanged. A loop whose values change on every trip but never towards the end (other than by a constant away from a compared bound) is not decided.'),
dict(id='C21', title='A collection is not added to or removed from while it is gone through',
 statement='No for loop of the library goes on through a list, dictionary or set (or its keys, values, items, enumerate, zip …) after adding to it or removing from it: not by a method, del or a new key, not through another name of the same collection, and not in a function or method that the loop calls. So no entry is skipped or met twice, and no RuntimeError stops a load, check or export because a collection changed size.',
 over=['inputs'], quant='every for loop over a named collection (1900), every path through its body',
 why='A skipped neighbour needs two offending entries next to each other, and a changed dictionary an entry that is removed at all; the tests have neither.',
 files=['BibleOrgSys/InputOutput/USFMFilenames.py', 'BibleOrgSys/Formats/ESFMBible.py', 'BibleOrgSys/Formats/PTX8Bible.py', 'BibleOrgSys/Internals/InternalBible.py', 'BibleOrgSys/Reference/BibleStylesheets.py', 'BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py'],
 mech=[('loops that work on a copy: getMaximumPossibleFilenameTuples, ESFMBibleFileCheck, loadPTX8Notes, BibleStylesheet.loadDefault', 'BibleOrgSys/InputOutput/USFMFilenames.py')],
 technique='alias and effect analysis of loop bodies on the control-flow graph, through the called functions',
 note='Callees are resolved by type; a change made by code outside the library is not seen.'),
dict(id='N1', title='The text of every verse survives loading and export unchanged',
 statement='Loading a Bible in one format and exporting it to another keeps the words of every verse: what getVerseText and the exported file give for a reference is the text that the source has for it, apart from the formatting that the target format lacks.',
 over=['inputs'], quant='every verse of every source file, every pair of a loader and an exporter',
 why='The sample files have a small part of the markers, nestings and characters that real Bibles have.',
 files=['BibleOrgSys/Internals/InternalBibleBook.py', 'BibleOrgSys/BibleWriter.py'],
 mech=[('processLines, the to… exporters', 'BibleOrgSys/BibleWriter.py')],
 na='equality of computed texts: it depends on long chains of string edits (regular expressions, slices at computed positions, in-place formatting) whose results no sound static argument in reach bounds; the parts that are decidable (no line, book, element or line type lost, nothing silently dropped) are claimed as C01, C05, C08, C09, C27'),
dict(id='N2', title='Verse mapping between versification systems gives the right verse',
 statement='For every reference, the verse that the versification maps of the library give in another system is the verse with the same content, and mapping there and back gives the first reference again.',
 over=['inputs'], quant='every book, chapter and verse of every versification system',
 why='The tests look at a handful of verses.',
 files=['BibleOrgSys/Reference/BibleVersificationSystems.py'],
 mech=[('BibleVersificationSystem', 'BibleOrgSys/Reference/BibleVersificationSystems.py')],
 na='the answer is in the data files (XML), not in the source: no rule about the code says which verse is right, and checking the data is not static analysis of the program'),
dict(id='N3', title='Index entries point at exactly the lines of their verse',
 statement='For every verse of every book, the index entry gives the first line and the number of lines that belong to that verse, no line belongs to two verses, and every line is in one.',
 over=['inputs'], quant='every sequence of lines that a book can have',
 why='The tests index a few books only.',
 files=['BibleOrgSys/Internals/InternalBibleIndexes.py'],
 mech=[('InternalBibleBookCVIndex.makeBookCVIndex', 'BibleOrgSys/Internals/InternalBibleIndexes.py')],
 na='the first line and the length of an entry are sums over the loop iterations and saved in one of several passes with look-back over earlier lines; an invariant on them needs a proof about integers and list contents, not a dataflow rule. That no line is lost before indexing is claimed as C27'),
dict(id='N4', title='Loading takes time and memory in proportion to the size of the source',
 statement='Loading, indexing and exporting a Bible takes time and memory at most proportional (up to a logarithm) to the size of its source.',
 over=['inputs'], quant='every source of every size',
 why='The samples are small.',
 files=['BibleOrgSys/Internals/InternalBibleBook.py'],
 mech=[('processLines', 'BibleOrgSys/Internals/InternalBibleBook.py')],
 na='a bound on the number of trips of nested loops over data-dependent collections and regular-expression engines; no sound cost analysis for Python is in reach. That loops end at all is claimed as C18'),
dict(id='C29', title='Reading changes no file; output goes only where it was asked for',
 statement='Reading leaves the disk as it was: nothing that looks or loads (format detectors and UnknownBible, constructors of Bibles, load and preload methods, searches, checks and look-ups) creates, changes, renames or removes a file or folder - by opening it for writing or updating, changing a database, writing or unpacking an archive, moving or copying - other than in a temporary folder or in the cache and log folders of the library. And whatever is written (exports, lists, pickles, reports, zipped collections) goes to the file or folder that the caller gave or, without one, to the default writeable folders of the library: never to a path built from what the Bible was loaded from (its source folder or file), never into the folder where the library is installed, and never to a path that depends on the current folder. Not part of it: functions that replace text in the files of a Bible on request, the glosses that a user enters, and the online modules, which keep what they download.',
 over=['inputs', 'configurations'], quant='every function of the library that reads, and every write effect (about 300) with every path that can reach it through parameters, variables and attributes',
 why='Tests load from folders that nobody looks at afterwards and export to a given folder; a changed source or a stray file is not noticed.',
 files=['BibleOrgSys/BibleWriter.py', 'BibleOrgSys/BibleOrgSysGlobals.py', 'BibleOrgSys/Formats/ESwordBible.py', 'BibleOrgSys/Formats/GoBible.py', 'BibleOrgSys/Formats/YETBible.py', 'BibleOrgSys/InputOutput/USFMFile.py', 'BibleOrgSys/Internals/InternalBible.py', 'BibleOrgSys/Reference/BibleBooksCodes.py'],
 mech=[('default output folder of every exporter', 'BibleOrgSys/BibleWriter.py'), ('pickleObject, setupLoggingToFile, DEFAULT_WRITEABLE_…', 'BibleOrgSys/BibleOrgSysGlobals.py'), ('temporary folder of preload and loadBooks', 'BibleOrgSys/Formats/GoBible.py')],
 technique='effect analysis over the call graph, with interprocedural backward provenance (root) analysis of every path that is written to',
 note='Decides the root of a path, not the file name inside the folder. Programs started from the library (LibreOffice, xelatex, xmllint) are not followed. A root that comes from outside the library or from parsed data is taken as asked for.'),
dict(id='C24', title='File names made from the texts of a Bible are made safe first',
 statement='Whenever the library writes a file or makes a folder (exports, pickles, zipped collections, reports, analyses), every part of its name that is free text - the name, abbreviation and other descriptive attributes of the Bible or book, or a value looked up in control files, settings or metadata - has had the folder separator "/" replaced (by makeSafeFilename or directly) on every path on which it gets there; and makeSafeFilename gives back no text with a "/" in it. So a Bible called "Old/New" is exported like any other, and into the folder that was asked for. Book codes, chapter and verse numbers are not free text, and a folder or file that the caller names is used as it is. The online modules are not part of it.',
 over=['inputs'], quant='every write effect of the library (about 300), every text of every Bible',
 why='The sample Bibles have plain names.',
 files=['BibleOrgSys/BibleOrgSysGlobals.py', 'BibleOrgSys/BibleWriter.py', 'BibleOrgSys/Internals/InternalBible.py', 'BibleOrgSys/Formats/MySwordBible.py', 'BibleOrgSys/Formats/theWordBible.py', 'BibleOrgSys/Formats/ESwordBible.py', 'BibleOrgSys/Formats/EasyWorshipBible.py', 'BibleOrgSys/Formats/PickledBible.py'],
 mech=[('makeSafeFilename', 'BibleOrgSys/BibleOrgSysGlobals.py'), ('file names of the exporters', 'BibleOrgSys/BibleWriter.py')],
 technique='interprocedural taint analysis with sanitisers, on reaching definitions, from the descriptive attributes and looked-up values to the paths of write effects',
 note='Decides the "/" only; other characters that some systems refuse are not decided. Values that travel through containers other than local dictionaries and lists are not followed.'),
dict(id='C14', title='Importing a module of the library only makes its names',
 statement='Importing any module of the library only defines its names: it writes, renames and removes no file or folder, reads nothing from the current folder, needs no terminal, login name or environment variable, prints nothing, starts no process, thread or connection, and changes neither the process (current folder, locale, environment, recursion limit, random seed, warning and logging set-up) nor other modules. The exceptions are the settings file and folders that BibleOrgSysGlobals makes when they are missing, and the main program blocks.',
 over=['inputs'], quant='every module of the library, every order of imports, every environment (no terminal, another locale, another current folder)',
 why='The tests import the modules in one environment and look at nothing but the names.',
 files=['BibleOrgSys/BibleOrgSysGlobals.py', 'BibleOrgSys/Formats/SwordModules.py', 'BibleOrgSys/Reference/BibleBooksNames.py'],
 mech=[('module bodies and what they call', 'BibleOrgSys/BibleOrgSysGlobals.py'), ('default folders of SWORD modules', 'BibleOrgSys/Formats/SwordModules.py')],
 technique='effect analysis of the code that runs on import, over the call graph',
 note='Imports of modules outside the library are not looked into; callees are resolved by type.'),
]
