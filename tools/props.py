import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
IO="sofar/io.py"; S="sofar/sofa.py"; U="sofar/utils.py"; ST="sofar/sofastream.py"; UP="sofar/update_conventions.py"

p("C01","Writing and reading a SOFA object loses and invents nothing",
"For every SOFA object that verifies for writing, write_sofa followed by read_sofa (with any compression level from 0 to 9) returns an object with exactly the same variables and attributes: numbers are identical as 64-bit floats, strings and attribute texts (including non-ASCII text) are identical, missing values stay missing, and shapes agree up to trailing singleton dimensions. Custom variables and attributes survive with their type and dimensions, sf.equals reports the two objects as identical, and writing the object that was read again gives the same content.",
["inputs","configurations"],
"all conventions and versions, all admissible sizes of M, R, E, N and custom dimensions, all numeric contents (NaN, infinities, signed zeros, denormals, integers; not the netCDF fill value 9.969e36), masked data, string arrays, custom data, compression levels; attribute and variable names are identifiers, texts contain no NUL character, and string arrays are read as one dimensional arrays of the strings they hold",
"the tests write default objects and a few hand-made arrays; content, shapes, text, masks and custom data range over an unbounded space and most losses are data dependent",
[IO,S],[("write_sofa/_write_sofa","sofar/io.py"),("_read_netcdf","sofar/io.py"),("_format_value_for_netcdf, _format_value_from_netcdf","sofar/io.py")],
["write_sofa, read_sofa, content of the objects"])
p("C02","Written files have the AES69 layout any netCDF reader expects",
"Every file written by write_sofa is a netCDF-4 file in which each numeric variable is a 64-bit float, each string variable a character array, each variable has the dimensions its convention (or custom definition) allows for its shape, and each dimension has the size the object reports, with C=3 and I=1 (netCDF has no dimensions of size 0, so an S or a custom dimension of 0 is stored as an unlimited dimension). The file contains exactly the global attributes, variables (with Data_X stored as Data.X) and variable attributes of the object with the same values, read by a reader independent of sofar, and nothing else, and all variables are compressed with the level that was asked for (0: not compressed).",
["inputs","configurations"],"all objects that verify for writing, all compression levels",
"the tests read files back with sofar itself, so a layout error that the reader mirrors goes unnoticed; only a handful of shapes are written",
[IO,S],[("_write_sofa","sofar/io.py"),("dimension selection in verify","sofar/sofa.py")],["raw netCDF content of the written file"])
p("C03","Verification accepts exactly the variables with consistent shapes",
"Verifying an object reports wrong shapes if and only if no consistent assignment of dimension sizes exists: every variable must match one of the dimension combinations its convention or custom definition allows, where the sizes of M, R, E, N and custom dimensions come from the variables that define them, C is 3, I is 1, missing trailing dimensions count as 1 and surplus trailing dimensions must be 1; dimensions that no variable defines fit nothing. Every variable that does not fit is named in the report.",
["inputs","configurations"],"all conventions (including conventions unknown to the tests), all shapes of all variables, numbers, lists, arrays, strings and string arrays, custom dimensions",
"the tests try two wrong shapes; the space of shape combinations over all entries and conventions is unbounded",
[S,U],[("verify, sections 4 and 5","sofar/sofa.py"),("_atleast_nd, _nd_newaxis","sofar/utils.py")],["outcome and report of verify / write_sofa / read_sofa"])
p("C04","Verification enforces mandatory data, data types and names",
"Verifying an object reports an error if and only if the rules are broken (considering only this family of rules): each mandatory entry of the convention is present, each attribute is a text, each numeric variable consists of signed integers or floats, each string variable of text, all text can be encoded as UTF-8, attributes belong to an existing variable or are global, names use underscores and the reserved words PRIVATE, API and GLOBAL only as AES69 permits, and custom data does not reuse normative names. Every offending entry is named in the report.",
["inputs","configurations"],"all conventions, every entry, values of every Python and numpy type, names of custom data, objects read from files",
"the tests check one entry per rule; whether each entry of each convention is covered for each kind of value is not sampled",
[S],[("verify, sections 1-3","sofar/sofa.py")],["outcome and report of verify"])
p("C05","Verification enforces the content rules of the standard",
"Verifying an object reports a violation of the convention if and only if a rule of the rule set is broken: restricted values, entries required together with another entry, and values, entries or dimension sizes required by the value of another entry. Values are compared case insensitively except for the data type and the convention name, and units are equal if they name the same reference units through the accepted aliases and separators (comma, comma and space, or space).",
["inputs","configurations"],"every rule of the rule set in every satisfied and violated combination, upper and lower case spellings, unit aliases and separators, also rule sets unknown to the tests",
"the tests walk over the shipped rules once with one wrong value each; combinations of rules, spellings and dimension sizes are not covered",
[S],[("verify, section 6","sofar/sofa.py"),("_verify_value, _verify_unit","sofar/sofa.py")],["outcome and report of verify"])
p("C06","Verdicts agree across verification modes and ways of reporting issues",
"For every object the four ways of handling issues agree: 'raise' raises an error exactly if 'print' prints and 'return' returns an error with the same content (only missing mandatory data, which the latter add with default values and report as a warning, differs), warnings are emitted, printed or returned alike, None is returned if there are no issues, and 'ignore' stays silent; inspect handles the issues in the same four ways. The read mode accepts everything the write mode accepts; write mode additionally and only rejects units with upper case letters and deprecated conventions (a warning when reading), and preliminary versions below 1.0 only cause a warning.",
["inputs","configurations"],"objects with any combination of no, one or several issues, all conventions, both modes, all four ways of reporting",
"the tests check each way of reporting on one or two broken objects; agreement has to hold for all combinations of issues",
[S],[("verify, sections 7-9","sofar/sofa.py"),("_verify_handle_issues","sofar/sofa.py")],["return values, exceptions, warnings and console output of verify"])
p("C07","Protected data can not be changed and refused operations change nothing",
"While an object is protected, assigning a read only entry, assigning an entry that does not exist, deleting a mandatory or non-existing entry, and adding an entry that exists or is malformed all raise an error, while the protection itself can be switched at any time and set to the value it had. After any refused operation the object has the same content, is still protected and verifies as before, and this stays true for objects from every origin (created, copied, read, upgraded, repaired) and after every sequence of operations.",
["histories","inputs"],"all sequences of assignments, additions, deletions, protection switches, verification, copying, reading and upgrading; all entries of all conventions",
"the tests try one refused operation on a new object each; the property ranges over histories and over every entry",
[S],[("__setattr__, __delattr__, protected, _add_entry","sofar/sofa.py")],["exceptions and object content after each operation"],[("protected","whether read only data can be written","Sofa.protected")])
p("C08","Custom data behaves like convention data through its whole life",
"After add_variable or add_attribute accepted an entry it is contained with the given value, type and dimensions in every later verification, copy, comparison, write and read, until it is deleted; after deletion the object behaves as if it had never been added and the name can be used again. Additions are accepted if and only if the name is new, follows the naming rules and can be stored in SOFA files (no empty parts, no slashes, no dots in names of variables, no blanks at the ends), the data type is known, variables have dimensions (ending with S for string variables, without S for numeric ones), and attributes belong to an existing variable or are global.",
["histories","inputs"],"all sequences of add, change, delete, re-add, verify, copy, write/read on objects of all conventions; names, types and dimensions including custom dimensions",
"the tests add each kind of entry once to a new object; interactions between several custom entries and later operations are not covered",
[S,IO],[("_add_entry, _add_custom_api_entry, _reset_convention, __delattr__","sofar/sofa.py")],["object content, verify, files"],[("custom data","definitions of entries that are not part of the convention","Sofa object")])
p("C09","Queries have no side effects and objects are independent",
"Verifying, inspecting, printing, listing or getting dimensions, comparing, copying and writing an object that contains all mandatory data leave every variable and attribute and the protection of the object unchanged, and the verdict of verify depends only on the current content and mode, not on what was done before. Changes to an object or to a value that a query returned never affect a copy, another object of the same convention, a value returned earlier for another object, or the defaults of objects created later.",
["histories","inputs"],"all interleavings of queries and modifications on several objects and copies in one process",
"the tests use fresh objects; aliasing and stale state only show in sequences of operations on several objects",
[S,U,IO],[("verify, inspect, copy, _load_convention","sofar/sofa.py"),("equals","sofar/utils.py")],["content of all live objects after each operation"])
p("C10","Comparison finds every difference and only differences",
"sf.equals returns True for two SOFA objects if and only if they have the same entries and each pair of entries has the same type and the same value: equal text, equal strings, and numbers that agree within a relative tolerance of 1e-7 with the same shape (up to trailing singleton dimensions) and the same missing values. The result does not depend on the order of the arguments, and exclude='GLOBAL', 'DATE' and 'ATTR' ignore exactly the global attributes, the entries whose name contains 'Date', and all attributes. Unless verbose=False, a comparison that fails says so, naming exactly the entries with different values if both objects have the same entries.",
["inputs"],"pairs of objects of all conventions whose entries have valid types and that agree or differ in any single entry or combination of entries: value, shape, type, mask, presence; numbers, strings, text; all exclude options",
"the tests compare a few pairs; a difference can be in any entry, element, shape or mask",
[U],[("equals","sofar/utils.py")],["result of equals"])
p("C11","SofaStream shows the same content as reading the whole file",
"For every SOFA file, each entry that read_sofa returns is available from SofaStream under the same name: attributes with the same text and variables as netCDF variables whose values equal those read by read_sofa for any slice, and each name that is not contained raises AttributeError. get_dimension and list_dimensions agree with the dimensions in the file (with the meaning of N, R and E following from the types of data and positions), inspect shows every entry on the console and writes exactly the same text to a file if asked to (replacing an existing file), and streaming never changes the SOFA file.",
["inputs","configurations"],"all files written by sofar for all conventions, shapes and custom data, all entry names (also names that resemble other entries), all slices; names of global attributes without the prefix and names ending with _Encoding are not used",
"the tests access two entries of one file; name translation has to work for every entry of every file",
[ST],[("SofaStream.__getattr__, get_dimension, list_dimensions, inspect","sofar/sofastream.py")],["values returned by SofaStream compared to the raw file and to read_sofa"])
p("C12","Upgrading converts the data as the upgrade rules say and loses nothing",
"upgrade_convention without target changes nothing and returns the targets the upgrade rules list for this convention and version, and returns an empty list if the data is up to date or has no rules. With a valid target the object takes the name, version, SOFA version and data type of the target convention, data is moved, re-ordered and removed exactly as the rules state with all other entries (including custom data) keeping their values, missing mandatory entries are added with defaults, and the object is protected and can be verified, written and read; an invalid target changes nothing.",
["inputs","configurations","histories"],"all deprecated conventions and versions, all rules (also rule sets unknown to the tests), data of any size and with or without the optional entries",
"the tests upgrade default objects with single-element data only, for which re-ordered axes and lost optional data do not show",
[S],[("upgrade_convention","sofar/sofa.py")],["object content before and after upgrade_convention"])
p("C13","The catalogue is looked up completely and correctly",
"For every catalogue of conventions and every installation path, Sofa(name) gives the numerically highest version, Sofa(name, version=v) exactly version v, with every entry of the definition (or exactly the mandatory entries if mandatory=True) set to the default value given there (the entries about the creation name sofar, its version and the current time), and unknown names or versions raise ValueError. This holds for the catalogue as it is when the function is called, also after it was changed (for instance by update_conventions). list_conventions lists each name and version exactly once, and version() reports the version of the catalogue.",
["configurations","inputs"],"all catalogues (names that are prefixes of other names, many versions, deprecated ones), all installation paths (spaces, underscores, brackets, dots), all entries",
"the tests run on the one shipped catalogue in one directory, where several selection mistakes give the right answer by luck",
[S,U],[("_load_convention, _convention_to_sofa","sofar/sofa.py"),("_get_conventions, _verify_convention_and_version","sofar/utils.py")],["objects created from generated catalogues"])
p("C14","Updating the conventions makes the local catalogue equal to the official one",
"After update_conventions completes, each convention offered online (except for the two excluded General_ and GeneralString_ families) is stored in the folder for standardized or deprecated conventions it is offered in and nowhere else, with the offered content up to line endings and trailing tabs and a compiled definition that matches it; all other local files keep their content. A repeated update reports that everything is up to date and changes nothing, and if the user does not confirm with 'y' no convention is changed.",
["inputs","configurations"],"all combinations of local and online catalogues: new, changed, identical, deprecated, locally only; confirmation answers; local folders that exist or not; conventions that become deprecated or are restored; each convention is offered in one folder only, tables are well formed, local tables come with their compiled definition",
"the only test needs the network and is skipped or fails offline; it covers one combination",
[UP],[("update_conventions","sofar/update_conventions.py")],["directory content before and after, requests made, console output"])
p("C15","A failing update leaves the catalogue as it was",
"If any request that update_conventions makes fails (connection error, timeout, interrupted transfer or an HTTP error status), the call raises an error and every convention in the local catalogue is byte for byte the same as before, so that a later update completes normally. No temporary files stay behind.",
["fault_sequences","configurations"],"each request of an update failing in each way, for many combinations of local and online catalogues; each convention is offered in one folder only, tables are well formed, local tables come with their compiled definition",
"the tests never inject a failure; the guarantee is about every point at which an update can fail",
[UP],[("download to a temporary folder before changing the catalogue","sofar/update_conventions.py")],["directory content before and after the failing call"])
p("C16","Compiled conventions mean the same as their source tables",
"For every well-formed convention table the compiled definition contains each row exactly once with the default value (number, text, flat, nested or three-dimensional list), flags, dimensions, type and comment of the row, regardless of line endings, trailing tabs, missing comments and white space, with global attributes before other entries and Data entries last. Objects created from the compiled definition therefore have exactly these entries and defaults.",
["inputs"],"all tables in the format of the official conventions: any number of rows, any order, numbers, arrays, texts, windows-1252 characters, versions; no blank rows, no text defaults that read as numbers, versions that differ as numbers (not 1.1 and 1.10)",
"the test recompiles the shipped tables and compares them to files produced by the same code",
[UP],[("_convention_csv2dict, _compile_conventions","sofar/update_conventions.py")],["definitions compiled by update_conventions and objects created from them"])
p("C17","Files are never damaged by refused writes or by reading",
"A call of write_sofa that is refused (because the object does not verify for writing or an argument is invalid) leaves an existing file of that name byte for byte unchanged and creates no new file; reading, streaming and inspecting never modify or create files other than the requested text output. File names are used as they are given (no character has a special meaning). write_sofa creates exactly one file, the given name with '.sofa' appended unless it already has this ending, which read_sofa finds under the same name, and no file stays open after any of these calls, successful or not.",
["inputs","histories","configurations"],"objects with any kind of issue, existing and new files, file names with dots, spaces, non-ASCII characters and path objects (the ending in any case), sequences of writes and reads",
"the tests never check a file after a refused write and use one kind of file name",
[IO,ST],[("verification before the file is opened, _append_suffix, with Dataset","sofar/io.py"),("__enter__, __exit__","sofar/sofastream.py")],["directory listing, file bytes, open file descriptors"])
p("C18","Reading accepts exactly valid files and shows exactly their content",
"read_sofa accepts a netCDF file if and only if its convention and version exist and its content verifies in read mode (for conventions below version 1.0 only if verify=True is passed) and otherwise raises an error; whenever it returns, the object contains exactly the entries of the file and no invented defaults. read_sofa_as_netcdf returns every attribute and every numeric or character variable of the file with its value regardless of its validity, and after the object was corrected it can be verified, written and read like any other.",
["inputs"],"files written by sofar and then changed in any way: entries added, removed, renamed, resized, changed in value or type, other storage types, masked data; files of unknown conventions; entry names are identifiers that do not collide with methods of SOFA objects",
"the tests read a few hand-modified files; the space of foreign and damaged files is unbounded",
[IO,S],[("_read_netcdf","sofar/io.py")],["read_sofa and read_sofa_as_netcdf compared to the raw file"])
p("C19","Reported dimensions always match the current data",
"At every point of an object's life get_dimension and list_dimensions report the sizes that the current data define for M, R, E, N, S and custom dimensions with C=3 and I=1 (S being the length in bytes of the longest string), with the meaning of N, R and E following from the types of data and positions, and raise ValueError if the data has wrong types or shapes or the dimension does not exist. inspect shows each entry once, with the value of attributes and small data and the correct shape of all larger variables, and writes exactly the same text to a file if asked to.",
["inputs","histories"],"all conventions, shapes, data types (FIR, FIR-E, TF, TF-E, SOS, audio), custom dimensions, sequences of modifications (also of arrays in place) between the queries",
"the tests query dimensions of unmodified default objects, where stale or swapped sizes do not show because all sizes are 1 or 2",
[S],[("get_dimension, list_dimensions, inspect, _update_dimensions","sofar/sofa.py")],["return values and console or file output"])
p("C20","add_missing restores exactly the missing entries",
"add_missing adds each entry of the convention that is missing and was asked for (mandatory and/or optional) with its default value and changes nothing else, so that adding mandatory data makes the report of missing data disappear and adding everything gives all entries of the convention. Existing and custom data keep their values, the object stays protected, the printed list names exactly the added entries, and a second call adds nothing.",
["inputs","histories"],"all conventions, all subsets of removed optional and (while unprotected) mandatory entries, all option combinations, objects from every origin",
"the test removes one entry of each kind from one convention",
[S],[("add_missing","sofar/sofa.py")],["object content before and after, console output"])
p("C21","info lists exactly the entries of a convention and their definition",
"The information an object prints about its convention lists each entry of the convention and each custom entry exactly once, with its type, dimensions, comment and whether it is mandatory, optional or read only, and selecting all, mandatory, optional, read only or data entries lists exactly those. Asking for the name of an entry shows the information of all entries whose name contains it and of no others, and any other word raises ValueError.",
["inputs","configurations"],"all conventions of all catalogues, all words, objects with and without custom data, created, read and upgraded objects",
"the tests only check that something is printed for one convention",
[S],[("info","sofar/sofa.py")],["console output of info"])
p("C22","The form in which data is assigned does not matter",
"Objects whose entries hold the same values in different forms (numbers, lists, tuples, numpy scalars, arrays of another numeric type, byte order, memory layout or with trailing singleton dimensions, byte strings, masked arrays without masked elements) get the same verdicts and reports, report the same dimensions, compare identical, and give the same files and the same objects when these are read. Single values and text are stored as given and lists as arrays with at least two dimensions.",
["inputs"],"valid and invalid objects of all conventions and custom data; all representations of each value; values that every representation holds exactly",
"the tests assign one form per entry; which form takes a different path through verification, writing and comparison depends on entry, type and shape",
[S,IO,U],[("__setattr__, verify, get_dimension","sofar/sofa.py"),("_format_value_for_netcdf","sofar/io.py"),("equals, _atleast_nd","sofar/utils.py")],["verdicts, dimensions, comparison, raw files, objects read back"])
p("C23","Results do not depend on the environment",
"The same calls on the same objects give the same values, verdicts, warnings, texts (up to the order of listed names) and files wherever and however they run: in every current directory whatever it contains, with relative or absolute paths, in every locale and time zone, with optimised code, with any hash seed, order of directory entries, warning filter and numpy print option, in a thread, with any garbage collection, and however the package is imported.",
["configurations","schedules"],"sequences of calls on random valid and invalid objects, executed in one reference and many other environments",
"the tests run in one environment; state of the process, the file system or the locale that leaks into the results is constant there",
[S,IO,U,ST],[("verify with warnings and print","sofar/sofa.py"),("_get_conventions (directory listing)","sofar/utils.py"),("inspect, write_sofa, read_sofa (paths and encodings)","sofar/io.py")],["recorded results and files of separate processes"])
p("C24","The congruency check reports exactly the diverging conventions",
"The check that compares the conventions of sofaconventions.org to those in a branch of the SOFA toolbox names exactly the conventions that are missing at one of the two places and those whose content differs in more than line endings and trailing tabs, each once and with the right kind of divergence, ignores the General_ and GeneralString_ families, and prints nothing if there is no divergence. If a folder is given the two contents of exactly the differing conventions are saved there and no other file or convention is changed. If a request fails, a place offers no conventions, or the folder does not exist, an error is raised instead of a report.",
["inputs","fault_sequences"],"all pairs of lists of tables and branches; tables identical, spelled differently, different in one byte, or missing; each request failing; requests of the two lists fail without content",
"there is no test that runs without network; the result depends on the order and combination of divergences",
[UP],[("_check_congruency","sofar/update_conventions.py")],["console output and saved files"])
p("C25","Notices about outdated, custom and missing data are exact",
"write_sofa warns about an outdated version, and names it, if and only if the catalogue has a numerically higher version of the convention. read_sofa lists exactly the custom entries of the file unless verbose=False, and reading warns about missing data for exactly the variables with missing values, once each. Creating an object warns about a preliminary version if and only if it is below 1.0 and, if the object is verified, about a deprecated convention if and only if the deprecations list it, and add_variable warns about custom dimensions if and only if the dimensions contain a letter other than E, R, M, N, C, I and S.",
["inputs","configurations"],"all conventions and versions of all catalogues, all ways of creating objects, files with any custom entries and missing values in any variables",
"the tests check a warning for one outdated and one preliminary convention; a notice that is absent for other versions, or given without reason, goes unnoticed",
[S,IO],[("__init__","sofar/sofa.py"),("_read_netcdf, _write_sofa, _format_value_from_netcdf","sofar/io.py")],["warnings and console output of write_sofa, read_sofa, read_sofa_as_netcdf, Sofa"])
p("C26","The generated documentation describes every convention exactly",
"For every catalogue, installation path and locale, the script docs/resources/conventions.py writes a page (UTF-8, replacing an older one) that lists each convention and version exactly once in the table of contents and has exactly one section for it, with one row for each entry of its definition showing the name used by sofar and the type, default, dimensions, flags and comment given there. Exactly the conventions in the folder of deprecated conventions are marked as and listed under deprecated, and these name all targets the upgrade rules give for their version or, for conventions without upgrade rules, the replacement given by the deprecations.",
["configurations","inputs"],"all catalogues, all rules for upgrades and deprecations, all installation paths, all entries, ways of running the script and locales",
"no test runs the script; the catalogue that is shipped has few deprecated conventions, and a wrong row among thousands is not seen by eye",
["docs/resources/conventions.py",U],[("conventions.py","docs/resources/conventions.py"),("_get_conventions","sofar/utils.py")],["text of the page written by the script compared with the catalogue"])
p("C27","Objects in different threads do not affect each other",
"If several threads use sofar at the same time, each with objects and files of its own, every call returns the same value, raises the same error, and leaves the same content of objects and files as if the threads had been executed one after the other. This holds from the first use of sofar in the process on and wherever a thread is interrupted in the code of sofar. Console output and warnings are excepted, because Python shares them between threads.",
["schedules","histories"],"all programs of creating, changing, verifying, completing, comparing, copying, upgrading, writing, reading and streaming objects in two to four threads and all switches between threads at lines or instructions of sofar (numpy and netCDF4 are not interrupted)",
"the tests run in one thread; state shared between objects (caches, module variables, the current directory, the filters for warnings) only shows in particular interleavings",
[S,IO,U,ST],[("Sofa (conventions, rules, custom data)","sofar/sofa.py"),("write_sofa, read_sofa","sofar/io.py"),("_get_conventions, equals","sofar/utils.py")],["recorded results of the same programs with and without threads"])
p("C28","An interrupted update can be completed later",
"If update_conventions is interrupted at any point (the process ends, the user interrupts it, or the file system reports an error or has no space for a part of a file), a later update that is not interrupted raises no error and leaves the catalogue as if it had not been interrupted: each convention that is offered is stored with its compiled definition in the right folder and nowhere else, and other files keep their content. This also holds after several interruptions and if the conventions that are offered changed meanwhile. If the interruption was an error, no temporary files stay behind.",
["crash_points","fault_sequences","histories"],"all operations on files during an update interrupted in each way, for many combinations of local and online catalogues and later releases that still offer the same conventions; operations completed before the interruption are not lost",
"the tests never interrupt an update; whether the next update repairs what is left depends on the operation at which it happened",
[UP],[("order of copying, removing and compiling files","sofar/update_conventions.py"),("_compile_conventions","sofar/update_conventions.py")],["files after the update that follows an interruption"])
p("C29","Failing storage never goes unnoticed",
"If write_sofa returns without an error, the file contains the complete data of the object, also if the storage fails or is full from any byte of the file on; the same holds for the text files written by inspect. A call that fails for this reason leaves the object and the current directory unchanged, and other files can be written and read afterwards. Files of which the end is missing are refused by read_sofa, read_sofa_as_netcdf and SofaStream.",
["fault_sequences","inputs"],"all valid objects of all conventions, new and existing files, all compression levels, storage that ends at any byte, files cut off at any byte; the content that is left by a failing call is not specified",
"the tests always have enough storage; data that is lost when the last bytes of a file are written is only noticed when it is needed",
[IO,S],[("_write_sofa","sofar/io.py"),("inspect","sofar/sofa.py")],["content read by other processes, object and process after failing calls"])
p("C30","Streaming files only reads the data that are requested",
"Opening a file with SofaStream, and accessing attributes, the handles of variables with their shapes and dimensions, dimensions, and the reports list_dimensions and inspect need an amount of memory and of bytes read from the file that does not depend on the size of the variables with more than a few values. Reading a slice of a variable needs memory (and, if the file is not compressed, bytes read) in proportion to the requested slice, and returns the values of the object that was written.",
["inputs"],"all conventions with custom data of several MB, compressed and uncompressed; memory allocated by Python and numpy; buffers of the libraries for netCDF and HDF5 only as bytes read",
"the tests read small files, for which loading the complete file makes no difference",
[ST],[("SofaStream","sofar/sofastream.py")],["memory allocated and bytes read by every call"])
p("C31","Calls leave nothing behind in the process",
"No call, accepted or refused, changes the state of the process that other parts of a program depend on: current directory, environment, warning filters, error handling and printing of numpy, random numbers, output streams, search path, signals, locale, threads, open files, temporary files. Objects and their data are released as soon as the user gives them up, and repeating the same calls does not need more and more memory.",
["histories","inputs"],"all programs of creating, changing, verifying, completing, comparing, copying, upgrading, writing, reading and streaming objects, listing conventions, and complete or failing updates, in one thread; the C libraries only as far as memory is allocated with Python",
"the tests check results, not what is left after calls, in particular calls that are refused",
[S,IO,ST,U,UP],[("read_sofa, write_sofa","sofar/io.py"),("SofaStream.__enter__, __exit__","sofar/sofastream.py"),("update_conventions","sofar/update_conventions.py")],["state of the process around every call, references and memory after repeated executions"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,x["title"]
    n=len(re.findall(r"[.](?: |$)",x["statement"]))
    if n>3: print(x["id"],n)
