import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
HV="cfg(lcms2_verif) read-only view of an opened profile"
p("C01","In-memory streams behave exactly like a byte array with a cursor",
"After any sequence of reads, writes, seeks, position and size queries on an in-memory stream, the bytes read, the bytes stored, the position and the size are those of a plain byte array with a cursor. A growable buffer grows (zero-filled) on writes past its end and a fixed one refuses them; a read past the end or a seek before the start is an error that alters no stored byte, and a refused seek leaves the position where it was (only after a failed read or write is the position left open until the next absolute seek).",
["histories"],"every sequence of stream operations, from every initial content, for each kind of backing buffer",
"Doc-tests run one short fixed script per operation; the interplay of operations (write after seek past the end, read after failed read, growable versus fixed) is never sampled.",
["src/io/file_mem.rs","src/io/io_handler.rs"],[("FileMem delegates to a std Cursor with exact-length transfers","src/io/file_mem.rs impl IOHandler for FileMem")],
[("cursor","buffer plus position","src/io/file_mem.rs FileMem")],["IOHandler methods on FileMem"])
p("C02","The null device keeps a file's position and size and always reads zeros",
"The null device accepts every write and delivers only zero bytes for every read, whatever was in the caller's buffer before. Its position moves exactly as a file's would, and its size is the furthest end of any write (reads and seeks never change it). A seek that would land before the start, or a move whose resulting position cannot be represented, is an error that leaves position and size unchanged, never an abort.",
["histories"],"every sequence of operations on the null device, including negative and extreme seek offsets",
"One doc-test writes five bytes, rewinds to 0 and reads four; negative, end-relative and extreme moves and pre-filled buffers are never exercised.",
["src/io/file_null.rs"],[("position and used-space arithmetic","src/io/file_null.rs impl IOHandler for FileNull")],
[("pointer","current position","src/io/file_null.rs"),("used_space","size reported to the user","src/io/file_null.rs")],["IOHandler methods on FileNull"])
p("C03","Disk files behave as the same byte stream as in-memory ones",
"Any sequence of reads, writes, seeks, position and size queries on a disk file gives the same results, bytes, positions and sizes as the same sequence on a growable in-memory stream (left open: the position after a failed transfer until the next absolute seek, and the size after a zero-byte write past the end). The bytes found in the file afterwards are exactly those written. Operations the file was not opened for are errors that leave its content unchanged.",
["histories"],"every sequence of stream operations on a disk file opened for reading, writing or both, from every initial content",
"Four hand-picked scripts (tell after writes, one write, one read, one chain of seeks) are run; mixed sequences, failing operations and agreement between devices are not.",
["src/io/file_file.rs","src/io/file_mem.rs","src/io/io_handler.rs"],[("std File with exact-length transfers","src/io/file_file.rs impl IOHandler for File")],(),["IOHandler methods on std::fs::File","file content on disk"])
p("C04","Short or interrupted file transfers are completed, real failures reported",
"When the operating system transfers fewer bytes than asked or interrupts a call, a stream operation on a disk file still completes exactly, as if nothing had happened. When the operating system reports a real failure, or end of file before the requested bytes, the operation it hit returns an error, never success with wrong or missing data.",
["fault_sequences"],"every pattern, up to a bounded number of deviations, of short transfers, interruptions, failures and early end-of-file answers to the system calls of a scenario",
"The tests only ever see full transfers on a healthy local file.",
["src/io/file_file.rs","src/io/io_handler.rs"],[("read_exact / write_all and error propagation","src/io/file_file.rs")],(),["result of each IOHandler call on File","file content"])
p("C05","A closed file is durable, and a failed flush is reported",
"Once closing a disk-file stream has returned success, every byte written through it survives a crash at any later point, whichever unflushed blocks the crash would lose. If flushing to the device fails, close returns an error. In every case the operating system's file handle is released.",
["crash_points","fault_sequences"],"every crash after a successful close, every subset of unflushed writes lost, and every failure of the flush, for every short write history",
"One test calls close and then reopens the file through the page cache; it cannot tell flushed data from cached data and never sees a failing flush.",
["src/io/file_file.rs"],[("sync before drop in close","src/io/file_file.rs close")],(),["system calls issued by close","result of close"])
p("C06","Asking for a stream's size never disturbs it",
"On every stream kind, and on any user-supplied stream, a size query that succeeds returns the stream's length in bytes and leaves the position and content exactly as they were, wherever the position is (including past the end). If any underlying operation it needs fails, the query returns an error.",
["histories","fault_sequences"],"every reachable position/length of each stream kind and every point at which an underlying operation can fail",
"No test calls the size query at all (only the profile loader does, at one position of one file).",
["src/io/io_handler.rs"],[("seek to the end, tell, seek back","src/io/io_handler.rs reported_size")],(),["IOHandler::reported_size, tell, read"])
p("C07","Numbers cross the wire in the selected byte order, bit for bit",
"Every 8-, 16-, 32- and 64-bit integer, every 32-bit float bit pattern and every array of 16-bit values is stored in big-endian order (little-endian when the library is built with that option), occupying exactly its own size. Reading it back returns the identical bits. The byte-order helper functions agree with this, and applying one twice gives the original value.",
["inputs","configurations"],"every value of each width, and both byte-order configurations",
"The doc-tests use the value 42 (palindromic zeros and one byte) once per width, and run only in the big-endian configuration.",
["src/io/io_handler.rs","src/io/big_endian.rs","src/io/little_endian.rs","src/io.rs"],[("adjust_endianness_* applied between native value and bytes","src/io/big_endian.rs, src/io/little_endian.rs")],(),["IOHandler read_*/write_*","lcms2::io::adjust_endianness_*"])
p("C08","Fixed-point numbers decode exactly and encode to the nearest code",
"Each of the 2^32 stored signed 15.16 fixed-point codes decodes to exactly its mathematical value, and encoding that value gives the same code back. Any finite number is encoded to a code within half a step of it, saturating at the ends of the range; no code or number aborts. An XYZ triple is three such numbers in X, Y, Z order.",
["inputs"],"all 2^32 codes, and all real inputs including ties, out-of-range and non-finite ones",
"The doc-tests use 2.5, 4096.125 and -1.25 only; the extreme code, rounding and saturation are never tried.",
["src/io/io_handler.rs"],[("s15f16_to_f64 / f64_to_s15f16","src/io/io_handler.rs")],(),["read_s15f16, write_s15f16, read_xyz, write_xyz"])
p("C09","Typed reads and writes are all-or-error on any stream",
"On any stream, including one supplied by the user, every typed read or write either succeeds having moved exactly its own number of bytes, in order, or returns the error of the underlying operation that failed. A failing underlying operation is never swallowed, and a typed read never returns a value when bytes are missing.",
["fault_sequences","histories"],"every typed operation, every array length up to a bound, every prefix of available bytes or space and every underlying operation that can fail",
"Doc-tests only unwrap successes on streams that have exactly enough bytes.",
["src/io/io_handler.rs"],[("provided methods of the trait propagate with ?","src/io/io_handler.rs")],(),["IOHandler provided methods"])
p("C10","Opening any bytes as a profile ends with a profile or an error",
"Whatever bytes a file contains (truncated, corrupted, hostile dates, sizes, offsets or counts), opening it as a profile returns either a profile or an error in finite time; it never aborts and never hangs. The same holds for comparing or printing the resulting profile and for asking it for its tag count and for the tag at any index.",
["inputs"],"every byte content of the file, every index",
"Tests open one well-formed profile; no malformed byte is ever tried.",
["src/types/profile.rs","src/types/date_time_number.rs","src/types/icc_header.rs","src/types/tag_entry.rs"],[("size, count and range checks while parsing","src/types/profile.rs read_header_thr")],(),["Profile::open_from_file_thr, get_tag_count, get_tag_signature, Debug, PartialEq"])
p("C11","Each header field is read from its own place; only ICC files are accepted",
"An opened profile's class, colour space, connection space, version, rendering intent, flags, manufacturer, model, attributes, creator, profile ID and creation date are each the value stored in that field of the 128-byte ICC header, independent of all other bytes. A file whose header is complete but lacks the ICC file signature is always refused, and one with the signature and a complete header and directory is accepted. Under the little-endian build option the same holds for a file with its fields in that order.",
["inputs","configurations"],"every value of every header field and every value of the signature field, in both byte-order configurations",
"One real profile is compared; five of its fields are zero there, so misplaced or dropped fields would not show.",
["src/types/profile.rs","src/types/icc_header.rs"],[("field-wise byte-order conversion of the raw header","src/types/icc_header.rs"),("copy into the profile","src/types/profile.rs read_header_thr")],(),["opened profile's fields"],HV)
p("C12","The tag directory lists exactly the entries that lie inside the profile",
"An opened profile has exactly the directory entries of the file whose data range lies inside the profile (the smaller of the declared and the actual size), in file order, each with its own signature, offset and size; entries reaching outside are left out. The tag count equals their number, and asking for the tag at an index at or beyond the count gives the blank signature. Up to 100 entries are accepted; more than 100, or a directory cut short, is an error.",
["inputs"],"every directory: number of entries, signatures, offsets, sizes (including ones whose sum overflows), declared size and file length",
"One directory of nine valid entries is compared; no entry is ever skipped, no limit is ever reached.",
["src/types/profile.rs","src/types/tag_entry.rs"],[("range check and append per entry","src/types/profile.rs read_header_thr"),("get_tag_count, get_tag_signature","src/types/profile.rs")],
[("tag_names, tag_offsets, tag_sizes, tag_count","retained directory","src/types/profile.rs Profile")],["get_tag_count, get_tag_signature, Debug output"],HV)
p("C13","Tags sharing data are linked, and every tag lookup terminates at that data",
"In an opened profile an entry is marked as linked exactly when an earlier entry describes the same data range, and the entry it is linked to is one of those earlier entries, never itself. Looking a tag up always terminates: it finds nothing exactly when no entry has that signature, and when entries have distinct signatures, following links ends at an unlinked entry describing the same data range as the tag looked up.",
["inputs"],"every directory, with any pattern of shared ranges and repeated signatures, and every signature looked up",
"The only profile tested has no shared tags, and lookup has no test.",
["src/types/profile.rs"],[("link search while reading the directory","src/types/profile.rs read_header_thr"),("search_tag follow-links loop","src/types/profile.rs search_tag")],
[("tag_linked","signature this entry's data is shared with","src/types/profile.rs Profile")],["profile view and lookup"],"cfg(lcms2_verif) access to the private tag lookup and link table")
p("C14","Opening a profile over a faulty disk is all-or-error and leaks nothing",
"If system calls return short or interrupted answers while a profile is being opened, the profile obtained is the same as with none. If any of them fails or ends early, opening returns an error, never a profile with missing or wrong content. Once the result (profile or error) is dropped, no file handle opened by the attempt remains open.",
["fault_sequences"],"every pattern, up to a bounded number of deviations, of short, interrupted, failing and early-end answers to every system call of an open",
"Tests open a healthy local file and never count handles.",
["src/types/profile.rs","src/io/file_file.rs"],[("error propagation through the header reader; ownership of the file","src/types/profile.rs open_from_file_thr")],(),["result of open_from_file_thr; open handles"],HV)
p("C15","Read mode never changes the file; write mode starts an empty profile",
"Opening a profile in read mode never creates, truncates or modifies any file, whether or not the open succeeds, and fails for a missing file. Opening a creatable path in write mode succeeds whatever the file held before, gives a profile with no tags and an empty file, and fails only when the file cannot be created.",
["histories"],"every sequence of read-mode opens, write-mode opens and outside changes over a few paths and contents",
"No test opens a profile for writing, and none compares the file after a read.",
["src/types/profile.rs"],[("choice of File::open / File::create and of header reading by mode","src/types/profile.rs open_from_file_thr")],[("is_write","profile was opened for writing","src/types/profile.rs")],["file content after open; result; get_tag_count"])
p("C16","What a profile opens as depends only on its bytes",
"The outcome of opening a file for reading (success or failure, every field, the tag directory and its links) depends only on the bytes of that file. It is the same whatever was opened before, successfully or not, through the process-wide context or any explicit one, and earlier results stay unchanged by later opens.",
["histories"],"every sequence of opens of differing good and bad files through differing contexts",
"Each test opens one file once with a fresh context; the variant using the process-wide context is never called.",
["src/types/profile.rs","src/state/context.rs"],[("each open builds a fresh profile; context only used to report errors","src/types/profile.rs open_from_file_thr")],[("GLOBAL_CONTEXT","process-wide context behind a lock","src/state/context.rs")],["open_from_file, open_from_file_thr, PartialEq"],HV)
p("C17","Concurrent opens neither interfere nor deadlock",
"Threads that open profiles at the same time, through the process-wide context or through contexts of their own, each get exactly the result the same open gives alone, for every interleaving. No interleaving deadlocks, including the first use of the process-wide context by several threads and opens that fail.",
["schedules"],"every interleaving (bounded number of preemptions) of two or three threads opening good and bad files",
"No test starts a thread or uses the process-wide context.",
["src/state/context.rs","src/types/profile.rs"],[("lazily created mutex around the process-wide context","src/state/context.rs GLOBAL_CONTEXT")],[("GLOBAL_CONTEXT","process-wide context behind a lock","src/state/context.rs")],["open_from_file on several threads"],HV)
p("C18","A rejection reaches its own context's handler once, with the right code",
"When an open is refused for a wrong file signature or too many tags, or a plugin chain is refused, the error handler of the context used (the process-wide one for the context-free open) is called exactly once, with the code for a bad signature, range error or unknown extension respectively. An operation that succeeds, or fails only because of I/O, calls no handler, and no other context's handler is ever called.",
["histories"],"every sequence of operations over several contexts (fresh, cloned, process-wide) with differing handlers",
"No test installs a handler or checks that one is called.",
["src/state/context.rs","src/state/chunks/error_handler.rs","src/types/profile.rs"],[("signal_error dispatches to the context's handler","src/state/context.rs signal_error")],[("error_handler","handler of a context","src/state/context.rs Context")],["handler calls"],"cfg(lcms2_verif) setter for a context's error handler")
p("C19","A plugin chain is accepted only if every plugin in it is acceptable",
"Registering a chain of plugins succeeds exactly when every plugin in the chain, including the last or only one, carries the plugin magic number, needs no newer library version than this one, and has a known plugin type. Otherwise it returns the error of the first unacceptable plugin in the chain. Each plugin payload is recognised as exactly its own kind.",
["inputs"],"every chain up to a bounded length over valid and invalid magic, version and type values",
"No test registers a plugin.",
["src/state/context.rs","src/plugins/plugin.rs"],[("validation loop over the chain","src/state/context.rs init_plugin"),("is_* predicates","src/plugins/plugin.rs PluginType")],(),["Context::init_plugin result","PluginType::is_*"])
p("C20","Signatures survive every conversion",
"Every 32-bit code converts to a signature and back unchanged, as an integer or as four bytes in reading order, and two signatures are equal exactly when their codes are. Text or bytes of any length give their first four bytes padded with spaces. A signature whose bytes are valid text converts to that text and back; any other becomes four spaces, and printing a signature never aborts.",
["inputs"],"all 2^32 codes and byte strings of every length",
"About fifteen literal examples are tested.",
["src/types/signature.rs"],[("conversions of Signature","src/types/signature.rs")],(),["From/Into implementations, Debug, Default"])
p("C21","Named signature constants match exactly their registered codes",
"Each named constant (tags, tag types, colour spaces, profile classes, platforms, technologies, stages, plugin types and the rest) equals the signature decoded from its registered four-byte code, and differs from the one decoded from any other code. Within a group two names are equal only if they are documented aliases.",
["inputs"],"every constant against every registered code and every small corruption of it",
"Only GRAY and RGB are compared with anything in the tests.",
["src/types/signatures.rs","src/types/signatures/tag.rs","src/types/signatures/tag_type.rs","src/types/signatures/color_space.rs","src/types/signatures/stage.rs","src/types/signatures/technology.rs","src/types/signatures/platform.rs","src/types/signatures/profile_class.rs","src/types/signatures/plugin_type.rs"],[("constant tables","src/types/signatures/")],(),["lcms2::types::signatures constants"])
p("C22","Valid dates survive conversion and invalid ones never abort",
"Every stored date and time that exists in the calendar (years 0 to 65535) converts to the calendar date-time with the same year, month, day, hour, minute and second, and back to the same six numbers. Converting any other combination of numbers never aborts and never disturbs a later conversion.",
["inputs"],"every combination of the six stored numbers",
"One date is converted, through one profile; none is converted back and none is invalid.",
["src/types/date_time_number.rs"],[("From conversions to and from chrono","src/types/date_time_number.rs")],(),["From<DateTimeNumber> for NaiveDateTime and back"])
p("C23","Parametric curves evaluate to their defining formula",
"For every built-in forward and reverse curve type, all parameters and all inputs, the evaluator returns the value Little CMS 2.13.1 defines for that type: the documented formula of the branch the input falls in, and the documented fallback where a base is negative or a divisor parameter is (nearly) zero. Evaluation never aborts and does not depend on earlier evaluations.",
["inputs"],"every curve type, sign, parameter vector and input, in particular on both sides of each branch boundary and tolerance",
"No test evaluates a curve.",
["src/plugins/para_curve.rs"],[("default_eval_parametric_fn and its sigmoid helpers","src/plugins/para_curve.rs")],(),["default evaluator of the parametric-curve set"])
p("C24","Each reverse curve undoes its forward curve",
"Wherever a built-in forward curve is strictly monotone and within its documented domain, applying the reverse type with the same parameters to its output gives the input back, up to floating-point rounding. The same holds the other way round for outputs in the curve's range.",
["inputs"],"every curve type, admissible parameter vector and input in the monotone domain",
"No test evaluates a curve.",
["src/plugins/para_curve.rs"],[("pairs of match arms t and -t","src/plugins/para_curve.rs default_eval_parametric_fn")],(),["default evaluator of the parametric-curve set"])
p("C25","Every declared curve type is usable with its declared parameters",
"The built-in set declares each of the curve types 1 to 8, 108 and 109 once, and each evaluates, forward and reverse, from exactly its declared number of parameters (no more are read, so extra ones change nothing). A type number belongs to the set exactly when its absolute value is declared, for every integer, and an undeclared type evaluates to zero.",
["inputs"],"every 32-bit type number and every declared curve with every parameter count",
"No test touches the curve set.",
["src/plugins/para_curve.rs"],[("default set, is_in_set, evaluator dispatch","src/plugins/para_curve.rs")],(),["default parametric-curve set: list, membership, evaluator"])
p("C26","Header and tag-entry records encode and decode as exact inverses",
"Decoding any 128-byte header or 12-byte directory record and encoding the result gives the same bytes, and each field is the value of its own bytes at its ICC position in the selected byte order. The exported record types have exactly the sizes ICC prescribes (header 128 bytes, directory entry 12, date 12, XYZ 12, profile ID 16).",
["inputs","configurations"],"every record content, both byte-order configurations",
"The encoding direction is never called by any test, and decoding only on one profile.",
["src/types/icc_header.rs","src/types/tag_entry.rs","src/types/profile_id.rs","src/types/encoded_xyz_number.rs"],[("ICCHeaderConverter, TagEntryConverter","src/types/icc_header.rs, src/types/tag_entry.rs")],(),["record conversion; size_of the exported types"],"cfg(lcms2_verif) access to the private converters")
p("C27","Results do not depend on overflow checks or debug assertions",
"For the same inputs and histories, every public operation gives the same results, bytes and errors whether the library is built with overflow checks and debug assertions or without them.",
["configurations","inputs","histories"],"both build configurations over the enumerated inputs and histories of stream, number, profile, plugin, signature, date and curve operations",
"Tests run in one build configuration on inputs where nothing overflows.",
["src/io/io_handler.rs","src/io/file_null.rs","src/types/profile.rs","src/types/date_time_number.rs","src/plugins/para_curve.rs","src/state/context.rs"],[("checked, widened or saturating arithmetic","src/io/file_null.rs, src/io/io_handler.rs, src/types/profile.rs, src/plugins/para_curve.rs")],(),["all public operations"])
p("C28","Contexts are independent and keep what they were given",
"A context returns exactly the user data it was created with, and a clone starts with the same settings and data as its original. No operation on one context (opening good or bad profiles, registering accepted or refused plugins, cloning, dropping) changes the settings or data of that context or of any other.",
["histories"],"every bounded sequence of operations over several contexts and their clones",
"Tests create fresh contexts and never look at one afterwards, never clone one and never pass user data.",
["src/state/context.rs","src/state/chunks"],[("owned chunks, derived Clone","src/state/context.rs Context")],[("Context chunks","per-context settings","src/state/context.rs")],["get_user_data, Debug output of a context"])
p("C29","Profiles compare equal exactly when everything they hold is equal",
"Two opened profiles compare equal exactly when all their header fields, their tag counts, their directory entries (signature, offset, size, link) and their access modes are equal, wherever the bytes came from. Comparison is reflexive and symmetric.",
["inputs"],"every pair of profiles that differ in any one header field, directory entry, entry count or mode",
"The one comparison made is between a profile and an equal one; no test compares profiles that differ.",
["src/types/profile.rs","src/types/profile_id.rs"],[("field-by-field comparison","src/types/profile.rs PartialEq for Profile; src/types/profile_id.rs PartialEq for ProfileID")],(),["== on opened profiles"],HV)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys; sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
