"""What each check runs.  A job names a driver mode (see harness/), how many
cases per tier, and the counters that must have been observed."""
TRUST = "reach is limited to the cases generated from the seed; a clean run says the property held on the executions counted in the evidence"
SPECS = {
 "C01": {
  "technique": "ASan/UBSan and valgrind memcheck monitored hostile decoding, allocation accounting, exception and progress monitors",
  "level_note": "Runs the real decoder, printers, diff, validator and encoder on structure-aware corruptions and synthetic messages under ASan+UBSan; " + TRUST,
  "rule": "mutations (lengths, counts, descriptors, operators, data bits, truncations, splices) of the BUFR messages in testdata, and messages synthesised from random templates; distinct = different byte strings that were decoded",
  "assumptions": ["memory errors inside one allocation are not seen by ASan", "messages that ask for more than 4e7 interpreter steps are skipped"],
  "jobs": [{"mode": "hostile_bufr", "quick": 120000, "thorough": 1500000, "require": {"decode:ok": 1000, "decode:error": 1000, "encode:ok": 100, "leak-probes": 100}},
           {"mode": "hostile_bufr", "flavour": "memcheck", "quick": 1600, "thorough": 60000, "cpu": 600, "require": {"bulletins-defined": 1500, "bytes-defined": 300000}}]},
 "C02": {
  "technique": "ASan/UBSan and valgrind memcheck monitored hostile decoding, allocation accounting, exception and progress monitors",
  "level_note": "Runs the real CREX decoder, printers, diff, validator and encoder on truncations and token-level corruptions under ASan+UBSan; " + TRUST,
  "rule": "token, byte and structure mutations of the CREX messages in testdata; distinct = different byte strings that were decoded",
  "assumptions": ["memory errors inside one allocation are not seen by ASan"],
  "jobs": [{"mode": "hostile_crex", "quick": 300000, "thorough": 2000000, "require": {"decode:ok": 1000, "decode:error": 1000, "encode:ok": 100, "leak-probes": 100}},
           {"mode": "hostile_crex", "flavour": "memcheck", "quick": 2400, "thorough": 60000, "cpu": 600, "require": {"bulletins-defined": 1500, "bytes-defined": 300000}}]},
 "C03": {
  "technique": "online oracle: independent BUFR interpreter compared with every decoded variable, under ASan/UBSan",
  "level_note": "Generates well formed messages over the whole operator scope, knows what each bit means, and compares every decoded variable, descriptor alteration and attribute; also re-interprets real and bit-flipped messages independently; " + TRUST,
  "rule": "random templates (elements, sequences of all installed WMO tables, nested replications, operators, bitmaps) with random in-domain data, compressed or not, editions 2-4; truncations of their data; bit flips in generated and real messages; distinct = different template/structure or byte string",
  "assumptions": ["the reference interpreter in harness/ref_bufr.cc is right; cases it calls ambiguous (values out of domain, partly used bitmaps) are skipped and counted"],
  "jobs": [{"mode": "bufr_decode", "quick": 60000, "thorough": 3000000, "require": {"vars-compared": 100000, "attrs-compared": 10000, "compressed": 1000, "seen:compressed-missing-by-sum": 500, "truncated-refused": 500, "frame-refused:end": 100, "frame-refused:signature": 100, "frame-refused:section-too-long": 100, "corpus-original": 100, "seen:bitmap": 1000, "seen:C03-value": 1000, "seen:associated-field": 1000, "seen:C23255": 500, "seen:big": 100, "seen:bitmap>255": 20, "seen:delayed>32767": 5, "seen:strings-zero-padded": 1000, "seen:strings-of-any-bytes": 1000, "seen:delayed>255": 8, "seen:subsets>255": 30, "seen:descriptors>255": 8}}]},
 "C04": {
  "technique": "online oracle: independent BUFR encoder compared bit by bit with the encoded message, under ASan/UBSan",
  "level_note": "Encodes bulletins decoded from generated messages or built through the API, compares all bits with an independent encoding, decodes again, then makes one datum unencodable and requires an error; " + TRUST,
  "rule": "same generator as C03; distinct = different template/structure",
  "assumptions": ["the reference encoding in harness/ref_bufr.cc is right", "templates where one attribute is encoded twice for the same variable are skipped"],
  "jobs": [{"mode": "bufr_encode", "quick": 60000, "thorough": 3000000, "require": {"encoded:built": 5000, "encoded:decoded": 5000, "disguised": 5000, "empty-string": 100, "refused:value-does-not-fit": 500, "refused:missing-variable": 500, "refused:factor-too-large": 100, "refused:bitmap-length": 50, "refused:associated-field-does-not-fit": 20, "long-string": 100, "seen:big": 200, "seen:bitmap>255": 40, "seen:delayed>32767": 10, "seen:delayed>255": 20, "seen:subsets>255": 50, "seen:descriptors>255": 20}}]},
 "C05": {
  "technique": "online oracle: independent CREX writer and expected values compared with decoded and encoded messages, under ASan/UBSan",
  "level_note": "Generates CREX messages whose text and values are known, compares every decoded variable, compares the encoded text with an independent one, decodes it again, and requires errors for damaged text and unfitting values; " + TRUST,
  "rule": "random templates over all usable CREX tables, with and without check digits, several whitespace layouts; distinct = different template/structure",
  "assumptions": ["strings starting with a blank are generated only together with check digits (known finding)"],
  "jobs": [{"mode": "crex", "quick": 100000, "thorough": 4000000, "require": {"vars-compared": 100000, "missing-compared": 1000, "negatives-compared": 1000, "strings-compared": 1000, "disguised": 5000, "factors": 1000, "roundtrips": 1000, "refused:truncated": 500, "refused:wrong-check-digit": 100, "big": 300, "subsets>255": 80, "descriptors>255": 30, "factors>255": 80, "refused:frame:A": 100, "refused:frame:T": 100, "refused:frame:7777": 100, "encode-refused:number-too-long": 100}},
           {"mode": "crex_blank_probe", "quick": 1, "thorough": 1}]},
 "C06": {
  "technique": "online monitor of every assignment against an independent model of the entry's domain and of the options, under ASan/UBSan",
  "level_note": "Assigns values of every type, at and around the limits of installed, altered and synthetic entries, under every combination of options, and compares the outcome and the state with a reference computed from the entry; " + TRUST,
  "rule": "random entry, option combination and sequence of assignments biased to limits, rounding boundaries, huge numbers and NaN; distinct = different (entry, value, option, outcome)",
  "assumptions": ["the range of an entry is computed independently in harness/varpool.cc from its scale, reference, width and length"],
  "jobs": [{"mode": "var_domain", "quick": 400000, "thorough": 8000000, "require": {"assign:in-domain": 10000, "assign:out-of-domain": 10000, "assign:at-the-limit": 5000, "assign:wrong-type": 1000, "out:silent": 1000, "out:clamp": 1000, "out:hook": 1000, "out:throw": 1000, "unset-read": 1000}}]},
 "C07": {
  "technique": "history monitor: every operation mirrored on a reference model and states compared, under ASan/UBSan with leak accounting, and under valgrind memcheck",
  "level_note": "Runs random histories of copies, moves, assignments with aliasing, attribute changes and subset growth against a value model; " + TRUST,
  "rule": "random histories over variables of all types, their attributes and subsets; distinct = different histories",
  "assumptions": [],
  "jobs": [{"mode": "own", "quick": 100000, "thorough": 6000000, "require": {"histories": 10000, "states-compared": 100000, "leak-probes": 100, "moved-from": 1000, "self-assign": 1000, "own-attr": 1000, "self-attr": 100, "equal-pairs": 1000}},
           {"mode": "own", "flavour": "memcheck", "quick": 2000, "thorough": 60000, "cpu": 600, "require": {}}]},
 "C08": {
  "technique": "online oracle: exact decimal arithmetic compared with every conversion of a number, under ASan/UBSan",
  "level_note": "Compares reading, formatting, parsing, encoding and decoding of numbers with exact integer arithmetic for all scales; " + TRUST,
  "rule": "random and extreme integers of installed, altered and synthetic entries; distinct = different (entry, integer)",
  "assumptions": [],
  "jobs": [{"mode": "var_numbers", "quick": 240000, "thorough": 6000000, "require": {"numbers": 50000, "roundtrips": 50000, "binary-numbers": 10000, "binary-refused": 1000, "decimal-refused": 1000}}]},
 "C09": {
  "technique": "online oracle: conversions compared with independently stated formulas and code tables, under ASan/UBSan",
  "level_note": "Converts numbers between every pair of units, compares with independent factors, inverts, and sweeps all the codes of the code tables; " + TRUST,
  "rule": "random unit pairs and values; all codes of the code tables; assignments between variables; distinct = different (pair, value)",
  "assumptions": ["negative codes of tables 4677 and 4561 are not judged"],
  "jobs": [{"mode": "conv", "quick": 300000, "thorough": 4000000, "require": {"conversions": 10000, "inverses": 10000, "same-unit": 1000, "unknown-refused": 1000, "assigned": 1000, "assign-refused": 100, "codes": 1000, "icao": 100}}]},
 "C10": {
  "technique": "online oracle: independent reader of table files compared with every lookup, and a history monitor of altered entries, under ASan/UBSan",
  "level_note": "Reads every installed and many synthetic table B files with an independent parser, compares every entry, absent code and iteration, and checks after every request that all entries given out before are unchanged; " + TRUST,
  "rule": "every installed table, random synthetic and malformed tables, random sequences of alteration requests; distinct = different (table, entry, alteration) or malformed file",
  "assumptions": ["the meaning of the columns is taken from the layout of the installed files and restated in harness/mode_tables.cc"],
  "jobs": [{"mode": "btable", "quick": 36000, "thorough": 300000, "require": {"entries": 10000, "absent": 1000, "alterations": 10000, "alterations-again": 1000, "alterations-refused": 100, "iterations": 100, "rechecks": 1000, "installed-tables": 50, "synthetic-bufr": 100, "synthetic-crex": 100, "local-entries": 100}}]},
 "C11": {
  "technique": "online oracle: independent reader of table D files and independent expansion compared with lookups, callbacks and printed descriptors, under ASan/UBSan",
  "level_note": "Compares every sequence of every installed and synthetic table D, opcode slices and comparisons, and the calls made while interpreting random and malformed descriptor lists, with an independent interpretation; " + TRUST,
  "rule": "every installed table, random synthetic and malformed tables, random descriptor lists; distinct = different sequences, files and lists",
  "assumptions": ["sequences that contain themselves are not generated"],
  "jobs": [{"mode": "dtable", "quick": 40000, "thorough": 600000, "require": {"sequences": 5000, "absent": 1000, "slices": 1000, "interpreted": 1000, "interpreted-bad": 100, "visited": 10000, "printed-lines": 1000, "installed-tables": 40, "synthetic-tables": 100}}]},
 "C12": {
  "technique": "online oracle: independent ranking of the table files present compared with every choice, repeated in other orders, instances and processes, under ASan/UBSan",
  "level_note": "Creates random sets of table files in scratch directories, in random creation order, asks for many tables in different orders, and compares each choice with an independent ranking and with the choices of a second index and of a new process; " + TRUST,
  "rule": "random file sets in one or two directories, random requests near and far from them; distinct = different file sets",
  "assumptions": ["where the rules leave a tie any of the tied files is accepted, but always the same"],
  "jobs": [{"mode": "tabledir", "quick": 10000, "thorough": 300000, "require": {"requests": 100000, "served-bufr": 10000, "served-crex-bufr": 5000, "served-crex-crex": 5000, "served-none": 5000, "by-name": 1000, "env-requests": 1000}}]},
 "C13": {
  "technique": "trace monitor: sequence of messages, offsets, ends and errors read from a stream compared with an independent scan, with injected short reads and failures, under ASan/UBSan",
  "level_note": "Reads streams of messages mixed with adversarial noise, cut anywhere, through regular files and custom streams with short reads and injected failures, and writes to streams that fail; " + TRUST,
  "rule": "random interleavings of real and synthetic messages with partial signatures and noise; distinct = different streams",
  "assumptions": ["short writes are not injected except as failures, because the C library reports them as such"],
  "jobs": [{"mode": "stream", "quick": 150000, "thorough": 5000000, "require": {"messages": 100000, "cut": 10000, "ends": 10000, "read-errors": 10000, "written": 10000, "write-errors": 10000, "huge": 40, "far": 5000}}]},
 "C14": {
  "technique": "differential monitor: result of decoding in an unused process compared with results in processes with long random histories, under ASan/UBSan",
  "level_note": "Decodes each message once in a process that has never used the library, then many times, through every entry point, in long-lived processes that also decode other messages, fail, encode, print, alter table entries and change options; earlier bulletins are re-read; " + TRUST,
  "rule": "corpus, generated, mutated and few-elements-many-operators messages, BUFR and CREX; random histories of decodes and other operations; distinct = different messages",
  "assumptions": ["errors are compared by kind, not by text"],
  "jobs": [{"mode": "history", "quick": 2800, "thorough": 60000, "require": {"fresh:decoded": 500, "fresh:error": 300, "same:decode": 3000, "same:error": 1000, "same:header": 3000, "same:verbose": 1000, "same:options": 1000, "same:file": 1000, "bulletins-rechecked": 3000, "disturbances": 5000}}]},
 "C15": {
  "technique": "ThreadSanitizer on concurrent workloads with injected delays, results compared with those obtained alone; scope monitors in concurrent threads",
  "level_note": "Runs the real code in 2 to 6 threads under TSan, each result compared with the one obtained alone; nests scopes with exceptions in up to 4 threads against a model of each thread's options and notes; " + TRUST,
  "rule": "random operations (decode, encode, print, compare, validate, format, assign, convert, tables, read) on separate bulletins, random delays; random nestings of scopes; distinct = different interleavings (order of operation starts) and scope programs",
  "assumptions": ["tables and alterations are loaded before threads start, as the property says", "TSan sees the races of the executions run"],
  "jobs": [{"mode": "threads", "flavour": "tsan", "quick": 2400, "thorough": 80000, "cpu": 120, "require": {"operations": 20000, "overlapping": 5000, "op:decode": 500, "op:encode": 500, "op:print": 500, "op:diff": 500, "op:format": 500, "op:convert": 500}},
           {"mode": "scopes", "flavour": "tsan", "quick": 12000, "thorough": 500000, "cpu": 120, "require": {"states-checked": 100000, "effects-checked": 30000, "notes-checked": 30000, "unwound": 1000, "threads": 3000}},
           {"mode": "scopes", "quick": 12000, "thorough": 500000}]},
 "C19": {
  "technique": "online oracle: bulletins and variables made equal or made different in one known place, compared in both directions, with the notes collected, under ASan/UBSan",
  "level_note": "Builds pairs that are equal or that differ in one or two known places (headers, tables, descriptors, subsets, variables, values, attributes) and requires zero or non zero differences in both directions, and notes; " + TRUST,
  "rule": "generated BUFR and CREX bulletins, decoded or built, with one or two random changes; pairs of variables of any types, scales and attributes; distinct = different (bulletin, change)",
  "assumptions": ["the compression flag of a BUFR message is not content", "texts of notes are not judged, only that they are there"],
  "jobs": [{"mode": "diff", "quick": 30000, "thorough": 1500000, "require": {"equal": 1000, "changed:value": 500, "changed:attribute changed": 20, "changed:attribute removed": 20, "changed:attribute added": 100, "changed:table B": 100, "changed:subset added": 100}},
           {"mode": "vardiff", "quick": 300000, "thorough": 10000000, "require": {"vars-equal": 10000, "vars-different": 10000, "vars-equal-other-scale": 100, "vars-different-other-scale": 1000, "vars-other-type": 1000}}]},
 "C20": {
  "technique": "online oracle: independent layout of the header of every edition compared with the encoded octets or columns, and decoded fields compared with those set, under ASan/UBSan",
  "level_note": "Sets random and extreme values in every header field, compares every octet or column with an independent layout of that edition, and compares the fields decoded from it, from messages written independently, and encoded again; " + TRUST,
  "rule": "random and extreme header values, optional sections, numbers of subsets and descriptors, editions 0 to 255; distinct = different headers",
  "assumptions": ["fields the edition cannot represent are compared with the truncation stated in harness/mode_header.cc"],
  "jobs": [{"mode": "header", "quick": 60000, "thorough": 2500000, "require": {"encoded:edition2": 1000, "encoded:edition3": 1000, "encoded:edition4": 1000, "bad-editions": 100, "headers-decoded": 5000, "messages-decoded": 1000, "stable": 1000, "big": 10, "huge": 50, "too-long-refused": 5, "too-many-subsets": 1, "crex-encoded": 1000, "crex-refused": 100, "crex-headers-decoded": 1000, "crex-decoded": 500}}]},
 "C21": {
  "technique": "online oracle: subsets known to be right or wrong are validated and encoded, and a model of each subset is compared after every construction call, under ASan/UBSan",
  "level_note": "Validates and encodes subsets decoded or built from generated templates, then breaks them in one known way (missing, added, swapped, replaced, unfitting, wrong bitmap) and requires a refusal; builds subsets and bitmaps through the construction calls, with failing calls in between, against a model, then encodes and decodes them; " + TRUST,
  "rule": "generated BUFR and CREX templates and data, one random change at a time; random sequences of construction calls; distinct = different templates",
  "assumptions": ["changes after which the subset could still be right (the same code at the same place, extra variables at the end) are not judged"],
  "jobs": [{"mode": "validate", "quick": 50000, "thorough": 2000000, "require": {"accepted:bufr-built": 5000, "accepted:bufr-decoded": 5000, "accepted:crex-built": 3000, "accepted:crex-decoded": 3000, "accepted:other-values": 3000, "refused:another-one": 3000, "refused:end-missing": 3000, "refused:one-missing": 3000, "refused:swapped": 3000, "refused:bufr-number": 1000, "refused:crex-number": 500, "refused:bitmap-length": 30, "refused:associated-field": 30, "refused:attribute-number": 50, "refused:factor-too-large": 200}},
           {"mode": "subset_api", "quick": 20000, "thorough": 1000000, "require": {"cleared": 200, "append_dpb": 1000, "append_fixed_dpb": 1000, "roundtrip-bitmap": 3000, "roundtrip": 1000, "failed:bitmap-too-long": 1000, "failed:out-of-range": 1000, "failed:unknown-code": 1000, "stored:c": 10000, "stored:i": 10000, "stored:d": 10000, "stored:undef": 10000, "stored:code-var": 10000}}]},
 "C17": {
  "technique": "online oracle: results, errors, stack and memory of every Lua call compared with the value held by the variable, under ASan/UBSan with allocation accounting",
  "level_note": "Pushes variables of every kind to Lua and calls every method, from C and from scripts, with right and wrong arguments, in coroutines and between garbage collections; compares each result with a model of the variable, and checks the stack, the variable and the memory in use afterwards; " + TRUST,
  "rule": "installed, altered and synthetic entries of all types with extreme and random values, random call sequences; distinct = different sets of variables",
  "assumptions": ["one thread per Lua state"],
  "jobs": [{"mode": "lua", "quick": 120000, "thorough": 1500000, "require": {"code": 5000, "enqi": 5000, "enqd": 5000, "enqc": 5000, "enqc-binary": 500, "tostring": 5000, "errors": 5000, "unset": 5000, "bad-arguments": 5000, "coroutines": 5000, "memory-probes": 100}}]},
 "C16": {
  "technique": "online oracle: every result, exception and reference count of the Python bindings compared with the library on a variable kept side by side, in an embedded interpreter under ASan/UBSan",
  "level_note": "Runs the bindings inside a Python interpreter built into the harness (with malloc as its allocator, so that ASan sees Python objects), gives them Python values of every type and size, and compares what they store, read, format, compare, copy and raise with the library, the table files and the value given; " + TRUST,
  "rule": "installed, altered and synthetic entries of all types with in-domain, extreme, unfitting and foreign Python values, random sequences of attribute operations, table lookups and conversions; distinct = different constructions, tables and conversions",
  "assumptions": ["the library itself is judged by the other properties", "objects made with __new__ alone, without __init__, are out of scope"],
  "jobs": [{"mode": "python", "quick": 36000, "thorough": 600000, "require": {"created": 10000, "created:unset": 2000, "vars-compared": 50000, "attrs-compared": 10000, "seta": 5000, "unseta": 2000, "copies": 2000, "equal": 1000, "different": 1000, "capi": 2000, "wrong-calls": 3000, "tables": 300, "lookups": 1000, "conversions": 300, "refused:OverflowError": 1000, "refused:TypeError": 1000, "value:bytes": 1000, "value:str": 1000, "value:float": 1000, "value:huge": 500}}]},
 "C18": {
  "technique": "online oracle: standard output, standard error and exit status of wrep, run in child processes on generated files, compared with texts made from what the library decodes, under ASan/UBSan",
  "level_note": "Runs the tool (its own sources, built with sanitizers) on files of good, damaged, foreign and cut data with every option and spelling of it, and compares all it writes, byte for byte, with dumps, lists and copies made independently from the decoded messages; " + TRUST,
  "rule": "one to four files of up to ten generated, real, mutated and foreign messages with other bytes around, missing files and directories, every action, BUFR and CREX, random spelling and order of options; distinct = different (message, action)",
  "assumptions": ["what the library decodes is judged by C01 to C05 and C13", "extra lines that -v writes on standard error are not judged"],
  "jobs": [{"mode": "wrep", "quick": 7000, "thorough": 250000, "cpu": 120, "require": {"messages": 10000, "reported": 2000, "unparsable": 800, "values-printed": 3000, "structure-variables": 10000, "features-compared": 600, "foreign": 1000, "cut": 100, "files-complete": 2000, "fresh-processes": 100, "unreadable": 200, "invalid-codes": 5, "runs:dump:bufr": 100, "runs:dump:crex": 50, "runs:trace:bufr": 100, "runs:tables:bufr": 100, "runs:tables:crex": 50, "runs:features:crex": 50}}]},
 "C22": {
  "technique": "online oracle: every printed form compared byte by byte with one written independently from the generated template, table files and values, under ASan/UBSan",
  "level_note": "Prints variables, subsets, bulletins, structured dumps and descriptors of generated BUFR and CREX messages and of bulletins made by hand, and compares the whole text with one made independently; verbose decoding must show each value in order; " + TRUST,
  "rule": "generated templates with every operator in scope, bitmaps, nested replications and sequences; variables of installed, altered and synthetic entries with attributes; any header; distinct = different templates, variables and headers",
  "assumptions": ["the decoded bulletin is judged by C03 and C05: bulletins decoded differently than expected are not judged here", "descriptions are kept up to 63 characters and units up to 23"],
  "jobs": [{"mode": "print", "quick": 30000, "thorough": 1200000, "require": {"bufr": 5000, "crex": 3000, "compared:bulletin": 8000, "compared:subset": 15000, "compared:print_datadesc": 8000, "compared:print": 50000, "compared:format": 30000, "structured-lines": 500000, "verbose-values": 300000, "headers:bufr": 500, "headers:crex": 500, "compared:crex-id": 2000}}]},
 "C23": {
  "technique": "online oracle: texts of all 65536 codes, of types, errors and notes compared with ones written independently, and malformed ones refused, under ASan/UBSan",
  "level_note": "Converts every code both ways, feeds damaged texts, builds, formats, copies and catches every class of error with messages of any length, and compares the place reported by parse errors of damaged messages with what was given; " + TRUST,
  "rule": "all codes; random damage of valid texts; random messages with any byte but NUL up to 100000 long; cut and damaged BUFR and CREX messages; distinct = different texts",
  "assumptions": ["codes written with X above 63 or Y above 255 are not judged, since the tests accept them"],
  "jobs": [{"mode": "text", "quick": 60000, "thorough": 2500000, "require": {"codes": 1000000, "codes-refused": 100000, "codes-refused:empty": 1000, "types-refused": 20000, "errors:notfound": 2000, "errors:type": 2000, "errors:handles": 2000, "errors:toolong": 2000, "errors:consistency": 2000, "errors:unimplemented": 2000, "errors:domain": 2000, "errors:system": 1000, "errors:system-given": 1000, "errors:system-throwf": 1000, "errors:parse-at": 1000, "errors:parse-throwf": 1000, "errors:regexp": 1000, "errors:alloc": 1000, "notes": 5000, "where:bufr": 2000, "where:crex": 2000, "where-exact": 3000}}]},
 "C24": {
  "technique": "online oracle: files written by the importer loaded with the library under ASan/UBSan and compared with the data the XML was generated from",
  "level_note": "Writes XML tables in many orders and layouts, alone or in archives, runs the real importer in a scratch directory, loads what it wrote with the library and compares every entry and sequence; damaged sources must end with an error; " + TRUST,
  "rule": "random tables B and D with long and non-ASCII names and units, entities, comments, other elements and other members of the archive; damaged XML, numbers and archives; distinct = different sources",
  "assumptions": ["CDATA sections and line breaks inside names are not generated", "tables with elements that lack the CREX columns are judged as BUFR only", "that numbers of CREX table files are those messages ask for is not judged"],
  "jobs": [{"mode": "import", "quick": 1200, "thorough": 40000, "require": {"archives": 300, "single-b": 80, "single-d": 80, "bufr-entries": 10000, "crex-entries": 8000, "sequences": 10000, "long-names": 1000, "non-ascii-names": 5000, "served": 300, "refused:missing file": 80, "refused:truncated archive": 10, "refused:archive with a damaged member": 10, "refused:XML badly nested": 5}}]},
}
