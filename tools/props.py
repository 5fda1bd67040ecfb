"""The properties, in one place: tools/gen.py writes properties.jsonl from this."""

def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    return {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": None,
        },
    }

PROPS = [
P("C01", "Decoding any bytes as BUFR is memory safe and fails only with library errors",
  """For every byte string, decoding it as BUFR (header only, in full, or verbosely, with any decoding option) terminates, and either
  returns a bulletin or throws one of the exceptions of the library; it never touches memory outside the message and the objects it
  builds, never executes undefined behaviour, and retains no memory afterwards.
  The same holds for printing, comparing, copying, validating and re-encoding whatever bulletin it returned.""",
  ["inputs"], "every byte string, in particular every corruption of lengths, descriptors, operators, counts and data bits of real messages",
  "The tests decode a few hundred fixed files and a handful of hand-corrupted ones, and without sanitizers an over-read goes unnoticed.",
  ["wreport/bufr/input.cc", "wreport/bufr/decoder.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/opcodes.cc", "wreport/bulletin/dds-printer.cc", "wreport/bufr_encoder.cc"],
  [("section end scanning and bounds checks before every read", "wreport/bufr/input.cc"), ("opcode sequence bounds", "wreport/opcodes.cc"), ("consistency checks of operators and bitmaps", "wreport/bulletin/")],
  [("Input::sec", "start offset of each section", "wreport/bufr/input.h"), ("s4_cursor/pbyte_len", "bit cursor in the data section", "wreport/bufr/input.h")],
  ["BufrBulletin::decode*", "Bulletin::print*", "Bulletin::diff", "Bulletin::encode"]),
P("C02", "Decoding any text as CREX is memory safe and fails only with library errors",
  """For every byte string, decoding it as CREX (header only, in full, or verbosely) terminates, and either returns a bulletin or throws
  one of the exceptions of the library; it never touches memory outside the message and the objects it builds, never executes undefined
  behaviour, and retains no memory afterwards.
  The same holds for printing, comparing, copying, validating and re-encoding whatever bulletin it returned.""",
  ["inputs"], "every byte string, in particular every truncation and token-level corruption of real CREX messages",
  "The tests decode a dozen well formed CREX files; no test feeds the decoder a damaged one.",
  ["wreport/buffers/crex.cc", "wreport/crex_decoder.cc", "wreport/crex_encoder.cc", "wreport/bulletin/interpreter.cc"],
  [("remaining-length checks before every token", "wreport/buffers/crex.cc"), ("section parsing", "wreport/crex_decoder.cc")],
  [("CrexInput::cur/remaining", "read cursor", "wreport/buffers/crex.h")],
  ["CrexBulletin::decode*", "Bulletin::print*", "Bulletin::encode"]),
P("C03", "A decoded BUFR message holds exactly the values its bits encode",
  """For every well formed BUFR message of edition 2, 3 or 4, compressed or not, whose template is made of table B elements, table D
  sequences, fixed and delayed replications and the operators C01 to C08, C22, C23, C36 and C37, decoding gives for each subset exactly
  the variables the template prescribes, in order, each with its code, its altered scale, width and reference, and the value its bits
  encode, or unset where they are all ones.
  Associated fields and values selected by data present bitmaps become attributes of exactly the variables they refer to.
  A message whose data end before its template is satisfied, or whose sections and signatures are not where they should be, is refused
  with an error.""",
  ["inputs"], "every template built from those elements, nested in any way, every subset count, and every assignment of data bits within the domain of each variable",
  "The tests compare decoded values for a fixed set of sample messages: interactions of operators, replications, compression and bitmaps outside those are never exercised.",
  ["wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/bulletin/associated_fields.cc", "wreport/opcodes.cc", "wreport/vartable.cc"],
  [("DDS interpreter", "wreport/bulletin/interpreter.cc"), ("bit input", "wreport/bufr/input.cc"), ("compressed/uncompressed decoder targets", "wreport/bufr/decoder.cc")],
  [("c_scale_change, c_width_change, ...", "operator state", "wreport/bulletin/interpreter.h")],
  ["BufrBulletin::decode -> subsets"]),
P("C04", "BUFR encoding writes exactly the values of the bulletin, or fails",
  """Whenever encoding a BUFR bulletin succeeds, the result is a well formed message (section lengths, total length, padding and end
  marker) in which each variable and attribute is written, in template order, as the bits prescribed by the width, scale and reference
  of its descriptor and of the operators in force, strings padded or cut to the width of their field, and missing values as all ones;
  decoding it gives back the same values.
  Data that cannot be represented that way, because a subset ends before the template does, a number does not fit its field, or a
  replication factor or bitmap length disagrees with the data, make encoding throw instead of writing something else.""",
  ["inputs"], "every template in the scope of C03, every combination of in-domain, missing, extreme and unfitting values and attributes, every number of subsets",
  "The tests re-encode the sample messages and compare with themselves; they never compare the bits with an independent encoding, nor try values that do not fit.",
  ["wreport/bufr_encoder.cc", "wreport/buffers/bufr.cc", "wreport/bulletin/internals.cc", "wreport/varinfo.cc"],
  [("bit output", "wreport/buffers/bufr.cc"), ("DDS encoder", "wreport/bufr_encoder.cc")],
  [("pbyte/pbyte_len", "partial output byte", "wreport/buffers/bufr.h")],
  ["BufrBulletin::encode", "BufrBulletin::decode"]),
P("C05", "CREX encoding and decoding preserve every value",
  """A CREX message holds each value as the decimal digits, sign and length its table entry prescribes, with or without check digits, and
  decoding gives exactly those values in template order, with missing values unset and strings without their padding.
  Encoding a CREX bulletin and decoding the result gives back the same header and the same values for every template of elements,
  sequences, fixed and delayed replications. Variables of another scale or length are encoded with the scale and length of the template,
  and strings are cut to the length of their field.
  Numbers that do not fit their field, text that does not hold a complete value, or a message without its
  header, descriptors or end, make encoding or decoding fail.""",
  ["inputs"], "every CREX template in scope, every in-domain value including negative, extreme and missing ones, with and without check digits, any number of subsets",
  "The tests decode and re-encode a dozen sample files, none with extreme values, and only one with check digits.",
  ["wreport/crex_decoder.cc", "wreport/crex_encoder.cc", "wreport/buffers/crex.cc"],
  [("field parsing and check digits", "wreport/buffers/crex.cc"), ("CREX interpreters", "wreport/crex_decoder.cc, wreport/crex_encoder.cc")],
  [("expected_check_digit", "rolling check digit", "wreport/buffers/crex.h")],
  ["CrexBulletin::encode", "CrexBulletin::decode"]),
P("C06", "A variable only ever holds values in the domain of its table entry",
  """However a variable is assigned (integer, real, string, formatted text, other variable), it ends up either unset or holding a value in
  the domain of its table entry: an unscaled integer between the entry's minimum and maximum, a string no longer than its length, or exactly
  its number of bits.
  An in-domain value is stored exactly (real numbers rounded to the nearest representable one); an out of domain one throws a domain error
  and leaves the variable unset, or, according to the option in force for the thread, silently unsets it, clamps it to the nearest limit
  (except NaN, which still throws), or is delegated to the hook, with silent having precedence over clamp and clamp over hook.
  Strings longer than their field are cut to its length, binary values are cut or padded with zero bits, and text that is not a number
  unsets a numeric variable.
  Reading with the wrong type, or reading an unset variable, throws a type or not-found error.""",
  ["inputs", "configurations"], "every entry of every table and their alterations, every assigned value of every type, every combination of domain error options",
  "The tests assign a few values to a few variables; limits, rounding at the limits, huge numbers and option combinations are not covered.",
  ["wreport/var.cc", "wreport/varinfo.cc", "wreport/options.cc", "wreport/options.h"],
  [("assign_*_checked", "wreport/var.cc"), ("compute_range", "wreport/varinfo.cc")],
  [("imin/imax/dmin/dmax", "domain of a variable", "wreport/varinfo.h")],
  ["Var::set*", "Var::enq*", "Var::isset"]),
P("C07", "Variables own their value and attributes through every copy and move",
  """After any sequence of construction, copy, move, assignment (to itself, to and from its own attributes, between variables of different
  types), value change, and adding, replacing or removing attributes, each variable has exactly the value and the set of attributes the
  history gave it: attributes are unique by code, sorted, without attributes of their own when set, and independent of the variable they came from.
  A variable moved from is valid, unset and without attributes; equality holds exactly when codes, values and attributes are all equal.
  No memory is leaked, shared or freed twice, alone or inside growing and shrinking subsets; entries that tables make on demand (bitmaps, character
  data, unknown descriptors) stay valid for the variables that refer to them when those tables are moved.""",
  ["histories"], "every sequence of those operations on any number of variables of any type",
  "The tests perform each operation once on fresh variables; aliasing and long histories are not sampled.",
  ["wreport/var.cc", "wreport/var.h", "wreport/subset.cc", "wreport/subset.h", "wreport/tables.cc"],
  [("copy/move/seta/unseta", "wreport/var.cc")],
  [("m_attrs", "sorted chain of attributes", "wreport/var.h"), ("m_value", "owned buffer or integer", "wreport/var.h")],
  ["Var copy/move/seta/enqa/next_attr/operator=="]),
P("C08", "Numbers survive scaling, formatting and parsing without losing precision",
  """For every numeric table entry and every unscaled integer in its domain, reading the variable as a real number gives the number closest
  to the integer times ten to the minus scale, and setting a variable from that number, from the formatted text, or from the integer or
  string representation gives back the same integer.
  Formatted text has exactly as many decimals as the scale prescribes, and is the exact decimal expansion of the value; encoding a real number
  to its decimal or binary integer and decoding it gives back the nearest representable number, or throws if it does not fit.""",
  ["inputs"], "every entry and alteration with scale from -16 to 16, every integer in the domain",
  "The tests check a few values of a few scales.",
  ["wreport/varinfo.cc", "wreport/var.cc"],
  [("decode_decimal/encode_decimal/encode_binary/decode_binary", "wreport/varinfo.cc"), ("format/setf", "wreport/var.cc")],
  [], ["Var::enqd", "Var::setd", "Var::format", "Var::setf", "_Varinfo::encode_*"]),
P("C09", "Unit conversions preserve the physical quantity and are invertible",
  """Converting a value between two units the library knows gives the same physical quantity in the other unit, within the precision of the
  documented factors; converting it back gives the original value; converting between equal units gives exactly the same value, and an unknown
  pair throws an unimplemented error.
  Assigning a variable from another one applies that conversion, and the code table conversions (cloud types, weather, vertical significance,
  octants) are exact inverses on the codes they share and reject codes that have no equivalent.""",
  ["inputs"], "every pair of units, every value; every code of each code table",
  "The tests convert a few values in one direction.",
  ["wreport/conv.cc", "wreport/conv.h", "wreport/var.cc"],
  [("ConvertRepository", "wreport/conv.cc"), ("Var::setval", "wreport/var.cc")],
  [], ["convert_units", "convert_*", "Var::setval"]),
P("C10", "Table B lookups give exactly the entries of the file, and stable alterations",
  """For every table B file, BUFR or CREX, looking up a code gives exactly the description, unit, type, scale, reference, width and length
  written in the file for that code, or fails for a code that is not there; iteration gives them all, in order.
  Requesting an entry with altered scale, width and reference gives an entry with exactly those and with consistent type, length and range;
  the same request always gives the same object, and no later request, in any order, changes or moves an entry given out before.
  A file with truncated lines, codes that are not numbers or unsorted entries is refused with an error.""",
  ["inputs", "histories"], "every entry of every installed or well formed table file, every sequence of alteration requests",
  "The tests look at a dozen entries, and request one alteration at a time.",
  ["wreport/vartable.cc", "wreport/varinfo.cc", "wreport/tables.cc"],
  [("BufrVartable/CrexVartable loaders", "wreport/vartable.cc"), ("query_altered", "wreport/vartable.cc"), ("get_bitmap/get_chardata/get_unknown", "wreport/tables.cc")],
  [("VartableEntry::alterations", "chain of alterations", "wreport/vartable.cc")],
  ["Vartable::query", "Vartable::query_altered", "Vartable::iterate"]),
P("C11", "Table D expansions and opcode sequences give exactly the sequence written",
  """For every table D file, looking up a sequence gives exactly the descriptors written in the file, in order, or fails if it is not there.
  Interpreting a data descriptor section visits exactly the descriptors, replications and expansions it prescribes, in order, with the right
  nesting and arguments, and slicing or comparing opcode sequences never sees descriptors outside them.
  A malformed file is refused with an error.""",
  ["inputs"], "every sequence of every installed table file, every synthetic table file, every descriptor list",
  "The tests expand a few sequences.",
  ["wreport/dtable.cc", "wreport/opcodes.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/dds-printer.cc", "wreport/bulletin/dds-scanfeatures.cc"],
  [("DTable loading and lookup", "wreport/dtable.cc"), ("Opcodes", "wreport/opcodes.cc"), ("Interpreter::run", "wreport/bulletin/interpreter.cc")],
  [], ["DTable::query", "Interpreter callbacks", "Bulletin::print_datadesc"]),
P("C12", "Table selection always picks the closest acceptable table",
  """Given the installed table files, a BUFR table request is served with a table of the same master table number and of version equal or
  higher, choosing the lowest such version, then the best centre match (the same, then the WMO one), then for the same centre the closest
  local version and the same subcentre; CREX requests are served by the closest acceptable CREX or BUFR table; if there is none, it fails.
  A table takes the place of those with the same name in directories that come later.
  The choice depends only on the request and on the set of files and directories: not on the order of directory entries, on previous requests, or on caching, and explaining a search names the same table.""",
  ["inputs", "configurations", "histories"], "every set of table files in one or two directories, every request, every order of requests",
  "The tests ask for a few tables in the installed directory.",
  ["wreport/internals/tabledir.cc", "wreport/tableinfo.cc", "wreport/tables.cc"],
  [("is_acceptable_replacement/closest_match", "wreport/tableinfo.cc"), ("Tabledirs/Index", "wreport/internals/tabledir.cc")],
  [("bufr_cache/crex_cache", "memoised choices", "wreport/internals/tabledir.cc")],
  ["Tabledirs::find_bufr/find_crex", "Vartable::get_bufr"]),
P("C13", "Reading a stream returns every message intact, whatever surrounds them",
  """Reading from a stream that holds messages mixed with other data returns each complete message, byte for byte, in order, with its offset,
  and then reports the end; bytes before, between and after messages are skipped, including partial signatures and repeated characters.
  A message cut by the end of the stream is reported as an error, and never returned.
  Writing a message writes all its bytes, or fails.""",
  ["inputs", "fault_sequences"], "every interleaving of messages and other bytes, every cut point, every short read or failing write",
  "The tests read well formed files from the start.",
  ["wreport/bulletin.cc"],
  [("BufrBulletin::read, CrexBulletin::read, seek_past_signature", "wreport/bulletin.cc"), ("write", "wreport/bulletin.cc")],
  [], ["BufrBulletin::read/write", "CrexBulletin::read/write"]),
P("C14", "Decoding depends only on the message, and all decoding entry points agree",
  """Decoding the same message always gives the same bulletin or the same kind of error, whatever was decoded, encoded, converted, or failed to
  decode before in the process.
  Header-only decoding gives the same header as full decoding, verbose decoding gives the same bulletin as normal decoding, and copies of the
  message at another address or read from a file give the same result.
  Bulletins carry the file name and offset given. Decoding never changes its input, and never alters bulletins decoded earlier.""",
  ["histories", "inputs"], "every history of operations in the process before and after the decode",
  "The tests decode each file once in a fresh test case.",
  ["wreport/bufr/decoder.cc", "wreport/crex_decoder.cc", "wreport/vartable.cc", "wreport/tables.cc", "wreport/bulletin.cc"],
  [("per-message decoder state", "wreport/bufr/decoder.cc"), ("process-wide table caches", "wreport/vartable.cc, wreport/dtable.cc, wreport/internals/tabledir.cc")],
  [], ["decode, decode_header, decode_verbose"]),
P("C15", "Threads do not see each other's options and notes, and scopes restore them",
  """Domain error options and the notes target set in a thread affect only that thread, and a scoped override restores what was there before
  when the scope ends, in any nesting and also when it ends with an exception.
  Once the tables and conversions in use have been loaded, threads can decode, encode, print and compare different bulletins at the same time
  without data races, each obtaining what it would obtain alone.""",
  ["schedules", "histories"], "every interleaving of threads working on separate bulletins after warm-up, every nesting of scopes",
  "The tests are single threaded.",
  ["wreport/options.cc", "wreport/options.h", "wreport/notes.cc", "wreport/notes.h", "wreport/var.cc"],
  [("thread_local options and notes target", "wreport/options.cc, wreport/notes.cc"), ("LocalOverride, notes::Collect", "wreport/options.h, wreport/notes.h"), ("thread_local conversion buffer", "wreport/var.cc")],
  [("var_silent_domain_errors, ...", "per-thread options", "wreport/options.h"), ("notes::target", "per-thread notes", "wreport/notes.cc")],
  ["options::*", "notes::*", "concurrent decode/encode"]),
P("C16", "The Python bindings give the same values and errors as the library",
  """For every table entry and every Python value, creating a wreport.Var stores what the library would store, and reading it back in any way
  (typed accessors, get, formatting, attributes, equality, copies) gives the same value as the library; values that cannot be stored raise a
  Python exception of the documented kind and never a different value or a crash.
  Table lookups and unit conversions from Python give the same results as the library.""",
  ["inputs", "histories"], "every entry and Python value of any type and size, every sequence of attribute operations",
  "The Python tests check a few variables.",
  ["python/var.cc", "python/varinfo.cc", "python/vartable.cc", "python/wreport.cc", "python/common.cc"],
  [("var_value_to_python/var_value_from_python", "python/var.cc"), ("exception mapping", "python/common.cc")],
  [], ["wreport.Var", "wreport.Vartable", "wreport.Varinfo", "wreport.convert_units"]),
P("C17", "Lua scripts see exactly the code and value of a variable",
  """A variable pushed to Lua gives from its methods exactly its code, its integer, real and string values, and its formatted text, or nil when it
  is unset, and a Lua error that can be caught when the type is wrong; no Lua call changes the variable, leaves the Lua stack unbalanced or
  crashes, for any argument.""",
  ["inputs"], "every variable of every type, every method, every argument",
  "The tests check one variable per method.",
  ["wreport/var-lua.cc", "wreport/utils/lua.cc", "wreport/utils/lua.h"],
  [("dbalua_var_*", "wreport/var-lua.cc"), ("push_object", "wreport/utils/lua.cc")],
  [], ["Var::lua_push", "Lua methods"]),
P("C18", "The wrep tool reports every message of its input and survives bad ones",
  """For every input file, wrep handles every message in it, in order: dumping, tracing, structure, data descriptors, tables, features and
  variables show what the library decodes, and messages that cannot be decoded are reported on standard error without affecting the others.
  In unparsable mode its standard output is exactly the concatenation of the messages that cannot be decoded, byte for byte.
  It never crashes, whatever the input files and options.""",
  ["inputs", "configurations"], "every file made of good, damaged and foreign data, every option",
  "No test runs wrep.",
  ["src/wrep.cc", "src/input.cc", "src/output.cc", "src/iterate.cc", "src/unparsable.cc", "src/options.cc"],
  [("read loops", "src/input.cc"), ("handlers", "src/output.cc, src/iterate.cc, src/unparsable.cc"), ("option parsing", "src/wrep.cc, src/options.cc")],
  [], ["wrep stdout, stderr and exit status"]),
P("C19", "Comparing bulletins finds every difference and only differences",
  """Comparing two bulletins, subsets or variables reports zero differences exactly when their headers, tables, descriptors, variables, values and
  attributes are the same, and at least one when any one of them differs, in either direction: no fewer than the header fields and subsets that differ.
  When notes are collected each difference leaves a note.
  Equality of variables agrees with it for variables of the same type.""",
  ["inputs"], "every bulletin and every single change of a header field, descriptor, value, attribute or structure",
  "The tests compare messages that are expected to be equal, and a few different headers.",
  ["wreport/bulletin.cc", "wreport/subset.cc", "wreport/var.cc"],
  [("Bulletin::diff, diff_details, Subset::diff, Var::diff", "wreport/bulletin.cc, wreport/subset.cc, wreport/var.cc")],
  [], ["Bulletin::diff", "Var::diff", "Var::operator=="]),
P("C20", "Message headers are encoded and decoded without loss",
  """For every BUFR edition and CREX edition the library can write, every header field that edition can represent (edition, centre, subcentre,
  categories, update sequence number, table versions, reference time, optional section, number of subsets, data descriptors) is found
  unchanged after encoding and decoding, at the octets or columns prescribed for that edition; values the edition cannot represent follow its documented
  truncation, and editions that do not exist are refused.""",
  ["inputs"], "every combination of header values for every edition",
  "The tests encode a few headers.",
  ["wreport/bufr_encoder.cc", "wreport/bufr/decoder.cc", "wreport/crex_encoder.cc", "wreport/crex_decoder.cc"],
  [("encode_sec1ed*", "wreport/bufr_encoder.cc"), ("decode_sec1ed*", "wreport/bufr/decoder.cc"), ("header lines", "wreport/crex_encoder.cc, wreport/crex_decoder.cc")],
  [], ["encode", "decode", "decode_header"]),
P("C21", "Validation agrees with encoding, and the construction API builds what it says",
  """Validating a subset against the data descriptors fails when a variable is missing, is not the one the descriptors ask for at that position,
  or has a number that does not fit, and succeeds for every subset built or decoded according to the descriptors, which can then be encoded.
  Storing variables in a subset by code and value, and appending data present bitmaps, yields exactly those variables and bitmaps, and what is
  built that way encodes and decodes to the same values and attributes; failures leave the subset as it was, and a bulletin that is cleared is like a new one.""",
  ["inputs", "histories"], "every template and every subset derived from a correct one by dropping, adding, swapping or changing variables",
  "The tests validate the sample messages, which are all correct.",
  ["wreport/bulletin/dds-validator.cc", "wreport/bufr_encoder.cc", "wreport/crex_encoder.cc", "wreport/bulletin/internals.cc", "wreport/subset.cc"],
  [("DDSValidator", "wreport/bulletin/dds-validator.cc"), ("UncompressedEncoder", "wreport/bulletin/internals.cc"), ("append_dpb", "wreport/subset.cc")],
  [], ["DDSValidator::run", "encode", "Subset::store_variable*", "Subset::append_*dpb"]),
P("C22", "Printed forms state exactly what variables, bulletins and descriptors hold",
  """Printing a variable, a subset or a bulletin writes the header fields, tables and data descriptors of the bulletin, and then each variable
  once, in order, with its code, description, unit, formatted value (or a mark that it is unset) and attributes.
  The structured dump lists the same variables in template order, each with the sequences and replications that contain it, and the
  attributes and associated fields where the template places them. Printing the data descriptors lists every descriptor once, with what it
  means, nested as replications and sequences prescribe. Printing succeeds for every bulletin decoded or built according to its descriptors,
  changes nothing, and verbose decoding shows the values decoded.""",
  ["inputs"], "every bulletin and variable: any template, nesting, operators, values, attributes and header fields",
  "The tests only check that printing some sample messages does not fail; the texts are not compared.",
  ["wreport/bulletin.cc", "wreport/bulletin/dds-printer.cc", "wreport/bulletin/interpreter.cc", "wreport/var.cc", "wreport/subset.cc", "wreport/opcodes.cc", "wreport/bufr/decoder.cc"],
  [("Bulletin::print*", "wreport/bulletin.cc"), ("DDSPrinter", "wreport/bulletin/dds-printer.cc"), ("Printer", "wreport/bulletin/interpreter.cc"), ("Var::print, Var::format", "wreport/var.cc")],
  [], ["Bulletin::print", "Bulletin::print_structured", "Bulletin::print_datadesc", "Subset::print", "Var::print*", "Var::format", "decode_verbose"]),
P("C23", "Codes survive conversion to text, and errors tell their kind, cause and place",
  """Writing a variable code gives its letter and five digits, reading that text or its all digits form gives back the same code, and texts
  that are not followed by five digits are refused. Names of variable types convert back and forth and other names are refused.
  Errors carry the code of their kind and the whole message they were given, of any length and contents, whether built, formatted, copied,
  or caught as the base class; system errors add the system's description, and parse errors the name of the file and the place.
  Parse errors found decoding a message start with the file name and offset given and the position in the message.
  Notes arrive whole where they are collected, and nowhere else.""",
  ["inputs"], "every code, every text, every error class, message length and contents, and every malformed message",
  "The tests try a few codes and texts.",
  ["wreport/varinfo.cc", "wreport/varinfo.h", "wreport/error.cc", "wreport/error.h", "wreport/notes.cc", "wreport/bufr/input.cc", "wreport/buffers/crex.cc"],
  [("varcode_parse, varcode_format, vartype_parse", "wreport/varinfo.cc"), ("throwf", "wreport/error.cc"), ("parse_error", "wreport/bufr/input.cc, wreport/buffers/crex.cc"), ("notes", "wreport/notes.cc")],
  [], ["varcode_parse", "varcode_format", "error::what", "error::code", "notes::log"]),
P("C24", "Tables imported from WMO XML hold exactly the entries of the XML",
  """wrep-importtable, given the archive of XML tables published by WMO, or the XML of one table B or D, writes in the current directory
  the table files of that version, which the library loads. They hold each element of the XML once and nothing else, in order, with its
  code, name, unit (in upper case; CCITT IA5 as CCITTIA5), scale, reference value and width, both for BUFR and for CREX, and each
  sequence with its members in order, in whatever order and layout the XML has them. Names and units may be cut to the columns of the
  file. A source which cannot be read ends with a message and a nonzero exit status.""",
  ["inputs"], "every table, order and layout of the XML, and every damaged source",
  "No test runs the importer.",
  ["src/wrep-importtable", "wreport/vartable.cc", "wreport/dtable.cc"],
  [("TableB, TableD, Tables, main", "src/wrep-importtable"), ("BufrVartable, CrexVartable", "wreport/vartable.cc")],
  [], ["wrep-importtable --zipfile", "wrep-importtable --btable", "wrep-importtable --dtable"]),
]
