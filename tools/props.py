PROPS = [
 dict(id="C01", title="BUFR header fields survive encoding and decoding in every edition",
  statement="Encoding a BUFR bulletin of edition 2, 3 or 4 and decoding the result with any of the decoding entry points gives back every "
   "identification field the edition can carry (centre, subcentre, master and local table numbers and versions, category and subcategories, "
   "update sequence number, reference time), the same descriptor list in the same order, and the same optional section up to its padding byte. "
   "The octets used for each field are the ones the WMO regulations assign to that edition, and the decoders accept whatever the encoder produced.",
  quant="every combination of header field values the edition can represent, every descriptor list, optional section present or absent with any length parity",
  why="the tests round-trip a handful of sample messages whose header fields mostly hold default or zero values, so a swapped, narrowed or dropped field goes unnoticed",
  files=["wreport/bufr_encoder.cc", "wreport/bufr/decoder.cc", "wreport/bufr/input.h", "wreport/bulletin.cc"],
  mech=[("section 1 encoders", "wreport/bufr_encoder.cc encode_sec1ed3/encode_sec1ed4"), ("section 1 decoders", "wreport/bufr/decoder.cc decode_sec1ed3/decode_sec1ed4"), ("header scan", "wreport/bufr/input.cc scan_lead_sections/scan_other_sections")],
  technique="abstract interpretation of the encoder's LLVM IR (bit-provenance domain) composed with abstract interpretation of each decoder over the abstract message",
  note="covers all header values at once; assumes sections of at most 2 MiB, std::string/std::vector as specified; data section opaque"),
 dict(id="C02", title="Encoded BUFR messages are framed by their own declared lengths",
  statement="In every message the BUFR encoder returns, walking from the start by the declared section lengths reaches the end marker exactly at the end of the "
   "message, and the total length in section 0 is the length of the message. The optional-section flag, the number of subsets, the compression flag and "
   "the length of the descriptor list are the true ones, and up to edition 3 every section has an even length.",
  quant="every bulletin of edition 2, 3 and 4, with any number of descriptors and subsets, optional section and data length",
  why="tests check a few sample messages; padding, parity and length arithmetic depend on lengths and parities they do not vary",
  files=["wreport/bufr_encoder.cc", "wreport/buffers/bufr.cc"],
  mech=[("section length patching", "wreport/bufr_encoder.cc"), ("bit buffer flush", "wreport/buffers/bufr.cc BufrOutput::flush")],
  technique="abstract interpretation of the encoder's LLVM IR; linear-form positions, parity facts by GF(2) elimination",
  note="lengths are compared as linear forms over unknown section sizes; sections assumed to fit their 24 bit lengths"),
 dict(id="C03", title="Bit-packed fields are laid out MSB first and read back bit for bit",
  statement="Fields written one after the other at any bit position are laid out most significant bit first with no gap or overlap, a final partial byte is "
   "zero padded, missing fields are all ones, text is one octet per character padded with spaces. Reading the same widths at the same positions returns the same bits, "
   "and text loses nothing but trailing padding.",
  quant="every field width from 0 to 32 bits, every starting bit position, every value; text and binary fields of any bit length",
  why="32 widths x 8 bit positions x all values cannot be sampled; sample messages exercise few alignments",
  files=["wreport/buffers/bufr.cc", "wreport/buffers/bufr.h", "wreport/bufr/input.h", "wreport/bufr/input.cc"],
  mech=[("bit writer", "wreport/buffers/bufr.cc BufrOutput::add_bits, flush"), ("bit reader", "wreport/bufr/input.h Input::get_bits"), ("text", "BufrOutput::append_string, Input::decode_string")],
  technique="abstract interpretation with exact bit provenance over call sequences, for every (width, bit position) pair",
  note="exhaustive in width and alignment, all values at once; text and binary fields up to 48 bits (100 in thorough)"),
 dict(id="C06", title="Out of domain values are never stored, and the domain error policy is obeyed",
  statement="A numeric variable never holds a value outside the domain of its definition, whatever sequence of public operations was applied to it: integers, doubles, numeric "
   "text, copies and unit conversions included. A value inside the domain is always stored; an out of domain value or NaN unsets the variable and reports a domain error by "
   "default, only unsets it when silent errors are asked for, stores the violated bound when clamping is asked for (NaN excepted), and otherwise goes to the user's hook if there is one.",
  quant="every value (including NaN, infinities and numbers that do not fit an int), every domain, every variable type and every combination of the three options",
  why="tests set a few values around one or two domains; wrap-around, NaN and option combinations need all values x all domains x all options",
  files=["wreport/var.cc", "wreport/var.h", "wreport/options.cc"],
  mech=[("domain checks", "wreport/var.cc Var::assign_i_checked, Var::assign_d_checked"), ("setters", "wreport/var.cc Var::seti, setd, setc, sets, setval"), ("options", "wreport/options.cc")],
  technique="abstract interpretation of every public Var member's LLVM IR with relational facts between the stored value and the domain bounds",
  note="for doubles, in domain means between the minimum and maximum doubles of the definition before rounding to the stored integer; rounding itself is not modelled; text to number conversion of the C library trusted"),
 dict(id="C07", title="Unset or wrongly typed variables are never read as values",
  statement="Reading the value of an unset variable always reports a not-found error, and reading text or opaque data as a number, or setting a number on a text or opaque "
   "variable, always reports a type error and leaves the variable as it was; otherwise the stored value is returned. No operation on variables (comparison, copy, "
   "conversion, formatting, diff) interprets a stored number as a pointer or a pointer as a number, whatever types the variables involved have.",
  quant="every public operation, every combination of types of the variables involved, set or unset",
  why="tests compare variables of equal type; mixed types come from different table versions and corrupt memory only sometimes",
  files=["wreport/var.cc", "wreport/var.h"],
  mech=[("accessors", "wreport/var.cc Var::enqi, enqd, enqc, enqs"), ("value union", "wreport/var.h m_value"), ("comparison", "wreport/var.cc Var::value_equals, diff")],
  technique="abstract interpretation of every public Var member's LLVM IR, typestate of the value union",
  note="set text variables are assumed to have a buffer, which C20 establishes; float formatting not modelled"),
 dict(id="C08", title="Attributes behave as a map from code to value",
  statement="Setting an attribute adds it or replaces the one with the same code, removing it removes only that one, looking one up finds it exactly when it is there, and "
   "iteration goes through the attributes in increasing code order. Replaced and removed attributes are freed once; attributes copied from another variable equal its own in number, order, definition and value.",
  quant="every attribute list, every position of the code relative to the codes in the list",
  why="tests set one or two attributes; the cases are the relative positions in longer lists",
  files=["wreport/var.cc"],
  mech=[("attribute list", "wreport/var.cc Var::seta, unseta, enqa, setattrs, clear_attrs")],
  technique="abstract interpretation on symbolic linked lists (shape analysis by case enumeration), recursion inlined",
  note="lists of up to 3 attributes (4 in thorough) with symbolic codes; longer lists repeat the same cases"),
 dict(id="C20", title="Variables own their values; copies are complete and independent",
  statement="Copying a variable gives one with the same definition, value and attributes that shares nothing with the original, and leaves the original untouched; "
   "moving leaves the source unset and without attributes. After any operation every text or binary value is held in a buffer of the size its definition asks for, "
   "owned by exactly one variable, never accessed outside its bounds, and freed exactly once.",
  quant="every public operation on variables, every combination of types and definitions, set or unset, including assignment between different types",
  why="ownership errors show only under particular type combinations and later as corruption, which the tests do not provoke",
  files=["wreport/var.cc", "wreport/var.h"],
  mech=[("copy and move", "wreport/var.cc Var::Var, operator=, copy_value, move_value"), ("buffers", "wreport/var.cc Var::allocate, assign_c_checked, assign_b_checked")],
  technique="ownership and bounds analysis by abstract interpretation of every public Var member's LLVM IR",
  note="raw pointers given by the caller are trusted; out-of-memory not modelled; user error hooks assumed to keep the variable valid"),
 dict(id="C09", title="Numbers are packed with scale and reference, and unpacked to the same",
  statement="Packing a number gives the integer nearest to value times ten to the scale, minus the reference value for BUFR, and unpacking gives back that integer plus the reference divided by "
   "ten to the scale; a packed number fits its field and is never the all ones missing value, and one that does not fit is reported instead of truncated. "
   "The range of a definition is what both its digits and its bits can hold, its type follows from its unit and scale, and variables store and return values with the scale of their definition.",
  quant="every value, every scale from -16 to 16, every bit width and number of digits, every reference value",
  why="tests check a few variables of the tables; rounding direction, reference sign and range edges depend on combinations of scale, width and reference",
  files=["wreport/varinfo.cc", "wreport/varinfo.h", "wreport/var.cc"],
  mech=[("packing", "wreport/varinfo.cc encode_binary, decode_binary, encode_decimal, decode_decimal"), ("ranges", "wreport/varinfo.cc compute_range"), ("definitions", "wreport/varinfo.cc set_bufr, set_crex, set_string, set_binary")],
  technique="abstract interpretation of the packing functions' LLVM IR; floating point expressions compared as exact affine forms over the reals",
  note="IEEE rounding of the intermediate products is not modelled; definitions with ten or more digits take their range from the digits alone, as the tests require"),
 dict(id="C10", title="All ones and only all ones is missing; compressed data is base plus increment",
  statement="A BUFR number is decoded as missing exactly when all its bits are one (replication factors in uncompressed data are never missing), otherwise as the number its bits encode; a missing variable is encoded "
   "as all ones. In compressed data each subset gets base plus its own increment, missing when base, increment or sum is all ones, text gets its own text, values that must be the same for all subsets refuse increments, "
   "and every subset gets exactly one variable. Associated fields become the attribute of the value they precede, attributes go to the variable they are about, bitmap bits are present when zero.",
  quant="every bit pattern, every field width up to 32 bits, every increment width, any number of subsets, every associated field significance",
  why="sample messages hold few missing values and few compressed layouts; the cases are combinations of widths, bit patterns and subsets",
  files=["wreport/bufr/input.cc", "wreport/bufr/decoder.cc", "wreport/buffers/bufr.cc", "wreport/bufr_encoder.cc", "wreport/bulletin/associated_fields.cc"],
  mech=[("data decoders", "wreport/bufr/decoder.cc UncompressedDecoderTarget, CompressedDecoderTarget"), ("compressed fields", "wreport/bufr/input.cc decode_compressed_*"), ("value encoder", "wreport/buffers/bufr.cc BufrOutput::append_var")],
  technique="abstract interpretation of the decoders' LLVM IR through virtual calls and callbacks, the bits of the message symbolic; the encoder followed to the bits it writes",
  note="one to three subsets, all loops over subsets treat them alike; compressed replication factors of all ones are read as missing, opaque values are not supported in compressed data"),
 dict(id="C17", title="Comparisons see every difference and only differences; clear resets all",
  statement="Two variables compare equal, and their diff is zero, exactly when they have the same code, are both unset or hold the same value of the same type, and have the same attributes in number, code and value. "
   "The diff of two subsets or of two bulletins is zero exactly when every identification field, table, optional section, descriptor and variable is the same (the compression flag is not compared), whatever else differs. "
   "Clearing a bulletin leaves every field as in a newly created one.",
  quant="every pair of variables of every type, set or unset, with any attributes; every pair of bulletins and every combination of differing fields",
  why="tests compare few pairs and mostly equal ones; a field left out of a comparison or of the reset goes unnoticed",
  files=["wreport/var.cc", "wreport/subset.cc", "wreport/bulletin.cc"],
  mech=[("variables", "wreport/var.cc Var::operator==, Var::diff"), ("subsets", "wreport/subset.cc Subset::diff"), ("bulletins", "wreport/bulletin.cc Bulletin::diff, diff_details, clear")],
  technique="abstract interpretation of the comparison functions' LLVM IR on pairs of objects known to differ in chosen fields",
  note="decimal values are compared as stored, as documented in the source; tables are compared by their path; 0 to 2 attributes, descriptors and subsets"),
 dict(id="C22", title="BUFR data sections come back item for item, in place",
  statement="Decoding an uncompressed data section written by the encoder gives back every variable of every subset in its position with the value and the (possibly operator-modified) definition it was "
   "encoded with, and every associated field, attribute and substituted value on the variable it was encoded from. "
   "The decoder reads exactly the fields that were written, in the same order and with the same widths, and reference values that do not fit the field for a new reference value are rejected.",
  quant="every supported operator with every operand, replications, delayed factors, bitmaps of every shape up to 3 items, several subsets, and combinations of them, for all values of the variables",
  why="sample messages use few operators, mostly with one operand and one bitmap; an off by one in bitmap positions, a width or a lost definition needs the combination nobody sampled",
  files=["wreport/bufr_encoder.cc", "wreport/bufr/decoder.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/bulletin/internals.cc", "wreport/subset.cc"],
  mech=[("data section encoder", "wreport/bufr_encoder.cc DDSEncoder"), ("data section decoder", "wreport/bufr/decoder.cc UncompressedBufrDecoder"), ("bitmaps", "wreport/bulletin/bitmaps.cc")],
  technique="abstract interpretation of the encoder's IR composed with abstract interpretation of the decoder's on the abstract item stream, over enumerated descriptor programs",
  note="values symbolic; programs bounded (single operators over all operands, pairs; triples in thorough); the bits of each item are C03, C09, C10"),
 dict(id="C23", title="Descriptor lists are expanded with operators as the regulations say",
  statement="Expanding a descriptor list visits the elements in order, expands table D sequences in place, repeats replicated groups the fixed or delayed number of times, and gives every element the scale, width and "
   "reference value that follow from the operators in force and from nothing else: operators apply only to the kinds of element they are defined for, last until cancelled, and do not leak past their scope. "
   "Bitmaps select the elements they refer to by position, and malformed lists are rejected with an error.",
  quant="every supported operator with every operand, on every kind of element, nested replications, bitmaps up to 4 items, and pairs of operators",
  why="operator state persists across descriptors, so correctness depends on combinations and orders of operators that sample messages do not contain",
  files=["wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/opcodes.cc", "wreport/tables.cc", "wreport/vartable.cc"],
  mech=[("operator interpreter", "wreport/bulletin/interpreter.cc Interpreter"), ("bitmap selection", "wreport/bulletin/bitmaps.cc Bitmaps"), ("altered definitions", "Interpreter::get_varinfo, Vartable::query_altered")],
  technique="abstract interpretation of the interpreter's IR on enumerated descriptor programs, compared with a reference expander",
  note="programs bounded (all operands of each operator, all pairs of fragments; triples in thorough); table contents symbolic"),
 dict(id="C24", title="CREX bulletins survive encoding and decoding",
  statement="Encoding a CREX bulletin gives the text the regulations ask for: indicator, table and category groups, descriptors with implicit replication factors left out, one group per value padded to the width of its definition "
   "with slashes for missing values and check digits where asked for, subset separators and end marker. "
   "Decoding that text with any of the decoding entry points gives back the header fields it carries, the descriptors, and every value of every subset in its place, missing values as missing, whatever white space separates the groups. A replication factor that does not fit its four digits is not written.",
  quant="every value of the header fields and of the variables (numbers of either sign and any width up to 10 digits, text up to 300 characters, missing), any number of subsets, with and without check digits, replications and sequences",
  why="tests only decode eight sample messages with one subset and no check digits",
  files=["wreport/crex_encoder.cc", "wreport/crex_decoder.cc", "wreport/buffers/crex.cc", "wreport/bulletin/internals.cc", "wreport/varinfo.cc"],
  mech=[("encoder", "wreport/crex_encoder.cc CrexBulletin::encode"), ("decoder", "wreport/crex_decoder.cc decode_header, CrexParser"), ("text buffers", "wreport/buffers/crex.cc CrexInput, CrexOutput")],
  technique="abstract interpretation of the encoder's IR to an abstract text, compared with a reference layout and composed with abstract interpretation of the decoder",
  note="values and header fields symbolic, layouts enumerated; table numbers up to 99, text not starting with a blank or a slash; C operators are not covered for CREX"),
    {'id': 'C04', 'title': 'Decoders stay inside the message and their buffers',
     'statement': 'Whatever bytes and whatever length a BUFR or CREX message has, decoding it, or only its header, never reads a byte outside the message: a message that ends too soon, or whose lengths, positions or counts point past its end, is rejected with an error before the missing bytes are looked at. Text and binary values taken from a message are never written past the memory set aside for them.',
     'quant': 'every message of any length and content, every width of the fields, every decoding entry point',
     'why': 'tests decode a few dozen valid messages and some truncated ones; a bound that is off by one for one field shows only for one length of one kind of message, and then often silently',
     'files': ['wreport/bufr/input.cc', 'wreport/bufr/input.h', 'wreport/bufr/decoder.cc', 'wreport/buffers/crex.cc', 'wreport/crex_decoder.cc'],
     'mech': [('BUFR input', 'wreport/bufr/input.cc, input.h: get_bits, read_number, scan_section_length, check_available_*'), ('BUFR decoder', 'wreport/bufr/decoder.cc decode_sec1ed2..4, decode_header, read_options'), ('CREX input', 'wreport/buffers/crex.cc CrexInput')],
     'technique': 'interprocedural abstract interpretation of the IR of the decoders with exact linear arithmetic: every access to message bytes must be implied by the tests on the path',
     'note': 'messages shorter than 2^31 bytes; writes of decoded text judged for enumerated field widths (1 to 65 bits quick, to 2040 thorough); debugging functions nothing calls are left out'},
    {'id': 'C25', 'title': 'Messages are read from and written to files whole and in order',
     'statement': 'Reading messages from a stream returns, in order, exactly the bytes of each BUFR or CREX message wherever it starts and whatever bytes come before it or between messages, with the position where it begins, and says that there are no more messages only at the end of the stream. A message cut short, a BUFR message declaring a length shorter than 12 bytes, and every failure to read or write are reported as errors. Writing a message writes exactly its bytes; a CREX message may be followed by line ends.',
     'quant': 'every stream of bytes of any length, every position of the messages in it, every outcome of each input or output call',
     'why': 'tests read files that hold one message and start with it; what precedes or follows a message, partial matches and failures of the file system are not sampled',
     'files': ['wreport/bulletin.cc', 'wreport/bulletin.h'],
     'mech': [('signature search', 'wreport/bulletin.cc seek_past_signature'), ('BUFR', 'wreport/bulletin.cc BufrBulletin::read, write'), ('CREX', 'wreport/bulletin.cc CrexBulletin::read, write')],
     'technique': 'abstract interpretation of the IR of the readers in product with a reference automaton, explored until no new pair of states appears; file functions modelled with every outcome they can have',
     'note': 'BUFR lengths enumerated (0 to 40 and the largest), message bytes symbolic; the buffering of the C library is trusted'},
    {'id': 'C11', 'title': 'Unit and code table conversions are right, and inverse of each other',
     'statement': 'Converting a value between two units that can be converted multiplies and offsets it as the definitions of the units require (to the five digits factors are written with), and converting back gives the original value; a unit is converted to itself unchanged, and a pair of units with no conversion is reported as an error whatever the names. Conversions between code tables (present and past weather, cloud types, vertical significance flags, octants) map every code to its counterpart and back, and codes past the end of a table are rejected with a domain error.',
     'quant': 'every pair of unit names, every value, every code and combination of flags',
     'why': 'tests convert a few values between a few of the hundred and fifty pairs of units; a wrong factor or offset, or an entry the search misses, shows only for its own pair',
     'files': ['wreport/conv.cc', 'wreport/conv.h'],
     'mech': [('table of conversions', 'wreport/conv.cc ConvertRepository'), ('search', 'wreport/conv.cc ConvertRepository::find, convert_units'), ('code tables', 'wreport/conv.cc convert_*_to_*')],
     'technique': 'abstract interpretation of the IR of the construction of the table and of the search for every pair of units; results as exact affine forms compared with the definitions of the units',
     'note': 'ICAO heights are not covered; factors compared with tolerance 1e-4; floating point rounding is not modelled'},
    {'id': 'C13', 'title': 'Tables say what their files say, and lookups find exactly that',
     'statement': 'A table of elements or of sequences, once loaded, holds exactly the lines of its file: codes, descriptions and units (cut to the room there is), scale, reference, width, kind of value, and the members of each sequence in order; lines too short, elements out of order or repeated, and sequences with another number of members than declared are errors. A code is found exactly when the file has it. A definition asked for with another scale, width or reference has exactly those and the digits and kind that follow from them, is the same object every time it is asked for, and is refused when out of range; a file is loaded once. Definitions made on demand for bitmaps, character data and local descriptors of unknown meaning have the code and the size asked for, whatever was asked for before, and are still the same afterwards.',
     'quant': 'every table file, every code looked up, every history of alterations and definitions asked for',
     'why': 'tests look up a handful of codes in the tables that are shipped; a column read wrongly, a boundary of the search or an alteration mixed up with another shows only for particular entries and histories',
     'files': ['wreport/vartable.cc', 'wreport/dtable.cc', 'wreport/varinfo.cc', 'wreport/tables.cc'],
     'mech': [('definitions on demand', 'wreport/tables.cc Tables::get_bitmap, get_chardata, get_unknown'), ('BUFR and CREX element tables', 'wreport/vartable.cc BufrVartable, CrexVartable'), ('lookup and alterations', 'wreport/vartable.cc VartableBase::query, query_altered, iterate'), ('sequence tables', 'wreport/dtable.cc DTableBase'), ('caches', 'wreport/vartable.cc Vartable::load_*, wreport/dtable.cc DTable::load_*')],
     'technique': 'abstract interpretation of the IR of the loaders on lines of symbolic characters in every layout of the columns, of the searches on symbolic sorted tables, and of the alterations on symbolic histories, against a reference reading of the file format',
     'note': 'numeric columns enumerated by layout (sign, blanks, number of digits) with symbolic digits; tables of up to 9 entries in searches; failures to read a table after it was opened are not told from its end'},
    {'id': 'C14', 'title': 'The tables used for a message are the closest ones that can serve it',
     'statement': 'The tables chosen for a message have its master table number (and CREX edition) and a version not older than the message asks for, and among these the lowest version, then those of its originating centre, else those of the WMO (centre 0), else those of no centre (65535); for its own centre, the closest local version not lower than the one asked for, or else the highest lower one, then its own subcentre. Ties go to the table found first, tables are identified by the numbers in their file names, and a BUFR message never gets CREX tables. The choice does not depend on what was searched before, and when no table will do an error is reported.',
     'quant': 'every combination of centre, subcentre, master table and versions of a message, every set and order of tables in the directories, every history of earlier searches',
     'why': 'tests look for a few combinations in the directory of shipped tables; a comparison that is the wrong way round matters only between particular pairs of tables for particular messages',
     'files': ['wreport/tableinfo.cc', 'wreport/tableinfo.h', 'wreport/internals/tabledir.cc', 'wreport/tables.cc'],
     'mech': [('order of preference', 'wreport/tableinfo.cc is_acceptable_replacement, closest_match, operator<'), ('search and cache', 'wreport/internals/tabledir.cc Query, Index::find_bufr, find_crex'), ('file names', 'wreport/internals/tabledir.cc Dir::refresh'), ('loading', 'wreport/tables.cc Tables::load_bufr, load_crex; wreport/bulletin.cc load_tables')],
     'technique': 'abstract interpretation of the IR of the comparisons for every relative order of the numbers compared, and of the searches on symbolic directories, against a reference order of preference',
     'note': 'directories of up to three tables in searches; the choice between BUFR and CREX tables for a CREX message follows the BUFR table version, then centre, local version and subcentre'},
    {'id': 'C21', 'title': 'Codes, types and definitions mean what they say',
     'statement': 'The text of a descriptor code (B, R, C, D or 0 to 3, two digits, three digits) is read as the code it names and codes are written as that text; text with anything but five digits after the first character is refused without looking past its end. Names of types of values are read and written as the type they name and other names are refused. A definition of an element made for BUFR, CREX, text or opaque data has the code, description, unit, scale, length, width and reference asked for, the type that follows from them, and the range of values that its digits and its bits can hold, without the values that mean missing. Parts of a list of descriptors (one of them, the first ones, the rest, those from one place on) are exactly the descriptors asked for that are in the list; taking more from the front than there are is an error, and nothing outside the list is looked at.',
     'quant': 'every code, every name, every combination of length, width and reference',
     'why': 'tests parse a handful of codes and check the ranges of a few elements',
     'files': ['wreport/varinfo.cc', 'wreport/varinfo.h', 'wreport/opcodes.h'],
     'mech': [('codes', 'wreport/varinfo.cc varcode_parse, varcode_format'), ('types', 'wreport/varinfo.cc vartype_parse, vartype_format'), ('definitions', 'wreport/varinfo.cc _Varinfo::set_bufr, set_crex, set_string, set_binary, compute_range'), ('lists', 'wreport/opcodes.h Opcodes')],
     'technique': 'abstract interpretation of the IR with symbolic digits and fields, the layouts of the text and the widths enumerated, against the written definitions',
     'note': 'X up to 63 and Y up to 255; widths up to 32 bits; codes written are enumerated with every X and with every Y, not every pair'},
    {'id': 'C26', 'title': 'Values are written as text and read from text without loss',
     'statement': 'The text of a numeric variable (enqc, enqs) is its stored integer in decimal, with a minus sign if it is negative; setting a numeric variable from such text (setc, sets, the constructors) stores that integer if it is in the domain, treats numbers too big for it as out of domain however long they are, and leaves the variable unset if the text is not a number. Text values are stored as given, cut to the length of the variable and terminated; binary values are stored byte by byte, cut or padded with zeros to the size of the variable, without the bits that exceed it. A formatted value (to a string or to a file) is the number scaled, with as many decimals as the scale of the variable and all its digits, the text itself, or two upper case hexadecimal digits per byte; an unset variable is formatted as the text asked for. Setting a number from its formatted text sets the number the text stands for.',
     'quant': 'every integer that a variable can hold, text of any length, every scale',
     'why': 'tests convert a handful of numbers and scales; errors in digits, saturation or truncation only show for particular numbers of digits, signs and scales',
     'files': ['wreport/var.cc', 'wreport/var.h'],
     'mech': [('numbers to text', 'wreport/var.cc Var::enqc, enqs, int32_to_str, uint32_to_str, count_digits'), ('text to numbers', 'wreport/var.cc Var::setc, sets, isnumber, str_to_unsigned'), ('text values', 'wreport/var.cc assign_c_checked, assign_b_checked'), ('formatting', 'wreport/var.cc Var::format, setf')],
     'technique': 'abstract interpretation of the IR of the members of Var with numbers as sums of symbolic digits, for every number of digits, and with symbolic text for every length',
     'note': 'text of numbers up to 26 digits and text values up to 6 characters; strtod and formatted output of doubles by the C library are trusted; scales from -16 to 16, as the tables have; the text "" and "-" are left unspecified'},
    {'id': 'C27', 'title': 'Subsets hold what is stored in them; bitmaps mark variables with the attribute',
     'statement': 'Storing a variable in a subset, by value or by code, adds exactly one variable at its end, with the definition of the code (or of the variable) and the value given, and changes nothing else. '
      'append_dpb adds a bitmap of exactly the size asked for, with + for each of the data variables of the subset, in order, that has the attribute, - for the others and for items past the last variable, and returns the number of +; '
      'append_fixed_dpb adds a bitmap of + only. Variables that are not data (operators, bitmaps) have no item in a bitmap, and no variable past the end of the subset is looked at. '
      'A bulletin gives the subset of the number asked for, adding those that are not there yet (obtain_subset) or reporting an error (subset), and a subset that is assigned to has the variables and tables of the other.',
     'quant': 'every code and value, subsets of any arrangement of data variables, operators and attributes, bitmaps shorter and longer than the subset',
     'why': 'tests build one subset with one bitmap; a bitmap that is one item off, or a read past the end, needs operators in the middle or at the end of the subset',
     'files': ['wreport/subset.cc', 'wreport/subset.h', 'wreport/bulletin.cc'],
     'mech': [('stores', 'wreport/subset.cc Subset::store_variable*'), ('bitmaps', 'wreport/subset.cc Subset::append_dpb, append_fixed_dpb, append_c_with_dpb'), ('subsets', 'wreport/bulletin.cc Bulletin::obtain_subset, subset')],
     'technique': 'abstract interpretation of the IR on abstract subsets, compared with a reference',
     'note': 'codes and values symbolic; arrangements enumerated up to 3 items (4 in thorough) and for some long ones'},
    {'id': 'C18', 'title': 'Options are per thread and off at first; scoped overrides end with their scope',
     'statement': 'Each thread has its own domain error options (var_silent_domain_errors, var_clamp_domain_errors, var_hook_domain_errors), which are off until that thread sets them; no call to the library changes them. '
      'An option overridden with local_override or LocalOverride has the new value while the override is in scope and, when the scope is left, exactly the value it had before, whether it is left normally, by a return or by an exception, '
      'whatever the code in the scope did to the option, and with overrides of the same or other options nested in it.',
     'quant': 'every previous and new value of every option, every way to leave the scope, nested and simultaneous overrides, every function of the library',
     'why': 'the tests override a plain int once and leave the scope normally; threads, exceptions and nesting are what overrides exist for',
     'files': ['wreport/options.h', 'wreport/options.cc', 'wreport/var.cc'],
     'mech': [('options', 'wreport/options.cc'), ('overrides', 'wreport/options.h LocalOverride, local_override'), ('uses', 'wreport/var.cc Var::assign_i_checked, assign_d_checked')],
     'technique': 'storage class and initialiser of the options in the IR, effect analysis of every function that mentions one, abstract interpretation of compiled uses of overrides on every exit',
     'note': 'overrides are followed in nine uses (witness/options.cc) for every combination of old and new values'},
]
NA = []
