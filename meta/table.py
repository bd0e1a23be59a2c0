P("P01", "String objects read back as exactly the bytes that were written",
  "Whatever bytes a user writes as a PDF string, and wherever it stands, a conforming reader of the output recovers a string object with exactly those bytes. The token ends where the string ends, so nothing behind it is swallowed or exposed.",
  ["inputs", "configurations"], "all byte strings, literal and hexadecimal form, pretty and compact mode",
  "unit tests sample about ten strings; escaping depends on every byte value and on parenthesis balance",
  ["src/object.rs"], [("Str::write", "src/object.rs: impl Primitive for Str"), ("Str::is_balanced", "src/object.rs")])
P("P02", "Text strings denote the text, and the language marks, that were written",
  "For every Unicode text, the written text string denotes exactly that text by the rules for text strings (PDFDocEncoding or UTF-16BE with byte-order mark). A text with language marks additionally carries each part's language and, where given, region as an escape sequence before that part and nothing else.",
  ["inputs"], "all Unicode texts without U+001B, all ASCII language and region codes of two letters, any number of parts",
  "tests write a handful of texts; choosing the encoding and forming surrogate pairs depends on every scalar value",
  ["src/object.rs"], [("TextStr::write", "src/object.rs"), ("TextStrWithLang::write", "src/object.rs"), ("LanguageIdentifier::from_lang", "src/object.rs")])
P("P03", "Names read back as exactly the bytes that were written",
  "Whatever bytes a user writes as a name or as a dictionary key, a conforming reader recovers exactly these bytes and the token ends with the name. Two different names never have the same spelling.",
  ["inputs", "configurations"], "all byte strings as names and keys, all kinds of following value, pretty and compact mode",
  "tests write a few names; escaping is a per-byte decision and token ends depend on what follows",
  ["src/object.rs"], [("Name::write", "src/object.rs: impl Primitive for Name"), ("is_regular_character", "src/object.rs")])
P("P04", "Numbers denote exactly the value that was written",
  "Every 32-bit integer and every finite 32-bit float is written as one PDF number token that denotes exactly this value: decimal digits, at most one sign and one point, never an exponent. No value is rounded, saturated or wrapped on the way.",
  ["inputs"], "all i32 and all finite f32 values",
  "tests sample fewer than ten numbers; the writer switches between three formatters on value-dependent thresholds",
  ["src/buf.rs", "src/object.rs"], [("Buf::push_int", "src/buf.rs"), ("Buf::push_float", "src/buf.rs"), ("Buf::push_decimal", "src/buf.rs")])
P("P05", "Dates are valid date strings of the given fields",
  "For every combination of given and omitted date fields and every field value, the output is a syntactically valid PDF date string whose fields are the given ones limited to their calendar ranges. Fields behind the first omitted one do not appear, and a given time zone appears once all fields down to the seconds are present.",
  ["inputs"], "all u16 years, all u8 field values, all i8 offsets, all subsets of fields set",
  "tests write two dates; every field is independently optional and clamped",
  ["src/object.rs"], [("Date setters and Primitive for Date", "src/object.rs: struct Date")])
P("P06", "Neighbouring tokens stay separate; compact output means the same as pretty",
  "Any sequence of objects written into arrays, dictionaries or behind one another reads back as exactly the same sequence of objects, in pretty and in compact mode. Compact mode changes white space only, never the meaning.",
  ["inputs", "configurations", "programs"], "all sequences of values of every kind, all keys, pretty and compact mode",
  "tests try a few pairs in one order; separation is a decision per pair of adjacent tokens",
  ["src/object.rs", "src/chunk.rs"], [("Obj / Array::push / Dict::insert padding", "src/object.rs"), ("Primitive::STARTS_WITH_DELIMITER, is_delimiter_character", "src/object.rs")],
  [("needs_padding", "whether a separator is required before the next token", "src/object.rs: struct Obj")])
P("P07", "Containers nest and close exactly as they were opened",
  "However array, dictionary and typed writers are nested and ended (finish, drop, end of scope or chained calls), each container holds exactly what was written into it, is closed once, and its indirect object is terminated once. A writer's length is the number of its direct children.",
  ["programs", "histories", "configurations"], "all call sequences over array, dictionary, typed array, typed dictionary and special writers, any depth, pretty and compact mode",
  "tests show a few fixed shapes; the guarantee is about every interleaving of opening, writing and ending writers",
  ["src/object.rs"], [("Drop for Array, Dict and typed writers", "src/object.rs"), ("Finish, Writer, Rewrite", "src/object.rs")],
  [("indent, indirect, len", "nesting depth, whether to terminate an indirect object, number of children", "src/object.rs: struct Array, struct Dict")])
P("P08", "Streams carry exactly the given bytes and declare their length",
  "Every stream object declares the length of its data and holds exactly the given bytes between its keywords, whatever the bytes are and whatever entries are added to its dictionary. Its filter and decode parameters appear with their standard names and values, and every typed stream identifies its type.",
  ["inputs", "programs", "configurations"], "all stream data, all dictionary entries, all kinds of stream",
  "tests write empty or short fixed streams",
  ["src/object.rs", "src/chunk.rs"], [("Stream::start and Drop", "src/object.rs"), ("Chunk::stream and typed stream constructors", "src/chunk.rs")])
P("P09", "The cross-reference table locates every object and chains the free ones",
  "In a finished file the cross-reference table has exactly one 20-byte entry per identifier from zero to the highest one used: each written object's entry holds the byte offset at which that object starts, and every other entry is free and linked into one list that visits all free entries in ascending order and returns to zero. The offset after startxref is that of the table.",
  ["histories", "inputs", "configurations"], "all sets and orders of object identifiers, any object sizes, any gaps, pretty and compact mode",
  "tests check four fixed identifier lists; the free list and the offsets depend on the whole history",
  ["src/lib.rs"], [("write_offsets", "src/lib.rs"), ("PlainXRefWriter", "src/lib.rs"), ("finish_trailer", "src/lib.rs")],
  [("offsets", "identifier and start of every object", "src/chunk.rs: struct Chunk")])
P("P10", "The cross-reference stream locates every object and chains the free ones",
  "In a file finished with a cross-reference stream, decoding that stream by its declared field widths gives exactly one entry per identifier from zero to the highest one used: the right byte offset for every object including the stream itself, and a complete ascending free list for the others, no field being truncated. The stream's dictionary carries the trailer entries and the filters that were applied, and startxref points to it.",
  ["histories", "inputs", "configurations"], "all sets and orders of object identifiers, file sizes across field-width boundaries, filter closures",
  "one test with six objects in a tiny file; field widths only matter beyond one byte",
  ["src/lib.rs"], [("finish_with_xref_stream_inner", "src/lib.rs"), ("XRefStreamWriter", "src/lib.rs"), ("determine_field_width", "src/lib.rs")])
P("P11", "The file frame: header, version, binary marker, trailer entries",
  "Every finished file starts with a header line with the version that was set and a comment with the binary marker that was set, and ends with the end-of-file marker. The trailer holds Size (one more than the highest identifier), Root and Info exactly if a catalog and an information dictionary were started, the last started one counting, and ID with exactly the given two byte strings exactly if a file identifier was set.",
  ["histories", "inputs", "configurations"], "all versions, markers, file identifiers, presence and order of catalog and document information, both ways to finish",
  "tests set one version and one marker",
  ["src/lib.rs"], [("Pdf::with_settings_and_capacity, set_version, set_binary_marker", "src/lib.rs"), ("TrailerData::write_into_dict", "src/lib.rs")],
  [("trailer_data", "what the trailer will say", "src/lib.rs: struct Pdf")])
P("P12", "Chunks assemble without loss: extending equals writing in place",
  "Writing objects into separate chunks and adding these to another chunk or to a file gives the same bytes, the same list of object identifiers in order, the same limits and the same cross-reference as writing them there directly, whatever the capacities. Accessors never change a chunk.",
  ["histories", "configurations", "programs"], "all divisions of a history of objects over chunks, any nesting of chunks, any capacity",
  "no test extends more than one chunk",
  ["src/chunk.rs", "src/buf.rs"], [("Chunk::extend", "src/chunk.rs"), ("Buf::extend_buf", "src/buf.rs"), ("Chunk::refs", "src/chunk.rs")])
P("P13", "Renumbering maps identifiers and references and changes nothing else",
  "Renumbering a chunk with any mapping yields the same sequence of objects in which every object identifier and every indirect reference, and nothing else, is replaced by its image. Strings, names, numbers and stream data that look like references or like object framing are untouched, and the offsets of the result are right.",
  ["inputs", "programs", "histories"], "all chunks the crate can write, any mapping of identifiers",
  "one test with three objects; the scanner must classify every byte of arbitrary contents",
  ["src/renumber.rs", "src/chunk.rs"], [("renumber, extract_object, patch_object, validate_ref", "src/renumber.rs")])
P("P14", "Reported limits cover everything that was written",
  "The limits a chunk or content stream reports are the maxima over everything written into it: integers, reals, name lengths, string lengths, array lengths and dictionary entries. Combining chunks or limits takes the maximum field by field.",
  ["histories", "inputs"], "all values and container sizes, all ways of writing them, all combinations of chunks",
  "two tests with fixed contents",
  ["src/buf.rs", "src/object.rs"], [("Limits::register_*, Limits::merge", "src/buf.rs")],
  [("limits", "running maxima", "src/buf.rs: struct Buf")])
P("P15", "Content operators: right operator, operands in the documented order",
  "Every content-stream method writes its operands in the documented order and then its operator keyword, separated so that a reader recovers exactly this sequence of operations, in pretty and in compact mode. Operators with nested writers (text positioning, marked-content properties, inline colours) end with their keyword after everything written into them.",
  ["inputs", "programs", "configurations"], "all operator methods, all operand values, any sequence of operations",
  "tests cover about eight operators with fixed operands",
  ["src/content.rs"], [("Operation and its Drop", "src/content.rs"), ("Content methods", "src/content.rs")])
P("P16", "The ToUnicode CMap maps exactly the given glyphs to the given text",
  "A reader of the produced character map recovers exactly the added glyph-to-text pairs, for single- and multi-byte glyph identifiers and any Unicode text, in declared blocks of at most one hundred entries whose declared count is the real one. Header fields are those given and cannot disturb the program's syntax.",
  ["inputs", "histories"], "all glyph identifiers, all texts, any number of pairs, all names and system information",
  "no test covers the map",
  ["src/font.rs"], [("UnicodeCmap::pair_with_multiple, flush_range, finish", "src/font.rs")],
  [("count", "pairs in the open block", "src/font.rs: struct UnicodeCmap")])
P("P17", "PostScript calculator functions spell exactly the given program",
  "Encoding a list of calculator operators yields a braced program which a reader of type 4 functions decodes to exactly that list, nested conditionals included. Reals stay reals and integers stay integers.",
  ["inputs", "programs"], "all operator sequences and nestings, all operand values",
  "one test with one program",
  ["src/functions.rs"], [("PostScriptOp::encode, write", "src/functions.rs")])
P("P18", "Typed dictionary writers emit the documented key with the given value",
  "Each method of a typed writer adds exactly one entry, under the key that the standard defines for what the method documents, with a value of the right type that denotes exactly the argument; mandatory Type and Subtype entries are there from the start. It neither disturbs nor drops what was written before and after.",
  ["inputs", "programs", "configurations"], "all methods of all typed writers, all argument values, pretty and compact mode",
  "tests touch about five of some six hundred methods",
  ["src/structure.rs", "src/annotations.rs", "src/attributes.rs", "src/actions.rs", "src/color.rs", "src/font.rs", "src/forms.rs", "src/functions.rs", "src/files.rs", "src/xobject.rs", "src/renditions.rs", "src/transitions.rs"],
  [("typed writers", "src/*.rs: writer!(...) and impl blocks")])
P("P19", "Enumeration values have their standard and pairwise distinct spelling",
  "Every value of every public enumeration that is written to a file appears with the spelling the standard defines for it. Different values of one enumeration never have the same spelling.",
  ["inputs", "programs"], "all values of all public enumerations",
  "tests reach a few values",
  ["src/structure.rs", "src/annotations.rs", "src/attributes.rs", "src/actions.rs", "src/color.rs", "src/font.rs", "src/forms.rs", "src/content.rs"],
  [("to_name / to_str / to_int tables", "src/*.rs")])
P("P20", "Flag sets are written as the integer with exactly the standard bits",
  "Every combination of flags is written as one integer in which exactly the bits that the standard assigns to these flags are set.",
  ["inputs"], "all combinations of all flag sets",
  "no test writes flags",
  ["src/annotations.rs", "src/forms.rs", "src/font.rs", "src/actions.rs", "src/structure.rs"], [("bitflags! tables and writers", "src/*.rs")])
P("P21", "Guarded calls panic exactly on the documented misuse",
  "Calls with a documented precondition panic when it is violated and never otherwise, and no other call panics on any argument. What is documented as an error cannot silently produce a malformed file.",
  ["inputs", "histories"], "all arguments and call orders of the methods with a documented panic",
  "two should_panic tests",
  ["src/color.rs", "src/content.rs", "src/object.rs", "src/lib.rs", "src/structure.rs"], [("assert! and panic! guards", "src/*.rs")])
P("P22", "Structure roles convert consistently between PDF 1.7 and PDF 2.0",
  "Converting a structure role between the PDF 1.7 and 2.0 vocabularies gives the role of the same name where both have one, reports a role map entry exactly where they do not, and heading levels are preserved. Role spellings and their classification follow the standard.",
  ["inputs"], "all roles, all heading levels, all conversion options",
  "no test covers the conversion",
  ["src/structure.rs"], [("StructRole::into_pdf_2_0, StructRole2::compatibility_1_7, role_type", "src/structure.rs")])
P("P23", "References: allocation is strictly increasing and identity is preserved",
  "A reference keeps the identifier it was made with, references are ordered by identifier, and allocating yields consecutive, never repeated, positive identifiers. Identifiers that are not positive are rejected.",
  ["inputs", "histories"], "all i32 identifiers, any allocation history",
  "no test of the edges",
  ["src/object.rs"], [("Ref::new, Ref::next, Ref::bump", "src/object.rs")])
P("P24", "Colour spaces, shadings and patterns are written in their standard form",
  "Each colour space is written as the name or array the standard prescribes, with its parameters in the prescribed positions and under the prescribed keys, for every argument; a preset has the white point, gamma and primaries of the space it is named after. Special colour spaces can only be completed in the prescribed order.",
  ["inputs", "programs", "histories"], "all colour space constructors and parameters, all shading and pattern writers",
  "tests cover one DeviceN example",
  ["src/color.rs"], [("ColorSpace methods", "src/color.rs"), ("Separation, DeviceN state machine", "src/color.rs")])
P("P25", "Content streams account for nesting and keep what was written so far",
  "A content stream's bytes are exactly the operations written so far, in order, each on its own, whatever writers were used, and finishing returns these bytes and the limits unchanged. The reported graphics-state nesting depth is the number of saves not yet restored, where a restore without a save counts nothing.",
  ["histories", "inputs"], "all sequences of operations including unbalanced save and restore",
  "tests look at single operators",
  ["src/content.rs"], [("Content::save_state, restore_state, finish", "src/content.rs")],
  [("q_depth", "current nesting of saves", "src/content.rs: struct Content")])
