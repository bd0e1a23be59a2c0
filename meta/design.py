# What is decided for each property: (asserted and against what oracle, outside the bounds, why solver-based checking reaches it).
DESIGN = {
"P01": ("The string is written as an indirect object or array item. The reader of 7.3.4 (escapes, octal codes, line continuation, balanced parentheses, hexadecimal digits) must return the same bytes, and the next token must be the one written behind it. The reader's decisions on each byte are terms, so one path stands for many strings.",
        "longer strings, except that escaping is per byte and the balance check only sees parentheses, which the 6-byte entry covers",
        "the balance check makes the spelling of each byte depend on all others; 2^32 strings per entry cannot be sampled"),
"P02": ("The string token is decoded as PDFDocEncoding (Annex D, written out in the harness), UTF-16BE or UTF-8, by its byte-order mark, and must be the text's scalar values, surrogate pairs included; with language marks each part must be preceded by ESC, language, region, ESC. `LanguageIdentifier::from_lang`'s result is compared with the definition of its argument.",
        "texts with U+001B (the escape character itself), longer texts (encoding is one decision per text and a per-character loop)",
        "the choice of encoding depends on every character; a wrong entry in one of 1.1 million is invisible to samples"),
"P03": ("As for P01 with the reader of names (7.3.5, `#xx`), as value, as key before each kind of value, and before a number. Distinctness is asserted directly on the bytes of two symbolic names.",
        "arbitrary names of more than 4 bytes (escaping is per byte)", "escaping is per byte value and the token's end depends on what follows"),
"P04": ("The token must be a PDF number whose value is the given one. Integers: digits are solver variables constrained by their decimal contract. Floats: the spelling used by the symbolic build is injective on bit patterns and has the shape (point, exponent) of the real formatter's output, so a wrong formatter, threshold, or conversion is visible. Native replay on path models uses the real digits and an exact decimal comparison.",
        "the digits produced by `itoa`, `ryu` and `core` are trusted; non-finite floats, which have no spelling in PDF",
        "2^32 floats and three formatters switching on value thresholds"),
"P05": ("An independent parser of 7.9.4 reads the token; each field must be the clamped argument, and omitted ones absent, the offset's sign and minutes included.",
        "", "nine independently optional fields, each with clamping"),
"P06": ("The list of objects read must equal the list written, for both modes; compact output must have the same tokens as pretty.",
        "sequences of more than three neighbours (separation is decided per pair), longer tokens",
        "a decision per pair of token kinds and their first and last bytes"),
"P07": ("A tree drawn by the selectors is written through the API and read back; it must be equal, closed once, terminated by one `endobj`. `len`/`is_empty` are compared with a count kept by the harness after every step.",
        "trees with more than three levels of branching, leaked writers (`mem::forget`)",
        "every interleaving of open, write and end"),
"P08": ("Length, the bytes between `stream` and `endstream`, one end-of-line marker on each side; all entries of the dictionary; filter and predictor tables.",
        "stream data of more than about 300 bytes (the length itself is P21 around 2^31)",
        "data may look like framing; lengths at digit boundaries"),
"P09": ("The file is read as a reader would: startxref, table, every 20-byte line. For identifiers in use the offset must be where the harness' own scan finds `N 0 obj`. The others must form the list 0 → free₁ → … → 0 in ascending order.",
        "identifiers above 1001, files above 100 kB; more than five identifiers other than in runs",
        "the list depends on the whole set of identifiers and the order of writing"),
"P10": ("As P09 on the decoded stream: W is read, entries are split by it, types 0/1/2 checked, offsets compared with a scan of the file, the stream's own entry included; Index/Size/Root/Info/ID; filters in decoding order and the data exactly what the closure returned.",
        "offsets and identifiers that need four or more bytes",
        "field widths are decided by file size and the largest identifier"),
"P11": ("Header line, comment and marker bytes, every trailer entry against a model of the setters; both ways to finish.",
        "identifiers of more than 2 bytes (strings as such are P01)", "all orders and repetitions of setters"),
"P12": ("Two histories are run in one harness: everything directly, and distributed over chunks; bytes, refs, limits and finished files must be equal.",
        "more than three objects, capacities other than the chosen ones", "2-safety: a relation between two runs"),
"P13": ("Both chunks are read; objects must correspond one by one and differ only by the mapping. Look-alikes are placed in strings, names, keys and streams with symbolic neighbours.",
        "strings of more than 6 bytes, chunks not written by this crate except the bare references of `p13_bare`",
        "a scanner over arbitrary bytes"),
"P14": ("A model keeps the maxima over everything the harness writes; each accessor of `Limits` must agree. In the symbolic build reals are compared by bit patterns.",
        "", "running maxima over any history and merges"),
"P15": ("A table of all 81 operator methods with the keyword and operand order of Annex A; the stream read back must be exactly the operations written.",
        "sequences of more than three operations other than the chained one", "operand order per method, separation between operations"),
"P16": ("A reader for CMap programs (tokens, `begincodespacerange`, `beginbfchar` blocks) recovers the mapping; counts of at most 100; comments and header may not leak into the program.",
        "more than 301 pairs", "block boundaries and hexadecimal forms over all identifiers and texts"),
"P17": ("A reader of type 4 programs yields the operator list; equality with the one given.", "nesting deeper than 4", "recursive structure with all operand values"),
"P18": ("`harness/src/typed/*` holds one case per method (`c!`: call, key, expected value written from the standard's tables). Single: symbolic arguments. Pair: any two methods in sequence, both entries must be there and nothing else. Starting methods: Type/Subtype entries.",
        "three or more methods in sequence; keys the standards do not define (taken from the crate's documentation)",
        "some six hundred methods, all arguments"),
"P19": ("A table of value and spelling per enumeration, from the standard; distinctness by construction of the tables (checked).",
        "", "exhaustive over values, through the public writers"),
"P20": ("One symbolic bit per flag; the integer read must be the sum of the standard's bits.", "", "2^n combinations"),
"P21": ("`panic_ok(cond)`: a panic is allowed exactly if the documented precondition fails; reaching the end is an error if it should have failed. Everywhere else in all harnesses any reachable panic is a violation.",
        "NaN as guarded argument; leaked writers; identifiers for which `Size` exceeds `i32::MAX`; a second tint transform on Separation",
        "preconditions are about all histories of calls"),
"P22": ("Tables of both vocabularies from ISO 32000-1/2 and ISO/TS 32005.", "the PDF 1.7 subtype of Ruby and Warichu elements is left open; Quote→Em, Note→FENote, Reference→Link, Code→Strong are the crate's own choice and are fixed as they are",
        "all 65536 heading levels × options"),
"P23": ("Arithmetic identities over all i32, ordering, hashing and use in sets and files.", "", "edges of the number range"),
"P24": ("Tables 63–75 of the standard per colour space; presets against chromaticities in the harness by Cramer's rule; histories of the special spaces.",
        "preset parameters beyond three decimals; DotGain of DeviceN mixing hints is taken to be a number as the crate documents, though the standard may want functions",
        "positions, optional parameters and their combination"),
"P25": ("The bytes must be the concatenation of the bytes of each operation; depth against a counter of the harness.", "sequences of more than 12", "histories with unbalanced restores"),
}
