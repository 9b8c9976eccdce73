
prop("C08", "In every encoding a pattern matches the encoded forms of what it denotes",
  "A pattern compiled for any encoding lightgrep lists, under any of its listed names and with any chain of transformations, matches exactly the byte sequences which encode (and are then transformed from) the character sequences it denotes, with hits on the byte offsets of those sequences. A character that the encoding cannot represent never matches; a pattern which then can match nothing is rejected with a message. Unknown encodings and malformed chains are rejected with a message and leave the other patterns working. The same pattern in several encodings matches in each of them independently. (Stateful encodings such as ISO-2022-*, and characters with one-way mappings, are left out of the exact comparison.)",
  ["programs", "inputs", "configurations"], "every listed encoding name, every transformation chain, every pattern over the encoding's characters, every text",
  "There are about 180 encodings with up to 1.1 million characters each; the tests spot-check a few characters of a few.",
  ["src/lib/icuencoder.cpp", "src/lib/encoderbase.cpp", "src/lib/utfbase.cpp", "src/lib/utf8.cpp", "include/encoders/utf16.h", "include/encoders/utf32.h", "src/lib/encoderfactory.cpp", "src/lib/oceencoder.cpp", "include/lightgrep/encodings.h"],
  [("ICU-backed encoders", "src/lib/icuencoder.cpp"), ("UTF encoders' ranges", "src/lib/utf8.cpp, include/encoders/utf16.h, include/encoders/utf32.h"), ("chains of charset and byte transformations", "src/lib/encoderfactory.cpp")],
  ["lg_add_pattern", "hit callback", "LG_PatternInfo.EncodingChain"], "property-based testing against per-character models built from ICU's converters and an independent transformation table",
  "Explored: every listed encoding is visited in each run, with random characters of each; not every character of the multi-byte encodings. Trusts ICU's single-character conversions.")

prop("C09", "Character classes denote exactly the characters Unicode and the syntax say",
  "A character class (ranges, escapes, predefined and POSIX classes, Unicode properties and names, nesting, complement, union, intersection, difference and symmetric difference, raw bytes, case folding) matches exactly the characters of the set it denotes, in every encoding: no boundary is off by one, no member is lost, none is invented. A class denoting nothing, or nothing in the encoding, is rejected, as are unknown property names.",
  ["programs", "inputs"], "every class expression, every character, in ASCII and Unicode mode and with case folding",
  "Sets over 1.1 million characters are encoded as byte-range automata; tests check a few members.",
  ["src/lib/re_grammar.ypp", "src/lib/parser.cpp", "src/lib/parseutil.cpp", "src/lib/utf8.cpp", "include/encoders/utf16.h", "include/encoders/utf32.h", "include/rangeset.h", "src/lib/icuutil.cpp"],
  [("set expressions", "src/lib/re_grammar.ypp"), ("properties by ICU", "src/lib/parseutil.cpp, src/lib/icuutil.cpp"), ("ranges to byte transitions", "src/lib/utfbase.cpp")],
  ["lg_parse_pattern, lg_add_pattern", "hit callback"], "property-based testing against set models built from ICU; exhaustive over all code points for part of the generated classes",
  "Explored: tens of thousands of class expressions, several hundred of them against every code point. Trusts ICU's property data.")

prop("C10", "Case-insensitivity and its inline switches follow Unicode simple case folding",
  "With the case-insensitive option or inside the scope of an inline switch, each character matches exactly the characters equivalent to it: under simple case folding in Unicode mode, A-Z and a-z only in ASCII mode; outside the scope it matches itself only. Switches take effect where they stand until the end of their group, whatever is nested around them. Changing the case of letters in a text changes no hit of a folded pattern.",
  ["programs", "inputs"], "every pattern, every placement of the switches, every cased character",
  "Scoping interacts with groups, alternations and repetition; folding has irregular orbits (Kelvin sign, long s, sigmas, dotted i).",
  ["src/lib/re_grammar.ypp", "src/lib/parser.cpp", "src/lib/parseutil.cpp", "src/lib/rewriter.cpp"],
  [("folding of literals and classes", "src/lib/parser.cpp, src/lib/parseutil.cpp"), ("scoped options", "src/lib/re_grammar.ypp")],
  ["hit callback"], "property-based testing against the reference matcher with ICU's case closure; metamorphic (case changes)",
  "Explored. Class expressions in ASCII mode with properties fold as Unicode, as the code always does.")

prop("C11", "Literals and escapes mean what they say",
  "A fixed-string pattern matches exactly its own characters, whatever they are; a pattern in which each character is written in any of its escaped forms (backslash, control escapes, octal, hex, braces, names, raw bytes) matches exactly those characters. Malformed escapes, unknown names, out-of-range code points and malformed UTF-8 are rejected with a message.",
  ["programs", "inputs"], "every string of characters and every way of writing each of them",
  "Each character has many spellings and meanings by context; tests check a few of each.",
  ["src/lib/re_grammar.ypp", "src/lib/parser.cpp", "src/lib/parseutil.cpp", "include/unicode.h", "src/lib/icuutil.cpp"],
  [("lexer", "src/lib/parser.cpp"), ("UTF-8 decoding", "include/unicode.h")],
  ["lg_parse_pattern", "hit callback"], "property-based testing against the reference matcher; negative testing of malformed input under AddressSanitizer",
  "Explored. Characters U+0000 in the middle of patterns are rejected by design.")

prop("C12", "Any text offered as a pattern is accepted or refused cleanly",
  "Whatever bytes are offered as a pattern, an encoding name or options, parsing and adding them either succeeds or fails with a negative or zero result and an error message, in bounded time, without crashing, corrupting memory, leaking or hanging; and a refusal leaves no trace: the pattern handle remains usable and the automaton matches exactly what it would have matched had the refused pattern never been offered, including when a pattern is refused only half way through being added.",
  ["programs", "inputs", "histories"], "every byte string as a pattern, every encoding name, every sequence of accepted and refused patterns",
  "Keyword lists come from users and are full of mistakes; one bad line may not spoil the search for the others.",
  ["src/lib/lightgrep_c_api.cpp", "src/lib/parser.cpp", "src/lib/re_grammar.ypp", "src/lib/parsetree.cpp", "src/lib/fsmthingy.cpp", "src/lib/nfabuilder.cpp", "include/c_api_util.h"],
  [("exceptions become errors at the C boundary", "include/c_api_util.h"), ("patterns are built apart and merged once good", "src/lib/fsmthingy.cpp, src/lib/nfabuilder.cpp")],
  ["lg_parse_pattern, lg_add_pattern, lg_create_program", "LG_Error", "hit callback"], "coverage-guided fuzzing and property-based testing under AddressSanitizer and UndefinedBehaviorSanitizer; metamorphic comparison with the automaton without the refused patterns",
  "Explored. Patterns up to a few hundred characters; very long (about 100,000 characters) patterns overflow the stack, see DESIGN.md.")

prop("C13", "Pattern lists mean what their lines say, and automata keep growing",
  "Adding a list of patterns has the effect of adding each line's pattern in each of its encodings with its options, in order, under its line's index; omitted columns take the defaults, any usual line end ends a line, and each line that fails is reported once, with message, pattern, encoding, source and line number, without affecting the others. Patterns may be added and programs made in any order: each program matches exactly the patterns added before it was made, and does not change afterwards.",
  ["inputs", "histories"], "every list of lines, every history of adding patterns and making programs",
  "Lists are split by a hand-written state machine with defaults and several failure points per line; automata are rewritten in place when a program is made.",
  ["src/lib/lightgrep_c_api.cpp", "src/lib/fsmthingy.cpp", "src/lib/nfaoptimizer.cpp", "src/lib/errors.cpp"],
  [("lg_add_pattern_list", "src/lib/lightgrep_c_api.cpp"), ("merging and finalizing", "src/lib/fsmthingy.cpp")],
  ["lg_add_pattern_list, lg_create_program", "LG_Error chain", "lg_prog_pattern_info, hit callback"], "property-based testing: lists against an independent splitter over the single-pattern calls; stateful histories against freshly built programs",
  "Explored. Lists of up to 9 lines, histories of up to a dozen steps.")

prop("C14", "A hit and its surroundings are decoded correctly",
  "For any buffer, hit, encoding and window sizes, decoding gives the characters of the hit and up to the requested number of characters before and after it, each with the offset at which it starts; undecodable bytes are given as bad values, one per byte, counted in the result; offsets increase and cover the bytes from the first to the last value without gap or overlap; the characters before the hit form the longest run that decodes up to it. The UTF-8 rendering has the same characters, with the replacement character for each bad value, and reports where the hit lies in it and which bytes it covers. A decoded hit of a literal is that literal.",
  ["inputs", "histories"], "every buffer, hit window, encoding, context size, base offset and sequence of uses of one decoder",
  "Leading context must be decoded backwards in encodings that only decode forwards; damaged and truncated text is the normal case in forensics.",
  ["src/lib/lightgrep_c_util.cpp", "src/lib/decoders", "include/decoders"],
  [("leading, hit and trailing windows", "src/lib/lightgrep_c_util.cpp"), ("decoders", "src/lib/decoders")],
  ["lg_read_window, lg_hit_context"], "property-based testing against an independent decoder (tables by ICU, UTF forms by hand, OCE learnt) and tiling invariants",
  "Explored. 21 encodings and chains incl. UTF-8/16/32, single- and multi-byte tables and OCE; stateful encodings (ISO-2022 etc.) are not covered. Where a hit ends inside a character only the tiling is checked.")

prop("C16", "The command line searches exactly its inputs and prints the library's hits",
  "Searching from the command line prints, for every input named (positional files, lists of files, standard input, directories with -r) in turn, exactly the hits the library finds in that input for the patterns given (keyword files or -p with the given encodings and options), with the right path, offsets, keyword number, pattern and encoding, whatever the block size, memory mapping or determinization depth. Nothing is carried over from one input to the next. Lines that are no valid pattern are reported and the rest are searched for; the exit status tells whether the search could be made.",
  ["inputs", "histories"], "every keyword list, every collection of input files and standard input, every combination of the options",
  "The command line reads blocks asynchronously, feeds one context with many inputs and has many ways to name patterns and inputs.",
  ["src/cmd/main.cpp", "src/cmd/options.cpp", "src/cmd/optparser.cpp", "src/cmd/reader.cpp", "src/cmd/searchcontroller.cpp", "src/cmd/lg_app.cpp", "src/cmd/hitwriter.cpp", "src/lib/errors.cpp"],
  [("inputs searched in order", "src/cmd/main.cpp"), ("blocks", "src/cmd/searchcontroller.cpp, src/cmd/reader.cpp"), ("hit lines", "src/cmd/hitwriter.cpp")],
  ["standard output, standard error, exit status of lightgrep"], "property-based testing of the executable, differential against the library",
  "Explored. Files of a few hundred bytes, block sizes from 1; unreadable inputs not covered (they end the search with an error).")

prop("C17", "A program written to a file and read back is the same program",
  "A pattern set compiled to a binary program file and searched with --program-file gives the same output as searching with the pattern set; the library reads the file as a program with the same patterns, indices and hits.",
  ["programs", "inputs"], "every pattern set, every input and way of searching",
  "The file is an image of memory read without conversion; what is not in it is lost silently.",
  ["src/cmd/main.cpp", "src/cmd/lg_app.cpp", "src/lib/program.cpp", "src/lib/lightgrep_c_api.cpp"],
  [("program images", "src/lib/program.cpp"), ("lg_read_program, lg_write_program", "src/lib/lightgrep_c_api.cpp"), ("program command and --program-file", "src/cmd/main.cpp, src/cmd/lg_app.cpp")],
  ["program file", "standard output of lightgrep"], "property-based testing: round trip, differential against searching with the patterns",
  "Explored. Same machine and build on both sides.")

prop("C18", "Context lines and histograms show the text around and in the hits",
  "With context options each hit line carries the offset and the text (in UTF-8, tabs and line ends escaped) of exactly the lines around the hit, the number asked for before and after, and hits are set apart by the separator. A histogram has exactly one line per keyword and hit text, with its number of occurrences over all inputs, in descending order of count, then by keyword number and text, whatever the block size and whether or not context or hits are printed.",
  ["inputs", "histories"], "every input, hit, line structure, context size, block size and combination with the other options",
  "Text of hits must be fetched from buffers that come and go while hits may span any number of them.",
  ["src/cmd/hitwriter.cpp", "src/cmd/searchcontroller.cpp", "src/cmd/main.cpp", "include/hitwriter.h", "src/lib/lightgrep_c_util.cpp"],
  [("line boundaries", "src/cmd/hitwriter.cpp"), ("buffers kept for unfinished hits", "src/cmd/searchcontroller.cpp"), ("counting and sorting", "src/cmd/hitwriter.cpp")],
  ["standard output and histogram file of lightgrep"], "property-based testing of the executable against a line and count model; text decoding by lg_hit_context (decided by C14)",
  "Explored. Line ends are bytes 0A, so encodings in which they are not are used for histograms only.")

prop("C19", "Validation and samples tell the truth about patterns",
  "lightgrep -c validate succeeds if and only if every pattern given is valid, and names each invalid one by file and number. lightgrep -c sample ends, and prints only texts which match one of the patterns, at least one and no more than asked for.",
  ["programs"], "every pattern set, limit and loop limit",
  "Samples come from random walks on graphs with loops and dead ends.",
  ["src/lib/matchgen.cpp", "src/cmd/main.cpp", "src/cmd/lg_app.cpp", "src/lib/errors.cpp"],
  [("random walk", "src/lib/matchgen.cpp"), ("commands", "src/cmd/main.cpp")],
  ["standard output, standard error, exit status of lightgrep"], "property-based testing of the executable against the library's verdicts and the reference matcher",
  "Explored. Samples are checked for membership in the language, not for which of several overlapping matches the search would prefer.")

prop("C20", "The Python bindings behave as the C library does",
  "Whatever is done through the Python package (patterns parsed and added one by one or in bulk with any user index; programs made, written, and read back from any kind of buffer, the buffer being let go; searches, starts_with, closeouts, resets and hit contexts over bytes, bytearray, memoryview or mmap) gives the hits, offsets, counts, return values and strings the C library gives; what the library refuses raises an exception holding its message; handles used after close() raise and do not crash.",
  ["inputs", "histories"], "every history of calls and every buffer",
  "The ctypes prototypes restate the C header by hand, and nothing but testing ties them to it; object lifetimes are the collector's.",
  ["pylightgrep/lightgrep/__init__.py"],
  [("prototypes and handles", "pylightgrep/lightgrep/__init__.py")],
  ["return values, hits and exceptions of the Python package"], "stateful property-based testing: random histories carried out by a Python interpreter and by the C library, transcripts compared",
  "Explored. Patterns holding NUL are left out (C strings).")
prop("C21", "The Java bindings behave as the C library does",
  "Whatever is done through the Java classes (patterns with any characters; user indices read and set; programs compiled, written into and read back from arrays; searches, startsWith, closeouts, resets and hit contexts over arrays, slices and direct, wrapped or read-only buffers at any position, whose position does not move; callbacks that throw) gives the hits, offsets, counts and strings the C library gives; arguments out of bounds, bad patterns and destroyed handles raise the documented exceptions and never crash the JVM; memory use does not grow with the number of hits.",
  ["inputs", "histories"], "every history of calls, every buffer and every garbage collection",
  "Native code gets arrays the collector moves, strings in another encoding, and exceptions thrown through it.",
  ["src/java/jni/jlightgrep.cpp", "src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java", "src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java", "src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java"],
  [("native side", "src/java/jni/jlightgrep.cpp"), ("argument checks", "src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java")],
  ["return values, hits and exceptions of the Java classes"], "stateful property-based testing: random histories carried out by a JVM and by the C library, transcripts compared",
  "Explored. search() returns the library's 64-bit value cut to int, as its signature has it; contexts are not used after the program they were made from has been destroyed.")
prop("C22", "Resolving a range gives exactly the hits which start in it",
  "When a text has been searched up to some offset and lg_search_resolve is then fed what follows (in pieces of any size) and the search is closed out, the hits are exactly those of the whole text which start before that offset: those in progress are completed with the extents they have in the whole text, none is lost, and none starting at or past the offset is reported. Every value returned by lg_search and lg_search_resolve is an offset before which no later hit starts, and never moves back. Ranges of a text searched so, each on its own, together give the hits of the whole text when no two occurrences of the keywords overlap.",
  ["inputs", "histories"], "every pattern set, text, place where the range ends, cutting into buffers and starting offset",
  "No test calls it with more than a few patterns; it runs old threads without starting new ones, and stops early.",
  ["src/lib/vm.cpp", "src/lib/lightgrep_c_api.cpp", "include/lightgrep/api.h"],
  [("running threads without starting new ones", "src/lib/vm.cpp"), ("bound on further hits", "src/lib/vm.cpp")],
  ["hits, return values of lg_search and lg_search_resolve"], "metamorphic property-based testing: search and resolve against one search of the whole text",
  "Explored. What the whole text's hits are is decided by C01 and C02.")
