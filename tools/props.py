NOT_APPLICABLE = {}
PROPS = [
dict(id="C01", title="Scanning yields the longest match, lowest alternative on ties",
 statement="For every supported pattern without lazy quantifiers and every input, repeated scanning yields back-to-back tokens, each being the longest non-empty prefix of the remaining input that the pattern matches. Each token is labelled with the number of the first top-level alternative that matches exactly that text. Scanning reports no token precisely when no non-empty prefix of the remaining input matches, and the end of input is reported only there.",
 over=["inputs", "programs"], quant="all patterns (every spelling of literals, classes, groups, repeats, modifiers, quoted strings, string/regex mixes of alternatives) x all byte inputs",
 why="The tests compare a few hundred fixed pattern/input pairs; DFA construction merges string and regex alternatives, modifiers and character classes in ways that only show for particular combinations.",
 files=["lib/pattern.cpp", "include/reflex/pattern.h", "lib/matcher.cpp", "include/reflex/matcher.h"],
 mech=[("parse to followpos positions", "lib/pattern.cpp Pattern::parse*"), ("DFA construction with string-tree merge", "lib/pattern.cpp Pattern::compile"), ("opcode encoding", "lib/pattern.cpp Pattern::assemble"), ("longest-match loop", "lib/matcher.cpp Matcher::match")],
 observe=["Matcher::scan(), accept(), text(), first(), at_end()"]),
dict(id="C02", title="Searching finds every leftmost-longest match, none skipped or invented",
 statement="For every pattern and input, repeated searching returns exactly the sequence of leftmost, non-empty, longest matches, each starting at the first position at or after the end of the previous one where a match exists. The result does not depend on the length or shape of the pattern (single characters, strings, required prefixes, few or many needles, minimum length), on how much text is skipped between matches, on where a match lies relative to internal buffer or vector boundaries, or on the instruction set the library was compiled for.",
 over=["inputs", "programs", "configurations"], quant="all patterns x all inputs (including sparse matches in long texts and matches at buffer edges) x scalar, SSE2 and AVX2 builds",
 why="Search acceleration has more than ten code paths chosen from pattern statistics, each with SIMD and scalar versions; tests run one build and short inputs.",
 files=["lib/matcher.cpp", "lib/pattern.cpp", "include/reflex/pattern.h", "include/reflex/matcher.h"],
 mech=[("needle, bitap, predict-match heuristics", "lib/pattern.cpp analyze_dfa, gen_predict_match"), ("advance functions", "lib/matcher.cpp Matcher::advance*")],
 observe=["Matcher::find(), accept(), first(), size()"]),
dict(id="C03", title="Split partitions the input; matches() accepts exactly the full matches",
 statement="Splitting an input yields pieces which, interleaved with the leftmost-longest separators in between, reproduce the input exactly, with one last piece (possibly empty) after the last separator. A full-match test succeeds if and only if some alternative matches the whole input, and it then identifies the first such alternative.",
 over=["inputs", "programs"], quant="all patterns x all inputs",
 why="Tests cover a handful of separators and inputs; empty pieces at the edges and ties between alternatives depend on the combination.",
 files=["lib/matcher.cpp", "include/reflex/absmatcher.h", "include/reflex/matcher.h"],
 mech=[("SPLIT and MATCH methods", "lib/matcher.cpp Matcher::match"), ("matches()", "include/reflex/absmatcher.h")],
 observe=["Matcher::split(), matches(), accept(), text()"]),
dict(id="C04", title="Regex syntax conversion preserves the documented meaning",
 statement="A regex written in the documented syntax for use by RE/flex scanners (characters in every escape, quoted text, bracket lists with ranges, categories and set operations, groups, repeats, inline modifiers, free spacing, comments, named definitions, basic or extended syntax), converted with any combination of conversion flags (Unicode, lex quoting, case-insensitive, dot-all, free-space, permissive and so on) and compiled, matches exactly the texts that the documentation says it matches. The conversion accepts every such regex.",
 over=["inputs", "programs", "configurations"], quant="all documented regexes (lazy repeats and anchors aside) x converter flags x texts of ASCII, Unicode or (without Unicode mode) arbitrary bytes",
 why="The converter is a 2000-line character-level rewriter with dozens of flags and modes that interact; tests convert some 200 fixed regexes and mostly compare the text of the result.",
 files=["lib/convert.cpp", "include/reflex/convert.h", "lib/posix.cpp", "lib/pattern.cpp"],
 mech=[("regex rewriting", "lib/convert.cpp reflex::convert"), ("bracket lists", "lib/convert.cpp insert_list, convert_ranges"), ("modifiers", "lib/convert.cpp enable_modifier, is_modified")],
 observe=["Matcher::convert(), reflex::convert(), then Matcher::matches()"]),
dict(id="C13", title="UTF-8 conversions are exact, safe and never swallow valid text",
 statement="Encoding a code point gives its unique shortest UTF-8 sequence and decoding that sequence gives the code point back, for all code points. Decoding any other byte sequence (truncated, overlong, out of range, stray continuation bytes) yields the library's invalid-character code, except that C0 80 and encoded surrogates are tolerated, always advances at least one byte and never consumes a byte that is not a continuation byte of the sequence. Converting matched text to wide strings gives exactly the decoded characters and never reads beyond the matched text.",
 over=["inputs"], quant="all code points, all byte sequences of up to 6 bytes, all texts",
 why="Only a few characters are sampled by tests, while the decoder has a branch per lead byte class and per length.",
 files=["include/reflex/utf8.h", "lib/utf8.cpp", "include/reflex/absmatcher.h"],
 mech=[("utf8() encoder and from_utf8() decoder", "include/reflex/utf8.h"), ("wcs(), wstr(), wchr()", "include/reflex/absmatcher.h, include/reflex/convert.h")],
 observe=["reflex::utf8(), from_utf8(), wcs()", "AbstractMatcher::wstr(), wpair(), wchr()"]),
dict(id="C14", title="Code point ranges become exactly the right UTF-8 regexes",
 statement="For every code point range [a,b], the strict UTF-8 regex generated for it matches exactly the UTF-8 encodings of the code points in the range (surrogates included), and nothing else. The permissive form matches all of these and no valid encoding of a code point outside the range. This holds in every escape and grouping style.",
 over=["inputs", "configurations"], quant="all ranges 0 <= a <= b <= 0x10FFFF x strict/permissive x escape styles x capturing or not",
 why="There are 6e11 ranges and the construction branches on each byte of both bounds; tests cover a few scripts.",
 files=["lib/utf8.cpp", "include/reflex/utf8.h"],
 mech=[("range splitting by encoding length and shared prefix", "lib/utf8.cpp reflex::utf8(int, int, int, const char*, bool)")],
 observe=["reflex::utf8(a, b, esc, par, strict)"]),
dict(id="C15", title="Character categories match exactly the documented characters",
 statement="Every Unicode category, script, block and identifier class usable as \\p{...} (and \\s, \\d, \\w, \\l, \\u, \\h) in Unicode mode matches exactly the characters that the Unicode Character Database shipped with the sources, or the manual, assigns to it; complements match exactly the other valid characters, alone and in bracket lists. POSIX categories and ASCII escapes match exactly the documented ASCII characters when Unicode mode is off. Surrogates are never matched by complements.",
 over=["inputs", "programs"], quant="all categories x all code points x plain, complemented, in-list and in-complemented-list use",
 why="600 tables of up to thousands of ranges; tests touch a few.",
 files=["lib/unicode.cpp", "lib/posix.cpp", "unicode/block_scripts.cpp", "unicode/language_scripts.cpp", "unicode/letter_scripts.cpp", "lib/convert.cpp", "lib/pattern.cpp"],
 mech=[("category tables", "unicode/*_scripts.cpp, lib/posix.cpp"), ("category expansion", "lib/convert.cpp convert_unicode_ranges, insert_escape_class, insert_posix_class, unicode_class"), ("POSIX classes of the matcher", "lib/pattern.cpp Pattern::posix, parse_esc")],
 observe=["Unicode::range(), Posix::range()", "Matcher::convert() then Matcher::scan()"]),
dict(id="C20", title="Range sets and bit sets behave as mathematical sets",
 statement="The interval-set and open-ended interval-set classes, the bit-vector class and the set operations on standard sets behave as mathematical sets of values under any sequence of insertions, erasures, unions, intersections, differences, complements, shifts, copies and assignments (also of an object with itself). Ranges are kept disjoint and merged, iteration is in order and complete, membership, containment, intersection and subset tests and comparisons agree with the sets, and comparison is a total order consistent with equality.",
 over=["inputs", "histories"], quant="all operation sequences over small and large values",
 why="Tests insert a handful of ranges; merging and splitting depends on adjacency of several ranges and word boundaries.",
 files=["include/reflex/ranges.h", "include/reflex/bits.h", "include/reflex/setop.h"],
 mech=[("Ranges/ORanges insert, erase, set operators", "include/reflex/ranges.h"), ("Bits word operations", "include/reflex/bits.h"), ("is_subset, set_insert, lazy_intersection, lazy_union", "include/reflex/setop.h")],
 observe=["the public operations of Ranges, ORanges, Bits and setop.h"]),
dict(id="C10", title="Positions, lines and columns of a match are those of the whole text",
 statement="After each match, the line number, column number (tabs and UTF-8 multibyte characters counted as documented), border, byte offsets, number of lines and columns, ending line and column, the text of the line, and the matched text in all its forms are those computed from the whole input. This holds for scanning, searching and splitting, for any order of queries, tab size, input source and buffering mode, for input far larger than the internal buffer, and for any instruction set. The buffer shift handler is given the input in order without gaps.",
 over=["inputs", "histories", "configurations"], quant="all texts (lines up to some KB, in total any size) x methods x query sequences x buffering modes x scalar, SSE2, AVX2, AVX512 builds",
 why="Line and column counts are cached incrementally and computed with SIMD loops, and pointers are adjusted on each buffer shift; tests check a few positions in short texts.",
 files=["include/reflex/absmatcher.h", "lib/matcher.cpp", "include/reflex/matcher.h"],
 mech=[("lineno(), columno(), columns(), lines()", "include/reflex/absmatcher.h"), ("buffer shift and growth", "include/reflex/absmatcher.h grow()"), ("bol(), eol(), line(), span()", "include/reflex/absmatcher.h")],
 observe=["AbstractMatcher position and text methods after scan(), find(), split()"]),
dict(id="C11", title="Reading, putting back, skipping and matching consume exactly the input",
 statement="For every history of scanning, searching, reading characters (8-bit and wide), peeking, putting characters back, skipping to a character or string, truncating and extending the match, fetching the rest, reading the matched text and changing the pattern, each operation returns exactly what the remaining input dictates, and leaves exactly the right remaining input. No operation changes characters not yet consumed, other than those put back, whatever the input source and buffering.",
 over=["histories", "inputs"], quant="all operation sequences x patterns x texts x input sources and block sizes",
 why="The operations share one buffer with a temporarily stored terminator and positions that shift; tests exercise them one at a time.",
 files=["include/reflex/absmatcher.h", "lib/matcher.cpp", "include/reflex/matcher.h"],
 mech=[("input(), winput(), peek(), unput(), wunput(), skip(), rest(), less(), more()", "include/reflex/absmatcher.h"), ("text() terminator", "include/reflex/absmatcher.h text(), reset_text()")],
 observe=["the operations' return values, text(), size(), first(), lineno(), at_end()"]),
dict(id="C12", title="Every input source delivers exactly its text as UTF-8",
 statement="Every input source (8-bit strings, wide strings, files in all supported encodings with or without a byte order mark, streams, and memory) delivers exactly its text, in order, normalized to UTF-8 where the source has an encoding, for any sequence of read sizes. Codes that are invalid in the encoding are replaced without losing or duplicating neighbouring characters. The reported size, end-of-file and good state agree with what remains to be read, and a copy continues where the original was.",
 over=["inputs", "histories"], quant="all contents x 39 encodings x byte order marks x source kinds x read-size sequences",
 why="Each encoding has its own decoding loop with partial reads at any byte of a character; tests read a few files whole.",
 files=["lib/input.cpp", "include/reflex/input.h"],
 mech=[("file_get() decoding per encoding", "lib/input.cpp"), ("file_init() byte order mark detection", "lib/input.cpp"), ("code page tables", "lib/input.cpp"), ("get(), size(), eof(), good()", "include/reflex/input.h")],
 observe=["Input::get(), size(), good(), eof(), file_encoding()", "text a matcher reads from the source"]),
dict(id="C24", title="Stream buffers deliver the text unchanged, CRLF pairs as LF",
 statement="The stream buffers over an input deliver its text unchanged under any sequence of stream reading operations. The ones for DOS files deliver each CR LF pair as one LF and keep every other CR and LF, also when the pair spans internal buffer boundaries.",
 over=["inputs", "histories"], quant="all contents x source kinds x operation sequences x the four stream buffers",
 why="Pairs that straddle the internal buffer and mixtures of bulk and single reads are not sampled by tests.",
 files=["include/reflex/input.h"],
 mech=[("streambuf, dos_streambuf, BufferedInput streambufs", "include/reflex/input.h Input::streambuf, Input::dos_streambuf, BufferedInput")],
 observe=["std::istream operations over the stream buffers"]),
dict(id="C16", title="Exported tables and generated code match like the pattern itself",
 statement="A pattern exported as an opcode table or as generated C++ code, with or without the exported predictor table, compiles and, used as a pattern, gives exactly the same matches as the pattern constructed from the regex in memory. This holds for scanning, searching, splitting and full matches, for all pattern syntax (strings, groups, lazy repeats, up to two anchors in an alternative, lookahead, negative patterns, indent and dedent markers), pattern options and matcher options. Matching always terminates.",
 over=["programs", "inputs", "configurations"], quant="all patterns (with at most two anchors per alternative) x all inputs x table/code x with/without predictor x methods x matcher options",
 why="The interpreter and the code generator implement matching twice, with different handling of anchors, lookahead and backtracking per state; tests compare no generated code with the interpreter.",
 files=["lib/pattern.cpp", "include/reflex/matcher.h", "include/reflex/pattern.h"],
 mech=[("table and code export", "lib/pattern.cpp Pattern::export_code, gencode_dfa, write_predictor"), ("FSM primitives", "include/reflex/matcher.h FSM_*"), ("opcode interpreter", "include/reflex/matcher.h Matcher::match"), ("construction from table, code and predictor", "include/reflex/pattern.h Pattern(const Opcode*, const uint8_t*), Pattern(FSM, ...)")],
 observe=["accept(), first(), size(), text(), at_end() after scan(), find(), split(), matches() with each form of the pattern"]),
dict(id="C05", title="Anchors, word boundaries and lookahead constrain matches as documented",
 statement="An alternative that begins or ends with an anchor or word boundary, or ends with a lookahead, matches exactly the texts that it matches without it, at exactly those positions of the whole input where the condition holds: begin and end of input or line (before LF, CR LF or the end), word and non-word boundary, begin and end of a word, text that follows. Scanning and searching yield the longest such match, of which lookahead text is not consumed, splitting and full matches likewise, wherever the position lies relative to earlier matches, skipped text and the read buffer. This covers patterns of any number of alternatives with one anchor each (or one alternative with two), whose lookahead cannot be confused with the text before it.",
 over=["inputs", "programs"], quant="all such patterns x all inputs x read block sizes x scan, find, split, matches",
 why="Anchors are compiled to meta transitions that are checked against remembered characters at buffer edges and after skipped text; tests have about thirty fixed cases.",
 files=["lib/pattern.cpp", "include/reflex/matcher.h", "lib/matcher.cpp", "include/reflex/absmatcher.h"],
 mech=[("anchors and lookahead in the DFA", "lib/pattern.cpp Pattern::parse2, compile_transition, trim_anchors"), ("meta transitions", "include/reflex/matcher.h Matcher::match"), ("at_bol(), at_bob(), isword(), peek()", "include/reflex/absmatcher.h")],
 observe=["scan(), find(), split(), matches(), accept(), first(), size()"]),
dict(id="C07", title="Negative patterns consume what they match and are never reported",
 statement="Where a negative alternative (?^X) matches the longest text, or the same text as other alternatives, the matcher consumes this text without reporting it and goes on; where another alternative matches longer text that one is reported. A part before or after the negative part belongs to it. Scanning, searching, splitting (the text is part of the piece) and full matches (which then fail) comply, and with matcher option A such matches are reported with the code reserved for them.",
 over=["inputs", "programs"], quant="all patterns with negative alternatives (also with anchors or lookahead) x all inputs x read block sizes x methods x option A",
 why="Negation is carried per position through DFA construction and interacts with ties, lookahead, splits and search acceleration; tests have three patterns.",
 files=["lib/pattern.cpp", "include/reflex/matcher.h"],
 mech=[("negated positions", "lib/pattern.cpp Pattern::parse4, compile_transition"), ("REDO", "include/reflex/matcher.h Matcher::match")],
 observe=["scan(), find(), split(), matches(), accept(), first(), size()"]),
dict(id="C08", title="Indent, dedent and undent tokens follow the margins and the stops",
 statement="At the begin of a line an indent marker matches exactly if the margin is wider than the last stop and then adds a stop. A dedent marker matches if it is narrower, and then exactly one dedent is reported for each stop removed. Undent and negative patterns leave the stops unchanged. Widths count tabs by the tab size. Indents and dedents balance the stops for every text, also after the stops were pushed, popped, cleared, inserted, deleted or replaced between tokens, and at the end of the input.",
 over=["inputs", "histories"], quant="all texts x tab sizes x stop edits x rule sets with blank line, comment and continuation rules x read block and buffer sizes",
 why="Column counts, pending dedents and undo interact across lines and buffer refills; the tests scan one short file.",
 files=["include/reflex/matcher.h", "lib/matcher.cpp"],
 mech=[("newline(), indent(), dedent(), nodent() and pending dedents", "include/reflex/matcher.h Matcher::match"), ("stops API", "include/reflex/matcher.h insert_stop, delete_stop, push_stops, pop_stops")],
 observe=["accept(), text(), first(), stops(), last_stop() after each scan() or find()"]),
dict(id="C21", title="Copies and assignments of patterns and matchers behave like the original",
 statement="A pattern that is a copy of another, was assigned another pattern, a regex or tables, or was swapped or moved, matches exactly like the original, and keeps doing so after the original is changed or destroyed. Copied and assigned matchers use the same pattern and options as the original, and their matching, resetting and destruction does not affect the other. Setting a pattern or options, copying, assigning and destroying in any order never accesses released memory, releases twice or leaks.",
 over=["histories", "inputs"], quant="all sequences of construction, copying, assignment, pattern and option changes, failing construction and destruction x all patterns x all forms of patterns x all inputs",
 why="Ownership of opcode tables, predictor tables, input buffers and search tables depends on how each object came to be; no test copies or reassigns patterns in sequences.",
 files=["include/reflex/pattern.h", "lib/pattern.cpp", "include/reflex/absmatcher.h", "include/reflex/matcher.h"],
 mech=[("Pattern copying and assignment", "include/reflex/pattern.h Pattern(const Pattern&), operator="), ("ownership of patterns", "include/reflex/absmatcher.h PatternMatcher"), ("copying matchers", "include/reflex/matcher.h Matcher(const Matcher&), operator=")],
 observe=["matches after each operation", "AddressSanitizer and LeakSanitizer", "allocations"]),
dict(id="C17", title="A generated scanner does exactly what its lexer specification says",
      statement="For every valid lexer specification, reflex generates C++ code that compiles and whose scanner executes, for every input, the actions that the documentation prescribes: the rule with the longest match among the rules active in the current start condition (the first one listed on ties), the default rule or the jam behaviour for unmatched text, <<EOF>> rules at the end of input, initial code blocks when invoked; with the documented meaning of named patterns, %include, inclusive and exclusive start conditions, scopes, trailing context, action |, options in the specification or on the command line, Flex compatibility mode, and of the actions start/push_state/pop_state, echo, less, more, input, unput, return, nested input matchers, in(i) and wrap().",
      over=["programs", "configurations", "inputs"], quant="all lexer specifications in the supported syntax x options x all inputs, nested or continued by others",
      why="The tests are a fixed set of specifications; how rules, states, options and actions combine is unbounded, and errors such as a wrong case number only show for particular combinations.",
      files=["src/reflex.cpp", "src/reflex.h", "include/reflex/abslexer.h", "include/reflex/flexlexer.h", "include/reflex/absmatcher.h", "lib/convert.cpp"],
      mech=[("reading rules, scopes, patterns and actions", "src/reflex.cpp parse_section_2(), get_pattern(), get_code(), get_starts()"), ("generated lex()", "src/reflex.cpp write_lexer()"), ("run-time support", "include/reflex/abslexer.h, flexlexer.h")],
      observe=["executed actions with text, line, column and position", "characters read and written", "returned values and exceptions", "whether reflex accepts the specification and its output compiles"]),
dict(id="C22", title="Fuzzy matches are within the permitted edits, and exact matches are not missed",
 statement="With FuzzyMatcher, every text that matches(), scan() and find() report and every separator that split() takes can be made from a text of the pattern with at most edits() edits of the permitted kinds (insertions, deletions, substitutions as selected with INS, DEL and SUB), edits() does not exceed the maximum, and newlines and NUL are never inserted or substituted. A text that matches the pattern exactly is never missed by matches() and scan(), and no exact match lies in the text that find() passes over; matches() accepts every text within the maximum of a literal pattern. Pieces and separators of split() make up the text. Copies, clones and assigned matchers have the same limits.",
 over=["inputs", "configurations"], quant="all patterns without anchors and lookaheads x all texts x all maximum edit counts with flags x methods x ways to make the matcher",
 why="The search over edits backtracks in the opcode table with a limited stack; the few examples in the documentation are not even part of the test suite.",
 files=["fuzzy/fuzzymatcher.h"],
 mech=[("Edits and backtracking", "fuzzy/fuzzymatcher.h point(), backtrack()"), ("Second pass for a better match", "fuzzy/fuzzymatcher.h match() SaveState"), ("Limits of a copy", "fuzzy/fuzzymatcher.h FuzzyMatcher(const FuzzyMatcher&), operator=")],
 observe=["text(), first(), edits() of each match", "pieces of split()", "AddressSanitizer"]),
dict(id="C23", title="Boost, PCRE2 and std::regex matchers report what the regex library reports",
 statement="BoostMatcher, BoostPerlMatcher, BoostPosixMatcher, PCRE2Matcher, PCRE2UTFMatcher, StdMatcher, StdEcmaMatcher and StdPosixMatcher report with find(), scan(), split() and matches() the matches that the underlying regex library has in the whole text: the same text, position, captures, first matched group, group numbers and names, in order, none missed and none added, with the right line and column, also for empty matches with option N and when unmatched text is read with input() between scans. Delivering the input in pieces does not change this (for Boost with patterns whose match at the end of a piece cannot be another than its prefix).",
 over=["inputs", "schedules"], quant="all regexes the library accepts x all texts x all divisions of the text into reads x methods x matcher classes",
 why="Partial matches at the end of the buffered input, iterator reuse and flags for the preceding character depend on where matches and reads fall; tests use a few fixed strings that arrive at once.",
 files=["include/reflex/boostmatcher.h", "include/reflex/pcre2matcher.h", "include/reflex/stdmatcher.h", "include/reflex/absmatcher.h"],
 mech=[("Boost matching with partial matches", "include/reflex/boostmatcher.h match(), new_itr()"), ("PCRE2 matching with partial matches", "include/reflex/pcre2matcher.h match(), next_match()"), ("std::regex matching", "include/reflex/stdmatcher.h match(), new_itr()"), ("captures and group ids", "operator[], group_id(), group_next_id() of each class")],
 observe=["text(), first(), last(), lineno(), columno(), operator[], group_id(), accept() of each match"]),
dict(id="C18", title="Malformed regexes are rejected with an error, no regex causes misbehaviour",
 statement="For any byte string given as a regex to Pattern (with any options) or to the regex converters of the matcher classes (with any flags and definitions), parsing ends, reads and writes no memory outside of its objects, and either succeeds or throws regex_error with a documented code, a message and an error position within the regex; no other exception escapes. A Pattern constructed with option r rejects mismatched parentheses, brackets and quotations, invalid repeats and repeats over the limit, reversed ranges, unknown classes, modifiers and incomplete escapes wherever they occur, with the error position at that part of the regex; without option r only exceeded limits throw. The outcome is the same each time, and an accepted pattern can be used by every matching method, with any matcher options, which then get to the end of the text and report only matches within it.",
 over=["inputs", "configurations"], quant="all byte strings as regexes x pattern options x converter flags, signatures and definitions x texts",
 why="Errors hide in the combinations of unfinished syntax at the end of a regex, nested groups and modes, of which tests have a handful; out-of-bounds reads are invisible in a normal build.",
 files=["lib/pattern.cpp", "lib/convert.cpp", "lib/error.cpp", "include/reflex/error.h"],
 mech=[("pattern parser", "lib/pattern.cpp parse(), parse1() to parse4(), parse_esc(), compile_list()"), ("converter", "lib/convert.cpp convert()"), ("error message and position", "lib/error.cpp regex_error_message()")],
 observe=["regex_error code, position and message", "sanitizer and assertion reports", "matches of accepted patterns"]),
dict(id="C09", title="How input is delivered and buffered makes no difference to what is matched",
 statement="For every pattern and text, the matches of scan(), find() and split(), and the results of operations between them (more, less, input, peek, skip, text, wide text, line and column numbers, anchors, matching with another pattern), are the same whether the text is in memory and scanned in place with buffer(base, size) or comes from a string, wide string, FILE or stream, in pieces of any sizes, from an overridden get() or across wrap(), and whether it is buffered by default, entirely with buffer(), in blocks with buffer(n) or bytewise with interactive(); also when matches, lines or the text are longer than the buffer, and no memory outside of the buffer is accessed.",
 over=["inputs", "schedules", "configurations"], quant="all patterns x texts x deliveries (source kinds and divisions into reads) x buffering modes x sequences of operations",
 why="Shifting and growing the buffer, lookback at the preceding character, anchors and lookahead at the end of the buffered input depend on where reads end relative to matches; tests deliver short strings at once.",
 files=["include/reflex/absmatcher.h", "include/reflex/matcher.h", "lib/matcher.cpp"],
 mech=[("buffer shifting and growing", "include/reflex/absmatcher.h grow(), get_more(), peek_more(), buffer()"), ("matching at the end of the buffered input", "include/reflex/matcher.h match()"), ("search over buffered input", "lib/matcher.cpp advance()")],
 observe=["result, first(), size(), text of each step", "values of the operations between matches", "sanitizer reports"]),
dict(id="C25", title="A Pattern tells the truth about its alternatives and what they can match",
 statement="For every pattern without anchors, lookahead, lazy or negative subpatterns, size() is the number of its top-level alternatives, operator[] with 0 is the regex and with n is the text of alternative n (empty after the last), and reachable(n) is true exactly when some text is matched with accept index n; all the same however the pattern was constructed, assigned or copied, and whatever it was before. matches() gives the index of the first alternative that matches the whole text, and zero when none does, in whatever state of the automaton the text ends or leaves the language.",
 over=["inputs", "programs"], quant="all patterns of strings and regexes in all spellings and modes x all texts, among them one to every state and over every transition of the automaton",
 why="Which alternatives can never match depends on the languages of all the others; tests ask about a handful of patterns. States that only long texts reach are not visited by sampled texts.",
 files=["lib/pattern.cpp", "include/reflex/pattern.h", "include/reflex/absmatcher.h"],
 mech=[("ends of the alternatives", "lib/pattern.cpp Pattern::parse(), operator[]"), ("accept of DFA states", "lib/pattern.cpp Pattern::compile()"), ("copy and assignment", "include/reflex/pattern.h"), ("matching all of the input", "include/reflex/absmatcher.h matches()")],
 observe=["Pattern::size(), operator[], reachable(), empty()", "Matcher::matches()"]),
dict(id="C06", title="Lazy repetitions are iterated only as often as needed to match",
 statement="In a pattern with lazy repetitions or lazy optionals (*? +? ?? {n,m}? {n,}?) of character sets, strings or groups, of which the parts in between and after them have a fixed length, the match at a position is the shortest text there that fits the pattern, within the iteration limits, for scan() and find(); alternatives without lazy repetitions still match their longest text, and the longer of the alternatives' matches, or the first of the same length, is the one reported. Searching finds the leftmost such match.",
 over=["inputs", "programs"], quant="all patterns with lazy repetitions followed by parts of fixed length, alone or among other alternatives x all inputs",
 why="A state machine has no backtracking: laziness is made by removing positions from its states, which goes wrong only where iterations and what follows overlap in the text in particular ways.",
 files=["lib/pattern.cpp", "include/reflex/pattern.h", "include/reflex/matcher.h"],
 mech=[("lazy positions of repetitions", "lib/pattern.cpp Pattern::parse2(), parse3()"), ("trimming of lazy positions", "lib/pattern.cpp Pattern::trim_lazy(), compile_transition()")],
 observe=["Matcher::scan(), find(), accept(), first(), last()"]),
]
