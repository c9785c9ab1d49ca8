LIBSRC = ["lib/convert.cpp", "lib/debug.cpp", "lib/error.cpp", "lib/input.cpp", "lib/matcher.cpp", "lib/pattern.cpp",
          "lib/posix.cpp", "lib/unicode.cpp", "lib/utf8.cpp", "unicode/block_scripts.cpp", "unicode/language_scripts.cpp",
          "unicode/letter_scripts.cpp"]
MIN = ["lib/debug.cpp", "lib/error.cpp", "lib/input.cpp", "lib/matcher.cpp", "lib/pattern.cpp", "lib/utf8.cpp"]
ASAN = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
        "-ftrivial-auto-var-init=pattern"]
SSE2 = ["-msse2", "-DHAVE_SSE2"]
AVX2 = ["-mavx2", "-DHAVE_AVX2"]
AVX512 = ["-mavx512bw", "-DHAVE_AVX512BW"]
TRUST = "Exploration of a generated subset of the quantified inputs; trusts the reference model in harness/ and the sanitizers. "
SMALL = lambda n, *f, **k: dict(name="smallbuf", flags=list(f) + ["-DREFLEX_VERIF_BLOCK=%d" % n], **k)
CHECKS = {
    "C01": dict(src=["c01_scan.cpp"], lib=MIN, flags=ASAN + SSE2, plain=["lib/pattern.cpp"], variants=[dict(name="plain"), SMALL(16, scale=0.5, part="scan")],
        technique="property-based testing: generated pattern/input pairs against a reference NFA model",
        note=TRUST + "Patterns with an exponential DFA (>= 400 subset states) are discarded.",
        rule="A case is a generated pattern (alternatives of strings and regexes over a small alphabet, all spellings and modifiers) with 1-4 inputs built from samples of its language, fragments and noise; non-trivial when one input yields at least two tokens of which one is longer than a byte (distinct by pattern, options, input)."),
    "C02": dict(src=["c02_find.cpp"], lib=MIN, flags=ASAN, plain=["lib/pattern.cpp"],
        variants=[dict(name="scalar", flags=[]), dict(name="sse2", flags=SSE2), dict(name="avx2", flags=AVX2, needs_cpu=["avx2"]), dict(name="avx512", flags=AVX512, needs_cpu=["avx512bw", "avx2"]), SMALL(16, *SSE2, scale=0.5, part="find")],
        technique="property-based testing: generated pattern/haystack pairs against a reference leftmost-longest search, over four instruction-set builds",
        note=TRUST + "NEON code cannot run on this machine.",
        rule="A case is a pattern shaped to reach the search-acceleration paths (literal, literal prefix + regex, string sets of minimal length 1-9, class sequences, common prefixes) with 1-4 haystacks of samples, near misses, truncations and noise, optionally read in blocks of 1-40 bytes (part big: around the 256 KiB block boundaries); non-trivial when a match is found after skipped text or a text of 8+ bytes has none."),
    "C03": dict(src=["c03_split.cpp"], lib=MIN, flags=ASAN + SSE2, plain=["lib/pattern.cpp"], variants=[dict(name="plain"), SMALL(16, scale=0.5)],
        technique="property-based testing: generated pattern/input pairs against a reference NFA model",
        note=TRUST + "Separators that match the empty string are outside the property.",
        rule="A case is a generated pattern with 1-5 inputs; non-trivial when a split yields three or more pieces, or matches() is asked about an input of two or more bytes (distinct by pattern, options, input)."),
    "C13": dict(src=["c13_utf8.cpp"], lib=MIN, flags=ASAN + SSE2, plain=["lib/pattern.cpp"],
        technique="property-based testing: exhaustive enumeration of code points and lead/second/third bytes plus generated texts against the Unicode table of well-formed byte sequences",
        note=TRUST + "All code points and all three-byte prefixes are enumerated; fourth bytes are 16 representatives.",
        rule="codepoints: one case per plane (65536 code points each); sequences: one case per lead byte (all second and third bytes, representative fourth bytes); range: one out-of-range code; wide: one generated text of valid, truncated and arbitrary bytes; non-trivial: all of the first three, texts of three or more bytes."),
    "C14": dict(src=["c14_range.cpp"], lib=["lib/utf8.cpp"], flags=ASAN,
        technique="property-based testing: generated and enumerated code point ranges, the produced regex expanded into byte boxes by an independent parser and counted",
        note=TRUST + "The permissive form is probed at range edges and random code points, not counted.",
        rule="A case is a range of code points (edges of encoding lengths, of 64^k blocks, random) with an escape style, a group style and strictness; edges: one case per first value with all second values from a set of 165 edge values. All are non-trivial; distinct by range and strictness."),
    "C20": dict(src=["c20_sets.cpp"], lib=[], flags=ASAN,
        technique="property-based testing: model-based operation sequences against std::set models",
        note=TRUST + "Integer element types over small ranges.",
        rule="A case is a sequence of operations on two or three sets (construct, insert, erase, union, intersection, difference, shifts, relations, iteration, copy and assignment), the whole observable state compared with the model after each operation; non-trivial with five or more operations on sets of more than one range (distinct by final state)."),
    "C15": dict(src=["c15_unicode.cpp"], flags=["-std=c++17", "-O2", "-g1"],
        technique="property-based testing: every category table against the Unicode data files, and generated category regexes against the same data on probe characters",
        note=TRUST + "Tables are compared completely; matching is probed at range edges and random characters.",
        rule="tables: one case per category, script, block or identifier class; match: a regex using the category (plain, complemented, in a list, in a complemented list; by flag or directive; strict or permissive) scanned over its range edges and random characters; all non-trivial, distinct by regex and flags."),
    "C12": dict(src=["c12_input.cpp"], lib=MIN, flags=ASAN, plain=["lib/pattern.cpp"],
        technique="property-based testing: generated contents in every encoding and source kind, read in generated steps, against a reference decoder and code page tables of other implementations",
        note=TRUST + "Code page oracle: Python codecs and glibc iconv; characters unassigned there are not checked, nor are the EBCDIC characters outside EBCDIC-US. FILE input over disk files, memory and pipes.",
        rule="A case is a source (string, wide string, FILE* on disk, in memory, from a pipe or from an offset, stream; 39 encodings, with and without byte order mark, valid, truncated and invalid codes) read in generated steps of get(), get(s,n), size(), good(), eof() and copies, or by a matcher in some buffering mode; tables: all codes of one encoding; non-trivial when the text has two or more bytes."),
    "C24": dict(src=["c24_streambuf.cpp"], lib=MIN, flags=ASAN, plain=["lib/pattern.cpp"],
        technique="property-based testing: generated contents and sequences of stream operations against the reference text",
        note=TRUST + "Stream operations: get, peek, sbumpc, sgetc, sgetn, read, getline, in_avail; no seeking or putting back.",
        rule="A case is an input source (as in C12; every other one with CR and LF at the ends and around multiples of the buffer size) behind one of the four stream buffers, consumed by a generated sequence of stream operations; non-trivial when the text has two or more bytes and, for the DOS ones, a CRLF pair."),
    "C10": dict(src=["c10_position.cpp"], lib=MIN, flags=ASAN, plain=["lib/pattern.cpp"],
        variants=[dict(name="scalar", flags=[]), dict(name="sse2", flags=SSE2), dict(name="avx2", flags=AVX2, needs_cpu=["avx2"]), dict(name="avx512", flags=AVX512, needs_cpu=["avx512bw", "avx2"]), SMALL(64, scale=0.5, part="small")],
        technique="property-based testing: generated texts, matching methods and sequences of position queries against positions computed from the whole text",
        note=TRUST + "Lines of up to 8 KB. Tab stops on the second and following lines of a multi-line match are not checked for columns().",
        rule="A case is a pattern, a text of short lines with tabs and UTF-8 (part big: 0.3-1.8 MB), an input source, buffering mode, tab size and method (scan, find, split), with a generated sequence of position and text queries after each match; non-trivial with two or more matches in a text with a newline."),
    "C11": dict(src=["c11_history.cpp"], lib=MIN, flags=ASAN + SSE2, plain=["lib/pattern.cpp"], variants=[dict(name="plain"), SMALL(64, scale=0.5, part="small")],
        technique="property-based testing: model-based operation histories on a matcher against a model of the text and position",
        note=TRUST + "Anchors after unput() are not modelled. Offsets and lines are not checked after text was inserted before the first byte of the input.",
        rule="A case is one or two generated patterns, a text and an input source (string, stream in pieces, overridden reader, in place; block sizes from 1) with a generated history of scan, find, input, winput, peek, unput, wunput, skip, less, more, rest, text, pattern switch and position queries; non-trivial with four or more kinds of operations on a text of two or more bytes (distinct by pattern and history)."),
    "C04": dict(src=["c04_syntax.cpp"], flags=ASAN + SSE2, plain=["lib/pattern.cpp", "unicode/block_scripts.cpp", "unicode/language_scripts.cpp", "unicode/letter_scripts.cpp"],
        technique="property-based testing: generated syntax trees printed in the documented syntax, the converted regex against an evaluator of the tree",
        note=TRUST + "Texts of up to 60 bytes. Dot and \\X may also take invalid UTF-8 and parts of characters, as documented.",
        rule="A case is a generated regex (characters in all spellings, lists with ranges, categories and set operations, quotations, groups, modifiers, repeats, definitions, free spacing, comments) with converter flags and 3-6 texts sampled from the tree and mutated; non-trivial when some text matches and some does not."),
    "C16": dict(src=["c16_export.cpp"], lib=MIN, flags=ASAN, plain=["lib/pattern.cpp"], libs=["-rdynamic", "-ldl"],
        technique="property-based testing: differential, generated patterns against their exported and compiled opcode tables and C++ code",
        note=TRUST + "The in-memory pattern is the oracle. Compiled with g++ -O0.",
        rule="A case is a batch of some 40 generated patterns with the whole regex syntax (anchors, lookahead, lazy repeats, negative patterns, indents), with and without predictor tables and matcher options, exported, compiled, loaded and run with scan, find, split and matches on 1-3 inputs each; non-trivial with more than 20 matches in total (distinct by patterns and inputs)."),
    "C05": dict(src=["c05_anchors.cpp"], lib=MIN, flags=ASAN + SSE2, plain=["lib/pattern.cpp"], variants=[dict(name="plain"), SMALL(16, scale=0.5)],
        technique="property-based testing: generated patterns with anchors, boundaries and lookahead against a reference NFA with zero-width assertions over the whole text",
        note=TRUST + "Lookahead whose first part can also end inside the lookahead text is a documented limit and is not judged.",
        rule="A case is a pattern of 1-8 alternatives, each with at most one begin and one end anchor or a lookahead, with 1-4 inputs scanned, searched, split or matched whole, optionally read in blocks of 1-30 bytes; non-trivial when two or more matches are found (with lookahead: one that trims text)."),
    "C07": dict(src=["c07_negative.cpp"], lib=MIN, flags=ASAN + SSE2, plain=["lib/pattern.cpp"], variants=[dict(name="plain"), SMALL(16, scale=0.5)],
        technique="property-based testing: generated patterns with negative alternatives against a reference NFA model",
        note=TRUST,
        rule="A case is a pattern of 1-8 alternatives of which some are negative (optionally with a part before or after, anchors, lookahead), with 1-4 inputs; non-trivial when two or more matches are found and a negative pattern matched, or option A returns it."),
    "C08": dict(src=["c08_indent.cpp"], lib=MIN, flags=ASAN, plain=["lib/pattern.cpp"], variants=[dict(name="plain"), SMALL(16, scale=0.5)],
        technique="property-based testing: model-based, generated indented texts and stop edits against a lockstep model with its own stack of stops",
        note=TRUST + "The model lexer is written from the documentation.",
        rule="A case is a set of generated indent, nodent, dedent, undent, blank line, continuation and comment rules, with a text of indented lines scanned in lockstep with the model; non-trivial with 3 or more indents and dedents (distinct by rules, text, tabs, block size and stop edits)."),
    "C21": dict(src=["c21_copy.cpp"], lib=MIN, flags=ASAN + SSE2,
        technique="property-based testing: model-based, generated sequences of copies and assignments against freshly constructed patterns and matchers",
        note=TRUST + "Matchers that share a pattern are not used after its owner is gone (documented).",
        rule="A case is a sequence of constructions, copies, assignments, clears, clones and failed assignments on three patterns (regexes, opcode tables with and without predictor) or three matchers, each compared with a new one in all observers and in matching generated inputs; objects live in memory filled with garbage; non-trivial with two or more copies or assignments (distinct by sequence)."),
    "C17": dict(src=["c17_lexer.cpp"], lib=LIBSRC, flags=ASAN, plain=["lib/pattern.cpp", "lib/unicode.cpp"], libs=["-rdynamic", "-ldl"], reflex=["-O1"],
        technique="property-based testing: generated lexer specifications, run through reflex and compiled, against a reference interpreter of the specification",
        note=TRUST + "Generated scanners are compiled with g++ -O0. Ties between rules with anchors or trailing context are not judged.",
        rule="A case is a batch of some 20 generated lexer specifications (C++ or Flex style; options, named patterns, start conditions and scopes, trailing context, anchors, actions with start/push_state/pop_state/echo/less/more/input/unput/nested inputs/wrap, <<EOF>> rules) with 2-5 inputs each; non-trivial when at least half of the specifications have more than 5 matches by more than 2 rules (distinct by specifications)."),
    "C23": dict(src=["c23_backends.cpp"], lib=MIN, flags=ASAN + SSE2, libs=["-lpcre2-8", "-lboost_regex"],
        technique="property-based testing: differential, generated regexes and texts in the matchers against the regex library used directly on the whole text",
        note=TRUST + "The Boost, PCRE2 and libstdc++ regex libraries are trusted; texts up to a buffer; Boost in pieces only with patterns whose match cannot go on past a piece (documented limit of its partial matching).",
        rule="A case is a generated regex (groups, names, lazy and greedy repetition, anchors), a text delivered whole or in pieces, a matcher class and a method (find, find with empty matches, scan with input(), split, matches) compared with the library: matches, positions, captures, group ids and names, lines and columns; non-trivial with two or more matches (distinct by regex, text, method and class)."),
    "C22": dict(src=["c22_fuzzy.cpp"], lib=MIN, flags=ASAN + SSE2,
        technique="property-based testing: generated patterns and edited texts in the fuzzy matcher against an edit-distance reference (dynamic programming over the automaton of the pattern)",
        note=TRUST + "Completeness is judged for exact matches, and for near matches of literals; the edit count need not be minimal (documented).",
        rule="A case is a generated regex or literal (with multibyte characters and newlines), a maximum with INS, DEL and SUB flags, a text made of edited samples of the pattern and a method (matches, find, scan, split) of a constructed, copied, assigned or cloned matcher; non-trivial when a match with edits is reported, or an exact one with maximum 0 (distinct by pattern, text, maximum and method)."),
    "C18": dict(src=["c18_malformed.cpp"], flags=ASAN + SSE2 + ["-D_GLIBCXX_ASSERTIONS"], libs=["-lpcre2-8", "-lboost_regex"],
        technique="property-based fuzzing: grammar-based token soup, mangled valid regexes and regexes with exactly one planted error, under AddressSanitizer, UBSan and libstdc++ assertions",
        note=TRUST + "Repeats whose product of bounds exceeds 300, or 3000 with the size of the regex, are not compiled (cost).",
        rule="reject: a regex with exactly one error of a documented kind in a generated valid context, for Pattern and convert(); pattern, convert: an arbitrary regex of syntax tokens and bytes or a mangled valid regex, with options or flags, parsed twice, and when accepted used to search, scan and match a text with all matcher options; non-trivial: all, distinct by regex and options."),
    "C09": dict(src=["c09_delivery.cpp"], lib=MIN, flags=ASAN + SSE2, plain=["lib/pattern.cpp"], variants=[dict(name="plain"), SMALL(16, part="mixed")],
        technique="property-based testing: metamorphic, the same matching and operations on a generated text delivered whole in place and delivered and buffered in generated other ways",
        note=TRUST + "The run on the text in place is the oracle. Columns are not compared in lines that do not fit in the buffer.",
        rule="A case is a generated pattern with the whole regex syntax, a text, a method (scan, find, split), matcher options and a cycle of operations between matches (more, less, input, peek, skip, text, wide text, position queries, matching with another pattern), run on the text in place and with 2-3 deliveries (string, wide string, stream in pieces, overridden get() or wrap(), FILE) and buffering modes (default, all, block of n, interactive); big: texts of 250-850 KB with tokens and lines longer than the 256 KB buffer; non-trivial with more than two steps (distinct by text and method)."),
    "C25": dict(src=["c25_subpatterns.cpp"], lib=MIN, flags=ASAN + SSE2, plain=["lib/pattern.cpp"],
        technique="property-based testing: generated patterns against a reference automaton, texts covering all its states and transitions",
        note=TRUST + "Patterns with anchors, lookahead, lazy repeats and negative patterns are outside this property; at most 3000 texts are asked per pattern.",
        rule="A case is a generated pattern of 1-30 alternatives, assigned or copied in one of several ways, whose size(), operator[] and reachable() are compared with the reference and whose matches() is asked about a shortest text to every state of the reference automaton, extended by one byte of every class, and completed to an accepted text; non-trivial when it has two or more alternatives and four or more states (distinct by pattern and options)."),
    "C06": dict(src=["c06_lazy.cpp"], lib=MIN, flags=ASAN + SSE2, plain=["lib/pattern.cpp"],
        technique="property-based testing: generated patterns with lazy repetitions against a reference that tries iteration counts in increasing order",
        note=TRUST + "What follows a lazy repetition has a fixed length; only one repetition of more than one character per alternative, one alternative with lazy repetitions.",
        rule="A case is a generated pattern of 1-4 alternatives, one of which has 1-3 lazy repetitions or optionals (all forms, of character sets, strings and groups) between parts of fixed length, with 1-4 inputs made of samples with extra iterations and noise, scanned or searched; non-trivial when a match with a lazy repetition has a later occurrence of its last part in the rest of the input (distinct by pattern)."),
}
