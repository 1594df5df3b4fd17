# one prop(...) per property; read by mkmeta.py
prop("G01", "Grapheme cluster boundaries of every text",
 "Segmenting any text with the grapheme breaker yields exactly the extended grapheme clusters of UAX #29 (GB1 to GB999, Unicode 11 character classes), in order. This holds for every breaker weight and zero-penalty setting and whatever texts the same segmenter and breaker have processed before. The break after a newline or control character is reported as mandatory, and no reported break carries a penalty that suppresses breaking.",
 ["inputs", "histories", "configurations"], "all texts of valid Unicode characters, all earlier uses of the same segmenter, all breaker weights",
 "The tests run the 672 sample lines of GraphemeBreakTest.txt (with known skips), each with fresh state; rule interactions beyond three characters, histories, weights and most characters of each class are never seen.",
 ["grapheme/grapheme.go", "grapheme/graphemeclasses.go", "segment/segment.go", "automata.go", "emoji/emojiclasses.go"],
 [m("start rules and state functions of the breaker", "grapheme/grapheme.go Breaker.StartRulesFor, rule_* functions"), m("penalty aggregation and segment cutting", "segment/segment.go"), m("rune publisher and recognizers", "automata.go")],
 ["Segmenter.Next/Text/Penalties"],
 "runtime monitoring: online oracle (own UAX #29 reference) over exhaustive class sequences and random texts",
 "Every class sequence up to length 4 (quick) or 5 (thorough) with random members, plus random texts; trusts an independent reference written from UAX #29 and Perl's Unicode data. U+0000 and U+FFFD are listed findings and excluded otherwise.")
prop("W01", "Word boundaries of every text",
 "Segmenting any text with the word breaker yields exactly the segments between the default word boundaries of UAX #29 (WB1 to WB999, including ignorable characters, emoji sequences, flags and horizontal space runs; Unicode 11 classes). This holds for every breaker weight and zero-penalty setting and whatever has been segmented before. The break after a newline is reported as mandatory, and no reported break carries a suppressing penalty.",
 ["inputs", "histories", "configurations"], "all texts of valid Unicode characters, all earlier uses of the same segmenter, all breaker weights",
 "The tests run the sample lines of WordBreakTest.txt with fresh state; look-ahead and look-behind rules interact over unbounded distances (ignorables, RI parity), which sample lines cannot settle.",
 ["uax29/uax29.go", "uax29/uax29classes.go", "segment/segment.go", "automata.go"],
 [m("start rules and state functions", "uax29/uax29.go WordBreaker.StartRulesFor, rule_WB*"), m("suppression of breaks while a rule is active", "uax29/uax29.go ProceedWithRune/Penalties/LongestActiveMatch")],
 ["Segmenter.Next/Text/Penalties"],
 "runtime monitoring: online oracle (own UAX #29 reference) over exhaustive class sequences and random texts",
 "Every class sequence up to length 4 (quick) or 5 (thorough), plus random texts; trusts an independent reference. U+0000 is excluded (listed finding of G01).")
prop("C01", "Character classes match the Unicode data",
 "For every Unicode code point, the reported grapheme class, word class and emoji class, and the exported emoji range tables, agree with the Unicode 11 character database. Every class is printed as the name of its constant.",
 ["inputs"], "all 1,112,064 Unicode scalar values except U+0000",
 "The tests look at a handful of characters; a single wrong table entry affects only texts with that character.",
 ["grapheme/graphemeclasses.go", "grapheme/grapheme.go", "uax29/uax29classes.go", "uax29/uax29.go", "emoji/emojiclasses.go", "emoji/emoji.go"],
 [m("generated range tables", "*/…classes.go"), m("class look-up", "ClassForRune, EmojisClassForRune")],
 ["grapheme.ClassForRune", "uax29.ClassForRune", "emoji.EmojisClassForRune", "emoji.Emoji… range tables"],
 "runtime monitoring: exhaustive comparison of the executed look-ups with independent Unicode data",
 "Complete for all code points; trusts Perl's copy of the Unicode data with a reviewed list of later changes. U+FFFD as a control character is a listed finding.")
prop("S01", "Segmentation conserves the text and feeds breakers every rune once",
 "For every text, source type and set of breakers with a break at the end of text, the segments concatenated give the text exactly (ill-formed bytes read as U+FFFD), no segment is empty, and all accessors for a segment agree. Each breaker is told every rune exactly once and in order, followed by one end-of-text signal. The result does not depend on the kind of source, and after the end no segment and no error remain.",
 ["inputs", "configurations"], "all byte sequences including ill-formed and very long ones, all breaker combinations, readers and slices",
 "Tests check a few short texts by printing segments; conservation depends on buffer arithmetic for every length and break distance.",
 ["segment/segment.go", "segment/deque.go", "segment/simplewordbreak.go"],
 [m("deque of runes with penalties", "segment/deque.go"), m("read-ahead and cut", "segment/segment.go readEnoughInput, getFrontSegment")],
 ["Segmenter.Next/Text/Bytes/Runes/Err", "UnicodeBreaker call log"],
 "runtime monitoring: conservation monitor and protocol monitor over recorded breaker events",
 "Random and boundary-length texts with real and scripted breakers; the oracle is independent of the break rules.")
prop("S02", "Breaks and penalties are exactly the breakers' aggregated answers",
 "A segment ends exactly after those runes for which the penalties given by the primary or the secondary breakers add up to a break opportunity (non-zero and not suppressing, or zero where breaking on zero is enabled), and the reported penalties are these sums. Secondary breakers never change the primary penalty and vice versa, and a late answer for an earlier rune counts for that rune.",
 ["inputs", "configurations", "histories"], "all sequences of breaker answers, also delayed ones, any number of breakers, all zero-penalty settings",
 "Tests never combine several breakers with overlapping penalties and late answers, and check penalties for a handful of positions.",
 ["segment/segment.go", "segment/deque.go"],
 [m("insertPenalties, isPossibleBreak, clamping", "segment/segment.go")],
 ["Segmenter.Next/Text/Penalties", "UnicodeBreaker call log"],
 "runtime monitoring: offline model replay over recorded breaker answers",
 "Scripted breakers produce arbitrary delayed penalties; a reference aggregation over the recorded log decides.")
prop("S03", "Default segmenter splits into words and whitespace with documented penalties",
 "A segmenter without breakers, or with the simple word breaker, yields the maximal runs of whitespace and of non-whitespace of every text, in order. A run of words ends with a penalty of 100, a run of whitespace with −100, also after re-initialization.",
 ["inputs", "histories"], "all texts, readers and slices",
 "Tests check three short ASCII texts.",
 ["segment/simplewordbreak.go", "segment/segment.go"],
 [m("SimpleWordBreaker", "segment/simplewordbreak.go")], ["Segmenter.Next/Text/Penalties"],
 "runtime monitoring: online oracle over random texts", "Random texts with all Unicode white space.")
prop("S04", "A re-initialized segmenter behaves like a new one",
 "Whatever a segmenter and its breakers have been used for before – completed, abandoned in the middle, failed, bounded or empty inputs – after re-initialization with an input it delivers the same segments, penalties and errors as a newly created one, and no text, penalty or error of an earlier input is visible.",
 ["histories", "inputs"], "all sequences of earlier uses, all breakers",
 "Tests create a new segmenter per text or re-initialize only after complete runs.",
 ["segment/segment.go", "automata.go", "grapheme/grapheme.go", "uax29/uax29.go", "segment/simplewordbreak.go"],
 [m("Init/InitFromSlice resets", "segment/segment.go"), m("breaker reset at end of text", "StartRulesFor(0, …)")],
 ["Segmenter.Init/InitFromSlice/Next/Penalties/Err"],
 "runtime monitoring: differential oracle (used vs. fresh segmenter) over random histories",
 "Random histories of up to four earlier uses with every kind of abandonment.")
prop("S05", "Bounded segmenting cuts at the bound and loses nothing",
 "With bounds given, segments are those of the unbounded segmentation as long as they end at or before the bound, the last one is cut off at the bound, and no segment ever extends beyond it. After a bound is reached this is reported as such, and continuing – with further bounds or without – delivers the rest of the text: all segments concatenated give the text. Segments of a slice of runes are parts of that slice, of any length.",
 ["inputs", "histories"], "all texts, all sequences of bounds (also decreasing or already passed), readers and slices",
 "Tests have one text with one bound.",
 ["segment/segment.go"], [m("BoundedNext", "segment/segment.go")], ["Segmenter.BoundedNext/Next/Text/Err"],
 "runtime monitoring: online oracle relating bounded and unbounded executions",
 "Random texts, breakers, and bound sequences. Bounds count bytes for readers and runes for slices.")
prop("S06", "Errors: failing readers, over-long segments and misuse are reported",
 "If the reader fails, the segments delivered before are a prefix of the fault-free segmentation and the reader's error is reported and stays; an over-long segment is reported as too long and never silently truncated; using a segmenter without input reports that it is not initialized. No error is reported without cause and no use panics except replacing the buffer of a segmenter in use. A buffer given by the client with at least the maximum capacity is the only one used.",
 ["fault_sequences", "inputs", "configurations"], "all texts, all reader failure points, all buffer and segment size limits",
 "Tests have no failing reader and no size limits.",
 ["segment/segment.go"], [m("error state of the segmenter", "segment/segment.go setErr, readRune, RuneBuffer")], ["Segmenter.Next/Err"],
 "runtime monitoring with fault injection: reader faults at every position, online oracle",
 "Fault position and limits are random per case; prefixes are compared with the fault-free run.")
prop("S07", "Segments are delivered as soon as they are decided, in bounded memory",
 "A segmenter reads nothing before it is asked for a segment, and delivers a segment without reading further as soon as the runes read so far decide it: as soon as the breakers have given a break (or a bound is reached) which no announced match covers. It never reads on after the end or after an error of the reader. Segmenting a stream needs memory for its longest segment, not for its length: nothing accumulates in segmenter, breakers and publishers.",
 ["inputs", "histories", "configurations"], "all texts, breakers, bounds, reader failures, and streams of any length",
 "Tests read from short strings, where reading too far ahead and accumulating recognizers cannot be seen.",
 ["segment/segment.go", "segment/deque.go", "automata.go", "grapheme/grapheme.go", "uax29/uax29.go"], [m("reading loop", "segment/segment.go readEnoughInputAndFindBreak, readRune"), m("end of recognizers' lives", "automata.go PublishRuneEvent, prioq.go PopDone")], ["io.RuneReader calls", "Segmenter.Next/BoundedNext", "UnicodeBreaker answers", "heap in use"],
 "runtime monitoring: online checker over the event sequence of reads, breaker answers and deliveries; heap monitor on long streams",
 "Random texts, breakers (real and scripted), bounds and reader faults; streams of up to 60,000 runes repeating random patterns, heap compared after a quarter and at the end.")
prop("P01", "Rune publisher delivers every event to every active subscriber once",
 "A subscriber is told every rune published after its subscription exactly once and in order, until it is done, and is told exactly once – and never hears anything again – that it has been unsubscribed. The longest reported match is the maximum over the subscribers still active, and the published penalties are the aggregate of the subscribers' answers.",
 ["histories"], "all histories of subscriptions, match lengths and life times, several publishers",
 "Tests subscribe a few recognizers to one publisher.",
 ["automata.go", "prioq.go"], [m("priority queue of subscribers", "prioq.go"), m("PublishRuneEvent", "automata.go")], ["RunePublisher.PublishRuneEvent/SubscribeMe", "RuneSubscriber callbacks"],
 "runtime monitoring: trace monitor over recorded subscriber callbacks",
 "Random histories with up to dozens of subscribers; exactly-once and maximum are checked on the recorded trace.")
prop("P03", "A publisher's queue prefers done subscribers and loses none",
 "The queue of a rune publisher, used directly, holds exactly the subscribers which have been pushed and not yet taken. Top and Pop give a done subscriber whenever there is one; PopDone gives a done subscriber as long as there is one and nil otherwise. Fix after a subscriber changed its Done answer restores this order, and is harmless if nothing has changed or the position is beyond the end.",
 ["histories"], "all histories of pushing, popping, changing the Done answer of the topmost subscriber, and publishing",
 "Tests push at most a handful of items; the gap between active and done items goes wrong only for particular mixtures.",
 ["prioq.go", "automata.go"], [m("queue with gap", "prioq.go Push, Pop, PopDone, Fix")], ["DefaultRunePublisher.Push/Pop/PopDone/Top/Fix/Len"],
 "runtime monitoring: model-based monitor (a set) over random operation histories",
 "Random histories of up to 260 operations, with the zero value of a publisher, too. Subscribers other than the topmost change their answer during rune events only, as clients do not know positions.")
prop("I01", "Ill-formed bytes before the first character are found exactly",
 "For every byte sequence, the position of the first well-formed UTF-8 character is reported (-1 if there is none), together with the bytes before it (all of them if there is none).",
 ["inputs"], "all byte sequences",
 "No test covers ill-formed input; surrogates, overlong forms, truncated characters and an encoded U+FFFD differ from each other by single bytes.",
 ["uax.go"], [m("search for the first legal character", "uax.go PositionOfFirstLegalRune")], ["uax.PositionOfFirstLegalRune"],
 "runtime monitoring: online oracle (own table of well-formed UTF-8)",
 "All byte sequences up to length 2, random ones made of parts of characters and boundary bytes.")
prop("P02", "Recognizers start clean and follow their state functions",
 "A recognizer starts out with the class and the state function it was made with and nothing else; one obtained from the pool is indistinguishable from a new one whatever its previous owner did with it, is never owned twice at the same time, and executes its state functions one step per rune until a state function declines or the recognizer has accepted. Its answers and match length are exactly what the state functions determined.",
 ["histories"], "all histories of acquiring, running, accepting, aborting and releasing recognizers",
 "Tests look at one recognizer at a time and never at one handed out again.",
 ["automata.go"], [m("recognizer pool", "automata.go NewPooledRecognizer, releaseIntoPool")], ["Recognizer fields and callbacks"],
 "runtime monitoring: ownership and trace monitor over random recognizer histories",
 "Random histories over the real global pool.")
prop("G02", "Grapheme strings: random access to the clusters of a text",
 "A grapheme string made from a text or a byte slice consists of exactly the extended grapheme clusters of its legal part (from the first well-formed character to the next ill-formed byte), in order: length, every indexed access and the text as a whole agree with that, whatever the length of the clusters and whether the storage needs 8-bit or 16-bit offsets. Access outside the range panics, an input without a legal character gives an empty string, later changes to the source bytes do not show, and a text up to 32,766 bytes is accepted while one beyond 65,535 bytes is rejected by a panic.",
 ["inputs"], "all texts and byte sequences, including ill-formed ones and those around the 255-byte and 32 KiB limits, all indices",
 "Tests have a few short strings; offset widths, limits and ill-formed bytes are not sampled.",
 ["grapheme/string.go", "uax.go"],
 [m("offset tables (8 and 16 bit)", "grapheme/string.go shortString/midString"), m("skipping of illegal leading bytes", "uax.PositionOfFirstLegalRune")],
 ["grapheme.StringFromString/StringFromBytes, String.Len/Nth/String"],
 "runtime monitoring: online oracle (own UAX #29 reference) over random and boundary-length texts",
 "Random texts, ill-formed bytes and lengths around the storage limits. Lengths from 32,767 to 65,535 may be accepted or rejected, as the code and its documentation disagree.")
prop("E01", "Display width of graphemes and strings",
 "The width of a grapheme is 0 if it is empty, ill-formed or made of zero-width characters only; 2 if it is an emoji by default or by variation selector or keycap, or if its base character is Wide or Fullwidth or – in an East Asian context – Ambiguous or Neutral; and 1 otherwise. The width of a string is the sum of the widths of its graphemes, and neither depends on what has been measured before or on class tables having been set up.",
 ["inputs", "configurations", "histories"], "all characters and graphemes, all contexts, measured in any order",
 "Tests measure about a dozen strings; wrong ranges affect single characters.",
 ["uax11/width.go", "uax11/doc.go", "emoji/emoji.go", "emoji/emojiclasses.go"],
 [m("grapheme width decision", "uax11/width.go Width"), m("East Asian width look-up per context", "uax11/width.go")],
 ["uax11.Width", "uax11.StringWidth"],
 "runtime monitoring: oracle from independent Unicode data, exhaustive over code points, random graphemes",
 "Single code points exhaustively in both kinds of contexts; composed graphemes at random. Characters whose width class changed between Unicode versions are accepted either way.")
prop("E02", "The context decides between narrow and wide ambiguous characters",
 "Whether ambiguous and neutral characters are wide is decided by the forced setting of a context if given, otherwise by its script, otherwise by its locale, and for contexts from the environment by the locale settings there. Measuring never changes what is set in a context (though it may fill in an unset script, with the one usual for the locale): the same context gives the same widths again, and other contexts are not affected.",
 ["configurations", "histories"], "all combinations of forced setting, script, locale and environment, reused contexts",
 "Tests use the two predefined contexts and one locale.",
 ["uax11/width.go"], [m("evaluation of contexts", "uax11/width.go Context, ContextFromEnvironment")], ["uax11.Context", "uax11.ContextFromEnvironment", "uax11.Width"],
 "runtime monitoring: online oracle over random contexts and environments",
 "Random contexts from lists of scripts and locales; environments are set in the worker process.")
prop("K01", "Frozen tries find exactly the stored words, at distinct positions",
 "After any sequence of words has been entered into a trie and it has been frozen, every stored word and every prefix of one is found, on every look-up and by iterating as well as directly, and different words and prefixes have different positions. No other sequence of two or more categories is found. A trie which has no room left for a word does not pretend to have stored it, and more categories than supported are rejected.",
 ["histories", "inputs"], "all sequences of words over all category alphabets and trie sizes",
 "Tests enter a few words into one trie; collisions of the hash only show for particular sets of words and sizes.",
 ["bidi/trie/hashtrie.go", "bidi/trie/doc.go"], [m("hash trie with collision handling", "bidi/trie/hashtrie.go")], ["TinyHashTrie.AllocPositionForWord/Freeze/Iterator"],
 "runtime monitoring: online oracle (set of words) over random word sets",
 "Random tries up to full load. A search which aborts by the documented panic is accepted.")
prop("U01", "Class table generation reproduces the Unicode data file",
 "For every well-formed Unicode character data file, reading delivers every item with its line number, exact range, fields and comment, and the generated range tables contain exactly the code points which the file assigns to each category – as sorted, disjoint and well-formed ranges.",
 ["inputs"], "all data files: comments, blank lines, single code points, ranges, any number and order of categories",
 "Tests read one file and check a few lines; last entries, gaps of one and range borders are not looked at.",
 ["internal/ucdparse/ucdparse.go", "internal/ucdparse/linebuf.go", "internal/ucdparse/scan.go", "internal/ucdparse/gentables.go", "internal/tablegen/main.go"],
 [m("line scanner and parser", "internal/ucdparse"), m("range collection and output", "internal/tablegen")], ["ucdparse.Parse", "generated tables", "command line tool"],
 "runtime monitoring: round-trip oracle over generated data files",
 "Random data files; 1% of the cases run the command line tool end to end against a server on the loopback interface.")
prop("U02", "Shaping tables match the Unicode data",
 "The exported range tables for Arabic joining types, Indic positional categories and Indic syllabic categories contain exactly the code points to which Unicode 13 assigns that type or category.",
 ["inputs"], "all code points, all tables",
 "No test looks at the tables.",
 ["shaping/arabictables.go", "shaping/uipctables.go", "shaping/uisctables.go"], [m("generated range tables", "shaping")], ["shaping range tables"],
 "runtime monitoring: exhaustive comparison with independent Unicode data", "Complete for all tables and code points.")
prop("T01", "Concurrent use of independent objects is race-free and changes nothing",
 "Any number of goroutines may create and use segmenters, breakers, publishers, class look-ups and widths of their own at the same time – also as first users in a process – and share grapheme strings, frozen tries and the predefined width contexts, without data races. Each of them gets exactly the results it would get alone.",
 ["schedules", "histories"], "all interleavings of operations on separate objects, all moments of first initialization",
 "The tests are sequential and are not run with the race detector; global pools and lazy tables are shared by all goroutines.",
 ["automata.go", "grapheme/grapheme.go", "uax29/uax29.go", "emoji/emoji.go", "uax11/width.go", "grapheme/string.go", "segment/segment.go"],
 [m("global recognizer pool", "automata.go"), m("lazy set-up of class tables", "Setup…Classes with sync.Once")], ["race detector reports", "digest of all results"],
 "runtime monitoring: race detector plus differential oracle (concurrent vs. sequential digests)",
 "Random operation mixes on up to 8 goroutines under the race detector; worker processes are renewed every 12 cases so that first-use initialization happens concurrently again and again.")
prop("X01", "Tracing only observes",
 "Whatever tracer is set and at whatever level, every operation of the library gives exactly the results it gives untraced, without panics and – also when operations run concurrently – without data races. The tracer's level is afterwards what it was before.",
 ["inputs", "histories", "schedules"], "all operations and inputs, all trace levels, sequential and concurrent",
 "Tests trace to the testing log and never compare results with and without tracing; trace statements are executed at debug level only.",
 ["segment/segment.go", "automata.go", "bidi/resolver.go", "bidi/scanner.go", "bidi/reordering.go", "bidi/trie/hashtrie.go", "grapheme/grapheme.go", "uax29/uax29.go", "uax11/width.go"],
 [m("trace statements and debugging helpers", "tracer() of all packages, printQ, String methods"), m("trace level while rules are prepared", "bidi/resolver.go prepareRulesTrie")], ["tracing.SetTraceSelector", "digest of all results"],
 "runtime monitoring: race detector plus differential oracle (traced vs. untraced digests)",
 "Random operation mixes with a recording tracer which formats every message, alone or on several goroutines, before or after the untraced run; worker processes are renewed every 60 cases.")
BIDI = ["bidi/resolver.go", "bidi/scanner.go", "bidi/actions.go", "bidi/uaxrules.go", "bidi/brackets.go", "bidi/scrap.go", "bidi/reordering.go"]
prop("B01", "Bidi ordering contains every byte of the paragraph exactly once",
 "For every input, including ill-formed UTF-8, unbalanced isolates, embedding controls and out-of-line markup, resolving and reordering a paragraph terminates without panic, and the segments of the ordering's runs contain every byte of the paragraph exactly once and cut no character. The paragraph extends to the first paragraph separator or, where these are ignored, to the end of the input – or to the place where the reader fails. Each run's length is the sum of its segments, which share the run's direction, and nothing keeps running in the background afterwards.",
 ["inputs", "configurations"], "all byte sequences, readers, paragraph directions, options and markup",
 "The tests resolve about thirty short ASCII texts in test mode and mostly print the result; text lost or doubled by a rule combination goes unnoticed.",
 BIDI, [m("scanner to scraps", "bidi/scanner.go Scan"), m("two-pass rule application on a stack", "bidi/resolver.go"), m("flattening into runs", "bidi/reordering.go")],
 ["ResolveParagraph", "ResolvedLevels.Reorder", "Ordering.Runs", "SegmentIterator", "number of goroutines"],
 "runtime monitoring: conservation monitor over the delivered segments",
 "Random texts of all classes and short dense sequences of isolates; texts up to some thousand characters.")
prop("B02", "Visual order and directions follow the Unicode Bidirectional Algorithm",
 "For every text without explicit embedding controls whose isolates are closed, and for both paragraph directions, the visual order and the direction of all characters obtained from the ordering by the documented procedure are those of UAX #9 with rules W1 to W7, N0 to N2, I1, I2 and L2, for isolates of all kinds and for paired brackets. A first strong isolate has the effect of the LRI or RLI which its first strong character asks for, at any nesting depth and also if it is not closed. Classes are those of Unicode 13. The test notation (upper case letters, '<', '>' and '=') is resolved like the characters it stands for. Where an option is given several times, the last setting counts.",
 ["inputs", "configurations"], "all texts with closed isolates nested up to the limit of the standard, both paragraph directions",
 "Tests compare a handful of texts; the rules interact over unbounded distances and were implemented as a rewriting system with look-ahead, so that correct samples say little.",
 BIDI + ["bidi/trie/hashtrie.go", "bidi/bracketpairs.go"], [m("rules W and N as rewrite rules on scraps", "bidi/actions.go"), m("bracket pairing BD16 and rule N0", "bidi/brackets.go, bidi/resolver.go"), m("reordering L2", "bidi/reordering.go")],
 ["Ordering.Runs", "SegmentIterator"],
 "runtime monitoring: online oracle (own UAX #9 reference) over exhaustive class sequences and random texts",
 "Every class sequence up to length 3 (quick) or 5 (thorough) in both directions plus random texts, up to 55 nested isolates and 67 nested brackets. Trusts an independent reference and the class table of x/text. Unclosed isolates and embedding controls are documented deviations; rule L1 is left to clients.")
prop("B03", "Out-of-line bidi markup acts like isolate characters",
 "Giving isolate delimiters as markup for text positions (also at the start and the end, several in sequence, closed or not) has the same effect on order and direction of all characters as inserting the corresponding isolate characters at these positions, except that no text is added. Markup is asked for at every character position up to the end of the paragraph, in order.",
 ["inputs", "configurations"], "all texts and all placements of markup",
 "A single test has markup, in the middle of a text.",
 BIDI, [m("markup is queried while reading", "bidi/scanner.go nextRune")], ["Ordering.Runs", "SegmentIterator", "ResolvedLevels.DirectionAt"],
 "runtime monitoring: metamorphic oracle (markup vs. inline characters)", "Random texts with up to 12 pieces of markup, mixed with isolate characters.")
prop("B04", "Bidi results are stable and their views agree",
 "Reordering, iterating forwards or backwards, asking for directions and splitting never change resolved levels or orderings: every repetition gives the same answer. Iterating backwards mirrors iterating forwards and both end properly, the direction at every position is the one it has in the ordering, and neighbouring runs differ in direction. Resolving the same text again gives the same result.",
 ["histories", "inputs"], "all sequences of accesses on all resolved texts",
 "Tests reorder once and iterate once.",
 ["bidi/reordering.go"], [m("reordering works on copies", "bidi/reordering.go Reorder"), m("segment iterator", "bidi/reordering.go SegmentIterator"), m("direction by position", "bidi/reordering.go DirectionAt")],
 ["ResolvedLevels.Reorder/DirectionAt/Split/String", "Run.SegmentIterator"],
 "runtime monitoring: history monitor (every access compared with the first answers)", "Random access sequences of up to 9 accesses on random texts.")
prop("B05", "Lines split off a bidi paragraph are ordered by its levels",
 "Splitting resolved levels at any characters (or at the start or end, in front of the text or anywhere behind it, giving an empty line), in any order and with or without shifting positions, gives pieces which together contain the text exactly once. Each piece is ordered visually by the levels its characters have in the whole paragraph (rule L2 per line, also for lines beginning or ending within isolates), and directions by position stay what they were. The paragraph itself is not changed.",
 ["inputs", "histories"], "all texts with closed isolates, all sequences of cuts",
 "Two tests split two texts at one position each.",
 ["bidi/reordering.go", "bidi/resolver.go"], [m("Split, re-starting isolates on the next line", "bidi/reordering.go split"), m("shifting positions", "bidi/reordering.go shiftzero")],
 ["ResolvedLevels.Split/Reorder/DirectionAt"],
 "runtime monitoring: online oracle (reference levels, L2 per line) over random sequences of cuts", "Random texts with up to 5 cuts; trusts the reference of B02.")
prop("B06", "Resolving paragraphs is race-free and independent of scheduling",
 "Resolving is free of data races between reading and resolving, and between any number of paragraphs resolved at the same time, also as first use in a process. The result does not depend on the interleaving, on how the reader portions the text or delays, and all background activity ends.",
 ["schedules", "inputs"], "all interleavings of readers and resolvers, all portions in which a reader delivers the text",
 "The tests are not run with the race detector; the scanner runs in a goroutine of its own and shares bracket lists and isolate state with the resolver.",
 ["bidi/resolver.go", "bidi/scanner.go", "bidi/brackets.go", "bidi/trie/hashtrie.go"], [m("scanner goroutine and channel", "bidi/resolver.go ResolveLevels"), m("shared bracket pairings", "bidi/scanner.go findBD16ForPos"), m("rules trie prepared once", "bidi/resolver.go prepareRulesTrie")],
 ["race detector reports", "digest of all results", "number of goroutines"],
 "runtime monitoring: race detector plus differential oracle (concurrent, chunked and delayed vs. sequential)", "Up to 8 resolvers at once under the race detector; a fresh process every 60 cases.")
prop("L01", "Line break opportunities of every text follow UAX #14",
 "For every text, the line breaker (package uax14, given a class table) allows a line break exactly where UAX #14 does: rules LB1 to LB31 as of Unicode 10, with numbers taken together as regular expressions (example 7 of section 8.2). Combining marks after spaces count as letters, pairs of regional indicators, emoji ZWJ sequences and Hangul syllables stay together. Breaks after newlines and at the end of the text are mandatory, i.e. their penalty is -10000 or less, and no other break is. This holds whatever has been segmented before.",
 ["inputs", "histories"], "all texts of any length, after any earlier uses of breaker and segmenter",
 "The package does not even compile without a generated table, so its test (the sample lines of LineBreakTest.txt) never runs; rules looking over spaces, combining marks and numbers interact over unbounded distances.",
 ["uax14/uax14.go", "uax14/rules.go", "segment/segment.go", "automata.go"], [m("one recognizer per rule", "uax14/rules.go"), m("resolution of classes and substitution for combining marks", "uax14/uax14.go CodePointClassFor, StartRulesFor"), m("penalties", "uax14/uax14.go p, ProceedWithRune")],
 ["Segmenter.Next/Text/Penalties"],
 "runtime monitoring: online oracle (own UAX #14 reference) over exhaustive class sequences and random texts",
 "Every class sequence up to length 3 (quick) or 4 (thorough) with random members, plus random texts. Trusts an independent reference, which agrees with all lines of LineBreakTest.txt, and the Line_Break data of Unicode 15 as class table (added by an overlay).")
prop("L02", "Concurrent line breakers are race-free and do not interfere",
 "Any number of goroutines may create and use line breakers of their own at the same time, also as first users in a process and while others set the class table up explicitly, without data races. Each of them breaks its texts exactly as it would alone.",
 ["schedules", "histories"], "all interleavings of line breakers on separate texts, all moments of first initialization",
 "The package's test cannot run (see L01), is sequential and not run with the race detector.",
 ["uax14/uax14.go", "uax14/rules.go", "automata.go"], [m("lazy set-up of the class table", "uax14/uax14.go SetupClasses, NewLineWrap"), m("global recognizer pool", "automata.go")],
 ["race detector reports", "digest of segments and penalties"],
 "runtime monitoring: race detector plus differential oracle (concurrent vs. sequential digests)", "Up to 8 goroutines under the race detector; a fresh process every 12 cases.")
prop("U03", "Class and bracket generators write exactly the data of their file",
 "For every data file in the format of the Unicode character database, the generators of the grapheme, word, emoji and line break classes and of the bidi bracket pairs end successfully and write Go source which compiles in its package. Its range tables contain exactly the code points which the file lists for each class, also surrogates and the last item of the file; classes are numbered and named in the documented order and looked up by their numbers; bracket pairs are the opening brackets with their counterparts, in order.",
 ["inputs", "configurations"], "all data files of the properties concerned",
 "No test runs the generators; mistakes show only when new Unicode data is adopted.",
 ["grapheme/internal/generator/generator.go", "uax29/internal/generator/generator.go", "emoji/internal/generator/generator.go", "uax14/internal/generator/generator.go", "bidi/internal/gen/brackgen.go", "internal/ucdparse/scan.go", "internal/ucdparse/linebuf.go"],
 [m("collect items per class", "…/internal/generator load…File"), m("templates of the class tables", "…/internal/generator generateRanges"), m("bracket pairs", "bidi/internal/gen/brackgen.go")], ["generated source files", "exit codes"],
 "runtime monitoring: generated files are parsed and compared with the data they were made from", "Random data files through the real command line programs; some of the results are compiled in place of the repository's file.")
prop("U04", "Bad data files and incomplete output are reported, never turned into tables",
 "For every data file which cannot be read to its end – at whatever byte the reader fails – or which has a line that is no valid data item (no code point, one beyond U+10FFFF, a range that is open or reversed), the parser terminates without panic and reports an error, delivering as valid only items of the file. The table, class and bracket generators then fail (exit code other than 0), as does the table generator when the server does not deliver the file; they also fail when the file is missing or when their output cannot be written completely.",
 ["fault_sequences", "inputs"], "all positions of a failure while reading or writing, all data files with a malformed line",
 "Tests parse a single good line; faults are never injected.",
 ["internal/ucdparse/scan.go", "internal/ucdparse/linebuf.go", "internal/tablegen/main.go", "grapheme/internal/generator/generator.go", "uax29/internal/generator/generator.go", "emoji/internal/generator/generator.go", "uax14/internal/generator/generator.go", "bidi/internal/gen/brackgen.go"],
 [m("line buffer and its error", "internal/ucdparse/linebuf.go AdvanceLine"), m("code point ranges", "internal/ucdparse/scan.go ScanRuneRange"), m("error checks", "main functions of the generators")],
 ["ucdparse.Parse", "exit codes of the generator programs"],
 "runtime monitoring with fault injection: failing readers, broken connections, malformed lines and size limits on the output", "Random data files with one fault each; every 60th case runs one of the real programs (tablegen against a server on the loopback interface).")
prop("U05", "Conformance test files are read completely and exactly",
 "For every conformance test file in the format of the Unicode character database, the tests are delivered completely, once each and in order – whatever comments, blank lines, white space and line ends are between them – each with its own comment (none if it has none), and are broken up into exactly the text and the segments which the line describes. A file that does not exist or cannot be read to its end is reported, with the tests before it delivered.",
 ["inputs"], "all test files: any number of tests, code points, comments and blank lines",
 "The conformance tests rely on this reader: a test it loses or repeats makes them pass silently.",
 ["internal/ucdparse/testfiles.go"], [m("line scanning, comments", "internal/ucdparse/testfiles.go Scan"), m("÷ × notation", "internal/ucdparse/testfiles.go BreakTestInput")],
 ["OpenTestFile, Scan, Text, Comment, Err", "BreakTestInput"],
 "runtime monitoring: round-trip oracle over generated test files", "Random test files written to a scratch directory, some far larger than the reader's buffer, some with a line it cannot hold.")
