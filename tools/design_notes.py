N["G01"] = dict(work="all sequences of grapheme classes up to length 4 (quick) or 5 (thorough) with a random member of each class, random texts from class alphabets, spliced phrases of many scripts; one breaker and segmenter reused for many texts, weights −1…9, both zero settings, all kinds of sources.",
 oracle="`harness/ref`: an independent implementation of GB1–GB999 which decides every boundary by looking at the whole text (regular-expression style, no automata), over Perl's Unicode 15 data with a reviewed list of differences to Unicode 11; mandatory break after controls and newlines.", cost="Quick ≈ 20 s.")
N["W01"] = dict(work="as for G01 with the word classes; additionally long runs of ignorable characters, regional indicators and horizontal space.",
 oracle="independent WB1–WB999 (ignorables are skipped first, then pair rules with one neighbour on each side).", cost="Quick ≈ 20 s.")
N["C01"] = dict(work="every code point, in blocks; all three look-up functions and all exported emoji tables.", oracle="Perl's Unicode data (`harness/ref/data`), mapped to Unicode 11 by an exception list.", cost="Quick and thorough are both complete, < 1 s.")
N["S01"] = dict(work="texts of all lengths (favouring those around ring-buffer and output-buffer sizes), ill-formed bytes, five kinds of sources, client buffers of any capacity, the default, real and scripted breakers (scripted ones answer late and announce matches of up to 40 runes, truthfully but with superfluous announcements).",
 oracle="segments concatenated = text; Text/Bytes/Runes agree; nothing is left after the end; recorded calls to each breaker are exactly the runes and one end of text, with matching classes; a second source gives the same.", cost="Quick ≈ 25 s.")
N["S02"] = dict(work="as S01, 1–4 breakers, penalties around the thresholds (±1 of infinite, zero sums), all zero settings.",
 oracle="a replay of the recorded answers through a reference aggregation (two independent ones: totals over the whole log for scripted breakers, decision as soon as no announced match covers a position for real ones).", cost="Quick ≈ 30 s.")
N["S03"] = dict(work="texts from all Unicode white space and look-alikes (ZWSP, BOM, word joiner).", oracle="maximal runs of `unicode.IsSpace`.", cost="Quick ≈ 15 s.")
N["S04"] = dict(work="1–4 earlier uses of segmenter and breakers (complete, abandoned after k segments, bounded, failing reader, nil input), then a text.", oracle="a fresh segmenter with fresh breakers; no stale text, penalties or error directly after initialization.", cost="Quick ≈ 20 s.")
N["S05"] = dict(work="sequences of bounds – growing, already passed, negative, inside multi-byte characters – each followed to the end or abandoned after n segments; then unbounded. Slices also with a small buffer set and with segments beyond 64 Ki runes: neither limits them, and segments have to be parts of the slice (by address).", oracle="computed from the unbounded segmentation of the same text.", cost="Quick ≈ 20 s.")
N["S06"] = dict(work="readers failing after every number of runes, for good or once only, with errors resembling the end of the text; limits from 1 to 64 Ki around segment lengths; client buffers of any capacity (segments have to be in them, by address).",
 oracle="prefix of the fault-free segmentation; error reported and sticky; segments complete before the failure are delivered (default breaker); too long exactly if longer than the larger of maximum and capacity.", cost="Quick ≈ 25 s.")
N["S07"] = dict(work="texts with real and scripted breakers, bounds and reader faults, read from a source which counts calls; 1% are streams of 12,000 to 40,000 runes repeating a random pattern of 2 to 42 characters, half of these patterns beginnings of clusters and words which are not completed.", oracle="the recorded answers of the breakers are replayed rune by rune; a read after the point where the replay has a decided break is a violation, as is a read after the end or an error; on streams the heap in use after garbage collection may grow by 40 KB at most (observed: 7 KB; a recognizer left over per pattern: more than 100 KB; observed every 1/16 of the stream).", cost="Quick ≈ 35 s.")
N["P01"] = dict(work="histories of subscriptions to several publishers, life times 1…, changing match lengths, penalties of different lengths.", oracle="trace of callbacks per subscriber: each published rune exactly once in order until done, one unsubscription after which nothing follows; maximum and sums recomputed.", cost="Quick ≈ 25 s.")
N["P02"] = dict(work="scripted state functions (match, ignore, accept with penalties, end without penalties, abort) on recognizers from the real global pool, owners storing user data and changing the expectation, several publishers interleaved.",
 oracle="a new recognizer is clean and not in use elsewhere; state functions see exactly the runes, class, match length and user data they should; aggregated answers recomputed.", cost="Quick ≈ 20 s.")
N["P03"] = dict(work="random histories of pushing active and done subscribers, changing the answer of the topmost one with Fix, redundant Fix calls (also beyond the end), Pop, PopDone, SubscribeMe and rune events, on new and zero publishers; the queue is emptied at the end.", oracle="a set of subscribers: length, membership, done before active, each taken once.", cost="Quick ≈ 6 s.")
N["I01"] = dict(work="all byte sequences up to length 2, then random ones from parts of characters, boundary bytes of UTF-8, encoded U+FFFD and long runs of continuation bytes; the returned prefix is overwritten and the call repeated.", oracle="own table of well-formed UTF-8 (Unicode table 3-7).", cost="Quick ≈ 3 s.")
N["G02"] = dict(work="texts and byte slices with ill-formed bytes at every place, lengths around 255 and 256 bytes, 32,766 and 65,535 bytes, indices in and out of range, source bytes overwritten afterwards.", oracle="clusters of the independent UAX #29 reference over the legal part.", cost="Quick ≈ 10 s.")
N["E01"] = dict(work="every code point alone in both kinds of contexts; random graphemes with combining marks, variation selectors, keycaps, joiners; strings of them; fresh processes so that set-up order varies.", oracle="East Asian Width, emoji data and the zero-width list from independent data.", cost="Quick ≈ 15 s.")
N["E02"] = dict(work="contexts with random script, locale, force flag, from random environments, reused and interleaved.", oracle="lists of East Asian scripts and locales derived from the documentation.", cost="Quick ≈ 10 s.")
N["K01"] = dict(work="random word sets over small and large alphabets with shared prefixes, words of up to 60 letters, prime sizes, up to overflow; look-ups before and after freezing, of stored and other words.", oracle="a set of prefixes.", cost="Quick ≈ 25 s.")
N["U01"] = dict(work="random data files (all planes, ranges crossing U+FFFF too, comments with number signs, blank lines, empty fields, up to 70 fields, long comments, lower case hexadecimals, all kinds of line ends, categories in any order, sizes around the 4 KiB and 64 KiB buffer limits, read in pieces of any size); 1% through the command line program and a loopback server.", oracle="the items the file was made from; generated Go source is parsed, ranges checked for order, overlap, R16/R32 split and LatinOffset.", cost="Quick ≈ 10 s.")
N["U02"] = dict(work="all 56 tables × all code points.", oracle="Perl's data for Joining_Type, Indic_Positional_Category and Indic_Syllabic_Category, restricted to characters of Unicode 13.", cost="Complete in both tiers, < 1 s.")
N["T01"] = dict(work="2–8 goroutines with random mixes of thirteen operations, a quarter with dense texts exercising all rules again and again (the pool's mutex orders goroutines and hides races, so rule completions must be frequent); random yields; a fresh process every 12 cases so that lazy set-up races are met.", oracle="Go's race detector (`-race`, happens-before), and the digest of every operation must equal the one computed sequentially afterwards.", cost="Quick ≈ 40 s. Not claimed: sharing one segmenter, breaker or a not yet evaluated width context between goroutines.")
N["B01"] = dict(work="texts from all bidirectional classes (frequent and any members), words and numbers of four scripts, brackets, isolates balanced or not, embedding controls, paragraph separators, ill-formed bytes at any place, markup; short dense isolate sequences; six kinds of readers (byte-wise, chunks, end together with data).",
 oracle="segments sorted by position must tile the paragraph; boundaries between characters; run lengths; goroutine count returns to what it was.", cost="Quick ≈ 25 s.")
N["B02"] = dict(work="all sequences of 15 classes up to length 3 (quick) or 5 (thorough), alone, behind a strong character and within an isolate; random texts; brackets nested around the limit of 63, isolates up to 55; small units repeated up to 500 times; first strong isolates around up to 300 nested ones, closed or not; UAX #9 test notation.",
 oracle="`harness/ref/bidi.go`, written from the text of UAX #9 (character-wise levels, isolating run sequences, BD16 stack), all characters except isolates and boundary neutrals are compared in visual order with their direction; the resolver itself on the text with LRI or RLI in place of FSI.", cost="Quick ≈ 35 s.")
N["B03"] = dict(work="random texts with 1–12 markups of the five kinds, balanced (three quarters) or not, mixed with isolate characters.", oracle="the same resolver on the text with isolate characters instead; coverage of B01; no goroutines left.", cost="Quick ≈ 30 s.")
N["B04"] = dict(work="2–9 accesses in random order on one resolved paragraph.", oracle="first answers; mirror of the forward iteration.", cost="Quick ≈ 30 s.")
N["B05"] = dict(work="1–5 cuts, cutting lines off the front or any piece anywhere, with and without shifting.", oracle="L2 on the slice of reference levels; coverage of each piece; directions as in the paragraph.", cost="Quick ≈ 25 s.")
N["B06"] = dict(work="1–8 goroutines with 1–3 paragraphs each, readers with random chunks, yields and sleeps; fresh process every 60 cases.", oracle="race detector; digest of runs, segments, directions and a split equals the sequential one with a plain reader; goroutine count.", cost="Quick ≈ 35 s.")
N["L01"] = dict(work="package uax14 is completed by a class table which the overlay `harness/uax14` adds (made from Unicode 15 data by `tools/mkuax14.py`; should it not fit any more, `run.sh` lets the package's own generator write one). All sequences of its 39 classes up to length 3 (quick; a third of those of length 4) or 4 (thorough), each with a random member; random texts from class alphabets and from pieces that start long rules (numbers, quotes, brackets with spaces, flags, Hangul, Hebrew with hyphens).",
 oracle="`harness/ref/linebreaks.go`: decides each position by looking at the whole text; checked against all lines of LineBreakTest.txt.", cost="Quick ≈ 70 s.")
N["L02"] = dict(work="2–8 goroutines with 1–4 texts each, new and reused line breakers, explicit and lazy set-up; fresh process every 12 cases.", oracle="race detector; digest of segments and penalties equals the sequential one.", cost="Quick ≈ 15 s.")
N["U03"] = dict(work="random data files (all classes, all planes, surrogates, grouped by class or by code point, comments) through the five real generator programs with a scratch GOPATH.", oracle="the generated source is parsed; constants, names, variables, tables and look-up are compared with the items; every eighth file is compiled in place of the repository's (bracket pairs are always type-checked).", cost="Quick ≈ 8 s.")
N["U04"] = dict(work="files as for U01 with a reader which fails after any number of bytes (for good or once, in portions of 1, 7, 100 or all bytes), a malformed line anywhere, or a line of 70,000 bytes; for the programs: HTTP errors, connections which break off or are refused, malformed lines, missing files, a directory in place of the output, and an output which cannot be written completely (`ulimit -f` at any KiB below the size which the same run had without limit, half of them at the very end).", oracle="an error must come back (the reader's own where it failed), the items delivered before are a subsequence of the good ones (the line in which the reader failed may be cut off), programs exit with a failure and without a Go panic.", cost="Quick ≈ 10 s.")
N["U05"] = dict(work="random test files: up to 1500 tests with characters of all planes, of up to 300 segments, with and without comments (also with number signs, percent signs, × and ÷), comment lines, blank lines, indentation, tabs, LF and CRLF, last line ended or not; a line of 70,000 bytes anywhere; a file that does not exist.", oracle="the tests the file was made from.", cost="Quick ≈ 20 s.")

N["X01"] = dict(work="1–4 operations per case, a third of them bidi paragraphs (with markup), the others those of T01, with a tracer at level debug (mostly), info or error which formats every message with `fmt.Sprintf`; half of the cases on one goroutine per operation; half of them traced first, so that tables and rules are set up under tracing; new processes every 60 cases.", oracle="the digest of the same operations untraced; the tracer's level afterwards; the race detector. The evidence counts messages.", cost="Quick ≈ 55 s.")
