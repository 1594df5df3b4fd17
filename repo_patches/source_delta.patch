From b38136f8a2ff2704e41737398f646c39e5fe2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 01/60] fix: PositionOfFirstLegalRune looped forever on a
 leading continuation byte

Advance past bytes which do not start a legal encoding, and do not mistake a
properly encoded U+FFFD for an encoding error.
---
 uax.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uax.go b/uax.go
index f7656cd..7db3bce 100644
--- a/uax.go
+++ b/uax.go
@@ -6,13 +6,13 @@ import "unicode/utf8"
 // start position and cut-off prefix, if any.
 func PositionOfFirstLegalRune(s string) (int, []byte) {
 	i, l, start := 0, len(s), -1
-	for i < l {
+	for ; i < l; i++ {
 		if utf8.RuneStart(s[i]) {
-			r, _ := utf8.DecodeRuneInString(s[i:])
-			if r != utf8.RuneError {
+			// an illegal encoding is signalled by a rune-error of width 1
+			if r, sz := utf8.DecodeRuneInString(s[i:]); r != utf8.RuneError || sz > 1 {
 				start = i
+				break
 			}
-			break
 		}
 	}
 	//CT().Debugf("start index = %d", start)
-- 
2.43.0


From c390a9d1f1247dfbd06b301e2d926b8215e6c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 02/60] fix: grapheme strings of empty/illegal input panicked,
 leading illegal bytes shifted graphemes, U+FFFD truncated

---
 grapheme/string.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/grapheme/string.go b/grapheme/string.go
index 6ba77dc..1956793 100644
--- a/grapheme/string.go
+++ b/grapheme/string.go
@@ -75,13 +75,12 @@ type shortString struct {
 
 func makeShortString(s string) String {
 	gstr := &shortString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, br := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint8, 1, len(s)/4+1)
-	gstr.breaks[0] = 0
-	br := 0
+	gstr.breaks[0] = uint8(br)
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -124,13 +123,12 @@ type midString struct {
 
 func makeMidString(s string) String {
 	gstr := &midString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, br := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint16, 1, len(s)/4)
-	gstr.breaks[0] = 0
-	br := 0
+	gstr.breaks[0] = uint16(br)
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -166,14 +164,17 @@ func (gstr *midString) String() string {
 
 // ---------------------------------------------------------------------------
 
-func prepareBreaking(s string) *segment.Segmenter {
-	breaker := makeGraphemeBreaker()
+// prepareBreaking returns a segmenter for s and the byte position of the first
+// legal rune in s. If s does not contain any legal runes, it returns nil.
+func prepareBreaking(s string) (*segment.Segmenter, int) {
 	start, _ := uax.PositionOfFirstLegalRune(s)
 	if start < 0 {
-		tracer().Errorf("cannot create grapheme string from invalid rune input")
+		tracer().Infof("cannot create grapheme string from invalid rune input")
+		return nil, 0
 	}
+	breaker := makeGraphemeBreaker()
 	breaker.Init(&rr{input: s[start:], pos: 0})
-	return breaker
+	return breaker, start
 }
 
 func makeGraphemeBreaker() *segment.Segmenter {
@@ -190,7 +191,7 @@ type rr struct {
 func (reader *rr) ReadRune() (r rune, size int, err error) {
 	r, size = utf8.DecodeRuneInString(reader.input)
 	tracer().Debugf("read rune %v with size %d", r, size)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && size <= 1 { // end of input or illegal encoding
 		err = io.EOF
 		return
 	}
-- 
2.43.0


From 48df45e79cf692e7cc2de097de63146e461b0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 03/60] fix: Next on a segmenter without input source panicked
 instead of reporting ErrNotInitialized

---
 segment/segment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment/segment.go b/segment/segment.go
index d7c44f4..475eda0 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -352,6 +352,7 @@ func (s *Segmenter) setErr(err error) {
 func (s *Segmenter) next(bound int) bool {
 	if s.reader == nil {
 		s.setErr(ErrNotInitialized)
+		return false
 	}
 	//
 	s.inUse = true
-- 
2.43.0


From dd30495bfaf78511fb1dfcc47d91e0fcef0cd97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 04/60] fix: re-initialized segmenter kept reporting the error
 of the previous input

---
 segment/segment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment/segment.go b/segment/segment.go
index 475eda0..3d1a024 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -157,6 +157,7 @@ func (s *Segmenter) init() {
 		s.pos = 0
 	}
 	s.positionOfBreakOpportunity = -1
+	s.err = nil
 }
 
 // Buffer sets the initial buffer to use when scanning and the maximum size of
-- 
2.43.0


From d2d3d587553b4268dde8681f5e0a2b4105c87528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 05/60] fix: re-initializing a segmenter mid-text left breaker
 state of the abandoned input behind

---
 segment/segment.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index 3d1a024..19a1a0e 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -87,6 +87,7 @@ type Segmenter struct {
 	longestActiveMatch         int                  // bookkeeping for matching
 	positionOfBreakOpportunity int                  // bookkeeping for matching
 	atEOF                      bool                 // at end of input buffer
+	midText                    bool                 // breakers are waiting for more runes or EOT
 	inUse                      bool                 // Next() has been called; buffer is in use.
 	err                        error                // collects the first error occured
 }
@@ -149,6 +150,10 @@ func (s *Segmenter) init() {
 		s.deque = &deque{} // Q of atoms
 		s.maxSegmentLen = MaxSegmentSize
 	} else {
+		if s.midText { // previous input has been abandoned: breakers have not seen EOT yet
+			s.notifyBreakers(eotAtom.r)
+			s.midText = false
+		}
 		s.deque.Clear()
 		s.longestActiveMatch = 0
 		s.atEOF = false
@@ -160,6 +165,15 @@ func (s *Segmenter) init() {
 	s.err = nil
 }
 
+// notifyBreakers sends a rune to all the breakers, without harvesting penalties.
+func (s *Segmenter) notifyBreakers(r rune) {
+	for _, breaker := range s.breakers {
+		cpClass := breaker.CodePointClassFor(r)
+		breaker.StartRulesFor(r, cpClass)
+		breaker.ProceedWithRune(r, cpClass)
+	}
+}
+
 // Buffer sets the initial buffer to use when scanning and the maximum size of
 // buffer that may be allocated during segmenting.
 // The maximum segment size is the larger of max and cap(buf).
@@ -455,6 +469,7 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 			// aggregates at the atoms in the Q.
 			qlen = s.deque.Len()
 			s.longestActiveMatch = 0
+			s.midText = !s.atEOF
 			r := s.deque.LastRune()
 			for _, breaker := range s.breakers {
 				cpClass := breaker.CodePointClassFor(r)
-- 
2.43.0


From f561b7279d29e6640e1f335ab0949777796bd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 06/60] fix: segments exceeding the buffer were silently
 truncated instead of reporting ErrTooLong

---
 segment/segment.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 19a1a0e..9f75048 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -206,8 +206,11 @@ func (s *Segmenter) RuneBuffer(buf []rune, max int) {
 	if s.inUse {
 		panic("segment.Buffer: buffer already in use; cannot be re-set")
 	}
-	if len(buf) > 0 {
-		s.runesBuf.output = buf
+	if cap(buf) > max {
+		max = cap(buf)
+	}
+	if max > 0 {
+		s.runesBuf.output = buf[:0]
 		s.runesBuf.maxSegLen = max
 	}
 }
@@ -389,7 +392,14 @@ func (s *Segmenter) next(bound int) bool {
 		return false
 	}
 	//l, _ := s.getFrontSegment(bound)
-	s.getFrontSegment(bound)
+	if _, _, err := s.getFrontSegment(bound); err != nil { // segment does not fit into buffer
+		s.setErr(err)
+		s.runesBuf = s.runesBuf.Reset(nil)
+		s.deque.Clear()
+		s.atEOF = true
+		s.positionOfBreakOpportunity = -1
+		return false
+	}
 	// tracer().Debugf("s.positionOfBreakOpp=%d", s.positionOfBreakOpportunity)
 	//tracer().P("length", strconv.Itoa(l)).Debugf("Next() = \"%s\"", s.runesBuf)
 	return true
@@ -593,14 +603,14 @@ func (s *Segmenter) insertPenalties(selector int, penalties []int) {
 // After the cut-off getFrontSegments recursivley searches for another break
 // opportunity which may have been marked by breakers with acceptable penalties.
 //
-func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
+func (s *Segmenter) getFrontSegment(bound int) (int, bool, error) {
 	seglen := 0
 	s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 	s.runesBuf = s.runesBuf.SetMark()
 	l := min(s.deque.Len()-1, s.positionOfBreakOpportunity)
 	if l < 0 {
 		panic("l < 0")
-		//return 0, true
+		//return 0, true, nil
 	}
 	var isCutOff bool
 	start := s.pos - s.deque.Len()
@@ -608,12 +618,15 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 		tracer().Debugf("segmenter: bound reached")
 		isCutOff = true // we truncate l to Q-start---->|bound
 		if l = int(bound) - int(s.pos) + s.deque.Len(); l < 0 {
-			return 0, true
+			return 0, true, nil
 		}
 	}
 	for i := 0; i <= l; i++ {
 		r, p0, p1 := s.deque.PopFront()
-		written, _ := (&s.runesBuf).WriteRune(r)
+		written, err := (&s.runesBuf).WriteRune(r)
+		if err != nil {
+			return seglen, isCutOff, err
+		}
 		seglen += written
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
@@ -627,7 +640,7 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
 		boundDist)
 	//s.printQ()
-	return seglen, isCutOff
+	return seglen, isCutOff, nil
 }
 
 // ----------------------------------------------------------------------
@@ -710,10 +723,10 @@ func (rw *runewrite) WriteRune(r rune) (int, error) {
 	} else {
 		// we're copying runes to an output buffer
 		c := cap(rw.output)
+		if len(rw.output) >= rw.maxSegLen {
+			return 0, ErrTooLong
+		}
 		if c == len(rw.output) { // if buffer full
-			if c >= rw.maxSegLen {
-				return 0, ErrTooLong
-			}
 			// extend output buffer
 			newSize := max(c+startBufSize, len(rw.output)+1)
 			if newSize > rw.maxSegLen {
@@ -750,6 +763,9 @@ func (rw runewrite) Reset(backingBuf []rune) runewrite {
 	}
 	if backingBuf == nil {
 		rw.isBacked = false
+		if rw.maxSegLen == 0 { // not set by client
+			rw.maxSegLen = MaxSegmentSize
+		}
 		if rw.output == nil {
 			rw.output = make([]rune, 0, startBufSize)
 		}
-- 
2.43.0


From 1c297493eed688d6c8d5cac2b16a833a1efa219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 07/60] fix: pooled recognizers leaked the user data of their
 previous owner

---
 automata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/automata.go b/automata.go
index f5e31a0..f61cce5 100644
--- a/automata.go
+++ b/automata.go
@@ -109,6 +109,7 @@ func (rec *Recognizer) releaseIntoPool() {
 	rec.penalties = nil
 	rec.Expect = 0
 	rec.MatchLen = 0
+	rec.UserData = nil
 	rec.nextStep = nil
 	_ = globalRecognizerPool.opool.ReturnObject(globalRecognizerPool.ctx, rec)
 }
-- 
2.43.0


From 305e1c7f49f2a4057a5971db2621f2cfd5778518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 08/60] fix: graphemes were broken after Prepend characters
 (GB9b)

---
 grapheme/grapheme.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/grapheme/grapheme.go b/grapheme/grapheme.go
index 46e34eb..eff394e 100644
--- a/grapheme/grapheme.go
+++ b/grapheme/grapheme.go
@@ -314,7 +314,16 @@ func rule_GB9a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func rule_GB9b(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := GraphemeClass(cpClass)
 	tracer().P("class", c).Debugf("fire rule Preprend")
-	return uax.DoAccept(rec, GlueJOIN)
+	rec.MatchLen++
+	return rule_GB9b_Any
+}
+
+func rule_GB9b_Any(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	c := GraphemeClass(cpClass)
+	if c == CRClass || c == LFClass || c == ControlClass || c == eot {
+		return uax.DoAbort(rec) // GB2 and GB5 take precedence
+	}
+	return uax.DoAccept(rec, 0, GlueJOIN)
 }
 
 func rule_GB11(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-- 
2.43.0


From 90c725f8ab7a198e48e0b25035084dc94a8a715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 09/60] fix: word breaker split Hebrew words when combining
 marks follow an enclosed double quote (WB7b/c)

---
 uax29/uax29.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index bca8c2e..254fd80 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -385,6 +385,7 @@ func cont_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Double_QuoteClass {
 		rec.MatchLen++
+		rec.Expect = rec.MatchLen // misuse of expect field: mark position of double quote
 		return finish_WB7bc
 	}
 	return uax.DoAbort(rec)
@@ -397,7 +398,10 @@ func finish_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Hebrew_LetterClass {
 		//tracer().Debugf("ACCEPT of Rule WB 7b,c")
-		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak, PenaltyToSuppressBreak)
+		p := make([]int, rec.MatchLen-rec.Expect+1+2)
+		p[len(p)-1] = PenaltyToSuppressBreak
+		p[1] = PenaltyToSuppressBreak
+		return uax.DoAccept(rec, p...)
 	}
 	return uax.DoAbort(rec)
 }
-- 
2.43.0


From 6ac20337fca3c9b64c6796ef745634f94a42e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 10/60] fix: word breaker split emoji ZWJ sequences with
 pictographs which are classified as letters (WB3c)

---
 uax29/uax29.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 254fd80..4072413 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -262,7 +262,8 @@ func rule_WB3c(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 
 func rule_Pictography(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX29Class(cpClass)
-	if c == emojiPictographic {
+	// some Extended_Pictographic characters are classified as letters
+	if c == emojiPictographic || unicode.Is(emoji.Extended_Pictographic, r) {
 		//tracer().Debugf("ACCEPT of Rule for Emoji")
 		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak)
 	}
-- 
2.43.0


From 6eaaba6a89dd0c8282aca7961fd53ee5185c865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 11/60] fix: width of ASCII digits was 2, and width panicked
 without prior emoji setup

---
 uax11/width.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/uax11/width.go b/uax11/width.go
index 0dc55cc..b03ad52 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -1,6 +1,7 @@
 package uax11
 
 import (
+	"unicode"
 	"unicode/utf8"
 
 	jj "github.com/cloudfoundry/jibber_jabber"
@@ -65,9 +66,9 @@ func StringWidth(s grapheme.String, context *Context) int {
 
 // width of a single grapheme in context
 func graphemeWidth(grphm []byte, context *Context) int {
-	r, _ := utf8.DecodeRune(grphm)
+	r, sz := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
-	if emoji.EmojisClassForRune(r) >= 0 {
+	if isEmoji(r, grphm[sz:]) {
 		//T().Debugf("%#U is emoji", r)
 		return 2
 	}
@@ -80,6 +81,18 @@ func graphemeWidth(grphm []byte, context *Context) int {
 	return 1
 }
 
+// isEmoji decides if a grapheme starting with rune r and continuing with rest is to be
+// displayed as an emoji. Digits, '#' and '*' do have emoji properties, but are emojis only
+// in combination with a variation selector or an enclosing keycap.
+func isEmoji(r rune, rest []byte) bool {
+	emoji.SetupEmojisClasses()
+	if unicode.Is(emoji.Emoji_Presentation, r) || unicode.Is(emoji.Extended_Pictographic, r) {
+		return true
+	}
+	next, _ := utf8.DecodeRune(rest)
+	return (next == '\ufe0f' || next == '\u20e3') && emoji.EmojisClassForRune(r) >= 0
+}
+
 // --- Context ---------------------------------------------------------------
 
 // Context represents information about the typesetting environment.
-- 
2.43.0


From 32a6844a61ab3cb7a51c55b219532db3dc7f06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 12/60] fix: bounded segmenting mixed up byte and rune
 positions and lost or exceeded the bound

BoundedNext compared byte positions with rune counts, counted the end-of-text
marker as a rune, and kept break opportunities computed for an earlier bound.
ErrBoundReached also stuck in Err() after going on beyond the bound, hiding
later errors of the reader.
---
 segment/deque.go   |   3 +-
 segment/segment.go | 192 ++++++++++++++++-----------------------------
 2 files changed, 70 insertions(+), 125 deletions(-)

diff --git a/segment/deque.go b/segment/deque.go
index fa41766..ac75933 100644
--- a/segment/deque.go
+++ b/segment/deque.go
@@ -31,10 +31,11 @@ type atom struct {
 	r        rune
 	penalty0 int // primary penalty
 	penalty1 int // penalty for all secondary breakers
+	size     int // size of r in the input text
 }
 
 // the atom denoting End of Text
-var eotAtom = atom{rune(0), uax.InfinitePenalty, uax.InfinitePenalty}
+var eotAtom = atom{rune(0), uax.InfinitePenalty, uax.InfinitePenalty, 0}
 
 func (a *atom) String() string {
 	return fmt.Sprintf("[%+q p=%d|%d]", a.r, a.penalty0, a.penalty1)
diff --git a/segment/segment.go b/segment/segment.go
index 9f75048..5ccccd5 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -82,7 +82,7 @@ type Segmenter struct {
 	runesBuf                   runewrite            // rune buffer for segment output (active segement)
 	maxSegmentLen              int                  // maximum length allowed for segments
 	lastPenalties              [2]int               // penalties at last break opportunity
-	pos                        int                  // current position in input text
+	front                      int                  // position in input text of the front of the Q
 	breakOnZero                [2]bool              // treat zero value as a valid breakpoint?
 	longestActiveMatch         int                  // bookkeeping for matching
 	positionOfBreakOpportunity int                  // bookkeeping for matching
@@ -159,7 +159,7 @@ func (s *Segmenter) init() {
 		s.atEOF = false
 		s.inUse = false
 		s.lastPenalties[0], s.lastPenalties[1] = 0, 0
-		s.pos = 0
+		s.front = 0
 	}
 	s.positionOfBreakOpportunity = -1
 	s.err = nil
@@ -312,10 +312,13 @@ func (s *Segmenter) Next() bool {
 // of infinite penalties. If the client does not want this break, it is up to the
 // client to merge this fragment with the next one, if any.
 //
+// The bound is a text position, excluding, as counted by the input: bytes for a
+// reader, runes for a slice of runes.
+//
 // See also method `Next`.
 //
 func (s *Segmenter) BoundedNext(bound int) bool {
-	return s.next(bound - 1) // semantics in `next` is including, API is excluding bound
+	return s.next(bound)
 }
 
 // setErr() records the first error encountered.
@@ -374,25 +377,20 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	s.inUse = true
-	if !s.atEOF {
-		err := s.readEnoughInputAndFindBreak(bound)
-		if err != nil && err != io.EOF {
-			s.setErr(err)
-			s.runesBuf = s.runesBuf.Reset(nil)
-			return false
-		}
-		if s.pos-s.deque.Len() > bound {
-			tracer().Debugf("exiting because of bound reached: %d-%d>%d", s.pos, s.deque.Len(), bound)
-			return false
-		}
+	if s.err == ErrBoundReached { // a previous bound is no longer of interest
+		s.err = nil
+	}
+	if err := s.readEnoughInputAndFindBreak(bound); err != nil && err != io.EOF {
+		s.setErr(err)
+		s.runesBuf = s.runesBuf.Reset(nil)
+		return false
 	}
 	//
 	if s.positionOfBreakOpportunity < 0 { // didn't find a break opportunity
 		s.runesBuf = s.runesBuf.Reset(nil)
 		return false
 	}
-	//l, _ := s.getFrontSegment(bound)
-	if _, _, err := s.getFrontSegment(bound); err != nil { // segment does not fit into buffer
+	if err := s.getFrontSegment(); err != nil { // segment does not fit into buffer
 		s.setErr(err)
 		s.runesBuf = s.runesBuf.Reset(nil)
 		s.deque.Clear()
@@ -411,8 +409,6 @@ func (s *Segmenter) next(bound int) bool {
 // (EOF is not considered an error in itself in this context).
 // For all subsequent calls to readRune where s.atEOF is true, io.EOF is returned.
 //
-// s.pos is incremented according to the byte size of the input rune.
-//
 // readRune _must_ grow the Q or return an error or EOF.
 //
 func (s *Segmenter) readRune() error {
@@ -420,10 +416,10 @@ func (s *Segmenter) readRune() error {
 		return io.EOF
 	}
 	r, sz, err := s.reader.ReadRune()
-	s.pos += sz
 	//tracer().P("rune", r).Debugf("--------------------------------------")
 	if err == nil {
 		s.deque.PushBack(r, 0, 0)
+		s.deque.AtomAt(s.deque.Len() - 1).size = sz
 		return nil
 	}
 	if err == io.EOF {
@@ -448,69 +444,53 @@ func (s *Segmenter) readRune() error {
 // We return ErrBoundReached in this case.
 //
 func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
-	// if Q consists just of 0 rune (EOT), do nothing and return false
-	//tracer().Debugf("segmenter: read enough input, EOF=%v, |Q|=%d", s.atEOF, s.deque.Len())
+	// there may be break opportunities left from previous reads
+	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch, bound)
 	for s.positionOfBreakOpportunity < 0 {
-		if s.pos-s.longestActiveMatch > bound {
+		if s.isAtBound(bound) {
 			tracer().Infof("segmenter: bound reached")
 			return ErrBoundReached
 		}
-		// tracer().Debugf("pos=%d - %d = %d --> %d", s.pos, s.longestActiveMatch,
-		qlen := s.deque.Len()
-		from := max(0, qlen-1-s.longestActiveMatch) // current longest match limit, now old
-		skipRead := false
-		if from > 0 {
-			// this may happen if the previous iteration hit a bound
-			// or if a run of no-breaks was inserted by the breaker(s)
-			//tracer().Debugf("active match is short; previous iteration did not deliver (all) breakpoints")
-			if s.positionOfBreakOpportunity >= 0 {
-				skipRead = true // we need not read in a rune if we had a breakpoint at bound
-			}
+		// read a rune and find new break opportunities
+		if err = s.readRune(); err != nil {
+			break
 		}
-		if !skipRead { // read a rune and find new break opportunities
-			if err = s.readRune(); err != nil {
-				break
-			}
-			// if s.deque.Len() == qlen { // TODO remove this after extensive testing
-			// 	panic("segmenter: code-point deque did not grow")
-			// }
-			// Now we've got read in a new rune and are ready to fire up the breakers for it.
-			// We then harvest the new-found penalties from every breaker and insert the
-			// aggregates at the atoms in the Q.
-			qlen = s.deque.Len()
-			s.longestActiveMatch = 0
-			s.midText = !s.atEOF
-			r := s.deque.LastRune()
-			for _, breaker := range s.breakers {
-				cpClass := breaker.CodePointClassFor(r)
-				breaker.StartRulesFor(r, cpClass)
-				breaker.ProceedWithRune(r, cpClass)
-				if lam := breaker.LongestActiveMatch(); lam > s.longestActiveMatch {
-					s.longestActiveMatch = lam
-				}
-				s.insertPenalties(s.inxForBreaker(breaker), breaker.Penalties())
+		// Now we've got read in a new rune and are ready to fire up the breakers for it.
+		// We then harvest the new-found penalties from every breaker and insert the
+		// aggregates at the atoms in the Q.
+		s.longestActiveMatch = 0
+		s.midText = !s.atEOF
+		r := s.deque.LastRune()
+		for _, breaker := range s.breakers {
+			cpClass := breaker.CodePointClassFor(r)
+			breaker.StartRulesFor(r, cpClass)
+			breaker.ProceedWithRune(r, cpClass)
+			if lam := breaker.LongestActiveMatch(); lam > s.longestActiveMatch {
+				s.longestActiveMatch = lam
 			}
-			//s.printQ()
-			//tracer().Debugf("-- all breakers done --")
+			s.insertPenalties(s.inxForBreaker(breaker), breaker.Penalties())
 		}
+		//s.printQ()
 		// The Q is updated. The longest active match may have been changed and
 		// we have to scan from the start of the Q to the new position of active match.
 		// If we find a breaking opportunity, we're done.
-		boundDist := bound
-		if bound < math.MaxInt64 {
-			//boundDist = bound - s.pos + s.deque.Len()
-			boundDist = bound - s.pos + qlen
-		}
-		s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen-s.longestActiveMatch,
-			boundDist)
-		//s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen - 1 - s.longestActiveMatch)
-		// tracer().Debugf("segmenter: breakpos=%d, Q-len=%d, active match=%d",
-		// 	s.positionOfBreakOpportunity, s.deque.Len(), s.longestActiveMatch)
-		//s.printQ()
+		s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch, bound)
 	}
 	return err
 }
 
+// isAtBound is true if no rune of the Q, and no rune yet to be read, starts and
+// ends before bound.
+func (s *Segmenter) isAtBound(bound int) bool {
+	switch {
+	case s.atEOF && s.deque.Len() <= 1: // just EOT left => end of input
+		return false
+	case s.deque.Len() > 0 && s.front+s.deque.AtomAt(0).size > bound:
+		return true
+	}
+	return s.front >= bound
+}
+
 // findBreakOpportunity scans a segment of the Q and will find the first atom
 // to carry a breakable penalty.
 // Say the Q has 4 elements from reading in "are ". A breaker has just inserted
@@ -523,36 +503,28 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 // segmenter parameters are active).
 //
 // A breaking opportunity will also occur at a given bound, if any, even in the case
-// of infinite penalties at the break. Parameter `boundDist` is not an absolute position,
-// but rather the distance (in runes) to the bound position.
+// of infinite penalties at the break.
 //
 // Returns the Q-position to break or -1.
-func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
-	if to-1 < 0 || boundDist < 0 {
-		return -1
-	}
-	//tracer().Debugf("segmenter: searching for break opportunity from 0 to %d|%d: ", to-1, boundDist)
-	breakopp := -1
-	i := 0
-	for ; i < to && i <= boundDist; i++ {
-		//_, p0, p1 := s.deque.At(i)
+func (s *Segmenter) findBreakOpportunity(to int, bound int) int {
+	//tracer().Debugf("segmenter: searching for break opportunity from 0 to %d|%d: ", to-1, bound)
+	pos := s.front
+	for i := 0; i < to; i++ {
 		q := s.deque.AtomAt(i)
+		if pos += q.size; pos > bound {
+			return i - 1 // previous rune is the last one before bound, if any
+		}
 		if isPossibleBreak(q.penalty0, s.breakOnZero[0]) || (len(s.breakers) > 1 && isPossibleBreak(q.penalty1, s.breakOnZero[1])) {
-			breakopp = i
 			//tracer().Debugf("segmenter: penalties[%#U] = %d|%d   --- 8< ---", j, p0, p1)
-			break
+			return i
+		}
+		isEOT := s.atEOF && i == s.deque.Len()-1
+		if pos == bound && !isEOT {
+			return i // break at bound position
 		}
 		//tracer().Debugf("segmenter: penalties[%#U] = %d|%d", j, p0, p1)
 	}
-	if breakopp >= 0 {
-		//tracer().Debugf("segmenter: break opportunity at %d", breakopp)
-	} else if i == boundDist+1 {
-		breakopp = int(boundDist)
-		//tracer().Debugf("segmenter: break at bound position %d", breakopp)
-	} else {
-		//tracer().Debugf("segmenter: no break opportunity")
-	}
-	return breakopp
+	return -1
 }
 
 // find out if the UnicodeBreaker b is the primary breaker. If yes, return index 0,
@@ -594,53 +566,25 @@ func (s *Segmenter) insertPenalties(selector int, penalties []int) {
 
 // getFrontSegments cuts off a span of runes from the front of the Q and puts
 // them into a byte-buffer.
-// Normally the segment runs from the front of the Q to the position of the
+// The segment runs from the front of the Q to the position of the
 // first feasible break.
-//
-// Things get more complicated by having a possible `bound` position, after
-// which no runes are allowed to be cut off.
-//
-// After the cut-off getFrontSegments recursivley searches for another break
-// opportunity which may have been marked by breakers with acceptable penalties.
-//
-func (s *Segmenter) getFrontSegment(bound int) (int, bool, error) {
-	seglen := 0
+func (s *Segmenter) getFrontSegment() error {
 	s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 	s.runesBuf = s.runesBuf.SetMark()
 	l := min(s.deque.Len()-1, s.positionOfBreakOpportunity)
 	if l < 0 {
 		panic("l < 0")
-		//return 0, true, nil
-	}
-	var isCutOff bool
-	start := s.pos - s.deque.Len()
-	if start+l >= bound { // front segment would extend bound
-		tracer().Debugf("segmenter: bound reached")
-		isCutOff = true // we truncate l to Q-start---->|bound
-		if l = int(bound) - int(s.pos) + s.deque.Len(); l < 0 {
-			return 0, true, nil
-		}
 	}
 	for i := 0; i <= l; i++ {
+		s.front += s.deque.AtomAt(0).size
 		r, p0, p1 := s.deque.PopFront()
-		written, err := (&s.runesBuf).WriteRune(r)
-		if err != nil {
-			return seglen, isCutOff, err
+		if _, err := (&s.runesBuf).WriteRune(r); err != nil {
+			return err
 		}
-		seglen += written
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
 	//tracer().Debugf("cutting front segment of length 0..%d: '%v'", l, s.runesBuf)
-	// There may be further break opportunities between this break and the start of the
-	// current longest match. Advance the pointer to the next break opportunity, if any.
-	boundDist := bound
-	if bound < math.MaxInt64 {
-		boundDist = bound - s.pos + s.deque.Len()
-	}
-	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
-		boundDist)
-	//s.printQ()
-	return seglen, isCutOff, nil
+	return nil
 }
 
 // ----------------------------------------------------------------------
-- 
2.43.0


From 8d9bf5d80c29cdef57df7570de749ed768d961da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 13/60] fix: word breaker gave up the break after a rune before
 the next one was seen

With BreakOnZero, the segmenter took the undecided position for a feasible break,
e.g., between a character and its combining marks (WB4).
---
 uax29/uax29.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 4072413..797ea7e 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -211,6 +211,9 @@ func (gb *WordBreaker) ProceedWithRune(r rune, cpClass int) {
 // and return the longest one for all still active recognizers.
 // (Interface uax.UnicodeBreaker)
 func (gb *WordBreaker) LongestActiveMatch() int {
+	if gb.longestMatch == 0 && len(gb.penalties) > 0 && gb.penalties[0] == 0 {
+		return 1 // next rune will decide about a break after the current one (WB4, WB999)
+	}
 	return gb.longestMatch
 }
 
-- 
2.43.0


From d9c8943c953e3b2ffbeedc3fe285cef0848a5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 14/60] fix: graphemes of zero width characters only had width
 1 instead of 0

---
 uax11/width.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/uax11/width.go b/uax11/width.go
index b03ad52..66d0e01 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -68,6 +68,9 @@ func StringWidth(s grapheme.String, context *Context) int {
 func graphemeWidth(grphm []byte, context *Context) int {
 	r, sz := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
+	if isZeroWidth(grphm) {
+		return 0
+	}
 	if isEmoji(r, grphm[sz:]) {
 		//T().Debugf("%#U is emoji", r)
 		return 2
@@ -93,6 +96,19 @@ func isEmoji(r rune, rest []byte) bool {
 	return (next == '\ufe0f' || next == '\u20e3') && emoji.EmojisClassForRune(r) >= 0
 }
 
+// isZeroWidth is true for graphemes which consist of nothing but zero width characters, i.e.
+// ZWSP, ZWNJ, ZWJ, WJ and ZWNBSP.
+func isZeroWidth(grphm []byte) bool {
+	for _, r := range string(grphm) {
+		switch r {
+		case '\u200b', '\u200c', '\u200d', '\u2060', '\ufeff':
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 // --- Context ---------------------------------------------------------------
 
 // Context represents information about the typesetting environment.
-- 
2.43.0


From 152246243bb5b3db75a799fc5d1f2c3b7f55dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 15/60] fix: table generator lost the last range of every
 category and added U+0000

---
 internal/ucdparse/gentables.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/internal/ucdparse/gentables.go b/internal/ucdparse/gentables.go
index 6b2a0ea..77d6841 100644
--- a/internal/ucdparse/gentables.go
+++ b/internal/ucdparse/gentables.go
@@ -24,35 +24,45 @@ type RangeTableCollector struct {
 	switch32         int    // range item where to switch to int32 size
 	ranges           [][2]rune
 	lo, hi           rune // low and high bound of current range
+	pending          bool // is there a current range?
 }
 
 // Append a range of runes to a range table collector. A single
 // character is denoted by l == r.
 //
 func (rt *RangeTableCollector) Append(l, r rune) {
-	if l == rt.hi+1 {
+	if rt.pending && l == rt.hi+1 && l != (1<<16) {
 		rt.hi = r // range extends previous range
 		return
 	}
+	rt.flush()
+	rt.lo, rt.hi, rt.pending = l, r, true
+}
+
+// flush appends the current range lo…hi to ranges.
+func (rt *RangeTableCollector) flush() {
+	if !rt.pending {
+		return
+	}
+	rt.ranges = append(rt.ranges, [2]rune{rt.lo, rt.hi})
+	rt.cnt++
 	// check for switch points in range list
-	if rt.latinOffset == 0 && rt.hi > unicode.MaxLatin1 {
+	if rt.hi <= unicode.MaxLatin1 {
 		rt.latinOffset = rt.cnt
 	}
-	if rt.switch32 == 0 && (rt.lo > (1<<16) || rt.hi > (1<<16)) {
-		// switch to range32
+	if rt.hi < (1 << 16) {
+		// switch to range32 after this one
 		rt.switch32 = rt.cnt
 	}
-	// append current range lo…hi to ranges
-	rt.ranges = append(rt.ranges, [2]rune{rt.lo, rt.hi})
-	rt.cnt++
-	rt.lo, rt.hi = l, r
+	rt.pending = false
 }
 
 // Output creates Go source code for a range table.
 func (rt *RangeTableCollector) Output(buf *bytes.Buffer) {
+	rt.flush()
 	printRangePreamble(buf, rt)
 	for i, r := range rt.ranges {
-		if rt.switch32 > 0 && i == rt.switch32 {
+		if i == rt.switch32 {
 			fmt.Fprintf(buf, "\t},\n\tR32: []unicode.Range32{\n")
 		}
 		fmt.Fprintf(buf, "\t\t{%#04x, %#04x, 1},\n", r[0], r[1])
-- 
2.43.0


From 17514a2c5065cb21d34bcdcd3187d54c948d9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 16/60] fix: shaping tables all contained U+0000 and lacked
 their last range

---
 shaping/arabictables.go |  20 +++-----
 shaping/uipctables.go   |  51 +++++++++----------
 shaping/uisctables.go   | 108 +++++++++++++++++-----------------------
 3 files changed, 77 insertions(+), 102 deletions(-)

diff --git a/shaping/arabictables.go b/shaping/arabictables.go
index 320fc5a..1530022 100644
--- a/shaping/arabictables.go
+++ b/shaping/arabictables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _ARAB_D = &unicode.RangeTable{ // 72 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0620, 0x0620, 1},
 		{0x0626, 0x0626, 1},
 		{0x0628, 0x0628, 1},
@@ -80,13 +79,12 @@ var _ARAB_D = &unicode.RangeTable{ // 72 entries
 		{0x10fc1, 0x10fc1, 1},
 		{0x10fc4, 0x10fc4, 1},
 		{0x10fca, 0x10fca, 1},
+		{0x1e900, 0x1e943, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_R = &unicode.RangeTable{ // 62 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0622, 0x0625, 1},
 		{0x0627, 0x0627, 1},
 		{0x0629, 0x0629, 1},
@@ -150,45 +148,43 @@ var _ARAB_R = &unicode.RangeTable{ // 62 entries
 		{0x10fb9, 0x10fba, 1},
 		{0x10fbd, 0x10fbd, 1},
 		{0x10fc2, 0x10fc3, 1},
+		{0x10fc9, 0x10fc9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_C = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0640, 0x0640, 1},
 		{0x07fa, 0x07fa, 1},
 		{0x180a, 0x180a, 1},
+		{0x200d, 0x200d, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_T = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x070f, 0x070f, 1},
 		{0x1885, 0x1886, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1e94b, 0x1e94b, 1},
+	},
 }
 
 var _ARAB_L = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0xa872, 0xa872, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10acd, 0x10acd, 1},
 		{0x10ad7, 0x10ad7, 1},
 		{0x10d00, 0x10d00, 1},
+		{0x10fcb, 0x10fcb, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_U = &unicode.RangeTable{ // 29 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0600, 0x0605, 1},
 		{0x0608, 0x0608, 1},
 		{0x060b, 0x060b, 1},
@@ -219,8 +215,8 @@ var _ARAB_U = &unicode.RangeTable{ // 29 entries
 		{0x10fc0, 0x10fc0, 1},
 		{0x10fc5, 0x10fc8, 1},
 		{0x110bd, 0x110bd, 1},
+		{0x110cd, 0x110cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
diff --git a/shaping/uipctables.go b/shaping/uipctables.go
index 786df75..d403bb2 100644
--- a/shaping/uipctables.go
+++ b/shaping/uipctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x0941, 0x0944, 1},
 		{0x094d, 0x094d, 1},
@@ -151,55 +150,56 @@ var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 		{0x11d42, 0x11d42, 1},
 		{0x11d44, 0x11d44, 1},
 		{0x11d47, 0x11d47, 1},
+		{0x11ef4, 0x11ef4, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Bottom = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0c48, 0x0c48, 1},
 		{0x0f73, 0x0f73, 1},
 		{0x0f76, 0x0f79, 1},
 		{0x0f81, 0x0f81, 1},
 		{0x1b3c, 0x1b3c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1112e, 0x1112f, 1},
+	},
 }
 
 var _UIPC_Bottom_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1b3b, 0x1b3b, 1},
 		{0xa9be, 0xa9be, 1},
 		{0xa9c0, 0xa9c0, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11942, 0x11942, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Left = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x103c, 0x103c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1171e, 0x1171e, 1},
+	},
 }
 
 var _UIPC_Overstruck = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1cd4, 0x1cd4, 1},
 		{0x1ce2, 0x1ce8, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10a01, 0x10a01, 1},
+		{0x10a06, 0x10a06, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093f, 0x093f, 1},
 		{0x094e, 0x094e, 1},
 		{0x09bf, 0x09bf, 1},
@@ -248,13 +248,12 @@ var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 		{0x119d2, 0x119d2, 1},
 		{0x119e4, 0x119e4, 1},
 		{0x11cb1, 0x11cb1, 1},
+		{0x11ef5, 0x11ef5, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09cb, 0x09cc, 1},
 		{0x0b4b, 0x0b4b, 1},
 		{0x0bca, 0x0bcc, 1},
@@ -270,13 +269,12 @@ var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 		{0x114bc, 0x114bc, 1},
 		{0x114be, 0x114be, 1},
 		{0x115ba, 0x115ba, 1},
+		{0x11938, 0x11938, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x093a, 0x093a, 1},
 		{0x0945, 0x0948, 1},
@@ -471,13 +469,12 @@ var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 		{0x11d43, 0x11d43, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d95, 0x11d95, 1},
+		{0x11ef3, 0x11ef3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x093b, 0x093b, 1},
 		{0x093e, 0x093e, 1},
@@ -643,42 +640,41 @@ var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d93, 0x11d94, 1},
 		{0x11d96, 0x11d96, 1},
+		{0x11ef6, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b4c, 0x0b4c, 1},
 		{0x0ddd, 0x0ddd, 1},
 		{0x17bf, 0x17bf, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x115bb, 0x115bb, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Right = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1b3d, 0x1b3d, 1},
 	},
 }
 
 var _UIPC_Visual_Order_Left = &unicode.RangeTable{ // 7 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e40, 0x0e44, 1},
 		{0x0ec0, 0x0ec4, 1},
 		{0x19b5, 0x19b7, 1},
 		{0x19ba, 0x19ba, 1},
 		{0xaab5, 0xaab6, 1},
 		{0xaab9, 0xaab9, 1},
+		{0xaabb, 0xaabc, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0ac9, 0x0ac9, 1},
 		{0x0b57, 0x0b57, 1},
 		{0x0cc0, 0x0cc0, 1},
@@ -689,13 +685,12 @@ var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	},
 	R32: []unicode.Range32{
 		{0x111bf, 0x111bf, 1},
+		{0x11232, 0x11233, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b48, 0x0b48, 1},
 		{0x0dda, 0x0dda, 1},
 		{0x17be, 0x17be, 1},
@@ -703,13 +698,13 @@ var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	},
 	R32: []unicode.Range32{
 		{0x114bb, 0x114bb, 1},
+		{0x115b9, 0x115b9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Bottom_And_Left = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0xa9bf, 0xa9bf, 1},
 	},
 }
 
diff --git a/shaping/uisctables.go b/shaping/uisctables.go
index bb8ae4f..da55bb3 100644
--- a/shaping/uisctables.go
+++ b/shaping/uisctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x09bc, 0x09bc, 1},
 		{0x0a3c, 0x0a3c, 1},
@@ -34,31 +33,29 @@ var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 		{0x116b7, 0x116b7, 1},
 		{0x1183a, 0x1183a, 1},
 		{0x11943, 0x11943, 1},
+		{0x11d42, 0x11d42, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Prefixed = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 	},
 	R32: []unicode.Range32{
 		{0x111c2, 0x111c3, 1},
 		{0x1193f, 0x1193f, 1},
 		{0x11a3a, 0x11a3a, 1},
+		{0x11a84, 0x11a89, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Modifying_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0b83, 0x0b83, 1},
 	},
 }
 
 var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e48, 0x0e4b, 1},
 		{0x0ec8, 0x0ecb, 1},
 		{0x1037, 0x1037, 1},
@@ -73,24 +70,22 @@ var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 		{0xaa7b, 0xaa7d, 1},
 		{0xaabf, 0xaabf, 1},
 		{0xaac1, 0xaac1, 1},
+		{0xabec, 0xabec, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Gemination_Mark = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a71, 0x0a71, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11237, 0x11237, 1},
+		{0x11a98, 0x11a98, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x0983, 0x0983, 1},
 		{0x0a03, 0x0a03, 1},
@@ -127,13 +122,12 @@ var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 		{0x11a97, 0x11a97, 1},
 		{0x11c3e, 0x11c3e, 1},
 		{0x11d41, 0x11d41, 1},
+		{0x11d96, 0x11d96, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1930, 0x1931, 1},
 		{0x1933, 0x1939, 1},
 		{0x19c1, 0x19c7, 1},
@@ -145,12 +139,13 @@ var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 		{0xaa40, 0xaa4d, 1},
 		{0xabdb, 0xabe2, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11a8a, 0x11a95, 1},
+	},
 }
 
 var _UISC_Number = &unicode.RangeTable{ // 45 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0030, 0x0039, 1},
 		{0x0966, 0x096f, 1},
 		{0x09e6, 0x09ef, 1},
@@ -197,13 +192,13 @@ var _UISC_Number = &unicode.RangeTable{ // 45 entries
 		{0x11950, 0x11959, 1},
 		{0x11c50, 0x11c6c, 1},
 		{0x11d50, 0x11d59, 1},
+		{0x11da0, 0x11da9, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d3b, 0x0d3c, 1},
 		{0x0e3a, 0x0e3a, 1},
 		{0x0e4e, 0x0e4e, 1},
@@ -226,13 +221,12 @@ var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 		{0x1172b, 0x1172b, 1},
 		{0x1193d, 0x1193d, 1},
 		{0x11a34, 0x11a34, 1},
+		{0x11d44, 0x11d44, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0904, 0x0914, 1},
 		{0x0960, 0x0961, 1},
 		{0x0972, 0x0977, 1},
@@ -321,13 +315,12 @@ var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 		{0x11d0b, 0x11d0b, 1},
 		{0x11d60, 0x11d65, 1},
 		{0x11d67, 0x11d68, 1},
+		{0x11d6a, 0x11d6b, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x002d, 0x002d, 1},
 		{0x00a0, 0x00a0, 1},
 		{0x00d7, 0x00d7, 1},
@@ -344,25 +337,25 @@ var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R32: []unicode.Range32{
 		{0x11a3f, 0x11a3f, 1},
 		{0x11a45, 0x11a45, 1},
+		{0x11ef2, 0x11ef2, 1},
 	},
-	LatinOffset: 4,
+	LatinOffset: 3,
 }
 
 var _UISC_Consonant_Head_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0f88, 0x0f8c, 1},
 	},
 }
 
 var _UISC_Non_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200c, 0x200c, 1},
 	},
 }
 
 var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1039, 0x1039, 1},
 		{0x17d2, 0x17d2, 1},
 		{0x1a60, 0x1a60, 1},
@@ -376,25 +369,24 @@ var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 		{0x11a47, 0x11a47, 1},
 		{0x11a99, 0x11a99, 1},
 		{0x11d45, 0x11d45, 1},
+		{0x11d97, 0x11d97, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Initial_Postfixed = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1a5a, 0x1a5a, 1},
 	},
 }
 
 var _UISC_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200d, 0x200d, 1},
 	},
 }
 
 var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x0981, 0x0982, 1},
 		{0x09fc, 0x09fc, 1},
@@ -452,13 +444,12 @@ var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 		{0x11c3c, 0x11c3d, 1},
 		{0x11cb5, 0x11cb6, 1},
 		{0x11d40, 0x11d40, 1},
+		{0x11d95, 0x11d95, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x094d, 0x094d, 1},
 		{0x09cd, 0x09cd, 1},
 		{0x0a4d, 0x0a4d, 1},
@@ -487,13 +478,12 @@ var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 		{0x116b6, 0x116b6, 1},
 		{0x11839, 0x11839, 1},
 		{0x119e0, 0x119e0, 1},
+		{0x11c3f, 0x11c3f, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093a, 0x093b, 1},
 		{0x093e, 0x094c, 1},
 		{0x094e, 0x094f, 1},
@@ -627,13 +617,12 @@ var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d93, 0x11d94, 1},
+		{0x11ef3, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0915, 0x0939, 1},
 		{0x0958, 0x095f, 1},
 		{0x0978, 0x097f, 1},
@@ -788,24 +777,24 @@ var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 		{0x11c72, 0x11c8f, 1},
 		{0x11d0c, 0x11d30, 1},
 		{0x11d6c, 0x11d89, 1},
+		{0x11ee0, 0x11ef1, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1963, 0x196d, 1},
 		{0xa85e, 0xa861, 1},
 		{0xa866, 0xa866, 1},
 		{0xa922, 0xa92a, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11150, 0x11154, 1},
+	},
 }
 
 var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0f8d, 0x0f97, 1},
 		{0x0f99, 0x0fbc, 1},
 		{0x1929, 0x192b, 1},
@@ -819,13 +808,12 @@ var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	},
 	R32: []unicode.Range32{
 		{0x11c92, 0x11ca7, 1},
+		{0x11ca9, 0x11caf, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0951, 0x0952, 1},
 		{0x0a51, 0x0a51, 1},
 		{0x0afa, 0x0afc, 1},
@@ -839,19 +827,18 @@ var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R32: []unicode.Range32{
 		{0x1123e, 0x1123e, 1},
 		{0x11366, 0x1136c, 1},
+		{0x11370, 0x11374, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Register_Shifter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x17c9, 0x17ca, 1},
 	},
 }
 
 var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x00b2, 0x00b3, 1},
 		{0x09fe, 0x09fe, 1},
 		{0x0f35, 0x0f35, 1},
@@ -872,19 +859,21 @@ var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R32: []unicode.Range32{
 		{0x111c9, 0x111c9, 1},
 		{0x1145e, 0x1145e, 1},
+		{0x11a33, 0x11a33, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Number_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	},
+	R32: []unicode.Range32{
+		{0x1107f, 0x1107f, 1},
 	},
 }
 
 var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093d, 0x093d, 1},
 		{0x09bd, 0x09bd, 1},
 		{0x0abd, 0x0abd, 1},
@@ -903,34 +892,31 @@ var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 		{0x114c4, 0x114c4, 1},
 		{0x119e1, 0x119e1, 1},
 		{0x11a9d, 0x11a9d, 1},
+		{0x11c40, 0x11c40, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Dead = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09ce, 0x09ce, 1},
 		{0x0d54, 0x0d56, 1},
 		{0x0d7a, 0x0d7f, 1},
+		{0x1cf2, 0x1cf3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Preceding_Repha = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d4e, 0x0d4e, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11941, 0x11941, 1},
+		{0x11d46, 0x11d46, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a75, 0x0a75, 1},
 		{0x0ebc, 0x0ebd, 1},
 		{0x103b, 0x103e, 1},
@@ -946,53 +932,51 @@ var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 		{0x11940, 0x11940, 1},
 		{0x11942, 0x11942, 1},
 		{0x11a3b, 0x11a3e, 1},
+		{0x11d47, 0x11d47, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Killer = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e4c, 0x0e4c, 1},
+		{0x17cd, 0x17cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Brahmi_Joining_Number = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	},
+	R32: []unicode.Range32{
+		{0x11052, 0x11065, 1},
 	},
 }
 
 var _UISC_Consonant_With_Stacker = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0cf1, 0x0cf2, 1},
 		{0x1cf5, 0x1cf6, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11003, 0x11004, 1},
+		{0x11460, 0x11461, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Succeeding_Repha = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x17cc, 0x17cc, 1},
 		{0x1b03, 0x1b03, 1},
 		{0x1b81, 0x1b81, 1},
+		{0xa982, 0xa982, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Tone_Letter = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1970, 0x1974, 1},
 		{0xaac0, 0xaac0, 1},
+		{0xaac2, 0xaac2, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
-- 
2.43.0


From ac999d1aca45f7bd4335aa9cb3a5a5921c3d7a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 17/60] fix: first word breakers created concurrently raced on
 the class tables

---
 uax29/uax29.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 797ea7e..813f59f 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -135,9 +135,6 @@ func NewWordBreaker(weight int) *WordBreaker {
 		KatakanaClass:           {rule_WB13, rule_WB13a},
 		Regional_IndicatorClass: {rule_WB15},
 	}
-	if rangeFromUAX29Class == nil {
-		tracer().Infof("UAX#29 classes not yet initialized -> initializing")
-	}
 	SetupUAX29Classes()
 	return gb
 }
-- 
2.43.0


From d71b76de994797820b346d465adc1199661fcd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 18/60] fix: bidi rules W7 and N1 for numbers duplicated text
 following the number

---
 bidi/actions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index d22f252..dbab727 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -142,7 +142,7 @@ func ruleW7() (*bidiRule, []byte) {
 				L[0].bidiclz = bidi.L
 				return L, 0, true // replace EN with L, start again with L
 			}
-			return match, 1, true // step over EN
+			return match[:1], 1, false // step over EN
 		},
 	}, lhs
 }
@@ -322,7 +322,7 @@ func makeMidSwapRule(name string, lhs []byte, c bidi.Class, jmp int) *bidiRule {
 		pass:   2, // all mid-swap rules are Nx rules ⇒ pass 2
 		action: func(match []scrap) ([]scrap, int, bool) {
 			match[1].bidiclz = c // change class of middle interval
-			return match, jmp, false
+			return match[:len(lhs)], jmp, false
 		},
 	}
 }
-- 
2.43.0


From 090fdde015138c45224183b3a9cb3429c75bed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 19/60] fix: bidi rule N1 lost the text of neutrals between
 right-to-left text and numbers

---
 bidi/actions.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index dbab727..6220fc3 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -187,9 +187,8 @@ func ruleN1_3() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.AN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -202,9 +201,8 @@ func ruleN1_4() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.EN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -217,7 +215,7 @@ func ruleN1_5() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -240,7 +238,7 @@ func ruleN1_8() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
-- 
2.43.0


From d50687d30769b24d7987a01639e9ed96ab18097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 20/60] fix: bidi scanner used wrong strong contexts for
 numbers after Arabic letters, after isolates and at the start of
 right-to-left text

---
 bidi/scanner.go | 84 +++++++++++++++++++++++++------------------------
 bidi/scrap.go   |  3 ++
 2 files changed, 46 insertions(+), 41 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index ca64101..24c2bc6 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -146,7 +146,7 @@ func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 	var lookahead scrap
 	current := sc.initialOuterScrap(false)
-	lastAL := int64(-1) // position of last AL character-run in input
+	isAL := false // is the last strong character of current an AL?
 	for {
 		r, length, bidiclz, ok := sc.nextRune(current.r) // read the next input rune
 		if !ok {                                         // if EOF, drain lookahead and quit
@@ -166,8 +166,9 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				bidiclz = setTestingIRSDelimiter(r, bidiclz)
 			}
 		}
-		isAL := bidiclz == bidi.AL                     // AL will be changed by rule W3
-		bidiclz = applyRulesW1to3(r, bidiclz, current) // UAX#9 W1–3 handled by scanner
+		inputclz := bidiclz                                     // AL will be changed by rule W3
+		context := sc.contextAfter(current, isAL)               // context for the lookahead
+		bidiclz = applyRulesW1to3(r, bidiclz, current, context) // UAX#9 W1–3 handled by scanner
 		//lookahead = makeScrap(r, bidiclz, lapos, length)
 		lookahead = makeScrap(r, bidiclz, current.r, length)
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
@@ -181,18 +182,26 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				sc.post(current, pipe) // put current on channel
 			}
 			// proceed ahead, making lookahead the current scrap
-			if isisolate(lookahead) && lookahead.bidiclz != bidi.PDI {
-				sc.ctxstack = append(sc.ctxstack, current.context)
-			} else if current.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 {
-				current.context = sc.ctxstack[len(sc.ctxstack)-1]
-				sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
+			if current.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 {
+				sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1] // back to outer context
 			}
-			lookahead = inheritStrongTypes(lookahead, current, lastAL)
-			current = sc.prepareRuleBD16(r, lookahead)
-			if isAL {
-				lastAL = int64(current.l)
+			lookahead.context = context
+			switch lookahead.bidiclz {
+			case bidi.LRI:
+				sc.ctxstack = append(sc.ctxstack, context)
+				lookahead.context.embeddingDir = bidi.L
+			case bidi.RLI:
+				sc.ctxstack = append(sc.ctxstack, context)
+				lookahead.context.embeddingDir = bidi.R
+			case bidi.FSI:
+				sc.ctxstack = append(sc.ctxstack, context)
 			}
+			current = sc.prepareRuleBD16(r, lookahead)
+			isAL = inputclz == bidi.AL
 		} else { // otherwise the current scrap grows
+			if inputclz == bidi.AL || inputclz == bidi.R {
+				isAL = inputclz == bidi.AL
+			}
 			current = collapse(current, lookahead, current.bidiclz) // meld LA with current
 			tracer().Debugf("current bidi scanner scrap = %s, next iteration", current)
 		}
@@ -232,9 +241,9 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 }
 
 // applyRulesW1to3 returns the Bidi_Class for a rune. It will apply certain UAX#9
-// rules immediately to relief the parser.
-//
-func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
+// rules immediately to relief the parser. Parameter current is the preceding scrap and
+// context is the directional context for the rune.
+func applyRulesW1to3(r rune, clz bidi.Class, current scrap, context dirContext) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
 	case bidi.NSM: // rule W1, handle accents
@@ -248,8 +257,7 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
 		}
 		return currclz
 	case bidi.EN: // rule W2
-		if current.context.IsAL() {
-			tracer().Errorf("========= context: %v", current.context)
+		if context.IsAL() {
 			return bidi.AN
 		}
 	case bidi.AL: // rule W3
@@ -284,34 +292,28 @@ func (sc *bidiScanner) prepareRuleBD16(r rune, s scrap) scrap {
 	return s
 }
 
-// lastAL is the position of the last AL character that has occured (before
-// UAX#9 rule W3 changed it)
-func inheritStrongTypes(dest, src scrap, lastAL int64) scrap {
-	tracer().Debugf("bidi scanner: inherit %s => %s     %v", src, dest, src.context)
-	dest.context = src.context
-	switch dest.bidiclz {
-	case bidi.LRI:
-		dest.context.embeddingDir = bidi.L
+// contextAfter returns the directional context for text following scrap s.
+// isAL is true if the last strong character of s has been an AL (before
+// UAX#9 rule W3 changed it).
+func (sc *bidiScanner) contextAfter(s scrap, isAL bool) dirContext {
+	context := s.context
+	switch s.bidiclz {
+	case bidi.L, bidi.LRI:
+		context.SetStrongType(bidi.L, s.l)
 	case bidi.RLI:
-		dest.context.embeddingDir = bidi.R
-		//panic("R2")
-	default:
-		if lastAL >= 0 {
-			dest.context.SetStrongType(bidi.AL, charpos(lastAL))
+		context.SetStrongType(bidi.R, s.l)
+	case bidi.R:
+		if isAL {
+			context.SetStrongType(bidi.AL, s.l)
+		} else {
+			context.SetStrongType(bidi.R, s.l)
 		}
-		switch src.bidiclz {
-		case bidi.L, bidi.LRI:
-			dest.context.SetStrongType(bidi.L, src.l)
-			tracer().Debugf("bidi scanner LA has L context=%v from %v", dest.context, src.context)
-		case bidi.R, bidi.RLI:
-			dest.context.SetStrongType(bidi.R, src.l)
-			tracer().Debugf("bidi scanner LA has R context=%v from %v", dest.context, src.context)
-		case bidi.AL:
-			dest.context.SetStrongType(bidi.AL, src.l)
-			tracer().Debugf("bidi scanner lA has AL context=%v from %v", dest.context, src.context)
+	case bidi.PDI: // re-establish the context of the outer run sequence
+		if len(sc.ctxstack) > 0 {
+			context = sc.ctxstack[len(sc.ctxstack)-1]
 		}
 	}
-	return dest
+	return context
 }
 
 // --- Nesting isolating run sequences ---------------------------------------
diff --git a/bidi/scrap.go b/bidi/scrap.go
index 47095fa..2025ffb 100644
--- a/bidi/scrap.go
+++ b/bidi/scrap.go
@@ -225,11 +225,14 @@ func (dc dirContext) IsAL() bool {
 	return dc.strong == bidi.AL
 }
 
+// SetEmbedding sets the embedding direction, which is the strong context at the start
+// of a sequence, too.
 func (dc *dirContext) SetEmbedding(dir bidi.Direction) dirContext {
 	if dir == bidi.LeftToRight {
 		dc.embeddingDir = bidi.L
 	} else if dir == bidi.RightToLeft {
 		dc.embeddingDir = bidi.R
 	}
+	dc.strong = dc.embeddingDir
 	return *dc
 }
-- 
2.43.0


From 5e2e82800f1af1417b79195b593adeaa00f78a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 21/60] fix: bidi reordering misplaced numbers, isolates within
 opposite text, and changed the resolved levels

---
 bidi/reordering.go | 177 +++++++++++++++++++++++++--------------------
 1 file changed, 100 insertions(+), 77 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index f2f81c6..a9181ea 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -237,11 +237,11 @@ func reorder(scraps []scrap, i, j int, embedded Direction) []scrap {
 			if level(s, embedded) == 0 {
 				state = 0
 				tracer().Debugf("reverse(%d, %d)", startRunR, pos)
-				reverse(scraps, startRunR, pos)
+				reverseRun(scraps, startRunR, pos, embedded)
 				startRunR = 0
 			} else if pos == j {
 				tracer().Debugf("EOF reverse(%d, %d)", startRunR, pos+1)
-				reverse(scraps, startRunR, pos+1)
+				reverseRun(scraps, startRunR, pos+1, embedded)
 			}
 		}
 		if pos == j || s.bidiclz == cNULL {
@@ -252,6 +252,21 @@ func reorder(scraps []scrap, i, j int, embedded Direction) []scrap {
 	return scraps
 }
 
+func copyScraps(scraps []scrap) []scrap {
+	cp := make([]scrap, len(scraps))
+	copy(cp, scraps)
+	for i, s := range cp {
+		if len(s.children) == 0 {
+			continue
+		}
+		cp[i].children = make([][]scrap, len(s.children))
+		for j, ch := range s.children {
+			cp[i].children[j] = copyScraps(ch)
+		}
+	}
+	return cp
+}
+
 func level(s scrap, embedded Direction) int {
 	if s.bidiclz == bidi.EN || s.bidiclz == bidi.AN {
 		return 2
@@ -262,6 +277,23 @@ func level(s scrap, embedded Direction) int {
 	return 0
 }
 
+// reverseRun reverses a run [i,j) of scraps with level > 0. Sequences of numbers have a
+// level of their own within left-to-right text and keep their order.
+func reverseRun(scraps []scrap, i, j int, embedded Direction) {
+	reverse(scraps, i, j)
+	if embedded == RightToLeft {
+		return
+	}
+	for i < j {
+		k := i
+		for k < j && level(scraps[k], embedded) == 2 {
+			k++
+		}
+		reverse(scraps, i, k)
+		i = k + 1
+	}
+}
+
 // reverse ordering of [i,j)
 func reverse(scraps []scrap, i, j int) []scrap {
 	if i > j {
@@ -289,6 +321,11 @@ func reverseWithoutIsolates(scraps []scrap, i, j int) []scrap {
 		j--
 	}
 	tracer().Debugf("reverse w/ isolates %d…%d : %v", i, j, scraps)
+	for _, s := range scraps { // nested isolates follow the ordering of the outer one
+		for _, ch := range s.children {
+			reverseWithoutIsolates(ch, 0, len(ch))
+		}
+	}
 	return reverse(scraps, i, j)
 }
 
@@ -312,112 +349,96 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 }
 
 func flatten(scraps []scrap, embedding Direction) []Run {
+	return flattenIRS(nil, scraps, embedding, embedding)
+}
+
+// flattenIRS appends the runs of an isolating run sequence to runs. All the scraps have been
+// reordered relative to the direction of the outermost run sequence.
+//
+// Runs are ordered relative to the outermost direction, too, while the scraps within a run
+// follow the direction of the run.
+func flattenIRS(runs []Run, scraps []scrap, embedding, outermost Direction) []Run {
 	tracer().Debugf("will flatten( %v ), emb=%v", scraps, embedding)
-	var runs []Run
-	var last Run
 	if len(scraps) > 0 && isisolate(scraps[0]) {
 		embedding = directionFromBidiClass(scraps[0], embedding)
 	}
 	for _, s := range scraps {
-		tracer().Debugf("s=%v, |ch|=%d, last=%v", s, len(s.children), last)
-		if len(s.children) == 0 {
-			last, runs = extendRuns(s, last, runs, embedding)
-			tracer().Debugf("runs = %v", runs)
-			continue
-		}
-		var cut scrap
+		dir := directionFromBidiClass(s, embedding)
+		cuts := make([]scrap, 0, len(s.children)+1) // parts of s around its children
+		children := make([][]scrap, 0, len(s.children))
 		for _, ch := range s.children {
 			if len(ch) == 0 {
 				continue
 			}
-			tracer().Debugf("scrap has child = %v ------------------", ch)
+			var cut scrap
 			cut, s = cutScrapAt(s, ch)
-			last, runs = extendRuns(cut, last, runs, embedding)
-			//chrun := flatten(ch, embedding) // TODO embedding -> last.Dir ?
-			chruns := flatten(ch, last.Dir) // TODO embedding -> last.Dir ?
-			tracer().Debugf("flattened child = %v", chruns)
-			tracer().Debugf("----------------------------------------------------------------")
-			last, runs = appendRuns(chruns, last, runs)
-			tracer().Debugf("runs+child=%v, last=%v", runs, last)
+			cuts, children = append(cuts, cut), append(children, ch)
+		}
+		cuts = append(cuts, s)
+		if dir == outermost {
+			for i, cut := range cuts {
+				runs = extendRuns(runs, cut, embedding, outermost)
+				if i < len(children) {
+					runs = flattenIRS(runs, children[i], dir, outermost)
+				}
+			}
+		} else { // s is to be read in the opposite direction
+			for i := len(cuts) - 1; i >= 0; i-- {
+				if i < len(children) {
+					runs = flattenIRS(runs, children[i], dir, outermost)
+				}
+				runs = extendRuns(runs, cuts[i], embedding, outermost)
+			}
 		}
-		tracer().Debugf("after children: s=%v, runs=%v", s, runs)
-		last, runs = extendRuns(s, last, runs, embedding)
-		tracer().Debugf("runs = %v", runs)
 	}
 	return runs
 }
 
-func extendRuns(s scrap, last Run, runs []Run, embedding Direction) (Run, []Run) {
-	tracer().Debugf("extendRuns(%v), last=%v, runs=%v", s, last, runs)
-	if s.len() == 0 { // important. must correlate to semantics of runappend()
-		return last, runs
-	}
-	dir := directionFromBidiClass(s, embedding)
-	if last.Length == 0 { // we are at the start of a sequence
-		// last.L = uint64(s.l)
-		// last.R = uint64(s.r)
-		last = run(s, embedding)
-		//last.concat(last)
-		//last.Length = int64(s.len())
-		runs = runappend(runs, last)
-	} else if last.Dir == dir { // just extend last with s
-		//last.R = uint64(s.r)
-		last.concat(run(s, embedding))
-		tracer().Debugf("extending %v with %v", runs, last)
-		runs[len(runs)-1] = last
-	} else { // have to switch directions
-		tracer().Debugf("switching dir")
-		last = run(s, embedding)
-		// last = Run{
-		// 	// L:   uint64(s.l),
-		// 	// R:   uint64(s.r),
-		// 	Dir:    dir,
-		// 	Length: int64(s.len()),
-		// }
-		runs = runappend(runs, last)
-	}
-	return last, runs
+// extendRuns appends s to runs, either by extending the last run or by starting a new one.
+func extendRuns(runs []Run, s scrap, embedding, outermost Direction) []Run {
+	if s.len() == 0 {
+		return runs
+	}
+	r := run(s, embedding)
+	if len(runs) == 0 || runs[len(runs)-1].Dir != r.Dir {
+		return append(runs, r)
+	}
+	last := &runs[len(runs)-1]
+	if r.Dir == outermost {
+		last.concat(r)
+	} else { // scraps within a run follow the direction of the run
+		r.concat(*last)
+		*last = r
+	}
+	return runs
 }
 
 func cutScrapAt(s scrap, ch []scrap) (scrap, scrap) {
 	if len(ch) == 0 {
 		panic("internal inconsistency: ch may not be empty")
 	}
+	l, r := ch[0].l, ch[0].r
+	for _, c := range ch { // scraps of ch may have been reordered
+		if c.l < l {
+			l = c.l
+		}
+		if c.r > r {
+			r = c.r
+		}
+	}
 	cut := scrap{
 		l:       s.l,
-		r:       ch[0].l,
+		r:       l,
 		bidiclz: s.bidiclz,
 	}
 	rest := scrap{
-		l:       ch[len(ch)-1].r,
+		l:       r,
 		r:       s.r,
 		bidiclz: s.bidiclz,
 	}
 	return cut, rest
 }
 
-func appendRuns(childRuns []Run, last Run, runs []Run) (Run, []Run) {
-	if len(childRuns) == 0 {
-		return last, runs
-	}
-	if childRuns[0].Dir == last.Dir {
-		//last.Length = childRuns[0].Length
-		last.concat(childRuns[0])
-		runs = append(runs, childRuns[1:]...)
-	} else {
-		runs = append(runs, childRuns...)
-	}
-	last = runs[len(runs)-1]
-	return last, runs
-}
-
-func runappend(runs []Run, r Run) []Run {
-	if r.Length > 0 {
-		runs = append(runs, r)
-	}
-	return runs
-}
-
 func directionFromBidiClass(s scrap, embedding Direction) Direction {
 	switch s.bidiclz {
 	case bidi.L, bidi.LRI:
@@ -443,7 +464,8 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 	if len(rl.scraps) == 0 {
 		return &Ordering{}
 	}
-	rscr := reorder(rl.scraps, 0, len(rl.scraps), rl.embedding)
+	rscr := copyScraps(rl.scraps) // reorder is destructive
+	rscr = reorder(rscr, 0, len(rscr), rl.embedding)
 	tracer().Debugf("=====reorder done, flatten ========")
 	r := flatten(rscr, rl.embedding)
 	return &Ordering{Runs: r}
@@ -502,6 +524,7 @@ func (r *Run) SegmentIterator(reverse bool) *SegmentIterator {
 		reverse: reverse,
 	}
 	if reverse {
+		it.scraps = copyScraps(r.scraps) // do not change the run
 		mid := len(it.scraps) / 2
 		for i := 0; i < mid; i++ {
 			j := len(it.scraps) - i - 1
-- 
2.43.0


From 5cd87ee97de2550925e69dd96c233defde8845e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 22/60] fix: bidi rules N1-5, N1-6, N1-8 and N1-9 were never
 found, as the rules trie relocates entries

---
 bidi/resolver.go | 86 ++++++++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 50 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 9bc664e..8f97b54 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -499,59 +499,45 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 			tracer().Errorf(err.Error())
 			panic(err.Error())
 		}
-		var r *bidiRule
 		tracelevel := tracer().GetTraceLevel()
 		tracer().SetTraceLevel(tracing.LevelInfo)
-		var lhs []byte
 		// --- allocate all the rules ---
-		r, lhs = ruleW4_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW4_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW4_3()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW5_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW5_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6_3()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6x()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW7()
-		allocRule(trie, r, lhs)
-		// r, lhs = ruleN1_0()
-		// allocRule(trie, r, lhs)
-		r, lhs = ruleN1_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_3()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_4()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_5()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_6()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_7()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_8()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_9()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_10()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleL()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleR()
-		allocRule(trie, r, lhs)
+		allRules := []func() (*bidiRule, []byte){
+			ruleW4_1,
+			ruleW4_2,
+			ruleW4_3,
+			ruleW5_1,
+			ruleW5_2,
+			ruleW6_1,
+			ruleW6_2,
+			ruleW6_3,
+			ruleW6x,
+			ruleW7,
+			// ruleN1_0,
+			ruleN1_1,
+			ruleN1_2,
+			ruleN1_3,
+			ruleN1_4,
+			ruleN1_5,
+			ruleN1_6,
+			ruleN1_7,
+			ruleN1_8,
+			ruleN1_9,
+			ruleN1_10,
+			ruleN2,
+			ruleL,
+			ruleR,
+		}
+		for _, makeRule := range allRules {
+			_, lhs := makeRule()
+			trie.AllocPositionForWord(lhs)
+		}
+		// Entering words may relocate words already entered, therefore rules may not be
+		// stored until all the positions are settled.
+		for _, makeRule := range allRules {
+			r, lhs := makeRule()
+			allocRule(trie, r, lhs)
+		}
 		// ------------------------------
 		trie.Freeze()
 		tracer().SetTraceLevel(tracelevel)
-- 
2.43.0


From 99c37522b6097ad26a9f08c77e6f1dbb41e49a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 23/60] fix: bidi neutrals next to separators or isolates were
 resolved one by one

---
 bidi/actions.go  | 6 +++---
 bidi/resolver.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 6220fc3..741de6f 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -106,17 +106,17 @@ func ruleW5_2() (*bidiRule, []byte) {
 
 func ruleW6_1() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ET)
-	return makeSquashRule("W6-1", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-1", lhs, cNI, -1), lhs
 }
 
 func ruleW6_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ES)
-	return makeSquashRule("W6-2", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-2", lhs, cNI, -1), lhs
 }
 
 func ruleW6_3() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.CS)
-	return makeSquashRule("W6-3", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-3", lhs, cNI, -1), lhs
 }
 
 func ruleW6x() (*bidiRule, []byte) {
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 8f97b54..cf13434 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -246,7 +246,7 @@ func (p *parser) applySubIRS(startIRS int) int {
 	p.sp = startSubIRS // jump back to start of “IRS match”
 	p.reduce(runlen, rhs, startIRS)
 	//return p.sp + 1 // walk over cNI just produced
-	return p.sp
+	return max(startIRS, p.sp-1) // neutrals may precede the cNI just produced
 }
 
 // pass 2 operates on the scraps laying on the stack, starting at the
-- 
2.43.0


From 16567c5f47158e126ec7dff365fb3c5aa10fd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 24/60] fix: bidi rule W4 joined numbers over several
 separators and after currency or percent signs

---
 bidi/actions.go | 29 ++++++++++++++++++++++++++---
 bidi/scanner.go |  7 ++++++-
 bidi/scrap.go   |  1 +
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 741de6f..b884d62 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -69,12 +69,12 @@ type ruleAction func([]scrap) ([]scrap, int, bool)
 
 func ruleW4_1() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.EN, bidi.ES, bidi.EN)
-	return makeSquashRule("W4-1", lhs, bidi.EN, -2), lhs
+	return makeSeparatorRule("W4-1", lhs), lhs
 }
 
 func ruleW4_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.EN, bidi.CS, bidi.EN)
-	return makeSquashRule("W4-2", lhs, bidi.EN, -2), lhs
+	return makeSeparatorRule("W4-2", lhs), lhs
 }
 
 func ruleW4_3() (*bidiRule, []byte) {
@@ -82,6 +82,22 @@ func ruleW4_3() (*bidiRule, []byte) {
 	return makeSquashRule("W4-3", lhs, bidi.AN, -2), lhs
 }
 
+// makeSeparatorRule creates a rule for a separator between European numbers. W4 is not
+// applicable if the separator does not follow a number, but a European terminator which
+// is treated as one because of W5.
+func makeSeparatorRule(name string, lhs []byte) *bidiRule {
+	rule := makeSquashRule(name, lhs, bidi.EN, -2)
+	join := rule.action
+	rule.action = func(match []scrap) ([]scrap, int, bool) {
+		if match[0].isET {
+			match[1].bidiclz = cNI // W6
+			return match[:3], 0, false
+		}
+		return join(match)
+	}
+	return rule
+}
+
 // W5. A sequence of European terminators adjacent to European numbers
 //     changes to all European numbers.
 // ET ET EN → EN EN EN
@@ -95,7 +111,13 @@ func ruleW5_1() (*bidiRule, []byte) { // W5-1 and W5-3
 
 func ruleW5_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.EN, bidi.ET)
-	return makeSquashRule("W5-2", lhs, bidi.EN, -2), lhs
+	rule := makeSquashRule("W5-2", lhs, bidi.EN, -2)
+	join := rule.action
+	rule.action = func(match []scrap) ([]scrap, int, bool) {
+		match[1].isET = true
+		return join(match)
+	}
+	return rule, lhs
 }
 
 // W6. Otherwise, separators and terminators change to Other Neutral.
@@ -302,6 +324,7 @@ func squash(c bidi.Class, n int, jmp int) ruleAction {
 		last := match[n-1]
 		//T().Debugf("squash: match=%v,  last = %s", match, last)
 		match[0].r = last.r
+		match[0].isET = last.isET
 		match[0].bidiclz = c
 		for i, iv := range match[:n] {
 			if i == 0 {
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 24c2bc6..25db846 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -174,7 +174,7 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
 		// the current scrap is finished if the lookahead cannot extend it
-		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) {
+		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) || isseparator(current) {
 			if current.bidiclz != cNULL { // if the current scrap is not the initial null scrap
 				if isisolate(current) {
 					sc.handleIsolatingRunSwitch(current)
@@ -326,6 +326,11 @@ func isisolate(s scrap) bool {
 	return false
 }
 
+// isseparator is true for number separators. UAX#9 rule W4 is about single separators.
+func isseparator(s scrap) bool {
+	return s.bidiclz == bidi.ES || s.bidiclz == bidi.CS
+}
+
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
diff --git a/bidi/scrap.go b/bidi/scrap.go
index 2025ffb..7c31f65 100644
--- a/bidi/scrap.go
+++ b/bidi/scrap.go
@@ -35,6 +35,7 @@ type scrap struct {
 	l, r     charpos    // left and right bounds, r not included
 	context  dirContext // directional context
 	children [][]scrap  // may build up a tree of isolating run sequences
+	isET     bool       // number ends with a European terminator
 }
 
 func (s scrap) String() string {
-- 
2.43.0


From 2923553ef248a64165ec91639d65821cc9cf05db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 25/60] fix: bidi treated accents at the start or after
 brackets and boundary neutrals as text of unknown direction

---
 bidi/scanner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 25db846..229494e 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -166,6 +166,10 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				bidiclz = setTestingIRSDelimiter(r, bidiclz)
 			}
 		}
+		if current.bidiclz != cNULL && (bidiclz == bidi.BN || bidiclz == bidi.NSM && isbracket(current)) {
+			current.r += charpos(length) // BNs are to be ignored (X9), brackets keep their accents (N0)
+			continue
+		}
 		inputclz := bidiclz                                     // AL will be changed by rule W3
 		context := sc.contextAfter(current, isAL)               // context for the lookahead
 		bidiclz = applyRulesW1to3(r, bidiclz, current, context) // UAX#9 W1–3 handled by scanner
@@ -246,8 +250,12 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 func applyRulesW1to3(r rune, clz bidi.Class, current scrap, context dirContext) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
+	case bidi.BN: // to be ignored (X9)
+		return context.EmbeddingDir()
 	case bidi.NSM: // rule W1, handle accents
 		switch currclz {
+		case cNULL: // sos
+			return context.EmbeddingDir()
 		case bidi.LRI:
 			return bidi.L
 		case bidi.RLI:
-- 
2.43.0


From 1f49f625f500e8eb039180fb37edf6d76ccaf107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 26/60] fix: bidi resolver left a goroutine behind for empty
 paragraphs

---
 bidi/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 229494e..623c676 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -153,8 +153,10 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			if isisolate(current) { // if last character is PDI
 				sc.handleIsolatingRunSwitch(current)
 			}
-			sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
-			sc.stop(pipe)          // then send quit signal to parser
+			if current.bidiclz != cNULL { // there is none for empty input
+				sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
+			}
+			sc.stop(pipe) // then send quit signal to parser
 			break
 		}
 
-- 
2.43.0


From 3b560efaca3af5d310fe2b3cb41f8c01a375537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 27/60] fix: bidi resolver dropped text after an unmatched PDI
 and missed short isolates at the end

---
 bidi/resolver.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index cf13434..8933e46 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -170,11 +170,8 @@ func (p *parser) reduce(n int, rhs []scrap, startIRS int) {
 // reading a (premature) EOF.
 //
 func (p *parser) pass1(startIRS int) bool {
-	p.sp = startIRS              // start at beginning of isolating run sequence
-	la := 0                      // length of lookahead LA
-	if _, ok := p.read(3); !ok { // initially load 3 scraps
-		return false // no input to read
-	}
+	p.sp = startIRS // start at beginning of isolating run sequence
+	la := 0         // length of lookahead LA
 	var rule, shortrule *bidiRule
 	walk := false // if true, accept walking over 1 scrap
 	pdi := false
@@ -195,7 +192,10 @@ func (p *parser) pass1(startIRS int) bool {
 			rule = shortrule
 			if rule == nil || rule.pass > 1 {
 				tracer().Debugf("walking over %s", p.stack[p.sp])
-				if p.stack[p.sp].bidiclz == bidi.PDI {
+				if p.stack[p.sp].bidiclz == bidi.PDI && len(p.spIRS) == 1 {
+					p.stack[p.sp].bidiclz = cNI // PDI without a matching isolate initiator
+					p.sp = max(startIRS, p.sp-1)
+				} else if p.stack[p.sp].bidiclz == bidi.PDI {
 					p.sp++ // walk over PDI
 					pdi = true
 					break
-- 
2.43.0


From 1578453afc2d798c90dc8d45d112d94d9fcfa0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 28/60] fix: bidi isolates were always treated as neutrals of
 left-to-right text

---
 bidi/resolver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 8933e46..99b6c30 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -325,8 +325,10 @@ func (p *parser) parseIRS(startIRS int) ([]scrap, int, int, bool) {
 	runlen := p.sp - startIRS
 	var result []scrap
 	if ok && len(p.spIRS) > 1 { // if not at top level isolating run sequence
-		ni := scrap{ // prepare a reduce action [IRS scraps] ⇒ [cNI]
+		outer := p.stack[p.spIRS[len(p.spIRS)-2]] // start delimiter of the outer IRS
+		ni := scrap{                              // prepare a reduce action [IRS scraps] ⇒ [cNI]
 			bidiclz:  cNI,
+			context:  outer.context, // cNI is neutral in the context of the outer IRS
 			l:        p.stack[startIRS].l,
 			r:        p.stack[startIRS+runlen-1].r,
 			children: [][]scrap{copyStackSegm(p.stack, startIRS, runlen)},
-- 
2.43.0


From ab8f602a0e9c79ed320809e7ce961e02da66e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 29/60] fix: bidi resolver raced with its scanner for the
 bracket pairs and looked them up in the wrong run sequence

---
 bidi/brackets.go | 20 ++++++++----------
 bidi/scanner.go  | 53 ++++++++++++++++++++----------------------------
 2 files changed, 30 insertions(+), 43 deletions(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 28bc499..d41c266 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -65,12 +65,11 @@ func isbracket(s scrap) bool {
 
 // We use a special class to handle discovery of bracket pairs.
 type bracketPairHandler struct {
-	stack    bracketStack        // stack to trace bracket nesting
-	pairings pairingsList        // result list of matching bracket pairings
-	mx       sync.Mutex          // guards pairings, as parser will access them, too
-	next     *bracketPairHandler // handlers will be stacked for nested isolate runs
-	firstpos charpos             // text position of first character in isolating run sequence
-	lastpos  charpos             // text position of PDI
+	stack    bracketStack // stack to trace bracket nesting
+	pairings pairingsList // result list of matching bracket pairings
+	mx       sync.Mutex   // guards pairings, as parser will access them, too
+	firstpos charpos      // text position of first character in isolating run sequence
+	lastpos  charpos      // text position of PDI, if already found
 }
 
 // This is the stack to perform the algorithm described above
@@ -88,16 +87,13 @@ type pairing struct {
 	closing scrap // closing bracket represented as a scrap
 }
 
-func makeBracketPairHandler(first charpos, previous *bracketPairHandler) *bracketPairHandler {
-	h := &bracketPairHandler{
+func makeBracketPairHandler(first charpos) *bracketPairHandler {
+	return &bracketPairHandler{
 		stack:    make(bracketStack, 0, BD16MaxNesting),
 		pairings: make(pairingsList, 0, 8),
 		firstpos: first,
+		lastpos:  ^charpos(0),
 	}
-	if previous != nil {
-		previous.next = h
-	}
-	return h
 }
 
 func (pr pairing) String() string {
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 623c676..a3397f3 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -13,9 +13,9 @@ package bidi
 
 import (
 	"bufio"
-	"fmt"
 	"io"
 	"strconv"
+	"sync"
 	"unicode"
 	"unicode/utf8"
 
@@ -31,8 +31,9 @@ type bidiScanner struct {
 	markup        OutOfLineBidiMarkup             // markup for isolating run sequence delimiting
 	lastMarkupPos int64                           // last position of out-of-line markup
 	lastMarkup    int                             // last / remaining markup
-	IRS           map[charpos]*bracketPairHandler // isolating run sequences and their pair handlers
-	IRSStack      []charpos                       // start positions of IRSs
+	IRS           []*bracketPairHandler           // pair handlers of isolating run sequences
+	IRSStack      []*bracketPairHandler           // pair handlers of nested IRSs
+	mx            sync.Mutex                      // guards IRS, as parser will access it, too
 	ctxstack      []dirContext                    // context stack for IRSs
 }
 
@@ -48,11 +49,10 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeScanner.Split(bufio.ScanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
-	sc.bd16 = makeBracketPairHandler(0, nil)
-	sc.IRS = make(map[charpos]*bracketPairHandler)
-	sc.IRS[0] = sc.bd16
-	sc.IRSStack = make([]charpos, 0, 16)
-	sc.IRSStack = append(sc.IRSStack, 0)
+	sc.bd16 = makeBracketPairHandler(0)
+	sc.IRS = append(sc.IRS, sc.bd16)
+	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	for _, opt := range opts {
 		if opt != nil {
 			opt(sc)
@@ -342,46 +342,37 @@ func isseparator(s scrap) bool {
 }
 
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
+	sc.mx.Lock()
+	defer sc.mx.Unlock()
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
-		if len(sc.IRSStack) == 0 {
+		if len(sc.IRSStack) <= 1 {
 			tracer().Debugf("bidi scanner found non-paired PDI at position %d", s.l)
 			return
 		}
 		sc.bd16.lastpos = s.l
 		sc.IRSStack = sc.IRSStack[:len(sc.IRSStack)-1] // pop current IRS level
-		if len(sc.IRSStack) > 0 {
-			tos := sc.IRSStack[len(sc.IRSStack)-1]
-			sc.bd16 = sc.IRS[tos]
-		}
+		sc.bd16 = sc.IRSStack[len(sc.IRSStack)-1]
 		tracer().Debugf("bidi scanner read PDI, switch back to outer IRS at %d", sc.bd16.firstpos)
 		return
 	}
 	tracer().Debugf("bidi scanner handleIsolatingRunSwitch(%v | %v)", s, s.context)
 	// establish new BD16 handler
-	irs := sc.IRS[0]
-	for irs.next != nil { // find most rightward isolating run sequence
-		irs = irs.next
-	}
-	sc.bd16 = makeBracketPairHandler(s.l, irs)
-	sc.IRS[s.l] = sc.bd16
-	sc.IRSStack = append(sc.IRSStack, s.l)
+	sc.bd16 = makeBracketPairHandler(s.l)
+	sc.IRS = append(sc.IRS, sc.bd16)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	tracer().Debugf("bidi scanner: new IRS with position %d, nesting level is %d", sc.bd16.firstpos, len(sc.IRSStack)-1)
 }
 
+// findBD16ForPos finds the pair handler of the innermost isolating run sequence at pos.
 func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
-	irs := sc.IRS[0]
-	bd16 := irs
-	for irs.next != nil { // find most rightward isolating run sequence
-		if irs.firstpos <= pos {
-			if irs.lastpos == 0 || irs.lastpos >= pos {
-				bd16 = irs
-			}
+	sc.mx.Lock()
+	defer sc.mx.Unlock()
+	bd16 := sc.IRS[0]
+	for _, irs := range sc.IRS {
+		if irs.firstpos <= pos && pos < irs.lastpos {
+			bd16 = irs // inner sequences start after outer ones
 		}
-		irs = irs.next
-	}
-	if bd16 == nil {
-		panic(fmt.Sprintf("bidi scanner: could not find IRS for position %d", pos))
 	}
 	return bd16
 }
-- 
2.43.0


From 652deed47194861a575a85fc63fc65b7737e0022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 30/60] fix: bidi rule N0 saw neutrals of the brackets'
 neighbourhood already resolved and outdated strong contexts

---
 bidi/brackets.go |  31 -----------
 bidi/resolver.go | 142 ++++++++++++++++++++++++-----------------------
 bidi/scanner.go  |   8 +--
 bidi/scrap.go    |  39 ++-----------
 4 files changed, 82 insertions(+), 138 deletions(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index d41c266..5f9e45d 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -184,37 +184,6 @@ func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	return pairing{}, false
 }
 
-// Rule N0 may change the bidi class of bracket scraps to a strong type.
-// The parser rule for N0 will call changeOpeningBracketClass in such
-// cases.
-func (bph *bracketPairHandler) changeOpeningBracketClass(s scrap) {
-	bph.mx.Lock()
-	defer bph.mx.Unlock()
-	for i, pair := range bph.pairings {
-		if pair.opening.l == s.l {
-			bph.pairings[i].opening.bidiclz = s.bidiclz
-		}
-	}
-}
-
-// UAX#9 rule W7 may change scraps of class EN to class L. However, the
-// matching of brackets further down the input may already have been stored
-// with a context. As soon as W7 pops up a new strong type L, those contexts
-// may be invalid. The parser will detect such situations and then call this
-// function to update the contexts of bracket pairs already found.
-func (bph *bracketPairHandler) UpdateClosingBrackets(s scrap) {
-	bph.mx.Lock()
-	defer bph.mx.Unlock()
-	for _, pair := range bph.pairings {
-		if s.l < pair.opening.l {
-			pair.opening.context.SetStrongType(s.bidiclz, s.l)
-		}
-		if s.l < pair.closing.l {
-			pair.closing.context.SetStrongType(s.bidiclz, s.l)
-		}
-	}
-}
-
 func (bph *bracketPairHandler) dump() {
 	if len(bph.stack) == 0 {
 		tracer().Debugf("BD16: Bracket Stack is empty")
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 99b6c30..ece5a12 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -215,12 +215,8 @@ func (p *parser) pass1(startIRS int) bool {
 			}
 		}
 		tracer().Debugf("applying UAX#9 rule %s", rule.name)
-		rhs, jmp, newL := rule.action(p.stack[p.sp:len(p.stack)])
+		rhs, jmp, _ := rule.action(p.stack[p.sp:len(p.stack)])
 		p.reduce(rule.lhsLen, rhs, startIRS)
-		if newL {
-			bd16 := p.sc.findBD16ForPos(p.stack[p.sp].l)
-			bd16.UpdateClosingBrackets(p.stack[p.sp])
-		}
 		p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
 		walk = false
 	}
@@ -261,16 +257,11 @@ func (p *parser) applySubIRS(startIRS int) int {
 // there should be only a single scrap on the stack with bidi class L.
 //
 func (p *parser) pass2(startIRS int) {
+	p.performRuleN0(startIRS) // brackets have to be resolved before any other neutrals
 	p.sp = startIRS
 	for !p.passed(bidi.PDI) && p.sp < len(p.stack) {
 		e := min(len(p.stack), p.sp+3)
 		tracer().Debugf("trying to match %v at %d", p.stack[p.sp:e], p.sp)
-		//if p.stack[p.sp].bidiclz == cBRACKC {
-		if isbracket(p.stack[p.sp]) {
-			jmp := p.performRuleN0()
-			p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
-			continue
-		}
 		rule, shortrule := p.matchRulesLHS(p.stack[p.sp:len(p.stack)], 2)
 		if rule == nil || rule.pass < 2 {
 			if shortrule == nil || shortrule.pass < 2 {
@@ -406,84 +397,99 @@ func (p *parser) matchRulesLHS(scraps []scrap, minlen int) (*bidiRule, *bidiRule
 //     order of the text positions of the opening paired brackets using the logic
 //     given below. Within this scope, bidirectional types EN and AN are treated as R.
 //
-func (p *parser) performRuleN0() (jmp int) {
-	tracer().Debugf("applying UAX#9 rule N0 (bracket pairs) with %s", p.stack[p.sp])
-	jmp = 1 // default is to walk over the bracket
-	if p.stack[p.sp].bidiclz == cBRACKO {
+func (p *parser) performRuleN0(startIRS int) {
+	end := p.sp // pass 1 has stopped after the PDI or at EOF
+	for open := startIRS + 1; open < end; open++ {
+		if p.stack[open].bidiclz != cBRACKO {
+			continue
+		}
+		tracer().Debugf("applying UAX#9 rule N0 (bracket pairs) with %s", p.stack[open])
 		// Identify the bracket pairs in the current isolating run sequence according to BD16.
-		openBr := p.stack[p.sp]
-		closeBr, found := p.findCorrespondingBracket(openBr)
+		close, found := p.findClosingBracket(open, end)
 		if !found {
-			tracer().Debugf("Did not find closing bracket for %s", openBr)
-			closeBr.bidiclz = cNI
-			return
+			tracer().Debugf("Did not find closing bracket for %s", p.stack[open])
+			continue
 		}
-		tracer().Debugf("closing bracket for %s is %s", openBr, closeBr)
-		tracer().Debugf("closing bracket has context=%v", closeBr.context)
-		tracer().Debugf("closing bracket has match pos=%d", closeBr.context.matchPos)
+		e, o := p.stack[open].e(), p.stack[open].o()
+		clz := cNI
 		// a. Inspect the bidirectional types of the characters enclosed within the
 		//    bracket pair.
-		if closeBr.HasEmbeddingMatchAfter(openBr) {
-			// b. If any strong type (either L or R) matching the embedding direction
-			//    is found, set the type for both brackets in the pair to match the
-			//    embedding direction.
-			openBr.bidiclz = openBr.context.embeddingDir
-			jmp = -2
-		} else if closeBr.HasOppositeAfter(openBr) {
-			// c. Otherwise, if there is a strong type it must be opposite the embedding
-			//    direction. Therefore, test for an established context with a preceding
-			//    strong type by checking backwards before the opening paired bracket
-			//    until the first strong type (L, R, or sos) is found.
-			if openBr.StrongContext() == openBr.o() {
+		for _, s := range p.stack[open+1 : close] {
+			if c := strongClass(s); c == e {
+				// b. If any strong type (either L or R) matching the embedding direction
+				//    is found, set the type for both brackets in the pair to match the
+				//    embedding direction.
+				clz = e
+				break
+			} else if c == o {
+				// c. Otherwise, if there is a strong type it must be opposite the embedding
+				//    direction. Therefore, test for an established context with a preceding
+				//    strong type by checking backwards before the opening paired bracket
+				//    until the first strong type (L, R, or sos) is found.
 				// c.1. If the preceding strong type is also opposite the embedding
 				//      direction, context is established, so set the type for both
 				//      brackets in the pair to that direction.
-				openBr.bidiclz = opposite(openBr.context.embeddingDir)
-			} else {
 				// c.2. Otherwise set the type for both brackets in the pair to the
 				//      embedding direction.
-				openBr.bidiclz = openBr.context.embeddingDir
+				clz = p.precedingStrongClass(open, startIRS)
 			}
-			jmp = -2
-		} else {
-			tracer().Debugf("no strong types found within bracket pair")
-			// d. Otherwise, there are no strong types within the bracket pair.
-			//    Therefore, do not set the type for that bracket pair.
-			openBr.bidiclz = cNI
-			jmp = -1
 		}
-		p.changeBracketBidiClass(openBr)
-		p.stack[p.sp] = openBr
-	} else {
-		closeBr := p.stack[p.sp]
-		if openBr, found := p.findCorrespondingBracket(closeBr); found {
-			closeBr.bidiclz = openBr.bidiclz
-		} else {
-			closeBr.bidiclz = cNI
+		// d. Otherwise, there are no strong types within the bracket pair.
+		//    Therefore, do not set the type for that bracket pair.
+		p.stack[open].bidiclz, p.stack[close].bidiclz = clz, clz
+	}
+	// brackets without a type are neutrals
+	sp := startIRS + 1
+	for i := startIRS + 1; i < end; i++ {
+		s := p.stack[i]
+		if isbracket(s) {
+			s.bidiclz = cNI
 		}
-		p.stack[p.sp] = closeBr
-		if closeBr.bidiclz != cNI {
-			jmp = -2
+		if s.bidiclz == cNI && p.stack[sp-1].bidiclz == cNI && sp > startIRS+1 {
+			p.stack[sp-1] = collapse(p.stack[sp-1], s, cNI)
+			continue
 		}
+		p.stack[sp] = s
+		sp++
+	}
+	p.stack = append(p.stack[:sp], p.stack[end:]...)
+}
+
+// strongClass returns the strong type of a scrap for rule N0, where numbers are treated as R,
+// and cNI if it has none.
+func strongClass(s scrap) bidi.Class {
+	switch s.bidiclz {
+	case bidi.L:
+		return bidi.L
+	case bidi.R, bidi.EN, bidi.AN:
+		return bidi.R
 	}
-	return
+	return cNI
 }
 
-func (p *parser) findCorrespondingBracket(s scrap) (scrap, bool) {
-	bd16 := p.sc.findBD16ForPos(s.l)
-	pair, found := bd16.FindBracketPairing(s)
-	if found {
-		if s.bidiclz == cBRACKO {
-			return pair.closing, true
+// precedingStrongClass searches backwards for a strong type before position at on the
+// stack. It returns the embedding direction (sos) if there is none.
+func (p *parser) precedingStrongClass(at, startIRS int) bidi.Class {
+	for i := at - 1; i > startIRS; i-- {
+		if c := strongClass(p.stack[i]); c != cNI {
+			return c
 		}
-		return pair.opening, true
 	}
-	return s, false
+	return p.stack[at].e()
 }
 
-func (p *parser) changeBracketBidiClass(s scrap) {
-	bd16 := p.sc.findBD16ForPos(s.l)
-	bd16.changeOpeningBracketClass(s)
+// findClosingBracket finds the bracket on the stack which is paired with the opening
+// bracket at position open on the stack.
+func (p *parser) findClosingBracket(open, end int) (int, bool) {
+	bd16 := p.sc.findBD16ForPos(p.stack[open].l)
+	if pair, found := bd16.FindBracketPairing(p.stack[open]); found {
+		for i := open + 1; i < end; i++ {
+			if s := p.stack[i]; s.bidiclz == cBRACKC && s.l == pair.closing.l {
+				return i, true
+			}
+		}
+	}
+	return 0, false
 }
 
 // --- Rules trie ------------------------------------------------------------
diff --git a/bidi/scanner.go b/bidi/scanner.go
index a3397f3..356be81 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -309,14 +309,14 @@ func (sc *bidiScanner) contextAfter(s scrap, isAL bool) dirContext {
 	context := s.context
 	switch s.bidiclz {
 	case bidi.L, bidi.LRI:
-		context.SetStrongType(bidi.L, s.l)
+		context.SetStrongType(bidi.L)
 	case bidi.RLI:
-		context.SetStrongType(bidi.R, s.l)
+		context.SetStrongType(bidi.R)
 	case bidi.R:
 		if isAL {
-			context.SetStrongType(bidi.AL, s.l)
+			context.SetStrongType(bidi.AL)
 		} else {
-			context.SetStrongType(bidi.R, s.l)
+			context.SetStrongType(bidi.R)
 		}
 	case bidi.PDI: // re-establish the context of the outer run sequence
 		if len(sc.ctxstack) > 0 {
diff --git a/bidi/scrap.go b/bidi/scrap.go
index 7c31f65..bf330ac 100644
--- a/bidi/scrap.go
+++ b/bidi/scrap.go
@@ -136,40 +136,21 @@ func (s scrap) StrongContext() bidi.Class {
 	return s.context.StrongContext()
 }
 
-func (s scrap) HasEmbeddingMatchAfter(other scrap) bool {
-	return s.context.matchPos >= other.l
-}
-
-func (s scrap) HasOppositeAfter(other scrap) bool {
-	pos := s.context.matchPos + charpos(s.context.odist)
-	return pos >= other.l
-}
-
 // --- Strong types context --------------------------------------------------
 
-// dirContext is a helper type to store positions of strong types within the
+// dirContext is a helper type to store strong types within the
 // input text. Various UAX#9 rules require to find preceding occurences of strong types
 // (L, R, sos, AL) to determine context. In order to avoid travelling the text backwards
-// we save the positions of strong types.
-//
-// This is quite a memory invest. We have to strike a balanced trade-off between
-// speed and space efficiency. The information stored in dirContext is mainly used
+// we save the strong types. The information stored in dirContext is mainly used
 // for the following rules:
 //
 // * Rule W2, which changes numbers to arabic numbers if there is a recent strong
 //   type of AL (arabic letter)
 // * Rule W7, which changes numbers to type L if there is a recent strong type of L
-// * Rule N0, the handling of bracket pairings, which uses information about recent
-//   strong types L or R to decide the embedding level of brackets
-//
-// Rule W2 could be handled by a boolean flag, but the combination of W7 and N0 is
-// more tricky (see the code dealing with bracket pairs).
 //
 type dirContext struct {
 	embeddingDir bidi.Class // embedding context
 	strong       bidi.Class // current strong context
-	odist        uint16     // distance between matchPos and occurrence of recent o scrap
-	matchPos     charpos    // most recent position matching the embedding dir
 }
 
 func (dc dirContext) String() string {
@@ -200,24 +181,12 @@ func (dc dirContext) EmbeddingDir() bidi.Class {
 	return dc.embeddingDir
 }
 
-// Set position of recent strong type. If it matches the embedding direction
-// and at > the previous matching position, the matching position is updated.
-func (dc *dirContext) SetStrongType(c bidi.Class, at charpos) dirContext {
+// Set the recent strong type.
+func (dc *dirContext) SetStrongType(c bidi.Class) dirContext {
 	if c != bidi.L && c != bidi.R && c != bidi.AL && c != cNI {
 		return *dc
 	}
 	dc.strong = c
-	if c == dc.embeddingDir && at > dc.matchPos {
-		dc.matchPos = at
-	} else if c == opposite(dc.embeddingDir) && at > dc.matchPos {
-		d := at - dc.matchPos
-		if d > 65535 {
-			tracer().Errorf("overflow for opposite-char distance: %d", d)
-			d = 65535
-		}
-		dc.odist = uint16(d)
-	}
-	//T().Debugf("setting strong type %s at pos=%d, context=%v", classString(c), at, dc)
 	return *dc
 }
 
-- 
2.43.0


From ed6b7ae524c25c4a27cd170ba987f18bafba90a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 31/60] fix: bidi out-of-line markup at the start of a
 paragraph was ignored

---
 bidi/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 356be81..7ca4b98 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -49,6 +49,7 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeScanner.Split(bufio.ScanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
+	sc.lastMarkupPos = -1
 	sc.bd16 = makeBracketPairHandler(0)
 	sc.IRS = append(sc.IRS, sc.bd16)
 	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
-- 
2.43.0


From 4fcef19736c209316d76b0f53774403eb057788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 32/60] fix: bidi resolver counted illegal bytes of the input
 as 3 bytes each

---
 bidi/scanner.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 7ca4b98..4d0bf79 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -46,7 +46,7 @@ type bidiScanner struct {
 func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bidiScanner {
 	sc := &bidiScanner{}
 	sc.runeScanner = bufio.NewScanner(input)
-	sc.runeScanner.Split(bufio.ScanRunes)
+	sc.runeScanner.Split(scanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
 	sc.lastMarkupPos = -1
@@ -62,6 +62,15 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	return sc
 }
 
+// scanRunes is like bufio.ScanRunes, but it does not replace illegal bytes, as this would
+// change text positions.
+func scanRunes(data []byte, atEOF bool) (int, []byte, error) {
+	if advance, _, err := bufio.ScanRunes(data, atEOF); advance > 0 || err != nil {
+		return advance, data[:advance], err
+	}
+	return 0, nil, nil
+}
+
 func markupToBidi(m int) bidi.Class {
 	switch m {
 	case MarkupLRI, MarkupPDILRI:
@@ -101,7 +110,7 @@ func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
 	b := sc.runeScanner.Bytes()
 	r, length := utf8.DecodeRune(b)
 	props, sz := bidi.LookupRune(r)
-	if sz == 0 || sz != length {
+	if sz == 0 || sz != length && r != utf8.RuneError {
 		panic("bidi package differs in rune interpretation from scanner package")
 	}
 	bidiclz := props.Class()
-- 
2.43.0


From 127eabde106965301c84d93328ea0e661cf9b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 33/60] fix: bidi Split lost or doubled isolates, the direction
 of the paragraph, and modified its input

---
 bidi/reordering.go | 56 +++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index a9181ea..78179c7 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -53,10 +53,12 @@ func (rl *ResolvedLevels) Split(at uint64, shift0 bool) (*ResolvedLevels, *Resol
 	prefix, suffix := split(rl.scraps, charpos(at))
 	if shift0 {
 		//suffix = shiftzero(suffix, charpos(at))
+		suffix = copyScraps(suffix)
 		shiftzero(&suffix, charpos(at))
 		tracer().Debugf("resolved levels: shifted suffix levels = %v", suffix)
 	}
-	return &ResolvedLevels{scraps: prefix}, &ResolvedLevels{scraps: suffix}
+	return &ResolvedLevels{scraps: prefix, embedding: rl.embedding},
+		&ResolvedLevels{scraps: suffix, embedding: rl.embedding}
 }
 
 func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
@@ -71,47 +73,38 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 		if !s.contains(at) {
 			continue
 		}
-		var restch [][]scrap
-		if len(s.children) > 0 { // TODO omit this
-			tracer().Debugf("split in %v with |ch|=%d", s, len(s.children))
-			for j, ch := range s.children {
-				if irsContains(ch, at) {
-					prefix, suffix := split(ch, at)
-					restch = [][]scrap{suffix}
-					if j < len(s.children)-1 {
-						restch = append(restch, s.children[j+1:]...)
-					}
-					s.children = s.children[:j]
-					s.children = append(s.children, prefix)
-					break
-				}
+		var leftch, restch [][]scrap
+		for _, ch := range s.children {
+			if ch[len(ch)-1].r <= at {
+				leftch = append(leftch, ch)
+			} else if ch[0].l >= at {
+				restch = append(restch, ch)
+			} else {
+				prefix, suffix := split(ch, at)
+				leftch = append(leftch, prefix)
+				restch = append(restch, suffix)
 			}
 		}
 		// children are split at this point
 		// restch is set to right part of children split
-		rest := scrap{r: s.r, bidiclz: s.bidiclz}
-		s.r, rest.l = at, at
-		rest.children = restch
-		rseg := make([]scrap, len(scraps)-i+1)
-		if isisolate(scraps[0]) {
-			rseg[0] = scraps[0] // copy IRS start
-			copy(rseg[1:], scraps[i:])
-			scraps[i], rseg[1] = s, rest
-		} else {
-			copy(rseg, scraps[i:])
-			rseg = rseg[:len(rseg)-1]
-			scraps[i], rseg[0] = s, rest
+		rest := scrap{l: at, r: s.r, bidiclz: s.bidiclz, children: restch}
+		s.r, s.children = at, leftch
+		rseg := make([]scrap, 0, len(scraps)-i+1)
+		if isisolate(scraps[0]) { // re-start IRS without any text of its own
+			rseg = append(rseg, scrap{l: at, r: at, bidiclz: scraps[0].bidiclz})
 		}
-		prefix := scraps[:i+1]
+		rseg = append(rseg, rest)
+		rseg = append(rseg, scraps[i+1:]...)
+		prefix := append(append(make([]scrap, 0, i+1), scraps[:i]...), s)
 		tracer().Debugf("prefix=%v", prefix)
 		tracer().Debugf("suffix=%v", rseg)
-		return scraps[:i+1], rseg
+		return prefix, rseg
 	}
 	panic("split iterated over all scraps, did not find cut line")
 }
 
 func irsContains(scraps []scrap, pos charpos) bool {
-	return scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
+	return len(scraps) > 0 && scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
 }
 
 func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
@@ -119,6 +112,9 @@ func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
 		s.l = validcharpos(s.l, offset)
 		s.r = validcharpos(s.r, offset)
 		(*scraps)[i] = s
+		for j := range s.children {
+			shiftzero(&s.children[j], offset)
+		}
 		//T().Errorf("scrap = %v", s)
 	}
 	//T().Errorf("shifted = %v", scraps)
-- 
2.43.0


From e51dfd089629a5fe504e6c5466ef1952b0ec23ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 34/60] fix: bidi DirectionAt ignored nested isolates

---
 bidi/reordering.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 78179c7..527f777 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -469,12 +469,25 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
-	for _, s := range rl.scraps {
+	if dir, found := directionAt(rl.scraps, pos, rl.embedding); found {
+		return dir
+	}
+	return LeftToRight
+}
+
+func directionAt(scraps []scrap, pos uint64, embedding Direction) (Direction, bool) {
+	embedding = findEmbeddingDir(scraps, embedding)
+	for _, s := range scraps {
 		if uint64(s.l) <= pos && pos < uint64(s.r) {
-			return directionFromBidiClass(s, LeftToRight)
+			for _, ch := range s.children {
+				if dir, found := directionAt(ch, pos, embedding); found {
+					return dir, true
+				}
+			}
+			return directionFromBidiClass(s, embedding), true
 		}
 	}
-	return LeftToRight
+	return embedding, false
 }
 
 // SegmentIterator iterates over the text segments contained in a run.
-- 
2.43.0


From 73c5f225556612060fb5daefa84fcc2fe6f750a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 35/60] fix: bidi angle brackets did not pair with their
 canonical equivalents

---
 bidi/brackets.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 5f9e45d..73ecf66 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -156,7 +156,7 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	}
 	i := len(bs) - 1
 	for i >= 0 { // start at TOS, possible skip unclosed opening brackets
-		if bs[i].pair.c == b {
+		if canonicalBracket(bs[i].pair.c) == canonicalBracket(b) {
 			open := bs[i] //.pos
 			bs = bs[:i]
 			return true, open, bs
@@ -166,6 +166,17 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	return false, brktpos{}, bs
 }
 
+// canonicalBracket returns the canonical equivalent for the only brackets having one.
+func canonicalBracket(b rune) rune {
+	switch b {
+	case 0x2329:
+		return 0x3008
+	case 0x232a:
+		return 0x3009
+	}
+	return b
+}
+
 //func (bph *bracketPairHandler) FindBracketPairing(s scrap, open bool) (pairing, bool) {
 func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	bph.mx.Lock()
-- 
2.43.0


From f7d39a7416b0d8b3a407cd67c3fcc5f97fe168af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 36/60] fix: bidi brackets were paired after the nesting limit
 of BD16 had been exceeded

---
 bidi/brackets.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 73ecf66..febabe1 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -68,6 +68,7 @@ type bracketPairHandler struct {
 	stack    bracketStack // stack to trace bracket nesting
 	pairings pairingsList // result list of matching bracket pairings
 	mx       sync.Mutex   // guards pairings, as parser will access them, too
+	overflow bool         // nesting too deep, no more pairs in this sequence
 	firstpos charpos      // text position of first character in isolating run sequence
 	lastpos  charpos      // text position of PDI, if already found
 }
@@ -102,12 +103,21 @@ func (pr pairing) String() string {
 
 // pushOpening pushes an opening bracket and its position onto the stack.
 func (bph *bracketPairHandler) pushOpening(r rune, s scrap) bool {
+	if len(bph.stack) >= BD16MaxNesting { // stop looking for pairs, as defined in UAX#9
+		bph.overflow = true
+	}
+	if bph.overflow {
+		return false
+	}
 	var ok bool
 	ok, bph.stack = bph.stack.push(r, s)
 	return ok
 }
 
 func (bph *bracketPairHandler) findPair(r rune, s scrap) (found bool, pos charpos) {
+	if bph.overflow {
+		return
+	}
 	var b brktpos
 	if found, b, bph.stack = bph.stack.popWith(r, s.l); !found {
 		return
-- 
2.43.0


From 7d71d0737f47368293e9705fde98aeeff2221206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 37/60] fix: bidi resolver panicked for first strong isolates
 (FSI)

---
 bidi/reordering.go |  2 --
 bidi/scanner.go    | 85 +++++++++++++++++++++++++++++++++++++---------
 2 files changed, 69 insertions(+), 18 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 527f777..fe276f0 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -337,8 +337,6 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 			return RightToLeft
 		case bidi.PDI:
 			panic("PDI is first scrap in child run, strange")
-		case bidi.FSI:
-			panic("bidi.FSI not yet supported")
 		}
 	}
 	return inherited
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 4d0bf79..62c3b14 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -35,6 +35,15 @@ type bidiScanner struct {
 	IRSStack      []*bracketPairHandler           // pair handlers of nested IRSs
 	mx            sync.Mutex                      // guards IRS, as parser will access it, too
 	ctxstack      []dirContext                    // context stack for IRSs
+	ahead         []inputRune                     // runes already read for resolving FSIs
+}
+
+// inputRune is a rune as returned by nextRune.
+type inputRune struct {
+	r       rune
+	length  int
+	bidiclz bidi.Class
+	ok      bool
 }
 
 // NewScanner creates a scanner for bidi formatting. It will read runs of text
@@ -85,27 +94,73 @@ func markupToBidi(m int) bidi.Class {
 
 // nextRune reads the next rune from the input reader.
 // Returns the rune, its byte length, bidi class and a flag indicating
-// a valid input (false for EOF).
+// a valid input (false for EOF). FSIs are returned as either LRI or RLI.
 func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
+	var next inputRune
+	if len(sc.ahead) > 0 {
+		next, sc.ahead = sc.ahead[0], sc.ahead[1:]
+	} else {
+		next = sc.readRune(pos)
+	}
+	if next.bidiclz == bidi.FSI {
+		next.bidiclz = sc.resolveFSI(pos + charpos(next.length))
+	}
+	return next.r, next.length, next.bidiclz, next.ok
+}
+
+// resolveFSI looks for the first strong character of an isolating run sequence starting
+// at pos (UAX#9 rules X5c, P2 and P3). It returns LRI or RLI.
+func (sc *bidiScanner) resolveFSI(pos charpos) bidi.Class {
+	nesting := 0
+	for i := 0; ; i++ {
+		if i == len(sc.ahead) {
+			sc.ahead = append(sc.ahead, sc.readRune(pos))
+		}
+		next := sc.ahead[i]
+		if !next.ok {
+			return bidi.LRI
+		}
+		pos += charpos(next.length)
+		switch next.bidiclz {
+		case bidi.LRI, bidi.RLI, bidi.FSI:
+			nesting++
+		case bidi.PDI:
+			if nesting--; nesting < 0 {
+				return bidi.LRI
+			}
+		case bidi.L:
+			if nesting == 0 {
+				return bidi.LRI
+			}
+		case bidi.R, bidi.AL:
+			if nesting == 0 {
+				return bidi.RLI
+			}
+		}
+	}
+}
+
+// readRune reads the next rune from the input reader.
+func (sc *bidiScanner) readRune(pos charpos) inputRune {
 	if sc.markup != nil && sc.lastMarkup > 0 { // we have a left-over markup to handle
 		sc.lastMarkupPos = int64(pos)
 		last := sc.lastMarkup
 		sc.lastMarkup = 0
-		return 0, 0, markupToBidi(last), true
+		return inputRune{0, 0, markupToBidi(last), true}
 	} else if sc.markup != nil && sc.lastMarkupPos < int64(pos) {
 		tracer().Debugf("bidi scanner: checking for markup at position %d", pos)
 		if d := sc.markup(uint64(pos)); int(d) > 0 {
 			sc.lastMarkupPos = int64(pos)
 			if d&MarkupPDI > 0 { // always handle PDI first
 				sc.lastMarkup = d - MarkupPDI // put other markup half on shelf, if any
-				return 0, 0, bidi.PDI, true
+				return inputRune{0, 0, bidi.PDI, true}
 			}
 			sc.lastMarkup = 0
-			return 0, 0, markupToBidi(d), true
+			return inputRune{0, 0, markupToBidi(d), true}
 		}
 	}
 	if ok := sc.runeScanner.Scan(); !ok {
-		return 0, 0, cNULL, false
+		return inputRune{0, 0, cNULL, false}
 	}
 	b := sc.runeScanner.Bytes()
 	r, length := utf8.DecodeRune(b)
@@ -116,7 +171,7 @@ func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
 	bidiclz := props.Class()
 	if bidiclz == bidi.B { // paragraph separator read
 		if !sc.hasMode(optionIgnoreParSep) {
-			return 0, 0, cNULL, false // treat is as EOF
+			return inputRune{0, 0, cNULL, false} // treat is as EOF
 		}
 		bidiclz = bidi.WS // convert it to whitespace
 	}
@@ -127,8 +182,15 @@ func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
 			bidiclz = cBRACKC
 		}
 	}
+	if sc.hasMode(optionTesting) {
+		if unicode.IsUpper(r) {
+			bidiclz = bidi.R // during testing, UPPERCASE is R2L
+		} else { // check for isolating run sequence delimiters
+			bidiclz = setTestingIRSDelimiter(r, bidiclz)
+		}
+	}
 	tracer().Debugf("bidi scanner rune %#U (%s)", r, classString(bidiclz))
-	return r, length, bidiclz, true
+	return inputRune{r, length, bidiclz, true}
 }
 
 // makeScrap wraps the input rune into a scrap.
@@ -171,13 +233,6 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		}
 
 		// a rune has successfully been read ⇒ make it the new lookahead
-		if sc.hasMode(optionTesting) {
-			if unicode.IsUpper(r) {
-				bidiclz = bidi.R // during testing, UPPERCASE is R2L
-			} else { // check for isolating run sequence delimiters
-				bidiclz = setTestingIRSDelimiter(r, bidiclz)
-			}
-		}
 		if current.bidiclz != cNULL && (bidiclz == bidi.BN || bidiclz == bidi.NSM && isbracket(current)) {
 			current.r += charpos(length) // BNs are to be ignored (X9), brackets keep their accents (N0)
 			continue
@@ -209,8 +264,6 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			case bidi.RLI:
 				sc.ctxstack = append(sc.ctxstack, context)
 				lookahead.context.embeddingDir = bidi.R
-			case bidi.FSI:
-				sc.ctxstack = append(sc.ctxstack, context)
 			}
 			current = sc.prepareRuleBD16(r, lookahead)
 			isAL = inputclz == bidi.AL
-- 
2.43.0


From 0e216e0ffab75d492441f770ba1e9b6369eb5575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 38/60] fix: bidi scanner used the tracer after the resolver
 had returned

---
 bidi/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 62c3b14..20eae43 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -228,7 +228,8 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			if current.bidiclz != cNULL { // there is none for empty input
 				sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
 			}
-			sc.stop(pipe) // then send quit signal to parser
+			tracer().Infof("stopped bidi scanner")
+			sc.stop(pipe) // then send quit signal to parser, which may finish the resolving
 			break
 		}
 
@@ -275,7 +276,6 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			tracer().Debugf("current bidi scanner scrap = %s, next iteration", current)
 		}
 	}
-	tracer().Infof("stopped bidi scanner")
 }
 
 func (sc *bidiScanner) post(s scrap, pipe chan<- scrap) {
-- 
2.43.0


From de4d8eb90a72ff454ae70b91cd8a6dd44aa73d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 39/60] fix: class generators wrote an uncompilable entry for
 the document start

---
 emoji/internal/generator/generator.go    | 3 +++
 grapheme/internal/generator/generator.go | 3 +++
 uax14/internal/generator/generator.go    | 3 +++
 uax29/internal/generator/generator.go    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/emoji/internal/generator/generator.go b/emoji/internal/generator/generator.go
index 0656966..1020989 100644
--- a/emoji/internal/generator/generator.go
+++ b/emoji/internal/generator/generator.go
@@ -80,6 +80,9 @@ func loadUnicodeEmojiBreakFile() (map[string][]rune, error) {
 	for parser.Next() {
 		from, to := parser.Token.Range()
 		clstr := parser.Token.Field(1)
+		if clstr == "" {
+			continue // not a data item
+		}
 		list := gcls[clstr]
 		if list == nil {
 			list = arraylist.New()
diff --git a/grapheme/internal/generator/generator.go b/grapheme/internal/generator/generator.go
index f89db0c..b6fcf68 100644
--- a/grapheme/internal/generator/generator.go
+++ b/grapheme/internal/generator/generator.go
@@ -85,6 +85,9 @@ func loadUnicodeGraphemeBreakFile() (map[string][]rune, error) {
 	for parser.Next() {
 		from, to := parser.Token.Range()
 		clstr := parser.Token.Field(1)
+		if clstr == "" {
+			continue // not a data item
+		}
 		list := gcls[clstr]
 		if list == nil {
 			list = arraylist.New()
diff --git a/uax14/internal/generator/generator.go b/uax14/internal/generator/generator.go
index 79a2b94..c1c0778 100644
--- a/uax14/internal/generator/generator.go
+++ b/uax14/internal/generator/generator.go
@@ -76,6 +76,9 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 	for p.Next() {
 		from, to := p.Token.Range()
 		brclzstr := p.Token.Field(1)
+		if brclzstr == "" {
+			continue // not a data item
+		}
 		list := lbcs[brclzstr]
 		if list == nil {
 			list = arraylist.New()
diff --git a/uax29/internal/generator/generator.go b/uax29/internal/generator/generator.go
index b115119..d5214fc 100644
--- a/uax29/internal/generator/generator.go
+++ b/uax29/internal/generator/generator.go
@@ -82,6 +82,9 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 	for p.Next() {
 		from, to := p.Token.Range()
 		brclzstr := p.Token.Field(1)
+		if brclzstr == "" {
+			continue // not a data item
+		}
 		list := lbcs[brclzstr]
 		if list == nil {
 			list = arraylist.New()
-- 
2.43.0


From 327f35e12f73db613eca3c528e6b530f3c669a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 40/60] fix: class generators wrote U+FFFD in place of
 surrogate code points

---
 emoji/internal/generator/generator.go    | 2 +-
 grapheme/internal/generator/generator.go | 2 +-
 uax14/internal/generator/generator.go    | 2 +-
 uax29/internal/generator/generator.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/emoji/internal/generator/generator.go b/emoji/internal/generator/generator.go
index 1020989..87443c8 100644
--- a/emoji/internal/generator/generator.go
+++ b/emoji/internal/generator/generator.go
@@ -167,7 +167,7 @@ func (c EmojisClass) String() string {
 `
 
 var templateRangeForClass = `{{$i:=0}}{{range .}}{{if notfirst $i}}, {{if modeight $i}}
-    {{end}}{{end}}{{$i = inc $i}}{{printf "%+q" .}}{{end}}`
+    {{end}}{{end}}{{$i = inc $i}}{{printf "%#x" .}}{{end}}`
 
 // Helper functions for templates
 var funcMap = template.FuncMap{
diff --git a/grapheme/internal/generator/generator.go b/grapheme/internal/generator/generator.go
index b6fcf68..a8df72f 100644
--- a/grapheme/internal/generator/generator.go
+++ b/grapheme/internal/generator/generator.go
@@ -182,7 +182,7 @@ func (c GraphemeClass) String() string {
 `
 
 var templateRangeForClass = `{{$i:=0}}{{range .}}{{if notfirst $i}}, {{if modeight $i}}
-    {{end}}{{end}}{{$i = inc $i}}{{printf "%+q" .}}{{end}}`
+    {{end}}{{end}}{{$i = inc $i}}{{printf "%#x" .}}{{end}}`
 
 // Helper functions for templates
 var funcMap = template.FuncMap{
diff --git a/uax14/internal/generator/generator.go b/uax14/internal/generator/generator.go
index c1c0778..1ca3a4d 100644
--- a/uax14/internal/generator/generator.go
+++ b/uax14/internal/generator/generator.go
@@ -167,7 +167,7 @@ func (c UAX14Class) String() string {
 `
 
 var templateRangeForClass = `{{$i:=0}}{{range .}}{{if notfirst $i}}, {{if modeight $i}}
-    {{end}}{{end}}{{$i = inc $i}}{{printf "%+q" .}}{{end}}`
+    {{end}}{{end}}{{$i = inc $i}}{{printf "%#x" .}}{{end}}`
 
 // Helper functions for templates
 var funcMap = template.FuncMap{
diff --git a/uax29/internal/generator/generator.go b/uax29/internal/generator/generator.go
index d5214fc..0bff2f0 100644
--- a/uax29/internal/generator/generator.go
+++ b/uax29/internal/generator/generator.go
@@ -177,7 +177,7 @@ func (c UAX29Class) String() string {
 `
 
 var templateRangeForClass = `{{$i:=0}}{{range .}}{{if notfirst $i}}, {{if modeight $i}}
-    {{end}}{{end}}{{$i = inc $i}}{{printf "%+q" .}}{{end}}`
+    {{end}}{{end}}{{$i = inc $i}}{{printf "%#x" .}}{{end}}`
 
 // Helper functions for templates
 var funcMap = template.FuncMap{
-- 
2.43.0


From 21693189ac3c5deb0c4c904f97930f1e65cf32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 41/60] fix: line breaker never applied rule LB8a, emoji ZWJ
 sequences were broken

---
 uax14/uax14.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index 5478687..d872852 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -114,6 +114,7 @@ type LineWrap struct {
 	blockedRI    bool       // are rules for Regional_Indicator currently blocked?
 	substituted  bool       // has the code-point class been substituted?
 	shadow       UAX14Class // class before substitution
+	afterZWJ     bool       // was the previous code-point a ZWJ?
 }
 
 // NewLineWrap creates a new UAX#14 line breaker.
@@ -185,6 +186,7 @@ func (uax14 *LineWrap) CodePointClassFor(r rune) int {
 	c = resolveSomeClasses(r, c)
 	cnew, shadow := substitueSomeClasses(c, uax14.lastClass)
 	uax14.substituted = (c != cnew)
+	uax14.afterZWJ = (uax14.shadow == ZWJClass)
 	uax14.shadow = shadow
 	return int(cnew)
 }
@@ -322,6 +324,8 @@ func (uax14 *LineWrap) ProceedWithRune(r rune, cpClass int) {
 			x = make([]int, 2)
 			x[1] = noBreak
 		}
+	} else if uax14.afterZWJ && (c == IDClass || c == EBClass || c == EMClass) {
+		x = setPenalty1(x, noBreak) // LB8a: do not break emoji ZWJ sequences
 	} else {
 		x = setPenalty1(x, DefaultPenalty)
 	}
-- 
2.43.0


From 0d52f16933079d922a3f4fcd0b4f297e7cf573ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 42/60] fix: line breaker counted combining marks after
 regional indicators as regional indicators

---
 uax14/uax14.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index d872852..92b5127 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -197,7 +197,8 @@ func (uax14 *LineWrap) CodePointClassFor(r rune) int {
 // Interface unicode.UnicodeBreaker
 func (uax14 *LineWrap) StartRulesFor(r rune, cpClass int) {
 	c := UAX14Class(cpClass)
-	if c != RIClass || !uax14.blockedRI {
+	// an RI sequence is counted without the combining marks attached to it (LB9)
+	if c != RIClass || !(uax14.blockedRI || uax14.substituted) {
 		if rules := uax14.rules[c]; len(rules) > 0 {
 			tracer().P("class", c).Debugf("starting %d rule(s) for class %s", len(rules), c)
 			for _, rule := range rules {
-- 
2.43.0


From 368dcb438a25264e55cd668501bdde8ded76771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 43/60] fix: line breaker broke after Hebrew letter, hyphen and
 combining mark (LB21a)

---
 uax14/rules.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/uax14/rules.go b/uax14/rules.go
index fb2a324..3e1b40f 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -353,11 +353,20 @@ func rule_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func finish_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
 	if c == HYClass || c == BAClass {
-		return uax.DoAccept(rec, p(21))
+		return finish_LB21a_2
 	}
 	return uax.DoAbort(rec)
 }
 
+// .. x, with combining marks attached to (HY | BA) skipped
+func finish_LB21a_2(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	c := UAX14Class(cpClass)
+	if rec.UserData.(*LineWrap).substituted && (c == HYClass || c == BAClass) {
+		return finish_LB21a_2
+	}
+	return uax.DoAccept(rec, 0, p(21))
+}
+
 //  LB21b Don’t break between Solidus and Hebrew letters.
 //
 // SY x HL
-- 
2.43.0


From 7de9fdba68b1bb7077ee1e50e97434023c034b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 44/60] fix: line breaker broke numbers with combining marks
 after brackets or hyphens (LB25)

---
 uax14/rules.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uax14/rules.go b/uax14/rules.go
index 3e1b40f..c089b45 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -533,6 +533,9 @@ func step3_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	if c == NUClass {
 		rec.MatchLen++
 		return step4_LB25
+	} else if rec.UserData.(*LineWrap).substituted && (c == OPClass || c == HYClass) {
+		rec.MatchLen++ // combining mark attached to OP or HY
+		return step3_LB25
 	}
 	return uax.DoAbort(rec)
 }
@@ -555,6 +558,9 @@ func step5_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
 	if c == PRClass || c == POClass {
 		return uax.DoAccept(rec, ps(25, p(25), rec.MatchLen)...)
+	} else if rec.UserData.(*LineWrap).substituted && (c == CLClass || c == CPClass) {
+		rec.MatchLen++ // combining mark attached to CL or CP
+		return step5_LB25
 	}
 	return uax.DoAccept(rec, ps(25, 0, rec.MatchLen)...)
 }
-- 
2.43.0


From 66ffed530b9748363ed69a0d64c2d77dde13c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 45/60] fix: line breaker reported mandatory breaks with
 penalties above -10000

---
 uax14/uax14.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index 92b5127..5ec809b 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -330,6 +330,17 @@ func (uax14 *LineWrap) ProceedWithRune(r rune, cpClass int) {
 	} else {
 		x = setPenalty1(x, DefaultPenalty)
 	}
+	switch uax14.lastClass { // mandatory breaks must not be outweighed
+	case BKClass, LFClass, NLClass:
+		x[1] = min(0, x[1])
+	case CRClass:
+		if c != LFClass {
+			x[1] = PenaltyForMustBreak
+		}
+	}
+	if c == eot {
+		x[1] = PenaltyForMustBreak - noBreak
+	}
 	for i, p := range x { // positive penalties get lifted +1000
 		if p > DefaultPenalty {
 			p += noBreak
@@ -410,6 +421,13 @@ func max(a, b int) int {
 	return b
 }
 
+func min(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 func setPenalty1(P []int, p int) []int {
 	if len(P) == 0 {
 		P = append(P, 0)
-- 
2.43.0


From 4dcbd38ff36971541730de2603f76796d9ee5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 46/60] fix: data race of concurrent first line breakers on the
 class table

---
 uax14/uax14.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index 5ec809b..f2d7261 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -170,9 +170,6 @@ func NewLineWrap() *LineWrap {
 		H3Class:  {rule_LB26_3, rule_LB27},
 		ZWJClass: {rule_LB8a},
 	}
-	if rangeFromUAX14Class == nil {
-		tracer().Infof("UAX#14 classes not yet initialized -> initializing")
-	}
 	SetupClasses()
 	uax14.lastClass = sot
 	return uax14
-- 
2.43.0


From 427700737fb8f52cd5519317788ba08a2da49f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 47/60] fix: UCD parser panicked or hung when its input could
 not be read, instead of reporting the error

---
 internal/ucdparse/linebuf.go | 5 ++++-
 internal/ucdparse/scan.go    | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index d4dc643..93923f0 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -117,7 +117,10 @@ func (buf *lineBuffer) AdvanceLine() error {
 		//fmt.Printf("===> reading line #%d\n", buf.CurrentLine)
 		if !buf.Input.Scan() { // could not read a new line: either I/O-error or EOF
 			if err := buf.Input.Err(); err != nil {
-				return fmt.Errorf("I/O error (%w) while reading input", err)
+				buf.isEof = 2 // no more lines
+				buf.Line = strings.NewReader("")
+				buf.LastError = fmt.Errorf("I/O error (%w) while reading input", err)
+				return buf.LastError
 			}
 			//fmt.Println("===> EOF !")
 			buf.isEof = 1
diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 7a616ab..c81b2bc 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -66,6 +66,9 @@ func (sc *scanner) Next() bool {
 	sc.Token = newScannerToken(sc.Buf.CurrentLine, int(sc.Buf.Cursor))
 	if sc.Buf.IsEof() {
 		sc.Token.TokenType = eof
+		if err := sc.Buf.LastError; err != nil && err != errAtEof {
+			sc.Token.Error, sc.LastError = err, err
+		}
 		return false
 	}
 	if sc.Step == nil {
-- 
2.43.0


From 93a9bf1a6eb0d27666a02097e483378ac9b3ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 48/60] fix: UCD parser took lines without valid code points
 for items (U+0000, or beyond the code space)

---
 internal/ucdparse/scan.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index c81b2bc..fa47e72 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -137,7 +137,7 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 	if pos > marker {
 		fmt.Printf("hex word %s\n", sc.Buf.Text[marker:pos])
 		hex := sc.Buf.Text[marker:pos]
-		if n, err := strconv.ParseInt(hex, 16, 32); err != nil {
+		if n, err := parseCodePoint(hex); err != nil {
 			fmt.Printf("hex decoding error: %v", err)
 			token.Error = fmt.Errorf("hex decoding error: %w", err)
 			return token, nil
@@ -146,6 +146,9 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 			token.runeTo = rune(n)
 		}
 		fmt.Printf("rune 1 = %v\n", token.runeFrom)
+	} else {
+		token.Error = fmt.Errorf("line %d: data item without code point", sc.Buf.CurrentLine)
+		return token, nil
 	}
 	var isRange bool
 	fmt.Printf("LA = %#U\n", la)
@@ -168,7 +171,7 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 	if pos > marker {
 		fmt.Printf("hex word %s\n", sc.Buf.Text[marker:pos])
 		hex := sc.Buf.Text[marker:pos]
-		if n, err := strconv.ParseInt(hex, 16, 32); err != nil {
+		if n, err := parseCodePoint(hex); err != nil {
 			fmt.Printf("hex decoding error: %v", err)
 			token.Error = fmt.Errorf("hex decoding error: %w", err)
 			return token, nil
@@ -176,12 +179,27 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 			token.runeTo = rune(n)
 		}
 		fmt.Printf("rune 2 = %v\n", token.runeTo)
+	} else {
+		token.Error = fmt.Errorf("line %d: range without end", sc.Buf.CurrentLine)
+		return token, nil
+	}
+	if token.runeFrom > token.runeTo {
+		token.Error = fmt.Errorf("line %d: range is reversed", sc.Buf.CurrentLine)
+		return token, nil
 	}
 	token.TokenType = rangeDataItem
 	fmt.Printf("token = %v\n", token)
 	return token, sc.ScanItemBody
 }
 
+func parseCodePoint(hex string) (int64, error) {
+	n, err := strconv.ParseInt(hex, 16, 32)
+	if err == nil && n > unicode.MaxRune {
+		err = fmt.Errorf("%s is not a Unicode code point", hex)
+	}
+	return n, err
+}
+
 func isHexDigit(r rune) bool {
 	return unicode.IsDigit(r) || (r >= 'a' && r <= 'f') || (r >= 'A' && r <= 'F')
 }
-- 
2.43.0


From b6bab7c818ffec4f40e8bbd192b4bcb3f6cab4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 49/60] fix: class generators ignored errors of the data file
 except in its last line

---
 emoji/internal/generator/generator.go    | 2 +-
 grapheme/internal/generator/generator.go | 2 +-
 uax14/internal/generator/generator.go    | 2 +-
 uax29/internal/generator/generator.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/emoji/internal/generator/generator.go b/emoji/internal/generator/generator.go
index 87443c8..2605277 100644
--- a/emoji/internal/generator/generator.go
+++ b/emoji/internal/generator/generator.go
@@ -92,7 +92,7 @@ func loadUnicodeEmojiBreakFile() (map[string][]rune, error) {
 		}
 		gcls[clstr] = list
 	}
-	err = parser.Token.Error
+	err = parser.LastError
 	if err != nil {
 		log.Fatal(err)
 	}
diff --git a/grapheme/internal/generator/generator.go b/grapheme/internal/generator/generator.go
index a8df72f..90b1cfb 100644
--- a/grapheme/internal/generator/generator.go
+++ b/grapheme/internal/generator/generator.go
@@ -97,7 +97,7 @@ func loadUnicodeGraphemeBreakFile() (map[string][]rune, error) {
 		}
 		gcls[clstr] = list
 	}
-	err = parser.Token.Error
+	err = parser.LastError
 	if err != nil {
 		log.Fatal(err)
 	}
diff --git a/uax14/internal/generator/generator.go b/uax14/internal/generator/generator.go
index 1ca3a4d..82d3b6c 100644
--- a/uax14/internal/generator/generator.go
+++ b/uax14/internal/generator/generator.go
@@ -88,7 +88,7 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 		}
 		lbcs[brclzstr] = list
 	}
-	err = p.Token.Error
+	err = p.LastError
 	if err != nil {
 		log.Fatal(err)
 	}
diff --git a/uax29/internal/generator/generator.go b/uax29/internal/generator/generator.go
index 0bff2f0..c3bcf00 100644
--- a/uax29/internal/generator/generator.go
+++ b/uax29/internal/generator/generator.go
@@ -94,7 +94,7 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 		}
 		lbcs[brclzstr] = list
 	}
-	err = p.Token.Error
+	err = p.LastError
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 56bcbbd1d38a56c42ed86e2e64da26db0854680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 50/60] fix: table generator ignored HTTP and parser errors and
 wrote incomplete or meaningless tables

---
 internal/tablegen/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/tablegen/main.go b/internal/tablegen/main.go
index 77b6916..5f93226 100644
--- a/internal/tablegen/main.go
+++ b/internal/tablegen/main.go
@@ -81,10 +81,14 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("cannot load %s: %s", *ucdurl, resp.Status)
+	}
 	printPreamble(buf, *packageNameFlag)
 
 	// parse UCD file and collect ranges
-	ucdparse.Parse(resp.Body, func(p *ucdparse.Token) {
+	err = ucdparse.Parse(resp.Body, func(p *ucdparse.Token) {
 		l, r := p.Range()             // char range in field 0
 		t := p.Field(categoryFieldNo) // character category
 		t = strings.TrimSpace(t)
@@ -93,6 +97,9 @@ func main() {
 		}
 		append(ranges, t, l, r)
 	})
+	if err != nil {
+		log.Fatal(err)
+	}
 
 	// output range information per category
 	for _, rt := range ranges {
-- 
2.43.0


From 511c51ff7d41080eb152c6ac8130c145b6e02866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 51/60] fix: bidi options could not be switched off again by a
 later option

---
 bidi/scanner.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 20eae43..936f188 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -530,22 +530,16 @@ const (
 // thus setting this option will have no effect.
 func RecognizeLegacy(b bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionRecognizeLegacy) && b ||
-			sc.hasMode(optionRecognizeLegacy) && !b {
-			sc.mode |= optionRecognizeLegacy
-		}
+		sc.setMode(optionRecognizeLegacy, b)
 	}
 }
 
 // DefaultDirection sets outer embedding level for a paragraph
 // (LeftToRight is the normal default).
 func DefaultDirection(dir Direction) Option {
-	if dir == RightToLeft {
-		return func(sc *bidiScanner) {
-			sc.mode |= optionOuterR2L
-		}
+	return func(sc *bidiScanner) {
+		sc.setMode(optionOuterR2L, dir == RightToLeft)
 	}
-	return nil
 }
 
 // TestMode will set up the scanner to recognize UPPERCASE letters as having R2L class.
@@ -563,10 +557,7 @@ func DefaultDirection(dir Direction) Option {
 //
 func TestMode(b bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionTesting) && b ||
-			sc.hasMode(optionTesting) && !b {
-			sc.mode |= optionTesting
-		}
+		sc.setMode(optionTesting, b)
 	}
 }
 
@@ -577,10 +568,15 @@ func TestMode(b bool) Option {
 // paragraph separator is cut off of the input.
 func IgnoreParagraphSeparators(b bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionIgnoreParSep) && b ||
-			sc.hasMode(optionIgnoreParSep) && !b {
-			sc.mode |= optionIgnoreParSep
-		}
+		sc.setMode(optionIgnoreParSep, b)
+	}
+}
+
+func (sc *bidiScanner) setMode(m uint8, on bool) {
+	if on {
+		sc.mode |= m
+	} else {
+		sc.mode &^= m
 	}
 }
 
-- 
2.43.0


From abb5f6fefaedac867b7d53ffb19c9589924ad65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 52/60] fix: UCD parser failed for files over 64 KiB with CR
 line ends

---
 internal/ucdparse/linebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index 93923f0..f667ad7 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -37,7 +37,7 @@ func newLineBuffer(inputDoc io.Reader) *lineBuffer {
 		advance, token, err = bufio.ScanLines(data, atEOF)
 		for i, ch := range data {
 			if ch == '\r' {
-				if i < len(data)-1 && i < len(token) {
+				if i < len(data)-1 && (i < len(token) || advance == 0) {
 					if data[i+1] != '\n' {
 						advance = i + 1
 						token = data[:i]
-- 
2.43.0


From 6a2b095c6f8c6f81edb2a40337127dc619f3ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 53/60] fix: UCD parser skipped empty first fields and shifted
 the ones behind

---
 internal/ucdparse/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index fa47e72..e506bd9 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -213,7 +213,7 @@ func (sc *scanner) ScanItemBody(token *Token) (*Token, scannerStep) {
 		fmt.Printf("@ comment = %q\n", token.Comment)
 	}
 	a[0] = strings.TrimSpace(a[0])
-	a[0] = strings.TrimLeft(a[0], ";")
+	a[0] = strings.TrimPrefix(a[0], ";")
 	token.Fields = strings.Split(a[0], ";")
 	return token, nil
 }
-- 
2.43.0


From 1486dec5bc312a026f406bf0ce08c277692d54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 54/60] fix: UCD parser cut comments at a second number sign

---
 internal/ucdparse/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index e506bd9..a091968 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -207,7 +207,7 @@ func isHexDigit(r rune) bool {
 func (sc *scanner) ScanItemBody(token *Token) (*Token, scannerStep) {
 	rest := sc.Buf.ReadLineRemainder()
 	fmt.Printf("remainder = %q\n", rest)
-	a := strings.Split(rest, "#")
+	a := strings.SplitN(rest, "#", 2) // comments may contain the character, too
 	if len(a) > 1 {
 		token.Comment = strings.TrimSpace(a[1])
 		fmt.Printf("@ comment = %q\n", token.Comment)
-- 
2.43.0


From 81c3915829b1ec83631a7cb4d1247c801a70cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 55/60] fix: test file reader repeated tests at blank lines and
 kept comments of earlier tests

---
 internal/ucdparse/testfiles.go | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/internal/ucdparse/testfiles.go b/internal/ucdparse/testfiles.go
index 8ec1a05..675cd40 100644
--- a/internal/ucdparse/testfiles.go
+++ b/internal/ucdparse/testfiles.go
@@ -34,28 +34,19 @@ func OpenTestFile(filename string, t *testing.T) *ucdTestFile {
 }
 
 func (tf *ucdTestFile) Scan() bool {
-	ok := true
-	done := false
-	for !done {
-		ok = tf.scanner.Scan()
-		if ok && len(tf.scanner.Bytes()) > 0 {
-			if tf.scanner.Bytes()[0] == '#' {
-				continue
-			}
-			done = true
-			text := tf.scanner.Text()
-			text = strings.TrimSpace(text)
-			parts := strings.Split(text, "#")
-			if len(parts) > 1 {
-				tf.text, tf.comment = parts[0], parts[1]
-			} else {
-				tf.text = parts[0]
-			}
-		} else {
-			done = true // with error
+	for tf.scanner.Scan() {
+		text := strings.TrimSpace(tf.scanner.Text())
+		if text == "" || text[0] == '#' {
+			continue // blank line or comment
+		}
+		parts := strings.SplitN(text, "#", 2)
+		tf.text, tf.comment = parts[0], ""
+		if len(parts) > 1 {
+			tf.comment = parts[1]
 		}
+		return true
 	}
-	return ok
+	return false
 }
 
 func (tf *ucdTestFile) Text() string {
-- 
2.43.0


From 0c0425bfe367c38b08cf8ada0ddf0b7a03426fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 56/60] fix: generators ignored errors when writing their
 output

---
 bidi/internal/gen/brackgen.go            | 16 +++++++++++-----
 emoji/internal/generator/generator.go    |  2 +-
 grapheme/internal/generator/generator.go |  2 +-
 uax14/internal/generator/generator.go    |  2 +-
 uax29/internal/generator/generator.go    |  2 +-
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/bidi/internal/gen/brackgen.go b/bidi/internal/gen/brackgen.go
index 1446959..6471b25 100644
--- a/bidi/internal/gen/brackgen.go
+++ b/bidi/internal/gen/brackgen.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"os"
@@ -34,14 +35,19 @@ func main() {
 		os.Exit(2)
 	}
 	defer f.Close()
-	f.WriteString("package " + *pkg + "\n\n")
-	f.WriteString("type BracketPair struct {\n    o rune\n    c rune\n}\n\n")
-	f.WriteString("var UAX9BracketPairs = []BracketPair{\n")
+	w := bufio.NewWriter(f)
+	w.WriteString("package " + *pkg + "\n\n")
+	w.WriteString("type BracketPair struct {\n    o rune\n    c rune\n}\n\n")
+	w.WriteString("var UAX9BracketPairs = []BracketPair{\n")
 	for _, p := range pairs {
 		//f.WriteString(fmt.Sprintf("    BracketPair{o: %q, c: %q},\n", p.o, p.c))
-		f.WriteString(fmt.Sprintf("    {o: %q, c: %q},\n", p.o, p.c))
+		w.WriteString(fmt.Sprintf("    {o: %q, c: %q},\n", p.o, p.c))
+	}
+	w.WriteString("}\n")
+	if err = w.Flush(); err != nil {
+		tracing.Errorf(err.Error())
+		os.Exit(2)
 	}
-	f.WriteString("}\n")
 }
 
 type bracketPair struct {
diff --git a/emoji/internal/generator/generator.go b/emoji/internal/generator/generator.go
index 2605277..abb3b85 100644
--- a/emoji/internal/generator/generator.go
+++ b/emoji/internal/generator/generator.go
@@ -246,7 +246,7 @@ func main() {
 	t = makeTemplate("Emoji classes stringer", templateClassStringer)
 	checkFatal(t.Execute(w, emojiClassnames))
 	generateRanges(w, codePointLists)
-	w.Flush()
+	checkFatal(w.Flush())
 }
 
 // --- Util -------------------------------------------------------------
diff --git a/grapheme/internal/generator/generator.go b/grapheme/internal/generator/generator.go
index 90b1cfb..2f7ef71 100644
--- a/grapheme/internal/generator/generator.go
+++ b/grapheme/internal/generator/generator.go
@@ -261,7 +261,7 @@ func main() {
 	t = makeTemplate("Grapheme classes stringer", templateClassStringer)
 	checkFatal(t.Execute(w, graphemeClassnames))
 	generateRanges(w, codePointLists)
-	w.Flush()
+	checkFatal(w.Flush())
 }
 
 // --- Util -------------------------------------------------------------
diff --git a/uax14/internal/generator/generator.go b/uax14/internal/generator/generator.go
index 82d3b6c..a1cee02 100644
--- a/uax14/internal/generator/generator.go
+++ b/uax14/internal/generator/generator.go
@@ -246,7 +246,7 @@ func main() {
 	t = makeTemplate("UAX#14 classes stringer", templateClassStringer)
 	checkFatal(t.Execute(w, uax14classnames))
 	generateRanges(w, codePointLists)
-	w.Flush()
+	checkFatal(w.Flush())
 }
 
 // --- Util -------------------------------------------------------------
diff --git a/uax29/internal/generator/generator.go b/uax29/internal/generator/generator.go
index c3bcf00..92a2a74 100644
--- a/uax29/internal/generator/generator.go
+++ b/uax29/internal/generator/generator.go
@@ -256,7 +256,7 @@ func main() {
 	t = makeTemplate("UAX#29 classes stringer", templateClassStringer)
 	checkFatal(t.Execute(w, uax29classnames))
 	generateRanges(w, codePointLists)
-	w.Flush()
+	checkFatal(w.Flush())
 }
 
 // --- Util -------------------------------------------------------------
-- 
2.43.0


From d46f26eca8fbeecd3f16cb51bf96edbe452be531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:50 +0000
Subject: [PATCH 57/60] fix: a segmenter for a slice of runes forgot its slice
 at a bound

After BoundedNext had returned false, the segments of a slice were copied
into a buffer, and segments longer than the buffer reported ErrTooLong.
---
 segment/segment.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 5ccccd5..f0f7d58 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -382,17 +382,17 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	if err := s.readEnoughInputAndFindBreak(bound); err != nil && err != io.EOF {
 		s.setErr(err)
-		s.runesBuf = s.runesBuf.Reset(nil)
+		s.runesBuf = s.runesBuf.SetMark() // empty segment
 		return false
 	}
 	//
 	if s.positionOfBreakOpportunity < 0 { // didn't find a break opportunity
-		s.runesBuf = s.runesBuf.Reset(nil)
+		s.runesBuf = s.runesBuf.SetMark() // empty segment
 		return false
 	}
 	if err := s.getFrontSegment(); err != nil { // segment does not fit into buffer
 		s.setErr(err)
-		s.runesBuf = s.runesBuf.Reset(nil)
+		s.runesBuf = s.runesBuf.SetMark()
 		s.deque.Clear()
 		s.atEOF = true
 		s.positionOfBreakOpportunity = -1
-- 
2.43.0


From f68fc9ce25c069343c2ec243674d6a645cbb48f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 58/60] fix: Split at positions from 2^32 on must not wrap
 around to small ones

---
 bidi/reordering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index fe276f0..52a51de 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -50,6 +50,9 @@ func (rl *ResolvedLevels) String() string {
 // and characters are therefore “re-positioned”.
 //
 func (rl *ResolvedLevels) Split(at uint64, shift0 bool) (*ResolvedLevels, *ResolvedLevels) {
+	if at > uint64(^charpos(0)) {
+		at = uint64(^charpos(0)) // behind every text
+	}
 	prefix, suffix := split(rl.scraps, charpos(at))
 	if shift0 {
 		//suffix = shiftzero(suffix, charpos(at))
-- 
2.43.0


From 31f9b9794105f0912de51e970b422db120d693e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:26 +0000
Subject: [PATCH 59/60] fix: Split in front of a line must leave all of it in
 the second piece

---
 bidi/reordering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 52a51de..a1616bb 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -69,6 +69,9 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 	// split, too. In fact, we need to introduce a LRI/RLI at the beginning of
 	// the right rest and can spare PDIs in left parts.
 	tracer().Debugf("split @%d, irs = %v", at, scraps)
+	if len(scraps) > 0 && at < scraps[0].l { // everything is behind the cut
+		return []scrap{}, scraps
+	}
 	if !irsContains(scraps, at) {
 		return scraps, []scrap{}
 	}
-- 
2.43.0


From a0cf5d69f22e8d06709f1c403ef895640fe03380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:33 +0000
Subject: [PATCH 60/60] fix: segmenter panicked for breakers which cannot be
 compared, and took equal ones for the primary breaker

---
 segment/segment.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index f0f7d58..0843ba9 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -461,14 +461,14 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 		s.longestActiveMatch = 0
 		s.midText = !s.atEOF
 		r := s.deque.LastRune()
-		for _, breaker := range s.breakers {
+		for i, breaker := range s.breakers {
 			cpClass := breaker.CodePointClassFor(r)
 			breaker.StartRulesFor(r, cpClass)
 			breaker.ProceedWithRune(r, cpClass)
 			if lam := breaker.LongestActiveMatch(); lam > s.longestActiveMatch {
 				s.longestActiveMatch = lam
 			}
-			s.insertPenalties(s.inxForBreaker(breaker), breaker.Penalties())
+			s.insertPenalties(min(i, 1), breaker.Penalties()) // secondary breakers are aggregated
 		}
 		//s.printQ()
 		// The Q is updated. The longest active match may have been changed and
@@ -527,15 +527,6 @@ func (s *Segmenter) findBreakOpportunity(to int, bound int) int {
 	return -1
 }
 
-// find out if the UnicodeBreaker b is the primary breaker. If yes, return index 0,
-// 1 otherwise.
-func (s *Segmenter) inxForBreaker(b uax.UnicodeBreaker) int {
-	if b == s.breakers[0] {
-		return 0
-	}
-	return 1
-}
-
 // insertPenalties distributes penalties from the current breaker cycle
 // between the Q atoms. Penalties may be located after the fact between
 // runes of the current longest match.
-- 
2.43.0

