package ref

// An independent implementation of UAX #9 (implicit part and isolates), written
// from the text of the annex. Explicit embeddings and overrides (LRE, RLE, LRO,
// RLO, PDF) are not covered, nor is rule L1.

// BC is a Bidi_Class.
type BC uint8

// Bidi classes.
const (
	BL BC = iota
	BR
	BAL
	BEN
	BES
	BET
	BAN
	BCS
	BNSM
	BBN
	BWS // WS and S
	BON
	BLRI
	BRLI
	BFSI
	BPDI
)

// BidiChar is a character of a paragraph.
type BidiChar struct {
	Class BC
	// Bracket: 0 none, 1 opening, 2 closing. Pair identifies the bracket pair.
	Bracket int
	Pair    rune
}

// BidiLevels resolves the levels of a paragraph with paragraph level para (0 or 1).
// Characters of class BN have level -1.
func BidiLevels(text []BidiChar, para int) []int {
	n := len(text)
	levels := make([]int, n)
	match := make([]int, n) // isolate initiator -> PDI or -1; PDI -> initiator or -1
	var st []int
	for i := range match {
		match[i] = -1
	}
	for i, c := range text {
		switch c.Class {
		case BLRI, BRLI, BFSI:
			st = append(st, i)
		case BPDI:
			if len(st) > 0 {
				j := st[len(st)-1]
				st = st[:len(st)-1]
				match[j], match[i] = i, j
			}
		}
	}
	// explicit levels
	type frame struct{ level int }
	stack := []frame{{para}}
	overflow := 0
	valid := 0
	seqOf := make([]int, n) // isolating run sequence of a character
	seqs := [][]int{nil}
	seqLevel := []int{para}
	seqStack := []int{0}
	unclosedEnd := []bool{false}
	for i, c := range text {
		cur := stack[len(stack)-1].level
		sq := seqStack[len(seqStack)-1]
		switch c.Class {
		case BLRI, BRLI, BFSI:
			levels[i] = cur
			seqs[sq] = append(seqs[sq], i)
			seqOf[i] = sq
			rtl := c.Class == BRLI
			if c.Class == BFSI {
				end := match[i]
				if end < 0 {
					end = n
				}
				rtl = FirstStrong(text[i+1:end]) == 1
			}
			nl := cur + 1
			if rtl != (nl%2 == 1) {
				nl++
			}
			if nl <= 125 && overflow == 0 {
				valid++
				stack = append(stack, frame{nl})
				seqs = append(seqs, nil)
				seqLevel = append(seqLevel, nl)
				unclosedEnd = append(unclosedEnd, match[i] < 0)
				seqStack = append(seqStack, len(seqs)-1)
			} else {
				overflow++
			}
		case BPDI:
			if overflow > 0 {
				overflow--
			} else if valid > 0 {
				valid--
				stack = stack[:len(stack)-1]
				seqStack = seqStack[:len(seqStack)-1]
			}
			levels[i] = stack[len(stack)-1].level
			sq = seqStack[len(seqStack)-1]
			seqs[sq] = append(seqs[sq], i)
			seqOf[i] = sq
		case BBN:
			levels[i] = -1
		default:
			levels[i] = cur
			seqs[sq] = append(seqs[sq], i)
			seqOf[i] = sq
		}
	}
	for s, idx := range seqs {
		if len(idx) == 0 {
			continue
		}
		resolveSequence(text, idx, s, seqLevel[s], para, levels, match)
	}
	return levels
}

// FirstStrong finds the direction of the first strong character (P2, P3),
// skipping isolates: 0 left-to-right, 1 right-to-left, -1 none.
func FirstStrong(text []BidiChar) int {
	depth := 0
	for _, c := range text {
		switch c.Class {
		case BLRI, BRLI, BFSI:
			depth++
		case BPDI:
			if depth > 0 {
				depth--
			}
		case BL:
			if depth == 0 {
				return 0
			}
		case BR, BAL:
			if depth == 0 {
				return 1
			}
		}
	}
	return -1
}

func dirOf(level int) BC {
	if level%2 == 1 {
		return BR
	}
	return BL
}

func resolveSequence(text []BidiChar, idx []int, s, level, para int, levels, match []int) {
	n := len(idx)
	e := dirOf(level)
	// In the absence of embeddings a sequence begins after an isolate initiator (or
	// at the start of the paragraph) and ends before the matching PDI (or at the end
	// of the paragraph). The higher of the two levels at the boundary is the
	// sequence's own, as isolates only increase levels.
	sos, eos := e, e
	if s == 0 && n > 0 {
		// ends in an unmatched initiator: eos compares with the paragraph level, the same.
		sos, eos = dirOf(para), dirOf(para)
	}
	t := make([]BC, n)
	for k, i := range idx {
		t[k] = text[i].Class
	}
	iso := func(c BC) bool { return c == BLRI || c == BRLI || c == BFSI || c == BPDI }
	// W1
	for k := range t {
		if t[k] == BNSM {
			if k == 0 {
				t[k] = sos
			} else if iso(t[k-1]) {
				t[k] = BON
			} else {
				t[k] = t[k-1]
			}
		}
	}
	// W2
	strong := sos
	for k := range t {
		switch t[k] {
		case BL, BR, BAL:
			strong = t[k]
		case BEN:
			if strong == BAL {
				t[k] = BAN
			}
		}
	}
	// W3
	for k := range t {
		if t[k] == BAL {
			t[k] = BR
		}
	}
	// W4
	for k := 1; k+1 < n; k++ {
		if t[k] == BES && t[k-1] == BEN && t[k+1] == BEN {
			t[k] = BEN
		} else if t[k] == BCS && t[k-1] == t[k+1] && (t[k-1] == BEN || t[k-1] == BAN) {
			t[k] = t[k-1]
		}
	}
	// W5
	for k := 0; k < n; {
		if t[k] != BET {
			k++
			continue
		}
		j := k
		for j < n && t[j] == BET {
			j++
		}
		if k > 0 && t[k-1] == BEN || j < n && t[j] == BEN {
			for m := k; m < j; m++ {
				t[m] = BEN
			}
		}
		k = j
	}
	// W6
	for k := range t {
		if t[k] == BES || t[k] == BET || t[k] == BCS {
			t[k] = BON
		}
	}
	// W7
	strong = sos
	for k := range t {
		switch t[k] {
		case BL, BR:
			strong = t[k]
		case BEN:
			if strong == BL {
				t[k] = BL
			}
		}
	}
	// N0
	type pr struct{ o, c int }
	var pairs []pr
	type open struct {
		pair rune
		at   int
	}
	var bs []open
scan:
	for k, i := range idx {
		c := text[i]
		if c.Bracket == 0 || t[k] != BON {
			continue
		}
		if c.Bracket == 1 {
			if len(bs) == 63 {
				// BD16: stop processing for the remainder of the sequence. (Since
				// Unicode 8 the pairs found so far are kept.)
				break scan
			}
			bs = append(bs, open{c.Pair, k})
			continue
		}
		for m := len(bs) - 1; m >= 0; m-- {
			if bs[m].pair == c.Pair {
				pairs = append(pairs, pr{bs[m].at, k})
				bs = bs[:m]
				break
			}
		}
	}
	for a := 1; a < len(pairs); a++ {
		for b := a; b > 0 && pairs[b].o < pairs[b-1].o; b-- {
			pairs[b], pairs[b-1] = pairs[b-1], pairs[b]
		}
	}
	str := func(c BC) BC { // strong type for N0, N1
		switch c {
		case BL:
			return BL
		case BR, BEN, BAN:
			return BR
		}
		return BON
	}
	for _, p := range pairs {
		match, opp := false, false
		for k := p.o + 1; k < p.c; k++ {
			switch str(t[k]) {
			case e:
				match = true
			case BL, BR:
				opp = true
			}
		}
		set := BON
		if match {
			set = e
		} else if opp {
			ctx := sos
			for k := p.o - 1; k >= 0; k-- {
				if d := str(t[k]); d != BON {
					ctx = d
					break
				}
			}
			if ctx != e {
				set = ctx
			} else {
				set = e
			}
		}
		if set == BON {
			continue
		}
		for _, k := range []int{p.o, p.c} {
			t[k] = set
			for m := k + 1; m < n && text[idx[m]].Class == BNSM; m++ {
				t[m] = set
			}
		}
	}
	// N1, N2
	for k := 0; k < n; {
		if str(t[k]) != BON {
			k++
			continue
		}
		j := k
		for j < n && str(t[j]) == BON {
			j++
		}
		before, after := sos, eos
		if k > 0 {
			before = str(t[k-1])
		}
		if j < n {
			after = str(t[j])
		}
		set := e
		if before == after {
			set = before
		}
		for m := k; m < j; m++ {
			t[m] = set
		}
		k = j
	}
	// I1, I2
	for k, i := range idx {
		l := level
		if level%2 == 0 {
			switch t[k] {
			case BR:
				l++
			case BAN, BEN:
				l += 2
			}
		} else {
			switch t[k] {
			case BL, BEN, BAN:
				l++
			}
		}
		levels[i] = l
	}
}

// BidiVisual applies rule L2 to the characters with level >= 0 and returns their
// indices from left to right.
func BidiVisual(levels []int) []int {
	var idx []int
	high, low := 0, 1<<30
	for i, l := range levels {
		if l < 0 {
			continue
		}
		idx = append(idx, i)
		if l > high {
			high = l
		}
		if l%2 == 1 && l < low {
			low = l
		}
	}
	for l := high; l >= low; l-- {
		for k := 0; k < len(idx); {
			if levels[idx[k]] < l {
				k++
				continue
			}
			j := k
			for j < len(idx) && levels[idx[j]] >= l {
				j++
			}
			for a, b := k, j-1; a < b; a, b = a+1, b-1 {
				idx[a], idx[b] = idx[b], idx[a]
			}
			k = j
		}
	}
	return idx
}
