package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/npillmayer/uax"
)

// --- P01: rune publisher ------------------------------------------------------------

// subScript is the life of a subscriber: what it answers to its k-th rune event.
type subScript struct {
	Life int     `json:"life"` // number of events until done
	Len  []int   `json:"len"`  // match length after event k
	Pen  [][]int `json:"pen"`  // penalties answered to event k
	// Subs are subscribers which it brings along with event k, or (k = Life) when it is unsubscribed.
	Subs map[int][]subScript `json:"subs,omitempty"`
}

type pubCase struct {
	// Steps: which subscribers are added before the event
	Steps [][]subScript `json:"steps"`
	Pubs  int           `json:"pubs"` // number of publishers, fed round robin
}

type pubEvent struct {
	sub   int
	what  string // event | unsubscribed
	r     rune
	class int
}

type testSub struct {
	id    int
	s     subScript
	n     int
	log   *[]pubEvent
	add   func(subScript)
	added bool // while an event was being published
}

func (s *testSub) RuneEvent(r rune, c int) []int {
	*s.log = append(*s.log, pubEvent{s.id, "event", r, c})
	k := s.n
	if k%2 == 0 { // done before or after the new ones come
		s.n++
	}
	for _, sc := range s.s.Subs[k] {
		s.add(sc)
	}
	if k%2 != 0 {
		s.n++
	}
	if k < len(s.s.Pen) {
		return s.s.Pen[k]
	}
	return nil
}
func (s *testSub) MatchLength() int {
	if s.n > 0 && s.n <= len(s.s.Len) {
		return s.s.Len[s.n-1]
	}
	return 0
}
func (s *testSub) Done() bool { return s.n >= s.s.Life }
func (s *testSub) Unsubscribed() {
	*s.log = append(*s.log, pubEvent{sub: s.id, what: "unsubscribed"})
	for _, sc := range s.s.Subs[s.s.Life] {
		s.add(sc)
	}
}

func runP01(c pubCase, o *Obs) *Viol {
	pubs := make([]*uax.DefaultRunePublisher, c.Pubs)
	for i := range pubs {
		pubs[i] = uax.NewRunePublisher()
	}
	active := make([]map[int]*testSub, c.Pubs)
	for i := range active {
		active[i] = map[int]*testSub{}
	}
	var log []pubEvent
	subs := make([]func(subScript), c.Pubs)
	next := 0
	maxActive := 0
	for t, add := range c.Steps {
		pi := t % c.Pubs
		pub, act := pubs[pi], active[pi]
		publishing := false
		var subscribe func(sc subScript)
		subscribe = func(sc subScript) {
			s := &testSub{id: next, s: sc, log: &log, add: func(sc subScript) { subs[pi](sc) }, added: publishing}
			next++
			act[s.id] = s
			pub.SubscribeMe(s)
			if publishing {
				o.Add("subscribed_by_subscribers", 1)
			}
		}
		subs[pi] = subscribe
		for _, sc := range add {
			subscribe(sc)
		}
		if len(act) > maxActive {
			maxActive = len(act)
		}
		if pub.Len() != len(act) {
			return violf("len", "step %d: publisher has %d subscribers, should have %d", t, pub.Len(), len(act))
		}
		log = log[:0]
		r, class := rune('a'+t%26), t%11
		publishing = true
		longest, pen := pub.PublishRuneEvent(r, class)
		// expectations
		var wantPen []int
		wantLongest := 0
		for _, s := range act {
			k := s.n - 1
			if k >= 0 && k < len(s.s.Pen) {
				for i, p := range s.s.Pen[k] {
					for len(wantPen) <= i {
						wantPen = append(wantPen, 0)
					}
					wantPen[i] += p
				}
			}
			if !s.Done() && s.MatchLength() > wantLongest {
				wantLongest = s.MatchLength()
			}
		}
		got, unsub := map[int]int{}, map[int]int{}
		seenUnsub := false
		for _, e := range log {
			s := act[e.sub]
			if s == nil {
				return violf("ghost", "step %d: subscriber %d is not subscribed here, but got %s", t, e.sub, e.what)
			}
			if e.what == "event" {
				if seenUnsub {
					return violf("order", "step %d: event for subscriber %d after others have been unsubscribed", t, e.sub)
				}
				if e.r != r || e.class != class {
					return violf("event", "step %d: subscriber %d got rune %U/%d instead of %U/%d", t, e.sub, e.r, e.class, r, class)
				}
				got[e.sub]++
			} else {
				seenUnsub = true
				unsub[e.sub]++
			}
		}
		for id, s := range act {
			if got[id] != 1 && !(s.added && got[id] == 0) { // new ones need not hear of the current rune
				return violf("delivery", "step %d: subscriber %d got %d events for one rune", t, id, got[id])
			}
			want := 0
			if s.Done() {
				want = 1
			}
			if unsub[id] != want {
				return violf("unsubscribe", "step %d: subscriber %d (done: %v) was unsubscribed %d times", t, id, s.Done(), unsub[id])
			}
			s.added = false
			if s.Done() {
				delete(act, id)
				o.Add("unsubscribed", 1)
			}
			o.Add("rune_events", 1)
		}
		if longest != wantLongest {
			return violf("longest", "step %d: longest active match %d, should be %d", t, longest, wantLongest)
		}
		if !sameInts(pen, wantPen) {
			return violf("penalties", "step %d: penalties %v, should be %v", t, pen, wantPen)
		}
		if pub.Len() != len(act) {
			return violf("len", "step %d: publisher has %d subscribers left, should have %d", t, pub.Len(), len(act))
		}
	}
	if int64(maxActive) > o.Events["max_active"] {
		o.Events["max_active"] = int64(maxActive)
	}
	if maxActive > 1 {
		o.Nontrivial(fmt.Sprint(c))
		o.Sample("%d runes, up to %d active subscribers", len(c.Steps), maxActive)
	}
	return nil
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func genP01(i int, r *rand.Rand, tier string) interface{} {
	c := pubCase{Pubs: 1 + r.Intn(2)}
	steps := 1 + r.Intn(12)
	if r.Intn(20) == 0 {
		steps = 100
	}
	maxlife := 1 + r.Intn(8)
	burst := 1 + r.Intn(6)
	if r.Intn(50) == 0 {
		burst = 200
	}
	if r.Intn(20000) == 0 {
		steps, burst = 3, 5000
	}
	along := r.Intn(4) == 0
	many := r.Intn(300) == 0 // penalties for long matches
	for t := 0; t < steps; t++ {
		var add []subScript
		for k := r.Intn(burst); k > 0; k-- {
			s := subScript{Life: 1 + r.Intn(maxlife)}
			for j := 0; j < s.Life; j++ {
				ml := r.Intn(9)
				if many {
					ml = edgeLen(r)
				}
				if ml > 0 && r.Intn(1000) == 0 { // beyond the reach of small numbers
					ml = []int{127, 255, 32767, 65535, 1 << 20, math.MaxInt32}[r.Intn(6)] + r.Intn(3)
				}
				s.Len = append(s.Len, ml)
				var pen []int
				if r.Intn(2) == 0 {
					np := r.Intn(4)
					if many && r.Intn(3) == 0 {
						np = edgeLen(r)
					}
					for m := np; m > 0; m-- {
						pen = append(pen, []int{0, 10000, -10000, 50, -1, 7}[r.Intn(6)])
					}
				}
				s.Pen = append(s.Pen, pen)
			}
			if along && r.Intn(3) == 0 {
				n := subScript{Life: 1 + r.Intn(maxlife), Len: []int{r.Intn(9), r.Intn(9)}, Pen: [][]int{{r.Intn(100), 1}}}
				s.Subs = map[int][]subScript{r.Intn(s.Life + 1): {n}}
				if k := r.Intn(s.Life + 1); r.Intn(3) == 0 {
					m := n
					m.Subs = map[int][]subScript{r.Intn(n.Life + 1): {n}}
					s.Subs[k] = append(s.Subs[k], m, n)
				}
			}
			add = append(add, s)
		}
		c.Steps = append(c.Steps, add)
	}
	return c
}

func shrinkP01(x interface{}) []interface{} {
	c := x.(pubCase)
	var out []interface{}
	for i := range c.Steps {
		d := c
		d.Steps = append(append([][]subScript{}, c.Steps[:i]...), c.Steps[i+1:]...)
		out = append(out, d)
		if len(out) > 40 {
			break
		}
	}
	for i := range c.Steps {
		for k := range c.Steps[i] {
			d := c
			d.Steps = append([][]subScript{}, c.Steps...)
			d.Steps[i] = append(append([]subScript{}, c.Steps[i][:k]...), c.Steps[i][k+1:]...)
			out = append(out, d)
			if len(out) > 120 {
				return out
			}
		}
	}
	return out
}

// --- P02: recognizers -----------------------------------------------------------------

// recScript is the life of a recognizer, one action per rune:
// m: match the rune, i: ignore it, a: accept (with penalties), d: end the match as it is, without penalties, x: abort, y: accept, then abort
type recScript struct {
	Acts string  `json:"acts"`
	Pens [][]int `json:"pens"`
	Data bool    `json:"data"` // owner stores user data
	Exp  int     `json:"exp"`  // owner's expectation
	Mod  int     `json:"mod"`  // Expect is changed during matching
	New  bool    `json:"new"`  // a new recognizer instead of a pooled one
}

type recCase struct {
	Steps [][]recScript `json:"steps"`
	Pubs  int           `json:"pubs"`
}

type liveRec struct {
	rec  *uax.Recognizer
	s    recScript
	n    int
	mlen int
	data interface{}
	bad  string
}

func runP02(c recCase, o *Obs) *Viol {
	pubs := make([]uax.RunePublisher, c.Pubs)
	live := make([]map[*uax.Recognizer]*liveRec, c.Pubs)
	for i := range pubs {
		pubs[i] = uax.NewRunePublisher()
		live[i] = map[*uax.Recognizer]*liveRec{}
	}
	seen := map[*uax.Recognizer]bool{}
	reused, released, again := 0, 0, 0 // again: acquired after an earlier release (whether or not the pool hands out the same object)
	serial := 0
	var r rune
	var class int
	for t, add := range c.Steps {
		pi := t % c.Pubs
		r, class = rune('A'+t%50), t%9
		for _, sc := range add {
			sc := sc
			l := &liveRec{s: sc}
			var step uax.NfaStateFn
			step = func(rec *uax.Recognizer, gr rune, gc int) uax.NfaStateFn {
				if rec != l.rec && l.bad == "" {
					l.bad = "state function called for another recognizer"
				}
				if (gr != r || gc != class) && l.bad == "" {
					l.bad = fmt.Sprintf("state function got %U/%d instead of %U/%d", gr, gc, r, class)
				}
				if rec.UserData != l.data && l.bad == "" {
					l.bad = fmt.Sprintf("user data is %v, stored was %v", rec.UserData, l.data)
				}
				if rec.MatchLen != l.mlen && l.bad == "" {
					l.bad = fmt.Sprintf("match length is %d, was %d", rec.MatchLen, l.mlen)
				}
				k := l.n
				l.n++
				switch sc.Acts[k] {
				case 'm':
					rec.MatchLen++
					l.mlen++
					return step
				case 'i':
					return step
				case 'a':
					l.mlen++
					return uax.DoAccept(rec, sc.Pens[k]...)
				}
				if sc.Acts[k] == 'd' {
					return nil
				}
				l.mlen = 0
				if sc.Acts[k] == 'y' { // accepts, then thinks better of it
					uax.DoAccept(rec, sc.Pens[k]...)
				}
				return uax.DoAbort(rec)
			}
			var rec *uax.Recognizer
			if sc.New {
				rec = uax.NewRecognizer(sc.Exp, step)
				o.Add("new_recognizers", 1)
			} else {
				rec = uax.NewPooledRecognizer(sc.Exp, step)
				if released > 0 {
					again++
				}
			}
			for i, m := range live {
				if m[rec] != nil {
					return violf("shared", "step %d: a recognizer still in use by publisher %d was handed out again", t, i)
				}
			}
			if rec.Expect != sc.Exp || rec.MatchLen != 0 || rec.UserData != nil || rec.Done() || rec.MatchLength() != 0 {
				return violf("dirty", "step %d: new recognizer has Expect %d (should be %d), MatchLen %d, UserData %v, Done %v",
					t, rec.Expect, sc.Exp, rec.MatchLen, rec.UserData, rec.Done())
			}
			if seen[rec] {
				reused++
			}
			seen[rec] = true
			l.rec = rec
			if sc.Data {
				serial++
				l.data = serial
				rec.UserData = serial
			}
			if sc.Mod != 0 {
				rec.Expect = sc.Mod
			}
			live[pi][rec] = l
			if back := pubs[pi].SubscribeMe(rec); back != pubs[pi] {
				return violf("subscribe", "step %d: SubscribeMe returns %v instead of the publisher", t, back)
			}
		}
		longest, pen := pubs[pi].PublishRuneEvent(r, class)
		var wantPen []int
		want := 0
		for rec, l := range live[pi] {
			if l.bad != "" {
				return violf("state", "step %d: %s", t, l.bad)
			}
			if l.n == 0 {
				return violf("state", "step %d: recognizer was not stepped", t)
			}
			switch l.s.Acts[l.n-1] {
			case 'a':
				for i, p := range l.s.Pens[l.n-1] {
					for len(wantPen) <= i {
						wantPen = append(wantPen, 0)
					}
					wantPen[i] += p
				}
				delete(live[pi], rec)
				released++
				o.Add("accepted", 1)
			case 'd':
				delete(live[pi], rec)
				released++
				o.Add("ended_without_penalties", 1)
			case 'x', 'y':
				delete(live[pi], rec)
				released++
				o.Add("aborted", 1)
			default:
				if rec.MatchLength() != l.mlen {
					return violf("state", "step %d: match length %d, should be %d", t, rec.MatchLength(), l.mlen)
				}
				if l.mlen > want {
					want = l.mlen
				}
			}
		}
		if longest != want {
			return violf("longest", "step %d: longest active match %d, should be %d", t, longest, want)
		}
		if !sameInts(pen, wantPen) {
			return violf("penalties", "step %d: penalties %v, should be %v", t, pen, wantPen)
		}
		for rec, l := range live[pi] {
			want := fmt.Sprint(l.data)
			if fmt.Sprint(rec.UserData) != want {
				return violf("state", "step %d: user data of an active recognizer changed to %v", t, rec.UserData)
			}
		}
	}
	o.Add("recognizers_reused", reused)
	o.Add("recognizers_acquired_after_a_release", again)
	if again > 0 {
		o.Nontrivial(fmt.Sprint(c))
		o.Sample("%d runes, %d recognizers acquired after a release, %d of them reused ones", len(c.Steps), again, reused)
	}
	return nil
}

func genP02(i int, r *rand.Rand, tier string) interface{} {
	c := recCase{Pubs: 1 + r.Intn(3)}
	if r.Intn(20000) == 0 { // thousands of recognizers at the same time
		c.Steps = make([][]recScript, 10*c.Pubs)
		acts := []string{"mma", "ia", "mx", "mmid"}
		k := 1000 + r.Intn(4500)
		if r.Intn(2) == 0 { // all of them alive
			acts = []string{"mmmia", "mmima", "imix", "mmmmid"}
			k = 4000 + r.Intn(6000)
		}
		for ; k > 0; k-- {
			t := r.Intn(3 * c.Pubs)
			c.Steps[t] = append(c.Steps[t], recScript{Acts: acts[r.Intn(4)], Pens: make([][]int, 6), Data: k%2 == 0, Exp: k, New: k%16 == 0})
		}
		return c
	}
	steps := 4 + r.Intn(30)
	maxacts, tail := 0, 8
	for t := 0; t < steps; t++ {
		var add []recScript
		if t < steps-10 {
			for k := r.Intn(4); k > 0; k-- {
				s := recScript{Data: r.Intn(2) == 0, Exp: r.Intn(20), New: r.Intn(4) == 0}
				if r.Intn(3) == 0 {
					s.Mod = 100 + r.Intn(10)
				}
				acts := []byte{}
				na := r.Intn(5)
				if r.Intn(4000) == 0 { // a long match
					na = edgeLen(r)
					if r.Intn(12) == 0 {
						na = []int{32767, 65535}[r.Intn(2)] + r.Intn(4)
					}
				}
				if na > maxacts {
					maxacts = na
				}
				for j := na; j > 0; j-- {
					acts = append(acts, "mmi"[r.Intn(3)])
					s.Pens = append(s.Pens, nil)
				}
				acts = append(acts, "aaaaxxxxdy"[r.Intn(10)])
				var pen []int
				for m := r.Intn(4); m > 0; m-- {
					pen = append(pen, r.Intn(2000)-1000)
				}
				s.Pens = append(s.Pens, pen)
				s.Acts = string(acts)
				add = append(add, s)
			}
		}
		c.Steps = append(c.Steps, add)
	}
	// let all of them end: recognizers must not leak into the next case
	if tail += maxacts; maxacts > 4 {
		for t := 0; t < 3*c.Pubs; t++ { // reuse the ones with long matches
			c.Steps = append(c.Steps, make([]recScript, 0, 1))
			s := recScript{Acts: "mia", Pens: [][]int{nil, nil, {1}}, Exp: t}
			c.Steps[len(c.Steps)-1] = append(c.Steps[len(c.Steps)-1], s)
		}
	}
	for t := 0; t < tail*c.Pubs; t++ {
		c.Steps = append(c.Steps, nil)
	}
	return c
}

func tierN(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

func init() {
	register(&Prop{ID: "P01", Rule: "a history of a publisher with at least two subscribers active at a time; distinct histories are counted",
		N: tierN(500000, 4000000), Gen: genP01, Decode: decodeAs[pubCase](), Shrink: shrinkP01,
		Run:         func(c interface{}, o *Obs) *Viol { return runP01(c.(pubCase), o) },
		Assumptions: []string{"subscribers are not done when they subscribe, and become done by rune events only (the interface's precondition)"}})
	register(&Prop{ID: "P02", Rule: "a history in which pooled recognizers are acquired after others have been released; distinct histories are counted",
		N: tierN(800000, 3000000), Gen: genP02, Decode: decodeAs[recCase](),
		Run:         func(c interface{}, o *Obs) *Viol { return runP02(c.(recCase), o) },
		Assumptions: []string{"state functions count matched runes in MatchLen, as documented"}})
}
