package main

import (
	"fmt"
	"math/rand"
	"unicode/utf8"

	"github.com/npillmayer/uax"
)

// --- P03: the publisher's queue, used directly ---------------------------------------

type queueOp struct {
	Op   string `json:"op"`
	Done bool   `json:"done,omitempty"` // of a pushed subscriber
	N    int    `json:"n,omitempty"`    // number of repetitions, position, or life of a subscriber
}

type queueCase struct {
	Zero bool      `json:"zero"` // zero value instead of NewRunePublisher()
	Ops  []queueOp `json:"ops"`
}

type queueSub struct {
	id       int
	done     bool
	life     int // rune events until done
	released int
	events   int
}

func (s *queueSub) RuneEvent(r rune, c int) []int {
	s.events++
	s.life--
	if s.life <= 0 {
		s.done = true
	}
	return nil
}
func (s *queueSub) MatchLength() int { return 1 }
func (s *queueSub) Done() bool       { return s.done }
func (s *queueSub) Unsubscribed()    { s.released++ }

func runP03(c queueCase, o *Obs) *Viol {
	q := uax.NewRunePublisher()
	if c.Zero {
		q = &uax.DefaultRunePublisher{}
	}
	in := map[*queueSub]bool{} // the model: a set of subscribers
	done := func() int {
		n := 0
		for s := range in {
			if s.done {
				n++
			}
		}
		return n
	}
	next, mixed := 0, 0
	remove := func(t int, what string, x uax.RuneSubscriber) (*queueSub, *Viol) {
		s, ok := x.(*queueSub)
		if !ok || !in[s] {
			return nil, violf("ghost", "op %d: %s gave %v, which is not in the queue", t, what, x)
		}
		delete(in, s)
		o.Add("taken", 1)
		return s, nil
	}
	for t, op := range c.Ops {
		nd := done()
		if nd > 0 && nd < len(in) {
			mixed++
		}
		o.Add("op_"+op.Op, 1)
		switch op.Op {
		case "push", "subscribe":
			s := &queueSub{id: next, done: op.Done, life: op.N}
			next++
			in[s] = true
			if op.Op == "push" {
				q.Push(s)
			} else {
				q.SubscribeMe(s)
			}
		case "toggle": // the topmost subscriber changes its mind
			if x := q.Top(); x != nil {
				s := x.(*queueSub)
				s.done = !s.done
				q.Fix(q.Len() - 1)
			}
		case "fix": // nothing has changed
			q.Fix(op.N % (len(in) + 3))
		case "pop":
			top, x := q.Top(), q.Pop()
			if (x == nil) != (len(in) == 0) {
				return violf("pop", "op %d: Pop gave %v with %d subscribers", t, x, len(in))
			}
			if x == nil {
				break
			}
			if x != top {
				return violf("pop", "op %d: Pop gave %v while the top is %v", t, x, top)
			}
			s, v := remove(t, "Pop", x)
			if v != nil {
				return v
			}
			if nd > 0 && !s.done {
				return violf("order", "op %d: Pop gave an active subscriber while %d of %d are done", t, nd, len(in)+1)
			}
		case "popdone":
			x := q.PopDone()
			if (x == nil) != (nd == 0) {
				return violf("popdone", "op %d: PopDone gave %v while %d of %d subscribers are done", t, x, nd, len(in))
			}
			if x == nil {
				break
			}
			s, v := remove(t, "PopDone", x)
			if v != nil {
				return v
			}
			if !s.done {
				return violf("popdone", "op %d: PopDone gave an active subscriber", t)
			}
		case "publish": // requires that no subscriber is done
			for i := 0; i < nd; i++ {
				x := q.PopDone()
				if x == nil {
					return violf("popdone", "op %d: PopDone gave nothing after %d of %d done subscribers", t, i, nd)
				}
				if s, v := remove(t, "PopDone", x); v != nil {
					return v
				} else if !s.done {
					return violf("popdone", "op %d: PopDone gave an active subscriber", t)
				}
			}
			q.PublishRuneEvent('x', 1)
			for s := range in {
				want := 0
				if s.done {
					want = 1
				}
				if s.released != want || s.events == 0 {
					return violf("publish", "op %d: subscriber (done: %v) was told %d runes and released %d times", t, s.done, s.events, s.released)
				}
				s.events = 0
				if s.done {
					delete(in, s)
				}
			}
		}
		if q.Len() != len(in) {
			return violf("len", "op %d (%s): length %d, should be %d", t, op.Op, q.Len(), len(in))
		}
		top := q.Top()
		if (top == nil) != (len(in) == 0) {
			return violf("top", "op %d (%s): top is %v with %d subscribers", t, op.Op, top, len(in))
		}
		if top != nil {
			s, ok := top.(*queueSub)
			if !ok || !in[s] {
				return violf("ghost", "op %d (%s): top is %v, which is not in the queue", t, op.Op, top)
			}
			if nd = done(); nd > 0 && !s.done {
				return violf("order", "op %d (%s): top is active while %d of %d are done", t, op.Op, nd, len(in))
			}
		}
	}
	// empty the queue: the done ones have to come first, everyone once
	last := true
	for n := len(in); n > 0; n-- {
		x := q.Pop()
		if x == nil {
			return violf("lost", "queue is empty, but %d subscribers have not been given", n)
		}
		s, v := remove(len(c.Ops), "Pop", x)
		if v != nil {
			return v
		}
		if s.done && !last {
			return violf("order", "a done subscriber was popped after an active one")
		}
		last = s.done
	}
	if q.Len() != 0 || q.Pop() != nil || q.PopDone() != nil || q.Top() != nil {
		return violf("lost", "emptied queue still has something")
	}
	if mixed > 0 {
		o.Nontrivial(fmt.Sprint(c))
		o.Add("ops_on_mixed_queues", mixed)
		o.Sample("%d operations, %d of them on queues of active and done subscribers", len(c.Ops), mixed)
	}
	return nil
}

func genP03(i int, r *rand.Rand, tier string) interface{} {
	c := queueCase{Zero: r.Intn(2) == 0}
	n := 2 + r.Intn(12)
	if r.Intn(10) == 0 {
		n = 60 + r.Intn(200)
	}
	grow := 1 + r.Intn(4)
	pdone := r.Intn(5)
	for k := 0; k < n; k++ {
		op := queueOp{N: r.Intn(6)}
		switch x := r.Intn(6 + grow); {
		case x == 0:
			op.Op = "toggle"
		case x == 1:
			op.Op = "fix"
		case x == 2:
			op.Op = "pop"
		case x == 3:
			op.Op = "popdone"
		case x == 4 && r.Intn(3) == 0:
			op.Op = "publish"
		case x == 5:
			op.Op = "subscribe"
			op.Done = r.Intn(5) < pdone
		default:
			op.Op = "push"
			op.Done = r.Intn(5) < pdone
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func shrinkP03(x interface{}) []interface{} {
	c := x.(queueCase)
	var out []interface{}
	for n := len(c.Ops) / 2; n >= 1; n /= 2 {
		for at := 0; at+n <= len(c.Ops); at += n {
			d := c
			d.Ops = append(append([]queueOp{}, c.Ops[:at]...), c.Ops[at+n:]...)
			out = append(out, d)
		}
		if len(out) > 300 {
			break
		}
	}
	return out
}

// --- I01: skipping ill-formed bytes -----------------------------------------------------

type bytesCase struct {
	S Q `json:"s"`
}

// wellFormed tells the length of the well-formed character at the start of s (Unicode, table 3-7),
// or 0 if there is none.
func wellFormed(s string) int {
	at := func(i int, lo, hi byte) bool { return i < len(s) && s[i] >= lo && s[i] <= hi }
	if len(s) == 0 {
		return 0
	}
	b := s[0]
	switch {
	case b < 0x80:
		return 1
	case b >= 0xC2 && b <= 0xDF && at(1, 0x80, 0xBF):
		return 2
	case b == 0xE0 && at(1, 0xA0, 0xBF) && at(2, 0x80, 0xBF),
		(b >= 0xE1 && b <= 0xEC || b == 0xEE || b == 0xEF) && at(1, 0x80, 0xBF) && at(2, 0x80, 0xBF),
		b == 0xED && at(1, 0x80, 0x9F) && at(2, 0x80, 0xBF):
		return 3
	case b == 0xF0 && at(1, 0x90, 0xBF) && at(2, 0x80, 0xBF) && at(3, 0x80, 0xBF),
		b >= 0xF1 && b <= 0xF3 && at(1, 0x80, 0xBF) && at(2, 0x80, 0xBF) && at(3, 0x80, 0xBF),
		b == 0xF4 && at(1, 0x80, 0x8F) && at(2, 0x80, 0xBF) && at(3, 0x80, 0xBF):
		return 4
	}
	return 0
}

func runI01(c bytesCase, o *Obs) *Viol {
	s := string(c.S)
	want := -1
	for i := range []byte(s) {
		if wellFormed(s[i:]) > 0 {
			want = i
			break
		}
	}
	prefix := s
	if want >= 0 {
		prefix = s[:want]
	}
	got, cut := uax.PositionOfFirstLegalRune(s)
	if got != want {
		return violf("position", "first legal character at %d, should be %d", got, want)
	}
	if string(cut) != prefix {
		return violf("prefix", "prefix %q was cut off, should be %q", cut, prefix)
	}
	if want >= 0 {
		o.Add("texts_with_a_character", 1)
	} else {
		o.Add("texts_without", 1)
	}
	if len(prefix) > 0 {
		o.Add("skipped_bytes", len(prefix))
		o.Nontrivial(s)
		o.Sample("%q: skips %d bytes", s, len(prefix))
		// the prefix is not shared with later calls
		for i := range cut {
			cut[i] = 'x'
		}
		if n, again := uax.PositionOfFirstLegalRune(s); n != want || string(again) != prefix {
			return violf("history", "a second call gives %d and prefix %q", n, again)
		}
	}
	return nil
}

// genI01: all strings of up to two bytes first, then random ones made of parts of characters.
func genI01(i int, r *rand.Rand, tier string) interface{} {
	if i == 0 {
		return bytesCase{}
	} else if i--; i < 256 {
		return bytesCase{Q([]byte{byte(i)})}
	} else if i -= 256; i < 65536 {
		return bytesCase{Q([]byte{byte(i >> 8), byte(i)})}
	}
	var b []byte
	edge := []byte{0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF,
		0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFC, 0xFE, 0xFF}
	for k := r.Intn(4); k >= 0; k-- {
		switch r.Intn(5) {
		case 0, 1, 2: // anything ill-formed, mostly
			for m := r.Intn(5); m > 0; m-- {
				if r.Intn(3) == 0 {
					b = append(b, byte(r.Intn(256)))
				} else {
					b = append(b, edge[r.Intn(len(edge))])
				}
			}
		case 3: // part of a character
			var buf [4]byte
			n := utf8.EncodeRune(buf[:], anyRune(r))
			b = append(b, buf[:r.Intn(n)]...)
		case 4: // character
			if r.Intn(4) == 0 {
				b = append(b, "\uFFFD"...)
			} else {
				b = append(b, string(anyRune(r))...)
			}
		}
		if r.Intn(100) == 0 {
			for m := 300 + r.Intn(5000); m > 0; m-- {
				b = append(b, edge[2+r.Intn(6)])
			}
		}
	}
	return bytesCase{Q(b)}
}

func anyRune(r *rand.Rand) rune {
	switch r.Intn(4) {
	case 0:
		return rune(0x80 + r.Intn(0x780))
	case 1:
		return rune(0x800 + r.Intn(0xD800-0x800))
	case 2:
		return rune(0xE000 + r.Intn(0x2000))
	}
	return rune(0x10000 + r.Intn(0x100000))
}

func init() {
	register(&Prop{ID: "P03", Rule: "a history with operations on a queue of both active and done subscribers; distinct histories are counted",
		N: func(t string) int {
			if t == "thorough" {
				return 10000000
			}
			return 600000
		},
		Gen: genP03, Decode: decodeAs[queueCase](), Shrink: shrinkP03,
		Run:         func(c interface{}, o *Obs) *Viol { return runP03(c.(queueCase), o) },
		Assumptions: []string{"Fix is called right after a subscriber changed its mind, with its position, and positions are never negative"},
	})
	register(&Prop{ID: "I01", Rule: "a string starting with ill-formed bytes; distinct strings are counted",
		N: func(t string) int {
			if t == "thorough" {
				return 30000000
			}
			return 1000000
		},
		Gen: genI01, Decode: decodeAs[bytesCase](),
		Run: func(c interface{}, o *Obs) *Viol { return runI01(c.(bytesCase), o) },
		Shrink: func(x interface{}) []interface{} {
			s := string(x.(bytesCase).S)
			var out []interface{}
			for n := len(s) / 2; n >= 1; n /= 2 {
				for at := 0; at+n <= len(s) && len(out) < 300; at += n {
					out = append(out, bytesCase{Q(s[:at] + s[at+n:])})
				}
			}
			return out
		},
	})
}
