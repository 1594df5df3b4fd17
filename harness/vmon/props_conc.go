package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/bidi/trie"
	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax11"
	"github.com/npillmayer/uax/uax29"
)

// --- T01: concurrent use of independent objects ----------------------------------------------

type concOp struct {
	Kind string `json:"k"`
	Text Q      `json:"t"`
	Ctx  int    `json:"c,omitempty"`
	N    int    `json:"n,omitempty"` // repetitions
	Stop int    `json:"stop,omitempty"`
}

type concCase struct {
	Ops   [][]concOp `json:"ops"` // per goroutine
	Jit   int64      `json:"jit"`
	Share Q          `json:"share"` // text of a grapheme string shared by all goroutines
}

type concShared struct {
	gs   grapheme.String
	tr   *trie.TinyHashTrie
	want []string
}

var concKinds = []string{"string", "words", "graphemes", "default", "multi", "width", "shared", "setup", "classes", "trie", "publisher", "abandon", "bounded"}

// do performs an operation and returns a digest of everything observed
func (op concOp) do(sh *concShared) string {
	h := fnv.New64a()
	text := string(op.Text)
	segs := func(s *segment.Segmenter, stop int) {
		for s.Next() {
			p0, p1 := s.Penalties()
			fmt.Fprintf(h, "%q %d %d;", s.Text(), p0, p1)
			if stop--; stop == 0 {
				return
			}
		}
		fmt.Fprint(h, s.Err())
	}
	switch op.Kind {
	case "string":
		gs := grapheme.StringFromString(text)
		for i := 0; i < gs.Len(); i++ {
			fmt.Fprintf(h, "%q;", gs.Nth(i))
		}
	case "words":
		s := segment.NewSegmenter(uax29.NewWordBreaker(1))
		s.Init(strings.NewReader(text))
		segs(s, -1)
	case "graphemes":
		grapheme.SetupGraphemeClasses()
		s := segment.NewSegmenter(grapheme.NewBreaker(1))
		s.InitFromSlice([]rune(text))
		segs(s, -1)
	case "default":
		s := segment.NewSegmenter()
		s.Init(strings.NewReader(text))
		segs(s, -1)
	case "multi":
		grapheme.SetupGraphemeClasses() // (required by the documentation of package grapheme)
		s := segment.NewSegmenter(uax29.NewWordBreaker(2), segment.NewSimpleWordBreaker(), grapheme.NewBreaker(3))
		s.Init(strings.NewReader(text))
		segs(s, -1)
	case "abandon": // stop in the middle, start again
		grapheme.SetupGraphemeClasses()
		s := segment.NewSegmenter(uax29.NewWordBreaker(1), grapheme.NewBreaker(1))
		s.Init(strings.NewReader(text))
		segs(s, 1+op.Stop)
		s.Init(strings.NewReader(text))
		segs(s, -1)
	case "bounded":
		s := segment.NewSegmenter(uax29.NewWordBreaker(1))
		s.Init(strings.NewReader(text))
		for s.BoundedNext(1 + op.Stop) {
			fmt.Fprintf(h, "%q;", s.Text())
		}
		segs(s, -1)
	case "width":
		ctx, _ := widthCtx(op.Ctx)
		fmt.Fprint(h, uax11.StringWidth(grapheme.StringFromString(text), ctx), uax11.Width([]byte(text), ctx))
	case "shared":
		for i := 0; i < sh.gs.Len(); i++ {
			fmt.Fprintf(h, "%q;", sh.gs.Nth(i))
		}
		fmt.Fprint(h, sh.gs.String(), uax11.StringWidth(sh.gs, uax11.EastAsianContext), uax11.StringWidth(sh.gs, uax11.LatinContext))
	case "setup":
		grapheme.SetupGraphemeClasses()
		uax29.SetupUAX29Classes()
		emoji.SetupEmojisClasses()
	case "classes":
		setupClasses()
		for _, r := range text {
			fmt.Fprint(h, grapheme.ClassForRune(r), uax29.ClassForRune(r), emoji.EmojisClassForRune(r))
		}
	case "trie":
		it := sh.tr.Iterator()
		for i := 0; i < len(text) && i < 6; i++ {
			fmt.Fprint(h, it.Next(int8(text[i]%8)), ";")
		}
	case "publisher":
		pub := uax.NewRunePublisher()
		for i, r := range text {
			n := 1 + i%3
			var step uax.NfaStateFn
			step = func(rec *uax.Recognizer, r rune, c int) uax.NfaStateFn {
				rec.MatchLen++
				if n--; n < 0 {
					return uax.DoAccept(rec, int(r)%10, 1)
				}
				return step
			}
			pub.SubscribeMe(uax.NewPooledRecognizer(i, step))
			l, p := pub.PublishRuneEvent(r, i)
			fmt.Fprint(h, l, p)
		}
	}
	return fmt.Sprintf("%x", h.Sum64())
}

func runT01(c concCase, o *Obs) *Viol {
	sh := &concShared{}
	tr, err := trie.NewTinyHashTrie(139, 10)
	if err != nil {
		return violf("trie", "%v", err)
	}
	for _, w := range [][]byte{{1, 2, 3}, {0, 2, 1}, {5, 5, 5, 5}, {1, 4}, {7, 0, 1}} {
		tr.AllocPositionForWord(w)
	}
	tr.Freeze()
	sh.tr = tr
	var wg sync.WaitGroup
	var mu sync.Mutex
	needShared := false
	for _, ops := range c.Ops {
		for _, op := range ops {
			needShared = needShared || op.Kind == "shared"
		}
	}
	if needShared {
		sh.gs = grapheme.StringFromString(string(c.Share))
	}
	got := make([][]string, len(c.Ops))
	pan := make([]interface{}, len(c.Ops))
	start := make(chan struct{})
	var inflight, peak int32
	var order []int
	for g := range c.Ops {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(c.Jit + int64(g)))
			<-start
			n := atomic.AddInt32(&inflight, 1)
			for {
				p := atomic.LoadInt32(&peak)
				if n <= p || atomic.CompareAndSwapInt32(&peak, p, n) {
					break
				}
			}
			pan[g] = protect(func() {
				for _, op := range c.Ops[g] {
					for k := 0; k <= op.N; k++ {
						if r.Intn(3) == 0 {
							runtime.Gosched()
						}
						d := op.do(sh)
						if k == 0 {
							got[g] = append(got[g], d)
						} else if d != got[g][len(got[g])-1] {
							got[g][len(got[g])-1] = "differs when repeated"
						}
					}
				}
			})
			atomic.AddInt32(&inflight, -1)
			if c.Jit%4 == 0 { // (not always: locking orders the goroutines for the race detector)
				mu.Lock()
				order = append(order, g)
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	for g, p := range pan {
		if p != nil {
			return violf("panic", "goroutine %d panicked: %v", g, p)
		}
	}
	// the same operations, one after the other
	n := 0
	for g, ops := range c.Ops {
		for k, op := range ops {
			want := op.do(sh)
			if got[g][k] != want {
				return violf("interference", "goroutine %d of %d, operation %s on %+q: a different result when running concurrently (%s)", g, len(c.Ops), op.Kind, clip(string(op.Text), 200), got[g][k])
			}
			o.Add("op_"+op.Kind, 1)
			n++
		}
	}
	o.Add("operations", n)
	if int64(peak) > o.Events["max_goroutines_at_once"] {
		o.Events["max_goroutines_at_once"] = int64(peak)
	}
	o.Nontrivial(fmt.Sprint(order), fmt.Sprint(c))
	o.Sample("%d goroutines, %d operations, finished in order %v", len(c.Ops), n, order)
	return nil
}

var denseParts = []string{"1.2", "3,4", "5'6", "a.b", "x:y", "c’d", "א\"ב", "א'", "ד\"\u0308ה", "カ\u3099タ", "a_1", "_カ", "🇩🇪🇫🇷", "🇦\u200d🇧", "👨\u200d👩", "e\u0301\u0308", "\r\n", "\n",
	"각", "각", "\u0600a", "कि", " \u0301 ", "  ", "1\u03082", "Ａ", "1️⃣", "ℹ️", "\u00ad", "¡", "\u200b", "'"}

func denseText(r *rand.Rand) string {
	a, b := denseParts[r.Intn(len(denseParts))], denseParts[r.Intn(len(denseParts))]
	if r.Intn(3) == 0 {
		b = " "
	}
	s := ""
	for k := 2 + r.Intn(10); k > 0; k-- {
		if s += a; r.Intn(2) == 0 {
			s += b
		}
	}
	return s
}

func genT01(i int, r *rand.Rand, tier string) interface{} {
	c := concCase{Jit: r.Int63n(1 << 40), Share: q2(noBad(genAny(r, 1+r.Intn(60))))}
	g := 2 + r.Intn(7)
	same := r.Intn(3) == 0
	kind := concKinds[r.Intn(len(concKinds))]
	sub := concKinds
	if r.Intn(3) == 0 {
		a, b := concKinds[r.Intn(len(concKinds))], concKinds[r.Intn(len(concKinds))]
		sub = []string{a, b}
	}
	dense := r.Intn(4) == 0
	for ; g > 0; g-- {
		var ops []concOp
		for k := 1 + r.Intn(4); k > 0; k-- {
			op := concOp{Kind: sub[r.Intn(len(sub))], Text: q2(upTo(500, noBad(genAny(r, 1+r.Intn(40))))), Ctx: r.Intn(widthCtxs), N: r.Intn(3), Stop: r.Intn(5)}
			if dense { // all rules, again and again
				op.Text, op.N = Q(denseText(r)), 4+r.Intn(12)
			}
			if same {
				op.Kind = kind
			}
			ops = append(ops, op)
		}
		c.Ops = append(c.Ops, ops)
	}
	return c
}

func init() {
	register(&Prop{ID: "T01", Race: true, Rule: "a set of concurrent operations together with the observed order of completion; distinct ones are counted",
		N: tierN(2500, 60000), Gen: genT01, Decode: decodeAs[concCase](),
		Run:         func(c interface{}, o *Obs) *Viol { return runT01(c.(concCase), o) },
		Fresh:       func(t string) int { return 12 },
		Assumptions: []string{"every goroutine uses segmenters, breakers, publishers and unevaluated width contexts of its own; grapheme strings, frozen tries and the predefined contexts are shared"}})
}
