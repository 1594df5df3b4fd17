package main

import (
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/npillmayer/schuko/tracing"
	"github.com/npillmayer/uax/bidi/trie"
	"github.com/npillmayer/uax/grapheme"
)

// --- X01: tracing only observes ----------------------------------------------------------------

// recTracer formats every message, as a real tracer does, and counts them
type recTracer struct {
	level int32
	msgs  int64
	bytes int64
	sets  int64
}

type traceSel struct{ t tracing.Trace }

func (s traceSel) Select(string) tracing.Trace { return s.t }

func (t *recTracer) put(l tracing.TraceLevel, f string, args []interface{}) {
	if tracing.TraceLevel(atomic.LoadInt32(&t.level)) < l {
		return
	}
	s := fmt.Sprintf(f, args...)
	atomic.AddInt64(&t.msgs, 1)
	atomic.AddInt64(&t.bytes, int64(len(s)))
}
func (t *recTracer) Errorf(f string, a ...interface{})       { t.put(tracing.LevelError, f, a) }
func (t *recTracer) Infof(f string, a ...interface{})        { t.put(tracing.LevelInfo, f, a) }
func (t *recTracer) Debugf(f string, a ...interface{})       { t.put(tracing.LevelDebug, f, a) }
func (t *recTracer) P(k string, v interface{}) tracing.Trace { _ = fmt.Sprint(k, v); return t }
func (t *recTracer) SetTraceLevel(l tracing.TraceLevel) {
	atomic.AddInt64(&t.sets, 1)
	atomic.StoreInt32(&t.level, int32(l))
}
func (t *recTracer) GetTraceLevel() tracing.TraceLevel {
	return tracing.TraceLevel(atomic.LoadInt32(&t.level))
}
func (t *recTracer) SetOutput(io.Writer) {}

type traceOp struct {
	Op   *concOp   `json:"op,omitempty"`
	Bidi *bidiCase `json:"bidi,omitempty"`
}

func (t traceOp) do(sh *concShared) (d string) {
	if pv := protect(func() {
		if t.Bidi != nil {
			d = digestBidi(*t.Bidi, func() {})
		} else {
			d = t.Op.do(sh)
		}
	}); pv != nil {
		return fmt.Sprintf("panic: %v", pv)
	}
	return d
}

func (t traceOp) String() string {
	if t.Bidi != nil {
		return fmt.Sprintf("bidi paragraph %+q", clip(string(t.Bidi.Text), 200))
	}
	return fmt.Sprintf("%s of %+q", t.Op.Kind, clip(string(t.Op.Text), 200))
}

type traceCase struct {
	Ops   []traceOp `json:"ops"`
	Level int       `json:"level"`
	Conc  bool      `json:"conc"`
	First bool      `json:"first"` // traced before untraced (tables are set up under tracing)
	Share Q         `json:"share"`
}

func runX01(c traceCase, o *Obs) *Viol {
	tr := &recTracer{level: int32(c.Level)}
	pass := func(traced bool) (out []string) {
		if traced {
			tracing.SetTraceSelector(traceSel{tr})
		} else {
			tracing.SetTraceSelector(traceSel{tracing.NoOpTrace()})
		}
		sh := &concShared{gs: grapheme.StringFromString(string(c.Share))}
		if t, err := trie.NewTinyHashTrie(139, 10); err == nil {
			for _, w := range [][]byte{{1, 2, 3}, {0, 2, 1}, {5, 5, 5, 5}, {1, 4}, {7, 0, 1}} {
				t.AllocPositionForWord(w)
			}
			t.Freeze()
			sh.tr = t
		}
		out = make([]string, len(c.Ops))
		if !traced || !c.Conc {
			for k, op := range c.Ops {
				out[k] = op.do(sh)
			}
			return out
		}
		var wg sync.WaitGroup
		for k := range c.Ops {
			k := k
			wg.Add(1)
			go func() { defer wg.Done(); out[k] = c.Ops[k].do(sh) }()
		}
		wg.Wait()
		return out
	}
	var want, got []string
	if c.First {
		got = pass(true)
		want = pass(false)
	} else {
		want = pass(false)
		got = pass(true)
	}
	tracing.SetTraceSelector(traceSel{tracing.NoOpTrace()})
	for k, op := range c.Ops {
		if strings.HasPrefix(want[k], "panic") && want[k] == got[k] {
			continue // for other properties
		}
		if want[k] != got[k] {
			return violf("trace", "with tracing at level %v, %v gives another result (%s, %s)", tracing.TraceLevel(c.Level), op, want[k], got[k])
		}
		o.Add("operations", 1)
	}
	if tr.GetTraceLevel() != tracing.TraceLevel(c.Level) {
		return violf("level", "trace level was %v, it is %v after %v", tracing.TraceLevel(c.Level), tr.GetTraceLevel(), c.Ops)
	}
	o.Add("messages", int(tr.msgs))
	o.Add("bytes_of_messages", int(tr.bytes))
	o.Add("level_changes_undone", int(tr.sets))
	if tr.msgs > 0 {
		o.Nontrivial(fmt.Sprint(c.Ops))
		o.Sample("%d operations, %d messages at level %v", len(c.Ops), tr.msgs, tracing.TraceLevel(c.Level))
	}
	return nil
}

func genX01(i int, r *rand.Rand, tier string) interface{} {
	c := traceCase{Level: 2 - r.Intn(9)/7, Conc: r.Intn(2) == 0, First: r.Intn(2) == 0, Share: q2(noBad(genAny(r, 1+r.Intn(30))))}
	for n := 1 + r.Intn(4); n > 0; n-- {
		if r.Intn(3) == 0 {
			bc := genB06(i, r, tier).(bidiConc).Cases[0][0]
			c.Ops = append(c.Ops, traceOp{Bidi: &bc})
			continue
		}
		op := concOp{Kind: concKinds[r.Intn(len(concKinds))], Text: q2(upTo(500, noBad(genAny(r, r.Intn(40))))), Ctx: r.Intn(widthCtxs), Stop: r.Intn(5)}
		if r.Intn(4) == 0 {
			op.Text = Q(denseText(r))
		}
		c.Ops = append(c.Ops, traceOp{Op: &op})
	}
	return c
}

func init() {
	register(&Prop{ID: "X01", Race: true, Rule: "a set of operations which emitted trace messages; distinct sets are counted",
		N: tierN(12000, 150000), Gen: genX01, Decode: decodeAs[traceCase](),
		Run:         func(c interface{}, o *Obs) *Viol { return runX01(c.(traceCase), o) },
		Fresh:       func(t string) int { return 60 },
		Assumptions: []string{"the tracer is set before the operations start, and is safe for concurrent use"}})
}
