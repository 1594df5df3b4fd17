package main

import (
	"fmt"
	"math/rand"

	"github.com/npillmayer/uax/bidi/trie"
)

// --- K01: hash trie -------------------------------------------------------------------

type trieCase struct {
	Size  int      `json:"size"`
	Cats  int      `json:"cats"`
	Words [][]byte `json:"words"`
	Query [][]byte `json:"query,omitempty"`
	Again bool     `json:"again,omitempty"` // look up while building
}

func runK01(c trieCase, o *Obs) *Viol {
	if t, err := trie.NewTinyHashTrie(uint8(c.Size), int8(51+c.Size%70)); err == nil || t != nil {
		return violf("limit", "a trie with more than 50 categories was accepted")
	}
	t, err := trie.NewTinyHashTrie(uint8(c.Size), int8(c.Cats))
	if err != nil {
		return violf("new", "NewTinyHashTrie(%d,%d): %v", c.Size, c.Cats, err)
	}
	model := map[string]bool{}
	full := false
	for k, w := range c.Words {
		var p int
		w := w
		if pv := protect(func() { p = t.AllocPositionForWord(w) }); pv != nil {
			if fmt.Sprint(pv) != "abort find" {
				return violf("panic", "%d words in trie of size %d: %v", k, c.Size, pv)
			}
			full = true // the trie has no room
			o.Add("tries_full", 1)
			break
		}
		if p <= 0 || p >= c.Size {
			return violf("position", "word %v got position %d", w, p)
		}
		for i := 1; i <= len(w); i++ {
			model[string(w[:i])] = true
		}
		if q := t.AllocPositionForWord(w); q != p {
			return violf("unstable", "word %v got position %d, then %d", w, p, q)
		}
		if c.Again { // what is already there is found, and stays distinct
			pos := map[int]string{}
			for m := range model {
				p := t.AllocPositionForWord([]byte(m))
				if x, ok := pos[p]; ok {
					return violf("collision", "%v and %v have position %d", []byte(x), []byte(m), p)
				}
				pos[p] = m
			}
		}
	}
	if full {
		return nil // a build which has panicked is not used
	}
	t.Stats()
	t.Freeze()
	if c.Again {
		t.Stats() // statistics of a frozen trie change nothing
	}
	pos := map[int]string{}
	for m := range model {
		p := t.AllocPositionForWord([]byte(m))
		if p <= 0 {
			return violf("lost", "prefix %v is not found, %d words, size %d", []byte(m), len(c.Words), c.Size)
		}
		if x, ok := pos[p]; ok {
			return violf("collision", "%v and %v have position %d", []byte(x), []byte(m), p)
		}
		pos[p] = m
		o.Add("prefixes", 1)
	}
	for round := 0; round < 2; round++ {
		for _, q := range append(append([][]byte{}, c.Words...), c.Query...) {
			it := t.Iterator()
			gone := false
			for i := range q {
				p := it.Next(int8(q[i]))
				in := model[string(q[:i+1])] || i == 0
				if gone = gone || !in; gone {
					if p != 0 {
						return violf("phantom", "prefix %v of %v is at position %d, but was never entered", q[:i+1], q, p)
					}
					o.Add("misses", 1)
					continue
				}
				if p == 0 {
					return violf("lost", "prefix %v of %v is not found by iterating", q[:i+1], q)
				}
				if w := t.AllocPositionForWord(q[:i+1]); model[string(q[:i+1])] && w != p {
					return violf("iterator", "prefix %v is at %d when iterating, else at %d", q[:i+1], p, w)
				}
			}
			if gone { // the iterator is exhausted for good
				for k := 0; k < 3 && len(q) > 0; k++ {
					if p := it.Next(int8(q[k%len(q)])); p != 0 {
						return violf("phantom", "the iterator for %v moves on to position %d after a miss", q, p)
					}
				}
			}
			if !model[string(q)] && len(q) > 1 && t.AllocPositionForWord(q) != 0 {
				return violf("phantom", "%v is found, but was never entered", q)
			}
		}
	}
	o.Add("tries", 1)
	if len(model) > 4 {
		o.Nontrivial(c.Size, c.Cats, fmt.Sprint(c.Words))
		o.Sample("size %d, %d categories, %d words with %d prefixes", c.Size, c.Cats, len(c.Words), len(model))
	}
	return nil
}

func genK01(i int, r *rand.Rand, tier string) interface{} {
	primes := []int{17, 23, 31, 43, 61, 67, 89, 97, 113, 127, 139, 151, 167, 191, 199, 223, 239, 241, 251}
	c := trieCase{Size: primes[r.Intn(len(primes))], Again: r.Intn(3) == 0}
	lim := min(50, c.Size/4)
	c.Cats = 2 + r.Intn(lim-1)
	if r.Intn(10) == 0 {
		c.Size, c.Cats = 251, 23+r.Intn(27)
	}
	alpha := 1 + r.Intn(c.Cats)
	base := r.Intn(c.Cats - alpha + 1)
	word := func() []byte {
		w := make([]byte, 1+r.Intn(5))
		for k := range w {
			w[k] = byte(base + r.Intn(alpha))
		}
		return w
	}
	n := 1 + r.Intn(1+c.Size/(2+r.Intn(12)))
	long := r.Intn(12) == 0 && c.Size > 100
	if long {
		n = 1 + r.Intn(4)
	}
	for ; n > 0; n-- {
		w := word()
		if len(c.Words) > 0 && r.Intn(2) == 0 { // extend another one
			x := c.Words[r.Intn(len(c.Words))]
			w = append(append([]byte{}, x[:1+r.Intn(len(x))]...), w...)
		}
		if long && r.Intn(3) == 0 {
			for k := r.Intn(40); k > 0; k-- {
				w = append(w, word()...)
			}
			w = w[:min(len(w), 60)]
		} else if len(w) > 8 {
			w = w[:8]
		}
		c.Words = append(c.Words, w)
	}
	for k := r.Intn(12); k > 0; k-- {
		q := word()
		if r.Intn(2) == 0 {
			x := c.Words[r.Intn(len(c.Words))]
			q = append(append([]byte{}, x[:1+r.Intn(len(x))]...), byte(r.Intn(c.Cats)))
		}
		c.Query = append(c.Query, q)
	}
	return c
}

func init() {
	register(&Prop{ID: "K01", Rule: "a trie with more than four prefixes; distinct tries are counted",
		N: tierN(1000000, 5000000), Gen: genK01, Decode: decodeAs[trieCase](),
		Run: func(c interface{}, o *Obs) *Viol { return runK01(c.(trieCase), o) },
		Shrink: func(x interface{}) []interface{} {
			c := x.(trieCase)
			var out []interface{}
			for i := range c.Words {
				d := c
				d.Words = append(append([][]byte{}, c.Words[:i]...), c.Words[i+1:]...)
				out = append(out, d)
			}
			for i := range c.Query {
				d := c
				d.Query = append(append([][]byte{}, c.Query[:i]...), c.Query[i+1:]...)
				out = append(out, d)
			}
			return out
		},
		Assumptions: []string{"categories are below the announced count", "a trie without room for a word may panic, it is not used any further"}})
}
