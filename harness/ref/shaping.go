package ref

import (
	_ "embed"
	"strconv"
	"strings"
)

//go:embed data/shaping.txt
var shapingData string

// Shaping maps table names to ascending code point ranges.
func Shaping() map[string][][2]rune {
	out := map[string][][2]rune{}
	for _, l := range strings.Split(shapingData, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		f := strings.Fields(l)
		lo, _ := strconv.ParseInt(f[1], 16, 32)
		hi, _ := strconv.ParseInt(f[2], 16, 32)
		out[f[0]] = append(out[f[0]], [2]rune{rune(lo), rune(hi)})
	}
	return out
}
