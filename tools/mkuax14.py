#!/usr/bin/env python3
"""Writes harness/uax14/uax14classes.go.txt: the class table package uax14 lacks, from harness/ref/data/linebreak.txt.
It goes in through an overlay (run.sh) and has the declarations which the package's own generator would write."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = "AI AL B2 BA BB BK CB CJ CL CM CP CR EB EM EX GL H2 H3 HL HY ID IN IS JL JT JV LF NL NS NU OP PO PR QU RI SA SG SP SY WJ XX ZW ZWJ".split()
R = {n: [] for n in names}
for l in open(V + "/harness/ref/data/linebreak.txt"):
    if l.startswith("#"): continue
    a, b, c = l.split(); a, b = int(a, 16), int(b, 16)
    if a < 0x10000 <= b: R[c] += [(a, 0xffff), (0x10000, b)]
    else: R[c].append((a, b))
o = ['package uax14\n\nimport (\n\t"strconv"\n\t"unicode"\n)\n\ntype UAX14Class int\n\nvar rangeFromUAX14Class []*unicode.RangeTable\n\nconst (']
for i, n in enumerate(names): o.append("\t%sClass UAX14Class = %d" % (n, i))
o.append(")\n\nvar %s *unicode.RangeTable\n" % ", ".join(names))
o.append("var classNames = []string{%s}\n" % ", ".join('"%sClass"' % n for n in names))
o.append('''func (c UAX14Class) String() string {
	if c == sot {
		return "sot"
	} else if c == eot {
		return "eot"
	} else if c < 0 || int(c) >= len(classNames) {
		return "UAX14Class(" + strconv.FormatInt(int64(c), 10) + ")"
	}
	return classNames[c]
}

func setupUAX14Classes() {
	rangeFromUAX14Class = make([]*unicode.RangeTable, int(ZWJClass)+1)''')
for n in names:
    lo = [r for r in R[n] if r[1] < 0x10000]; hi = [r for r in R[n] if r[1] >= 0x10000]
    o.append("\t%s = &unicode.RangeTable{R16: []unicode.Range16{%s}," % (n, ", ".join("{0x%x, 0x%x, 1}" % r for r in lo)))
    o.append("\t\tR32: []unicode.Range32{%s}," % ", ".join("{0x%x, 0x%x, 1}" % r for r in hi))
    o.append("\t\tLatinOffset: %d}" % sum(r[1] <= 0xff for r in lo))
    o.append("\trangeFromUAX14Class[%sClass] = %s" % (n, n))
o.append("}\n")
open(V + "/harness/uax14/uax14classes.go.txt", "w").write("\n".join(o))
