package verifrt

import (
	"io"
	"unicode/utf8"
)

// The work done by the matching of regular expressions, which is in the standard
// library and has no steps: how many runes are read, in how many searches.

type finder interface {
	FindReaderIndex(io.RuneReader) []int
}

// MeterRe switches the measure on: each search is then made twice.
var MeterRe bool

type runes struct {
	s string
	n uint64
}

func (r *runes) ReadRune() (rune, int, error) {
	if r.s == "" {
		return 0, 0, io.EOF
	}
	c, w := utf8.DecodeRuneInString(r.s)
	r.s = r.s[w:]
	r.n++
	return c, w, nil
}

// ReText is given the text of a search.
func ReText(re finder, s string) string {
	if MeterRe && cur != nil {
		r := &runes{s: s}
		re.FindReaderIndex(r)
		cur.reReads += r.n
		cur.reEvals++
	}
	return s
}

// ReWork returns what the running task did.
func ReWork() (reads, evals uint64) {
	if cur == nil {
		return 0, 0
	}
	return cur.reReads, cur.reEvals
}
