package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	rt "github.com/grepsuzette/joeson/verifrt"
	"github.com/grepsuzette/joeson/verifrt/lisprepl"
)

// ---- C19: the Lisp REPL ----

// ReplScn is a session: its lines, and how they arrive.
type ReplScn struct {
	Lines []string `json:"lines"` // each followed by a newline
	Reads []int    `json:"reads"` // bytes per read; 0: an empty read; <0: a pause before; then the rest at once
	Tail  string   `json:"tail,omitempty"`
	Err   bool     `json:"err,omitempty"` // the input ends with an error
	Pick  []int    `json:"pick,omitempty"`
}

type replReader struct {
	text  string
	reads []int
	err   bool
	zeros int
	w     *World
	in    *info
}

var errInput = errors.New("read /dev/stdin: input/output error")

func (r *replReader) Read(p []byte) (int, error) {
	n := len(r.text)
	if len(r.reads) > 0 {
		n = r.reads[0]
		r.reads = r.reads[1:]
	}
	if n < 0 {
		r.in.fired["pause"]++
		rt.Sleep(time.Duration(-n) * time.Millisecond)
		n = 1
	}
	if n == 0 && r.zeros < 20 && r.text != "" {
		r.in.fired["empty-read"]++
		r.zeros++
		return 0, nil
	}
	r.zeros = 0
	if r.text == "" {
		if r.err {
			return 0, errInput
		}
		return 0, io.EOF
	}
	if n > len(r.text) {
		n = len(r.text)
	}
	if n > len(p) {
		n = len(p)
	}
	if n < len(r.text) && !strings.HasSuffix(r.text[:n], "\n") {
		r.in.fired["short-read"]++
	}
	n = copy(p, r.text[:n])
	r.text = r.text[n:]
	return n, nil
}

// session runs the REPL. What it panicked with is nil when it ended well.
func session(sc *Scenario, in *info, text string, reads []int, fail bool) (out string, sent any) {
	w := newWorld(sc)
	rt.In = &replReader{text: text, reads: reads, err: fail, w: w, in: in}
	defer func() { rt.In = nil }()
	w.budget = 60_000_000
	w.runSpecial(func(t *taskState) {
		r := &OpRes{Op: &Op{}, Ran: true}
		t.cur = r
		func() {
			defer func() {
				if x := recover(); x != nil {
					if a, ok := x.(rt.Abort); ok {
						panic(a)
					}
					sent = x
				}
			}()
			lisprepl.Main()
		}()
		out = t.buf.String()
		t.cur = nil
	})
	if len(w.sim.Over) > 0 {
		sent = "no end"
	}
	in.hash = mix(mix(in.hash, w.sim.Hash), hashStr(out))
	in.steps += w.sim.Steps
	return out, sent
}

// linesReads: one line per read
func linesReads(lines []string) (text string, reads []int) {
	for _, l := range lines {
		text += l + "\n"
		for n := len(l) + 1; n > 0; n -= 4096 {
			reads = append(reads, min(n, 4096))
		}
	}
	return
}

// answered: which lines a REPL that reads through a new buffer for each line
// answers: what was read after the first line is lost.
func answered(lines []string, reads []int) []string {
	text, _ := linesReads(lines)
	var out []string
	line, buffered := "", 0
	i := 0
	for text != "" {
		n := len(text)
		if i < len(reads) {
			n = reads[i]
			i++
			if n < 0 {
				n = 1
			}
		}
		n = min(n, len(text), 4096-buffered)
		chunk := text[:n]
		text = text[n:]
		l, _, ok := strings.Cut(chunk, "\n")
		line += l
		if buffered += n; buffered == 4096 {
			buffered = 0
		}
		if ok {
			out = append(out, line)
			line, buffered = "", 0
		}
	}
	return out
}

const replTail = "Bye!\n"

func genLisp(r *rng, depth int, fns []string) string {
	if depth <= 0 || r.p(25) {
		return pick(r, []string{"0", "1", "2", "7", "-3", "42", "10"})
	}
	a := func() string { return genLisp(r, depth-1, fns) }
	sp := pick(r, []string{" ", " ", "  "})
	switch r.n(9) {
	case 0, 1, 2:
		s := "(" + pick(r, []string{"+", "-", "*", "add", "sub", "mul"})
		for k := r.in(2, 3); k > 0; k-- {
			s += sp + a()
		}
		return s + ")"
	case 3:
		return "(if (" + pick(r, []string{"<", ">", "==", "<=", "!="}) + " " + a() + " " + a() + ")" + sp + a() + " " + a() + ")"
	case 4:
		if len(fns) > 0 {
			f := pick(r, fns)
			if f == "fact" {
				return fmt.Sprintf("(fact %d)", r.n(5))
			}
			return "(" + f + sp + a() + ")"
		}
	case 5:
		return "(% " + pick(r, []string{"17", "9", "100"}) + " " + pick(r, []string{"3", "5", "7"}) + ")"
	case 6:
		return "(and " + a() + " " + a() + ")"
	case 7:
		return "(car (" + a() + " " + a() + "))"
	}
	return "(- " + a() + " " + a() + ")"
}

func genRepl(r *rng) *Scenario {
	s := &ReplScn{}
	var fns []string
	n := r.in(1, 9)
	bad := 8
	if r.p(10) { // a long session, with many mistakes
		n = r.in(15, 40)
		bad = 70
	}
	for i := 0; i < n; i++ {
		l := ""
		k := 1 + r.n(11)
		if r.p(bad) {
			k = 0
		}
		switch k {
		case 0:
			l = pick(r, []string{"(", ")", "(+ 1", "(+ 1 2))", "'", "(+ 1 \"x)", "((((", "(+ 1 2) (+ 3 4)", "世界", "(é)", "(\xff 1)", "[1 2]"})
		case 1:
			l = pick(r, []string{"", " ", "\"str\"", "\"é世界\"", "12", "(1 2 3)", "(1 (2 3) 4)", "(\"a b\" 2)", "()"})
		case 2, 3:
			f := pick(r, []string{"f", "g", "h"})
			var lower []string
			for _, x := range fns {
				if x < f && x != "fact" {
					lower = append(lower, x)
				}
			}
			body := genLisp(r, 2, lower)
			body = strings.Replace(body, "1", "x", 1)
			if !strings.HasPrefix(body, "(") {
				body = "(+ x " + body + ")"
			}
			l = "(define (" + f + " x) " + body + ")"
			fns = append(fns, f)
		case 4:
			l = "(define (fact n) (if (< n 1) 1 (* n (fact (- n 1)))))"
			fns = append(fns, "fact")
		case 5:
			l = "(cdr (" + genLisp(r, 1, nil) + " 2 3))"
		case 6:
			l = "+ 1 " + genLisp(r, 2, fns)
		case 7:
			if r.p(20) { // longer than a buffer
				l = "(+ 1 " + strings.Repeat(" ", pick(r, []int{4080, 4096, 4100, 9000})) + "2)"
			} else {
				l = genLisp(r, 4, fns)
			}
		default:
			l = genLisp(r, 3, fns)
		}
		if r.p(10) {
			l = " " + l + " "
		}
		if rs := []rune(l); len(rs) > 4 && r.p(10) { // entered again after a slip
			a := string(rs[:r.in(3, len(rs)-1)])
			switch r.n(4) {
			case 0:
				a = l + pick(r, []string{")", " x", "(", " 1"})
			case 1:
				a = l
			}
			s.Lines = append(s.Lines, a)
		}
		s.Lines = append(s.Lines, l)
	}
	text, one := linesReads(s.Lines)
	switch r.n(5) {
	case 0: // one block
	case 1: // byte by byte
		for i := 0; i < len(text) && i < 600; i++ {
			s.Reads = append(s.Reads, 1)
		}
	case 2: // several reads for a line, never several lines
		for _, k := range one {
			for k > 0 {
				m := r.in(1, k)
				if r.p(60) {
					m = k
				}
				s.Reads = append(s.Reads, m)
				k -= m
			}
		}
	default:
		for k := r.in(1, 20); k > 0; k-- {
			s.Reads = append(s.Reads, pick(r, []int{1, 1, 2, 5, 10, 20, 40, 4096, 5000}))
		}
	}
	for k := r.in(0, 5); k > 0 && len(s.Reads) > 0; k-- {
		at := r.n(len(s.Reads))
		x := 0
		if r.p(50) { // a pause, and one byte
			x = -r.in(1, 2000)
			if s.Reads[at] <= 1 {
				s.Reads[at] = x
				continue
			}
			s.Reads[at]--
		}
		s.Reads = append(s.Reads[:at:at], append([]int{x}, s.Reads[at:]...)...)
	}
	s.Err = r.p(15)
	if r.p(15) {
		s.Tail = pick(r, []string{"(+ 1 2)", "(", " "})
	}
	for k := 0; k < 2; k++ {
		s.Pick = append(s.Pick, r.n(len(s.Lines)))
	}
	return &Scenario{Prop: "C19", Kind: "repl", Repl: s, Sched: Sched{Mode: "replay"}}
}

func isDefinition(l string) bool {
	return strings.Contains(l, "define") || strings.Contains(l, "alias")
}

func checkRepl(sc *Scenario, in *info) *Viol {
	s := sc.Repl
	lines := append([]string{}, s.Lines...)
	// the reference: one line per read
	play := func(ls []string) (string, any) {
		text, reads := linesReads(ls)
		return session(sc, newInfo(), text, reads, false)
	}
	var ref string
	for {
		out, sent := play(lines)
		if sent == nil {
			ref = out
			break
		}
		// a line whose evaluation fails ends the REPL: not the matter here
		k := 0
		for k < len(lines) {
			if _, x := play(lines[:k+1]); x != nil {
				break
			}
			k++
		}
		if k == len(lines) || len(lines) == 1 {
			in.invalid = k == len(lines)
			return nil
		}
		in.probe("lines which fail, left out")
		lines = append(lines[:k:k], lines[k+1:]...)
	}
	in.ops += len(lines)
	if !strings.HasSuffix(ref, replTail) {
		in.inconclusive++
		return nil
	}
	// the same input, cut in another way
	text, _ := linesReads(lines)
	got, sent := session(sc, in, text+s.Tail, s.Reads, s.Err)
	ended := sent == nil
	if s.Err {
		ended = sent == any(errInput)
		got += replTail
	}
	in.compared++
	in.nontrivial = len(lines) > 1 && len(s.Reads) > 0
	if got != ref || !ended {
		kept := answered(lines, s.Reads)
		lossy, sent2 := ref, any(nil)
		lost := strings.Join(kept, "\n") != strings.Join(lines, "\n")
		if lost {
			lossy, sent2 = play(kept)
		}
		switch {
		case lost && sent2 != nil && sent != nil && describe(sent) == describe(sent2) && strings.TrimSuffix(got, replTail) == lossy:
			in.probe("known finding: lines lost because one read returned them with the line before, and what remained panics")
		case !ended && s.Err:
			return &Viol{"end", fmt.Sprintf("the input ends with an error and the REPL ends with %v instead", sent)}
		case !ended:
			return &Viol{"panic", fmt.Sprintf("the REPL panics with %v when its input is cut in another way", describe(sent))}
		case got != lossy:
			return &Viol{"cut", fmt.Sprintf("the answers depend on how the input arrives (reads of %v bytes): %s", s.Reads, diffText(got, ref))}
		default:
			in.probe("known finding: lines lost because one read returned them with the line before")
		}
	}
	// each line alone, after the same definitions
	for _, k := range s.Pick {
		if k >= len(lines) {
			continue
		}
		var defs []string
		for _, l := range lines[:k] {
			if isDefinition(l) {
				defs = append(defs, l)
			}
		}
		before, e1 := play(defs)
		after, e2 := play(append(defs, lines[k]))
		all0, e3 := play(lines[:k])
		all1, e4 := play(lines[:k+1])
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
			in.inconclusive++
			continue
		}
		in.compared++
		a := after[len(before)-len(replTail):]
		b := all1[len(all0)-len(replTail):]
		if a != b || !strings.HasPrefix(ref, all1[:len(all1)-len(replTail)]) {
			return &Viol{"alone", fmt.Sprintf("the answer to %q is another one when it comes alone after the same definitions: %s", lines[k], diffText(b, a))}
		}
	}
	return nil
}

func init() {
	register(&prop{
		id: "C19", quick: 140, thoro: 20000,
		rule:  "seeded sessions of the Lisp REPL (expressions, definitions, lines which do not parse, empty and very long lines), whose input arrives cut at random into reads, byte by byte or in a block, with pauses and empty reads, and ends with or without an error; compared with the session given one line per read, and lines with the same line alone after the same definitions; non-trivial: several lines and an input cut",
		gen:   genRepl,
		check: checkRepl,
	})
}
