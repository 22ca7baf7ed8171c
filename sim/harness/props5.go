package main

import (
	"errors"
	"fmt"
	goscanner "go/scanner"
	"go/token"
	"sort"
	"strings"
	"time"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	rt "github.com/grepsuzette/joeson/verifrt"
)

// ---- C14: Go code ----

var goGood = []string{
	"x", "foo", "_", "é", "if", "for", "return", "break", "func", "0", "12", "0x1f", "3.14", "1e9", "2i", "'a'", "'\\n'", "'世'",
	"\"s\"", "\"\\\"é\"", "`raw\nraw`", "+", "-", "*", "/", "%", "&", "&&", "&^", "|", "||", "^", "<", "<-", "<<", "<=", "==", "=", ":=", "!=", "!",
	"(", ")", "[", "]", "{", "}", ",", ";", ".", "...", ":", "++", "--", "+=", "\n", "\n", "\n\n", "\t", " ", "// c\n", "/* c */", "/* a\nb */", "\r\n",
}

var goBad = []string{"#", "?", "$", "\"open\n", "'", "''", "'ab'", "0x", "08", "1e", "\"\\z\"", "\x00", "\xff", "\ufeff", "`open", "/* open", "1_", "0b2"}

func goSource(r *rng, bad int) string {
	var b strings.Builder
	n := pick(r, []int{0, 1, 3, 8, 20, 20, 60})
	for ; n > 0; n-- {
		if r.p(bad) {
			b.WriteString(pick(r, goBad))
		} else {
			b.WriteString(pick(r, goGood))
		}
		if r.p(60) {
			b.WriteString(pick(r, []string{" ", " ", " ", "\n", "\t"}))
		}
	}
	return b.String()
}

type goTok struct {
	off  int
	repr string
}

type goErr struct {
	pos, msg string
}

// goValid: Go code without mistakes
func goValid(r *rng) string {
	for i := 0; i < 20; i++ {
		s := goSource(r, 0)
		if _, errs := goScan(s); len(errs) == 0 && strings.ToValidUTF8(s, "") == s {
			return s
		}
	}
	return "x := f(1)\nreturn x\n"
}

func goScan(src string) (toks []goTok, errs []goErr) {
	var s goscanner.Scanner
	fs := token.NewFileSet()
	f := fs.AddFile("", -1, len(src))
	s.Init(f, []byte(src), func(p token.Position, msg string) { errs = append(errs, goErr{p.String(), msg}) }, 0)
	for {
		p, tok, lit := s.Scan()
		if tok == token.EOF {
			return
		}
		repr := lit
		if tok == token.SEMICOLON && lit == "\n" {
			repr = ";\n"
		} else if lit == "" {
			repr = tok.String()
		}
		toks = append(toks, goTok{f.Offset(p), repr})
	}
}

// goStreamCheck compares what the tokenization of src gave with go/scanner.
func goStreamCheck(src string, ts *j.TokenStream, err error) string {
	toks, errs := goScan(src)
	if err != nil {
		ls := strings.Split(err.Error(), "\n")
		if len(errs) == 0 {
			return "reports errors of a source without errors: " + clip(err.Error())
		}
		if len(ls) != len(errs) {
			return fmt.Sprintf("reports %d errors, the source has %d (%v): %s", len(ls), len(errs), errs, clip(err.Error()))
		}
		for i, e := range errs {
			if !strings.Contains(ls[i], e.pos) || !strings.Contains(ls[i], e.msg) {
				return fmt.Sprintf("error %d is %q, but in the source it is %s: %s", i, ls[i], e.pos, e.msg)
			}
		}
		return ""
	}
	if len(errs) > 0 {
		return fmt.Sprintf("does not report the errors of the source: %v", errs)
	}
	d := ts.PrintDebug()
	_, list, ok := strings.Cut(d, "Tokens:\n")
	if !ok {
		return "" // printed in another way
	}
	// the last one, since the source is printed before
	if i := strings.LastIndex(d, "\nTokens:\n"); i >= 0 {
		list = d[i+len("\nTokens:\n"):]
	}
	w := 0
	for i, t := range toks {
		head := j.BoldBlack(fmt.Sprintf("[o=%d, w=%d]", t.off, w))
		if !strings.HasPrefix(list, head) {
			return fmt.Sprintf("token %d (%q) should be at offset %d and work offset %d: %q", i, t.repr, t.off, w, clip(list))
		}
		list = list[len(head):]
		text := t.repr
		if !strings.HasPrefix(list, text) {
			text = " " + text
		}
		if !strings.HasPrefix(list, text) {
			return fmt.Sprintf("token %d should be %q: %q", i, t.repr, clip(list))
		}
		list = list[len(text):]
		w += len(text)
	}
	if list != "" {
		return fmt.Sprintf("there are more tokens than the %d of the source: %q", len(toks), clip(list))
	}
	if n := len(workText(ts)); n != w {
		return fmt.Sprintf("the work text has %d bytes, its tokens have %d", n, w)
	}
	return ""
}

// workText reads the text a grammar would parse.
func workText(ts *j.TokenStream) string {
	at := ts.Pos()
	ts.SetPos(0)
	s := ts.GetUntil("\x00\x01 not there \x01\x00")
	ts.SetPos(at)
	return s
}

// goGrammar: grammars for Go tokens, by parse functions that call back
func goGrammar(r *rng) *GSpec {
	re := func(s string) *Expr { return &Expr{Op: "re", S: s} }
	g := &GSpec{Name: "go"}
	g.Rules = append(g.Rules, orule("TOP", repx(refx("T"), -1, -1)))
	alts := []*Expr{refx("W"), refx("N"), refx("S")}
	if r.p(70) {
		alts = append(alts, refx("P"))
	}
	g.Rules = append(g.Rules, irule("T", altx(alts...)))
	g.Rules = append(g.Rules, irule("W", re(`[a-zA-Z_é]+`)), irule("N", re(`[0-9]+`)), irule("S", re(`[ \n\t;]+`)))
	if len(alts) > 3 {
		g.Rules = append(g.Rules, irule("P", &Expr{Op: "cls", S: "^a-z0-9"}))
	}
	for _, x := range g.Rules[1:] {
		if r.p(50) {
			x.CB, x.Mode = r.in(1, 3), pick(r, []string{"tag", "id"})
		}
	}
	return g
}

func init() {
	register(&prop{
		id: "C14", quick: 2500, thoro: 80000,
		rule: "seeded histories and schedules (1-4 tasks) of tokenizations of Go sources, valid or with one or more mistakes, and of parses of the streams, beside other parses; tokens, offsets and errors must be those of go/scanner for that source, the parse of a stream what the parse of its text gives, and each operation what it gives alone; non-trivial: some source had mistakes and another one none",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C14", "gocode")
			b.setup(b.add(goGrammar(r)), nil)
			var srcs []string
			bad := pick(r, []int{0, 3, 10, 30})
			tasksOf(b, pick(r, []int{1, 1, 2, 3, 4}), func(int) Op {
				if r.p(12) {
					o := b.parse(0)
					if r.p(50) {
						b.faultsFor(&o, []string{"stall", "reject"}, 2)
					}
					return o
				}
				p := bad
				if r.p(40) {
					p = 0
				}
				s := goSource(r, p)
				if len(srcs) > 0 && r.p(25) {
					s = pick(r, srcs)
				}
				srcs = append(srcs, s)
				o := Op{ID: b.nid(), Kind: "gocode", Text: s, N: r.n(2)}
				if strings.ContainsAny(s, "\xff") {
					o.Bytes = []byte(s)
				}
				return o
			}, func() int { return r.in(2, 8) })
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			good, bad := false, false
			for _, r := range w.res {
				if r == nil || r.Op.Kind != "gocode" || r.Aborted {
					continue
				}
				in.compared++
				if r.GoProblem != "" {
					return &Viol{"tokens", opLine(r.Op) + ": " + r.GoProblem}
				}
				if strings.HasPrefix(r.Canon, "error") {
					bad = true
					in.fired["broken-source"]++
				} else {
					good = true
				}
			}
			v := soloCompare(sc, w, in, cmp{model: true})
			in.nontrivial = good && bad
			return v
		},
	})

	register(&prop{
		id: "C20", quick: 2200, thoro: 60000,
		rule: "seeded histories and schedules (1-3 tasks) of parses, several of the same text, whose values are afterwards modified everywhere by their receivers while others are kept; kept values are dumped again at the end, no two parses may share a modifiable part, and each parse must give what it gives alone; non-trivial: a value with a modifiable part was modified or kept",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C20", "values")
			if b.big > 60 {
				b.big = 60
			}
			n := r.in(1, 2)
			for i := 0; i < n; i++ {
				g := b.someGrammar()
				if r.p(30) {
					g = mergeGrammar(r)
				}
				if r.p(40) { // raw values come out
					g.walk(func(x *Rule) {
						if x.Mode == "str" || r.p(40) {
							x.CB = 0
						}
					})
				}
				notes(r, g, 20)
				b.setup(b.add(g), nil)
			}
			var texts []string
			nt := pick(r, []int{1, 1, 2, 3})
			for t := 0; t < nt; t++ {
				var ops []Op
				for k := r.in(2, 6); k > 0; k-- {
					o := b.parse(r.n(n))
					if len(texts) > 0 && r.p(60) {
						o.Text = pick(r, texts)
					}
					texts = append(texts, o.Text)
					if r.p(30) {
						b.faultsFor(&o, []string{"reject", "reject", "stall", "rejmove", "panic"}, 3)
					}
					ops = append(ops, o)
					if r.p(50) {
						x := ops[r.n(len(ops))]
						if isParseKind(x.Kind) {
							ops = append(ops, Op{ID: b.nid(), Kind: "mutate", N: x.ID})
						}
					}
				}
				b.sc.Tasks = append(b.sc.Tasks, ops)
			}
			b.sc.Sched = genSched(r, nt)
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			mutated := map[int]bool{}
			taskOps(sc, func(o *Op) {
				if o.Kind == "mutate" {
					mutated[o.N] = true
					in.probe("values modified")
				}
			})
			owner := map[any]*OpRes{}
			parts := 0
			for _, r := range w.res {
				if r == nil || r.Ast == nil || r.Aborted {
					continue
				}
				got, ptrs := headNow(r)
				if !mutated[r.Op.ID] {
					in.probe("values kept")
					if got != r.Head {
						return &Viol{"changed-after", opLine(r.Op) + ": its value changed after it was returned: " + diffText(got, r.Head)}
					}
				} else if r.Now != "" && got != r.Now {
					return &Viol{"changed-after", opLine(r.Op) + ": its value changed after its receiver modified it: " + diffText(got, r.Now)}
				}
				for p := range ptrs {
					parts++
					if o := owner[p]; o != nil && o != r {
						return &Viol{"shared", fmt.Sprintf("%s and %s share a modifiable part of their values (%T)", opLine(o.Op), opLine(r.Op), p)}
					}
					owner[p] = r
				}
			}
			v := soloCompare(sc, w, in, cmp{model: true})
			in.nontrivial = parts > 0
			return v
		},
	})

	register(&prop{
		id: "C21", quick: 2500, thoro: 80000,
		rule: "seeded token streams (texts cut at random, comments or blanks dropped between tokens), each parsed many times by one or two grammars with rejections, moves, panics and exits at calls chosen by the reference interpreter, and rewound before each parse, in 1-3 tasks; each parse must give what it gives with a new stream, and what the reference interpreter says of the concatenated text; non-trivial: a stream was parsed after a parse that failed, moved or was aborted",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C21", "streams")
			if b.big > 60 {
				b.big = 60
			}
			n := r.in(1, 2)
			for i := 0; i < n; i++ {
				b.setup(b.add(b.someGrammar()), nil)
			}
			gos := r.p(35)
			if gos { // a grammar for the tokens of Go code
				b.setup(b.add(goGrammar(r)), nil)
				n++
			}
			others := pick(r, []int{0, 20, 40})
			nt := pick(r, []int{1, 1, 2, 3})
			for t := 0; t < nt; t++ {
				var own []int
				for k := r.in(1, 2); k > 0; k-- {
					own = append(own, len(b.sc.Streams))
					if gos && r.p(60) {
						b.sc.Streams = append(b.sc.Streams, StreamSpec{Orig: goValid(r), Go: true})
					} else {
						b.sc.Streams = append(b.sc.Streams, genStream(r, b.text(b.slot[r.n(n)])))
					}
				}
				var ops []Op
				for k := r.in(2, 7); k > 0; k-- {
					s := pick(r, own)
					if r.p(others) { // between the parses of the stream
						switch r.n(4) {
						case 0:
							ops = append(ops, b.parse(r.n(n)))
						case 1:
							o := b.parse(r.n(n))
							o.Kind, o.Cut = "tokens", r.u64()
							ops = append(ops, o)
						default:
							ops = append(ops, Op{ID: b.nid(), Kind: "gocode", Text: goSource(r, pick(r, []int{0, 0, 10})), Slot: n - 1, N: r.n(2)})
						}
						continue
					}
					o := Op{ID: b.nid(), Kind: "stream", Slot: r.n(n), Stream: s, Text: strings.Join(b.sc.Streams[s].Tokens, "")}
					o.Debug = r.p(8)
					if r.p(10) {
						b.wideMove(&o)
					} else if r.p(65) {
						b.faultsFor(&o, []string{"reject", "move", "rejmove", "panic", "panic", "goexit", "stall"}, r.in(1, 3))
					}
					ops = append(ops, o)
				}
				b.sc.Tasks = append(b.sc.Tasks, ops)
			}
			b.sc.Sched = genSched(r, nt)
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			last := map[int]*OpRes{}
			non := false
			taskOps(sc, func(o *Op) {
				r := w.res[o.ID]
				if r == nil || o.Kind != "stream" {
					return
				}
				if l := last[o.Stream]; l != nil && !strings.HasPrefix(l.Canon, "ok") {
					non = true
				}
				last[o.Stream] = r
			})
			v := soloCompare(sc, w, in, cmp{model: true, calls: true})
			in.nontrivial = non
			return v
		},
	})

	register(&prop{
		id: "C22", quick: 60000, thoro: 3000000,
		rule:  "seeded schedules of 2-5 tasks which read, set and query one lazily computed value of helpers.Lazy, made in four ways, with computations that take a while or panic; the history of invocations and returns must be linearizable against a sequential specification, and values completely computed; non-trivial: two operations overlapped",
		gen:   genLazy,
		check: func(sc *Scenario, in *info) *Viol { return checkLazy(sc, in) },
	})

	register(&prop{
		id: "C23", quick: 900, thoro: 25000,
		rule: "seeded grammars (nested ranks with inner rules, many rules, labels) compiled, listed, and used to parse under the sorted and 2-3 random iteration orders of every map, with traces, and some of it in a new process; listings, values, messages, calls and traces must be identical; non-trivial: a map of more than one entry was iterated",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C23", "deterministic")
			if b.big > 30 {
				b.big = 30
			}
			n := r.in(1, 2)
			for i := 0; i < n; i++ {
				g := b.someGrammar()
				if r.p(60) {
					nestRanks(r, g)
				}
				if r.p(30) {
					traceRules(r, g)
				}
				b.add(g)
			}
			var ops []Op
			for i := 0; i < n; i++ {
				o := Op{ID: b.nid(), Kind: "compile", Slot: b.newSlot(i), G: i, Lazy: ""}
				if r.p(5) {
					o.Lazy = pick(r, []string{"fresh", "c1", "c2"})
				}
				if r.p(50) {
					o.Trace = genTrace(r)
				}
				ops = append(ops, o)
				b.nsetup = len(b.slot)
				ops = append(ops, Op{ID: b.nid(), Kind: "rules", Slot: o.Slot})
				for k := r.in(1, 3); k > 0; k-- {
					p := b.parse(o.Slot)
					p.Debug = r.p(30)
					if r.p(50) {
						b.faultsFor(&p, []string{"reject", "reject", "panic", "move", "rejmove"}, 3)
					}
					ops = append(ops, p)
				}
			}
			b.sc.Tasks = [][]Op{ops}
			b.sc.Sched = Sched{Mode: "replay"}
			b.sc.Aux = r.u64()
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			m0 := rt.MapRanges
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			if v := endOfRun(sc, w, in); v != nil {
				return v
			}
			r := newRng(sc.Aux)
			for k := r.in(2, 3); k > 0; k-- {
				c := *sc
				c.MapSeed = r.u64() | 1
				w2 := runAll(&c, in)
				for i, a := range w.res {
					b := w2.res[i]
					if a == nil || b == nil || a.Aborted || b.Aborted {
						in.inconclusive++
						continue
					}
					in.compared++
					if a.Full != b.Full {
						return &Viol{"order", opLine(a.Op) + " gives something else under another iteration order of maps: " + diffText(b.Full, a.Full)}
					}
					if a.Out != b.Out {
						return &Viol{"order-output", opLine(a.Op) + " prints something else under another iteration order of maps: " + diffText(b.Out, a.Out)}
					}
				}
			}
			in.nontrivial = rt.MapRanges-m0 > 0
			if sc.Aux%100 == 0 { // in a new process
				t := sc.Tasks[0]
				k := len(t) - 1
				s := &Scenario{Prop: sc.Prop, Gs: sc.Gs, Faults: sc.Faults, Tasks: sc.Tasks, Sched: sc.Sched, MapSeed: r.u64()}
				full, out, err := freshRun(s)
				if err == nil {
					in.probe("compared with a new process")
					if got := w.res[t[k].ID]; got != nil && !got.Aborted && (got.Full != full || got.Out != out) {
						return &Viol{"process", opLine(got.Op) + " gives or prints something else in a new process: " + diffText(got.Full+got.Out, full+out)}
					}
				}
			}
			return nil
		},
	})
}

// nestRanks gives some rules of g inner rules of their own.
func nestRanks(r *rng, g *GSpec) {
	k := 0
	g.walk(func(x *Rule) {
		if x.Name == "" || x.Sub != nil || x.Body == nil || !r.p(40) || k > 6 || len(x.Name) > 3 {
			return
		}
		k++
		sub := &Rule{O: true, Body: x.Body}
		x.Body = nil
		x.Sub = []*Rule{sub}
		x.SkipCache = false
		n := r.in(0, 4)
		var refs []*Expr
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("%sI%d", x.Name, i)
			x.Sub = append(x.Sub, irule(nm, str1(pick(r, []string{"a", "b", "q", "zz"}))))
			refs = append(refs, refx(nm))
		}
		if n > 0 && r.p(50) {
			x.Sub = append(x.Sub, &Rule{O: true, Body: seqOf(refs)})
		}
	})
}

func seqOf(k []*Expr) *Expr {
	if len(k) == 1 {
		return k[0]
	}
	return seqx(k...)
}

// genStream cuts text into tokens, of an original text with blanks between them.
func genStream(r *rng, text string) StreamSpec {
	var s StreamSpec
	var b strings.Builder
	rs := []rune(text)
	for i := 0; i < len(rs); {
		n := r.in(1, 4)
		if i+n > len(rs) {
			n = len(rs) - i
		}
		t := string(rs[i : i+n])
		s.Tokens = append(s.Tokens, t)
		if r.p(40) {
			b.WriteString(pick(r, []string{" ", "\n", "  ", "\t\n"}))
		}
		b.WriteString(t)
		i += n
	}
	s.Orig = b.String()
	return s
}

// ---- C22: lazily computed values ----

type LazyOp struct {
	Kind string `json:"kind"` // get set isset sleep
	N    int    `json:"n,omitempty"`
}

// LazyScn: tasks that share a lazy value
type LazyScn struct {
	Form  string     `json:"form"` // func, setlazy, value, again
	Zero  bool       `json:"zero,omitempty"`
	Slow  []int      `json:"slow,omitempty"` // what the n-th computation does: >0 sleeps, <0 panics
	Tasks [][]LazyOp `json:"ltasks"`
}

func genLazy(r *rng) *Scenario {
	l := &LazyScn{Form: pick(r, []string{"func", "func", "setlazy", "value", "again"}), Zero: r.p(20)}
	for k := r.in(0, 6); k > 0; k-- {
		l.Slow = append(l.Slow, pick(r, []int{0, 0, 1, 3, -1, -2}))
	}
	nt := pick(r, []int{2, 2, 3, 3, 4, 5})
	sets := pick(r, []int{0, 15, 40})
	for t := 0; t < nt; t++ {
		var ops []LazyOp
		for k := r.in(1, 4); k > 0; k-- {
			o := LazyOp{Kind: "get"}
			switch x := r.n(100); {
			case x < sets:
				o.Kind = "set"
			case x < sets+15:
				o.Kind = "isset"
			case x < sets+22:
				o.Kind, o.N = "sleep", r.in(1, 4)
			}
			ops = append(ops, o)
		}
		l.Tasks = append(l.Tasks, ops)
	}
	sc := &Scenario{Prop: "C22", Kind: "lazy", Lazy: l}
	sc.Sched = genSched(r, nt)
	if r.p(80) {
		sc.Sched = Sched{Mode: "uniform", Seed: r.u64(), Mean: pick(r, []int{1, 2, 3, 5, 10, 20})}
	}
	return sc
}

type lazyBox struct{ a, b, c int }

type lazyEvent struct {
	kind     string
	val      int // got or set
	panicked bool
	inv, ret int
	task     int
	computed []computation // complete ones, made by this reader
}

type computation struct{ val, end int }

var errCompute = errors.New("the computation failed")

func checkLazy(sc *Scenario, in *info) *Viol {
	l := sc.Lazy
	clock := 0
	tick := func() int { clock++; return clock }
	calls := 0
	torn := ""
	reading := map[int]*lazyEvent{} // task -> its current operation
	f := func() *lazyBox {
		rt.Yield()
		n := calls
		calls++
		v := 1000 + n
		if l.Zero && n == 0 {
			v = 0
		}
		b := &lazyBox{a: v}
		rt.Yield()
		b.b = v
		if n < len(l.Slow) {
			switch x := l.Slow[n]; {
			case x > 0:
				in.fired["slow-computation"]++
				rt.Sleep(time.Duration(x) * time.Millisecond)
			case x < 0:
				in.fired["failed-computation"]++
				panic(errCompute)
			}
		}
		rt.Yield()
		b.c = v
		if e := reading[rt.TaskID()]; e != nil {
			e.computed = append(e.computed, computation{v, tick()})
		}
		return b
	}
	var lz *helpers.Lazy[*lazyBox]
	initial := -1
	switch l.Form {
	case "func":
		lz = helpers.LazyFromFunc(f)
	case "setlazy":
		lz = helpers.NewLazy[*lazyBox]()
		lz.SetLazy(f)
	case "value":
		lz = helpers.LazyFromValue(&lazyBox{7, 7, 7})
		initial = 7
	case "again":
		lz = helpers.LazyFromFunc(func() *lazyBox { return &lazyBox{5, 5, 5} })
		lz.Get()
		lz.Clear()
		lz.SetLazy(f)
	}
	var evs []*lazyEvent
	var fns []func()
	next := 0
	for t, ops := range l.Tasks {
		fns = append(fns, func() {
			for _, o := range ops {
				e := &lazyEvent{kind: o.Kind, task: t}
				if o.Kind == "sleep" {
					rt.Sleep(time.Duration(o.N) * time.Millisecond)
					continue
				}
				if o.Kind == "set" {
					next++
					e.val = 100 + next
				}
				rt.Yield()
				e.inv = tick()
				reading[rt.TaskID()] = e
				evs = append(evs, e)
				func() {
					defer func() {
						if x := recover(); x != nil {
							if x != any(errCompute) {
								panic(x)
							}
							e.panicked = true
						}
					}()
					switch o.Kind {
					case "get":
						b := lz.Get()
						if b == nil {
							torn = "a reader got nothing"
							return
						}
						e.val = b.a
						if b.b != b.a || b.c != b.a {
							torn = fmt.Sprintf("a reader got a value which is not completely computed: %+v", *b)
						}
					case "set":
						lz.Set(&lazyBox{e.val, e.val, e.val})
					case "isset":
						if lz.IsSet() {
							e.val = 1
						}
					}
				}()
				rt.Yield()
				e.ret = tick()
			}
		})
	}
	cfg := sc.Sched.config()
	cfg.Budget = 200_000
	res := rt.Run(cfg, nil, fns...)
	simSteps += res.Steps
	simClock += res.Clock
	simRuns++
	in.switches = res.Switches
	in.steps += res.Steps
	in.hash = mix(in.hash, res.Hash)
	for _, s := range res.Switches {
		if s.K == "p" {
			in.preempts++
		}
	}
	for _, e := range evs {
		in.hash = mix(mix(in.hash, uint64(e.val)), uint64(e.inv)<<20|uint64(e.ret))
		in.ops++
		for _, g := range evs {
			if g.inv < e.inv && (g.ret == 0 || g.ret > e.inv) {
				in.nontrivial = true
			}
		}
	}
	if res.Deadlock != "" {
		return &Viol{"deadlock", res.Deadlock + lazyHistory(l, evs)}
	}
	if len(res.Over) > 0 {
		return &Viol{"hang", "a task does not end" + lazyHistory(l, evs)}
	}
	if torn != "" {
		return &Viol{"incomplete", torn + lazyHistory(l, evs)}
	}
	in.compared++
	if !linearizable(evs, initial) {
		return &Viol{"not-linearizable", "no order of the operations explains their results" + lazyHistory(l, evs)}
	}
	return nil
}

func lazyHistory(l *LazyScn, evs []*lazyEvent) string {
	var b strings.Builder
	fmt.Fprintf(&b, "\nvalue made by %s, computations %v", l.Form, l.Slow)
	for _, e := range evs {
		fmt.Fprintf(&b, "\n  task %d: %s %d", e.task, e.kind, e.val)
		if e.panicked {
			b.WriteString(" (the computation failed)")
		}
		fmt.Fprintf(&b, " from %d to %d", e.inv, e.ret)
	}
	return b.String()
}

// linearizable: the state is unset or a value. A reader which completed a
// computation may publish its value while the state is unset, as a step of its
// own; it returns the state later, which somebody may have set meanwhile. A
// reader whose computation fails leaves the state unset.
func linearizable(evs []*lazyEvent, initial int) bool {
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].inv < evs[b].inv })
	if len(evs) > 30 {
		return true
	}
	type key struct {
		done  uint32
		state int
	}
	seen := map[key]bool{}
	var rec func(done uint32, state int) bool
	rec = func(done uint32, state int) bool {
		if done == 1<<len(evs)-1 {
			return true
		}
		k := key{done, state}
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := 1 << 30
		for i, e := range evs {
			if done&(1<<i) == 0 && e.ret < minRet {
				minRet = e.ret
			}
		}
		for i, e := range evs {
			if done&(1<<i) != 0 || e.inv > minRet {
				continue
			}
			d := done | 1<<i
			switch e.kind {
			case "set":
				if rec(d, e.val) {
					return true
				}
			case "isset":
				if (e.val == 1) == (state != -1) && rec(d, state) {
					return true
				}
			case "get":
				if e.panicked {
					if state == -1 && rec(d, state) {
						return true
					}
				} else if state != -1 && state == e.val && rec(d, state) {
					return true
				}
				if state == -1 {
					for _, c := range e.computed {
						if c.end < minRet && rec(done, c.val) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(0, initial)
}
