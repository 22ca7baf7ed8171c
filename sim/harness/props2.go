package main

import (
	"fmt"
	j "github.com/grepsuzette/joeson"
	"regexp/syntax"
	"sort"
	"strings"

	rt "github.com/grepsuzette/joeson/verifrt"
)

// pegGrammar: a grammar without left recursion
func (b *builder) pegGrammar() *GSpec { return genGrammar(b.r, swarmCfg(b.r)) }

func cbsRich(r *rng) genCfg {
	c := swarmCfg(r)
	c.CB = pick(r, []int{50, 80, 95})
	return c
}

// parseProp: parses with faults, in one task or several, against the model.
func parseOps(b *builder, n int, kinds []string, pFault, max int, each func(o *Op)) func(int) Op {
	return func(int) Op {
		o := b.parse(b.r.n(n))
		if each != nil {
			each(&o)
		}
		if b.r.p(pFault) {
			b.faultsFor(&o, kinds, b.r.in(1, max))
		}
		return o
	}
}

func someTasks(r *rng) int { return pick(r, []int{1, 1, 1, 2, 3}) }

// abortChecks: what was injected came out, unchanged and at once.
func abortChecks(w *World) *Viol {
	for _, r := range w.res {
		if r == nil || r.Aborted || !isParseKind(r.Op.Kind) {
			continue
		}
		for _, x := range append([]*OpRes{r}, r.Nested...) {
			if x.Sent == nil {
				continue
			}
			want := "goexit"
			if s, ok := x.Sent.(string); !ok || s != "goexit" {
				want = "panic " + sentKind(x.Sent)
			}
			if x.Canon != want {
				return &Viol{"abort", opLine(x.Op) + fmt.Sprintf(": the parse function ended with %q but the caller of the parse got %q", want, clip(x.Canon))}
			}
			if len(x.Log) != x.SentAt {
				return &Viol{"after-abort", opLine(x.Op) + fmt.Sprintf(": %d more calls of parse functions after one ended with %q", len(x.Log)-x.SentAt, want)}
			}
		}
	}
	return nil
}

func sentKind(x any) string {
	switch v := x.(type) {
	case string:
		if v == "runtime" {
			return "runtime"
		}
		return "string"
	case *customPanic:
		return "pointer"
	case textPanic:
		return "stringer"
	case int:
		return "number"
	case error:
		if strings.Contains(fmt.Sprintf("%T", x), "ParseError") {
			return "parseerror"
		}
		return "error"
	case j.ParseError:
		return "parseerror"
	}
	return "ast"
}

func isParseKind(k string) bool { return k == "parse" || k == "tokens" || k == "stream" }

// movesAway: a parse function of op moves back, maybe to before the start of its
// rule
func movesAway(sc *Scenario, op *Op) bool {
	for _, f := range sc.Faults {
		if f.Op == op.ID && f.N < 0 && f.K == "move" {
			return modelOf(sc, models(sc), op, newFaultSet(sc.Faults)) == nil
		}
	}
	return false
}

// unexpectedPanic: an operation panicked and nothing of the scenario asked for it.
func unexpectedPanic(w *World) *Viol {
	for _, r := range w.res {
		if r != nil && isParseKind(r.Op.Kind) && strings.HasPrefix(r.Canon, "panic other") && !movesAway(w.sc, r.Op) {
			return &Viol{"panic", opLine(r.Op) + " panics: " + clip(r.Canon)}
		}
	}
	return nil
}

func init() {
	register(&prop{
		id: "C04", quick: 2600, thoro: 60000,
		rule: "seeded schedules of 1-4 tasks and histories of parses where parse functions panic (eight kinds of values, runtime errors included) or exit the goroutine at calls chosen by the reference interpreter, traced or not; the caller must recover the identical value, nothing may be called after, and every other parse must give what it gives alone; non-trivial: a parse was aborted",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C04", "abort")
			n := r.in(1, 2)
			for i := 0; i < n; i++ {
				g := b.someGrammar()
				if r.p(50) {
					g = genGrammar(r, cbsRich(r))
				}
				b.setup(b.add(g), nil)
			}
			var texts []string
			nt := pick(r, []int{1, 1, 2, 2, 3, 4})
			times := r.p(4) // a long history
			tasksOf(b, nt, func(int) Op {
				switch k := r.n(100); {
				case k < 8:
					return Op{ID: b.nid(), Kind: "rules", Slot: r.n(n)}
				case k < 11:
					return b.compileOp(r.n(n))
				}
				o := b.parse(r.n(n))
				if times && r.p(40) {
					often(r, &o)
				} else if len(texts) > 0 && r.p(40) {
					o.Text = pick(r, texts)
				}
				texts = append(texts, o.Text)
				o.Debug = r.p(8)
				if r.p(65) {
					if r.p(40) {
						b.faultsFor(&o, []string{"reject", "reject", "stall", "nested", "rejmove"}, 2)
					}
					b.faultsFor(&o, []string{"panic", "panic", "goexit"}, r.in(1, 2))
				}
				return o
			}, func() int { return r.in(2, 6) })
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			if v := abortChecks(w); v != nil {
				return v
			}
			if v := unexpectedPanic(w); v != nil {
				return v
			}
			v := soloCompare(sc, w, in, cmp{out: true, model: true})
			in.nontrivial = w.fired["panic"]+w.fired["goexit"] > 0
			return v
		},
	})

	register(&prop{
		id: "C05", quick: 6000, thoro: 150000,
		rule: "seeded grammars (alternatives, optionals, repetitions with bounds and joins, lookaheads, ranks) and texts; up to 8 rejections per parse at calls chosen by the reference interpreter, which predicts value, failure and the calls made; 1-3 tasks, plain and tokenized texts; non-trivial: a parse function rejected",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C05", "reject")
			n := r.in(1, 2)
			for i := 0; i < n; i++ {
				c := cbsRich(r)
				if r.p(70) {
					c.Labels = 0
				}
				g := genGrammar(r, c)
				if r.p(6) {
					g = overlapGrammar(r)
				}
				b.setup(b.add(g), nil)
			}
			tasksOf(b, someTasks(r), func(t int) Op {
				if i := r.n(n); b.sc.Gs[b.slot[i]].Name == "overlap" {
					return overlapParse(b, i)
				}
				return parseOps(b, n, []string{"reject"}, 90, 8, nil)(t)
			}, func() int { return r.in(1, 3) })
			return b.sc
		},
		check: modelCheck("reject"),
	})

	register(&prop{
		id: "C06", quick: 6000, thoro: 150000,
		rule: "seeded grammars where alternatives share labelled prefixes and merge maps (@ and &), texts, and rejections that force other alternatives; every value given to a parse function is recorded, compared with the reference interpreter, and looked at again at the end of the parse; non-trivial: a map was merged or an alternative was rejected after a shared prefix (a parse function rejected)",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C06", "share")
			n := r.in(1, 2)
			for i := 0; i < n; i++ {
				c := cbsRich(r)
				c.Labels, c.Share = pick(r, []int{40, 60, 80}), pick(r, []int{60, 90})
				c.Depth = r.in(2, 3)
				if c.Rules > 20 {
					c.Rules = r.in(3, 9)
				}
				g := genGrammar(r, c)
				if r.p(15) {
					g = genLR(r)
				}
				if r.p(40) {
					g = mergeGrammar(r)
				}
				notes(r, g, 20)
				b.setup(b.add(g), nil)
			}
			tasksOf(b, someTasks(r), parseOps(b, n, []string{"reject", "reject", "reject", "rejmove"}, 75, 6, nil), func() int { return r.in(1, 3) })
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			keepInputs = true
			defer func() { keepInputs = false }()
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			for _, r := range w.res {
				if r == nil || r.Aborted {
					continue
				}
				for i, it := range r.Inputs {
					in.probe("values looked at again")
					if h := hashAst(it); h != r.Log[i].In {
						return &Viol{"changed", opLine(r.Op) + fmt.Sprintf(": the value given to the parse function of %s (call %d) was changed afterwards; it is now %s", r.Log[i].Rule, i, clip(dumpAst(it, false)))}
					}
				}
				for _, n := range r.Notes {
					in.probe("errors looked at again")
					if is := n.now(); is != n.was {
						return &Viol{"changed", opLine(r.Op) + ": an error made by a parse function was changed afterwards: " + diffText(n.was, is)}
					}
				}
			}
			return soloCompare(sc, w, in, cmp{noRef: true, model: true, calls: true})
		},
	})

	register(&prop{
		id: "C07", quick: 4000, thoro: 100000,
		rule: "seeded grammars without left recursion, shared prefixes, families that take exponential time without memory, texts and rejections; a zero-width probe is added to each rule and counted per position: at most once; the steps of a parse, and what its regular expressions read (each search is made again through a counting reader), are bounded by a constant times what the reference interpreter evaluates, texts of thousands of characters included; calls and values are those of the reference interpreter; non-trivial: a rule was needed twice at a position (known from the reference interpreter's memory hits)",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C07", "once")
			n := 1
			long := r.n(1000) < 8
			for i := 0; i < n; i++ {
				var g *GSpec
				if long {
					g = classesGrammar(r)
				} else if r.p(35) {
					g = chainGrammar(r)
				} else {
					c := cbsRich(r)
					c.Labels, c.Skip, c.Share = 0, pick(r, []int{0, 0, 15}), pick(r, []int{60, 90})
					g = genGrammar(r, c)
				}
				addMarkers(g)
				b.setup(b.add(g), nil)
			}
			tasksOf(b, pick(r, []int{1, 1, 1, 2}), parseOps(b, n, []string{"reject", "reject", "reject", "rejmove", "move"}, 60, 5, func(o *Op) {
				if long {
					o.Text = classesText(r)
				}
			}), func() int {
				if long {
					return 1
				}
				return r.in(1, 2)
			})
			noBackwards(b.sc)
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			rt.MeterRe = true
			w := runAll(sc, in)
			rt.MeterRe = false
			if w == nil {
				return nil
			}
			skip := map[string]bool{}
			for gi, g := range sc.Gs {
				g.walk(func(r *Rule) {
					if r.SkipCache {
						skip[fmt.Sprintf("%d %s", gi, r.Name)] = true
					}
				})
			}
			for _, r := range w.res {
				if r == nil || r.Aborted || len(r.Marks) == 0 {
					continue
				}
				g := slotGrammar(sc, r.Op)
				keys := make([]string, 0, len(r.Marks))
				for k := range r.Marks {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					in.probes["rule and position pairs"]++
					name, _, _ := strings.Cut(strings.TrimPrefix(k, "_m"), "@")
					if n := r.Marks[k]; n > 1 && !skip[fmt.Sprintf("%d %s", g, name)] {
						return &Viol{"again", opLine(r.Op) + fmt.Sprintf(": rule %s is evaluated %d times at one position (%s)", name, n, k)}
					}
				}
			}
			if v := workDone(sc, w, in); v != nil {
				return v
			}
			return soloCompare(sc, w, in, cmp{noRef: true, model: true, calls: true})
		},
	})

	register(&prop{
		id: "C08", quick: 3000, thoro: 80000,
		rule: "seeded grammars (left recursive ones in a third of the runs) compiled twice, with different sets of non left recursive rules not memoized, and the same text and rejections for both, in one task or two; equal values required, and those of the reference interpreter; non-trivial: the sets differ and a parse function was called",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C08", "skipcache")
			var g *GSpec
			if r.p(35) {
				g = genLR(r)
				if b.big > 10 {
					b.big = 3
				}
			} else {
				c := cbsRich(r)
				c.Skip = 0
				g = genGrammar(r, c)
				if b.big > 60 {
					b.big = 60
				}
			}
			b.setup(b.add(g), nil)
			for v := r.in(1, 3); v > 0; v-- {
				g2 := g.clone()
				ok := map[string]bool{}
				p := pick(r, []int{20, 50, 100})
				for _, n := range skippable(g) {
					if r.p(p) {
						ok[n] = true
					}
				}
				g2.walk(func(x *Rule) { x.SkipCache = ok[x.Name] })
				b.setup(b.add(g2), nil)
			}
			two := r.p(30)
			b.sc.Tasks = [][]Op{nil}
			if two {
				b.sc.Tasks = append(b.sc.Tasks, nil)
			}
			for k := r.in(1, 3); k > 0; k-- {
				o := b.parse(0)
				if most := len(b.fill[0]) + 24; len(g.LR) > 0 && len(o.Text) > most {
					o.Text = o.Text[:most]
				}
				if r.p(60) {
					b.faultsFor(&o, []string{"reject", "reject", "rejmove", "move"}, r.in(1, 4))
				}
				fs := append([]Fault{}, b.sc.Faults...)
				b.sc.Tasks[0] = append(b.sc.Tasks[0], o)
				for v := 1; v < len(b.slot); v++ {
					o2 := o
					o2.ID, o2.Slot = b.nid(), v
					t := 0
					if two {
						t = v % 2
					}
					b.sc.Tasks[t] = append(b.sc.Tasks[t], o2)
					for _, f := range fs {
						if f.Op == o.ID {
							f.Op, f.G = o2.ID, b.slot[v]
							b.sc.Faults = append(b.sc.Faults, f)
						}
					}
				}
			}
			noBackwards(b.sc)
			b.sc.Sched = genSched(r, len(b.sc.Tasks))
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			// the operations on the same text, whatever their memoization
			for t := range sc.Tasks {
				for k := range sc.Tasks[t] {
					o := &sc.Tasks[t][k]
					if o.Slot == 0 {
						continue
					}
					a := w.res[o.ID-o.Slot]
					b := w.res[o.ID]
					if a == nil || b == nil || a.Op.Slot != 0 || a.Op.Text != o.Text || a.Aborted || b.Aborted {
						in.inconclusive++
						continue
					}
					in.compared++
					if a.Canon != b.Canon {
						return &Viol{"memo", opLine(o) + ": with another set of memoized rules the same parse gives something else: " + diffText(b.Canon, a.Canon)}
					}
				}
			}
			return soloCompare(sc, w, in, cmp{noRef: true, model: true, calls: true})
		},
	})

	register(&prop{
		id: "C09", quick: 5000, thoro: 150000,
		rule: "seeded unrestricted grammars (repetitions of what matches nothing, hidden and interlocked left recursion), deep nesting (up to thousands of levels), long texts, bytes that are not UTF-8, exponential families, with rejections, moves and slow parse functions, in 1-3 tasks; each parse must end within 8 million steps unless the reference interpreter needs many evaluations too, without a panic of the library; non-trivial: a parse function was called",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C09", "ends")
			n := 1
			deep := false
			long := r.n(1000) < 6
			var g *GSpec
			switch k := r.n(100); {
			case long:
				g = listGrammar(r)
			case k < 45:
				g = wildGrammar(r)
				if b.big > 20 {
					b.big = 20
				}
			case k < 55:
				g = chainGrammar(r)
			case k < 63:
				g = nestGrammar(r)
				deep = true
			case k < 80:
				g = genLR(r)
				if b.big > 30 {
					b.big = 30
				}
			default:
				g = b.pegGrammar()
			}
			b.setup(b.add(g), nil)
			tasksOf(b, someTasks(r), parseOps(b, n, []string{"reject", "reject", "rejmove", "move", "stall"}, 50, 5, func(o *Op) {
				if deep {
					o.Text = nestText(r)
				}
				if long {
					o.Text = listText(r)
				}
				if r.p(15) {
					o.Bytes = []byte(o.Text)
					for k := r.in(1, 4); k > 0; k-- {
						at := r.n(len(o.Bytes) + 1)
						x := pick(r, []string{"\xff", "\x80", "\xe4\xb8", "\x00", "\xef\xbf\xbd", "\xf0\x9f", "\r", "\n"})
						o.Bytes = append(o.Bytes[:at:at], append([]byte(x), o.Bytes[at:]...)...)
					}
					if r.p(20) {
						o.Debug = true
					}
				}
			}), func() int { return r.in(1, 2) })
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			if v := endOfRun(sc, w, in); v != nil {
				return v
			}
			if v := unexpectedPanic(w); v != nil {
				return v
			}
			mg := models(sc)
			fs := newFaultSet(sc.Faults)
			for _, r := range w.res {
				if r == nil || !isParseKind(r.Op.Kind) {
					continue
				}
				if len(r.Log) > 0 {
					in.nontrivial = true
				}
				in.compared++
				if strings.HasPrefix(r.Canon, "exit") {
					return &Viol{"exit", opLine(r.Op) + " ends the process: " + r.Canon}
				}
				if !r.Aborted {
					continue
				}
				m := modelOf(sc, mg, r.Op, fs)
				if m != nil && tooLong(sc, m, r.Op, w.budget) {
					return &Viol{"hang", opLine(r.Op) + fmt.Sprintf(" does not end within %d steps; the reference interpreter evaluates %d nodes", w.budget, m.ev)}
				}
				in.inconclusive++
			}
			return nil
		},
	})
}

// modelCheck: the parses give what the reference interpreter says.
func modelCheck(kinds ...string) func(sc *Scenario, in *info) *Viol {
	return func(sc *Scenario, in *info) *Viol {
		w := runAll(sc, in)
		if w == nil {
			return nil
		}
		if v := unexpectedPanic(w); v != nil {
			return v
		}
		v := soloCompare(sc, w, in, cmp{noRef: true, model: true, calls: true})
		if len(kinds) > 0 {
			in.nontrivial = false
			for _, k := range kinds {
				in.nontrivial = in.nontrivial || w.fired[k] > 0
			}
		}
		return v
	}
}

// ---- special grammars ----

// addMarkers gives each rule a zero-width first member which counts its
// evaluations.
func addMarkers(g *GSpec) {
	var marks []*Rule
	n := 0
	g.walk(func(r *Rule) {
		if r.Sub != nil || r.Name == "" {
			return
		}
		mk := "_m" + r.Name
		n++
		marks = append(marks, &Rule{Name: mk, Body: str1(""), Marker: true, SkipCache: true})
		if r.Body.Op == "seq" && r.Body.Label == "" {
			r.Body.K = append([]*Expr{refx(mk)}, r.Body.K...)
		} else {
			r.Body = seqx(refx(mk), r.Body)
		}
	})
	g.Rules = append(g.Rules, marks...)
}

// chainGrammar: each level tries the next one several times with different
// ends: exponential without memory.
func chainGrammar(r *rng) *GSpec {
	g := &GSpec{Name: "chain"}
	depth := pick(r, []int{3, 6, 12, 25, 60})
	ends := []string{"a", "b", "c", "d"}
	g.Rules = append(g.Rules, orule("", refx("C0")))
	form := r.n(3)
	for i := 0; i < depth; i++ {
		next := fmt.Sprintf("C%d", i+1)
		var alts []*Expr
		for k := r.in(2, 3); k > 0; k-- {
			switch form {
			case 0:
				alts = append(alts, seqx(refx(next), str1(pick(r, ends))))
			case 1:
				alts = append(alts, seqx(str1("("), refx(next), str1(pick(r, []string{")", "]", "}"}))))
			default:
				alts = append(alts, seqx(notx(seqx(refx(next), str1(pick(r, ends)))), refx(next), str1(pick(r, ends))))
			}
		}
		alts = append(alts, refx(next))
		rl := irule(fmt.Sprintf("C%d", i), altx(alts...))
		if r.p(40) {
			rl.CB, rl.Mode = r.in(1, 3), pick(r, []string{"tag", "id"})
		}
		g.Rules = append(g.Rules, rl)
	}
	rl := irule(fmt.Sprintf("C%d", depth), pick(r, []*Expr{str1("x"), {Op: "cls", S: "xy"}, {Op: "rep", Min: -1, Max: -1, Plus: true, K: []*Expr{str1("x")}}}))
	if r.p(50) {
		rl.CB, rl.Mode = r.in(1, 3), "tag"
	}
	g.Rules = append(g.Rules, rl)
	return g
}

// nestGrammar: parentheses, in several ways
func nestGrammar(r *rng) *GSpec {
	g := &GSpec{Name: "nest"}
	inner := seqx(str1("("), refx("N"), str1(")"))
	switch r.n(4) {
	case 0:
		g.Rules = []*Rule{orule("", refx("N")), irule("N", altx(inner, str1("x")))}
	case 1:
		g.Rules = []*Rule{orule("", refx("N")), irule("N", altx(inner, seqx(refx("N"), str1("+"), refx("A")), refx("A"))), irule("A", altx(str1("x"), inner))}
		g.LR = []string{"N"}
	case 2:
		g.Rules = []*Rule{orule("", refx("N")), irule("N", seqx(str1("("), repx(refx("N"), -1, -1), str1(")")))}
	default:
		g.Rules = []*Rule{orule("", refx("N")), irule("N", altx(refx("P"), refx("B"), str1("x"))), irule("P", seqx(str1("("), optx(refx("N")), str1(")"))),
			irule("B", seqx(str1("("), optx(refx("N")), str1("]")))}
	}
	for _, x := range g.Rules {
		if r.p(40) {
			x.CB, x.Mode = r.in(1, 3), pick(r, []string{"id", "str"})
		}
	}
	return g
}

func nestText(r *rng) string {
	n := pick(r, []int{3, 30, 300, 1030, 1500, 3000, 3000})
	if r.p(12) {
		n = pick(r, []int{8500, 9000, 17000})
	}
	if r.p(30) {
		n = r.in(1000, 1100)
	}
	m := n
	if r.p(25) {
		m = r.in(0, n)
	}
	mid := pick(r, []string{"x", "", "x+x"})
	return strings.Repeat("(", n) + mid + strings.Repeat(")", m)
}

// wildGrammar: whatever can be written, labels aside
func wildGrammar(r *rng) *GSpec {
	c := swarmCfg(r)
	c.Labels = 0
	if c.Rules > 20 {
		c.Rules = 20
	}
	g := &gen{r: r, c: c, mapl: map[string]bool{}}
	wildRepair = true
	defer func() { wildRepair = false }()
	gs := genGrammar(r, c)
	_ = g
	// things that match nothing
	var reps []*Expr
	gs.walk(func(x *Rule) {
		x.Body.walk(func(e *Expr) {
			if e.Op == "rep" {
				reps = append(reps, e)
			}
		})
	})
	for _, e := range reps {
		if r.p(35) {
			e.K[r.n(len(e.K))] = pick(r, []*Expr{str1(""), optx(str1("a")), notx(str1("z")), repx(str1("b"), -1, -1)})
		}
	}
	in := analyse(gs)
	gs.walk(func(x *Rule) {
		if x.Name != "" && in.leftRec(x.Name) {
			gs.LR = append(gs.LR, x.Name)
		}
	})
	gs.walk(func(x *Rule) {
		if len(gs.LR) > 0 {
			x.SkipCache = false
		}
	})
	return gs
}

// mergeGrammar: alternatives that share a rule whose value is a map and merge
// it, with different other labels.
// overlapGrammar: a repetition of alternatives several of which match the same
// texts; overlapParse parses a long text with it, a part of the values of one
// or two of the alternatives is rejected.
func overlapGrammar(r *rng) *GSpec {
	g := &GSpec{Name: "overlap"}
	names := []string{"A", "B", "C", "D"}[:r.in(2, 4)]
	x := altx()
	for i, n := range names {
		var e *Expr
		switch r.n(6) {
		case 0:
			e = seqx(&Expr{Op: "cls", S: "a-f"}, optx(str1("z")))
		case 1:
			e = seqx(lab("x", &Expr{Op: "cls", S: "a-f"}), lab("y", optx(str1("z"))))
		case 2:
			e = seqx(str1(pick(r, []string{"a", "b"})), &Expr{Op: "cls", S: "a-fz"})
		case 3:
			e = altx(&Expr{Op: "cls", S: "ace"}, &Expr{Op: "cls", S: "bdfz"})
		default:
			e = &Expr{Op: "cls", S: pick(r, []string{"a-fz", "a-d", "c-fz"})}
		}
		if i == len(names)-1 && r.p(80) {
			e = &Expr{Op: "cls", S: "a-fz"}
		}
		g.Rules = append(g.Rules, withCB(irule(n, e), r.in(1, 3), "tag"))
		x.K = append(x.K, refx(n))
	}
	top := orule("S", repx(refx("X"), -1, -1))
	if r.p(30) { // no rule between the repetition and the alternatives
		top = orule("S", repx(x, -1, -1))
		g.Rules = append([]*Rule{top}, g.Rules...)
		return g
	}
	g.Rules = append([]*Rule{top, irule("X", x)}, g.Rules...)
	return g
}

func overlapParse(b *builder, slot int) Op {
	r := b.r
	var s strings.Builder
	for k := pick(r, []int{20, 60, 150, 300}) + r.n(20); k > 0; k-- {
		s.WriteByte("abcdefz"[r.n(7)])
	}
	o := Op{ID: b.nid(), Kind: "parse", Slot: slot, Text: s.String()}
	if r.p(12) {
		o.Kind, o.Cut = "tokens", r.u64()
	}
	for k := r.in(1, 2); k > 0; k-- {
		f := Fault{Op: o.ID, G: b.slot[slot], K: "reject", N: r.n(1000), Any: pick(r, []int{10, 40, 70, 90, 98})}
		f.Rule = pick(r, []string{"A", "A", "B", "C"})
		b.sc.Faults = append(b.sc.Faults, f)
	}
	return o
}

func mergeGrammar(r *rng) *GSpec {
	g := &GSpec{Name: "merge"}
	g.Rules = append(g.Rules, orule("", repx(refx("A"), -1, -1)))
	nm := r.in(1, 3)
	maps := []string{}
	for i := 0; i < nm; i++ {
		n := fmt.Sprintf("M%d", i)
		maps = append(maps, n)
		s := seqx(lab("a", &Expr{Op: "cls", S: "ab"}), lab(pick(r, []string{"b", "c"}), &Expr{Op: "cls", S: "xy"}))
		if i > 0 && r.p(50) {
			s = seqx(&Expr{Op: "ref", S: maps[i-1], Label: "@"}, lab(pick(r, []string{"d", "a"}), optx(str1("z"))))
			if r.p(50) {
				s.K[1] = lab("d", str1("z"))
			}
		}
		rl := irule(n, s)
		if r.p(60) {
			rl.CB, rl.Mode = r.in(1, 3), pick(r, []string{"id", "id", "id", "map", "empty"})
		}
		g.Rules = append(g.Rules, rl)
	}
	first := ""
	if r.p(40) { // maps which are empty
		n := fmt.Sprintf("M%d", nm)
		e := seqx(notx(str1("?")), lab("p", optx(str1("q"))))
		if r.p(20) {
			e = seqx(lab("o", optx(str1("q"))), lab("p", &Expr{Op: "cls", S: "ab"}))
		} else {
			first = n
		}
		g.Rules = append(g.Rules, withCB(irule(n, e), 1, "empty"))
		maps = append(maps, n)
	}
	alts := []*Expr{}
	ends := []string{";", ",", "!", "."}
	for k := r.in(2, 4); k > 0; k-- {
		var ms []*Expr
		m := &Expr{Op: "ref", S: pick(r, maps), Label: pick(r, []string{"@", "&", "@", "m"})}
		if r.p(50) {
			ms = append(ms, m)
			ms = append(ms, lab(pick(r, []string{"e", "f", "a"}), &Expr{Op: "cls", S: ";,"}))
		} else {
			ms = append(ms, lab(pick(r, []string{"e", "f", "a"}), refx("W")), m)
		}
		if r.p(40) {
			ms = append(ms, &Expr{Op: "ref", S: pick(r, maps), Label: pick(r, []string{"@", "&", "n"})})
		}
		if r.p(60) {
			ms = append(ms, str1(pick(r, ends)))
		}
		if first != "" && r.p(40) {
			ms = append([]*Expr{{Op: "ref", S: first, Label: "@"}}, ms...)
		}
		n := fmt.Sprintf("A%d", k)
		rl := irule(n, seqx(ms...))
		if r.p(80) {
			rl.CB, rl.Mode = r.in(1, 3), pick(r, []string{"id", "tag"})
		}
		g.Rules = append(g.Rules, rl)
		alts = append(alts, refx(n))
	}
	w := irule("W", repx(str1("w"), -1, -1))
	g.Rules = append(g.Rules, irule("A", altx(alts...)), w)
	if r.p(60) {
		g.Rules[len(g.Rules)-2].CB, g.Rules[len(g.Rules)-2].Mode = r.in(1, 3), "tag"
	}
	// merging needs a map: what the model defines
	in := analyse(g)
	g.walk(func(x *Rule) {
		x.Body.walk(func(e *Expr) {
			if (e.Label == "@" || e.Label == "&") && !in.mapLike(e.S) {
				e.Label = "q"
			}
		})
	})
	return g
}

// noBackwards: moves backwards can make rules left recursive
func noBackwards(sc *Scenario) {
	for i, f := range sc.Faults {
		if f.N < 0 {
			sc.Faults[i].K, sc.Faults[i].N = "reject", 0
		}
	}
}

// listGrammar: lists of small things
func listGrammar(r *rng) *GSpec {
	g := &GSpec{Name: "list"}
	var sep *Expr
	if r.p(50) {
		sep = refx("C")
	}
	top := repx(refx("X"), -1, -1)
	if sep != nil {
		top.K = append(top.K, sep)
	}
	g.Rules = []*Rule{orule("L", top), irule("X", altx(refx("A"), refx("B"))), irule("A", str1("a")), irule("B", altx(str1("b"), str1("\n"))), irule("C", optx(str1(",")))}
	if r.p(30) {
		g.Rules[2].CB, g.Rules[2].Mode = 1, "id"
	}
	return g
}

func listText(r *rng) string {
	n := pick(r, []int{5000, 30000, 80000})
	s := pick(r, []string{"ab", "a,b\n", "b,b,", "aaaaaaa\n"})
	s = strings.Repeat(s, n/len(s))
	if r.p(30) {
		s += "x"
	}
	return s
}

// classesGrammar: lists of things which are told apart by regular expressions
func classesGrammar(r *rng) *GSpec {
	g := &GSpec{Name: "classes"}
	kinds := []*Expr{{Op: "cls", S: "0-9"}, {Op: "cls", S: "a-z"}, {Op: "cls", S: "A-Z"}, {Op: "re", S: "#[0-9a-f]?"}, {Op: "re", S: "->|=>"}, {Op: "cls", S: "\n\t"}, str1(","), str1("end")}
	for i := len(kinds) - 1; i > 0; i-- {
		k := r.n(i + 1)
		kinds[i], kinds[k] = kinds[k], kinds[i]
	}
	x := &Expr{Op: "alt"}
	top := orule("L", repx(refx("X"), -1, -1))
	g.Rules = []*Rule{top, irule("X", x)}
	for i, k := range kinds[:r.in(4, len(kinds))] {
		n := fmt.Sprintf("K%d", i)
		x.K = append(x.K, refx(n))
		if r.p(25) {
			k = repx(k, 1, -1)
		}
		g.Rules = append(g.Rules, irule(n, k))
	}
	x.K = append(x.K, &Expr{Op: "cls", S: "^!"})
	return g
}

// classesText: long runs of characters of one kind
func classesText(r *rng) string {
	n := pick(r, []int{1000, 3000, 10000})
	var b strings.Builder
	for b.Len() < n {
		s := pick(r, []string{"0", "a", "Z", "#a", "->", "\n", ",", "end", " ", "é", "ab12", "a,"})
		b.WriteString(strings.Repeat(s, 1+r.n(n)/len(s)))
	}
	if r.p(20) {
		b.WriteString("!")
	}
	return b.String()
}

// workDone: the work of a parse is proportional to what the reference
// interpreter needs, whatever the length of the text.
func workDone(sc *Scenario, w *World, in *info) *Viol {
	mg := models(sc)
	fs := newFaultSet(sc.Faults)
	for _, r := range w.res {
		if r == nil || r.Aborted || len(r.Nested) > 0 || r.Op.Kind != "parse" && r.Op.Kind != "tokens" {
			continue
		}
		m := modelOf(sc, mg, r.Op, fs)
		if m == nil {
			continue
		}
		in.probes["work compared"]++
		n := len(r.Op.text())
		if n >= 900 {
			in.probes["work of a long text compared"]++
		}
		g := sc.Gs[slotGrammar(sc, r.Op)]
		if max := uint64(m.ev+n)*80 + spread(g, n)*5 + uint64(g.nodes())*1000 + 20000; r.Steps > max && !r.Op.Debug {
			return &Viol{"work", opLine(r.Op) + fmt.Sprintf(" takes %d steps for a text of %d bytes; the reference interpreter evaluates %d nodes: at most %d expected", r.Steps, n, m.ev, max)}
		}
		if max := uint64(m.ev+n)*200 + spread(g, n)*5 + uint64(g.nodes())*1000 + 20000; r.Work > max && !r.Op.Debug && !printsValues(g) {
			return &Viol{"work", opLine(r.Op) + fmt.Sprintf(" copies or goes through %d bytes or elements (in builtin functions, conversions and functions of package strings) for a text of %d bytes; the reference interpreter evaluates %d nodes: at most %d expected", r.Work, n, m.ev, max)}
		}
		l := longestMatch(g)
		if l < 0 {
			continue
		}
		if max := r.ReEvals*uint64(2*l+8) + 50; r.ReReads > max {
			return &Viol{"work", opLine(r.Op) + fmt.Sprintf(": %d searches of regular expressions which match at most %d characters read %d characters of a text of %d bytes", r.ReEvals, l, r.ReReads, n)}
		}
	}
	return nil
}

// printsValues: parse functions of g make texts of their values, whose length is
// not limited
func printsValues(g *GSpec) bool {
	yes := false
	g.walk(func(r *Rule) { yes = yes || r.CB > 0 && (r.Mode == "text" || r.Mode == "print") })
	return yes
}

// longestMatch is the length of the longest text a regular expression of the
// grammar matches; -1: no limit.
func longestMatch(g *GSpec) int {
	max := 1
	g.walk(func(r *Rule) {
		r.Body.walk(func(e *Expr) {
			if e.Op != "re" || max < 0 {
				return
			}
			t, err := syntax.Parse(e.S, syntax.Perl)
			if err != nil {
				max = -1
				return
			}
			if l := reLen(t); l < 0 || l > max {
				max = l
			}
		})
	})
	return max
}

func reLen(t *syntax.Regexp) int {
	n := 0
	switch t.Op {
	case syntax.OpLiteral:
		return len(t.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpStar, syntax.OpPlus:
		return -1
	case syntax.OpRepeat:
		l := reLen(t.Sub[0])
		if l < 0 || t.Max < 0 {
			return -1
		}
		return l * t.Max
	}
	for _, k := range t.Sub { // concatenation, alternation and the rest
		l := reLen(k)
		if l < 0 {
			return -1
		}
		n += l
	}
	return n
}
