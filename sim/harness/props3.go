package main

import (
	"fmt"
	"regexp"
	"strings"
)

// ---- traces ----

func genTrace(r *rng) *TraceSpec {
	t := &TraceSpec{Stack: r.p(60), Loop: r.p(40), Grammar: r.p(30), SkipSetup: r.p(40), Line: -1}
	if r.p(40) {
		t.Line = r.in(0, 4)
	}
	return t
}

// genTraceEnv: a value of TRACE among the documented ones
func genTraceEnv(r *rng) string {
	var a []string
	for k := r.in(1, 3); k > 0; k-- {
		v := pick(r, []string{"stack", "loop", "grammar", "all", "none", "skipsetup", "line=", "filterline="})
		if strings.HasSuffix(v, "=") {
			v += fmt.Sprint(r.in(0, 3))
		}
		a = append(a, v)
	}
	return strings.Join(a, ",")
}

// traceRules switches traces on for some of the rules.
func traceRules(r *rng, g *GSpec) {
	p := pick(r, []int{0, 20, 60})
	g.walk(func(x *Rule) {
		if r.p(p) {
			x.Debug = true
		}
		if r.p(p / 2) {
			x.SkipLog = true
		}
	})
}

// muted is the scenario without anything that traces, and with a stdout that
// works: same operations, same numbers.
func muted(sc *Scenario) *Scenario {
	c := *sc
	c.Gs = nil
	for _, g := range sc.Gs {
		g2 := g.clone()
		g2.walk(func(x *Rule) { x.Debug, x.SkipLog = false, false })
		c.Gs = append(c.Gs, g2)
	}
	mute := func(ops []Op) []Op {
		var out []Op
		for _, o := range ops {
			o.Debug, o.SkipLog, o.Trace, o.EnvTr, o.Out = false, false, nil, false, ""
			out = append(out, o)
		}
		return out
	}
	c.Setup = mute(sc.Setup)
	c.Tasks = nil
	for _, t := range sc.Tasks {
		c.Tasks = append(c.Tasks, mute(t))
	}
	return &c
}

// newSlot reserves a slot for grammar g, which a task compiles.
func (b *builder) newSlot(g int) int {
	b.slot = append(b.slot, g)
	return len(b.slot) - 1
}

func (b *builder) compileOp(g int) Op {
	return Op{ID: b.nid(), Kind: "compile", Slot: b.newSlot(g), G: g, Lazy: pick(b.r, []string{"", "", "", "", "fresh"})}
}

// linesText: texts of several lines, and bytes which are not UTF-8
func oddText(r *rng, o *Op) {
	if r.p(20) {
		rs := []rune(o.Text)
		for k := r.in(1, 4); k > 0; k-- {
			at := r.n(len(rs) + 1)
			rs = append(rs[:at:at], append([]rune{pick(r, []rune{'\n', '\n', '\r', 'é', '\t'})}, rs[at:]...)...)
		}
		o.Text = string(rs)
	}
	if r.p(10) {
		o.Bytes = []byte(o.Text)
		for k := r.in(1, 3); k > 0; k-- {
			at := r.n(len(o.Bytes) + 1)
			x := pick(r, []string{"\xff", "\x80", "\xe4\xb8", "\x00", "\xef\xbf\xbd", "\xf0\x9f"})
			o.Bytes = append(o.Bytes[:at:at], append([]byte(x), o.Bytes[at:]...)...)
		}
	}
}

// askedTraces: what a parse prints is the part asked for of what it prints
// when everything is asked.
func askedTraces(sc *Scenario, w *World, in *info) *Viol {
	for t := range sc.Tasks {
		for k := range sc.Tasks[t] {
			op := &sc.Tasks[t][k]
			r := w.res[op.ID]
			if r != nil && op.Kind == "compile" {
				if v := setupTraces(sc, t, k, r, in); v != nil {
					return v
				}
				continue
			}
			if r == nil || r.Aborted || !isParseKind(op.Kind) || op.Out != "" || r.Canon == "no grammar" {
				continue
			}
			s := soloScenario(sc, t, k)
			var opts *TraceSpec
			var spec *GSpec
			env := ""
			s.Tasks = [][]Op{append([]Op{}, s.Tasks[0]...)}
			for _, ops := range [][]Op{s.Setup, s.Tasks[0]} {
				for i := range ops {
					o := &ops[i]
					switch {
					case o.Kind == "setenv":
						env = o.Text
					case o.Kind == "compile" && o.Slot == op.Slot:
						spec = sc.Gs[o.G]
						opts = o.Trace
						if o.EnvTr {
							opts = traceOfEnv(env)
						}
						if opts == nil {
							opts = &TraceSpec{Line: -1}
						}
						o.Trace, o.EnvTr = &TraceSpec{Stack: true, Line: -1, SkipSetup: true}, false
					}
				}
			}
			if opts == nil {
				continue
			}
			some := false // are there rules with traces of their own
			spec.walk(func(x *Rule) { some = some || x.Debug })
			switch {
			case op.SkipLog || !opts.Stack && !op.Debug && !some:
				in.probe("nothing to print")
				if r.Out != "" {
					return &Viol{"not-asked", opLine(op) + " prints although nothing was asked: " + clip(r.Out)}
				}
				continue
			}
			last := &s.Tasks[0][len(s.Tasks[0])-1]
			last.Debug, last.SkipLog = false, false
			w2 := start(s, newInfo())
			if w2 == nil {
				continue
			}
			w2.runTasks(s.Tasks, s.Sched)
			all := w2.res[op.ID]
			if all == nil || all.Aborted || all.Canon != r.Canon {
				continue
			}
			want := linesOf(all.Out, opts.Line)
			got := linesOf(r.Out, -1)
			in.probe("traces which are a part of all of them")
			if opts.Stack || op.Debug {
				if a, b := strings.Join(got, "\n"), strings.Join(want, "\n"); a != b {
					return &Viol{"not-as-asked", opLine(op) + " does not print the traces asked for: " + diffText(a, b)}
				}
				continue
			}
			if own, ok := ownTraces(spec, all.Out); ok {
				in.probe("traces of some rules only")
				if a, b := strings.Join(got, "\n"), strings.Join(linesOf(own, opts.Line), "\n"); a != b {
					return &Viol{"not-as-asked", opLine(op) + " does not print the traces of the rules asked for: " + diffText(a, b)}
				}
				continue
			}
			i := 0
			for _, l := range want {
				if i < len(got) && got[i] == l {
					i++
				}
			}
			if i < len(got) {
				return &Viol{"not-as-asked", opLine(op) + " prints a line which is not among all of its traces: " + clip(got[i])}
			}
		}
	}
	return nil
}

// setupTraces: what a compilation prints when the traces of the setup are not
// asked for is what it prints without traces of parses.
func setupTraces(sc *Scenario, t, k int, r *OpRes, in *info) *Viol {
	op := &sc.Tasks[t][k]
	if r.Aborted || op.Fail != "" || op.Out != "" {
		return nil
	}
	s := soloScenario(sc, t, k)
	env := ""
	for _, ops := range [][]Op{s.Setup, s.Tasks[0]} {
		for i := range ops {
			if ops[i].Kind == "setenv" {
				env = ops[i].Text
			}
		}
	}
	opts := op.Trace
	if op.EnvTr {
		opts = traceOfEnv(env)
	}
	if opts == nil || opts.Stack && !opts.SkipSetup {
		return nil
	}
	gs := s.Gs
	s.Gs = nil
	for _, g := range gs {
		g2 := g.clone()
		g2.walk(func(x *Rule) { x.Debug = false })
		s.Gs = append(s.Gs, g2)
	}
	ops := append([]Op{}, s.Tasks[0]...)
	last := &ops[len(ops)-1]
	if op.EnvTr { // the same without traces of parses
		free := 0
		for _, ops := range append([][]Op{sc.Setup}, sc.Tasks...) {
			for i := range ops {
				free = max(free, ops[i].ID+1)
			}
		}
		a := []string{"none"}
		for _, x := range []struct {
			is bool
			w  string
		}{{opts.Grammar, "grammar"}, {opts.Loop, "loop"}, {opts.SkipSetup, "skipsetup"}, {opts.Line >= 0, fmt.Sprint("line=", opts.Line)}} {
			if x.is {
				a = append(a, x.w)
			}
		}
		ops = append(ops[:len(ops)-1:len(ops)-1], Op{ID: free, Kind: "setenv", Text: strings.Join(a, ",")}, *last)
	} else {
		last.Trace = &TraceSpec{Grammar: opts.Grammar, Loop: opts.Loop, Line: opts.Line, SkipSetup: opts.SkipSetup}
	}
	s.Tasks = [][]Op{ops}
	w := start(s, newInfo())
	if w == nil {
		return nil
	}
	w.runTasks(s.Tasks, s.Sched)
	o := w.res[op.ID]
	if o == nil || o.Aborted {
		return nil
	}
	in.probe("compilations without traces of their setup")
	if o.Out != r.Out {
		return &Viol{"not-as-asked", opLine(op) + " prints traces of its setup, which were not asked for: " + diffText(r.Out, o.Out)}
	}
	return nil
}

var (
	depthOfTrace = regexp.MustCompile("\x1b\\[1;30m[>\\]]\x1b\\[0m \x1b\\[36m((?:\\| )*)\x1b\\[0m")
	ruleOfTrace  = regexp.MustCompile("^\x1b\\[34m\\*\x1b\\[0m \x1b\\[31m([^ ]+): \x1b\\[0m")
)

// ownTraces: of all the traces of a parse, those of the rules which have them
// asked for (if each line can be told to be of one rule)
func ownTraces(g *GSpec, all string) (string, bool) {
	debug := map[string]bool{}
	twice := false
	g.walk(func(x *Rule) {
		_, has := debug[x.Name]
		twice = twice || has && x.Name != ""
		debug[x.Name] = x.Debug
	})
	if twice {
		return "", false
	}
	var own strings.Builder
	var at []string // the rule at each depth
	for _, l := range linesOf(all, -1) {
		m := depthOfTrace.FindStringSubmatchIndex(l)
		if m == nil {
			return "", false
		}
		d := (m[3] - m[2]) / 2
		if r := ruleOfTrace.FindStringSubmatch(l[m[1]:]); r != nil {
			if d > len(at) {
				return "", false
			}
			at = append(at[:d], r[1])
		}
		if d >= len(at) {
			return "", false
		}
		is, known := debug[at[d]]
		if !known {
			return "", false
		}
		if is {
			own.WriteString(l + "\n")
		}
	}
	return own.String(), true
}

// linesOf: the lines of the traces which are about this line of the text (-1: all)
func linesOf(out string, line int) []string {
	var ls []string
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if l != "" && (line < 0 || strings.HasPrefix(l, fmt.Sprintf("\x1b[37m%d,", line))) {
			ls = append(ls, l)
		}
	}
	return ls
}

// traceOfEnv: what is documented for the environment variable TRACE
func traceOfEnv(v string) *TraceSpec {
	o := &TraceSpec{Line: -1}
	for _, w := range strings.Split(v, ",") {
		switch {
		case w == "none":
			o = &TraceSpec{Line: -1}
		case w == "all":
			o = &TraceSpec{Stack: true, Grammar: true, Line: -1, SkipSetup: true}
		case w == "stack":
			o.Stack = true
		case w == "loop":
			o.Loop = true
		case w == "grammar":
			o.Grammar = true
		case w == "skipsetup":
			o.SkipSetup = true
		case strings.Contains(w, "="):
			o.Line = atoi(w[strings.Index(w, "=")+1:])
		}
	}
	return o
}

func taskOps(sc *Scenario, f func(o *Op)) {
	for t := range sc.Tasks {
		for k := range sc.Tasks[t] {
			f(&sc.Tasks[t][k])
		}
	}
}

func init() {
	register(&prop{
		id: "C10", quick: 1900, thoro: 40000,
		rule: "seeded grammars with traces on for the grammar (options or environment), some rules or single parses, texts of several lines or with bytes that are not UTF-8, rejections, moves, panics, in 1-3 tasks, with a stdout that works, fails, writes short or fails now and then; values, origins, messages and calls must be those of the same operation alone with everything muted; non-trivial: something was printed or a write failed",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C10", "traced")
			if b.big > 20 {
				b.big = 20
			}
			n := r.in(1, 2)
			envs := r.p(35)
			if r.p(40) {
				// traces while compiling, mostly
				c := swarmCfg(r)
				c.Labels, c.Rules = pick(r, []int{20, 60}), r.in(1, 4)
				b.setup(b.add(genGrammar(r, c)), &TraceSpec{Grammar: r.p(80), Loop: r.p(50), SkipSetup: r.p(80), Stack: r.p(5), Line: -1})
				tasksOf(b, pick(r, []int{1, 1, 2}), func(int) Op {
					o := b.parse(0)
					if r.p(20) {
						b.faultsFor(&o, []string{"reject", "move"}, 1)
					}
					return o
				}, func() int { return r.in(1, 4) })
				return b.sc
			}
			for i := 0; i < n; i++ {
				g := b.someGrammar()
				traceRules(r, g)
				gi := b.add(g)
				if envs && r.p(60) {
					b.sc.Setup = append(b.sc.Setup, Op{ID: b.nid(), Kind: "setenv", Text: genTraceEnv(r), N: r.n(2)})
					b.setup(gi, nil)
					b.sc.Setup[len(b.sc.Setup)-1].EnvTr = true
				} else {
					b.setup(gi, genTrace(r))
				}
				b.sc.Setup[len(b.sc.Setup)-1].Out = pick(r, []string{"", "", "fail", "short", "flaky"})
			}
			tasksOf(b, pick(r, []int{1, 1, 1, 2, 3}), func(int) Op {
				if r.p(8) {
					g := r.n(n)
					o := b.compileOp(g)
					o.Trace = genTrace(r)
					o.Out = pick(r, []string{"", "fail", "short", "flaky"})
					return o
				}
				o := b.parse(r.n(n))
				oddText(r, &o)
				o.Debug, o.SkipLog = r.p(40), r.p(15)
				o.Out = pick(r, []string{"", "", "", "fail", "short", "flaky"})
				if r.p(50) {
					b.faultsFor(&o, []string{"reject", "reject", "reject", "rejmove", "move", "nested", "panic"}, r.in(1, 4))
				}
				return o
			}, func() int { return r.in(1, 4) })
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			printed := w.outFaults > 0
			for _, r := range w.res {
				printed = printed || r != nil && r.Out != ""
			}
			v := soloCompare(sc, w, in, cmp{ref: muted(sc)})
			in.nontrivial = printed
			return v
		},
	})

	register(&prop{
		id: "C11", quick: 700, thoro: 40000,
		rule: "seeded schedules (1-4 tasks) and histories of parses, traced or not, with one or two grammars that may share one trace options value, of compilations, and of changes of TRACE; what each operation prints (and gives) must be byte for byte what it prints alone with a new grammar; non-trivial: some operations print and some do not",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C11", "prints")
			if b.big > 20 {
				b.big = 20
			}
			n := r.in(1, 2)
			share := 0
			if r.p(40) {
				share = 1
			}
			one := r.p(50) // a single task, where the environment changes
			shared := genTrace(r)
			shared.Share = 1
			for i := 0; i < n; i++ {
				g := b.someGrammar()
				if r.p(30) {
					traceRules(r, g)
				}
				tr := &TraceSpec{Line: -1}
				switch {
				case share > 0:
					tr = &(*shared)
				case r.p(40):
					tr = genTrace(r)
				}
				b.setup(b.add(g), tr)
			}
			nt := pick(r, []int{2, 2, 3, 4})
			if one {
				nt = 1
			}
			own := map[int][]int{}
			env := one && r.p(40) // the environment is what changes most
			tasksOf(b, nt, func(t int) Op {
				switch k := r.n(100); {
				case env && k < 30, one && k < 12:
					v := ""
					if r.p(80) {
						v = genTraceEnv(r)
					}
					return Op{ID: b.nid(), Kind: "setenv", Text: v, N: r.n(2)}
				case env && k < 70, one && k < 22, k < 8:
					o := b.compileOp(r.n(n))
					o.Trace = genTrace(r)
					if share > 0 && r.p(50) {
						o.Trace = shared
					}
					if env && r.p(85) || one && r.p(50) {
						o.EnvTr, o.Trace, o.Lazy = true, nil, ""
					}
					own[t] = append(own[t], o.Slot)
					return o
				case k < 26 && r.p(30):
					return Op{ID: b.nid(), Kind: "rules", Slot: r.n(n)}
				}
				s := r.n(n)
				if len(own[t]) > 0 && r.p(40) {
					s = pick(r, own[t])
				}
				o := b.parse(s)
				oddText(r, &o)
				if r.p(35) {
					o.Debug = true
				}
				if r.p(15) {
					o.SkipLog = true
				}
				if r.p(40) {
					b.faultsFor(&o, []string{"reject", "reject", "stall", "panic", "goexit", "nested", "nested"}, r.in(1, 3))
				}
				return o
			}, func() int { return r.in(2, 6) })
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			v := soloCompare(sc, w, in, cmp{out: true})
			if v == nil {
				v = askedTraces(sc, w, in)
			}
			some, none := false, false
			taskOps(sc, func(o *Op) {
				if r := w.res[o.ID]; r != nil && isParseKind(o.Kind) {
					if r.Out == "" {
						none = true
					} else {
						some = true
					}
				}
			})
			in.nontrivial = some && none
			return v
		},
	})

	register(&prop{
		id: "C12", quick: 420, thoro: 20000,
		rule: "seeded schedules of 2-5 tasks which compile (from the same lines value or from others, with the default, a shared lazily made, or a failing compiler grammar) and parse with what they compiled, beside parses of shared grammars; every parse must give what it gives alone with a grammar compiled alone; at most one failure of a compiler grammar may be seen per lazy value; non-trivial: two tasks compiled and one parsed",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C12", "compile")
			if b.big > 20 {
				b.big = 20
			}
			n := r.in(1, 3)
			for i := 0; i < n; i++ {
				g := b.someGrammar()
				if r.p(30) {
					traceRules(r, g)
				}
				b.add(g)
			}
			if r.p(50) {
				b.setup(0, nil)
				b.sc.Setup[0].Lines = b.lines(0, r.p(60))
			}
			lazies, bad := []string{""}, ""
			switch k := r.n(100); {
			case k < 20:
				lazies = []string{"", fmt.Sprint("c", 2*r.n(2))}
			case k < 30:
				lazies = []string{"", fmt.Sprint("c", 1+2*r.n(2))}
			case k < 37:
				lazies = []string{"", "", "fresh"}
			case k < 60:
				bad = fmt.Sprintf("c%d!", pick(r, []int{4, 4, 6, 5}))
				lazies = []string{"", bad, bad}
			}
			nt := pick(r, []int{2, 2, 3, 3, 4, 5})
			shared := r.p(70)
			for t := 0; t < nt; t++ {
				var ops []Op
				for k := r.in(1, 2); k > 0; k-- {
					g := r.n(n)
					o := b.compileOp(g)
					o.Lines = b.lines(g, shared && r.p(85))
					o.Lazy = pick(r, lazies)
					ops = append(ops, o)
					if o.Lazy == bad {
						o2 := o // again, if it failed
						o2.ID = b.nid()
						ops = append(ops, o2)
					}
					for m := r.in(1, 3); m > 0; m-- {
						s := o.Slot
						if len(b.sc.Setup) > 0 && r.p(20) {
							s = 0
						}
						p := b.parse(s)
						if len(p.Text) > 60 {
							p.Text = string([]rune(p.Text)[:20])
						}
						if r.p(40) {
							b.faultsFor(&p, []string{"reject", "reject", "stall", "panic", "move"}, r.in(1, 3))
						}
						ops = append(ops, p)
					}
				}
				b.sc.Tasks = append(b.sc.Tasks, ops)
			}
			b.sc.Sched = genSchedLong(r, nt)
			if r.p(50) {
				b.sc.MapSeed = r.u64()
			}
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			fails := map[string]int{}
			compiled, parsed := 0, 0
			for t := range sc.Tasks {
				for k := range sc.Tasks[t] {
					o := &sc.Tasks[t][k]
					r := w.res[o.ID]
					if r == nil {
						continue
					}
					if o.Kind == "compile" {
						compiled++
						if strings.HasSuffix(o.Lazy, "!") && strings.Contains(r.Canon, errLazy.Error()) {
							fails[o.Lazy]++
						}
					} else if len(r.Log) > 0 {
						parsed++
					}
				}
			}
			for l, n := range fails {
				if n > 1 {
					return &Viol{"compiler-lost", fmt.Sprintf("%d compilations failed because making the compiler grammar %s failed, which happened once", n, l)}
				}
			}
			v := soloCompare(sc, w, in, cmp{model: true, calls: true})
			in.nontrivial = compiled > 1 && parsed > 0 && in.preempts > 0
			return v
		},
	})

	register(&prop{
		id: "C13", quick: 420, thoro: 20000,
		rule: "seeded histories and schedules (1-4 tasks) where compilations of lines with a mistake (six kinds, at any line, with either compiler grammar, from lines also used by other compilations) fail between and beside good compilations and parses; each failure must give the message it gives alone, and every other operation what it gives alone; non-trivial: a compilation failed and a parse came after it",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C13", "failed")
			if b.big > 10 {
				b.big = 10
			}
			n := r.in(1, 2)
			for i := 0; i < n; i++ {
				b.add(b.someGrammar())
			}
			for i := 0; i < n; i++ {
				if r.p(60) {
					b.setup(i, nil)
					b.sc.Setup[len(b.sc.Setup)-1].Lines = b.lines(i, r.p(60))
				}
			}
			ns := len(b.slot)
			lazies := pick(r, [][]string{{""}, {""}, {""}, {""}, {"", "c0"}, {"", "c0"}, {"", "c1"}, {"", "fresh"}})
			nt := pick(r, []int{1, 1, 2, 3, 4})
			var tr *TraceSpec // the same options value for all
			if r.p(15) {
				tr = genTrace(r)
				tr.SkipSetup, tr.Share = true, 1
			}
			for t := 0; t < nt; t++ {
				var ops []Op
				for k := r.in(1, 3); k > 0; k-- {
					g := r.n(n)
					lz := pick(r, lazies)
					if r.p(12) { // a rule which does not exist: the parses which need it panic
						o := b.compileOp(g)
						o.Fail = pick(r, []string{"undef", "undefat", "undefrm", "undefrm"})
						o.N = r.n(20)
						o.Trace = tr
						ops = append(ops, o)
						for m := r.in(1, 2); m > 0; m-- {
							p := b.parse(o.Slot)
							if len(p.Text) > 60 {
								p.Text = string([]rune(p.Text)[:20])
							}
							if r.p(10) {
								p.Times = r.in(2, 150)
							}
							ops = append(ops, p)
						}
					}
					for m := r.in(1, 2); m > 0; m-- {
						o := b.compileOp(g)
						o.Lines = b.lines(g, r.p(70))
						o.Lazy = pick(r, []string{lz, lz, ""})
						o.Fail = pick(r, failKinds)
						o.N = r.n(20)
						if r.p(2) {
							o.Times = pick(r, []int{3, 10, 30, 100, 250})
						}
						o.Trace = tr
						ops = append(ops, o)
					}
					o := b.compileOp(g)
					o.Trace = tr
					o.Lines = b.lines(g, r.p(70))
					o.Lazy = lz
					ops = append(ops, o)
					for m := r.in(1, 2); m > 0; m-- {
						s := o.Slot
						if ns > 0 && r.p(35) {
							s = r.n(ns)
						}
						p := b.parse(s)
						if len(p.Text) > 60 {
							p.Text = string([]rune(p.Text)[:20])
						}
						ops = append(ops, p)
					}
				}
				b.sc.Tasks = append(b.sc.Tasks, ops)
			}
			b.sc.Sched = genSchedLong(r, nt)
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			failed, after := 0, false
			for t := range sc.Tasks {
				for k := range sc.Tasks[t] {
					o := &sc.Tasks[t][k]
					r := w.res[o.ID]
					if r == nil || r.Aborted {
						continue
					}
					if o.Kind == "compile" && strings.HasPrefix(o.Fail, "undef") {
						in.probe("compile-" + o.Fail)
					} else if o.Kind == "compile" && o.Fail != "" {
						in.probe("compile-" + o.Fail + ": " + strings.SplitN(r.Canon, " ", 2)[0])
						failed++
						if !strings.HasPrefix(r.Canon, "panic ") {
							return &Viol{"accepted", opLine(o) + fmt.Sprintf(" (mistake: %s) did not fail: %s", o.Fail, clip(r.Canon))}
						}
						if strings.Contains(r.Canon, "nil pointer") || strings.Contains(r.Canon, "index out of range") {
							return &Viol{"undescribed", opLine(o) + fmt.Sprintf(" (mistake: %s) fails without a description: %s", o.Fail, clip(r.Canon))}
						}
					} else if isParseKind(o.Kind) && failed > 0 && len(r.Log) > 0 {
						after = true
					}
				}
			}
			out := false
			taskOps(sc, func(o *Op) { out = out || o.Trace != nil && o.Trace.Share > 0 })
			v := soloCompare(sc, w, in, cmp{model: true, out: out})
			in.nontrivial = after
			return v
		},
	})
}

var failKinds = []string{"syntax", "regex", "class", "code", "range", "empty"}

// lines: the number of the shared lines of grammar g (each grammar has one), or 0
func (b *builder) lines(g int, shared bool) int {
	if !shared {
		return 0
	}
	return g + 1
}
