package main

import (
	"fmt"
	"slices"
	"strings"
)

// withoutNested is the scenario where no parse function parses: what the
// parse functions return is the same.
func withoutNested(sc *Scenario) *Scenario {
	c := *sc
	c.Faults = nil
	for _, f := range sc.Faults {
		if f.K == "nested" {
			f.K = "." // the fault of this call, which does nothing
		}
		if f.Op >= 0 {
			c.Faults = append(c.Faults, f)
		}
	}
	return &c
}

// callsText: the calls of a parse, nested parses aside
func callsText(r *OpRes) string {
	var b strings.Builder
	for _, e := range r.Log {
		act := e.Act
		if act == "nested" {
			act = "."
		}
		fmt.Fprintf(&b, "\n%s %x %d %s", e.Rule, e.In, e.E, act)
	}
	return b.String()
}

// innerSolo: the nested parse r alone, with the faults of its level
func innerSolo(sc *Scenario, r *OpRes) *OpRes {
	s := &Scenario{Prop: sc.Prop, Gs: sc.Gs, Setup: sc.Setup, Faults: sc.Faults, MapSeed: sc.MapSeed, Sched: Sched{Mode: "replay"}}
	in := newInfo()
	w := start(s, in)
	if w == nil {
		return nil
	}
	var n *OpRes
	o := *r.Op
	w.runSpecial(func(t *taskState) {
		n = &OpRes{Op: &o, Ran: true, isNested: true}
		t.cur = n
		w.do(n)
		n.Out = t.buf.String()
		t.cur = nil
	})
	if len(w.sim.Over) > 0 {
		return nil
	}
	return n
}

// checkInner compares the nested parses of r, and theirs, with the same alone.
func checkInner(sc *Scenario, in *info, r *OpRes, fuel *int) *Viol {
	for _, n := range r.Nested {
		if *fuel <= 0 {
			return nil
		}
		*fuel--
		if r.Sent != nil && strings.HasPrefix(n.Canon, "") && n.Canon == "" {
			continue // did not end
		}
		in.probe(fmt.Sprintf("nested parses of level %d", levelOf(n.Op.ID)))
		a := innerSolo(sc, n)
		if a == nil {
			in.inconclusive++
			continue
		}
		in.compared++
		if a.Full != n.Full {
			return &Viol{"inner", fmt.Sprintf("a parse of %q made by a parse function (of op #%d, level %d) differs from the same parse alone: %s", n.Op.text(), r.Op.ID, levelOf(n.Op.ID), diffText(n.Full, a.Full))}
		}
		if a.Out != n.Out {
			return &Viol{"inner-output", fmt.Sprintf("a parse of %q made by a parse function (of op #%d, level %d) prints something else than alone: %s", n.Op.text(), r.Op.ID, levelOf(n.Op.ID), diffText(n.Out, a.Out))}
		}
		if v := checkInner(sc, in, n, fuel); v != nil {
			return v
		}
	}
	return nil
}

// deep: some parse functions parse at many levels
func deep(sc *Scenario) bool {
	return slices.ContainsFunc(sc.Faults, func(f Fault) bool { return f.Deep > 0 })
}

func init() {
	register(&prop{
		id: "C15", quick: 5500, thoro: 150000,
		rule: "seeded grammars and texts where parse functions move the position forwards, backwards (not before their rule's start) or after the next occurrence of a text, then accept or reject, at calls chosen by the reference interpreter; values and calls must be those of the reference interpreter, which defines the effect of moves; non-trivial: a move happened",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C15", "move")
			n := 1
			for i := 0; i < n; i++ {
				g := genGrammar(r, cbsRich(r))
				if r.p(15) {
					g = genLR(r)
				}
				g.walk(func(x *Rule) {
					if x.CB == 1 && r.p(70) {
						x.CB = r.in(2, 3)
					}
				})
				b.setup(b.add(g), nil)
			}
			tasksOf(b, someTasks(r), parseOps(b, n, []string{"move", "move", "move", "rejmove", "rejmove", "reject"}, 90, 5, nil), func() int { return r.in(1, 4) })
			return b.sc
		},
		check: modelCheck("move", "rejmove"),
	})

	register(&prop{
		id: "C16", quick: 4500, thoro: 150000,
		rule: "seeded left recursive grammars (direct, indirect, through ranks, after something nullable, several levels, mutual) and texts, with rejections of calls chosen by the reference interpreter, in 1-3 tasks; values must be those of the reference interpreter, whose left recursion algorithm is its own; non-trivial: a parse function was called",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C16", "lr")
			if b.big > 40 {
				b.big = 40
			}
			n := r.in(1, 2)
			long := r.n(1000) < 20
			tower := !long && r.p(4)
			if long || tower {
				n = 1
			}
			for i := 0; i < n; i++ {
				g := genLR(r)
				if long {
					g = chainLR(r)
				} else if tower {
					g = towerLR(r)
				}
				if r.p(20) {
					g.walk(func(x *Rule) { x.SkipCache = slices.Contains(g.InLR, x.Name) && r.p(60) })
				}
				if !long && !tower && r.p(60) {
					g.walk(func(x *Rule) {
						if x.CB == 0 && r.p(50) {
							x.CB, x.Mode = r.in(1, 3), pick(r, []string{"tag", "tag", "id"})
						}
					})
				}
				b.setup(b.add(g), nil)
			}
			tasksOf(b, someTasks(r), parseOps(b, n, []string{"reject", "reject", "rejmove"}, 65, 6, func(o *Op) {
				if long {
					o.Text = chainText(r)
				} else if tower {
					o.Text = towerText(r)
				}
			}), func() int {
				if long {
					return 1
				}
				return r.in(1, 4)
			})
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			if v := unexpectedPanic(w); v != nil {
				return v
			}
			return soloCompare(sc, w, in, cmp{noRef: true, model: true, calls: true})
		},
	})

	register(&prop{
		id: "C17", quick: 900, thoro: 30000,
		rule: "seeded grammars and texts where parse functions parse other texts, with the same grammar or another, traced or not, which do the same up to three levels, and end by values, errors, rejections and panics, in 1-3 tasks; the outer parses must give and print what they give and print without inner ones, and each inner parse what it gives and prints alone; non-trivial: an inner parse called a parse function",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C17", "nested")
			if b.big > 20 {
				b.big = 20
			}
			n := r.in(1, 2)
			for i := 0; i < n; i++ {
				g := b.someGrammar()
				if r.p(60) {
					g = genGrammar(r, cbsRich(r))
				}
				var tr *TraceSpec
				if r.p(20) {
					tr = genTrace(r)
				}
				b.setup(b.add(g), tr)
			}
			tasksOf(b, pick(r, []int{1, 1, 1, 2, 3}), func(int) Op {
				o := b.parse(r.n(n))
				o.Debug = r.p(15)
				if r.p(40) {
					b.faultsFor(&o, []string{"reject", "reject", "stall", "move", "rejmove"}, r.in(1, 3))
				}
				b.faultsFor(&o, []string{"nested"}, r.in(1, 3))
				return o
			}, func() int { return r.in(1, 3) })
			// what inner parses do
			for level := 1; level <= 2; level++ {
				var inner []Fault
				for _, f := range b.sc.Faults {
					if f.K == "nested" && levelOf(f.Op) == level-1 {
						inner = append(inner, f)
					}
				}
				for _, f := range inner {
					if r.p(50) {
						continue
					}
					o := Op{ID: nestedOp(level, f.Slot), Kind: "parse", Slot: f.Slot, Text: f.Text}
					ks := []string{"reject", "reject", "panic", "stall"}
					if level < 2 || r.p(30) {
						ks = []string{"nested", "nested", "reject", "panic"}
					}
					b.faultsFor(&o, ks, r.in(1, 2))
				}
			}
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			if v := endOfRun(sc, w, in); v != nil {
				return v
			}
			ref := withoutNested(sc)
			fuel := 25
			mg := models(sc)
			fs := newFaultSet(sc.Faults)
			for t := range sc.Tasks {
				for k := range sc.Tasks[t] {
					op := &sc.Tasks[t][k]
					got := w.res[op.ID]
					if got == nil || !isParseKind(op.Kind) {
						continue
					}
					for _, n := range got.Nested {
						in.nontrivial = in.nontrivial || len(n.Log) > 0
					}
					want := runSolo(ref, t, k)
					if want == nil || want.Aborted || got.Aborted {
						if got.Aborted && want != nil && !want.Aborted && want.Steps*1000 < w.budget && len(got.Nested) < 3 && !deep(sc) {
							return &Viol{"hang", opLine(op) + fmt.Sprintf(" does not end; without inner parses it takes %d steps", want.Steps)}
						}
						in.inconclusive++
						continue
					}
					in.compared++
					if got.Head != want.Head {
						return &Viol{"outer", opLine(op) + " gives something else when its parse functions parse: " + diffText(got.Head, want.Head)}
					}
					if g, x := callsText(got), callsText(want); g != x {
						return &Viol{"outer-calls", opLine(op) + " makes other calls when its parse functions parse: " + diffText(g, x)}
					}
					if got.Out != want.Out {
						return &Viol{"outer-output", opLine(op) + " prints something else when its parse functions parse: " + diffText(got.Out, want.Out)}
					}
					if m := modelOf(sc, mg, op, fs); m != nil {
						in.modelled++
						if m.String() != got.Canon {
							in.disagree++
							in.notes = append(in.notes, fmt.Sprintf("model %q, code %q for %s", clip(m.String()), clip(got.Canon), describeScenario(sc)))
						}
					}
					if v := checkInner(sc, in, got, &fuel); v != nil {
						return v
					}
				}
			}
			return nil
		},
	})

	register(&prop{
		id: "C18", quick: 400, thoro: 12000,
		rule: "seeded histories and schedules of 1-3 tasks where compiler grammars (hand-written or compiled from their own description) that compiled some of the grammars are destroyed, or compile other grammars, before, between and during parses; every parse and listing must be what it is when compiled by an intact hand-written compiler grammar, and what the reference interpreter says; non-trivial: a compiler grammar was destroyed and a parse came after",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C18", "bomb")
			if b.big > 10 {
				b.big = 10
			}
			n := r.in(1, 2)
			for i := 0; i < n; i++ {
				g := b.someGrammar()
				if r.p(40) { // more ways to write the same
					g.Style = r.u64() | 1
				}
				if r.p(50) {
					for k := r.in(1, 4); k > 0; k-- {
						e := repx(pick(r, []*Expr{str1("z"), {Op: "cls", S: "xyz"}, altx(str1("y"), str1("z\n"))}), pick(r, []int{-1, 0, 1, 2, 12}), pick(r, []int{-1, 2, 3, 20}))
						if r.p(30) {
							e.K = append(e.K, str1(","))
						}
						if e.Max >= 0 && e.Max < e.Min {
							e.Max = -1
						}
						g.Rules = append(g.Rules, irule(fmt.Sprintf("zph%d", k), e))
					}
				}
				b.add(g)
			}
			ks := pick(r, [][]int{{0}, {1}, {0, 1}, {0, 2}, {1, 3}})
			of := map[int]int{} // compiler -> task which may destroy it
			for i := 0; i < n; i++ {
				k := pick(r, ks)
				b.setup(i, nil)
				b.sc.Setup[len(b.sc.Setup)-1].Lazy = fmt.Sprint("c", k)
				of[k] = -1
			}
			ns := len(b.slot)
			nt := pick(r, []int{1, 2, 2, 3})
			gone := map[int]bool{}
			for t := 0; t < nt; t++ {
				var ops []Op
				var own []int
				for m := r.in(3, 6); m > 0; m-- {
					switch k := r.n(100); {
					case k < 30 && t == 0 || k < 15 && len(gone) < len(of):
						// destroy one which nobody will use any more
						var can []int
						for _, c := range ks {
							if x, ok := of[c]; ok && !gone[c] && x == -1 {
								can = append(can, c)
							}
						}
						if len(can) == 0 {
							continue
						}
						c := pick(r, can)
						gone[c] = true
						of[c] = t
						ops = append(ops, Op{ID: b.nid(), Kind: "bomb", Slot: c})
					case k < 40:
						o := b.compileOp(r.n(n))
						c := 10 + 2*t + r.n(2) // a compiler of this task only
						o.Lazy = fmt.Sprint("c", c)
						for _, x := range ops {
							if x.Kind == "bomb" && x.Slot == c {
								o.Lazy = ""
							}
						}
						if r.p(60) {
							o.Lazy = ""
						}
						own = append(own, o.Slot)
						ops = append(ops, o)
						if o.Lazy != "" && r.p(60) {
							ops = append(ops, Op{ID: b.nid(), Kind: "bomb", Slot: c})
						}
					case k < 46:
						ops = append(ops, Op{ID: b.nid(), Kind: "rules", Slot: r.n(ns)})
					default:
						s := r.n(ns)
						if len(own) > 0 && r.p(50) {
							s = pick(r, own)
						}
						o := b.parse(s)
						if len(o.Text) > 60 {
							o.Text = string([]rune(o.Text)[:20])
						}
						if r.p(40) {
							b.faultsFor(&o, []string{"reject", "stall", "stall", "panic"}, r.in(1, 3))
						}
						ops = append(ops, o)
					}
				}
				b.sc.Tasks = append(b.sc.Tasks, ops)
			}
			b.sc.Sched = genSchedLong(r, nt)
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			bombed, after := false, false
			taskOps(sc, func(o *Op) {
				if o.Kind == "bomb" {
					bombed = true
					in.fired["compiler-destroyed"]++
				} else if bombed && isParseKind(o.Kind) {
					after = true
				}
			})
			v := soloCompare(sc, w, in, cmp{out: true, model: true, calls: true})
			in.nontrivial = after
			return v
		},
	})
}

// chainLR: a left recursive rule for chains of operators, chainText: a chain
// of some hundreds of them.
func chainLR(r *rng) *GSpec {
	g := &GSpec{Name: "chain"}
	op := &Expr{Op: "cls", S: pick(r, []string{"+*", "+*!"})}
	n := &Expr{Op: "cls", S: "0-9"}
	tag := func(rl *Rule) *Rule {
		if r.p(40) {
			rl.CB, rl.Mode = r.in(1, 3), pick(r, []string{"id", "int", "text"})
		}
		return rl
	}
	var rules []*Rule
	switch r.n(4) {
	case 0: // direct
		rules = []*Rule{tag(irule("E", altx(seqx(refx("E"), op, refx("N")), refx("N"))))}
	case 1: // through another rule
		rules = []*Rule{tag(irule("E", altx(refx("B"), refx("N")))), tag(irule("B", seqx(lab("l", refx("E")), op, lab("r", refx("N")))))}
	case 2: // through a rank
		rules = []*Rule{{Name: "E", Sub: []*Rule{tag(orule("B", seqx(refx("E"), op, refx("N")))), orule("", refx("N"))}}}
	default: // two levels
		rules = []*Rule{
			tag(irule("E", altx(seqx(refx("E"), str1("+"), refx("T")), refx("T")))),
			tag(irule("T", altx(seqx(refx("T"), str1("*"), refx("N")), refx("N"))))}
	}
	g.Rules = append([]*Rule{orule("S", refx("E"))}, rules...)
	g.Rules = append(g.Rules, irule("N", n))
	return g
}

// towerLR: left recursion through many rules, towerText: a text for it
func towerLR(r *rng) *GSpec {
	g := &GSpec{Name: "tower"}
	k := pick(r, []int{4, 8, 12, 20, 30, 40})
	tag := func(rl *Rule) *Rule {
		if r.p(30) {
			rl.CB, rl.Mode = r.in(1, 3), pick(r, []string{"id", "int", "tag"})
		}
		return rl
	}
	level := func(i int) string { return fmt.Sprint("L", i) }
	n := &Expr{Op: "cls", S: "0-9"}
	switch r.n(3) {
	case 0: // the operators of all the levels of precedence
		for i := 0; i < k; i++ {
			g.Rules = append(g.Rules, tag(irule(level(i), altx(seqx(refx(level(i)), str1(pick(r, []string{"+", "*", "!"})), refx(level(i+1))), refx(level(i+1))))))
		}
		last := altx(seqx(str1("("), refx("L0"), str1(")")), refx("N"))
		if k <= 12 && r.p(30) {
			last.K = append([]*Expr{seqx(refx("L0"), str1("?"))}, last.K...)
		}
		g.Rules = append(g.Rules, tag(irule(level(k), last)))
	default: // one operator, found at the end of a chain of rules
		end := seqx(refx("L0"), &Expr{Op: "cls", S: "+*"}, refx("N"))
		for i := 0; i < k; i++ {
			e := refx(level(i + 1))
			if i == k-1 {
				e = end
			}
			switch {
			case i == 0 || r.p(20):
				e = altx(e, refx("N"))
			case i < k-1 && r.p(20):
				e = seqx(optx(str1("-")), e)
			}
			g.Rules = append(g.Rules, tag(irule(level(i), e)))
		}
	}
	g.Rules = append([]*Rule{orule("S", refx("L0"))}, append(g.Rules, irule("N", n))...)
	return g
}

func towerText(r *rng) string {
	var s strings.Builder
	s.WriteByte(byte('0' + r.n(10)))
	for k := r.in(0, 12); k > 0; k-- {
		if r.p(10) {
			s.WriteByte("?!"[r.n(2)])
			continue
		}
		s.WriteByte("+*!"[r.n(3-r.n(2))])
		if r.p(10) {
			s.WriteString("(1+2*3)")
			continue
		}
		s.WriteByte(byte('0' + r.n(10)))
	}
	return s.String()
}

func chainText(r *rng) string {
	var s strings.Builder
	one := r.p(30)
	s.WriteByte(byte('0' + r.n(10)))
	for k := pick(r, []int{30, 100, 200, 400, 1000}) + r.n(20); k > 0; k-- {
		s.WriteByte("+*"[r.n(2)*b2i(!one)])
		s.WriteByte(byte('0' + r.n(10)))
	}
	if r.p(20) {
		s.WriteString("+")
	}
	return s.String()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
