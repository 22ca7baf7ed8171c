package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"
)

// builder assembles a scenario.
type builder struct {
	r      *rng
	sc     *Scenario
	id     int
	mg     []*mgram
	in     []*gInfo
	fill   []string // what the texts begin with
	abc    [][]string
	slot   []int // slot -> grammar
	big    int
	nsetup int // slots compiled before the tasks start
}

func newBuilder(r *rng, prop, kind string) *builder {
	b := &builder{r: r, sc: &Scenario{Prop: prop, Kind: kind}}
	switch k := r.n(40); {
	case k == 0:
		b.big = r.in(50, 400)
	case k < 5:
		b.big = r.in(4, 30)
	case k < 12:
		b.big = r.in(1, 3)
	}
	return b
}

func (b *builder) add(g *GSpec) int {
	b.renamed(g)
	// texts are made from the grammar as it was before it becomes wider
	b.in = append(b.in, analyse(g.clone()))
	b.fill = append(b.fill, b.wider(g))
	b.sc.Gs = append(b.sc.Gs, g)
	i := len(b.sc.Gs) - 1
	b.mg = append(b.mg, newMGram(g, i))
	b.abc = append(b.abc, alphabetOf(g))
	return i
}

func (b *builder) nid() int { b.id++; return b.id - 1 }

// setup compiles grammar g in a new slot before the tasks start.
func (b *builder) setup(g int, tr *TraceSpec) int {
	s := len(b.slot)
	b.slot = append(b.slot, g)
	b.nsetup = len(b.slot)
	o := Op{ID: b.nid(), Kind: "compile", Slot: s, G: g, Trace: tr}
	if b.r.p(6) {
		o.Lazy = "fresh"
	}
	b.sc.Setup = append(b.sc.Setup, o)
	return s
}

func (b *builder) text(g int) string {
	if b.r.p(4) {
		return ""
	}
	return b.fill[g] + genText(b.r, b.in[g].g, b.in[g], b.big)
}

func (b *builder) parse(slot int) Op {
	o := Op{ID: b.nid(), Kind: "parse", Slot: slot, Text: b.text(b.slot[slot])}
	if b.r.p(12) {
		o.Kind, o.Cut = "tokens", b.r.u64()
	}
	return o
}

func sortedCbs(m map[cbRec]bool) []cbRec {
	a := make([]cbRec, 0, len(m))
	for c := range m {
		a = append(a, c)
	}
	sort.Slice(a, func(i, j int) bool {
		x, y := a[i], a[j]
		if x.rule != y.rule {
			return x.rule < y.rule
		}
		if x.e != y.e {
			return x.e < y.e
		}
		return x.in < y.in
	})
	return a
}

const modelFuel = 300_000

// faultsFor chooses faults among the calls which the parse function will
// receive, as the model predicts them; again after the first ones, since
// these change what follows.
func (b *builder) faultsFor(op *Op, kinds []string, max int) {
	g := b.slot[op.Slot]
	for round := 0; round < 3 && max > 0; round++ {
		res := b.mg[g].parse(op.text(), op.ID, newFaultSet(b.sc.Faults), modelFuel)
		cbs := sortedCbs(res.cbs)
		if len(cbs) == 0 {
			return
		}
		if round == 0 && b.r.p(8) && slices.Contains(kinds, "reject") {
			// a good part of the calls of a rule, or of all of them
			f := Fault{Op: op.ID, G: g, K: "reject", N: b.r.n(1000), Any: pick(b.r, []int{5, 30, 60, 90, 98})}
			if b.r.p(70) {
				f.Rule = pick(b.r, cbs).rule
			}
			b.sc.Faults = append(b.sc.Faults, f)
			continue
		}
		if round == 0 && b.r.p(5) && slices.Contains(kinds, "move") {
			b.wideMove(op)
			continue
		}
		n := 1 + b.r.n(max)
		for ; n > 0 && max > 0; n-- {
			c := pick(b.r, cbs)
			f := Fault{Op: op.ID, G: g, Rule: c.rule, In: c.in, E: c.e, K: pick(b.r, kinds)}
			switch f.K {
			case "move", "rejmove":
				if c.e < 0 {
					f.K = "reject"
				}
				f.N = b.r.in(1, 3)
				switch k := b.r.n(100); {
				case c.e < 0:
				case k < 25 && len(b.sc.Gs[g].LR) == 0:
					// backwards, not before the place where the rule was tried
					n := utf8.RuneCountInString(op.text()[min(res.from[c], c.e):c.e])
					if f.K == "rejmove" || b.r.p(20) { // before it too
						n = 3
					}
					if n > 0 {
						f.N = -b.r.in(1, n)
					}
				case k < 45:
					f.Text = pick(b.r, b.abc[g])
				}
			case "panic":
				f.N = b.r.n(len(panicKinds))
			case "stall":
				f.N = b.r.in(1, 50)
			case "nested":
				f.Slot = b.r.n(b.nsetup)
				f.Text = b.text(b.slot[f.Slot])
				if len(f.Text) > 60 {
					f.Text = string([]rune(f.Text)[:20])
				}
				f.N = b.r.n(4)
				if b.r.p(4) && len(f.Text) < 12 && b.sc.Prop == "C17" {
					f.Deep = b.r.in(5, 40)
				}
			}
			b.sc.Faults = append(b.sc.Faults, f)
			max--
		}
	}
}

// wideMove: a good part of the calls of a rule read up to the same text.
func (b *builder) wideMove(op *Op) {
	g := b.slot[op.Slot]
	cbs := sortedCbs(b.mg[g].parse(op.text(), op.ID, newFaultSet(b.sc.Faults), modelFuel).cbs)
	cbs = slices.DeleteFunc(cbs, func(c cbRec) bool { return c.e < 0 })
	if len(cbs) == 0 {
		return
	}
	f := Fault{Op: op.ID, G: g, K: "move", N: b.r.n(1000), Any: pick(b.r, []int{5, 30, 60, 100})}
	f.Rule, f.Text = pick(b.r, cbs).rule, pick(b.r, b.abc[g])
	b.sc.Faults = append(b.sc.Faults, f)
}

func (b *builder) someGrammar() *GSpec {
	if b.r.p(30) {
		return genLR(b.r)
	}
	return genGrammar(b.r, swarmCfg(b.r))
}

func describeScenario(sc *Scenario) string {
	var b strings.Builder
	for i, g := range sc.Gs {
		fmt.Fprintf(&b, "grammar %d %q:\n%s", i, g.Name, g)
	}
	op := func(o Op) {
		fmt.Fprintf(&b, "  #%d %s slot=%d g=%d", o.ID, o.Kind, o.Slot, o.G)
		if o.Text != "" || o.Bytes != nil {
			t := o.text()
			if len(t) > 120 {
				t = t[:120] + "..."
			}
			fmt.Fprintf(&b, " text=%q", t)
		}
		for _, x := range []struct {
			ok bool
			s  string
		}{{o.EnvTr, "traces from the environment"}, {o.Lazy != "", "compiler " + o.Lazy}, {o.Lines > 0, fmt.Sprint("lines ", o.Lines)}, {o.N != 0, fmt.Sprint("n=", o.N)}, {o.Kind == "stream", fmt.Sprint("stream ", o.Stream)}} {
			if x.ok {
				b.WriteString(" " + x.s)
			}
		}
		if o.Debug {
			b.WriteString(" Debug")
		}
		if o.Out != "" {
			b.WriteString(" stdout:" + o.Out)
		}
		if o.Fail != "" {
			b.WriteString(" fail:" + o.Fail)
		}
		if o.Trace != nil {
			fmt.Fprintf(&b, " trace:%+v", *o.Trace)
		}
		b.WriteString("\n")
	}
	if len(sc.Setup) > 0 {
		b.WriteString("setup:\n")
	}
	for _, o := range sc.Setup {
		op(o)
	}
	if l := sc.Lazy; l != nil {
		fmt.Fprintf(&b, "lazy value: %+v\n", *l)
	}
	for i, s := range sc.Streams {
		fmt.Fprintf(&b, "stream %d: %q tokens %q go %v\n", i, s.Orig, s.Tokens, s.Go)
	}
	for i, t := range sc.Tasks {
		fmt.Fprintf(&b, "task %d:\n", i)
		for _, o := range t {
			op(o)
		}
	}
	for _, f := range sc.Faults {
		if f.Any > 0 {
			fmt.Fprintf(&b, "fault: op #%d rule %q, %d of a hundred calls: %s %q n=%d\n", f.Op, f.Rule, f.Any, f.K, f.Text, f.N)
			continue
		}
		fmt.Fprintf(&b, "fault: op #%d rule %s input %x end %d: %s n=%d", f.Op, f.Rule, f.In, f.E, f.K, f.N)
		if f.Text != "" {
			fmt.Fprintf(&b, " slot=%d text=%q", f.Slot, f.Text)
		}
		b.WriteString("\n")
	}
	if sc.Sched.Mode == "replay" {
		fmt.Fprintf(&b, "schedule: %v\n", sc.Sched.Switches)
	} else {
		fmt.Fprintf(&b, "schedule: %+v\n", sc.Sched)
	}
	return b.String()
}
