package main

import (
	"fmt"
	"strings"

	rt "github.com/grepsuzette/joeson/verifrt"
)

// Viol is a violation of the property of the scenario.
type Viol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// info is what one run covered.
type info struct {
	hash         uint64
	steps        uint64
	ops          int
	nontrivial   bool
	fired        map[string]int
	switches     []rt.Switch
	preempts     int
	disagree     int
	inconclusive int
	invalid      bool
	notes        []string
	probes       map[string]int
	compared     int
	modelled     int
	log          []string
}

var keepLog bool

func newInfo() *info { return &info{fired: map[string]int{}, probes: map[string]int{}} }

func (in *info) probe(k string) { in.probes[k]++ }

func (in *info) absorb(w *World) {
	for k, n := range w.fired {
		in.fired[k] += n
	}
	if w.outFaults > 0 {
		in.fired["stdout"] += w.outFaults
	}
}

type prop struct {
	id    string
	race  bool
	rule  string
	quick int // runs
	thoro int
	gen   func(r *rng) *Scenario
	check func(sc *Scenario, in *info) *Viol
}

var props = map[string]*prop{}

func register(p *prop) { props[p.id] = p }

// start builds the world of sc and runs its setup. nil when the setup fails.
func start(sc *Scenario, in *info) *World {
	w := newWorld(sc)
	if len(sc.Setup) > 0 {
		w.runSetup()
		for _, o := range sc.Setup {
			r := w.res[o.ID]
			if r == nil || !strings.HasPrefix(r.Canon, "compiled") && o.Kind == "compile" {
				in.invalid = true
				if r != nil {
					in.notes = append(in.notes, "setup: "+r.Canon)
				}
				return nil
			}
		}
	}
	return w
}

// runAll executes the scenario.
func runAll(sc *Scenario, in *info) *World {
	w := start(sc, in)
	if w == nil {
		return nil
	}
	res := w.runTasks(sc.Tasks, sc.Sched)
	in.switches = res.Switches
	in.hash = mix(in.hash, res.Hash)
	for _, r := range w.res {
		if r != nil {
			st := r.Steps
			in.hash = mix(mix(in.hash, hashStr(r.Full)), st)
			if keepLog {
				in.log = append(in.log, fmt.Sprintf("op %d: %d steps: %q", r.Op.ID, r.Steps, r.Full))
			}
		}
	}
	in.steps += res.Steps
	for _, s := range res.Switches {
		if s.K == "p" {
			in.preempts++
		}
	}
	for _, t := range sc.Tasks {
		in.ops += len(t)
	}
	in.absorb(w)
	return w
}

// soloScenario: operation k of task t, alone, with what it depends on: the
// compilation of the grammar it uses, under the environment of then.
func soloScenario(sc *Scenario, t, k int) *Scenario {
	op := sc.Tasks[t][k]
	s := &Scenario{Prop: sc.Prop, Gs: sc.Gs, Faults: sc.Faults, Streams: sc.Streams, MapSeed: sc.MapSeed, Sched: Sched{Mode: "replay"}}
	if op.Kind != "compile" {
		slots := map[int]bool{op.Slot: true}
		for ch := true; ch; { // nested parses can be faulty as well
			ch = false
			for _, f := range sc.Faults {
				if f.K == "nested" && !slots[f.Slot] && (f.Op == op.ID || f.Op <= nestedID) {
					slots[f.Slot] = true
					ch = true
				}
			}
		}
		ops := append(append([]Op{}, sc.Setup...), sc.Tasks[t][:k]...)
		ns := len(sc.Setup)
		last := map[int]int{}
		for i, o := range ops {
			if o.Kind == "compile" && slots[o.Slot] {
				last[o.Slot] = i
			}
		}
		for i, o := range ops {
			if at, ok := last[o.Slot]; ok && at == i && o.Kind == "compile" {
				dep := []Op{}
				if e := envBefore(ops[:i]); e != nil && o.EnvTr {
					dep = append(dep, *e)
				}
				dep = append(dep, plainCompile(o))
				if i < ns {
					s.Setup = append(s.Setup, dep...)
				} else {
					s.Tasks = [][]Op{append(taskOf(s), dep...)}
				}
			}
		}
	} else if op.EnvTr {
		if e := envBefore(append(append([]Op{}, sc.Setup...), sc.Tasks[t][:k]...)); e != nil {
			s.Tasks = [][]Op{{*e}}
		}
	}
	if op.Kind == "compile" {
		op = plainCompile(op)
	}
	op.Times = 0
	s.Tasks = [][]Op{append(taskOf(s), op)}
	return s
}

func taskOf(s *Scenario) []Op {
	if len(s.Tasks) == 0 {
		return nil
	}
	return s.Tasks[0]
}

func envBefore(ops []Op) *Op {
	for i := len(ops) - 1; i >= 0; i-- {
		if ops[i].Kind == "setenv" {
			return &ops[i]
		}
	}
	return nil
}

// plainCompile: with the ready-made compiler grammar, unless the traces of
// making one are wanted, or the message of the same compiler grammar
func plainCompile(o Op) Op {
	switch {
	case o.Lazy == "fresh" && o.Trace != nil:
	case o.Fail != "" && strings.HasPrefix(o.Lazy, "c"):
	default:
		o.Lazy = ""
	}
	return o
}

func runSolo(sc *Scenario, t, k int) *OpRes {
	s := soloScenario(sc, t, k)
	in := newInfo()
	w := start(s, in)
	if w == nil {
		return nil
	}
	w.runTasks(s.Tasks, s.Sched)
	return w.res[sc.Tasks[t][k].ID]
}

// modelOf predicts the outcome of a parse; "" when it cannot.
func modelOf(sc *Scenario, mg []*mgram, op *Op, fs *faultSet) *mres {
	g := slotGrammar(sc, op)
	if g < 0 {
		return nil
	}
	text := op.text()
	switch op.Kind {
	case "parse", "tokens":
	case "stream":
		if sc.Streams[op.Stream].Go {
			return nil
		}
		text = strings.Join(sc.Streams[op.Stream].Tokens, "")
	default:
		return nil
	}
	r := mg[g].parse(text, op.ID, fs, modelFuel)
	if r.kind == "fuel" {
		return nil
	}
	return &r
}

func slotGrammar(sc *Scenario, op *Op) int {
	for _, o := range sc.Setup {
		if o.Kind == "compile" && o.Slot == op.Slot {
			return o.G
		}
	}
	for _, t := range sc.Tasks {
		for _, o := range t {
			if o.Kind == "compile" && o.Slot == op.Slot {
				if strings.HasPrefix(o.Fail, "undef") {
					return -1 // it has a rule which the reference interpreter does not know
				}
				return o.G
			}
		}
	}
	return -1
}

func models(sc *Scenario) []*mgram {
	var m []*mgram
	for i, g := range sc.Gs {
		m = append(m, newMGram(g, i))
	}
	return m
}

func opLine(o *Op) string {
	t := o.text()
	if len(t) > 200 {
		t = t[:200] + "..."
	}
	return fmt.Sprintf("op #%d (%s %q)", o.ID, o.Kind, t)
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 200
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d: got %q, want %q", i, cut(a), cut(b))
}

// endOfRun reports what no property allows: deadlock, runaway operations.
func endOfRun(sc *Scenario, w *World, in *info) *Viol {
	if w.sim.Deadlock != "" {
		return &Viol{"deadlock", w.sim.Deadlock}
	}
	return nil
}

// what is compared, besides values, messages and calls with those of the
// operation alone
type cmp struct {
	out   bool      // what was printed
	model bool      // value against the reference interpreter
	calls bool      // the calls as well
	noRef bool      // not with the operation alone
	ref   *Scenario // the operations alone are those of this one
}

// soloCompare: every operation gives what it gives alone on fresh grammars.
func soloCompare(sc *Scenario, w *World, in *info, c cmp) *Viol {
	if v := endOfRun(sc, w, in); v != nil {
		return v
	}
	mg := models(sc)
	fs := newFaultSet(sc.Faults)
	for t := range sc.Tasks {
		for k := range sc.Tasks[t] {
			op := &sc.Tasks[t][k]
			switch op.Kind {
			case "setenv", "sleep", "mutate", "bomb":
				continue
			}
			if v := soloCompareOne(sc, w, in, c, t, k, mg, fs); v != nil {
				return v
			}
		}
	}
	return nil
}

func soloCompareOne(sc *Scenario, w *World, in *info, c cmp, t, k int, mg []*mgram, fs *faultSet) *Viol {
	op := &sc.Tasks[t][k]
	got := w.res[op.ID]
	if op.Kind == "compile" && strings.HasSuffix(op.Lazy, "!") && got != nil && strings.Contains(got.Canon, errLazy.Error()) {
		return nil // the fault of this compilation; counted by the caller
	}
	if got == nil {
		// its task was ended by the simulator in an earlier operation
		in.inconclusive++
		return nil
	}
	if got.Odd != "" {
		return &Viol{"repeated", opLine(op) + " " + got.Odd}
	}
	if got.Canon == "no grammar" && failedBefore(sc, w, t, k, op.Slot) {
		return nil
	}
	var want *OpRes
	if c.noRef {
		if got.Aborted {
			m := modelOf(sc, mg, op, fs)
			if m != nil && tooLong(sc, m, op, w.budget) {
				return &Viol{"hang", opLine(op) + fmt.Sprintf(" does not end within the step budget; the reference interpreter evaluates %d nodes", m.ev)}
			}
			in.inconclusive++
			return nil
		}
	} else {
		ref := sc
		if c.ref != nil {
			ref = c.ref
		}
		want = runSolo(ref, t, k)
		if want == nil || want.Aborted {
			in.inconclusive++
			return nil
		}
		if got.Aborted {
			if want.Steps*20 < w.budget {
				return &Viol{"hang", opLine(op) + " does not end within the step budget; alone it takes " + fmt.Sprint(want.Steps) + " steps"}
			}
			in.inconclusive++
			return nil
		}
	}
	in.compared++
	if want != nil && got.Full != want.Full {
		return &Viol{"differs", opLine(op) + " differs from the same operation alone: " + diffText(got.Full, want.Full)}
	}
	if want != nil && c.out && got.Out != want.Out {
		return &Viol{"output", opLine(op) + " prints something else than alone: " + diffText(got.Out, want.Out)}
	}
	if len(got.Log) > 0 {
		in.nontrivial = true
	}
	m := modelOf(sc, mg, op, fs)
	if m == nil {
		return nil
	}
	in.modelled++
	if m.String() != got.Canon {
		if c.model {
			return &Viol{"model", opLine(op) + " gives " + clip(got.Canon) + " but it should give " + clip(m.String())}
		}
		// the reference itself can be wrong if the process has a memory:
		// the model does not share it
		in.disagree++
		if v := confirmFresh(sc, t, k, got, m, in); v != nil {
			return v
		}
	} else if c.calls {
		if v := compareCalls(sc, op, got, m); v != nil {
			return v
		}
	}
	return nil
}

// spread: an error may look at what is memoized: all the rules, everywhere
func spread(g *GSpec, n int) uint64 {
	k := 2
	g.walk(func(*Rule) { k++ })
	return uint64(k) * uint64(n)
}

// tooLong: the reference interpreter evaluates so few nodes that this parse
// cannot need all of its step budget. An evaluation may cost some statements
// per token of a token stream, so the length of the text counts as well.
func tooLong(sc *Scenario, m *mres, op *Op, budget uint64) bool {
	n := len(op.text())
	k := uint64(m.ev) * uint64(300+4*n)
	if n >= 20000 { // few evaluations
		k = uint64(m.ev+n/20) * 300
	}
	if g := slotGrammar(sc, op); g >= 0 {
		k += 6 * spread(sc.Gs[g], n)
	}
	return k < budget
}

// failedBefore: the compilation of this slot failed, as it was asked to
func failedBefore(sc *Scenario, w *World, t, k, slot int) bool {
	for i := k - 1; i >= 0; i-- {
		o := &sc.Tasks[t][i]
		if o.Kind == "compile" && o.Slot == slot {
			return o.Fail != "" || strings.HasSuffix(o.Lazy, "!") && strings.Contains(w.res[o.ID].Canon, errLazy.Error())
		}
	}
	return false
}

// compareCalls: the parse functions were given what they had to be given
// (each call once or more, in any order). Left recursive grammars are left
// out: how often intermediate results are tried is not specified.
func compareCalls(sc *Scenario, op *Op, got *OpRes, m *mres) *Viol {
	g := slotGrammar(sc, op)
	if g < 0 || len(sc.Gs[g].LR) > 0 {
		return nil
	}
	seen := map[cbRec]bool{}
	for _, e := range got.Log {
		c := cbRec{e.Rule, e.In, e.E}
		seen[c] = true
		if !m.cbs[c] {
			return &Viol{"calls", opLine(op) + fmt.Sprintf(": the parse function of %s was called with an unexpected value or position (%x, %d); the value of the parse is right", e.Rule, e.In, e.E)}
		}
	}
	for _, c := range sortedCbs(m.cbs) {
		if !seen[c] {
			return &Viol{"calls", opLine(op) + fmt.Sprintf(": the parse function of %s was not called for (%x, %d); the value of the parse is right", c.rule, c.in, c.e)}
		}
	}
	return nil
}

// confirmFresh: this process and the model disagree; so what does a new
// process say?
func confirmFresh(sc *Scenario, t, k int, got *OpRes, m *mres, in *info) *Viol {
	if freshBudget <= 0 {
		return nil
	}
	freshBudget--
	full, err := freshSolo(soloScenario(sc, t, k))
	if err != nil {
		in.notes = append(in.notes, "fresh process: "+err.Error())
		return nil
	}
	if full != got.Full {
		return &Viol{"process-memory", opLine(got.Op) + " differs from the same operation in a new process: " + diffText(got.Full, full)}
	}
	in.notes = append(in.notes, fmt.Sprintf("model %q, code %q for %s", clip(m.String()), clip(got.Canon), describeScenario(soloScenario(sc, t, k))))
	return nil
}

var freshBudget = 10
