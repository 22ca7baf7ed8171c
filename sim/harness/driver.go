package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	rt "github.com/grepsuzette/joeson/verifrt"
)

// ---- one evaluation of scenarios in a process of its own ----

// evalResult is what -mode eval prints.
type evalResult struct {
	Viol     *Viol       `json:"viol,omitempty"`
	Switches []rt.Switch `json:"switches,omitempty"`
	Hash     uint64      `json:"hash"`
	Steps    uint64      `json:"steps"`
	Invalid  bool        `json:"invalid,omitempty"`
}

// evalMain runs the scenarios given on stdin one after the other; the last one
// is the one that is reported.
func evalMain() {
	var scs []*Scenario
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&scs); err != nil {
		fmt.Fprintln(os.Stderr, "eval:", err)
		os.Exit(2)
	}
	var res evalResult
	for _, sc := range scs {
		p := props[sc.Prop]
		if p == nil {
			fmt.Fprintln(os.Stderr, "eval: no such property:", sc.Prop)
			os.Exit(2)
		}
		in := newInfo()
		v := runOnce(p, sc, in)
		res = evalResult{Viol: v, Switches: in.switches, Hash: mix(in.hash, in.steps), Steps: in.steps, Invalid: in.invalid}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// crashClass recognises the deaths of a process which the code under test caused.
func crashClass(stderr string) string {
	for _, s := range []string{"stack overflow", "stack exceeds", "concurrent map", "all goroutines are asleep", "out of memory", "unlock of unlocked"} {
		if strings.Contains(stderr, s) {
			return "crash: " + s
		}
	}
	if strings.Contains(stderr, "watchdog:") {
		return ""
	}
	if i := strings.Index(stderr, "panic: "); i >= 0 && !strings.Contains(stderr, "\nmain.gen") {
		return "crash: panic"
	}
	if strings.Contains(stderr, "fatal error: ") {
		return "crash: fatal error"
	}
	return ""
}

// eval runs the scenarios in a new process. err is for trouble which is not
// the doing of the code under test.
func eval(scs []*Scenario, limit time.Duration) (*evalResult, error) {
	b, err := json.Marshal(scs)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-mode", "eval")
	cmd.Stdin = bytes.NewReader(b)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	if ctx.Err() != nil {
		return nil, fmt.Errorf("no answer after %v", limit)
	}
	if err != nil {
		if c := crashClass(e.String()); c != "" {
			return &evalResult{Viol: &Viol{Class: c, Detail: "the process running the scenario died: " + firstLines(e.String(), 12)}}, nil
		}
		return nil, fmt.Errorf("%v: %s", err, firstLines(e.String(), 20))
	}
	r := &evalResult{}
	if err := json.Unmarshal(o.Bytes(), r); err != nil {
		return nil, fmt.Errorf("bad answer: %v", err)
	}
	return r, nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return clip(strings.Join(l, "\n"))
}

// ---- replay files ----

type Replay struct {
	Property string      `json:"property"`
	Seed     uint64      `json:"seed"`
	Run      int         `json:"run"`
	Class    string      `json:"class"`
	Detail   string      `json:"detail"`
	Readable []string    `json:"readable"`
	Runs     []*Scenario `json:"runs"` // executed one after the other; the last one shows the violation
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r, err := eval(rp.Runs, 200*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		return 2
	}
	if r.Viol == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Print(describeScenario(rp.Runs[len(rp.Runs)-1]))
	fmt.Printf("%s: %s\n", r.Viol.Class, r.Viol.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}

// ---- the driver of a check ----

type workerOut struct {
	w      int
	err    error
	stderr string
	reps   []report
	at     int // index of the run in progress, -1 if unknown
}

const nWorkers = 8

func driver(p *prop, seed uint64, tier, evid, known, replays, sites string, wall time.Duration, runs int) int {
	t0 := time.Now()
	n := p.quick
	if tier == "thorough" {
		n = p.thoro
	}
	if runs > 0 {
		n = runs
	}
	fmt.Printf("property %s tier %s seed %d: %d runs\n", p.id, tier, seed, n)
	tmp, err := os.MkdirTemp("", "verif-sim-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan workerOut, nWorkers)
	for w := 0; w < nWorkers; w++ {
		go func(w int) {
			st := filepath.Join(tmp, fmt.Sprint("status", w))
			cmd := exec.CommandContext(ctx, os.Args[0], "-mode", "worker", "-prop", p.id, "-seed", fmt.Sprint(seed),
				"-from", fmt.Sprint(w), "-step", fmt.Sprint(nWorkers), "-to", fmt.Sprint(n), "-status", st, "-wall", wall.String())
			var o, e bytes.Buffer
			cmd.Stdout, cmd.Stderr = &o, &e
			out := workerOut{w: w, err: cmd.Run(), stderr: e.String(), at: -1}
			if b, err := os.ReadFile(st); err == nil && len(b) == 8 {
				out.at = int(binary.LittleEndian.Uint64(b)) - 1
			}
			d := json.NewDecoder(&o)
			for {
				var r report
				if d.Decode(&r) != nil {
					break
				}
				out.reps = append(out.reps, r)
			}
			ch <- out
		}(w)
	}
	total := &stats{Fired: map[string]int{}, Probes: map[string]int{}}
	hashes := map[uint64]bool{}
	var found *report
	var trouble []string
	var crashed []workerOut
	for k := 0; k < nWorkers; k++ {
		o := <-ch
		if ctx.Err() != nil { // ended because of a violation elsewhere
			continue
		}
		if o.err != nil {
			if o.at >= 0 {
				crashed = append(crashed, o)
			}
			trouble = append(trouble, fmt.Sprintf("worker %d ended with %v at run %d: %s", o.w, o.err, o.at, firstLines(o.stderr, 15)))
			continue
		}
		for i := range o.reps {
			r := o.reps[i]
			if r.T == "viol" {
				if found == nil || r.I < found.I {
					found = &r
				}
				cancel()
			}
			if r.T == "stats" && r.Stats != nil {
				total.merge(r.Stats)
				for _, h := range r.Stats.Hashes {
					hashes[h] = true
				}
			}
		}
	}
	cancel()
	code := 0
	var viol *Viol
	if found == nil && len(crashed) > 0 {
		// the run in progress, alone, twice
		for _, o := range crashed {
			sc := genRun(p, seed, o.at)
			r1, e1 := eval([]*Scenario{sc}, 200*time.Second)
			r2, e2 := eval([]*Scenario{sc}, 200*time.Second)
			if e1 == nil && e2 == nil && r1.Viol != nil && r2.Viol != nil && r1.Viol.Class == r2.Viol.Class {
				found = &report{T: "viol", I: o.at, Viol: r1.Viol, Scenario: sc}
				break
			}
			if e1 != nil {
				trouble = append(trouble, fmt.Sprintf("run %d alone: %v", o.at, e1))
			}
		}
		if found == nil {
			code = 2
		}
	} else if found == nil && len(trouble) > 0 {
		code = 2
	}
	if found != nil {
		rp := confirm(p, seed, found, tier)
		if rp == nil {
			fmt.Fprintf(os.Stderr, "run %d reported %s: %s\nbut a new process does not reproduce it\n", found.I, found.Viol.Class, found.Viol.Detail)
			fmt.Fprint(os.Stderr, describeScenario(found.Scenario))
			code = 2
		} else {
			viol = &Viol{rp.Class, rp.Detail}
			code = 1
			path := writeReplay(replays, rp)
			fmt.Printf("run %d (seed %d): %s: %s\n", rp.Run, seed, rp.Class, rp.Detail)
			fmt.Print(describeScenario(rp.Runs[len(rp.Runs)-1]))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		}
	}
	for _, t := range trouble {
		fmt.Fprintln(os.Stderr, t)
	}
	for _, l := range knownFindings(known, p.id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, l)
	}
	same, diff := redo(p, seed, n, total)
	total.Hashes = nil
	writeEvidence(evid, p, seed, tier, n, total, len(hashes), viol, sites, time.Since(t0), same, diff)
	fmt.Printf("property %s: %d runs (%d with other runs of reference), %d operations compared, %d steps, %.0f s simulated, faults %v, preemptions %d, distinct %d, exit %d, %.1f s\n",
		p.id, total.Runs, total.SimRuns, total.Compared, total.Steps, float64(total.Clock)/1e9, sortedMap(total.Fired), total.Preempts, len(hashes), code, time.Since(t0).Seconds())
	if total.Disagree > 0 || total.Inconclusive > 0 || total.Invalid > 0 {
		fmt.Printf("  model disagreements %d, inconclusive %d, invalid %d\n", total.Disagree, total.Inconclusive, total.Invalid)
	}
	for _, s := range total.Notes {
		fmt.Println("  note:", s)
	}
	return code
}

// redo executes a few of the runs again, each in a new process, and compares
// what they recorded: the determinism of the simulation is measured, not
// assumed.
func redo(p *prop, seed uint64, n int, total *stats) (same, diff int) {
	if len(total.First) == 0 {
		return
	}
	for i := range total.First {
		f := total.First[i]
		r, err := eval([]*Scenario{genRun(p, seed, f.I)}, 60*time.Second)
		if err != nil || r.Hash != f.Hash {
			diff++
		} else {
			same++
		}
		if same+diff >= 16 {
			break
		}
	}
	return
}

func sortedMap(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []string
	for _, k := range ks {
		b = append(b, fmt.Sprintf("%s:%d", k, m[k]))
	}
	return "{" + strings.Join(b, " ") + "}"
}

func knownFindings(file, id string) []string {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "finding: property="+id+" "); ok {
			out = append(out, rest)
		}
	}
	return out
}

func writeReplay(dir string, rp *Replay) string {
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(rp, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", rp.Property, hashStr(string(b))&0xffffffff))
	os.WriteFile(path, b, 0o644)
	return path
}

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Nontrivial += o.Nontrivial
	s.Ops += o.Ops
	s.Compared += o.Compared
	s.Modelled += o.Modelled
	s.Steps += o.Steps
	s.SimRuns += o.SimRuns
	s.Clock += o.Clock
	s.Preempts += o.Preempts
	s.Disagree += o.Disagree
	s.Inconclusive += o.Inconclusive
	s.Invalid += o.Invalid
	s.MapRanges += o.MapRanges
	s.Wall += o.Wall
	s.Capped = s.Capped || o.Capped
	for k, n := range o.Fired {
		s.Fired[k] += n
	}
	for k, n := range o.Probes {
		s.Probes[k] += n
	}
	if len(s.Notes) < 5 {
		s.Notes = append(s.Notes, o.Notes...)
	}
	if len(s.Samples) < 4 {
		s.Samples = append(s.Samples, o.Samples...)
	}
	s.First = append(s.First, o.First...)
	s.Log = mix(s.Log, o.Log)
	for i, h := range o.Sites {
		for len(s.Sites) <= i {
			s.Sites = append(s.Sites, 0)
		}
		s.Sites[i] |= h
	}
}

func writeEvidence(path string, p *prop, seed uint64, tier string, n int, st *stats, distinct int, viol *Viol, sites string, wall time.Duration, same, diff int) {
	if path == "" {
		return
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	var sj struct {
		Sites []string       `json:"sites"`
		Level int            `json:"level"`
		Seams map[string]int `json:"seams"`
	}
	if b, err := os.ReadFile(sites); err == nil {
		json.Unmarshal(b, &sj)
	}
	reached := 0
	for _, b := range st.Sites {
		for ; b != 0; b &= b - 1 {
			reached++
		}
	}
	cov := map[string]any{
		"evaluations":                     st.Runs,
		"distinct_nontrivial":             distinct,
		"rule":                            p.rule + "; distinct: counted by a hash of the interleaving (every switch with the number of steps of the task) and of the recorded outcomes, among the non-trivial runs",
		"samples":                         st.Samples,
		"nontrivial_runs":                 st.Nontrivial,
		"planned_runs":                    n,
		"stopped_by_wall_clock":           st.Capped,
		"seeds":                           fmt.Sprintf("VERIF_SEED=%d; one seed per run, derived from it, the property and the run number", seed),
		"runs_per_hour":                   int(float64(st.Runs) / wall.Hours()),
		"simulations_including_reference": st.SimRuns,
		"operations":                      st.Ops,
		"operations_compared":             st.Compared,
		"operations_compared_with_model":  st.Modelled,
		"simulated_steps":                 st.Steps,
		"simulated_seconds":               float64(st.Clock) / 1e9,
		"faults_fired":                    st.Fired,
		"probes":                          st.Probes,
		"preemptions":                     st.Preempts,
		"map_iterations_ordered_by_seed":  st.MapRanges,
		"inconclusive_operations":         st.Inconclusive,
		"invalid_scenarios":               st.Invalid,
		"model_disagreements":             st.Disagree,
		"reexecuted_in_a_new_process":     map[string]int{"same": same, "different": diff},
		"instrumented_statements":         len(sj.Sites),
		"instrumented_statements_reached": reached,
		"instrumentation_level":           sj.Level,
		"seams":                           sj.Seams,
		"real_components":                 "all of the packages of the repository (library, core, helpers, lisp-repl), compiled from the working tree with a scheduling point before every statement",
		"stubs":                           "scheduler, clock, stdout, stdin, environment, exit, locks, map iteration order (verifrt); parse functions are those of the harness",
	}
	if len(st.Notes) > 0 {
		cov["notes"] = st.Notes
	}
	ev := map[string]any{
		"property": p.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": 0,
		"assumptions": []string{
			"a schedule switches tasks between statements (and within x++, x op= y and x = append(x, y)), never inside other expressions or library calls",
			"operations are compared up to the limits of the generators of grammars, texts, faults and schedules; what was not sampled is not decided",
		},
	}
	if viol != nil {
		ev["violations"] = 1
		cov["violation"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

// ---- confirmation and minimisation ----

func sameClass(r *evalResult, err error, class string) bool {
	return err == nil && r != nil && r.Viol != nil && r.Viol.Class == class
}

// confirm reproduces the violation in a new process and minimises it.
func confirm(p *prop, seed uint64, f *report, tier string) *Replay {
	deadline := time.Now().Add(60 * time.Second)
	if tier == "thorough" {
		deadline = time.Now().Add(150 * time.Second)
	}
	rp := &Replay{Property: p.id, Seed: seed, Run: f.I}
	limit := 200 * time.Second
	done := func(scs []*Scenario, v *Viol) *Replay {
		rp.Class, rp.Detail, rp.Runs = v.Class, v.Detail, scs
		rp.Readable = strings.Split(describeScenario(scs[len(scs)-1]), "\n")
		return rp
	}
	one := []*Scenario{f.Scenario}
	r, err := eval(one, limit)
	if !sameClass(r, err, f.Viol.Class) && err == nil && r.Viol != nil {
		f.Viol = r.Viol // another symptom of the same scenario
		r, err = eval(one, limit)
	}
	if sameClass(r, err, f.Viol.Class) {
		m := &minimiser{class: f.Viol.Class, deadline: deadline, best: f.Scenario, viol: r.Viol}
		m.run(r.Switches)
		// what is reported must reproduce
		if r2, err := eval([]*Scenario{m.best}, limit); sameClass(r2, err, m.class) {
			return done([]*Scenario{m.best}, r2.Viol)
		}
		return done(one, r.Viol)
	}
	// the process has a memory: replay it with the runs before it
	for k := 1; ; k *= 2 {
		var scs []*Scenario
		all := true
		for i := f.I - k*nWorkers; i <= f.I; i += nWorkers {
			if i >= 0 {
				scs = append(scs, genRun(p, seed, i))
			}
			if i-nWorkers >= 0 && i == f.I-k*nWorkers {
				all = false
			}
		}
		r, err := eval(scs, limit)
		if err == nil && r.Viol != nil {
			// drop the runs which do not matter
			class := r.Viol.Class
			for size := len(scs) / 2; size >= 1; size /= 2 {
				for at := 0; at+size < len(scs) && time.Now().Before(deadline); {
					c := append(append([]*Scenario{}, scs[:at]...), scs[at+size:]...)
					if rc, err := eval(c, limit); sameClass(rc, err, class) {
						scs, r = c, rc
					} else {
						at += size
					}
				}
			}
			return done(scs, r.Viol)
		}
		if all || time.Now().After(deadline) {
			return nil
		}
	}
}

type minimiser struct {
	class    string
	deadline time.Time
	best     *Scenario
	viol     *Viol
	tried    int
	seedCtr  uint64
}

func cloneScenario(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	var c Scenario
	json.Unmarshal(b, &c)
	return &c
}

func (m *minimiser) over() bool { return time.Now().After(m.deadline) || m.tried > 3000 }

// try keeps c if it shows the same violation.
func (m *minimiser) try(c *Scenario) bool {
	if m.over() {
		return false
	}
	left := time.Until(m.deadline)
	if left > 20*time.Second {
		left = 20 * time.Second
	}
	var cands []*Scenario
	cands = append(cands, c)
	if len(c.Tasks) > 1 {
		for k := 0; k < 3; k++ {
			d := *c
			m.seedCtr++
			r := newRng(m.seedCtr)
			d.Sched = genSched(r, len(c.Tasks))
			if k == 0 && m.best.Sched.Mode != "replay" {
				d.Sched = m.best.Sched
				d.Sched.Seed++
			}
			cands = append(cands, &d)
		}
	}
	type res struct {
		k  int
		ok bool
		v  *Viol
	}
	out := make(chan res, len(cands))
	for k := range cands {
		go func(k int) {
			r, err := eval([]*Scenario{cands[k]}, left)
			if sameClass(r, err, m.class) {
				out <- res{k, true, r.Viol}
			} else {
				out <- res{k, false, nil}
			}
		}(k)
	}
	win := -1
	var v *Viol
	for range cands {
		r := <-out
		if r.ok && (win < 0 || r.k < win) {
			win, v = r.k, r.v
		}
	}
	m.tried++
	if win < 0 {
		return false
	}
	m.best, m.viol = cands[win], v
	return true
}

func (m *minimiser) run(sw []rt.Switch) {
	if len(m.best.Tasks) > 0 {
		for changed := true; changed && !m.over(); {
			changed = m.pass()
		}
		m.schedule()
	}
}

func (m *minimiser) pass() bool {
	changed := false
	edit := func(f func(c *Scenario) bool) bool {
		c := cloneScenario(m.best)
		if !f(c) {
			return false
		}
		if m.try(c) {
			changed = true
			return true
		}
		return false
	}
	// tasks
	for t := len(m.best.Tasks) - 1; t >= 0 && len(m.best.Tasks) > 1; t-- {
		edit(func(c *Scenario) bool {
			c.Tasks = append(c.Tasks[:t:t], c.Tasks[t+1:]...)
			return true
		})
	}
	// operations, by halves then one by one
	for t := 0; t < len(m.best.Tasks); t++ {
		for size := (len(m.best.Tasks[t]) + 1) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(m.best.Tasks[t]); {
				if !edit(func(c *Scenario) bool {
					if len(c.Tasks) == 1 && len(c.Tasks[0]) <= size {
						return false
					}
					c.Tasks[t] = append(c.Tasks[t][:at:at], c.Tasks[t][at+size:]...)
					return true
				}) {
					at += size
				}
			}
		}
	}
	for t := len(m.best.Tasks) - 1; t >= 0; t-- {
		if len(m.best.Tasks[t]) == 0 && len(m.best.Tasks) > 1 {
			edit(func(c *Scenario) bool { c.Tasks = append(c.Tasks[:t:t], c.Tasks[t+1:]...); return true })
		}
	}
	// faults
	for size := (len(m.best.Faults) + 1) / 2; size >= 1; size /= 2 {
		for at := 0; at+size <= len(m.best.Faults); {
			if !edit(func(c *Scenario) bool {
				c.Faults = append(c.Faults[:at:at], c.Faults[at+size:]...)
				return true
			}) {
				at += size
			}
		}
	}
	if m.best.MapSeed != 0 {
		edit(func(c *Scenario) bool { c.MapSeed = 0; return true })
	}
	// texts
	for t := range m.best.Tasks {
		for k := range m.best.Tasks[t] {
			for size := len([]rune(m.best.Tasks[t][k].Text)) / 2; size >= 1; size /= 2 {
				for at := 0; at+size <= len([]rune(m.best.Tasks[t][k].Text)) && !m.over(); {
					if !edit(func(c *Scenario) bool {
						rs := []rune(c.Tasks[t][k].Text)
						c.Tasks[t][k].Text = string(append(rs[:at:at], rs[at+size:]...))
						return true
					}) {
						at += size
					}
				}
				if size > 8 && size < 16 {
					size = 8
				}
			}
			edit(func(c *Scenario) bool {
				o := &c.Tasks[t][k]
				if !o.Debug && o.Out == "" && o.Trace == nil {
					return false
				}
				o.Debug, o.Out = false, ""
				return true
			})
		}
	}
	// grammars
	for g := range m.best.Gs {
		if m.best.Gs[g].Style != 0 && !m.over() {
			edit(func(c *Scenario) bool { c.Gs[g].Style = 0; return true })
		}
		for i := 0; i < len(m.best.Gs[g].Rules) && !m.over(); {
			if !edit(func(c *Scenario) bool {
				r := c.Gs[g].Rules
				if len(r) < 2 {
					return false
				}
				c.Gs[g].Rules = append(r[:i:i], r[i+1:]...)
				return sensible(c.Gs[g])
			}) {
				i++
			}
		}
		for i := 0; i < m.nexprs(g) && !m.over(); i++ {
			for h := 0; h < 6; h++ {
				if !edit(func(c *Scenario) bool { return shrinkExpr(c.Gs[g], i, h) && sensible(c.Gs[g]) }) {
					if h > 3 {
						break
					}
				}
			}
		}
	}
	return changed
}

func (m *minimiser) nexprs(g int) int {
	n := 0
	m.best.Gs[g].walk(func(r *Rule) { r.Body.walk(func(*Expr) { n++ }) })
	return n
}

// shrinkExpr simplifies the i-th expression of g in the h-th way.
func shrinkExpr(g *GSpec, i, h int) bool {
	n, ok := 0, false
	g.walk(func(r *Rule) {
		r.Body.walk(func(e *Expr) {
			n++
			if n-1 != i || ok {
				return
			}
			switch e.Op {
			case "seq", "alt":
				if h < len(e.K) {
					if len(e.K) > 2 {
						e.K = append(e.K[:h:h], e.K[h+1:]...)
						ok = true
					} else if e.Label == "" {
						k := e.K[1-h%2]
						*e = *k
						ok = true
					}
				}
			case "opt", "rep", "look":
				if h == 0 && e.Label == "" {
					*e = *e.K[0]
					ok = true
				}
			}
		})
	})
	return ok
}

// sensible: every reference is defined, and there is a top
func sensible(g *GSpec) bool {
	in := analyse(g)
	ok, top := true, false
	g.walk(func(r *Rule) {
		r.Body.walk(func(e *Expr) {
			if e.Op == "ref" && in.rules[e.S] == nil {
				ok = false
			}
			if (e.Op == "seq" || e.Op == "alt") && len(e.K) < 2 {
				ok = false
			}
		})
	})
	for _, r := range g.Rules {
		if r.O {
			top = true
		}
	}
	if !ok || !top {
		return false
	}
	// what the grammars are documented for
	c := g.clone()
	if len(g.LR) == 0 {
		for n := range in.rules {
			if in.leftRec(n) {
				return false
			}
		}
		bad := false
		c.walk(func(r *Rule) {
			r.Body.walk(func(e *Expr) {
				if e.Op == "rep" && (in.nullable(e.K[0]) || len(e.K) > 1 && in.nullable(e.K[1])) {
					bad = true
				}
			})
		})
		return !bad
	}
	return true
}

// schedule turns the generated schedule into the list of its switches, and
// drops those which do not matter.
func (m *minimiser) schedule() {
	r, err := eval([]*Scenario{m.best}, 60*time.Second)
	if !sameClass(r, err, m.class) {
		return
	}
	if m.best.Sched.Mode != "replay" {
		c := cloneScenario(m.best)
		c.Sched = Sched{Mode: "replay", Switches: r.Switches}
		rr, err := eval([]*Scenario{c}, 60*time.Second)
		if !sameClass(rr, err, m.class) {
			return
		}
		m.best, m.viol = c, rr.Viol
	}
	if len(m.best.Tasks) < 2 {
		c := cloneScenario(m.best)
		c.Sched.Switches = nil
		if rr, err := eval([]*Scenario{c}, 60*time.Second); sameClass(rr, err, m.class) {
			m.best, m.viol = c, rr.Viol
		}
		return
	}
	for size := (len(m.best.Sched.Switches) + 1) / 2; size >= 1; size /= 2 {
		for at := 0; at+size <= len(m.best.Sched.Switches) && !m.over(); {
			c := cloneScenario(m.best)
			s := c.Sched.Switches
			c.Sched.Switches = append(s[:at:at], s[at+size:]...)
			rr, err := eval([]*Scenario{c}, 20*time.Second)
			m.tried++
			if sameClass(rr, err, m.class) {
				m.best, m.viol = c, rr.Viol
			} else {
				at += size
			}
		}
	}
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }
