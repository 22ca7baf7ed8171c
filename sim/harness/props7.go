package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	rt "github.com/grepsuzette/joeson/verifrt"
)

// ---- C02: data races ----

// raceLog: where the race detector writes (GORACE=log_path=...)
func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return ""
}

var raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(\)\n      (\S+):(\d+)`)

// raceText: the two accesses of the first report after byte from
func raceText(from int) string {
	b, err := os.ReadFile(raceLog())
	if err != nil || from > len(b) {
		return ""
	}
	var out []string
	text := string(b[from:])
	if i := strings.Index(text[min(20, len(text)):], "WARNING: DATA RACE"); i >= 0 {
		text = text[:i+20]
	}
	for _, part := range strings.Split(text, "\n\n") {
		head := ""
		for _, l := range strings.Split(part, "\n") {
			if strings.Contains(l, " by ") && strings.HasSuffix(l, ":") {
				head = strings.Fields(strings.TrimPrefix(l, "Previous "))[0]
			}
		}
		if head == "" {
			continue
		}
		for _, m := range raceFrame.FindAllStringSubmatch(part, -1) {
			if strings.Contains(m[1], "grepsuzette/joeson") && !strings.Contains(m[1], "verifrt") {
				out = append(out, strings.ToLower(head)+" in "+m[1])
				break
			}
		}
	}
	return strings.Join(out, "; ")
}

func raceLogSize() int {
	if fi, err := os.Stat(raceLog()); err == nil {
		return int(fi.Size())
	}
	return 0
}

func genRace(r *rng) *Scenario {
	b := newBuilder(r, "C02", "race")
	if b.big > 30 {
		b.big = 30
	}
	n := r.in(1, 2)
	for i := 0; i < n; i++ {
		g := b.someGrammar()
		if r.p(15) {
			traceRules(r, g)
		}
		var tr *TraceSpec
		if r.p(12) {
			tr = genTrace(r)
			if r.p(50) {
				tr.Share = 1
			}
		}
		b.setup(b.add(g), tr)
	}
	extra := -1
	if r.p(50) { // a grammar compiled by the tasks
		g := b.someGrammar()
		if r.p(30) {
			traceRules(r, g)
		}
		extra = b.add(g)
	}
	go0 := r.p(30)
	nt := pick(r, []int{2, 2, 2, 3, 4})
	compiler := pick(r, []string{"c0", "c1", "c2", "fresh", "", "", "c0!"})
	own := map[int]int{}
	tasksOf(b, nt, func(t int) Op {
		k := r.n(100)
		switch {
		case extra >= 0 && k < 25:
			o := b.compileOp(extra)
			o.Lazy = compiler
			if r.p(70) {
				o.Lines = 1
			}
			if r.p(30) {
				o.Trace = genTrace(r)
				o.Trace.Share = r.n(2)
				if o.Trace.Share > 0 && len(b.sc.Setup) > 0 && b.sc.Setup[0].Trace != nil && b.sc.Setup[0].Trace.Share > 0 {
					*o.Trace = *b.sc.Setup[0].Trace
				}
			}
			own[t] = o.Slot
			return o
		case k < 35 && go0:
			return Op{ID: b.nid(), Kind: "gocode", Text: goSource(r, pick(r, []int{0, 10})), N: r.n(2)}
		case k < 39:
			return Op{ID: b.nid(), Kind: "rules", Slot: r.n(n)}
		case k < 43 && n > 0:
			return Op{ID: b.nid(), Kind: "sleep", N: r.in(1, 30)}
		}
		s := r.n(n)
		if x, ok := own[t]; ok && r.p(50) {
			s = x
		}
		o := b.parse(s)
		o.Debug = r.p(12)
		o.SkipLog = r.p(5)
		if r.p(40) {
			b.faultsFor(&o, []string{"reject", "reject", "stall", "nested", "nested", "rejmove", "move", "panic", "goexit"}, r.in(1, 3))
		}
		return o
	}, func() int { return r.in(1, 3) })
	b.sc.Sched = genSchedLong(r, nt)
	return b.sc
}

func checkRace(sc *Scenario, in *info) *Viol {
	if !rt.Race {
		panic("C02 needs the race detector")
	}
	w := start(sc, in)
	if w == nil {
		return nil
	}
	n0, at := rt.RaceErrors(), raceLogSize()
	res := w.runTasks(sc.Tasks, sc.Sched)
	n := rt.RaceErrors() - n0
	in.switches = res.Switches
	in.hash = mix(in.hash, res.Hash)
	in.steps += res.Steps
	for _, s := range res.Switches {
		if s.K == "p" {
			in.preempts++
		}
	}
	in.nontrivial = in.preempts > 0
	kinds := map[string]bool{}
	for _, r := range w.res {
		if r != nil {
			in.ops++
			in.compared++
			kinds[r.Op.Kind] = true
			in.hash = mix(mix(in.hash, hashStr(r.Canon)), r.Steps)
			if r.Aborted {
				in.inconclusive++
			}
		}
	}
	for k := range kinds {
		in.probe("runs with " + k)
	}
	in.absorb(w)
	if n > 0 {
		return &Viol{"race", fmt.Sprintf("%d data races: %s", n, raceText(at))}
	}
	return nil
}

func init() {
	register(&prop{
		id: "C02", race: true, quick: 320, thoro: 20000,
		rule:  "seeded scenarios: 2-4 tasks parse with shared grammars, compile (also from the same lines, with a shared lazily made compiler grammar and shared trace options), tokenize Go code and list rules, with rejections, stalls, nested parses, panics and exits in parse functions, under a random schedule, while the race detector watches the memory accesses of the library; only the synchronization of the code under test orders accesses of different tasks; non-trivial: a preemption happened",
		gen:   genRace,
		check: checkRace,
	})
}
