package main

import (
	"slices"

	j "github.com/grepsuzette/joeson"
	rt "github.com/grepsuzette/joeson/verifrt"
)

// Sched says how the schedule of the tasks is decided: by a seeded generator,
// or by the recorded list of switches.
type Sched struct {
	Mode     string      `json:"mode,omitempty"` // uniform, few, hot, replay
	Seed     uint64      `json:"seed,omitempty"`
	Mean     int         `json:"mean,omitempty"`
	Est      uint64      `json:"est,omitempty"`
	K        int         `json:"k,omitempty"`
	Switches []rt.Switch `json:"switches,omitempty"`
}

func genSched(r *rng, ntasks int) Sched {
	s := Sched{Seed: r.u64()}
	switch k := r.n(10); {
	case k < 5:
		s.Mode, s.Mean = "uniform", pick(r, []int{4, 15, 60, 60, 250, 250, 1000, 5000})
	case k < 7:
		s.Mode, s.K, s.Mean = "few", r.in(1, 5), pick(r, []int{1000, 10000, 40000})
	default:
		s.Mode, s.K, s.Mean = "hot", r.in(1, 12), pick(r, []int{500, 5000, 1 << 30})
	}
	return s
}

// genSchedLong: for runs of millions of steps
func genSchedLong(r *rng, ntasks int) Sched {
	s := genSched(r, ntasks)
	if s.Mode == "uniform" {
		s.Mean = pick(r, []int{60, 250, 1000, 5000, 20000, 100000})
	}
	return s
}

type chooser struct {
	r    *rng
	mode string
	mean int
	hotP int
	at   []uint64 // few: total steps at which to switch
	tot  uint64
}

func (c *chooser) NextPreempt(task int) uint64 {
	if c.mean >= 1<<30 {
		return 1 << 40
	}
	// roughly geometric: a mix of short and long
	n := uint64(1 + c.r.n(2*c.mean))
	if c.r.p(10) {
		n = uint64(1 + c.r.n(3))
	}
	return n
}

func (c *chooser) Preempt(task int, runnable []int, hot bool) int {
	if hot && !c.r.p(c.hotP) {
		return -1
	}
	if c.mode == "few" && c.r.p(30) {
		return -1
	}
	return pick(c.r, runnable)
}

func (c *chooser) Pick(task int, runnable []int) int { return pick(c.r, runnable) }

var writes struct {
	done  bool
	sites []uint32
}

// parseWrites: the statements which write in parts of grammars when all the
// grammar computes once has been computed: where two parses could meet.
func parseWrites() []uint32 {
	if !writes.done {
		writes.done = true
		sharedCompiler()
		save := rt.SiteHits
		w := &World{sc: &Scenario{}}
		for i := 0; i < 40; i++ {
			r := newRng(uint64(i), 0x77a2)
			g := genGrammar(r, swarmCfg(r))
			if i%6 == 0 {
				g = genLR(r)
			}
			w.sc.Gs = append(w.sc.Gs, g)
			gm := j.GrammarWithOptionsFromLines(g.Name, j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: processCompiler}, w.buildLines(i))
			for k := 0; k < 2; k++ {
				rt.SiteHits = [1 << 16]uint8{}
				w.budget = 1 << 20
				w.runSpecial(func(*taskState) {
					defer func() { recover() }()
					for n := uint64(0); n < 6; n++ {
						gm.ParseString(genText(newRng(n, uint64(i)), g, analyse(g), 20))
					}
				})
			}
			for _, s := range rt.WriteSites {
				if rt.SiteHits[s] != 0 && !slices.Contains(writes.sites, s) {
					writes.sites = append(writes.sites, s)
				}
			}
			for k, h := range rt.SiteHits {
				save[k] |= h
			}
		}
		rt.SiteHits = save
	}
	return writes.sites
}

func (s *Sched) config() rt.Config {
	if s.Mode == "replay" {
		return rt.Config{Switches: s.Switches}
	}
	r := newRng(s.Seed)
	c := &chooser{r: r, mode: s.Mode, mean: s.Mean, hotP: pick(r, []int{10, 30, 60})}
	cfg := rt.Config{Chooser: c}
	if s.Mode == "hot" {
		sites := rt.SharedSites
		if r.p(40) && len(parseWrites()) > 0 {
			sites = parseWrites()
		}
		shared := len(sites) > 0 && r.p(50)
		for i := 0; i < s.K; i++ {
			if shared && r.p(80) {
				cfg.Hot = append(cfg.Hot, pick(r, sites))
			} else {
				cfg.Hot = append(cfg.Hot, uint32(1+r.n(rt.NumSites)))
			}
		}
	}
	return cfg
}
