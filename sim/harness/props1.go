package main

func tasksOf(b *builder, nt int, op func(t int) Op, nops func() int) {
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := nops(); k > 0; k-- {
			ops = append(ops, op(t))
		}
		b.sc.Tasks = append(b.sc.Tasks, ops)
	}
	b.sc.Sched = genSched(b.r, nt)
	if b.r.p(50) {
		b.sc.MapSeed = b.r.u64()
	}
}

func init() {
	register(&prop{
		id: "C01", quick: 3000, thoro: 60000,
		rule: "seeded scenarios: 2-8 tasks parse with 1-2 shared grammars (random PEG and left recursive ones) under a random schedule, with rejections, stalls, panics, exits and nested parses injected in parse functions; each outcome (value, origins, message, calls) is compared with the same operation alone; non-trivial: a preemption happened and a parse function was called",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C01", "shared")
			tiny := r.p(25)
			if tiny {
				b.big = 0
			}
			n := 1
			if r.p(25) {
				n = 2
			}
			for i := 0; i < n; i++ {
				var tr *TraceSpec
				if r.p(8) {
					tr = &TraceSpec{Stack: r.p(50), Loop: r.p(50), Line: r.in(-1, 1)}
				}
				b.setup(b.add(b.someGrammar()), tr)
			}
			nt := pick(r, []int{2, 2, 2, 3, 3, 4, 8})
			nested := r.p(20)
			tasksOf(b, nt, func(int) Op {
				o := b.parse(r.n(n))
				if tiny && len(o.Text) > 6 {
					o.Text = string([]rune(o.Text)[:3])
				}
				if r.p(6) {
					o.Debug = true
				}
				if r.p(60) {
					ks := []string{"reject", "reject", "stall", "stall", "rejmove", "move"}
					if nested {
						ks = append(ks, "nested", "nested", "nested")
					}
					if r.p(20) {
						ks = append(ks, "panic", "goexit")
					}
					b.faultsFor(&o, ks, r.in(1, 5))
				}
				return o
			}, func() int { return r.in(1, 3) })
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			v := soloCompare(sc, w, in, cmp{})
			in.nontrivial = in.nontrivial && in.preempts > 0
			return v
		},
	})

	register(&prop{
		id: "C03", quick: 2500, thoro: 60000,
		rule: "seeded histories of 3-25 parses with one or two grammars (successes, failures, panics, exits, traced parses, token streams, nested parses); each is compared with the same parse by a freshly compiled grammar; non-trivial: a parse function was called after a failed or aborted parse",
		gen: func(r *rng) *Scenario {
			b := newBuilder(r, "C03", "history")
			n := 1
			if r.p(20) {
				n = 2
			}
			for i := 0; i < n; i++ {
				b.setup(b.add(b.someGrammar()), nil)
			}
			var texts []string
			times := r.p(4) // a long history
			tasksOf(b, 1, func(int) Op {
				o := b.parse(r.n(n))
				if times && r.p(40) {
					often(r, &o)
				}
				if len(texts) > 0 && r.p(35) {
					o.Text = pick(r, texts) // again
				}
				texts = append(texts, o.Text)
				if r.p(10) {
					o.Debug = true
				}
				if r.p(60) {
					b.faultsFor(&o, []string{"reject", "reject", "panic", "goexit", "nested", "rejmove", "move"}, r.in(1, 3))
				}
				return o
			}, func() int {
				if r.p(5) {
					return r.in(15, 60)
				}
				return r.in(3, 9)
			})
			return b.sc
		},
		check: func(sc *Scenario, in *info) *Viol {
			w := runAll(sc, in)
			if w == nil {
				return nil
			}
			return soloCompare(sc, w, in, cmp{})
		},
	})
}

// often: the same operation many times
func often(r *rng, o *Op) {
	if len(o.Text) > 12 {
		o.Text = string([]rune(o.Text)[:4])
	}
	o.Times = pick(r, []int{10, 70, 140, 300, 600})
}
