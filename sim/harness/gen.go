package main

import (
	"fmt"
	"slices"
	"strings"
	"unicode/utf8"
)

// ---- analysis of grammars ----

type gInfo struct {
	g     *GSpec
	rules map[string]*Rule
	null  map[string]bool
	left  map[string]map[string]bool // direct left references
	reach map[string]map[string]bool // transitive
}

func analyse(g *GSpec) *gInfo {
	in := &gInfo{g: g, rules: map[string]*Rule{}, null: map[string]bool{}, left: map[string]map[string]bool{}, reach: map[string]map[string]bool{}}
	var names []string
	g.walk(func(r *Rule) {
		if r.Name == "" {
			return
		}
		in.rules[r.Name] = r
		names = append(names, r.Name)
	})
	for ch := true; ch; {
		ch = false
		for _, n := range names {
			if !in.null[n] && in.nullableRule(in.rules[n]) {
				in.null[n] = true
				ch = true
			}
		}
	}
	for _, n := range names {
		m := map[string]bool{}
		in.leftRule(in.rules[n], m)
		in.left[n] = m
	}
	for _, n := range names {
		seen := map[string]bool{}
		var rec func(x string)
		rec = func(x string) {
			for y := range in.left[x] {
				if !seen[y] {
					seen[y] = true
					rec(y)
				}
			}
		}
		rec(n)
		in.reach[n] = seen
	}
	return in
}

func (in *gInfo) nullableRule(r *Rule) bool {
	if r.Sub != nil {
		for _, s := range r.Sub {
			if s.O && in.nullableRule(s) {
				return true
			}
		}
		return false
	}
	return in.nullable(r.Body)
}

func (in *gInfo) nullable(e *Expr) bool {
	switch e.Op {
	case "str":
		return e.S == ""
	case "cls", "re":
		return false
	case "ref":
		return in.null[e.S]
	case "seq":
		for _, k := range e.K {
			if !in.nullable(k) {
				return false
			}
		}
		return true
	case "alt":
		for _, k := range e.K {
			if in.nullable(k) {
				return true
			}
		}
		return false
	case "rep":
		if e.Max == 0 && !e.Plus {
			return true
		}
		if e.Plus || e.Min > 0 {
			return in.nullable(e.K[0])
		}
		return true
	}
	return true // opt not look
}

func (in *gInfo) leftRule(r *Rule, m map[string]bool) {
	if r.Sub != nil {
		for _, s := range r.Sub {
			if s.O {
				if s.Name != "" {
					m[s.Name] = true
				}
				in.leftRule(s, m)
			}
		}
		return
	}
	in.leftExpr(r.Body, m)
}

func (in *gInfo) leftExpr(e *Expr, m map[string]bool) {
	switch e.Op {
	case "ref":
		m[e.S] = true
	case "seq":
		for _, k := range e.K {
			in.leftExpr(k, m)
			if !in.nullable(k) {
				return
			}
		}
	case "alt", "opt", "not", "look":
		for _, k := range e.K {
			in.leftExpr(k, m)
		}
	case "rep":
		in.leftExpr(e.K[0], m)
		if in.nullable(e.K[0]) && len(e.K) > 1 {
			in.leftExpr(e.K[1], m)
		}
	}
}

func (in *gInfo) leftRec(n string) bool { return in.reach[n][n] }

// ---- generation ----

type genCfg struct {
	Rules    int // i rules
	Depth    int // of expressions
	Labels   int // percent of sequence members
	CB       int // percent of rules with a parse function
	Skip     int // percent of rules with SkipCache
	Ranks    int // percent of rules defined as a rank
	Alphabet []string
	Looks    int // percent of lookaheads
	Hidden   int // percent of rules named _x
	Share    int // percent of alternations with a shared prefix
	NoRef    bool
	Marker   bool
	Spaces   bool
	ReOnly   bool
}

var alphabets = [][]string{
	{"a", "b"},
	{"a", "b", "c"},
	{"a", "b", "(", ")"},
	{"a", "b", " ", "\n"},
	{"a", "é", "世"},
	{"x", "😀", "é", ","},
	{"0", "1", "+", "*", "-"},
	{"a", "b", "c", "d", "e", ";"},
	{"'", "\\", "/", "]"},
}

func swarmCfg(r *rng) genCfg {
	c := genCfg{
		Rules: r.in(1, 7), Depth: r.in(1, 3), Labels: pick(r, []int{0, 0, 30, 60}), CB: pick(r, []int{20, 50, 80}),
		Skip: pick(r, []int{0, 0, 0, 20}), Ranks: pick(r, []int{0, 20, 40}), Alphabet: pick(r, alphabets),
		Looks: pick(r, []int{0, 10, 20}), Hidden: pick(r, []int{0, 15}), Share: pick(r, []int{20, 50, 80}),
	}
	if r.p(25) { // texts of several lines
		c.Alphabet = append([]string{"\n"}, c.Alphabet...)
	}
	if r.p(4) {
		c.Rules = r.in(20, 90)
		c.Depth = r.in(1, 2)
	}
	return c
}

type gen struct {
	r     *rng
	c     genCfg
	names []string
	mapl  map[string]bool // names planned as map-like rules
	nlab  int
	order map[string]int
}

func (g *gen) chr() string { return pick(g.r, g.c.Alphabet) }

func reQuote(s string) string {
	return strings.NewReplacer(`\`, `\\`, `]`, `\]`, `[`, `\[`, `^`, `\^`, `-`, `\-`, `/`, `\/`, `(`, `\(`, `)`, `\)`, `*`, `\*`, `+`, `\+`, `.`, `\.`, `?`, `\?`, `|`, `\|`, `$`, `\$`, `{`, `\{`, `}`, `\}`).Replace(s)
}

func (g *gen) term() *Expr {
	switch k := g.r.n(10); {
	case k < 5:
		s := g.chr()
		if g.r.p(25) {
			s += g.chr()
		}
		return &Expr{Op: "str", S: s}
	case k < 9:
		s := ""
		for i := g.r.in(1, 2); i > 0; i-- {
			s += reQuote(g.chr())
		}
		if g.r.p(15) {
			s = "^" + s
		}
		return &Expr{Op: "cls", S: s}
	default:
		s := reQuote(g.chr())
		switch g.r.n(3) {
		case 0:
			s += "+"
		case 1:
			s += reQuote(g.chr()) + "?"
		case 2:
			s = "(" + s + "|" + reQuote(g.chr()) + ")"
		}
		return &Expr{Op: "re", S: s}
	}
}

func (g *gen) ref() *Expr { return &Expr{Op: "ref", S: pick(g.r, g.names)} }

func (g *gen) label() string {
	g.nlab++
	if g.r.p(10) {
		return pick(g.r, []string{"x", "y"})
	}
	return string(rune('a'+g.r.n(8))) + fmt.Sprint(g.r.n(3))
}

// unit: what can be a member of a sequence
func (g *gen) unit(d int) *Expr {
	if d <= 0 {
		if g.c.NoRef || g.r.p(45) {
			return g.term()
		}
		return g.ref()
	}
	k := g.r.n(100)
	switch {
	case k < 25:
		return g.term()
	case k < 60:
		if g.c.NoRef {
			return g.term()
		}
		return g.ref()
	case k < 60+g.c.Looks:
		e := &Expr{Op: pick(g.r, []string{"not", "look"}), K: []*Expr{nil}}
		if e.Op == "look" && g.r.p(50) {
			e.K[0] = g.expr(d - 1)
		} else if g.r.p(30) {
			e.K[0] = g.seq(1)
		} else {
			e.K[0] = g.unit(0)
		}
		return e
	case k < 85:
		return g.rep(d)
	case k < 93:
		if g.r.p(50) {
			return &Expr{Op: "opt", K: []*Expr{g.seq(1)}}
		}
		return &Expr{Op: "opt", K: []*Expr{g.unlabelled(g.unit(d - 1))}}
	}
	return g.expr(d - 1)
}

func (g *gen) rep(d int) *Expr {
	e := &Expr{Op: "rep", Min: -1, Max: -1, K: []*Expr{g.unit(d - 1)}}
	if g.r.p(20) {
		e.K[0] = g.seq(1)
	}
	switch g.r.n(5) {
	case 0:
		e.Plus = true
	case 1:
		e.Min = g.r.in(0, 3)
	case 2:
		e.Min = g.r.in(0, 2)
		e.Max = e.Min + g.r.in(1, 3)
	case 3:
		e.Max = g.r.in(1, 4)
	}
	if g.r.p(35) && !(e.Plus && false) {
		e.K = append(e.K, g.unit(d-1))
	}
	return e
}

func (g *gen) unlabelled(e *Expr) *Expr {
	e.Label = ""
	return e
}

func (g *gen) seq(d int) *Expr {
	e := &Expr{Op: "seq"}
	for i := g.r.in(2, 3); i > 0; i-- {
		u := g.unit(d - 1)
		e.K = append(e.K, u)
	}
	if g.c.Labels > 0 {
		for _, u := range e.K {
			if g.r.p(g.c.Labels) && u.Op != "not" && u.Op != "look" {
				u.Label = g.label()
			}
		}
		if g.r.p(15) {
			// the only labels are those of an optional group
			for _, u := range e.K {
				u.Label = ""
			}
			o := &Expr{Op: "seq", K: []*Expr{g.unit(0), g.unit(0)}}
			pick(g.r, o.K).Label = g.label()
			e.K[g.r.n(len(e.K))] = &Expr{Op: "opt", K: []*Expr{o}}
		}
	}
	return e
}

func (g *gen) alt(d int) *Expr {
	e := &Expr{Op: "alt"}
	n := g.r.in(2, 3)
	var prefix *Expr
	if g.r.p(g.c.Share) {
		prefix = g.unit(0)
		if g.r.p(40) && len(g.maplikes()) > 0 {
			prefix = &Expr{Op: "ref", S: pick(g.r, g.maplikes()), Label: pick(g.r, []string{"@", "&"})}
		} else if g.r.p(g.c.Labels) && prefix.Op != "not" && prefix.Op != "look" {
			prefix.Label = g.label()
		}
	}
	for i := 0; i < n; i++ {
		if prefix != nil {
			s := g.seq(d - 1)
			p := clonex(prefix)
			if p.Label == "@" || p.Label == "&" {
				// others labelled, so that the values are merged
				for _, u := range s.K {
					if u.Op != "not" && u.Op != "look" && g.r.p(70) {
						u.Label = g.label()
					}
				}
			}
			if p.Label == "&" && g.r.p(50) {
				s.K = append(s.K, p)
				p2 := clonex(p)
				p2.Label = "@"
				s.K = append([]*Expr{p2}, s.K...)
			} else {
				s.K = append([]*Expr{p}, s.K...)
			}
			if p.Label == "@" && g.r.p(25) { // another map first
				p2 := &Expr{Op: "ref", S: pick(g.r, g.maplikes()), Label: "@"}
				s.K = append([]*Expr{p2}, s.K...)
			}
			e.K = append(e.K, s)
		} else {
			e.K = append(e.K, g.unlabelledAlt(g.expr1(d-1)))
		}
	}
	return e
}

func (g *gen) unlabelledAlt(e *Expr) *Expr {
	if e.Op == "opt" || e.Op == "alt" {
		// an optional as an alternative hides the following ones; a nested
		// alternation is just the same alternation in parens
		return g.unit(0)
	}
	if g.r.p(g.c.Labels/3) && e.Op != "seq" && e.Op != "not" && e.Op != "look" {
		e.Label = g.label()
	}
	return e
}

func (g *gen) maplikes() []string {
	var o []string
	for _, n := range g.names {
		if g.mapl[n] {
			o = append(o, n)
		}
	}
	return o
}

func (g *gen) expr1(d int) *Expr {
	if g.r.p(60) {
		return g.seq(d)
	}
	return g.unit(d)
}

func (g *gen) expr(d int) *Expr {
	if d <= 0 {
		return g.unit(0)
	}
	if g.r.p(45) {
		return g.alt(d)
	}
	return g.expr1(d)
}

func genGrammar(r *rng, c genCfg) *GSpec {
	g := &gen{r: r, c: c, mapl: map[string]bool{}}
	for i := 0; i < c.Rules; i++ {
		n := fmt.Sprintf("R%d", i)
		if r.p(c.Hidden) {
			n = "_" + n
		} else if c.Labels > 0 && r.p(35) {
			n = fmt.Sprintf("M%d", i)
			g.mapl[n] = true
		}
		g.names = append(g.names, n)
	}
	gs := &GSpec{Name: pick(r, []string{"gm", "lang", "g1"})}
	if r.p(15) {
		gs.Style = r.u64() | 1
	}
	for i := r.in(1, 2); i > 0; i-- {
		b := g.expr(c.Depth)
		if r.p(60) && len(g.names) > 0 {
			b = &Expr{Op: "rep", Min: -1, Max: -1, K: []*Expr{b}}
			if r.p(50) {
				b.Plus = true
			}
		}
		rl := &Rule{O: true, Body: b}
		if r.p(40) {
			rl.Name = fmt.Sprintf("T%d", i)
		}
		g.cb(rl)
		gs.Rules = append(gs.Rules, rl)
	}
	for i, n := range g.names {
		rl := &Rule{Name: n}
		switch {
		case g.mapl[n]:
			s := g.seq(c.Depth - 1)
			ok := false
			for _, u := range s.K {
				if u.Label != "" && u.Op != "opt" {
					ok = true
				}
			}
			if !ok {
				s.K[0] = g.unit(0)
				s.K[0].Label = g.label()
			}
			rl.Body = s
			if r.p(30) {
				rl.CB, rl.Mode = r.in(1, 3), pick(r, []string{"id", "id", "map", "empty"})
			}
		case r.p(c.Ranks):
			for k := r.in(2, 3); k > 0; k-- {
				sub := &Rule{O: true, Body: g.expr1(c.Depth - 1)}
				if r.p(25) {
					sub.Name = fmt.Sprintf("S%d_%d", i, k)
				}
				g.cb(sub)
				rl.Sub = append(rl.Sub, sub)
			}
			if r.p(20) {
				rl.Sub = append(rl.Sub, &Rule{Name: fmt.Sprintf("I%d", i), Body: g.term()})
				// and use it
				rl.Sub[0].Body = &Expr{Op: "seq", K: []*Expr{{Op: "ref", S: fmt.Sprintf("I%d", i)}, g.unit(0)}}
			}
			g.cb(rl)
		default:
			rl.Body = g.expr(c.Depth)
			g.cb(rl)
		}
		gs.Rules = append(gs.Rules, rl)
	}
	repair(gs, g)
	return gs
}

func (g *gen) cb(rl *Rule) {
	if g.r.p(g.c.CB) {
		rl.CB = g.r.in(1, 3)
		rl.Mode = pick(g.r, []string{"tag", "tag", "tag", "id", "str"})
		if g.r.p(8) {
			rl.Mode = pick(g.r, []string{"text", "print", "int", "map"})
		}
	}
	if rl.Sub == nil && g.r.p(g.c.Skip) {
		rl.SkipCache = true
	}
}

var wildRepair bool // keep left recursion

// repair removes what the model or the documentation does not define: left
// recursion, unbounded repetitions of something nullable, labels in odd places.
func repair(gs *GSpec, g *gen) {
	wild := wildRepair
	for it := 0; it < 200; it++ {
		in := analyse(gs)
		changed := false
		// mark maplike targets which are not any more
		gs.walk(func(r *Rule) {
			if r.Body == nil || changed {
				return
			}
			// left recursion: cut one left reference of a recursive rule
			if !wild && (r.Name != "" && in.leftRec(r.Name) || r.Name == "") {
				r.Body = cutLeft(in, r, r.Body, g, &changed)
			}
		})
		if changed {
			continue
		}
		gs.walk(func(r *Rule) {
			if r.Body == nil {
				return
			}
			r.Body = fix(in, r.Body, nil, g, &changed)
		})
		if !changed {
			return
		}
	}
	panic("grammar could not be repaired: " + gs.String())
}

// the name through which an unnamed o rule can be recursive is its rank's
func cutLeft(in *gInfo, r *Rule, e *Expr, g *gen, changed *bool) *Expr {
	if *changed {
		return e
	}
	switch e.Op {
	case "ref":
		bad := in.leftRec(e.S)
		if bad {
			*changed = true
			t := g.term()
			if e.Label != "@" && e.Label != "&" {
				t.Label = e.Label
			} else {
				t.Label = g.label()
			}
			return t
		}
	case "seq":
		for i, k := range e.K {
			e.K[i] = cutLeft(in, r, k, g, changed)
			if *changed || !in.nullable(k) {
				return e
			}
		}
	default:
		for i, k := range e.K {
			e.K[i] = cutLeft(in, r, k, g, changed)
			if *changed {
				return e
			}
			if e.Op == "rep" && !in.nullable(k) {
				return e
			}
		}
	}
	return e
}

// do labels of e escape to an enclosing sequence?
func innerLabels(e *Expr) bool {
	switch e.Op {
	case "seq":
		for _, k := range e.K {
			if hasLabels(k) {
				return true
			}
		}
	}
	return false
}

func hasLabels(e *Expr) bool {
	switch e.Op {
	case "seq":
		return innerLabels(e)
	case "opt":
		return e.Label != "" || hasLabels(e.K[0])
	}
	return e.Label != ""
}

func fix(in *gInfo, e *Expr, parent *Expr, g *gen, changed *bool) *Expr {
	for i, k := range e.K {
		e.K[i] = fix(in, k, e, g, changed)
	}
	switch e.Op {
	case "rep":
		if in.nullable(e.K[0]) || e.K[0].Op == "opt" {
			e.K[0] = g.term()
			*changed = true
		}
		if len(e.K) > 1 && in.nullable(e.K[1]) {
			e.K[1] = g.term()
			*changed = true
		}
	case "opt":
		k := e.K[0]
		if k.Label != "" {
			k.Label = ""
			*changed = true
		}
		if k.Op == "opt" || k.Op == "not" || k.Op == "look" {
			e.K[0] = g.term()
			*changed = true
		}
		inSeq := parent != nil && parent.Op == "seq"
		if hasLabels(e.K[0]) && !inSeq {
			stripLabels(e.K[0])
			*changed = true
		}
		if inSeq && hasLabels(e.K[0]) {
			// the labelled optional of a labelled group: unclear
			if e.Label != "" {
				e.Label = ""
				*changed = true
			}
			if e.K[0].Op == "seq" {
				// must produce a map: needs a direct label
				ok := false
				for _, u := range e.K[0].K {
					if u.Label != "" && u.Label != "@" && u.Label != "&" {
						ok = true
					}
				}
				if !ok {
					stripLabels(e.K[0])
					*changed = true
				}
			}
		}
	case "not", "look":
		if e.K[0].Op == "not" || e.K[0].Op == "opt" || e.K[0].Op == "look" {
			e.K[0] = g.term()
			*changed = true
		}
		if e.K[0].Label != "" {
			e.K[0].Label = ""
			*changed = true
		}
		if e.Label != "" {
			e.Label = ""
			*changed = true
		}
	case "ref":
		if e.Label == "@" || e.Label == "&" {
			inSeq := parent != nil && parent.Op == "seq"
			if !inSeq || !in.mapLike(e.S) {
				e.Label = g.label()
				if !inSeq {
					e.Label = ""
				}
				*changed = true
			}
		}
	case "alt":
		for _, k := range e.K {
			if k.Op == "alt" || k.Op == "opt" {
				*changed = true
				*k = *g.term()
			}
		}
	case "seq":
		// a member that is a group with labels inside and merges nothing: its
		// labels leak to the type of this sequence but not its value; legal, rare
		for i, k := range e.K {
			if k.Op == "seq" && innerLabels(k) {
				stripLabels(k)
				*changed = true
			}
			if k.Op == "seq" && k.Label != "" {
				// the label of an unlabelled group is lost by its own labels_
				e.K[i].Label = ""
				*changed = true
			}
		}
	}
	return e
}

func stripLabels(e *Expr) {
	e.walk(func(x *Expr) { x.Label = "" })
}

func (in *gInfo) mapLike(name string) bool {
	r := in.rules[name]
	if r == nil || r.Body == nil || r.Body.Op != "seq" {
		return false
	}
	if r.CB > 0 && r.Mode != "id" {
		return r.Mode == "map" || r.Mode == "empty"
	}
	for _, u := range r.Body.K {
		if u.Label != "" && u.Label != "@" && u.Label != "&" && u.Op != "opt" && u.Op != "seq" {
			return true
		}
	}
	return false
}

// ---- texts ----

type sampler struct {
	r    *rng
	in   *gInfo
	g    *GSpec
	b    strings.Builder
	fuel int
	big  int // bias of the repetitions
}

func (s *sampler) rule(r *Rule, d int) {
	if s.fuel <= 0 {
		return
	}
	s.fuel--
	if r.Sub != nil {
		var os []*Rule
		for _, x := range r.Sub {
			if x.O {
				os = append(os, x)
			}
		}
		if d <= 0 {
			s.rule(os[len(os)-1], d-1)
			return
		}
		s.rule(pick(s.r, os), d)
		return
	}
	s.expr(r.Body, d)
}

func (s *sampler) expr(e *Expr, d int) {
	if s.fuel <= 0 {
		return
	}
	s.fuel--
	switch e.Op {
	case "str":
		s.b.WriteString(e.S)
	case "cls":
		c := e.S
		if strings.HasPrefix(c, "^") {
			s.b.WriteString(pick(s.r, []string{"z", "y"}))
			return
		}
		var rs []string
		esc := false
		for _, x := range c {
			if x == '\\' && !esc {
				esc = true
				continue
			}
			esc = false
			rs = append(rs, string(x))
		}
		s.b.WriteString(pick(s.r, rs))
	case "re":
		// the generated ones start with a (quoted) character
		c := strings.TrimPrefix(e.S, "(")
		c = strings.TrimPrefix(c, "[")
		c = strings.TrimPrefix(c, "\\")
		x, _ := utf8.DecodeRuneInString(c)
		s.b.WriteString(string(x))
		if strings.HasSuffix(e.S, "+") && s.r.p(50) {
			s.b.WriteString(string(x))
		}
	case "ref":
		if r := s.in.rules[e.S]; r != nil {
			s.rule(r, d-1)
		}
	case "seq":
		for _, k := range e.K {
			s.expr(k, d)
		}
	case "alt":
		if d <= 0 {
			s.expr(e.K[len(e.K)-1], d-1)
			return
		}
		s.expr(pick(s.r, e.K), d)
	case "opt":
		if d > 0 && s.r.p(50) {
			s.expr(e.K[0], d-1)
		}
	case "rep":
		min, max := e.Min, e.Max
		if e.Plus {
			min = 1
		}
		if min < 0 {
			min = 0
		}
		n := min
		if d > 0 {
			n += s.r.n(3)
			if s.big > 0 && max < 0 && s.r.p(30) {
				n += s.r.n(s.big)
			}
		}
		if max >= 0 && n > max && s.r.p(80) {
			n = max
		}
		for i := 0; i < n; i++ {
			if i > 0 && len(e.K) > 1 {
				s.expr(e.K[1], d-1)
			}
			s.expr(e.K[0], d-1)
		}
	}
}

func sampleText(r *rng, g *GSpec, in *gInfo, big int) string {
	s := &sampler{r: r, in: in, g: g, fuel: 60 + 12*big, big: big}
	var os []*Rule
	for _, x := range g.Rules {
		if x.O {
			os = append(os, x)
		}
	}
	s.rule(pick(r, os), r.in(2, 6))
	return s.b.String()
}

func alphabetOf(g *GSpec) []string {
	m := map[rune]bool{}
	var o []string
	g.walk(func(r *Rule) {
		r.Body.walk(func(e *Expr) {
			if e.Op == "str" {
				for _, x := range e.S {
					if !m[x] {
						m[x] = true
						o = append(o, string(x))
					}
				}
			}
		})
	})
	o = append(o, "a", "b")
	return o
}

func mutateText(r *rng, s string, abc []string) string {
	rs := []rune(s)
	for k := r.in(1, 2); k > 0; k-- {
		i := r.n(len(rs) + 1)
		switch r.n(5) {
		case 0:
			if i < len(rs) {
				rs = append(rs[:i:i], rs[i+1:]...)
			}
		case 1:
			rs = append(rs[:i:i], append([]rune(pick(r, abc)), rs[i:]...)...)
		case 2:
			if i < len(rs) {
				rs = append(rs[:i:i], append([]rune(pick(r, abc)), rs[i+1:]...)...)
			}
		case 3:
			rs = rs[:i]
		case 4:
			rs = append(rs, rs[i:]...)
		}
	}
	return string(rs)
}

// genText: mostly texts which the grammar accepts or nearly accepts
func genText(r *rng, g *GSpec, in *gInfo, big int) string {
	var s string
	k := r.n(10)
	best := ""
	for i := 0; i < 4; i++ {
		s = sampleText(r, g, in, big)
		if len(s) > len(best) {
			best = s
		}
	}
	s = best
	if k >= 6 {
		s = mutateText(r, s, alphabetOf(g))
	}
	max := 40 + 20*big
	if len(s) > max {
		rs := []rune(s)
		if len(rs) > max {
			rs = rs[:max]
		}
		s = string(rs)
	}
	return s
}

// ---- left recursive grammars ----

func str1(s string) *Expr                   { return &Expr{Op: "str", S: s} }
func refx(s string) *Expr                   { return &Expr{Op: "ref", S: s} }
func seqx(k ...*Expr) *Expr                 { return &Expr{Op: "seq", K: k} }
func altx(k ...*Expr) *Expr                 { return &Expr{Op: "alt", K: k} }
func lab(l string, e *Expr) *Expr           { e.Label = l; return e }
func repx(e *Expr, min, max int) *Expr      { return &Expr{Op: "rep", Min: min, Max: max, K: []*Expr{e}} }
func optx(e *Expr) *Expr                    { return &Expr{Op: "opt", K: []*Expr{e}} }
func notx(e *Expr) *Expr                    { return &Expr{Op: "not", K: []*Expr{e}} }
func irule(name string, e *Expr) *Rule      { return &Rule{Name: name, Body: e} }
func orule(name string, e *Expr) *Rule      { return &Rule{Name: name, O: true, Body: e} }
func withCB(r *Rule, n int, m string) *Rule { r.CB, r.Mode = n, m; return r }

// genLR: levels of precedence, each with left recursive rules that are direct,
// indirect through other rules or through a rank, possibly after something
// nullable, with postfix operators, labels, groups.
func genLR(r *rng) *GSpec {
	g := &GSpec{Name: "lr"}
	if r.p(10) {
		g.Style = r.u64() | 1
	}
	levels := r.in(1, 3)
	ops := [][]string{{"+", "-"}, {"*", "/"}, {"^", "%"}}
	posts := []string{"!", "?", "."}
	spaces := r.p(25)
	labels := r.p(40)
	cbp := pick(r, []int{0, 40, 80})
	top := orule("", refx("L0"))
	if r.p(30) {
		top = orule("TOP", seqx(refx("L0"), optx(str1(";"))))
	}
	g.Rules = append(g.Rules, top)
	cb := func(rl *Rule) *Rule {
		if r.p(cbp) {
			rl.CB, rl.Mode = r.in(1, 3), pick(r, []string{"tag", "tag", "id", "str"})
			if r.p(8) {
				rl.Mode = pick(r, []string{"text", "print", "int", "map"})
			}
		}
		return rl
	}
	l := func(name string, e *Expr) *Expr {
		if labels {
			e.Label = name
		}
		return e
	}
	shareY := r.p(40)
	indirect := pick(r, []int{25, 25, 25, 80})
	for i := 0; i < levels; i++ {
		me := fmt.Sprintf("L%d", i)
		next := fmt.Sprintf("L%d", i+1)
		var alts []*Expr
		var extra []*Rule
		nalt := r.in(1, 3)
		for k := 0; k < nalt; k++ {
			var a *Expr
			switch r.n(5) {
			case 0: // postfix
				a = seqx(l("e", refx(me)), l("p", str1(posts[(i+k)%3])))
			case 1: // call / index
				a = seqx(l("f", refx(me)), str1("("), l("a", refx("L0")), str1(")"))
			default:
				op := ops[i][k%2]
				var o *Expr = str1(op)
				if r.p(30) {
					o = &Expr{Op: "cls", S: reQuote(op)}
				}
				right := next
				if r.p(15) {
					right = me
				}
				if spaces {
					a = seqx(l("l", refx(me)), refx("_"), l("o", o), refx("_"), l("r", refx(right)))
				} else {
					a = seqx(l("l", refx(me)), l("o", o), l("r", refx(right)))
				}
			}
			group := r.p(8)
			if group { // the recursion is in a group of alternatives
				e := a.K[0]
				a.K[0] = altx(e, str1(pick(r, []string{";", ":", "-"})))
				a.K[0].Label, e.Label = e.Label, ""
			}
			if r.p(12) {
				a.K = append([]*Expr{notx(str1(";"))}, a.K...)
			}
			if r.p(10) { // after something which may match nothing
				a.K = append([]*Expr{refx("_sp")}, a.K...)
			}
			if r.p(indirect) { // indirect
				n := fmt.Sprintf("X%d_%d", i, k)
				if !group && r.p(40) { // through two rules
					n2 := n + "b"
					m := fmt.Sprintf("Y%d_%d", i, k)
					if i < 2 && shareY { // the same one for several
						m = fmt.Sprintf("Y%d_", i)
					}
					// the left operand is another rule which is the recursion
					for z, u := range a.K {
						if u.Op == "ref" && u.S == me {
							a.K[z] = &Expr{Op: "ref", S: m, Label: u.Label}
							break
						}
					}
					if !slices.ContainsFunc(extra, func(x *Rule) bool { return x.Name == m }) {
						extra = append(extra, cb(irule(m, refx(me))))
					}
					extra = append(extra, cb(irule(n2, a)))
					a = refx(n2)
					if r.p(50) {
						extra = append(extra, cb(irule(n, refx(n2))))
						a = refx(n)
					}
				} else {
					extra = append(extra, cb(irule(n, a)))
					a = refx(n)
				}
			}
			alts = append(alts, a)
		}
		base := refx(next)
		if r.p(50) { // as a rank
			rk := &Rule{Name: me}
			for z, a := range alts {
				rl := &Rule{O: true, Body: a}
				if r.p(20) && a.Op != "ref" {
					rl.Name = fmt.Sprintf("Z%d_%d", i, z)
				}
				rk.Sub = append(rk.Sub, cb(rl))
			}
			rk.Sub = append(rk.Sub, cb(&Rule{O: true, Body: base}))
			if r.p(10) { // the base first: the recursion never gets its turn, unless the base is rejected
				n := len(rk.Sub)
				rk.Sub[0], rk.Sub[n-1] = rk.Sub[n-1], rk.Sub[0]
			}
			g.Rules = append(g.Rules, cb(rk))
		} else {
			g.Rules = append(g.Rules, cb(irule(me, &Expr{Op: "alt", K: append(alts, base)})))
		}
		g.Rules = append(g.Rules, extra...)
		g.LR = append(g.LR, me)
		for _, x := range extra {
			g.InLR = append(g.InLR, x.Name)
		}
	}
	last := fmt.Sprintf("L%d", levels)
	alts := []*Expr{{Op: "cls", S: "0-9"}}
	if r.p(60) {
		alts = append(alts, seqx(str1("("), refx("L0"), str1(")")))
	}
	if r.p(20) {
		alts = append(alts, seqx(str1("-"), refx(last)))
	}
	if r.p(30) {
		alts[0] = &Expr{Op: "re", S: "[0-9]+"}
	}
	if len(alts) == 1 {
		g.Rules = append(g.Rules, cb(irule(last, alts[0])))
	} else {
		g.Rules = append(g.Rules, cb(irule(last, altx(alts...))))
	}
	if r.p(20) { // left recursive without a value
		blank := func() *Expr { return pick(r, []*Expr{str1(" "), str1(" "), {Op: "cls", S: " "}}) }
		g.Rules = append(g.Rules, irule("_", optx(refx("_B"))), irule("_B", altx(seqx(refx("_B"), blank()), seqx(str1(" "), str1(" ")), str1(" "))))
	} else {
		g.Rules = append(g.Rules, irule("_", repx(str1(" "), -1, -1)))
	}
	g.Rules = append(g.Rules, irule("_sp", optx(str1("_"))))
	if r.p(60) { // fix the digits so that sampling can use them
		g.walk(func(x *Rule) {
			x.Body.walk(func(e *Expr) {
				if e.Op == "cls" && e.S == "0-9" {
					e.S = "012"
				}
			})
		})
	} else {
		g.walk(func(x *Rule) {
			x.Body.walk(func(e *Expr) {
				if e.Op == "cls" && e.S == "0-9" {
					e.S = "01"
				}
			})
		})
	}
	g.walk(func(x *Rule) {
		x.Body.walk(func(e *Expr) {
			if e.Op == "re" && e.S == "[0-9]+" {
				e.S = "0+"
			}
		})
	})
	// alternatives in the LR alternation that carry labels outside a sequence: none
	return g
}

// which rules may have SkipCache: those which are on no left recursive cycle
func skippable(g *GSpec) []string {
	in := analyse(g)
	var o []string
	g.walk(func(r *Rule) {
		if r.Name != "" && r.Sub == nil && (!in.leftRec(r.Name) || slices.Contains(g.InLR, r.Name)) {
			o = append(o, r.Name)
		}
	})
	return o
}
