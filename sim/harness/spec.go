package main

import (
	"strconv"
	"strings"
)

// ---- grammars as data ----

// Expr is the body of a rule.
//
//	str S    'S'          cls S   [S]        re S   /S/      ref S   S
//	seq K... a b c        alt K...  a | b    opt K   a?
//	rep K[0] (join K[1])  a*b{Min,Max}, or a+b when Plus
//	not K    !a           look K  (?a)
type Expr struct {
	Op    string  `json:"op"`
	S     string  `json:"s,omitempty"`
	Label string  `json:"l,omitempty"`
	K     []*Expr `json:"k,omitempty"`
	Min   int     `json:"min,omitempty"` // rep; -1 is unspecified
	Max   int     `json:"max,omitempty"`
	Plus  bool    `json:"plus,omitempty"`
}

// Rule is a line of a grammar: an o rule takes part in the alternation of its
// rank, an i rule does not.
type Rule struct {
	Name      string  `json:"name,omitempty"`
	O         bool    `json:"o,omitempty"`
	Body      *Expr   `json:"body,omitempty"`
	Sub       []*Rule `json:"sub,omitempty"`
	CB        int     `json:"cb,omitempty"`   // number of parameters of the parse function, 0: none
	Mode      string  `json:"mode,omitempty"` // what it returns: tag, id, str
	SkipCache bool    `json:"skipcache,omitempty"`
	Debug     bool    `json:"debug,omitempty"`
	SkipLog   bool    `json:"skiplog,omitempty"`
	Marker    bool    `json:"marker,omitempty"` // zero-width rule which counts the attempts
}

type GSpec struct {
	Name  string  `json:"name"`
	Rules []*Rule `json:"rules"`
	// LR grammars: which rules are left recursive (none may skip the cache)
	LR    []string `json:"lr,omitempty"`
	// rules on left recursive cycles which are reached through one of LR only
	InLR []string `json:"inlr,omitempty"`
	Raw   string   `json:"raw,omitempty"` // a broken rule to add: see compile faults
	NoMod bool     `json:"nomod,omitempty"`
	// Style decides how the rules are written: spaces, newlines, redundant
	// parentheses and pipes; 0 is the plain way
	Style uint64 `json:"style,omitempty"`
}

func clonex(e *Expr) *Expr {
	if e == nil {
		return nil
	}
	c := *e
	c.K = nil
	for _, k := range e.K {
		c.K = append(c.K, clonex(k))
	}
	return &c
}

func cloneRules(rs []*Rule) []*Rule {
	var o []*Rule
	for _, r := range rs {
		c := *r
		c.Body = clonex(r.Body)
		c.Sub = cloneRules(r.Sub)
		o = append(o, &c)
	}
	return o
}

func (g *GSpec) clone() *GSpec {
	c := *g
	c.Rules = cloneRules(g.Rules)
	c.LR = append([]string{}, g.LR...)
	c.InLR = append([]string{}, g.InLR...)
	return &c
}

func (g *GSpec) walk(f func(r *Rule)) {
	var rec func(rs []*Rule)
	rec = func(rs []*Rule) {
		for _, r := range rs {
			f(r)
			rec(r.Sub)
		}
	}
	rec(g.Rules)
}

func (e *Expr) walk(f func(e *Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, k := range e.K {
		k.walk(f)
	}
}

func (g *GSpec) nodes() int {
	n := 0
	g.walk(func(r *Rule) { n++; r.Body.walk(func(*Expr) { n++ }) })
	return n
}

func escStr(s string) string {
	return strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(s)
}

// render writes a rule body. prec: 0 alternation allowed, 1 sequence allowed, 2
// a labelled or decorated unit allowed, 3 primary only
func (e *Expr) render(prec int) string { return (*style)(nil).render(e, prec) }

func (g *GSpec) body(r *Rule) string {
	if g.Style == 0 {
		return r.Body.render(0)
	}
	st := &style{newRng(g.Style, hashStr(r.Body.render(0)))}
	return st.opt("", "", "", " ", "\n") + st.render(r.Body, 0) + st.opt("", "", "", " ", "\n  ")
}

// wrapped: the rule is written as O(body) where body would do
func (g *GSpec) wrapped(r *Rule) bool {
	return g.Style&6 == 6 && r.Name != "" && hashStr(r.Name)%3 == 0
}

// style makes the choices which leave the meaning of a rule as it is
type style struct{ r *rng }

func (st *style) opt(a ...string) string {
	if st == nil {
		return a[0]
	}
	return pick(st.r, a)
}

func (st *style) p(percent int) bool { return st != nil && st.r.p(percent) }

func (st *style) render(e *Expr, prec int) string {
	s := ""
	p := 3
	switch e.Op {
	case "str":
		s = "'" + escStr(e.S) + "'"
	case "cls":
		s = "[" + e.S + "]"
	case "re":
		s = "/" + e.S + "/"
	case "ref":
		s = e.S
		if st.p(5) {
			s += "(" + st.opt("'x'", "'x' | 'y'", e.S) + ")" // a parameter, which nothing reads
		}
	case "seq":
		if len(e.K) < 2 {
			panic("seq of one")
		}
		for i, k := range e.K {
			if i > 0 {
				s += st.opt(" ", " ", "  ", "\n", " \n\n ")
			}
			s += st.render(k, 2)
		}
		p = 1
	case "alt":
		if st.p(15) {
			s = st.opt("| ", "|", "\n| ", "|| ")
		}
		for i, k := range e.K {
			if i > 0 {
				s += st.opt(" | ", "|", "\n| ", " |\n", "  | ")
			}
			s += st.render(k, 1)
		}
		if st.p(15) {
			s += st.opt(" |", "|", "\n|", "||")
		}
		p = 0
	case "opt":
		s, p = st.render(e.K[0], 3)+"?", 2
	case "not":
		s, p = "!"+st.render(e.K[0], 3), 2
	case "look":
		if st.p(30) {
			s, p = "("+st.opt(" ", "\n")+"?"+st.opt("", " ")+st.render(e.K[0], 0)+")", 3
		} else {
			s, p = "(?"+st.render(e.K[0], 0)+")", 2
		}
	case "rep":
		p = 2
		s = st.render(e.K[0], 3)
		if e.Plus {
			s += "+"
		} else if len(e.K) > 1 || (e.Min < 0 && e.Max < 0) {
			s += "*"
		}
		if len(e.K) > 1 {
			s += st.render(e.K[1], 3)
		}
		if !e.Plus && (e.Min >= 0 || e.Max >= 0) {
			sp := func() string { return st.opt("", " ", "  ", "\n") }
			s += "{" + sp()
			if e.Min >= 0 {
				s += strconv.Itoa(e.Min) + sp()
			}
			s += "," + sp()
			if e.Max >= 0 {
				s += strconv.Itoa(e.Max) + sp()
			}
			s += "}"
		}
	default:
		panic("op " + e.Op)
	}
	if e.Label != "" {
		if p < 2 || st.p(5) {
			s = "(" + s + ")"
		}
		s = e.Label + ":" + s
		p = 2
	}
	if p < prec || st.p(4) {
		in := st.opt("", "", " ")
		if st.p(15) {
			in = st.opt("x", "lbl", "a.b_1", "_") + ": " // a label of the group, which nothing reads
		}
		s = "(" + in + s + st.opt("", "", " ") + ")"
	}
	return s
}

func (g *GSpec) String() string {
	var b strings.Builder
	var rec func(rs []*Rule, ind string)
	rec = func(rs []*Rule, ind string) {
		for _, r := range rs {
			k := "i"
			if r.O {
				k = "o"
			}
			b.WriteString(ind + k + " " + r.Name)
			if r.Sub != nil {
				b.WriteString(" [" + opts(r) + "\n")
				rec(r.Sub, ind+"  ")
				b.WriteString(ind + "]\n")
			} else {
				b.WriteString(" `" + g.body(r) + "`" + map[bool]string{true: " (in O)"}[g.wrapped(r)] + opts(r) + "\n")
			}
		}
	}
	rec(g.Rules, "")
	return b.String()
}

func opts(r *Rule) string {
	s := ""
	if r.CB > 0 {
		s += " cb" + strconv.Itoa(r.CB) + ":" + r.Mode
	}
	if r.SkipCache {
		s += " SkipCache"
	}
	if r.Debug {
		s += " Debug"
	}
	return s
}
