package main

import (
	"fmt"
	"slices"
	"strings"
)

// Grammars with many rules, and texts which begin with something long: where
// numbers grow beyond what small grammars and texts reach.

var widerProps = map[string]bool{"C01": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C12": true, "C15": true, "C16": true, "C20": true, "C23": true}

// wider may change g; when it does so that its texts have to begin with
// something, it returns that.
func (b *builder) wider(g *GSpec) (fill string) {
	if !widerProps[b.sc.Prop] {
		return ""
	}
	if b.sc.Prop == "C08" && len(b.in) > 1 { // the same grammar with other options
		if slices.ContainsFunc(g.Rules, func(x *Rule) bool { return x.Name == "zfill" || x.Name == "zpad0" }) { // made from the first one
		} else if b.fill[0] != "" {
			longStart(b.r, g)
		} else if n := len(b.sc.Gs[0].Rules) - len(g.Rules); n > 0 {
			padWith(g, n, len(g.Rules)/2)
		}
		return b.fill[0]
	}
	r := newRng(b.r.u64(), 0x31de)
	long := 12
	if b.sc.Prop == "C08" || b.sc.Prop == "C03" {
		long = 36
	}
	switch k := r.n(1000); {
	case k < 12:
		padRules(r, g)
	case k < 12+long && b.sc.Prop != "C12" && len(g.Rules) < 40 && g.nodes() < 400:
		fill = longStart(r, g)
	}
	return fill
}

// padRules adds rules which nothing uses between those of g.
func padRules(r *rng, g *GSpec) {
	n := pick(r, []int{64, 64, 128, 256, 256})
	if k := len(g.Rules); k > 1 && r.p(80) {
		n -= r.in(1, k-1)
	}
	at := len(g.Rules)/2 + r.in(-1, 1)
	if at < 0 || at > len(g.Rules) {
		at = 0
	}
	padWith(g, n, at)
}

func padWith(g *GSpec, n, at int) {
	var rs []*Rule
	rs = append(rs, g.Rules[:at]...)
	for i := 0; i < n; i++ {
		rs = append(rs, irule(fmt.Sprintf("zpad%d", i), str1("z")))
	}
	g.Rules = append(rs, g.Rules[at:]...)
}

// longStart: what g is becomes what comes after something long.
func longStart(r *rng, g *GSpec) string {
	var rest, tops []*Rule
	for _, x := range g.Rules {
		if x.O {
			tops = append(tops, x)
		} else {
			rest = append(rest, x)
		}
	}
	body := &Rule{Name: "zbody", Sub: tops}
	g.Rules = append([]*Rule{orule("zstart", seqx(refx("zfill"), refx("zbody"))), irule("zfill", &Expr{Op: "re", S: "#[^#]*#"}), body}, rest...)
	unit := pick(r, []string{"x", "x", "x\n", "xxxxxxx\n", "é", "xé\n\n"})
	size := pick(r, []int{200, 900, 5000, 17000, 33000, 66000, 66000, 66000})
	return "#" + strings.Repeat(unit, size/len(unit)) + "#"
}

var renamedProps = map[string]bool{"C01": true, "C03": true, "C05": true, "C11": true, "C12": true, "C14": true, "C16": true, "C18": true, "C23": true}

// renamed: other names for some of the rules, of all the forms there are
func (b *builder) renamed(g *GSpec) {
	most := 4
	if b.sc.Prop == "C18" {
		most = 30
	}
	if !renamedProps[b.sc.Prop] || !b.r.p(most) {
		return
	}
	r := newRng(b.r.u64(), 0x2e4a)
	forms := []string{"%s.x", "X.%s", ".%s", "%s_1", "a%s.b.2", "%s0", "%s%s%s_of_a_name_which_is_rather_long"}
	to := map[string]string{}
	taken := map[string]bool{}
	g.walk(func(x *Rule) { taken[x.Name] = true })
	g.walk(func(x *Rule) {
		if x.Name != "" && x.Name[0] != '_' && x.Name[0] != 'z' && x.Name[0] != '.' && r.p(50) {
			if n := strings.ReplaceAll(pick(r, forms), "%s", x.Name); !taken[n] {
				to[x.Name] = n
				taken[n] = true
			}
		}
	})
	g.walk(func(x *Rule) {
		if n := to[x.Name]; n != "" {
			x.Name = n
		}
		x.Body.walk(func(e *Expr) {
			if n := to[e.S]; n != "" && e.Op == "ref" {
				e.S = n
			}
		})
	})
	for _, ns := range [][]string{g.LR, g.InLR} {
		for i, n := range ns {
			if to[n] != "" {
				ns[i] = to[n]
			}
		}
	}
}

// notes: some parse functions give values which keep an error they made
func notes(r *rng, g *GSpec, percent int) {
	if !r.p(percent) {
		return
	}
	g.walk(func(x *Rule) {
		if x.CB > 0 && x.Mode == "tag" && r.p(60) {
			x.Mode = "note"
		}
	})
}
